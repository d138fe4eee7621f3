r"""DESIGN.md = tools/design/head.md + one section per property + planted bugs + tools/design/tail.md"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE, LEVEL = {}, {}
exec(open(f'{root}/tools/notes.py').read())
HOW = json.load(open(f'{root}/tools/design/how.json'))
out = [open(f'{root}/tools/design/head.md').read().rstrip() + '\n']
for l in open(f'{root}/properties.jsonl'):
    p = json.loads(l)
    out.append(f"### {p['id']} {p['title']}\n\n{HOW.get(p['id'], '')}\n\n{NOTE.get(p['id'], '')}\n")
out.append('## Planted bugs\n\nEach is in `seeded/`; all pass the existing tests. `tools/trybug.sh <id>` applies one, runs demo, tests and check, and undoes it.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
caught = json.load(open(f'{root}/tools/design/caught.json'))
for b in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(b, 'not recorded')} |")
out.append('\n' + open(f'{root}/tools/design/tail.md').read())
open(f'{root}/DESIGN.md', 'w').write('\n'.join(out))
