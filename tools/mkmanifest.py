r"""write MANIFEST.json from properties.jsonl and the table below (run by hand)."""
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: VCs generated by symbolic execution of the real functions against pre/postconditions, discharged by ring normal form and z3; bounded stand-ins labelled'
NOTE = {
    'C06': 'Proof over the reals for all points and parameters; derivatives formed symbolically from the code\'s own mapping. Trusted: lib/pv, z3, numpy dispatch; floats idealised as reals.',
    'C07': 'Proof over the reals for arbitrary Jacobian matrices and on real meshes; normals on real meshes additionally as a bounded replay. Trusted: lib/pv, z3; floats idealised as reals.',
}
LEVEL = {}
NA = {}
exec(open(os.path.join(root, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(root, 'tools', 'notes.py')) else None
props = [json.loads(x) for x in open(os.path.join(root, 'properties.jsonl')) if x.strip()]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append(dict(property=i, reason=NA[i]))
        continue
    m['checks'].append(dict(property=i, quick_cmd=f'bin/check {i}', thorough_cmd=f'VERIF_TIER=thorough bin/check {i}',
                            technique=T, level=LEVEL.get(i, 'proof'), level_note=NOTE[i]))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
