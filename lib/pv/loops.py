# -*- coding: utf-8 -*-
r"""Loops over abstract collections, verified by invariants.

`invariants(fn)` rewrites (mechanically, from the AST of the source of fn as it is now) every `for T in IT: BODY` into

    it = IT
    if it is an Abstract collection:
        enter:  the invariant holds now (obligations); the state is replaced by an arbitrary one satisfying it
        T = an arbitrary item;  BODY;  leave: the invariant holds again (obligations)
        the state is replaced by an arbitrary one satisfying the invariant at the end
    else:
        for T in it: BODY

The facts of the arbitrary iteration are dropped after the loop."""
import ast
import copy
import inspect
import textwrap
from . import sym, boxes
from .sym import Unsupported


class Abstract:
    r"""an abstract collection with its loop rule; subclass: enter(L) -> new locals, item(), leave(L), end(L) -> new locals."""
    names = ()
    serial = 0      # tells loops apart that start after the same decisions

    def __iter__(self): raise Unsupported('an abstract collection outside a for statement')


class Done(Exception):
    r"""this path's iteration is verified; another path has continued after the loop (which does not depend on the iteration)."""


class Frame:
    def __init__(self, rule):
        self.rule = rule
        ex = sym.Explorer.current
        self.before = tuple(ex.taken)
        self.pc = len(ex.pc)
        self.facts = len(boxes.ctx.mk.assumptions)
        self.obl = len(boxes.ctx.obl)

    def enter(self, L):
        r = self.rule.enter(L)
        for n in self.rule.names:
            if n not in L:
                raise Unsupported(f'loop state {n}')
        self.value = self.rule.item()
        return r

    def leave(self, L):
        self.rule.leave(L)
        ex = sym.Explorer.current
        live = boxes.ctx.mk.assumptions
        local = live[self.facts:] + ex.pc[self.pc:]
        obl = boxes.ctx.obl
        for k in range(self.obl, len(obl)):
            o = obl[k]
            obl[k] = o[:3] + ((list(o[3]) if len(o) > 3 else []) + local,)
        del live[self.facts:]
        del ex.pc[self.pc:]
        seen = ex.__dict__.setdefault('continued', {})
        first = seen.setdefault((self.before, self.rule.serial), tuple(ex.taken))
        if first != tuple(ex.taken)[:len(first)]:
            raise Done
        return self.rule.end(L)


def frame(it): return Frame(it) if isinstance(it, Abstract) else None


class Rewrite(ast.NodeTransformer):
    def __init__(self, local): self.local, self.n = local, 0

    def visit_For(self, node):
        plain = copy.deepcopy(node)
        for c in ast.iter_child_nodes(node):
            pass
        bad = [x for x in ast.walk(node) if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield))]
        k = self.n
        self.n += 1
        used = sorted({x.id for x in ast.walk(node) if isinstance(x, ast.Name)} & self.local)
        self.generic_visit(node)
        src = textwrap.dedent(f'''
            __it{k} = None
            __f{k} = __frame__(__it{k})
            if __f{k} is not None:
                __v{k} = __f{k}.enter(locals())
                pass
            else:
                pass
        ''')
        body = ast.parse(src).body
        body[0].value = node.iter
        iff = body[2]
        take = []
        for n in used:
            take += ast.parse(f"if '{n}' in __v{k}: {n} = __v{k}['{n}']").body
        item = ast.Assign(targets=[copy.deepcopy(node.target)], value=ast.parse(f'__f{k}.value', mode='eval').body)
        if bad or node.orelse:
            iff.body = ast.parse("raise __unsupported__('break, continue, return or else in a loop over an abstract collection')").body
        else:
            iff.body = iff.body[:1] + take + [item] + node.body + ast.parse(f'__v{k} = __f{k}.leave(locals())').body + copy.deepcopy(take)
        node2 = ast.For(target=node.target, iter=ast.Name(id=f'__it{k}', ctx=ast.Load()), body=copy.deepcopy(node.body), orelse=node.orelse)
        iff.orelse = [node2]
        return body


def invariants(fn, **env):
    r"""fn with its loops rewritten, running in its module's (patched) globals."""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except (OSError, SyntaxError) as e:
        raise Unsupported(f'source: {e}')
    d = tree.body[0]
    d.decorator_list = []
    local = set(fn.__code__.co_varnames)
    d = Rewrite(local).visit(d)
    ast.fix_missing_locations(tree)
    g = dict(fn.__globals__)
    g.update(env)
    g.update(__frame__=frame, __unsupported__=Unsupported)
    exec(compile(tree, f'<{fn.__name__} with invariants>', 'exec'), g)
    return g[fn.__name__]
