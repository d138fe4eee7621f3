# -*- coding: utf-8 -*-
r"""Builders of real phyem objects (no stand-ins): meshes, spaces and forms of both implementations."""
import numpy as np
import phyem as ph

ph.config.set_pr_cache(False)


def abstract(n, spaces, p, periodic=False):
    r"""spaces: {name: (k, orientation)} -> dict of abstract objects."""
    ph.config.set_embedding_space_dim(n)
    manifold = ph.manifold(n, periodic=True) if periodic else ph.manifold(n)
    mesh = ph.mesh(manifold)
    ph.space.set_mesh(mesh)
    fs = {}
    for name, (k, ori) in spaces.items():
        L = ph.space.new('Lambda', k, orientation=ori)
        fs[name] = L.make_form(name, name)
    if p is not None:
        ph.space.finite(p)
    return dict(manifold=manifold, mesh=mesh, **fs)


def msepy(n, layout, spaces=None, p=2, manifold='crazy', **kw):
    d = abstract(n, spaces or {'f0': (0, 'outer')}, p, kw.get('periodic', False) and manifold in ('crazy', 'crazy_multi'))
    ms, obj = ph.fem.apply('msepy', d)
    if manifold == 'crazy' and 'periodic' not in kw:
        kw['periodic'] = False
    ms.config(obj['manifold'])(manifold, **kw)
    ms.config(obj['mesh'])(layout)
    return ms, obj


def msehtt(n, cfg, spaces=None, p=2, **kw):
    d = abstract(n, spaces or {'f0': (0, 'outer')}, p)
    ms, obj = ph.fem.apply('msehtt-s', d)
    tgm = ms.tgm()
    ms.config(tgm)(cfg, **kw)
    m = ms.base['meshes'][d['mesh']._sym_repr]
    ms.config(m)(tgm, including='all')
    obj = dict(obj)
    obj['tgm'] = tgm
    obj['mesh'] = m
    return ms, obj
