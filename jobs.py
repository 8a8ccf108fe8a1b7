"""Symbolic jobs per property. A job is (harness, entry, parameters, configuration)."""
ASSUME = [
    'doubles are modelled as exact reals: rounding, NaN and overflow of floating point are outside the claim',
    'coordinates and plane distances are smaller than the 1e30 sentinels used by the code; additive guards below 1e-150 are treated as 0',
    'integers, memory and control flow are exact; stderr/stdout output is a no-op',
]
OUTSIDE = 'shapes, orders, grid sizes and capacities other than those listed under jobs; floating-point rounding'
PROPS = {}
def J(h, e, cfg=None, time=60, cost=1, **p):
    extra = {k[1:]: p.pop(k) for k in list(p) if k.startswith('_')}
    return dict(h=h, e=e, p=p, cfg=dict({'R3D_MAX_VERTS': 64}, **(cfg or {})), time=time, cost=cost, **extra)
def prop(pid, quick, thorough=None, **kw):
    PROPS[pid] = dict(quick=quick, thorough=thorough or [], **kw)
def expand(pid, tier):
    s = PROPS[pid]
    out = []
    for j in s['quick'] + (s['thorough'] if tier == 'thorough' else []):
        j = dict(j, prop=pid)
        if tier == 'thorough': j['time'] = j['time'] * 4
        out.append(j)
    return out
BIG = {'R3D_MAX_VERTS': 200}
HUGE = {'R3D_MAX_VERTS': 512, 'R2D_MAX_VERTS': 256, 'defs': ['HUGE_REF']}
prop('C01', [J('h3clip', 'h_clip_signs', solid=w, ax=a, dir=d, off=o) for w, a, d, o in
             [(0, 0, 1, 0), (0, 1, -1, 2), (0, 2, 1, -1), (1, 0, 1, 0), (1, 1, 1, 0), (1, 2, -1, 1), (2, 0, 1, 0), (2, 2, 1, 0), (3, 0, -1, 0), (5, 2, 1, 0), ]]
     + [J('h3clip', 'h_clip_signs', solid=w, nsym=k, off=o) for w, k, o in [(9, 7, -2), (10, 8, 0), (11, 8, 0), (8, 8, -3), (4, 8, 0), (6, 8, -1), (7, 8, -1)]]
     + [J('h3clip', 'h_clip_signs2', solid=0, sx=x, sy=y) for x, y in [(4, 0), (3, 1), (2, 2)]]
     + [J('h3clip', 'h_clip_signs', BIG, solid=w, nsym=k, off=o) for w, k, o in [(125, 6, -12), (150, 4, -20), (220, 5, -9)]]
     + [J('h3clip', 'h_clip_seq', BIG, solid=w, k=k, n0=n0, ns=ns, nsym=s, good=g) for w, k, n0, ns, s, g in [(1, 3, 0, 1, 2, 1), (0, 4, 2, 1, 2, 1), (125, 8, 3, 1, 1, 0), (9, 2, 1, 1, 1, 0), (11, 2, 1, 1, 1, 0)]])
prop('C02', [J('h3clip', 'h_clip_tet', order=o, ax=a, full=f, dir=d, soff=s) for o, a, f, d, s in [(1, 0, 2, 1, 0), (2, 1, 1, -1, 1), (0, 2, 3, 1, 0), (1, 1, 2, -1, 1)]]
     + [J('h3clip', 'h_clip_plane', order=o, solid=w, good=1, ox=x, oy=y, oz=z) for o, w, x, y, z in [(1, 0, 2, 3, 3), (1, 1, 1, 2, 3), (1, 2, 4, 0, 2), (1, 3, 3, 3, 3), (1, 4, 1, 1, -1), (1, 5, 2, 4, 6), (0, 6, 3, 2, 1), (0, 7, 4, 4, 0)]]
     + [J('h3clip', 'h_clip_seq', solid=w, k=k, n0=n0, order=o, together=t) for w, k, n0, o, t in [(0, 1, 2, 2, 1), (1, 1, 4, 2, 1), (1, 2, 2, 1, 1), (4, 2, 1, 1, 1), (6, 2, 5, 1, 1), (9, 1, 2, 1, 1), (11, 1, 4, 1, 1), (0, 2, 4, 1, 0)]]
     + [J('h3clip', 'h_clip_seq', BIG, solid=w, k=k, n0=n0, ns=ns, nsym=1, order=1) for w, k, n0, ns in [(1, 12, 0, 1), (4, 10, 3, 1), (140, 6, 2, 1), (215, 8, 5, 1)]])
prop('C03', [J('h3split', 'h_split_signs', solid=w, ax=a, dir=d, off=o) for w, a, d, o in [(0, 0, 1, 0), (0, 2, -1, 1), (1, 1, 1, 0), (1, 0, -1, 2), (2, 2, 1, 0), (3, 0, 1, 0), (5, 1, 1, 0)]]
     + [J('h3split', 'h_split_signs', solid=w, nsym=k, off=o) for w, k, o in [(4, 7, 0), (6, 7, -1), (7, 7, -1), (9, 6, -2), (11, 7, -1)]]
     + [J('h3split', 'h_split_signs', BIG, solid=w, nsym=k, off=o) for w, k, o in [(125, 4, -12), (130, 3, -20), (215, 4, -6)]]
     + [J('h3split', 'h_split_list', perm=p, order=o) for p, o in [(0, 1), (1, 1), (2, 2), (3, 0)]]
     + [J('h3split', 'h_split_plane', solid=w, order=o, ox=x, oy=y, oz=z) for w, o, x, y, z in [(0, 1, 2, 3, 3), (1, 1, 1, 2, 3), (3, 1, 3, 3, 3), (6, 0, 3, 2, 1)]])
NOSH = {'shift': 0}
SH2 = {'defs': ['SHIFT_POLY']}   # r2d.c does not include the generated configuration header
prop('C04', [J('h3mom', 'h_reduce_tet', order=o, mask=m) for o, m in [(0, 7), (1, 7), (2, 3), (3, 1), (4, 2), (5, 4)]]
     + [J('h3mom', 'h_reduce_tet', NOSH, order=o, mask=m) for o, m in [(0, 7), (1, 7), (2, 7), (3, 3), (4, 5), (6, 4)]]
     + [J('h3mom', 'h_reduce_box', order=o, mask=m) for o, m in [(2, 7), (3, 5), (5, 1), (8, 2), (9, 4), (13, 1), (18, 2)]]
     + [J('h3mom', 'h_reduce_box', NOSH, order=o, mask=m) for o, m in [(3, 7), (5, 3), (10, 4)]]
     + [J('h3mom', 'h_reduce_solid', solid=w, order=o, perm=p, mask=m) for w, o, p, m in [(2, 3, 5, 7), (3, 3, 3, 7), (4, 2, 5, 7), (5, 3, 0, 7), (6, 3, 5, 7), (7, 2, 7, 7), (9, 2, 3, 7), (10, 2, 5, 7), (11, 3, 7, 7), (8, 5, 5, 1), (0, 7, 0, 2)]]
     + [J('h3mom', 'h_reduce_solid', NOSH, solid=w, order=o, perm=p, mask=m) for w, o, p, m in [(3, 4, 3, 7), (6, 3, 5, 7), (9, 3, 7, 7), (10, 3, 5, 7)]]
     + [J('h3mom', 'h_reduce_solid', BIG, solid=w, order=o, perm=p, mask=m) for w, o, p, m in [(130, 2, 7, 7), (150, 1, 3, 7), (220, 2, 3, 7), (160, 3, 7, 1)]]
     + [J('h3mom', 'h_reduce_clipped', solid=w, order=o) for w, o in [(1, 2), (4, 1), (6, 1)]]
     + [J('h3mom', 'h_reduce_empty', order=o) for o in (0, 1, 4)]
     + [J('h3mom', 'h_shift', order=o, symm=s) for o, s in [(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 0), (7, 0), (13, 0), (17, 0)]]
     + [J('h3mom', 'h_shift_solid', solid=w, order=o) for w, o in [(3, 3), (6, 2)]])
prop('C06', [J('h2clip', 'h_clip2_signs', rgn=w, ax=a, dir=d, off=o) for w, a, d, o in [(0, 0, 1, 0), (0, 1, -1, 1), (1, 0, -1, 0), (1, 1, 1, -2), (2, 0, 1, 0), (3, 1, 1, 0), (4, 0, 1, 0), (7, 0, 1, 0)]]
     + [J('h2clip', 'h_clip2_signs', rgn=w, nsym=k, off=o, ax=a) for w, k, o, a in [(5, 8, 0, 0), (6, 8, 0, 1), (8, 8, -1, 0), (130, 7, -12, 0), (160, 5, -20, 0)]]
     + [J('h2clip', 'h_clip2_poly', n=n, ax=a, order=o, dir=d, soff=s) for n, a, o, d, s in [(3, 0, 2, 1, 1), (3, 1, 2, -1, 1), (4, 0, 1, 1, 0), (5, 1, 0, 1, 0)]]
     + [J('h2clip', 'h_clip2_line', rgn=w, order=o, ox=x, oy=y) for w, o, x, y in [(0, 2, 3, 4), (1, 2, 2, 3), (2, 2, 4, 4), (3, 2, 3, 2), (4, 1, 8, 5), (5, 1, 1, 2), (6, 2, 4, 4), (7, 1, 12, 6), (5, 1, 0, -8), (1, 1, -4, 0), (1, 1, 20, 20)]]
     + [J('h2clip', 'h_clip2_seq', rgn=w, k=k, n0=n, order=o, nsym=s, together=t) for w, k, n, o, s, t in [(0, 2, 0, 2, 99, 1), (1, 3, 1, 1, 99, 1), (5, 2, 1, 1, 99, 1), (4, 2, 2, 1, 99, 1), (6, 2, 3, 1, 99, 1), (8, 2, 0, 1, 99, 1), (2, 2, 4, 1, 99, 0), (1, 8, 0, 1, 1, 1), (5, 12, 3, 1, 1, 1), (140, 5, 2, 1, 1, 1)]])
prop('C07', [J('h2clip', 'h_split2_signs', rgn=w, ax=a, dir=d, off=o) for w, a, d, o in [(0, 0, 1, 0), (0, 1, -1, 1), (1, 0, -1, 0), (1, 1, 1, -2), (2, 0, 1, 0), (3, 1, 1, 0), (4, 0, 1, 0), (7, 0, 1, 0), (5, 1, -1, 0), (6, 1, 1, -1)]]
     + [J('h2clip', 'h_split2_signs', rgn=w, nsym=k, off=o) for w, k, o in [(8, 8, -1), (130, 6, -12), (160, 4, -20)]]
     + [J('h2clip', 'h_split2_list', perm=p, order=o) for p, o in [(0, 1), (1, 2), (2, 2), (3, 1)]]
     + [J('h2clip', 'h_split2_line', rgn=w, order=o, ox=x, oy=y) for w, o, x, y in [(0, 2, 3, 4), (1, 2, 2, 3), (2, 2, 4, 4), (3, 2, 3, 2), (4, 1, 8, 5), (5, 1, 1, 2), (6, 2, 4, 4), (7, 1, 12, 6)]])
prop('C08', [J('h2clip', 'h_reduce2_poly', c, n=n, order=o, mask=m) for c in ({}, SH2) for n, o, m in [(3, 0, 3), (3, 1, 3), (3, 2, 3), (3, 3, 3), (4, 2, 3), (5, 1, 3), (5, 4, 1), (4, 6, 2)]]
     + [J('h2clip', 'h_reduce2_box', c, order=o, mask=m) for c in ({}, SH2) for o, m in [(2, 3), (4, 3), (6, 1), (12, 2), (14, 1), (20, 2), (24, 1)]]
     + [J('h2clip', 'h_reduce2_rgn', c, rgn=w, order=o, perm=p) for c in ({}, SH2) for w, o, p in [(1, 4, 3), (3, 5, 5), (4, 3, 3), (5, 3, 7), (6, 3, 3), (7, 3, 5), (8, 2, 7), (120, 2, 3), (160, 2, 7)]]
     + [J('h2clip', 'h_reduce2_empty', order=o) for o in (0, 1, 5)]
     + [J('h2clip', 'h_shift2', order=o, symm=s) for o, s in [(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (7, 0), (10, 0), (20, 0), (34, 0)]]
     + [J('h2clip', 'h_shift2_rgn', rgn=w, order=o) for w, o in [(4, 3), (6, 2)]])
def G3(n, o=(0, 0, 0)): return dict(ni=n[0], nj=n[1], nk=n[2], oi=o[0], oj=o[1], ok=o[2])
def G2(n, o=(0, 0)): return dict(ni=n[0], nj=n[1], oi=o[0], oj=o[1])
prop('C09', [J('h3vox', 'h_vox', solid=1, order=o, v=v, d=d, **G3(n, off)) for o, v, d, n, off in
             [(1, 1, 0, (3, 1, 1), (-1, 0, 0)), (1, 2, 2, (1, 4, 1), (-1, -2, 0)), (2, 4, 0, (2, 3, 5), (-1, 0, 0)), (0, 3, 0, (3, 3, 1), (-2, 1, 0)), (1, 7, 0, (2, 2, 2), (-1, 1, -1)), (1, 7, 7, (1, 2, 1), (0, 0, 0)), (0, 1, 1, (7, 1, 1), (-3, 0, 0)), (1, 4, 5, (3, 2, 3), (4, 2, -7))]]
     + [J('h3vox', 'h_vox', solid=w, order=o, t=t, **G3(n, off)) for w, o, t, n, off in
        [(0, 1, 1, (4, 3, 2), (0, 0, 0)), (3, 1, 2, (2, 4, 3), (0, 0, 0)), (4, 0, 4, (3, 2, 4), (-2, -1, -2)), (6, 1, 1, (4, 2, 3), (-5, 0, 1)), (9, 1, 4, (3, 3, 2), (1, 1, -4)), (11, 0, 2, (3, 4, 2), (0, 0, 0)), (0, 0, 3, (2, 2, 1), (0, 0, 0)), (5, 1, 2, (1, 5, 1), (0, -2, 0))]]
     + [J('h3vox', 'h_vox', solid=w, order=o, v=v, d=d, **G3(n, off)) for w, o, v, d, n, off in
        [(0, 1, 1, 0, (3, 1, 1), (-1, 0, 0)), (0, 0, 2, 2, (1, 2, 1), (-1, -1, 0)), (2, 0, 4, 0, (1, 1, 2), (0, 0, 0)), (5, 0, 2, 0, (1, 2, 1), (0, 0, 0))]]
     + [J('h3vox', 'h_vox', solid=w, order=0, t=1 << a, **G3(n, off)) for w, a, n, off in [(0, 0, (33, 1, 1), (-9, 0, 0)), (1, 1, (2, 17, 1), (-1, -5, 3)), (0, 2, (1, 1, 40), (0, 7, -30)), (0, 1, (5, 6, 7), (0, 0, 0))]]
     + [J('h3vox', 'h_vox', solid=w, order=o, d=d, **G3(n, off)) for w, o, d, n, off in [(0, 4, 0, (3, 2, 2), (0, -1, 0)), (4, 3, 0, (2, 2, 2), (-1, -1, -1)), (0, 1, 1, (3, 2, 1), (1, 0, 0)), (0, 1, 2, (2, 3, 2), (0, -1, 0))]]
     + [J('h3vox', 'h_vox_noop', order=1, mode=m) for m in (0, 1, 2)])
prop('C10', [J('h2ras', 'h_ras', rgn=1, order=o, v=v, d=d, **G2(n, off)) for o, v, d, n, off in
             [(1, 1, 0, (3, 1), (-1, 0)), (1, 2, 2, (1, 4), (-1, -2)), (2, 3, 0, (2, 3), (-1, 0)), (1, 3, 3, (2, 3), (-1, -1)), (0, 1, 1, (9, 2), (-3, 1)), (1, 3, 0, (4, 4), (3, -6))]]
     + [J('h2ras', 'h_ras', rgn=w, order=o, t=t, **G2(n, off)) for w, o, t, n, off in
        [(0, 2, 1, (4, 3), (0, 0)), (0, 1, 3, (3, 2), (0, 0)), (3, 2, 2, (3, 4), (0, 0)), (4, 1, 1, (4, 4), (-2, -1)), (5, 1, 2, (5, 3), (-2, -1)), (6, 2, 1, (3, 3), (0, 0)), (8, 1, 2, (4, 2), (0, -3)), (2, 0, 3, (2, 3), (0, 1)), (0, 5, 1, (3, 3), (1, 1))]]
     + [J('h2ras', 'h_ras', rgn=w, order=o, v=v, d=d, **G2(n, off)) for w, o, v, d, n, off in
        [(0, 2, 1, 0, (4, 1), (-1, 0)), (2, 1, 2, 0, (1, 3), (-1, -1)), (0, 1, 2, 2, (1, 3), (0, -1)), (4, 0, 1, 0, (2, 1), (0, 0)), (0, 1, 3, 0, (2, 1), (0, 0))]]
     + [J('h2ras', 'h_ras', rgn=w, order=0, t=1 << a, **G2(n, off)) for w, a, n, off in [(0, 0, (65, 1), (-9, 0)), (5, 1, (2, 33), (-1, -5)), (2, 1, (11, 7), (0, 7)), (140, 0, (8, 5), (-3, 0))]]
     + [J('h2ras', 'h_ras', rgn=w, order=o, d=d, **G2(n, off)) for w, o, d, n, off in [(5, 4, 0, (5, 6), (-2, 0)), (0, 1, 1, (3, 2), (1, 0)), (4, 1, 2, (2, 3), (0, -1))]]
     + [J('h2ras', 'h_ras_noop', order=1, mode=m) for m in (0, 1, 2)])
N64 = {'RND_MAX_VERTS': 80}
def G4(n, o=(0, 0, 0, 0)): return dict([('n%d' % i, n[i]) for i in range(4)] + [('o%d' % i, o[i]) for i in range(4)])
prop('C18', [J('h4', 'h4_clip_signs', N64, poly=w, ax=a, dir=d, off=o) for w, a, d, o in [(1, 0, 1, 0), (1, 3, -1, 1), (0, 2, 1, -1), (2, 1, 1, 0), (10, 0, 1, 0), (10, 2, -1, 1), (10, 1, 1, 0), (10, 3, -1, 0)]]
     + [J('h4', 'h4_clip_plane', N64, poly=w, mask=m, o0=a, o1=b, o2=c, o3=e) for w, m, a, b, c, e in [(0, 15, 2, 2, 2, 2), (1, 15, 4, 4, 4, 3), (2, 15, 3, 3, 4, 5), (10, 3, 1, 2, 3, 5), (10, 12, 0, 6, 4, 4), (10, 9, 1, 2, 3, 5), (10, 7, -4, 0, 0, 2)]]
     + [J('h4', 'h4_clip_seq', N64, poly=w, k=k, n0=n, nsym=s, together=t, good=g) for w, k, n, s, t, g in [(0, 1, 2, 1, 1, 1), (0, 2, 4, 2, 1, 0), (1, 2, 2, 2, 0, 0), (10, 1, 2, 1, 1, 1), (10, 2, 4, 2, 1, 0), (1, 5, 0, 1, 1, 0), (10, 4, 2, 1, 1, 0),
        (1, 3, 3, 3, 1, 0), (2, 3, 7, 3, 1, 0), (10, 3, 8, 2, 1, 0), (10, 2, 8, 2, 0, 0), (1, 7, 3, 1, 1, 1), (10, 5, 8, 1, 1, 0), (2, 6, 1, 2, 1, 0)]],
     [J('h4', 'h4_clip_plane', N64, time=200, poly=10, mask=15, o0=1, o1=2, o2=3, o3=5), J('h4', 'h4_clip_seq', N64, poly=10, k=3, n0=2, nsym=3, together=1), J('h4', 'h4_clip_seq', N64, poly=1, k=4, n0=2, nsym=4, together=1),
      J('h4', 'h4_clip_seq', {'RND_MAX_VERTS': 100}, poly=10, k=8, n0=0, nsym=2, together=1)])
prop('C19', [J('h4', 'h4_reduce_simplex', N64, poly=p, mask=m, t=t, u=u) for p, m, t, u in [(0, 0, 15, 0), (1, 0, 15, 0), (2, 0, 15, 0), (0, 0, 1, 1), (1, 0, 8, 1), (2, 0, 4, 1)]]
     + [J('h4', 'h4_reduce_box', N64, mask=m) for m in (1, 6, 15)]
     + [J('h4', 'h4_reduce_clipped', N64, cost=3, poly=p, k=k, n0=n, gc=g) for p, k, n, g in [(10, 1, 2, 0), (0, 1, 2, 0), (10, 1, 4, 0), (10, 2, 0, 0), (1, 1, 4, 0), (10, 3, 0, 0), (2, 1, 0, 1), (1, 2, 8, 1), (10, 2, 8, 1), (10, 1, 9, 2), (0, 3, 7, 1)]]
     + [J('h4', 'h4_vox', N64, time=150, cost=2, poly=10, v=v, d=d, **G4(n, o)) for v, d, n, o in [(1, 0, (3, 1, 1, 1), (0, 0, 0, 0)), (6, 0, (1, 2, 3, 1), (0, -1, 0, 0)), (8, 8, (1, 1, 1, 4), (0, -1, 0, -2)), (15, 0, (2, 1, 1, 2), (0, -1, 0, -2)), (2, 0, (2, 3, 2, 3), (0, 1, 2, 3)), (4, 0, (1, 1, 9, 1), (-1, -1, -7, 0)), (1, 0, (5, 2, 1, 3), (-3, 0, 0, 1))]]
     + [J('h4', 'h4_vox', N64, poly=w, t=t, gc=g, **G4(n, o)) for w, t, n, o, g in [(0, 1, (2, 1, 1, 1), (0, 0, 0, 0), 0), (0, 2, (1, 3, 1, 1), (0, -1, 0, 0), 0), (2, 8, (1, 1, 1, 2), (0, 0, 0, 0), 1), (0, 1, (2, 2, 1, 1), (0, 0, 0, 0), 0)]]
     + [J('h4', 'h4_vox', N64, poly=w, gc=g, **G4(n, o)) for w, n, o, g in [(0, (2, 2, 2, 2), (0, 0, 0, 0), 1), (1, (3, 2, 1, 2), (-1, 4, 0, -2), 1), (2, (2, 1, 3, 1), (-1, 0, 0, -2), 1)]]
     + [J('h4', 'h4_reduce_touch', N64), J('h4', 'h4_reduce_empty', N64)] + [J('h4', 'h4_vox_noop', N64, mode=m) for m in (0, 1, 2)],
     [J('h4', 'h4_vox', N64, poly=0, t=8, gc=0, **G4((2, 1, 1, 2), (-1, 0, 0, 1)))])
def M3(n): return {'R3D_MAX_VERTS': n}
def M2(n): return {'R2D_MAX_VERTS': n}
def M4(n): return {'RND_MAX_VERTS': n}
prop('C05', [J('h3cap', 'h_cap_clip', M3(m), solid=w, ax=a, dir=d, nsym=s) for m, w, a, d, s in [(4, 0, 0, 1, 99), (5, 0, 1, -1, 99), (6, 0, 2, 1, 99), (7, 0, 0, 1, 99), (8, 0, 0, 1, 99), (8, 1, 0, 1, 99), (9, 1, 1, 1, 99), (10, 1, 2, -1, 99), (11, 1, 0, 1, 99), (12, 1, 1, -1, 99), (13, 1, 1, 1, 99), (6, 2, 2, 1, 99), (8, 2, 0, 1, 99), (9, 2, 1, 1, 99), (16, 3, 1, 1, 99), (24, 4, 0, 1, 7), (25, 4, 0, 1, 7)]]
     + [J('h3cap', 'h_cap_seq', M3(m), solid=w, k=k, n0=n) for m, w, k, n in [(8, 1, 2, 1), (10, 1, 2, 4), (11, 1, 2, 1), (12, 1, 3, 0), (6, 0, 2, 0), (7, 0, 3, 2), (14, 1, 2, 5)]]
     + [J('h3cap', 'h_cap_split', M3(m), solid=w, ax=a, dir=d, nsym=s) for m, w, a, d, s in [(4, 0, 0, 1, 99), (6, 0, 1, 1, 99), (9, 0, 1, 1, 99), (10, 0, 1, -1, 99), (11, 0, 2, 1, 99), (12, 0, 2, 1, 99), (8, 1, 0, 1, 99), (12, 1, 1, -1, 99), (15, 1, 0, 1, 99), (16, 1, 0, 1, 99), (14, 2, 0, 1, 99), (17, 2, 2, 1, 99)]]
     + [J('h3cap', 'h_cap_init', M3(m), solid=w) for m, w in [(8, 1), (7, 1), (6, 2), (5, 2), (16, 3), (15, 3), (14, 3), (24, 4), (23, 4), (12, 4), (11, 4), (18, 5), (17, 5), (4, 4), (64, 9), (63, 9), (40, 120), (39, 120), (72, 212), (71, 212)]]
     + [J('h3cap', 'h_cap_vox', M3(m), solid=w, n=n, ax=a, must=u) for m, w, n, a, u in [(8, 1, 3, 0, 0), (12, 1, 3, 0, 0), (15, 1, 2, 0, 0), (16, 1, 3, 0, 1), (16, 1, 4, 1, 1), (12, 0, 3, 2, 0), (5, 0, 2, 0, 0), (17, 0, 3, 0, 0)]]
     + [J('h3cap', 'h_cap_clamp', M3(m), solid=w) for m, w in [(8, 1), (11, 1), (12, 1), (6, 0), (8, 0), (7, 0)]])
prop('C20', [J('h2cap', 'h2_cap_clip', M2(m), rgn=w, ax=a, dir=d, nsym=s) for m, w, a, d, s in [(3, 0, 0, 1, 99), (4, 0, 1, -1, 99), (5, 0, 0, 1, 99), (6, 0, 0, -1, 99), (4, 1, 0, 1, 99), (5, 1, 1, 1, 99), (6, 1, 0, -1, 99), (8, 1, 0, 1, 99), (8, 4, 0, 1, 99), (10, 4, 1, 1, 99), (12, 4, 0, 1, 99), (15, 4, 0, -1, 99), (16, 4, 0, 1, 99), (12, 5, 0, 1, 9), (7, 7, 0, 1, 99), (9, 7, 1, -1, 99), (64, 164, 1, 1, 6), (66, 164, 1, 1, 6)]]
     + [J('h2cap', 'h2_cap_seq', M2(m), rgn=w, k=k, n0=n) for m, w, k, n in [(10, 5, 2, 1), (11, 5, 2, 4), (12, 5, 2, 2), (13, 5, 2, 0), (14, 5, 2, 5), (4, 1, 3, 1), (5, 1, 3, 3), (6, 1, 2, 1), (7, 1, 3, 1), (9, 4, 2, 2), (10, 4, 2, 3), (12, 8, 2, 1)]]
     + [J('h2cap', 'h2_cap_split', M2(m), rgn=w, ax=a, dir=d, nsym=s) for m, w, a, d, s in [(3, 0, 0, 1, 99), (6, 0, 1, -1, 99), (7, 0, 0, 1, 99), (8, 0, 1, 1, 99), (4, 1, 1, -1, 99), (8, 1, 0, 1, 99), (9, 1, 0, 1, 99), (11, 1, 0, -1, 99), (12, 1, 1, 1, 99), (8, 4, 0, 1, 99), (13, 4, 1, 1, 99), (16, 4, 0, 1, 99), (23, 4, 0, -1, 99), (24, 4, 0, 1, 99), (64, 164, 1, 1, 5), (68, 164, 1, 1, 5)]]
     + [J('h2cap', 'h2_cap_split', M2(m), rgn=w, rgn2=w2, ax=0, off=o, nsym=0, nsym2=99) for m, w, w2, o in [(8, 0, 1, 0), (7, 0, 1, -1), (10, 1, 2, 0), (5, 2, 0, 0)]]
     + [J('h2cap', 'h2_cap_init', M2(m), n=n) for m, n in [(4, 3), (4, 4), (4, 5), (4, 12), (8, 7), (8, 8), (8, 9), (16, 16), (16, 17)]]
     + [J('h2cap', 'h2_cap_ras', M2(m), rgn=w, n=n, ax=a, must=u, dn=dn) for m, w, n, a, u, dn in [(4, 1, 4, 0, 0, 3), (5, 1, 4, 0, 0, 3), (7, 1, 4, 0, 0, 3), (8, 1, 4, 0, 1, 3), (8, 1, 5, 1, 1, 2), (9, 0, 5, 0, 1, 3), (8, 0, 4, 0, 0, 3), (3, 0, 4, 1, 0, 3), (10, 5, 5, 0, 0, 6), (16, 5, 5, 0, 0, 6), (20, 4, 4, 1, 0, 3)]]
     + [J('h2cap', 'h2_cap_clamp', M2(m), rgn=w) for m, w in [(4, 1), (5, 1), (6, 1), (3, 0), (4, 0), (5, 0), (9, 4), (11, 4)]]
     + [J('h4cap', 'h4_cap_clip', M4(m), poly=w, ax=a, dir=d) for m, w, a, d in [(5, 0, 0, 1), (6, 0, 1, -1), (8, 0, 2, 1), (9, 0, 0, 1), (10, 0, 3, 1), (11, 0, 3, -1), (16, 1, 0, 1), (17, 1, 1, 1), (20, 1, 2, -1), (23, 1, 1, 1), (24, 1, 2, 1)]]
     + [J('h4cap', 'h4_cap_seq', M4(m), poly=w, k=k, n0=n) for m, w, k, n in [(16, 1, 1, 0), (20, 1, 1, 1), (24, 1, 2, 0), (28, 1, 1, 2), (27, 1, 2, 3), (32, 1, 2, 4)]]
     + [J('h4cap', 'h4_cap_vox', M4(m), poly=w, n=n, ax=a, must=u) for m, w, n, a, u in [(16, 1, 2, 0, 0), (23, 1, 2, 1, 0), (24, 1, 2, 0, 1), (24, 1, 3, 2, 1), (6, 0, 3, 0, 0), (8, 0, 4, 1, 0)]]
     + [J('h4cap', 'h4_cap_clamp', M4(m), poly=w, ax=a) for m, w, a in [(16, 1, 0), (20, 1, 1), (24, 1, 3), (5, 0, 0), (8, 0, 1)]])
prop('C11', [J('hbox', 'h_ibox', N64, dim=m, shape=w, v=v, d=d, span=s, off=o) for m, w, v, d, s, o in [(2, 0, 1, 0, 3, 0), (2, 0, 2, 2, 2, 0), (2, 1, 3, 0, 1, -1), (2, 3, 1, 1, 3, 4), (3, 0, 1, 1, 3, 0), (3, 0, 2, 0, 2, -5), (3, 0, 4, 4, 3, 1), (3, 2, 1, 0, 2, 0), (3, 2, 2, 0, 2, 0), (4, 0, 1, 1, 2, 0), (4, 0, 2, 0, 2, -3), (4, 0, 4, 0, 3, 0), (4, 0, 8, 8, 2, 1)]]
     + [J('hbox', 'h_ibox', N64, dim=m, shape=w, t=t, d=d, span=20) for m, w, t, d in [(2, 5, 3, 0), (2, 4, 0, 0), (3, 7, 7, 0), (3, 9, 3, 0), (3, 120, 2, 0), (4, 1, 5, 0), (4, 1, 10, 0), (4, 0, 9, 0), (2, 0, 0, 3), (3, 0, 0, 2), (4, 1, 0, 8)]]
     + [J('hbox', 'h_clamp', N64, dim=m, shape=w, t=t, d=d, free=f, max=x, base=b) for m, w, t, d, f, x, b in
        [(2, 0, 0, 0, 3, 3, 0), (2, 1, 1, 0, 1, 3, 0), (2, 5, 0, 0, 3, 4, -7), (2, 4, 2, 0, 2, 3, 2), (2, 0, 0, 1, 1, 2, 0), (2, 1, 0, 2, 2, 3, 0), (2, 6, 3, 0, 1, 2, 0),
         (3, 0, 0, 0, 7, 2, 0), (3, 1, 1, 0, 1, 3, 0), (3, 1, 2, 0, 2, 3, -9), (3, 1, 4, 0, 4, 2, 0), (3, 6, 0, 0, 5, 2, 0), (3, 7, 0, 0, 3, 3, 4), (3, 0, 0, 1, 1, 2, 0), (3, 3, 0, 4, 4, 2, 0), (3, 4, 2, 0, 2, 2, 0),
         (4, 1, 0, 0, 3, 2, 0), (4, 1, 0, 0, 12, 2, 0), (4, 1, 4, 0, 4, 2, 0), (4, 1, 0, 8, 8, 2, -4), (4, 0, 0, 0, 5, 2, 0), (4, 0, 1, 0, 1, 2, 0)]]
     + [J('hbox', 'h_clamp', N64, dim=m, shape=w, mono=1) for m, w in [(2, 5), (3, 1), (3, 0), (4, 1), (4, 0)]]
     + [J('hbox', 'h_clamp', N64, dim=m, shape=w, t=t, range=r, free=0) for m, w, t, r in [(2, 1, 3, 2), (3, 1, 7, 1), (4, 1, 15, 1)]]
     + [J('hbox', 'h_clamp', N64, dim=m, shape=w, t=t, inner=1, skip=k, fine=f) for m, w, t, k, f in [(2, 5, 0, -1, 1), (2, 4, 1, -1, 1), (3, 7, 0, -1, 4), (3, 9, 0, -1, 4), (3, 1, 2, -1, 4), (3, 0, 1, -1, 4), (4, 2, 1, -1, 1), (4, 2, 4, 0, 1), (4, 2, 2, 3, 1), (4, 2, 8, 7, 1)]])
prop('C12', [J('h3brep', 'h_build', solid=w, rot=r, ord=o, ren=n) for w, r, o, n in [(0, -1, 0, 0), (0, 2, -1, 0), (0, -1, 3, 3), (1, -1, 0, 3), (1, 1, -1, 0), (1, 1, -2, 5), (2, -1, 0, 0), (2, 1, -1, 5), (3, -1, 0, 0), (3, 1, -1, 0), (3, -1, 2, 2), (5, -1, 0, 0), (5, 1, -1, 3), (5, 2, -1, 2), (4, 1, -2, 0), (4, -2, -3, 5), (4, 2, 3, 5),
                                                                          (6, 1, -2, 5), (6, -2, -3, 7), (7, 1, -2, 5), (8, 2, -2, 5), (9, 1, -2, 3), (9, -2, -3, 5), (10, -2, -3, 5), (11, 1, -2, 3), (12, 1, -3, 5)]]
     + [J('h3brep', 'h_build', BIG, solid=w, rot=r, ord=o, ren=n) for w, r, o, n in [(13, 1, -2, 5), (13, -2, 4, 7), (205, -2, -2, 3), (206, 1, -2, 3), (208, 1, -3, 3), (216, 1, -3, 5), (130, 1, 7, 7), (160, 2, -3, 7), (225, 1, 7, 4)]]
     + [J('h3brep', 'h_build', solid=w, rot=r, ord=o, ren=n, good=1) for w, r, o, n in [(0, 1, -3, 0), (1, 1, -3, 3), (2, 1, -2, 5), (3, 1, -1, 2), (4, 1, -3, 5), (8, 1, 3, 5), (206, 1, -3, 3), (210, 1, 3, 5)]]
     + [J('h3brep', 'h_build', solid=w, rot=1, ord=o, mom=m) for w, o, m in [(0, 3, 3), (5, 5, 2), (4, 3, 2), (205, 3, 2)]]
     + [J('h3brep', 'h_build_bad', solid=w, mode=m) for w in (0, 1, 3, 4, 5, 7, 9) for m in (0, 1, 2, 3) if not (w in (4, 9) and m in (1, 3))]
     + [J('h3cap', 'h_cap_init', M3(m), solid=w) for m, w in [(8, 1), (7, 1), (16, 3), (15, 3), (24, 4), (11, 4), (4, 4), (72, 212), (71, 212)]])
prop('C13', [J('h3brep', 'h_brep', solid=w, mask=m) for w, m in [(0, 7), (1, 7), (2, 1), (3, 7), (4, 7), (5, 2), (6, 7), (7, 7), (8, 4), (9, 7), (10, 7), (11, 7), (12, 1)]]
     + [J('h3brep', 'h_brep', solid=w, full=1) for w in (0, 3, 4, 5, 9, 1, 2, 6, 206)]
     + [J('h3brep', 'h_brep', BIG, solid=w, mask=m) for w, m in [(125, 1), (225, 4), (140, 2), (13, 7)]]
     + [J('h3brep', 'h_brep_clipped', solid=w, k=k, n0=n) for w, k, n in [(12, 1, 2), (12, 1, 0), (12, 2, 2), (12, 1, 3), (6, 1, 1), (6, 2, 1), (1, 2, 0), (1, 2, 4), (0, 1, 5), (4, 1, 0), (4, 1, 7), (9, 1, 0), (9, 1, 1), (9, 2, 0), (11, 1, 3), (10, 1, 2), (7, 2, 5), (3, 2, 2)]]
     + [J('h3brep', 'h_brep_split', solid=w, n0=n) for w, n in [(12, 2), (6, 1), (9, 0), (1, 3), (3, 5)]]
     + [J('h3brep', 'h_brep', BIG, solid=13, full=1), J('h3brep', 'h_brep_clipped', BIG, solid=13, k=1, n0=0), J('h3brep', 'h_brep_clipped', BIG, solid=13, k=1, n0=7), J('h3brep', 'h_brep_empty')]
     + [J('h3brep', 'h_brep', M3(m), solid=w, mask=k, full=f) for m, w, k, f in [(4, 0, 7, 0), (4, 0, 0, 1), (8, 1, 7, 0), (9, 1, 7, 0), (6, 2, 1, 0), (6, 2, 0, 1)]])

def D(n, **c): return dict({'defs': ['DIMN=%d' % n]}, **c)
def GJ(dm, mx, n, f, b=0, t=60, cost=1, **kw):
    return J('hgood', 'h_good', D(dm, **{{2: 'R2D_MAX_VERTS', 3: 'R3D_MAX_VERTS', 4: 'RND_MAX_VERTS'}[dm]: mx}, **({'RND_DIM': kw.pop('dim')} if 'dim' in kw else {})), time=t, cost=cost, nv=n, free=f, base=b, **kw)
prop('C15', [GJ(2, 4, 3, 99, symn=1), GJ(2, 4, 4, 99, cost=3), GJ(2, 5, 5, 6, cost=3), GJ(2, 8, 8, 4, 2, cost=2), GJ(2, 10, 10, 2, swap=1), GJ(2, 32, 32, 2, 2), GJ(2, 6, 5, 4, stride=2, junk=3), GJ(2, 3, 3, 99)]
  + [GJ(3, 4, 4, 8, cost=4), GJ(3, 4, 4, 6, symn=1, cost=2), GJ(3, 5, 5, 6, cost=3), GJ(3, 8, 8, 3, 2), GJ(3, 8, 8, 4, 1, stride=3), GJ(3, 8, 8, 5, 3, stride=2, cost=3), GJ(3, 6, 6, 4, 5, junk=2, cost=2), GJ(3, 8, 8, 1, 2, swap=1), GJ(3, 8, 8, 1, 1, swap=1), GJ(3, 6, 6, 2, 3, swap=1),
     GJ(3, 12, 12, 2, 4, swap=0), GJ(3, 12, 12, 1, 4, swap=1), GJ(3, 16, 16, 2, 4, symn=1), GJ(3, 24, 24, 1, 3), GJ(3, 36, 36, 1, 4), GJ(3, 10, 8, 3, 2, junk=9), GJ(3, 10, 10, 3, 5, **{'from': 7}), GJ(3, 12, 12, 3, 2, **{'from': 18}), GJ(3, 5, 4, 6, junk=1, cost=2)]
  + [GJ(4, 5, 5, 5, cost=3), GJ(4, 6, 6, 4, 1, cost=2), GJ(4, 10, 10, 2, 2), GJ(4, 10, 10, 4, 3, stride=4), GJ(4, 10, 10, 0, 3, swap=1), GJ(4, 16, 16, 1, 5), GJ(4, 16, 16, 1, 4), GJ(4, 16, 16, 1, 6), GJ(4, 8, 8, 2, 1, swap=1, cost=2), GJ(4, 7, 6, 3, 1, junk=4), GJ(4, 5, 5, 3, symn=1),
     GJ(4, 8, 8, 3, 2, dim=3), GJ(4, 6, 6, 4, 3, dim=3), GJ(4, 6, 6, 4, dim=5)],
  [GJ(3, 4, 4, 99, t=400, cost=9), GJ(2, 6, 6, 8, t=200, cost=5), GJ(3, 6, 6, 7, 3, t=200, cost=5), GJ(4, 6, 6, 6, 1, t=200, cost=5), GJ(3, 8, 8, 6, 2, t=200, cost=5), GJ(3, 8, 8, 6, 3, stride=2, t=200, cost=5), GJ(3, 8, 8, 6, 1, t=200, cost=5), GJ(3, 36, 36, 1, 4, swap=1, t=200, cost=5), GJ(4, 16, 16, 4, 6, stride=4, t=200, cost=5), GJ(4, 16, 16, 0, 6, swap=1, t=100)],
  assume=['for buffers in which every vertex has the right number of distinct links and is pointed to equally often, but some link is one-way, only safety is claimed'])
prop('C14', [J('hfaces', 'h_tet_faces', base=b, mask=m, perm=p) for b, m, p in [(0, 0xfff, 0), (0, 0x1ff, 0), (1, 0xe00, 0), (2, 0x00f, 0), (1, 0x249, 0), (2, 0x492, 0)]]
  + [J('hfaces', 'h_box_faces'), J('hfaces', 'h_box_faces2')]
  + [J('hfaces', 'h_poly_faces', solid=w, mask=m, rot=r, flip=f, scale=s) for w, m, r, f, s in [(0, 7, 1, 0, 1), (1, 7, -1, 0, 0), (2, 7, 1, 0, 1), (3, 7, -1, 0, 0), (4, 7, 1, 1, 1), (6, 7, 1, 0, 1), (6, 7, 3, 1, 0), (9, 7, 1, 0, 0), (12, 7, 1, 0, 1), (11, 7, 2, 0, 0), (120, 7, 1, 0, 1), (150, 7, 3, 0, 0), (220, 7, 1, 0, 0)]]
  + [J('hfaces', 'h_poly_faces', solid=w, full=k, rot=r) for w, k, r in [(0, 4, 0), (0, 2, 1), (4, 2, 1), (5, 2, 2)]]
  + [J('hfaces', 'h_poly_faces', solid=w, shear=1, mask=5) for w in (1, 6, 12)]
  + [J('hfaces', 'h_face_ngon', n=n, tilt=t) for n, t in [(3, 1), (4, 1), (5, 2), (7, 1), (8, 3), (13, 0), (40, 1)]]
  + [J('hfaces', 'h_face_star', tilt=t) for t in (0, 1)]
  + [J('hfaces', 'h_poly_faces2', n=n, full=f, conc=c) for n, f, c in [(3, 1, 0), (4, 1, 0), (5, 1, 0), (6, 1, 2)]]
  + [J('hfaces', 'h_poly_faces2', n=n, full=0, nc=c) for n, c in [(6, 0), (9, 1), (40, 0), (100, 1)]]
  + [J('hfaces', 'h_faces_clip', kind=k, ax=a, order=o) for k, a, o in [(0, 0, 1), (0, 1, 1), (0, 2, 1), (1, 0, 1), (1, 1, 1), (1, 2, 1)]]
  + [J('hfaces', 'h_faces_clip2', kind=k, ax=a, order=2) for k in (0, 1) for a in (0, 1)])
# dim 4 stands for rNd with whatever RND_DIM the configuration sets
XF = [('h_rotate', {}), ('h_translate', {}), ('h_scale', {}), ('h_shear', {}), ('h_affine', {'persp': 1}), ('h_affine', {'persp': 0}), ('h_rotate_rigid', {})]
XC = {'R3D_MAX_VERTS': 64, 'R2D_MAX_VERTS': 64, 'RND_MAX_VERTS': 64}
def XD(k): return dict(XC, RND_DIM=k)
prop('C16', [J('hxform', e, XC, dim=d, n=4, full=3, at=1, **kw) for e, kw in XF for d in (2, 3, 4)]
  + [J('hxform', e, XC, dim=d, n=n, full=f, at=a, **kw) for e, kw in XF for d in (2, 3, 4) for n, f, a in [(0, 2, 0), (1, 1, 0), (64, 2, 62), (33, 2, 31)]]
  + [J('hxform', e, XD(k), dim=4, n=6, full=2, at=4, **kw) for e, kw in XF for k in (3, 5)],
  [J('hxform', e, XC, dim=d, n=n, full=f, at=a, **kw) for e, kw in XF for d in (2, 3, 4) for n, f, a in [(16, 16, 0), (63, 4, 59), (40, 8, 16)]])
PC = {'R3D_MAX_VERTS': 64, 'R2D_MAX_VERTS': 300, 'RND_MAX_VERTS': 64}
def PD(k): return dict(PC, RND_DIM=k)
prop('C17', [J('hprim', 'h_init_tet', PC, mask=m, order=o) for m, o in [(0xfff, 0), (0xfff, 1), (0xfff, 2), (0, 2)]]
  + [J('hprim', 'h_init_box', PC, mask=m, order=o) for m, o in [(63, 0), (63, 1), (63, 2), (0, 2)]]
  + [J('hprim', 'h_orient3', PC, deg=d) for d in (0, 1)]
  + [J('hprim', 'h_orient2', PC), J('hprim', 'h_init_box2', PC, order=3)]
  + [J('hprim', 'h_init_poly2', PC, n=n, full=f, at=a, order=o) for n, f, a, o in [(3, 9, 0, 3), (4, 9, 0, 3), (5, 9, 0, 2), (6, 9, 0, 2), (12, 12, 0, 1), (40, 4, 36, 1), (64, 2, 0, 1), (255, 3, 252, 0), (300, 2, 298, 0), (128, 3, 126, 0)]]
  + [J('hprim', e, PD(k)) for e in ('h_init_simplexN', 'h_init_boxN') for k in (3, 4, 5)]
  + [J('hprim', 'h_orientN', PD(k), deg=d, nsym=n) for k, d, n in [(3, 0, 4), (3, 1, 4), (4, 0, 5), (4, 1, 3), (5, 0, 2), (5, 1, 2)]]
  + [J('hprim', 'h_vol_simplex', PD(k), base=b, neg=g) for k, b, g in [(3, 0, 0), (3, 1, 1), (4, 0, 1), (4, 1, 0), (4, 1, 1), (5, 0, 0)]]
  + [J('hprim', 'h_vol_box', PD(k), mask=m) for k, m in [(4, 15), (4, 0), (3, 7), (5, 3)]])

# small boxes in grids of many shapes
def GR(dm, n, o=(0, 0, 0, 0), c=(0, 0, 0, 0), ax=0, **kw):
    return J('hgrid', 'h_grid', D(dm, R2D_MAX_VERTS=32, R3D_MAX_VERTS=32, RND_MAX_VERTS=40), ax=ax, **dict([('n%d' % i, n[i]) for i in range(dm)] + [('o%d' % i, o[i]) for i in range(dm)] + [('c%d' % i, c[i]) for i in range(dm)], **kw))
GR3 = [GR(3, (5, 5, 5), ax=0), GR(3, (5, 5, 5), c=(4, 4, 4), ax=1), GR(3, (5, 5, 5), c=(2, 0, 4), ax=2), GR(3, (3, 3, 3), (-1, -2, -3), (2, 2, 2), 0, order=2), GR(3, (9, 5, 3), (-4, 3, 0), (0, 4, 2), 0, span=2), GR(3, (3, 17, 5), (0, -9, 0), (2, 0, 0), 1), GR(3, (6, 7, 11), (-3, -3, -5), (5, 6, 0), 2, order=1),
       GR(3, (16, 16, 16), (-8, 0, 2), (15, 15, 15), 1, span=1), GR(3, (17, 9, 17), (0, 0, -20), (16, 8, 0), 2), GR(3, (2, 33, 33), (0, -16, 0), (1, 32, 32), 0, d=0), GR(3, (1, 65, 3), c=(0, 64, 2), ax=2, d=2), GR(3, (300, 3, 3), (-150, 0, 0), (0, 2, 2), 1)]
GR2 = [GR(2, (5, 5)), GR(2, (5, 5), c=(4, 4), ax=1), GR(2, (3, 3), (-2, -3), (2, 2), 0, order=3, d=0), GR(2, (33, 65), (-16, -3), (32, 64), 0), GR(2, (65, 33), (4, -3), (0, 32), 1, order=1, span=2), GR(2, (100, 40), (-99, 7), (99, 39), 1, d=1), GR(2, (3, 1000), (0, -500), (0, 999), 0), GR(2, (1025, 2), (0, 0), (1024, 1), 1, order=1), GR(2, (17, 9), (0, 0), (16, 8), 0, span=3)]
GR4 = [GR(4, (3, 3, 3, 3)), GR(4, (3, 3, 3, 3), c=(2, 2, 2, 2), ax=3), GR(4, (5, 3, 3, 3), (-2, -1, 0, 0), (0, 2, 0, 2), 1), GR(4, (2, 5, 3, 5), (0, 0, -3, 1), (1, 4, 2, 4), 2, d=2), GR(4, (5, 5, 5, 5), (0, -2, 0, -5), (4, 4, 4, 4), 0, span=1), GR(4, (9, 1, 5, 3), c=(8, 0, 4, 2), ax=3), GR(4, (1, 17, 2, 9), c=(0, 16, 1, 0), ax=3)]
def GB(dm, n, o, c, **kw): return dict(GR(dm, n, o, c, **kw), e='h_grid_big')
GB3 = [GB(3, (512, 512, 512), (-256, 0, -100), (511, 511, 500), order=3), GB(3, (1300, 1300, 1300), (0, 0, 0), (1299, 1, 650)), GB(3, (2, 65536, 40000), (0, -5, 0), (1, 65535, 39998)), GB(3, (512, 512, 512), (0, 0, 0), (300, 0, 1), order=2)]
GB2 = [GB(2, (40000, 60000), (-20000, 0), (39999, 59998)), GB(2, (30000, 30000), (0, 5), (29999, 1), order=1), GB(2, (512, 512), (0, 5), (511, 510), order=2)]
GB4 = [GB(4, (220, 220, 220, 220), (0, -110, 0, 7), (219, 219, 219, 218)), GB(4, (60, 70, 50, 40), (0, -11, 0, 7), (59, 0, 49, 38))]
for _p, _j in [('C09', GB3), ('C10', GB2), ('C19', GB4), ('C09', GR3), ('C05', GR3), ('C10', GR2), ('C20', GR2 + GR4), ('C19', GR4)]: PROPS[_p]['quick'] += _j

# capacities of the default build: hundreds of vertices
def more(pid, quick, thorough=()): PROPS[pid]['quick'] = PROPS[pid]['quick'] + list(quick); PROPS[pid]['thorough'] = PROPS[pid]['thorough'] + list(thorough)
more('C01', [J('h3clip', 'h_clip_signs', HUGE, solid=w, nsym=k, off=o) for w, k, o in [(1140, 3, -70), (1250, 2, -3), (2084, 2, -40)]]
     + [J('h3clip', 'h_clip_seq', HUGE, solid=w, k=k, n0=n0, ns=ns, nsym=s) for w, k, n0, ns, s in [(1170, 4, 2, 1, 1)]])
more('C02', [J('h3clip', 'h_clip_seq', HUGE, solid=w, k=k, n0=n0, nsym=1, order=o) for w, k, n0, o in [(1150, 2, 4, 1), (2080, 1, 2, 0)]])
more('C03', [J('h3split', 'h_split_signs', HUGE, solid=w, nsym=k, off=o) for w, k, o in [(1140, 2, -70), (1160, 1, -2), (2070, 2, -30)]])
more('C04', [J('h3mom', 'h_reduce_solid', HUGE, solid=w, order=o, perm=p, mask=m) for w, o, p, m in [(1140, 1, 7, 7), (1255, 1, 3, 1), (2085, 0, 5, 7)]]
     + [J('h3mom', 'h_reduce_box', c, order=o, mask=m) for c in ({}, NOSH) for o, m in [(16, 1), (20, 4)]]
     + [J('h3mom', 'h_reduce_solid', c, solid=w, order=o, mask=m, scale=1) for c in ({}, NOSH) for w, o, m in [(0, 18, 0), (2, 20, 0), (0, 15, 1)]]
     + [J('h3mom', 'h_reduce_solid', NOSH, solid=0, order=24, mask=0, scale=1), J('h3mom', 'h_reduce_box', NOSH, order=24, mask=2)])
more('C06', [J('h2clip', 'h_clip2_signs', HUGE, rgn=w, nsym=k, off=o, ax=0) for w, k, o in [(240, 3, -70), (350, 2, -3)]])
more('C07', [J('h2clip', 'h_split2_signs', HUGE, rgn=w, nsym=k, off=o) for w, k, o in [(240, 3, -70), (340, 2, -3)]])
more('C08', [J('h2clip', 'h_reduce2_rgn', HUGE, rgn=w, order=o, perm=p) for w, o, p in [(240, 1, 3), (355, 2, 7)]]
     + [J('h2clip', 'h_reduce2_box', c, order=o, mask=m) for c in ({}, SH2) for o, m in [(20, 1), (27, 2), (34, 1), (40, 1)]]
     + [J('h2clip', 'h_reduce2_rgn', c, rgn=w, order=o, perm=0) for c in ({}, SH2) for w, o in [(0, 20), (2, 18)]])

def H3(n): return dict(HUGE, R3D_MAX_VERTS=n)
def H2(n): return dict(HUGE, R2D_MAX_VERTS=n)
more('C05', [J('h3cap', 'h_cap_clip', H3(m), solid=w, ax=0, dir=d, nsym=s) for m, w, d, s in [(300, 1150, 1, 2), (301, 1150, -1, 2), (512, 1255, 1, 2), (512, 1256, 1, 1), (510, 2085, -1, 2)]]
     + [J('h3cap', 'h_cap_split', H3(m), solid=w, ax=0, dir=d, nsym=s) for m, w, d, s in [(303, 1150, 1, 2), (512, 1254, 1, 2), (512, 1253, -1, 2), (510, 2085, 1, 1)]]
     + [J('h3cap', 'h_cap_init', H3(m), solid=w) for m, w in [(510, 2085), (509, 2085), (512, 1256), (511, 1256)]])
more('C20', [J('h2cap', 'h2_cap_clip', H2(m), rgn=w, ax=0, dir=d, nsym=s) for m, w, d, s in [(256, 356, 1, 2), (256, 355, -1, 2), (257, 356, 1, 2)]]
     + [J('h2cap', 'h2_cap_split', H2(m), rgn=w, ax=0, dir=d, nsym=s) for m, w, d, s in [(256, 356, 1, 1), (256, 354, 1, 2), (256, 352, -1, 2)]])
more('C09', [J('h3vox', 'h_vox', HUGE, time=150, solid=w, order=o, t=1, tw=w2, **G3(n, off)) for w, o, n, off, w2 in [(1140, 1, (2, 2, 1), (0, 0, 0), 60), (2085, 0, (2, 1, 2), (-1, 0, 0), 60)]],
     [J('h3vox', 'h_vox', HUGE, time=200, cost=3, solid=w, order=o, t=1, **G3(n, off)) for w, o, n, off in [(1140, 1, (2, 2, 1), (0, 0, 0)), (2070, 0, (2, 1, 2), (-1, 0, 0))]])
more('C10', [J('h2ras', 'h_ras', HUGE, rgn=w, order=o, t=1, **G2(n, off)) for w, o, n, off in [(230, 1, (3, 2), (0, 0)), (330, 0, (2, 3), (-1, 0))]])
more('C11', [J('hbox', 'h_ibox', HUGE, dim=m, shape=w, t=1, d=0, span=20) for m, w in [(2, 350), (3, 1250), (3, 2080)]])
more('C12', [J('h3brep', 'h_build', HUGE, solid=w, rot=r, ord=o, ren=n) for w, r, o, n in [(1150, 1, 7, 7), (1256, 2, 5, 3), (2085, 1, 3, 5)]])
more('C13', [J('h3brep', 'h_brep', HUGE, solid=w, mask=m) for w, m in [(1150, 1), (1170, 2), (2085, 4)]])
more('C14', [J('hfaces', 'h_poly_faces', HUGE, solid=w, mask=7, rot=r) for w, r in [(1150, 1), (1256, 2), (2085, 1)]])
H4 = {'RND_MAX_VERTS': 512, 'defs': ['HUGE_REF']}
more('C18', [J('h4', 'h4_clip_many', H4, poly=w, n0=n, lo=l, win=x, k=k) for w, n, l, x, k in [(304, 2, -4, 512, 1), (304, 0, -3, 384, 2), (405, 4, -2, 256, 2), (910, 0, -2, 200, 1), (910, 9, 1, 100, 2), (1617, 3, 0, 70, 1), (1717, 8, 2, 80, 1), (2013, 6, -3, 70, 1)]])
more('C19', [J('h4', 'h4_reduce_many', H4, poly=w, t=t) for w, t in [(304, 1), (505, 15), (910, 2), (1717, 4)]])
more('C15', [GJ(3, 12, 12, 1, 4, mul=m) for m in (5, 7, 11)] + [GJ(3, 16, 16, 1, 4, mul=m) for m in (3, 5, 7, 9)] + [GJ(3, 14, 14, 2, 6, mul=m) for m in (3, 5, 9)] + [GJ(3, 22, 22, 0, 6, mul=m, symn=1) for m in (3, 7)] + [GJ(3, 24, 24, 1, 1, mul=7), GJ(3, 12, 12, 0, 4, mul=5, swap=1)]
     + [GJ(4, 15, 15, 1, 7, mul=m) for m in (2, 4, 7)] + [GJ(4, 10, 10, 2, 2, mul=3), GJ(4, 10, 10, 1, 3, mul=7), GJ(4, 16, 16, 1, 4, mul=5), GJ(2, 12, 12, 3, 2, mul=5), GJ(2, 20, 20, 2, 2, mul=3, swap=0)])

# every number of cells per axis
GS3 = [GR(3, n, o, c, ax=a, sn=m) for n, o, c, a, m in [((20, 2, 1), (-3, 0, 0), (0, 1, 0), 0, 1), ((1, 20, 2), (0, 0, 5), (0, 0, 1), 1, 2), ((2, 1, 20), (0, 0, -9), (0, 0, 0), 2, 4), ((6, 6, 6), (0, -2, 1), (5, 5, 5), 2, 7), ((5, 5, 5), (1, 0, -2), (0, 2, 4), 0, 7)]]
GS2 = [GR(2, n, o, c, ax=a, sn=m) for n, o, c, a, m in [((40, 2), (-3, 0), (0, 1), 0, 1), ((3, 40), (0, -9), (1, 0), 1, 2), ((9, 9), (0, -2), (8, 8), 0, 3), ((9, 9), (-4, 2), (8, 1), 1, 3)]]
GS4 = [GR(4, n, o, c, ax=a, sn=m) for n, o, c, a, m in [((12, 1, 1, 2), (0, 0, 0, 0), (0, 0, 0, 1), 0, 1), ((2, 1, 12, 1), (0, 0, -5, 0), (1, 0, 0, 0), 2, 4), ((1, 1, 2, 12), (0, 3, 0, -4), (0, 0, 1, 0), 3, 8), ((1, 12, 2, 1), (0, -3, 0, -4), (0, 0, 1, 0), 1, 2), ((3, 3, 3, 3), (0, -1, 0, 2), (2, 2, 2, 2), 3, 15)]]
GS3 += [GR(3, n, o, ax=a, sn=m, fill=1) for n, o, a, m in [((24, 1, 1), (0, 0, 0), 0, 1), ((1, 24, 1), (0, -4, 0), 1, 2), ((1, 1, 24), (0, 0, -3), 2, 4), ((4, 4, 4), (0, 0, 0), 1, 7), ((2, 3, 9), (0, 2, 0), 2, 6), ((9, 2, 3), (-4, 0, 0), 0, 5), ((3, 9, 2), (-4, 0, 0), 2, 3)]]
GS2 += [GR(2, n, o, ax=a, sn=m, fill=1) for n, o, a, m in [((48, 1), (0, 0), 0, 1), ((1, 48), (0, -9), 1, 2), ((8, 8), (0, -2), 0, 3), ((8, 8), (5, 0), 1, 3)]]
GS4 += [GR(4, n, o, ax=a, sn=m, fill=1) for n, o, a, m in [((10, 1, 1, 1), (0, 0, 0, 0), 0, 1), ((1, 10, 1, 1), (0, 0, 2, 0), 1, 2), ((1, 1, 10, 1), (0, -8, 0, 0), 2, 4), ((1, 1, 1, 10), (0, 0, 0, -5), 3, 8), ((2, 2, 3, 2), (0, 0, 0, 0), 2, 15), ((3, 2, 1, 2), (0, -1, 0, 0), 3, 11)]]
more('C09', GS3); more('C05', GS3); more('C10', GS2); more('C20', GS2 + GS4); more('C19', GS4)

# long plane lists, long lists of shapes, many components, faces with many vertices, vertices of high degree
HUGE2 = dict(HUGE, R3D_MAX_VERTS=1100)
LONG = {'R3D_MAX_VERTS': 24, 'R2D_MAX_VERTS': 16, 'RND_MAX_VERTS': 48}
L3 = [J('h3clip', 'h_clip_long', LONG, solid=w, k=k, at=a, n0=n, cut=c) for w, k, a, n, c in [(1, 300, 299, 2, -1), (0, 260, 255, 4, 3), (2, 130, 128, 5, 129), (1, 70, 64, 9, 66), (1, 1030, 1024, 10, 1029)]]
L2 = [J('h2clip', 'h_clip2_long', LONG, rgn=w, k=k, at=a, n0=n, cut=c) for w, k, a, n, c in [(1, 300, 299, 1, -1), (2, 260, 255, 3, 3), (0, 130, 128, 5, 129), (4, 70, 64, 7, 66), (1, 1030, 1024, 1, 1029)]]
L4 = [J('h4', 'h4_clip_long', LONG, poly=w, k=k, at=a, n0=n) for w, k, a, n in [(10, 300, 299, 0), (0, 130, 128, 2), (1, 70, 64, 4), (10, 1030, 1024, 6), (10, 260, 255, 2)]]
more('C01', L3[1::2]); more('C02', L3[::2]); more('C06', L2); more('C18', L4)
more('C03', [J('h3split', 'h_split_long', LONG, k=k, w=w, em=e, tet=t) for k, w, e, t in [(300, 254, 7, 5), (140, 126, 9, 4), (40, 31, 3, 2), (1030, 1022, 11, 6)]])
more('C07', [J('h2clip', 'h_split2_long', LONG, k=k, w=w, em=e, tri=t) for k, w, e, t in [(300, 254, 7, 5), (140, 126, 9, 4), (40, 31, 3, 2), (1030, 1022, 11, 6)]])
more('C12', [J('h3brep', 'h_build', HUGE, solid=w, rot=1, ord=o, ren=n) for w, o, n in [(3128, 3, 0), (4100, 7, 0), (4128, 3, 0)]] + [J('h3brep', 'h_build', HUGE2, solid=w, rot=1, ord=o, ren=n) for w, o, n in [(3200, 7, 0), (3256, 3, 0), (3260, 0, 3), (2130, 3, 5)]] + [J('h3brep', 'h_build', BIG, solid=w, rot=r, ord=o, ren=n) for w, r, o, n in [(3020, 1, -3, 4), (3040, 2, 3, 3), (4012, 1, -3, 5)]])
more('C13', [J('h3brep', 'h_brep', HUGE, solid=w, mask=m) for w, m in [(3070, 1), (3128, 2), (1128, 4), (1256, 2), (4064, 1), (4128, 1)]] + [J('h3brep', 'h_brep', HUGE2, solid=3258, mask=2)] + [J('h3brep', 'h_brep', BIG, solid=w, mask=m) for w, m in [(3040, 7), (4012, 2), (4026, 4)]])
more('C14', [J('hfaces', 'h_poly_faces', HUGE, solid=w, mask=m, rot=1) for w, m in [(1065, 1), (1128, 2), (1256, 4), (3070, 7), (3256, 1), (4064, 2), (4128, 1)]])
more('C08', [J('h2clip', 'h_reduce2_rgn', c, rgn=w, order=o, perm=p) for c, w, o, p in [(HUGE, 1064, 2, 3), ({}, 1012, 3, 5), (dict(HUGE, defs=HUGE['defs'] + SH2['defs']), 1070, 1, 7)]])
more('C06', [J('h2clip', 'h_clip2_signs', HUGE, rgn=w, nsym=k, off=o, ax=a) for w, k, o, a in [(1040, 5, -20, 0), (1035, 4, -1, 1)]])
more('C07', [J('h2clip', 'h_split2_signs', HUGE, rgn=w, nsym=k, off=o, ax=a) for w, k, o, a in [(1028, 4, -20, 0), (1030, 4, -1, 1)]])
more('C01', [J('h3clip', 'h_clip_signs', HUGE, solid=w, nsym=k, off=o) for w, k, o in [(3060, 4, -12), (4040, 5, -9), (4100, 3, -30)]])
more('C03', [J('h3split', 'h_split_signs', HUGE, solid=w, nsym=k, off=o) for w, k, o in [(3060, 3, -12), (4040, 4, -9), (4064, 3, -30)]])
more('C04', [J('h3mom', 'h_reduce_solid', HUGE, solid=w, order=o, perm=p, mask=m) for w, o, p, m in [(3060, 2, 7, 7), (4064, 1, 3, 7), (4128, 1, 5, 1)]])

# the legacy library under deprecated/
def L(h, e, tree=0, time=60, cost=1, **p): return dict(h=h, e=e, p=p, cfg=dict(tree='deprecated', only=['r3d.c' if h == 'hdep3' else 'r2d.c'], defs=['USE_TREE'] if tree else []), time=time, cost=cost)
prop('C21', [L('hdep3', 'hd_orient'), L('hdep3', 'hd_box')] + [L('hdep3', 'hd_faces', base=b, mask=m) for b, m in [(0, 0xfff), (1, 0xe00), (2, 0x00f), (1, 0x249), (2, 0x492)]]
  + [L('hdep3', 'hd_reduce', solid=w, order=o, mask=m) for w, o, m in [(0, 0, 0xfff), (0, 1, 0xfff), (0, 2, 0xfff), (1, 2, 7), (2, 2, 7), (8, 2, 7), (8, 1, 5), (110, 2, 7), (120, 1, 7), (132, 2, 7)]]
  + [L('hdep3', 'hd_clip', solid=w, pl=p, free=f, order=o, **kw) for w, p, f, o, kw in [(1, 0x3210, 1, 2, {}), (1, 0x3210, 8, 2, {}), (1, 0x0007, 3, 1, {'skip': 12}), (0, 0x6543, 1, 2, {}), (0, 0x6543, 10, 1, {}), (2, 0x9c54, 2, 2, {}), (8, 0x7653, 4, 1, {}), (1, 0x7654, 5, 1, {}), (1, 0x7654, 15, 0, {}), (1, 0xbcd5, 6, 1, {'noand': 1}), (110, 0x6547, 1, 1, {}), (0, 0x3210, 15, 0, {}), (1, 0xba98, 3, 2, {'move': 1})]]
  + [L('hdep3', 'hd_clip', solid=w, tilt=1, free=f, pl=0x3210, order=o, skip=s) for w, f, o, s in [(0, 1, 0, 14), (0, 1, 1, 14), (1, 0, 0, 12), (0, 1, 0, 12)]]
  + [L('hdep3', 'hd_vox', t, ni=n[0], nj=n[1], nk=n[2], pl=p, free=f, dd=d, order=o, **kw) for t in (0, 1) for n, p, f, d, o, kw in [((1, 1, 1), 0x3210, 1, 0, 2, {}), ((2, 2, 2), 0x3210, 8, 0, 1, {}), ((3, 2, 1), 0x6543, 1, 0, 2, {}), ((1, 2, 3), 0x6543, 4, 0, 2, {}), ((2, 1, 2), 0x3210, 0, 1, 2, {}), ((1, 3, 2), 0x3210, 0, 2, 1, {}), ((2, 2, 1), 0x3210, 0, 4, 2, {}), ((2, 3, 5), 0x3210, 8, 0, 0, {'sn': 7}), ((4, 4, 4), 0x3210, 8, 0, 0, {'d3': 16})]])
more('C21', [L('hdep3', 'hd_vox', t, ni=n[0], nj=n[1], nk=n[2], pl=p, free=f, dd=d, order=o, **kw) for t in (0, 1) for n, p, f, d, o, kw in [((5, 4, 3), 0x3210, 8, 0, 2, {'d3': 40}), ((3, 5, 4), 0xba98, 1, 0, 2, {'d1': 35, 'd2': 9, 'd3': -1}), ((1, 1, 1), 0x3210, 15, 0, 1, {}), ((2, 1, 1), 0x3210, 12, 0, 1, {}), ((1, 1, 2), 0x6543, 3, 0, 1, {}), ((2, 2, 2), 0x6543, 5, 0, 0, {}), ((2, 2, 2), 0x3210, 8, 7, 0, {}), ((24, 1, 1), 0x3210, 8, 0, 0, {'sn': 1}), ((1, 24, 1), 0x3210, 8, 0, 0, {'sn': 2}), ((1, 1, 24), 0x3210, 8, 0, 0, {'sn': 4})]]
  + [L('hdep3', 'hd_vox', 1, ni=30000, nj=1, nk=1, pl=0x3210, free=0, dd=2, order=2, d0=-29000 * 8, d3=19340 * 8, cw=28990), L('hdep3', 'hd_vox', 1, ni=1, nj=30000, nk=1, pl=0x3210, free=0, dd=1, order=2, d1=-29000 * 6, d3=14510 * 8, cw=28985), L('hdep3', 'hd_vox', 1, ni=1, nj=1, nk=30000, pl=0x3210, free=0, dd=1, order=2, d2=-29000 * 4, d3=4842 * 8, cw=28990)]
  + [L('hdep3', 'hd_vox', 0, ni=1, nj=1, nk=17000, pl=0x3210, free=2, dd=0, order=2, d0=1, d2=-16900 * 4, d3=2827 * 8, cw=16890), L('hdep3', 'hd_vox', 0, ni=17000, nj=1, nk=1, pl=0x3210, free=2, dd=0, order=1, d0=-16900 * 8, d2=1, d3=11274 * 8, cw=16890), L('hdep3', 'hd_vox', 0, ni=1, nj=17000, nk=1, pl=0x3210, free=1, dd=0, order=1, d1=-16900 * 6, d2=1, d3=8457 * 8, cw=16890)]
  + [L('hdep3', 'hd_clip', solid=w, pl=p, free=f, order=1, skip=s) for w, p, f, s in [(110, 0xa, 1, 14), (112, 0x2a, 3, 12), (108, 0x0a2, 1, 14), (116, 0x2, 1, 14)]])
prop('C22', [L('hdep2', 'hd2_orient'), L('hdep2', 'hd2_box')] + [L('hdep2', 'hd2_faces', n=n, full=f) for n, f in [(3, 1), (4, 1), (5, 1), (12, 0), (40, 0)]]
  + [L('hdep2', 'hd2_reduce', rgn=w, order=o, full=f) for w, o, f in [(0, 2, 3), (1, 2, 4), (2, 2, 5), (3, 2, 0), (112, 2, 0), (164, 2, 0)]]
  + [L('hdep2', 'hd2_clip', rgn=w, pl=p, free=f, order=o, **kw) for w, p, f, o, kw in [(1, 0x3210, 1, 2, {}), (1, 0x3210, 15, 1, {}), (0, 0x5432, 15, 1, {}), (2, 0x5432, 7, 1, {}), (112, 0x5432, 3, 1, {}), (1, 0x3210, 15, 1, {'noand': 1}), (2, 0x7610, 15, 0, {}), (1, 0x0054, 3, 2, {'skip': 12})]]
  + [L('hdep2', 'hd2_clip', rgn=w, tilt=t, free=f, pl=0x3210, order=o, skip=s) for w, t, f, o, s in [(0, 1, 1, 1, 14), (1, 1, 1, 1, 12), (2, 1, 1, 0, 14), (0, 3, 3, 0, 12)]]
  + [L('hdep2', 'hd2_clip', rgn=w, full=k, free=0, pl=0x5432, order=0, skip=s) for w, k, s in [(0, 3, 14), (1, 2, 12)]]
  + [L('hdep2', 'hd2_ras', t, ni=n[0], nj=n[1], pl=p, free=f, dd=d, order=o, **kw) for t in (0, 1) for n, p, f, d, o, kw in [((1, 1), 0x3210, 15, 0, 1, {}), ((2, 2), 0x3210, 4, 0, 2, {}), ((3, 2), 0x5432, 1, 0, 2, {}), ((2, 3), 0x5432, 4, 0, 2, {}), ((2, 1), 0x3210, 0, 1, 2, {}), ((3, 2), 0x3210, 0, 2, 2, {}), ((5, 5), 0x3210, 4, 0, 0, {'sn': 3}), ((8, 7), 0x3210, 8, 0, 1, {'d2': 40}), ((6, 5), 0x3210, 4, 0, 2, {'d3': 50}), ((2, 2), 0x3210, 12, 3, 0, {}), ((2, 2), 0x5432, 7, 0, 0, {}), ((40, 1), 0x3210, 4, 0, 2, {'sn': 1, 'd3': 90}), ((1, 40), 0x3210, 4, 0, 2, {'sn': 2, 'd3': 90}), ]]
  + [L('hdep2', 'hd2_ras', t, ni=n, nj=1, pl=0x3210, free=2, dd=0, order=2, d0=-(n - 300) * 8, d2=(n - 290) * 8 * 3 // 5, d3=9, cw=n - 310) for t, n in [(0, 33200), (1, 33200)]] + [L('hdep2', 'hd2_ras', 1, ni=1, nj=30000, pl=0xd210, free=0, dd=1, order=2, d1=-29000 * 6, d2=17409 * 8, d3=9 * 30000, cw=28985)])

# the generic routines compiled for other dimensions
def ND(k, m=0): return dict(RND_DIM=k, RND_MAX_VERTS=m or (64 if k == 3 else 100))
prop('C23', [J('hnd', 'hn_clip_signs', ND(k), poly=w, ax=a, dir=d, off=o) for k, w, a, d, o in [(3, 0, 0, 1, 0), (3, 1, 2, -1, 1), (3, 2, 1, 1, 0), (3, 10, 0, 1, 0), (3, 10, 2, -1, 1), (5, 1, 0, 1, 0), (5, 0, 4, -1, 1), (5, 2, 2, 1, 0), (5, 10, 4, 1, 0), (5, 10, 1, -1, -1)]]
  + [J('hnd', 'hn_clip_plane', ND(k), poly=w, mask=m, o=o) for k, w, m, o in [(3, 0, 7, 0x222), (3, 1, 7, 0x334), (3, 10, 7, 0x321), (3, 10, 6, 0x002), (5, 0, 3, 0x22222), (5, 1, 24, 0x34343), (5, 2, 6, 0x54433), (5, 10, 17, 0x21312), (5, 10, 4, 0x12312)]]
  + [J('hnd', 'hn_clip_seq', ND(k), poly=w, k=q, n0=n, nsym=s, good=g) for k, w, q, n, s, g in [(3, 0, 1, 2, 1, 1), (3, 1, 2, 3, 2, 1), (3, 10, 2, 2, 2, 1), (3, 10, 5, 0, 1, 1), (3, 2, 3, 4, 2, 0), (5, 0, 1, 2, 1, 1), (5, 1, 2, 4, 1, 0), (5, 10, 1, 2, 1, 0), (5, 10, 1, 4, 1, 0), (5, 2, 3, 0, 1, 0)]]
  + [J('hnd', 'hn_reduce', ND(k), poly=w, k=q, n0=n, gc=g, t=t) for k, w, q, n, g, t in [(3, 0, 0, 0, 0, 7), (3, 10, 1, 2, 0, 0), (3, 1, 1, 2, 0, 0), (3, 0, 2, 4, 0, 0), (3, 10, 2, 6, 0, 0), (5, 0, 0, 0, 0, 9), (5, 10, 0, 0, 0, 2), (5, 0, 1, 2, 0, 0), (5, 1, 1, 4, 1, 0), (5, 10, 1, 0, 1, 0)]]
  + [J('hnd', 'hn_vox', ND(k), poly=w, n=n, o=o, v=v, t=t, d=d, gc=g, time=120) for k, w, n, o, v, t, d, g in [(3, 10, 0x223, 0x888, 1, 0, 0, 0), (3, 10, 0x231, 0x768, 6, 0, 4, 0), (3, 0, 0x212, 0x888, 0, 1, 0, 0), (3, 2, 0x312, 0x897, 0, 0, 0, 1), (5, 10, 0x11211, 0x88788, 4, 0, 0, 0), (5, 10, 0x21111, 0x68889, 0, 0, 16, 0), (5, 0, 0x12112, 0x88788, 0, 0, 0, 0), (5, 0, 0x11311, 0x88887, 0, 4, 0, 1), (5, 2, 0x21121, 0x98888, 0, 0, 0, 1)]]
  + [J('hnd', 'hn_ibox', ND(k), poly=w, t=t, d=d) for k, w, t, d in [(3, 0, 7, 0), (3, 10, 1, 1), (5, 1, 17, 0), (5, 10, 8, 8)]]
  + [J('hnd', 'hn_clamp', ND(k), t=t) for k, t in [(3, 1), (3, 6), (5, 1), (5, 16), (5, 8)]]
  + [J('hnd', 'hn_good', ND(k), poly=w) for k, w in [(3, 0), (3, 10), (5, 0)]])

# planes without a normal (the whole space or nothing); graphs with few separating sets; six dimensions
more('C02', [J('h3clip', 'h_clip_plane', order=1, solid=w, good=1, zn=1) for w in (0, 1, 4, 6)])
more('C03', [J('h3split', 'h_split_plane', order=1, solid=w, zn=1) for w in (0, 1, 4, 6)])
more('C06', [J('h2clip', 'h_clip2_line', order=1, rgn=w, zn=1) for w in (0, 1, 4, 5)])
more('C07', [J('h2clip', 'h_split2_line', order=1, rgn=w, zn=1) for w in (0, 1, 4, 5)])
more('C18', [J('h4', 'h4_clip_plane', N64, poly=w, zn=1, mask=1) for w in (0, 1, 10)])
more('C23', [J('hnd', 'hn_clip_plane', ND(k), poly=w, zn=1, mask=1) for k, w in [(3, 0), (3, 10), (5, 1), (5, 10)]])
more('C15', [GJ(3, 12, 10, 0, 20), GJ(3, 14, 14, 0, 20), GJ(3, 20, 18, 1, 20, lo=3, hi=8), GJ(4, 14, 13, 0, 20), GJ(4, 18, 18, 0, 20, lo=4, hi=11),
  GJ(4, 16, 16, 0, 20, dim=5, hi=5), GJ(4, 16, 16, 0, 20, dim=5, lo=10), GJ(4, 16, 16, 0, 20, dim=5, lo=4, hi=9), GJ(4, 12, 10, 0, 20, dim=3)])
more('C23', [J('hnd', 'hn_clip_signs', ND(6, 200), poly=w, ax=a, dir=d, off=o, nsym=k) for w, a, d, o, k in [(0, 0, 1, 0, 5), (1, 5, -1, 1, 4), (10, 3, 1, 0, 9)]]
  + [J('hnd', 'hn_clip_seq', ND(6, 200), poly=w, k=q, n0=n, nsym=1) for w, q, n in [(0, 2, 1), (1, 1, 4), (10, 1, 2), (10, 2, 0)]]
  + [J('hnd', 'hn_clip_signs', ND(7, 300), poly=0, ax=6, dir=1, off=0, nsym=4)])

# history: the first jobs of every entry once more, after other calls that succeeded and failed (harness/pre.c)
def after(pid, k=1):
    out = []
    for e in dict.fromkeys(x['e'] for x in PROPS[pid]['quick']):
        if e in ('h4_reduce_touch',): continue
        js = [x for x in PROPS[pid]['quick'] if x['e'] == e and x['cost'] <= 2 and x['cfg'].get('R3D_MAX_VERTS', 64) <= 200]
        out += [dict(x, p=dict(x['p'], pre=1)) for x in js[:k]]
    return out
for _p in ['C%02d' % i for i in range(1, 24)]: more(_p, after(_p, 2))

# other build options: jobs of other properties with a changed configuration
def reuse(pid, pick, k=1, **c):
    """every k-th quick job of a property whose entry is in pick, with more preprocessor definitions"""
    out = []
    for e in pick:
        js = [x for x in PROPS[pid]['quick'] if x['e'] == e and x['cost'] <= 2]
        for x in js[::k]:
            y = dict(x, cfg=dict(x['cfg'])); y['cfg']['defs'] = list(x['cfg'].get('defs', [])) + c['defs']; out.append(y)
    return out
more('C10', [J('h2ras', 'h_ras', SH2, rgn=1, order=1, v=3, d=0, **G2((3, 2), (-1, 0))), J('h2ras', 'h_ras', SH2, rgn=4, order=2, t=1, **G2((3, 3), (-2, -1)))])
more('C09', [J('h3vox', 'h_vox', NOSH, solid=1, order=1, v=1, d=0, **G3((3, 1, 1), (-1, 0, 0))), J('h3vox', 'h_vox', NOSH, solid=4, order=2, t=4, **G3((2, 2, 3), (-2, -1, -2)))])
SP = dict(defs=['SINGLE_PRECISION'])
prop('C24', [y for p in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'] for y in reuse(p, sorted({x['e'] for x in PROPS[p]['quick']} - {'h4_reduce_touch', 'h_grid_big'}), 9, **SP) if (y['e'], y['p'].get('mask')) != ('h_vol_box', 15) and y['p'].get('ni', 0) < 1000]
  + [y for p in ['C01', 'C03', 'C05', 'C06', 'C07', 'C09', 'C10', 'C11', 'C12', 'C18', 'C20'] for y in reuse(p, sorted({x['e'] for x in PROPS[p]['quick']}), 16, defs=['NDEBUG'])])

BOUNDS = {
 'C01': 'one plane: every sign/zero pattern of a tetrahedron, box, prism, pyramid (one free coordinate per vertex, all reals) and up to 8 free vertices of octahedron, L-prism, multi-component, ring, cavity, comb solids and prisms/bipyramids with up to 50 vertices; sequences of up to 8 planes with fixed normals and free offsets; prisms/bipyramids up to 512 vertices (the default capacity)',
 'C02': 'tetrahedron with up to 3 free vertices against an axis plane; any plane (normal and offset free) through a fixed point against 8 solids; sequences of up to 12 planes with free offsets; moments to order 2; solids up to 300 vertices against one or two free planes; lists of up to 1030 planes',
 'C03': 'every sign pattern as in C01; lists of up to 4 polyhedra including empty ones; any plane through a fixed point; moments to order 2; solids up to 320 vertices; lists of up to 1030 polyhedra',
 'C04': 'tetrahedron/box with all coordinates free for low orders, one axis free up to order 24, catalogue solids (nonconvex, several components, degenerate vertices, up to 60 vertices) anywhere, orders to 5; both centring configurations; moment shift with free shift and moments to order 7; orders to 24 (one free symbol), solids up to 512 vertices to order 1',
 'C05': 'capacities 4..72, every sign pattern of solids from far below to exactly at capacity; construction, clamping and voxelization included; capacities 300..512 with solids exactly at them; boxes in grids with every number of cells per axis up to 24',
 'C06': 'triangle to pentagon with all coordinates free; every sign pattern (one free coordinate per vertex) of 9 regions incl. nonconvex and multi-loop and polygons to 60 vertices; any line through a fixed point; up to 12 lines with free offsets; moments to order 2; polygons up to 250 vertices; lists of up to 1030 lines; up to 40 loops',
 'C07': 'as C06 for splitting; lists of up to 4 polygons including empty ones; polygons up to 240 vertices; lists of up to 1030 polygons',
 'C08': 'polygons to 5 vertices with all coordinates free to order 3, one axis free to order 40; both with and without SHIFT_POLY; catalogue regions; both centring configurations; shift to order 7; orders to 40 (one free symbol), polygons up to 255 vertices',
 'C09': 'grids up to 40 cells per axis and 210 cells in total, box and tetrahedron and catalogue solids with free position/extent/spacing per axis; moments to order 4; a small box free along one axis in grids of up to 4096 cells and (one cell window) grids of 512^3 cells at order 3 and 1300^3 cells; every number of cells per axis up to 24, small box or box filling the grid; solids up to 280 vertices',
 'C10': 'grids up to 65 cells per axis, polygons with free position/extent/spacing; moments to order 5; a small box free along one axis in grids of up to 4000 cells and (window) 40000x60000 cells; every number of cells per axis up to 48; polygons up to 230 vertices',
 'C11': 'shapes with free extents and spacing in 2D, 3D, 4D, index ranges within [-8,8]; all clamp boxes within the range given by the job; shapes up to 500 vertices',
 'C12': 'solids of the catalogue with free coordinates where faces stay planar, all rotations/orders given by the job; vertex degrees 3..12; invalid descriptions; solids up to 518 vertices; vertex degrees to 260; 128 components',
 'C13': 'catalogue solids at any position, clipped solids with every sign pattern, up to 5 components; solids up to 380 vertices; faces with 256 vertices, 128 components',
 'C14': 'tetrahedron, box, triangulated solids and convex n-gons (n<=6) with all coordinates free; catalogue solids and nonconvex faces to 40 vertices anywhere; solids up to 512 vertices; faces with 256 vertices',
 'C15': '2D, 3D, 4D base graphs of up to 16 vertices with all or several links any 32-bit value; vertex counts up to the capacity; relabelled graphs of up to 24 vertices with interleaved components',
 'C16': 'up to 64 vertices (capacity), up to 3 with free coordinates; all axes/planes; all parameters and matrix entries free; RND_DIM 3, 4, 5',
 'C17': 'all coordinates free; polygons to the capacity of 300; RND_DIM 3, 4, 5',
 'C18': 'simplex and box: every sign pattern along an axis, any hyperplane through a point, sequences of up to 6 hyperplanes with free offsets; products of two polygons up to 289 vertices with free hyperplane offsets; lists of up to 1030 hyperplanes',
 'C19': 'three simplex shapes at any position and size, any box; clips by up to 3 hyperplanes with a free offset; grids to 9 cells per axis, 36 cells in total; a small box free along one axis in grids of up to 625 cells and (window) 220^4 cells; general position except for boxes; products of two polygons up to 289 vertices; every number of cells per axis up to 12',
 'C20': '2D capacities 3..24 and 4D capacities 5..40; every sign pattern of shapes up to exactly the capacity; 2D capacities to 257; every number of cells per axis up to 48 (2D), 12 (4D)',
 'C21': 'planes with fixed rational normals (one with a free normal) and up to 4 free offsets; box, tetrahedron, prisms with up to 20 vertices clipped, up to 64 vertices integrated; grids up to 5x4x3 cells, every number of cells up to 24 along one axis, up to 30000 cells along one axis in a window; orders 0..2; with and without USE_TREE; double precision',
 'C23': 'RND_DIM 3 and 5: simplices and boxes; every position along an axis, hyperplanes through a point with up to 3 free normal components, sequences of up to 5 hyperplanes; volumes with one free offset; grids up to 12 cells in general position (boxes at any position along an axis); clipping also with RND_DIM 6 (boxes, simplices) and 7 (a simplex)',
 'C24': 'SINGLE_PRECISION: about every ninth job of C01-C22, rounding aside; NDEBUG: about every sixteenth job of the clipping, splitting, grid, construction and capacity properties; bounds as stated there',
 'C22': 'lines with fixed rational normals (up to two free) and up to 4 free offsets; polygons up to 12 vertices clipped, up to 64 integrated; grids up to 8x7 cells, every number of cells up to 40 along one axis, up to 30000 cells along one axis in a window; orders 0..2; with and without USE_TREE; double precision',
}
for _p, _b in BOUNDS.items():
    if _p in PROPS: PROPS[_p]['bounds'] = _b
