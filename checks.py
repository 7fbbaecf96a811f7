COMMON_ASSUMPTIONS = ['allocation never fails', 'x86-64 little endian, clang 18 at -O1, libstdc++ 13']
PROPS = {}
def job(name, src, p=(), **k): return dict(name=name, src=src, p=list(p), **k)
PROPS['C02'] = dict(jobs=[
  job('raw%d' % n, 'tok.cpp', (n, 0, 0, 0), bound='%d arbitrary bytes' % n, par=4) for n in (1,2,3,4,5,6,7)] +
  [job('pre%d_%d' % (i, j), 'tok.cpp', (4, 0, i, j), bound='template with 4 arbitrary bytes') for i in range(1, 15) for j in range(0, 7)] +
  [job('deep%d_%d' % (k, n), 'tok.cpp', (n, 0, 0, 0, k), bound='nesting of 22 depths up to 257 (or up to 257 items) with %d arbitrary bytes inside or among the closing brackets' % n, par=2) for k in (1, 2, 3, 4) for n in (1, 2, 3)])
PROPS['C03'] = dict(jobs=[
  job('raw%d' % n, 'tok.cpp', (n, -1, 0, 0), bound='%d arbitrary bytes' % n, par=8) for n in (2,4,5)] +
  [job('pre%d_%d' % (i, j), 'tok.cpp', (3, -1, i, j), bound='template with 4 arbitrary bytes') for i in range(1, 17) for j in range(0, 9)])
P4 = [(1,6),(2,2),(2,9),(3,1),(3,10),(5,1),(6,5),(6,9),(7,4),(8,3),(9,2),(11,6),(11,10),(12,9),(13,6),(13,10),(16,9),(16,5),(17,1),(17,10),(18,12),(18,13),(19,14),(19,5),(18,2)]
PROPS["C04"] = dict(jobs=[
  job('raw%d_c%d' % (n, c), 'stream.cpp', (n, 0, 0, 0, c, 0, -1), par=4) for n, c in ((3,1),(5,1),(6,1),(5,0),(6,0),(5,2))] +
  [job('pre%d_%d' % (i, j), 'stream.cpp', (3, 0, i, j, 1, 3, -1), par=2) for i, j in P4])
PROPS['C04']['jobs'] += [job('opt%d_%d' % (i, j), 'stream.cpp', (3, -1, i, j, 1, 0, -1), par=2) for i in (1,2,3,10,14,15) for j in (0,1,2,7,8)]
PROPS['C04']['jobs'] += [job('craw%d_c%d' % (n, c), 'stream.cpp', (n, -1, 0, 0, c, 0, -1), par=4) for n, c in ((3,1),(4,1),(4,0),(4,2))]
PROPS['C06'] = dict(jobs=[job('parse%d' % n, 'str.cpp', (0, n, 0, 0, 0), bound='%d arbitrary bytes' % n, par=2) for n in (1, 2, 3, 4, 5, 6)] +
  [job('parse_t%d_%d_%d_%d' % t, 'str.cpp', (0, t[2], t[0], t[1], t[3]), bound='template with %d arbitrary bytes' % t[2]) for t in ((1,0,4,0),(1,6,4,0),(2,0,4,0),(2,3,3,0),(2,0,4,1),(7,2,2,1),(7,2,2,0),(9,5,2,0),(9,0,3,0),(11,0,3,0),(11,6,3,0),(12,2,2,1),(4,0,4,0),(10,0,3,0),(5,3,3,0),(6,4,3,0),(8,0,3,0),(0,2,3,0),(1,2,4,1),(12,6,2,1),(2,5,2,0))] +
  [job('ser%d' % n, 'str.cpp', (1, n, 0, 0, 0), bound='%d arbitrary bytes' % n) for n in (0, 1, 2, 3)] +
  [job('ser_t%d_%d_%d' % t, 'str.cpp', (1, t[2], t[0], t[1], 0), bound='template with %d arbitrary bytes' % t[2]) for t in ((5,3,2),(6,4,2),(8,0,2),(5,4,2),(5,0,2),(6,0,2),(0,4,2),(0,3,2))] +
  [job('mem%d' % n, 'str.cpp', (2, n, 0, 0, 0), bound='%d arbitrary bytes' % n) for n in (0, 1, 2)] + [job('mem_t5', 'str.cpp', (2, 1, 5, 4, 0))])
I7 = dict(std='gnu++17')
DIG = [3, 3, 5, 5, 10, 10, 19, 20, 19, 20, 39, 39, 3]
PROPS['C07'] = dict(jobs=[job('ser_t%d_d%d_%s' % (t, d, 'n' if s else 'p'), 'int.cpp', (t, 0, d, s) , **I7, thorough=t in (8, 9) or (t == 10 and d == 39), bound='all values with %d digits' % d) for t in range(13) for d in sorted(set([1, 2, 3, (DIG[t] + 1) // 2, DIG[t] - 1, DIG[t]])) if d >= 1 for s in ((0, 1) if t not in (1, 3, 5, 7, 9, 11) else (0,))] +
  [job('par_t%d_d%d_%s' % (t, d, 'n' if s else 'p'), 'int.cpp', (t, 1, d, s), **I7, thorough=(t in (8, 9) or d > 40 or 21 < d < 24) and d > 3, bound='all %d digit numbers' % d) for t in range(13) for d in sorted(set([1, DIG[t] - 1, DIG[t], DIG[t] + 1, DIG[t] + 3])) if d >= 1 for s in (0, 1)] +
  [job('tail_t%d_%d_%s' % (t, k, 'n' if s else 'p'), 'int.cpp', (t, 2, 2 if t < 10 else 1, s, k), **I7, bound='2 arbitrary digits and a tail') for t in range(13) for k in range(1, 17) for s in (0, 1)] +
  [job('text%d' % n, 'int.cpp', (0, 3, n), **I7, bound='%d arbitrary number characters' % n) for n in (1, 2, 3, 4, 5, 6)] +
  [job('long_t%d_z%d_k%d_%d' % (t, z, k, a), 'int.cpp', (t, 4, z, s, k, a, c), **I7, bound='%d zeros, 2 arbitrary digits, %d exponents from %d' % (z, c, a)) for t, s in ((0, 1), (4, 0), (4, 1), (5, 0), (6, 0), (7, 0), (10, 1)) for k in (0, 1) for z, a, c in ((20, -3, 8), (40, -3, 22), (350, -3, 12), (1200, -2, 3), (10500, -2, 4)) if t < 10 or k == 0 or z < 100])
PROPS['C09'] = dict(jobs=[job('one%d' % n, 'obj.cpp', (1, n, 255, w), bound='one member with an arbitrary name of %d bytes' % n) for n in (0, 1, 2, 3, 5) for w in ((0, 1) if n == 2 else (0,))] +
  [job('two%02d' % n, 'obj.cpp', (2, n, m, 0), bound='two members, arbitrary names', par=2) for n, m in ((0, 255), (2, 0x5d), (20, 0x5d), (22, 5), (11, 13), (33, 1), (13, 0x41), (31, 0x41))] +
  [job('three', 'obj.cpp', (3, 0, 1, 0), bound='three members, known names', par=4), job('three_o', 'obj.cpp', (3, 200, 4, 0), bound='three members', par=2)])
def typed(g, types, raw, tpl, **k):
    r = []
    for t in types:
        for n in raw: r.append(job('t%d_raw%d' % (t, n), 'typed.cpp', (t, n, 0, 0, 0, 0), defs=['GROUP=%d' % g], bound='%d arbitrary bytes' % n, **k))
    for t, pre, suf, n, res, ini in tpl: r.append(job('t%d_p%d_s%d_%d_%d_%d' % (t, pre, suf, n, res, ini), 'typed.cpp', (t, n, pre, suf, res, ini), defs=['GROUP=%d' % g], bound='template with %d arbitrary %s' % (n, 'JSON characters' if res else 'bytes'), **k))
    return r
ARR = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 18)
def fewer(jobs, types, k):  # hashed containers split on the values: fewer arbitrary bytes
    for x in jobs:
        if x['p'][0] in types and x['p'][2]: x['p'][1] -= k; x['bound'] = 'template with %d arbitrary bytes' % x['p'][1]
    return jobs
PROPS['C11'] = dict(jobs=fewer(typed(0, ARR, (4, 5), [(t, p, s, 4, 0, i) for t in ARR for p, s, i in ((1, 1, 1), (4, 1, 0), (1, 4, 1))] +
  [(t, p, s, 4, 0, i) for t, p, s in ((1, 2, 2), (1, 5, 1), (1, 5, 9), (15, 2, 2), (15, 5, 1), (18, 5, 1), (2, 14, 1), (3, 8, 1), (5, 8, 1), (6, 8, 1), (5, 8, 7), (6, 8, 7), (5, 1, 7), (8, 10, 1), (7, 10, 1), (9, 10, 1), (11, 10, 1), (12, 10, 1), (4, 7, 6), (10, 3, 3), (10, 9, 8), (10, 15, 3), (10, 17, 3), (13, 9, 8), (13, 3, 3), (13, 17, 3), (13, 13, 3), (14, 16, 6), (14, 3, 3), (14, 13, 3), (17, 5, 1), (17, 5, 7), (18, 2, 9), (16, 1, 1), (0, 20, 18), (0, 20, 1), (1, 21, 2), (19, 7, 6), (20, 14, 7), (20, 1, 1)) for i in (0, 1)]), (12,), 2))
NUL = tuple(range(17))  # 17..32: strings, vectors and booleans inside the wrappers
PROPS['C10'] = dict(jobs=typed(1, NUL, (3,), [(t, 3, 3, 4, 0, i) for t in NUL if t not in (0, 1, 9, 10) for i in (0, 1)] + [(t, 1, 1, 4, 0, i) for t in (0, 1, 9, 10) for i in (0, 1)] +
  [(t, p, s, 4, 0, 1) for t in (2, 3, 4, 5, 6, 7, 8) for p, s in ((3, 5), (3, 10), (11, 3), (13, 3), (6, 3))] + [(t, 12, 1, 4, 0, i) for t in (0, 1, 9, 10) for i in (0, 1)] + [(t, p, s, 4, 0, i) for t in (11, 12, 14) for p, s in ((16, 6), (16, 3), (3, 11)) for i in (0, 1)] + [(16, 3, 10, 4, 0, 2)] + [(t, p, s, 3, 0, i) for t in range(17, 25) for p, s, i in ((19, 16, 0), (19, 16, 1), (19, 17, 1), (3, 3, 1), (3, 10, 1))] + [(t, p, s, 3, 0, i) for t in (25, 27, 28) for p, s, i in ((9, 8, 0), (9, 8, 1), (3, 3, 1))] + [(t, p, s, 5, 0, i) for t in (26, 29, 30, 31, 32) for p, s, i in ((3, 3, 0), (3, 3, 1))] + [(t, 9, 8, 3, 0, 1) for t in (13, 15)]))
MAPS = tuple(range(8))
PROPS['C12'] = dict(jobs=fewer(typed(2, MAPS, (4, 6), [(t, p, s, 4, 0, i) for t in (0, 2) for p, s in ((18, 13), (3, 3), (6, 3), (3, 5), (18, 12)) for i in (0, 1)] + [(0, 22, 19, 2, 0, 0), (1, 22, 19, 2, 0, 0), (4, 22, 19, 2, 0, 0), (1, 18, 14, 4, 0, 0), (1, 16, 6, 4, 0, 0), (3, 18, 15, 4, 0, 0), (3, 9, 8, 4, 0, 0), (3, 17, 3, 4, 0, 0), (4, 16, 6, 4, 0, 0), (4, 18, 14, 4, 0, 0), (5, 7, 6, 4, 0, 0), (6, 16, 6, 4, 0, 1), (6, 3, 3, 4, 0, 1), (7, 3, 10, 4, 0, 0), (7, 11, 3, 4, 0, 0)]), (2,), 2))
PROPS['C13'] = dict(jobs=[job('name%d_%d' % (e, n), 'enum.cpp', (0, e, n, 0), bound='all strings of %d bytes' % n) for e, m in ((0, 8), (1, 4), (2, 6)) for n in range(0, m)] +
  [job('num%d_%d_%d' % (e, n, s), 'enum.cpp', (1, e, n, s), bound='all numbers of %d digits' % n) for e in range(3) for n in (1, 2, 3, 9) for s in (0, 1)] +
  [job('other%d' % e, 'enum.cpp', (2, e, 0, 0), bound='all other JSON types') for e in range(3)] + [job('ser%d' % e, 'enum.cpp', (3, e, 0, 0), bound='all enumerators') for e in range(3)] +
  [job('val%d_%d_%d' % (e, n, s), 'enum.cpp', (4, e, n, s), bound='all values with %d digits' % n) for e, k in ((0, 5), (1, 3)) for n in range(1, k + 1) for s in ((0, 1) if not e else (0,))])
PROPS['C14'] = dict(jobs=[job('hist%d_%d_%d' % (s, n, p), 'map.cpp', (0, s, n, p), bound='all histories of %d operations (4 names, 6 kinds of value)' % n, par=1 if n < 2 else 2) for s in range(6) for n, p in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1))] +
  [job('hist%d_3_%d' % (s, s % 2), 'map.cpp', (0, s, 3, s % 2), bound='all histories of 3 operations', par=4, thorough=s in (1, 2, 5)) for s in range(6)] +
  [job('name%d_%d' % (s, n), 'map.cpp', (0, s, n, 2), bound='arbitrary name of 2 bytes', par=2) for s in (0, 3) for n in (1, 2)] +
  [job('text%d_%d' % (n, w), 'map.cpp', (1, n, 0, 0, w), bound='%d arbitrary bytes' % n, par=2) for n, w in ((2, 0), (4, 0), (5, 0), (6, 1))] +
  [job('pre%d_%d_%d' % (p, s, w), 'map.cpp', (1, n, p, s, w), bound='template with %d arbitrary bytes' % n) for p, s, n, w in ((1, 1, 4, 0), (1, 3, 4, 1), (2, 2, 2, 2), (2, 4, 2, 1), (3, 2, 3, 3), (3, 4, 2, 1), (4, 5, 4, 0), (5, 6, 4, 1), (5, 1, 4, 1), (6, 2, 2, 2))])
PROPS['C09']['jobs'] += [job('kind%d_%d' % (s, k), 'obj2.cpp', (s, k), bound='all choices and orders of %d properties' % k, par=2) for s, m in ((0, 4), (1, 4), (2, 2), (3, 3)) for k in range(0, m + 1)]
SIMD = (('sse2', []), ('sse42', ['-msse4.2']), ('avx2', ['-mavx2']), ('neon', ['-D__ARM_NEON', '-I@V@/harness/neon']))
PROPS['C05'] = dict(jobs=[job('%s_m%d_f%d_n%d_w%d_o%d_g%d' % (v, m, f, n, w, o, g), 'simd.cpp', (m, f, n, w, o, g), cflags=c, par=2, bound='%d characters, %d arbitrary bytes at any position' % (n, w + (g > 0)) + (', all option masks' if o < 0 else '')) for v, c in SIMD for m, f, n, w, o, g in
  ((0, 0, 36, 3, 0, 0), (0, 0, 70, 2, 0, 0), (0, 0, 50, 1, 0, 15), (0, 1, 36, 2, 0, 0), (0, 1, 20, 1, 0, 1), (0, 2, 34, 2, 1, 0), (0, 3, 36, 2, 0, 0), (0, 3, 66, 2, 0, 0), (0, 3, 36, 1, 15, 3), (0, 4, 34, 3, 0, 0), (0, 5, 37, 2, 2, 0), (0, 6, 36, 2, 8, 0), (0, 7, 36, 2, 2, 0), (0, 8, 34, 2, -1, 0),
   (0, 9, 36, 2, 0, 0), (0, 10, 35, 2, 0, 0), (0, 11, 36, 2, 0, 0), (0, 12, 33, 2, 0, 0), (0, 13, 36, 2, 0, 0), (0, 14, 36, 2, -1, 0), (0, 15, 36, 2, -1, 0), (0, 16, 34, 2, 0, 0), (0, 5, 21, 2, -1, 0), (0, 7, 18, 2, -1, 0), (0, 6, 17, 2, -1, 0), (0, 2, 70, 1, 1, 0), (0, 1, 70, 1, 0, 0), (0, 13, 66, 1, 0, 0),
   (0, 17, 20, 1, -1, 0), (0, 18, 20, 1, -1, 0), (0, 17, 35, 1, 10, 0), (0, 19, 34, 1, -1, 0), (0, 20, 34, 1, -1, 0), (0, 21, 34, 1, -1, 0), (0, 22, 34, 1, -1, 0), (0, 23, 34, 1, -1, 0), (1, 17, 34, 1, 10, 0), (1, 18, 34, 1, 10, 0), (1, 19, 34, 1, 2, 0), (1, 23, 34, 1, 10, 0),
   (1, 0, 36, 2, 0, 0), (1, 1, 34, 2, 0, 0), (1, 2, 34, 2, 1, 0), (1, 3, 36, 2, 0, 0), (1, 4, 34, 2, 0, 0), (1, 6, 36, 2, 8, 0), (1, 7, 34, 2, 2, 0), (1, 8, 34, 2, 1, 0), (1, 9, 37, 1, 0, 0), (1, 10, 37, 1, 0, 0), (1, 12, 66, 1, 0, 0), (1, 14, 34, 2, 0, 0), (1, 15, 34, 2, 2, 0), (1, 5, 34, 2, 2, 0), (1, 13, 34, 2, 0, 0),
   (2, 0, 15, 2, 0, 0), (2, 0, 16, 2, 0, 0), (2, 0, 17, 2, 0, 0), (2, 0, 31, 2, 0, 0), (2, 0, 33, 2, 0, 0), (2, 0, 50, 1, 0, 0), (2, 0, 66, 1, 0, 0), (2, 16, 40, 1, 0, 1), (2, 0, 33, 1, 0, 16), (2, 0, 40, 1, 0, 31)) if v != 'sse42' or f in (0, 1, 11, 13, 15)])
SAFE = lambda name, p, **k: job(name, 'safe.cpp', p, ub=True, std='gnu++17', bound='%d arbitrary bytes%s' % (p[1], ' inside a template' if p[2] or p[3] or p[0] == 1 else ''), **k)
PROPS['C01'] = dict(jobs=[SAFE('tok_%d' % n, (0, n, 0, 0, 0), par=4) for n in (2, 3, 4)] + [SAFE('tok_p%d_s%d' % (p, s), (0, 2, p, s, 0), par=2) for p, s in ((1, 1), (2, 2), (8, 5), (9, 6), (10, 12), (3, 7))] +
  [SAFE('member_%d' % t, (1, 3, 0, 1, t)) for t in range(40)] + [SAFE('memberx_%d_%d' % (t, p), (1, 2, p, s, t)) for t in range(40) for p, s in ((2, 3), (1, 10))] +
  [SAFE('reformat_%d_%d' % (n, x), (2, n, 0, 0, x), par=2) for n, x in ((4, 0), (4, 1), (4, 2), (4, 4), (3, 8))] + [SAFE('tokens_%d' % n, (3, n, 0, 0, 0), par=2) for n in (3, 5)] + [SAFE('tokens_p%d_s%d' % (p, s), (3, 3, p, s, 0)) for p, s in ((1, 1), (2, 2), (3, 1), (5, 6), (14, 1), (7, 3))] +
  [SAFE('map_%d_%d' % (n, x), (4, n, 0, 0, x), par=2) for n in (3, 5) for x in (0, 1)] + [SAFE('map_p%d_s%d_%d' % (p, s, x), (4, 3, p, s, x)) for p, s in ((1, 1), (2, 2), (3, 1), (14, 1), (5, 6)) for x in (0, 1)] +
  [SAFE('fn_%d_%d' % (n, x), (5, n, 0, 0, x), par=2) for n in (3, 5) for x in (0, 3)] + [SAFE('fn_p%d_s%d_%d' % (p, s, x), (5, 3, p, s, x)) for p, s in ((11, 6), (12, 10), (13, 1), (9, 6)) for x in range(4)] +
  [SAFE('top%d_%d' % (x, n), (6, n, 0, 0, x), par=2) for x in range(12) for n in (3, 4)] + [SAFE('top%d_p%d_s%d' % (x, p, s), (6, 1 if x < 2 and s == 11 else 3, p, s, x), par=2) for x in range(12) for p, s in ((2, 2), (2, 11), (1, 1), (10, 12), (8, 5), (15, 5), (16, 5), (17, 5))])
FD = ((), ('FLT=1',))
W8 = lambda fl, a, c, m, pos, st, **k: job('w%d_%d_%d_%d_%d_%d' % (fl, a, c, m, pos, st), 'dbl.cpp', (0, a, c, m, pos, st), defs=list(FD[fl]), bound='%d exponents, both signs, %s' % (c, 'one arbitrary mantissa byte (8 bits at %d)' % pos if pos >= 0 else 'one mantissa'), **k)
PROPS['C08'] = dict(jobs=[W8(0, a, 128, m, -1, 1) for a in range(0, 2048, 128) for m in (0, 1, 5)] + [W8(1, a, 128, m, -1, 1) for a in (0, 128) for m in range(6)] +
  [W8(0, a, 8, m, pos, st) for m, pos, a, st in ((0, 0, 0, 1), (0, 0, 880, 1), (0, 0, 1023, 1), (1, 0, 1040, 7), (1, 44, 1050, 9), (0, 22, 1071, 1), (5, 0, 2039, 1), (5, 11, 3, 291), (4, 0, 101, 231), (2, 37, 57, 263), (3, 8, 211, 203), (1, 30, 17, 277), (0, 16, 700, 43), (4, 3, 1100, 87))] +
  [W8(1, a, 8, m, pos, st) for m, pos, a, st in ((0, 0, 0, 1), (0, 15, 0, 1), (1, 0, 1, 33), (5, 0, 12, 31), (4, 8, 20, 27), (2, 15, 9, 29), (0, 0, 120, 1), (0, 8, 144, 1), (1, 15, 247, 1), (0, 0, 248, 1), (3, 4, 60, 11))] +
  [W8(0, a, 1, 0, 44, 1) for a in (0, 1, 2045, 2046)] + [W8(0, a, 8, m, pos, 1, thorough=True) for a in range(0, 2048, 8) for m, pos in ((0, 0), (5, 22), (5, 40))] + [W8(1, a, 8, m, pos, 1, thorough=True) for a in range(0, 256, 8) for m in (0, 1, 4, 5) for pos in (0, 8, 15)] +
  [job('p%d_%d_%d_%d' % (fl, t, a, st), 'dbl.cpp', (1, t, a, c, st), defs=list(FD[fl]), bound='template %d with arbitrary digits, %d exponents from %d' % (t, c, a)) for fl in (0, 1) for t, a, c, st in
    [(t, -345, 8, 94) for t in range(27)] + [(t, -25, 8, 7) for t in range(27)] + [(t, 292, 8, 2) for t in (0, 1, 9, 10, 15)] + [(t, -330, 8, 3) for t in (0, 1, 11, 12, 17)] + [(t, 30, 9, 1) for t in (0, 15, 9)] + [(t, -48, 8, 2) for t in (0, 11, 16, 17, 26)] + [(t, 15, 10, 1) for t in (0, 1, 4, 6)]] +
  [job('m%d_%d' % (t, a), 'dbl.cpp', (1, t, a, 1, 1), defs=list(FD[1]), bound='middle of two floats, arbitrary last digits') for t, a in [(t, 0) for t in range(27, 37)] + [(37, -45), (38, -38), (39, 0), (40, 0), (41, -23)]] +
  [job('z%d_%d_z%d_%d' % (fl, k, z, a), 'dbl.cpp', (3, k, z, a, c), defs=list(FD[fl]), bound='%d zeros, 2 arbitrary digits, %d exponents from %d' % (z, c, a)) for fl in (0, 1) for k in (0, 1) for z, a, c in ((20, -3, 8), (40, -25, 4), (350, -2, 4), (350, 20, 4), (1200, -2, 3), (10500, -1, 2))] +
  [job('t%d_%d' % (fl, n), 'dbl.cpp', (2, n), defs=list(FD[fl]), bound='%d arbitrary number characters' % n) for fl in (0, 1) for n in (1, 2, 3, 4)])
RAWT = ((0, 0, 5), (1, 1, 4), (2, 2, 3), (3, 3, 4), (4, 2, 4), (5, 10, 3), (6, 6, 3), (7, 7, 3), (8, 1, 3), (9, 1, 3), (10, 8, 2), (11, 9, 3), (12, 11, 2), (13, 12, 3))
PROPS['C15'] = dict(jobs=[job('k%d_p%d_s%d_f%d' % (k, p, s, f), 'raw.cpp', (k, n - (f > 0), p, s, f, 0), defs=['KIND=%d' % k], bound='template with %d arbitrary bytes' % (n - (f > 0))) for k in range(8) for p, s, n in RAWT for f in range(4)] +
  [job('k%d_o%d' % (k, p), 'raw.cpp', (k, 2, p, s, f, -1), defs=['KIND=%d' % k], bound='2 arbitrary bytes, all options') for k in range(8) for p, s, f in ((14, 3, 0), (15, 13, 0), (3, 3, 1), (14, 3, 2))])
PROPS['C04']['jobs'] += [job('raw%d_p%d_s%d_f%d' % (k, p, s, f), 'raw.cpp', (k, n, p, s, f, 0), defs=['KIND=%d' % k], bound='raw member, template with %d arbitrary bytes, buffers freed when released' % n) for k, p, s, n in ((0, 1, 1, 3), (0, 4, 2, 3), (0, 11, 9, 2), (1, 3, 3, 3), (1, 6, 6, 2), (2, 7, 7, 2), (2, 5, 10, 2)) for f in (1, 2)]
PROPS['C15']['jobs'] += [job('x%d_p%d_s%d_f%d' % (k, p, s, f), 'raw.cpp', (k, n + 1 - (f > 0), p, s, f, 0), defs=['KIND=%d' % k], par=2, thorough=True, bound='template with %d arbitrary bytes' % (n + 1 - (f > 0))) for k in range(8) for p, s, n in RAWT for f in range(4)]
ST = ((0, 0, 5), (1, 1, 3), (2, 2, 3), (3, 3, 3), (4, 4, 4), (5, 5, 2), (6, 6, 3), (7, 7, 4), (8, 8, 3))
PROPS['C16'] = dict(jobs=[job('buf%d_p%d_o%d' % (sc, p, o), 'ser.cpp', (0, n - 1 if sc == 1 or o == 3 else n, p, s, o, sc), bound='template with %d arbitrary bytes' % n) for p, s, n in ST for o in (2, 3) for sc in (0, 1)] +
  [job('full_p%d_o%d' % (p, o), 'ser.cpp', (1, n - 1, p, s, o, 0), bound='template with %d arbitrary bytes, all buffer sizes' % (n - 1)) for p, s, n in ST for o in (2, 3)] +
  [job('reformat_p%d_o%d' % (p, o), 'ser.cpp', (2, n - (o == 3 and n == 4), p, s, o, 0), deep=dict(p=[2, n, p, s, o, 0]), bound='template with %d arbitrary bytes' % (n - (o == 3 and n == 4))) for p, s, n in ST for o in (2, 3)] +
  [job('deep', 'ser.cpp', (3,), bound='21 depths up to 300, values before and after the nested one')] + [job('grow%d' % x, 'ser.cpp', (4, x, 12), bound='strings of %d..%d characters' % (x, x + 11)) for x in (1, 4078, 4090, 8174)])
PROPS['C17'] = dict(jobs=[job('calls%d_%d' % (k, na), 'fn.cpp', (0, k, na), par=2, bound='all sequences of %d calls' % k) for k, na in ((0, 12), (1, 12), (2, 5), (2, 12))] + [job('calls3', 'fn.cpp', (0, 3, 2), par=4, bound='sequences of 3 calls')] +
  [job('text_p%d_s%d' % (p, s), 'fn.cpp', (1, n, p, s), bound='template with %d arbitrary bytes' % n) for p, s, n in ((0, 0, 5), (1, 1, 4), (2, 1, 2), (2, 2, 2), (3, 3, 2), (4, 4, 3), (5, 3, 2), (6, 6, 3), (7, 5, 3), (8, 4, 3), (9, 1, 4))] +
  [job('kinds%d_%d' % (k, na), 'fn2.cpp', (k, na), par=2, bound='all sequences of %d calls of every kind of function' % k) for k, na in ((1, 7), (2, 7))] + [job('kinds3', 'fn2.cpp', (3, 2), par=4, thorough=True, bound='sequences of 3 calls of every kind of function')])
DT = ((0, 3, 0, 3, 0), (1, 2, 1, 2, 0), (2, 3, 2, 2, 1), (2, 2, 2, 3, 4), (3, 1, 3, 1, 0), (10, 0, 10, 0, 0), (3, 2, 3, 2, 1), (4, 2, 4, 2, 0), (5, 2, 5, 2, 0), (5, 1, 5, 2, 0), (6, 2, 6, 2, 0), (7, 2, 7, 2, 0), (8, 3, 8, 2, 0), (9, 2, 9, 2, 0), (9, 2, 9, 2, 2), (9, 2, 9, 2, 3),
  (10, 4, 14, 0, 0), (14, 0, 10, 4, 0), (14, 4, 10, 0, 0), (10, 0, 14, 4, 0), (2, 1, 11, 2, 0), (11, 2, 2, 1, 0), (2, 0, 11, 3, 0), (11, 3, 2, 0, 0), (12, 3, 12, 2, 0), (12, 1, 1, 3, 0), (1, 3, 12, 1, 0), (13, 1, 13, 2, 0), (13, 2, 13, 1, 4), (6, 3, 11, 1, 0), (11, 1, 6, 3, 0), (4, 1, 11, 3, 0), (11, 3, 4, 1, 0), (0, 2, 1, 3, 0), (0, 2, 2, 3, 0), (3, 3, 10, 0, 0), (10, 0, 3, 3, 0), (1, 4, 1, 1, 0), (1, 1, 1, 4, 0), (2, 4, 2, 1, 0), (2, 1, 2, 4, 0))
PROPS['C18'] = dict(jobs=[job('d%d_%d_%d_%d_o%d' % (b, nb, d, nd, o), 'diff.cpp', (0, b, nb, d, nd, o), bound='template %d with %d and %d with %d arbitrary bytes' % (b, nb, d, nd)) for b, nb, d, nd, o in DT] +
  [job('h%d_%d_%d_o%d' % (n, c, l, o), 'diff.cpp', (1, n, c, l, o, r), par=2, bound='all choices of %d documents, %d changes of the base' % (n + 1, c)) for n, c, l, o, r in ((1, 0, 13, 0, 0), (1, 1, 13, 0, 1), (1, 2, 13, 4, 0), (2, 2, 13, 0, 1), (3, 1, 8, 0, 0))] +
  [job('e%d_%d_%d_%d_o%d' % (b, nb + 1, d, nd + 1, o), 'diff.cpp', (0, b, nb + 1, d, nd + 1, o), thorough=True, par=2, bound='template %d with %d and %d with %d arbitrary bytes' % (b, nb + 1, d, nd + 1)) for b, nb, d, nd, o in DT])
PROPS['C19'] = dict(jobs=[job('t%d_p%d_s%d_n%d_w%d' % (t, p, s, n + 2, w), 'err.cpp', (0, n + 2, p, s, t, w), deep=dict(p=[0, n + 3, p, s, t, w]), bound='template with %d arbitrary bytes' % (n + 2)) for t, p, s, n, w in ((0, 0, 0, 4, 0), (1, 0, 0, 4, 0), (2, 0, 0, 4, 0), (0, 1, 1, 3, 0), (0, 2, 2, 3, 0), (0, 4, 4, 3, 0), (0, 5, 5, 3, 0), (0, 6, 6, 3, 0), (0, 8, 2, 4, 0), (0, 9, 8, 3, 0), (1, 7, 7, 3, 0), (1, 3, 3, 3, 0), (2, 3, 3, 3, 0), (2, 9, 6, 3, 0), (2, 7, 7, 3, 0), (1, 7, 7, 1, 300300), (0, 4, 4, 1, 248251), (0, 4, 4, 1, 260240), (2, 3, 3, 1, 253270), (2, 0, 3, 1, 254256), (1, 7, 3, 1, 251257))] +
  [job('calls%d' % k, 'err.cpp', (1, k), bound='all sequences of %d calls' % k) for k in (1, 2, 3)] + [job('members', 'err.cpp', (2, 0), bound='all sets of members'), *[job('tokens%d' % k, 'err.cpp', (4, k), bound='%d replaced values' % k) for k in (0, 1, 2)], job('names', 'err.cpp', (3,), bound='all errors')])
PROPS['C20'] = dict(jobs=[job('n%d_%d_%d_%d' % (n, p, i, j), 'time.cpp', (0, n, p, i, j), std='gnu++17', ub=True, bound='%d digits, two arbitrary' % n) for n in range(1, 20) for p in range(5) for i, j in ((0, min(1, n - 1)), (n // 2, n - 1)) if n > 1] +
  [job('w%d_%d_%d' % (u, p, s), 'time.cpp', (1, u, p, s), std='gnu++17', ub=True, bound='one arbitrary byte of the time') for u in range(4) for p in range(7) for s in (0, 8, 16, 24, 32, 40, 48, 56) if s < (56, 48, 40, 24)[u] or s == 0] +
  [job('t%d' % n, 'time.cpp', (2, n), std='gnu++17', ub=True, bound='%d arbitrary bytes' % n) for n in (1, 2, 3)])
RT_ = lambda w, tr, re, o=0, **k: job('v%d_t%d_r%d_%d' % (w, tr, re, o), 'rt.cpp', (w, tr, re, o), std='gnu++17', bound='part %d varies, transport %d, reuse %d' % (w, tr, re), **k)
PROPS['C21'] = dict(jobs=[RT_(w, tr, re) for w in range(16) for tr, re in ((0, 0), (0, 1), (0, 2), (3, 0), (2, 0))] + [RT_(w, tr, 3) for w, tr in ((0, 0), (5, 2), (9, 0), (3, 3))] + [RT_(w, 1, 0, o, par=2) for w in (5, 9) for o in (0, 245)] + [RT_(w, 1, 0, o, par=2, thorough=True) for w in (2, 6, 10, 13, 14, 15) for o in (0, 245)] + [RT_(w, tr, re, thorough=True) for w in range(16) for tr, re in ((3, 1), (3, 2), (2, 1), (2, 2))] + [RT_(w, 1, re, o, par=2, thorough=True) for w in range(16) for re in (1, 2) for o in (0, 245)])
PROPS['C04']['jobs'] += [dict(x, name='val_' + x['name']) for x in PROPS['C21']['jobs'] if x['p'][1:3] in ([1, 0], (1, 0)) and not x.get('thorough')][:2]
O3 = ((0, 0, 4), (1, 1, 4), (2, 0, 4), (3, 7, 3), (3, 2, 4), (4, 3, 4), (5, 4, 3), (6, 5, 3), (7, 3, 3), (8, 7, 3), (9, 8, 3), (10, 2, 3), (4, 6, 3), (1, 10, 4), (12, 7, 3))
PROPS['C09']['jobs'] += [job('skip_p%d_s%d_f%d' % (p, s, f), 'obj3.cpp', (n - (f > 0), p, s, f, 0, 0), deep=dict(p=[n + 1 - (f > 0), p, s, f, 0, 0]), bound='template with %d arbitrary bytes' % (n - (f > 0)) + ('', ', cut anywhere', ', byte by byte')[f]) for p, s, n in O3 for f in (0, 1, 2)] + [job('skip_o%d' % p, 'obj3.cpp', (2, p, s, f, 0, -1), bound='2 arbitrary bytes, all options') for p, s, f in ((11, 9, 0), (4, 3, 0), (1, 1, 1))] + \
  [job('skip_d%d_%d_f%d' % (k, p, f), 'obj3.cpp', (n, p, s, f, k, 0), bound='unknown value nested up to 257 deep with %d arbitrary bytes' % n) for k in (1, 2, 3) for p, s in ((1, 1), (4, 3)) for n, f in ((2, 0), (1, 2))]
PROPS['C14']['jobs'] += [job('long%d_%d_%d' % (s, n, p), 'map.cpp', (0, s, n, p), par=4, bound='all histories of %d operations (%s)' % (n, '2 names, 3 kinds of value, parsing again' if p == 3 else '3 of 4 names, 2 kinds of value')) for s, n, p in ((0, 5, 3), (3, 5, 3), (6, 5, 3), (6, 6, 4), (3, 5, 4))] + \
  [job('long%d_%d_%d' % (s, n, p), 'map.cpp', (0, s, n, p), par=8, thorough=True, time=900, bound='all histories of %d operations (%s)' % (n, '2 names, 3 kinds of value, parsing again' if p == 3 else '3 of 4 names, 2 kinds of value')) for s, n, p in ((3, 6, 3), (6, 6, 3), (6, 7, 4), (3, 7, 4))]
N22 = ((0, 0, 5), (1, 1, 4), (2, 2, 4), (3, 3, 3), (4, 4, 3), (5, 5, 3), (6, 6, 2), (7, 7, 3), (8, 8, 3), (9, 9, 3))
PROPS['C22'] = dict(jobs=[job('%s_p%d_f%d' % (w, p, f), 'nav.cpp', (m, n - (f > 0), p, s, f, 0, 0), deep=dict(p=[m, n + 1 - (f > 0), p, s, f, 0, 0]), bound='template with %d arbitrary bytes' % (n - (f > 0)) + ('', ', cut anywhere', ', byte by byte')[f]) for m, w in ((1, 'scope'), (2, 'range'), (3, 'list')) for p, s, n in N22 for f in ((0, 1, 2) if m < 3 else (0,))] +
  [job('reset_p%d_f%d' % (p, f), 'nav.cpp', (0, n, p, s, f, 2, 0), bound='first text with %d and second text with 2 arbitrary bytes' % n, par=2) for p, s, n in ((0, 0, 2), (1, 1, 2), (3, 0, 2), (4, 0, 1), (6, 0, 2), (8, 0, 1)) for f in (0, 1, 2)] + [job('reset_o%d' % p, 'nav.cpp', (0, 1, p, 0, f, 1, -1), bound='1 and 1 arbitrary bytes, all options', par=2) for p, f in ((0, 0), (1, 0), (2, 1))] +
  [job('again_p%d_f%d' % (p, f), 'nav.cpp', (4, n, p, s, f, 1, 0), bound='first text with %d and second text with 1 arbitrary bytes' % n, par=2) for p, s, n in ((0, 0, 3), (1, 1, 2), (3, 0, 2), (6, 0, 2), (8, 8, 2)) for f in (0, 1)])
PROPS['C22']['jobs'] += [job('deep%d' % k, 'nav.cpp', (5, 2, k, 0, 0, 0, 0), bound='scopes up to 300 levels deep, 2 arbitrary bytes') for k in (0, 1, 2)] + [job('deepest%d' % k, 'nav.cpp', (5, 1, k, 1, 0, 0, 0), steps=100000000, bound='scopes of 65535 to 65537 levels, 1 arbitrary byte') for k in (0, 1, 2)]
PROPS['C22']['jobs'] += [job('overlap%d_f%d_%d' % (k, f, n), 'nav.cpp', (7, f, k, n, 0, 0, 0), thorough=n > 2 and f == 1, par=2, bound='%d ranges between any brackets' % n) for k in (0, 1, 2) for f in (0, 1, 2) for n in (1, 2, 3) if n < 3 or not k]
PROPS['C22']['jobs'] += [job('ways', 'nav.cpp', (6, 2, 0, 0, 0, 0, 0), bound='3 arbitrary bytes, 8 ways')]
PROPS['C09']['jobs'] += [job('name%d_%d_%d' % (i, a, c), 'obj4.cpp', (i, a, c), bound='%d arbitrary bytes at the %s of a name, %s' % (abs(a), 'end' if a > 0 else 'start', 'whole' if not c else 'cut' if c < 0 else 'prolonged')) for i in range(22) for a, c in ((1, 0), (-1, 0), (1, 1)) + (((2, 0), (1, -1)) if i < 4 or i in (5, 15, 18) else ())]
PROPS['C11']['jobs'] += fewer(typed(0, (21, 22, 23, 24, 27, 28, 29), (4,), [(t, p, s, 3, 0, i) for t, p, s in ((21, 1, 1), (21, 4, 1), (22, 1, 1), (22, 4, 1), (23, 1, 1), (23, 4, 1), (24, 8, 1), (24, 1, 20), (25, 3, 3), (25, 9, 8), (25, 17, 3), (26, 9, 8), (26, 3, 3), (27, 2, 2), (27, 1, 1), (28, 5, 1), (28, 2, 2), (29, 2, 2), (29, 1, 1)) for i in (0, 1)]), (), 2)
PROPS['C12']['jobs'] += fewer(typed(2, (8, 9), (4,), [(t, p, s, 4, 0, 1) for t, p, s in ((1, 18, 14), (1, 16, 6), (3, 18, 15), (3, 9, 8), (4, 16, 6), (4, 18, 14), (8, 16, 6), (9, 16, 6))]), (8, 9), 2)
PROPS['C10']['jobs'] += typed(1, (), (), [(t, 25, 16, 2, 0, i) for t, i in ((24, 0), (20, 0), (21, 1))])
PROPS['C15']['jobs'] += [job('deep%d_%d_f%d' % (k, w, f), 'raw.cpp', (k, n, 1, 1, f, 0, w), defs=['KIND=%d' % k], steps=50000000, bound='8 depths up to 257, %d arbitrary bytes' % n) for k in range(8) for w in (1, 2, 3) for f, n in ((0, 1), (3, 1)) if k % 3 != 1 or w != 2 or k >= 6 if k % 3 != 0 or w != 1 or k >= 6]
PROPS['C13']['jobs'] += [job('big_ser', 'enum.cpp', (5, 0), bound='all of 300 enumerators')] + [job('big_num%d' % k, 'enum.cpp', (5, 1, k), bound='numbers with two arbitrary digits') for k in range(10)] + [job('big_name%d_%d' % (k, n), 'enum.cpp', (5, 2, k, n), par=2, bound='names with %d arbitrary bytes' % n) for k in range(3) for n in (1, 2, 3)] + [job('mix%d_%d' % (k, w), 'enum.cpp', (5, 3, k, w), bound='names with an arbitrary last byte') for k in range(12) for w in (-1, 0, 1)]
PROPS['C09']['jobs'] += [job('big%d_%d' % (k, n), 'obj5.cpp', (k, n, n < 3 and k < 4), par=2, bound='103 members, names with %d arbitrary bytes' % n) for k, n in ((0, 2), (1, 2), (2, 2), (3, 1), (2, 0), (4, 1), (3, 3))]
PROPS['C10']['jobs'] += [job('held%d' % t, 'opt.cpp', (t,), std='gnu++17', bound='all digits, held a value or not') for t in range(6)]
PROPS['C10']['jobs'] += [job('copy%d' % t, 'copy.cpp', (t, 3), deep=dict(p=[t, 4]), std='gnu++17', bound='all histories of 3 copies, moves and assignments') for t in range(4)]
LEN = (8, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 1000)
PROPS['C14']['jobs'] += [job('large%d_%d_%d' % (k, n, w), 'map.cpp', (3, k, n, w), bound='names or texts of %d characters with one arbitrary byte' % n) for k in (0, 1, 2) for n in LEN for w in (-1, 0, n // 2)] + [job('large%d_%d' % (k, n), 'map.cpp', (3, k, n, 0), steps=50000000, bound='%d entries' % n) for k in (3, 4) for n in (85, 129, 256, 300)]
