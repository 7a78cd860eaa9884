# C21: counter-based generators. Each engine function, at each extension, against the published algorithm written as plain
# scalar C over one lane (the specification below is written from the papers' constants and round structure, per lane).
import os
from .exts import *
from .ops import Cell
from . import run, vecprops as vp, layers

PRE = '#include <nsimd/nsimd.h>\n#include <nsimd/modules/random/functions.hpp>\n#ifdef __SIZEOF_INT128__\ntypedef unsigned __int128 rnd_u128;\n#else\ntypedef unsigned _BitInt(128) rnd_u128;\n#endif\n'
PHILOX = {(32, 2): [10], (32, 4): [7, 10], (64, 2): [6, 10], (64, 4): [7, 10]}
THREEFRY = {(32, 2): [12, 20, 32], (32, 4): [12, 20, 72], (64, 2): [13, 20, 32], (64, 4): [12, 20, 72]}
M = {(32, 2): ['0xD256D193'], (32, 4): ['0xD2511F53', '0xCD9E8D57'], (64, 2): ['0xD2B74407B1CE6E93'], (64, 4): ['0xD2E7470EE14C6C93', '0xCA5A826395121157']}
W = {32: ['0x9E3779B9', '0xBB67AE85'], 64: ['0x9E3779B97F4A7C15', '0xBB67AE8584CAA73B']}
ROT = {(64, 4): '14,16,52,57,23,40,5,37,25,33,46,12,58,22,32,32', (64, 2): '16,42,12,31,16,32,24,21',
       (32, 4): '10,26,11,21,13,27,23,5,6,20,17,11,25,10,18,20', (32, 2): '13,15,26,6,17,29,16,24'}
PARITY = {32: '0x1BD11BDA', 64: '0x1BD11BDAA9FC1A22'}

def philox_ref(ws, nw, R):
    u = 'u%d' % ws
    c = lambda s: '((%s)%sull)' % (u, s)
    if ws == 32: mul = 'u64 p = (u64)m * x; lo = (u32)p; hi = (u32)(p >> 32);'
    else: mul = 'rnd_u128 p = (rnd_u128)m * x; lo = (u64)p; hi = (u64)(p >> 64);'
    h = nw // 2
    r = 'for (int r = 0; r < %d; r++) { %s lo, hi, l[%d], h[%d];' % (R, u, h, h)
    for j in range(h): r += '{ const %s m = %s, x = c[%d]; %s l[%d] = lo; h[%d] = hi; }' % (u, c(M[ws, nw][j]), 2 * j, mul, j, j)
    if nw == 2: r += 'c[0] = h[0] ^ k[0] ^ c[1]; c[1] = l[0];'
    else: r += '{ %s a = h[1] ^ k[0] ^ c[1], b = h[0] ^ k[1] ^ c[3]; c[0] = a; c[1] = l[1]; c[2] = b; c[3] = l[0]; }' % u
    r += ''.join('k[%d] = (%s)(k[%d] + %s);' % (j, u, j, c(W[ws][j])) for j in range(h)) + '}'
    return r

def threefry_ref(ws, nw, R):
    u = 'u%d' % ws
    r = '%s s[%d]; s[%d] = (%s)%sull; for (int j = 0; j < %d; j++) { s[j] = k[j]; s[%d] ^= k[j]; c[j] += k[j]; } const int rot[] = {%s};' % (u, nw + 1, nw, u, PARITY[ws], nw, nw, ROT[ws, nw])
    mix = 'c[%s] += c[%s]; { int n = rot[%s]; c[%s] = (%s)(c[%s] << n | c[%s] >> (%d - n)) ^ c[%s]; }'
    def mx(a, b, n): return mix % (a, b, n, b, u, b, b, ws, a)
    if nw == 2: body = mx('0', '1', 'r & 7')
    else: body = 'if (r & 1) { %s %s } else { %s %s }' % (mx('0', '3', '(r & 7) * 2'), mx('2', '1', '(r & 7) * 2 + 1'), mx('0', '1', '(r & 7) * 2'), mx('2', '3', '(r & 7) * 2 + 1'))
    inj = 'if ((r & 3) == 3) { int d = r / 4 + 1; for (int j = 0; j < %d; j++) c[j] += s[(d + j) %% %d]; c[%d] += d; }' % (nw, nw + 1, nw - 1)
    return r + 'for (int r = 0; r < %d; r++) { %s %s }' % (R, body, inj)

def cells(ext):
    out = []
    for name, table in (('philox', PHILOX), ('threefry', THREEFRY)):
        for (ws, nw), rounds in table.items():
            t = 'u%d' % ws; L = ext.n(t); kn = nw // 2 if name == 'philox' else nw; v = 'nsimd_%s_v%s' % (ext.name, t)
            for R in rounds:
                fn = '%s_%dx%d_%d' % (name, nw, ws, R)
                p = [{'k': 'out', 'n': nw * L, 'w': ws}] + [ext.vec(t)] * (nw + kn)
                src = 'nsimd::packx%d<%s > c; nsimd::packx%d<%s > k; ' % (nw, t, kn, t)
                src += ''.join('c.v%d.car = *(const %s *)a%d;' % (j, v, j) for j in range(nw)) + ''.join('k.v%d.car = *(const %s *)a%d;' % (j, v, nw + j) for j in range(kn))
                src += 'nsimd::packx%d<%s > r = nsimd::random::%s(c, k);' % (nw, t, fn)
                src += ''.join('*(%s *)((%s *)o + %d) = r.v%d.car;' % (v, t, j * L, j) for j in range(nw))
                refs = []
                r = 'for (int i = 0; i < %d; i++) { %s c[%d], k[%d];' % (L, t, nw, kn)
                r += ''.join('c[%d] = ((const %s *)a%d)[i];' % (j, t, j) for j in range(nw)) + ''.join('k[%d] = ((const %s *)a%d)[i];' % (j, t, nw + j) for j in range(kn))
                r += philox_ref(ws, nw, R) if name == 'philox' else threefry_ref(ws, nw, R)
                r += ''.join('((%s *)o)[%d + i] = c[%d];' % (t, j * L, j) for j in range(nw)) + '}'
                refs.append(r)
                c = Cell(ext, fn, t, 'nsimd::random::' + fn, src, p, [], nw * L, 'base')
                c.id = 'random.%s.%s' % (ext.name, fn); c.group = 'random-' + ext.name
                c.where = 'egg/modules/random/hatch.py: %s -> include/nsimd/modules/random/functions.hpp: nsimd::random::%s (%s)' % ('Philox.gen_func, Philox.mullohi' if name == 'philox' else 'ThreeFry.gen_body', fn, ext.name)
                c.base = refs; c.extra = {'half': False, 'lin': ws if name == 'threefry' else 0, 'parts': ws // 2 if name == 'philox' else 0, 'highParts': [int(m, 16) >> (ws // 2) for m in M[ws, nw]] if name == 'philox' else [], 'budget': 2000000000, 'nodes': 60000000}
                out.append(c)
    return out

EXPL = ('One obligation per engine function (generator, word size, number of words, number of rounds) and SIMD extension: the function instantiated from the generated header and the '
        'published algorithm (one lane at a time) are abstractly interpreted over unknown counters and keys; every output bit is a boolean function of counter bits, key bits, value-numbered word sums '
        '(threefry) or bits of partial products (philox), and must be the same function.')

def check(rep, tree, work):
    exts = pick(rep, NATIVE + ['aarch64', 'vsx'])
    for n in exts:
        e = EXTS[n]; sub = os.path.join(work, n); os.makedirs(sub, exist_ok=True)
        cs = cells(e)
        kw = dict(lang='c++', std='-std=c++14', prelude=PRE)
        vp.report_cells(rep, tree, sub, cs, run.run_cells(cs, tree, sub, chunk=3, **kw), judge=layers.judge, **kw)
