# C27: printing and ufp. The print functions run over an unknown stream, format and vector: every call that reaches the
# stream is an event, its result unknown (so every error is considered), and the chain must be that of the specification.
import os
from .exts import *
from .ops import Cell
from . import run, vecprops as vp, layers

FMT = {'i8': ('"%d"', '(int)b[%d]'), 'i32': ('"%d"', 'b[%d]'), 'u32': ('"%u"', 'b[%d]'), 'i64': ('"%lld"', '(long long)b[%d]'), 'u64': ('"%llu"', '(unsigned long long)b[%d]'),
       'f16': ('"%e"', '(double)nsimd_f16_to_f32(b[%d])'), 'f32': ('"%e"', '(double)b[%d]'), 'f64': ('"%e"', 'b[%d]')}
for _t in ('u8', 'i16', 'u16'): FMT[_t] = FMT['i8']

def put_cells(ext, types=TYPES):
    out = []; e = ext.name
    for t in types:
        for l in ('', 'l'):
            v = 'nsimd_%s_v%s%s' % (e, l, t); n = ext.n(t)
            f, val = FMT[t]
            for nofmt in (0, 1):
                fm = '(const char *)0' if nofmt else '(const char *)(*(const u64 *)a1 | 1ull << 45)'   # no format, or some format
                src = '*(int *)o = nsimd_put_%s_%s%s(*(FILE *const *)a0, %s, *(const %s *)a2);' % (e, l, t, fm, v)
                # specification, lane after lane
                r = ['FILE *f = *(FILE *const *)a0; const char *s = %s; %s b[%d]; nsimd_store%su_%s_%s(b, *(const %s *)a2); int r = -1, c, k = 2;' % (fm, t, n, l, e, t, v)]
                body = 'if (fputs(" }", f) != EOF) r = k + 2;'
                for i in range(n - 1, -1, -1):
                    x = val % i
                    body = 'if ((c = fprintf(f, %s, %s)) >= 0) { k += c; %s }' % (f if nofmt else 's', x, ('if (fputs(", ", f) != EOF) { k += 2; %s }' % body) if i < n - 1 else body)
                r.append('if (fputs("{ ", f) != EOF) { %s } *(int *)o = r;' % body)
                params = [{'k': 'out', 'n': 1, 'w': 32}, {'k': 'vec', 'n': 1, 'w': 64}, {'k': 'vec', 'n': 1, 'w': 64}, ext.logp(t, 'log') if l else ext.vec(t)]
                c = Cell(ext, 'put' + l, t, 'nsimd_put', src, params, [], n, 'base')
                c.id = 'put.%s.%s%s.%s' % (e, l, t, 'default' if nofmt else 'fmt'); c.group = 'put-' + e; c.where = 'egg/gen_src.py: get_put_impl -> src/api_%s.cpp: nsimd_put_%s_%s%s' % (e, e, l, t)
                c.base = [' '.join(r)]; c.extra = {'events': True, 'half': False, 'budget': 2000000}
                out.append(c)
    return out

def ufp_cells(ext, tag):
    out = []
    for t, E, M, u in (('f16', 5, 10, 'u16'), ('f32', 8, 23, 'u32'), ('f64', 11, 52, 'u64')):
        p = [{'k': 'out', 'n': 1, 'w': 32}, {'k': 'vec', 'n': 1, 'w': SZ[t] * 8}, {'k': 'vec', 'n': 1, 'w': SZ[t] * 8}]
        ref = ('u64 x = *(const {u} *)a0, y = *(const {u} *)a1; u64 em = {em}, mm = {mm}; u64 ex = (x >> {M}) & em, ey = (y >> {M}) & em, mx = (x & mm) + mm + 1, my = (y & mm) + mm + 1;'
               'if (ex == ey + 1) {{ mx += mx; ey = ex; }} else if (ey == ex + 1) {{ my += my; ex = ey; }} int r = 0; if (ex == ey) {{ u64 d = mx > my ? mx - my : my - mx; r = {M} + 1; '
               'for (int i = 0; i < {M} + 2; i++) if (d >> i & 1) r = {M} - i; }} *(int *)o = r;').format(u=u, em='%dull' % ((1 << E) - 1), mm='%dull' % ((1 << M) - 1), M=M)
        for fn in ('nsimd_ufp_' + t, 'nsimd::ufp'):
            c = Cell(ext, 'ufp', t, fn, '*(int *)o = %s(*(const %s *)a0, *(const %s *)a1);' % (fn, t, t), p, [], 1, 'base')
            c.id = '%s.%s.%s' % (fn.replace('::', '.'), t, tag); c.group = 'ufp-' + tag; c.where = 'src/ufp.cpp: nsimd::ufp<%d, %d, %s>' % (E, M, u)
            c.base = [ref, ref.replace('*(int *)o = r;', '*(int *)o = r < 0 ? 0 : r;')]; c.extra = {'half': False}
            out.append(c)
    return out

EXPL = ('One obligation per print function (element type, vector or logical, SIMD extension) and ufp function: the function of the generated source of the library and its '
        'specification are abstractly interpreted over an unknown vector, stream and format; each call that reaches the stream is an uninterpreted event with an unknown result, '
        'and the chains of events (what is written, in which order, under which condition) and the returned values are compared.')

def check(rep, tree, work):
    exts = pick(rep, ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_skylake', 'aarch64'])
    for n in exts:
        e = EXTS[n]; sub = os.path.join(work, n); os.makedirs(sub, exist_ok=True)
        lib = run.build_lib(e, tree, sub, 'src/api_%s.cpp' % n, std='-std=gnu++11')
        cs = put_cells(e)
        kw = dict(lang='c++', std='-std=gnu++11', prelude='#include <nsimd/nsimd.h>\n', mods=lambda ext: [lib])
        vp.report_cells(rep, tree, sub, cs, run.run_cells(cs, tree, sub, chunk=3, **kw), judge=layers.judge, **kw)
    for n, std, tag in (('cpu', '-std=gnu++98', 'cxx98'), ('avx2', '-std=gnu++14', 'avx2')):
        e = EXTS[n]; sub = os.path.join(work, 'ufp' + tag); os.makedirs(sub, exist_ok=True)
        lib = run.build_lib(e, tree, sub, 'src/ufp.cpp', std=std)
        kw = dict(lang='c++', std=std, mods=lambda ext: [lib])
        cs = ufp_cells(e, tag)
        vp.report_cells(rep, tree, sub, cs, run.run_cells(cs, tree, sub, **kw), judge=layers.judge, **kw)
