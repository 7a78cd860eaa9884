# C24: which programs the C++20 interface accepts. Compile-pass and compile-fail witnesses, decided by the compiler's type checker alone.
import os, re, collections, concurrent.futures as cf
from . import libmodel as lm, run, ops, layers as L, stage as st, symbols
from .exts import *

def pk(kind, t, N, e): return 'nsimd::%s<%s, %d, nsimd::%s>' % ('packl' if kind == 'L' else 'pack', t, N, e)

def domain(ext):
    d = collections.defaultdict(set)
    for c in ops.cells_for(ext): d[c.op].add(c.typ)
    return d

OTHER = {'i8': 'u8', 'u8': 'i8', 'i16': 'u16', 'u16': 'i16', 'i32': 'f32', 'u32': 'i32', 'f32': 'u32', 'i64': 'u64', 'u64': 'f64', 'f64': 'i64', 'f16': 'u16'}
WIDER = {'i8': 'i16', 'u8': 'u16', 'i16': 'i32', 'u16': 'f32', 'i32': 'i64', 'u32': 'f64', 'f32': 'f64', 'i64': 'i32', 'u64': 'u8', 'f64': 'f32', 'f16': 'f32'}

def other_ext(ext): return 'sse2' if ext.family == 'x86' and ext.name != 'sse2' else 'cpu'

class W:
    def __init__(s, id, src, why): s.id = id; s.src = src; s.why = why; s.wrap = None; s.params = []

def witnesses(ext, N):
    """ill-typed calls: each differs from a documented one in a single type"""
    out = []; dom = domain(ext); oe = other_ext(ext); E = ext.name
    for cl in L.base_calls(ext):
        p = L.PackCall(cl, N); t = cl.t
        if cl.op == 'len': continue
        tpl = cl.op in L.TEMPLATED or (cl.op.startswith('load') and cl.rk)
        R = p.pk(cl.rk, cl.rt, cl.deg) if cl.rk in ('V', 'L') else ''
        name = 'nsimd::%s' % cl.op
        def call(vals, ta=None): return '%s%s(%s);' % (name, '<%s >' % (ta or R) if tpl else '', ', '.join(vals))
        good = [p.val(a) for a in cl.args]
        def w(tag, vals, why, ta=None): out.append(W('%s.%s%s.%s.%d' % (cl.op, t, '.' + cl.to if cl.to else '', tag, N), call(vals, ta), '%s: %s' % (cl.op, why)))
        vl = [i for i, a in enumerate(cl.args) if a[0] in 'VL']
        for i in vl:
            k, ty, ix, _ = cl.args[i]
            def sub(kind, typ, n, e): v = list(good); v[i] = '*(const %s *)a%d' % (pk(kind, typ, n, e), ix); return v
            inv = 'VL'[k == 'V']
            single = len(vl) == 1 and not tpl
            if cl.op not in ('set1l', 'notl') or True: w('kind%d' % i, sub('L' if k == 'V' else 'V', ty, N, E), 'a %s where a %s is expected' % (('logical', 'value') if k == 'V' else ('value', 'logical')))
            if single:
                # with one vector argument, only types the operation does not have
                if not any(a[0] == 'P' for a in cl.args):
                    for t2 in TYPES:
                        if t2 not in dom[cl.op]: w('type%d.%s' % (i, t2), sub(k, t2, N, E), 'element type %s is not supported' % t2)
                else:
                    w('type%d' % i, sub(k, OTHER[ty], N, E), 'vector of %s and pointer to %s' % (OTHER[ty], t))
            elif not tpl or cl.op.startswith('load'):
                w('same%d' % i, sub(k, OTHER[ty], N, E), 'argument %d has element type %s, the others %s' % (i, OTHER[ty], ty))
                w('wide%d' % i, sub(k, WIDER[ty], N, E), 'argument %d has element type %s, the others %s' % (i, WIDER[ty], ty))
            if len(vl) > 1 or (tpl and cl.rk):
                w('unroll%d' % i, sub(k, ty, N + 1, E), 'argument %d has another unroll factor' % i)
                if oe != E: w('ext%d' % i, sub(k, ty, N, oe), 'argument %d has another SIMD extension' % i)
        for i, a in enumerate(cl.args):
            if a[0] == 'P' and cl.op != 'gather' or a[0] == 'P' and SZ[OTHER[a[1]]] != SZ[a[1]]:
                v = list(good); v[i] = '(%s%s *)a%d' % (a[3], OTHER[a[1]] if cl.op.startswith(('load', 'store', 'mask', 'gather', 'scatter')) else 'void', a[2])
                w('ptr%d' % i, v, 'pointer to %s instead of %s' % (OTHER[a[1]], a[1]))
                if cl.op.startswith(('store', 'mask_store', 'scatter')):
                    v = list(good); v[i] = '(const %s *)a%d' % (a[1], a[2]); w('const%d' % i, v, 'stores through a pointer to const')
        if tpl and R:
            if cl.op in ('set1', 'set1l', 'iota') or cl.op.startswith('load'):
                w('ret.kind', good, 'result is a %s' % ('logical' if cl.rk == 'V' else 'value'), p.pk('L' if cl.rk == 'V' else 'V', cl.rt, 1))
                if cl.deg > 1: w('ret.deg', good, 'result has the wrong number of vectors', p.pk('V', cl.rt, cl.deg - 1))
            if cl.op in ('cvt', 'reinterpret', 'reinterpretl', 'upcvt', 'downcvt'):
                w('ret.size', good, 'result element type has the wrong size', p.pk(cl.rk, WIDER[cl.rt], cl.deg))
                w('ret.kind', good, 'result is a %s' % ('logical' if cl.rk == 'V' else 'value'), p.pk('L' if cl.rk == 'V' else 'V', cl.rt, 1))
                if cl.op == 'upcvt': w('ret.deg', good, 'one vector instead of two', p.pk('V', cl.rt, 1))
                if cl.op in ('cvt', 'reinterpret', 'downcvt'): w('ret.deg', good, 'two vectors instead of one', p.pk('V', cl.rt, 2))
    return out

BADTYPES = ['bool', 'char', 'wchar_t', 'char16_t', 'long double', '__int128', 'void *', 'int *', 'const float', 'float &', 'volatile int', 'struct not_a_value', 'nsimd::cpu', 'nsimd::pack<float>', 'enum not_a_value_either']
def structural(ext):
    out = []
    def w(id, src, why): out.append(W(id, src, why))
    for b in BADTYPES:
        i = re.sub(r'\W+', '_', b)
        w('pack.' + i, 'nsimd::pack<%s > *p = 0; (void)p;' % b, 'pack of %s' % b)
        w('packl.' + i, 'nsimd::packl<%s > *p = 0; (void)p;' % b, 'packl of %s' % b)
        for d in (1, 2, 3, 4): w('packx%d.%s' % (d, i), 'nsimd::packx%d<%s > *p = 0; (void)p;' % (d, b), 'packx%d of %s' % (d, b))
        if b not in ('float &',):
            w('allocator.' + i, 'nsimd::allocator<%s > *p = 0; (void)p;' % b, 'allocator of %s' % b)
            w('aligned_alloc_for.' + i, 'nsimd::aligned_alloc_for<%s >(1);' % b, 'aligned_alloc_for<%s>' % b)
    for b in ('int', 'nsimd::aligned', 'struct not_a_value', 'float'):
        i = re.sub(r'\W+', '_', b)
        for c in ('pack', 'packl', 'packx2', 'packx3', 'packx4'): w('%s.ext.%s' % (c, i), 'nsimd::%s<float, 1, %s > *p = 0; (void)p;' % (c, b), '%s used as SIMD extension' % b)
    for b in ('int', 'nsimd::cpu', 'float'):
        i = re.sub(r'\W+', '_', b)
        w('load.alignment.' + i, '(void)nsimd::load<nsimd::pack<float>, %s >((const float *)a0);' % b, '%s used as alignment' % b)
        w('store.alignment.' + i, 'nsimd::store<%s >((float *)a0, *(const nsimd::pack<float> *)a1);' % b, '%s used as alignment' % b)
        w('mask_store.alignment.' + i, 'nsimd::mask_store<%s >(*(const nsimd::packl<float> *)a1, (float *)a0, *(const nsimd::pack<float> *)a1);' % b, '%s used as alignment' % b)
    return out
TOP = 'struct not_a_value { float x; }; enum not_a_value_either { a_value }; '

def rejected(ext, tree, work, ws, std, tag):
    """the witnesses the compiler accepts; (accepted, total, output)"""
    f = os.path.join(work, 'rej_%s_%s.cpp' % (ext.name, tag)); lines = {}
    s = ['#include <nsimd/nsimd.h>\n#include <nsimd/cxx_adv_api.hpp>\n' + TOP + '\n']; n = 3; seen = set()
    for k, x in enumerate(ws):
        if x.src in seen: continue
        seen.add(x.src); n += 1; lines[n] = x; s.append('void cell_%d(void *a0, void *a1, void *a2, void *a3, void *a4, void *o) { %s }\n' % (k, x.src))
    n += 1; s.append('int control(int x) { return x.car; }\n')
    with open(f, 'w') as h: h.write(''.join(s))
    rc, out = run.sh(['clang++-18'] + lm.flags(ext) + ['-std=' + std, '-w', '-Wno-everything', '-ferror-limit=0', '-fsyntax-only', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', '-fno-lax-vector-conversions', '-I' + os.path.join(tree, 'include'), '-include', os.path.join(st.VERIF, 'spec', 'pre.hpp'), f])
    hit = set()
    for l in out.splitlines():
        m = re.match(r'^(\S+?):(\d+):\d+: (?:fatal )?(error|note): (.*)$', l)
        if m and m.group(1) == f and (m.group(3) == 'error' or 'requested here' in m.group(4)): hit.add(int(m.group(2)))
    if n not in hit: return None, len(lines), out    # the file was not read to its end
    return [x for k, x in sorted(lines.items()) if k not in hit], len(lines), out

EXPL = ('Compile-pass witnesses: every documented call (operators, base C++ functions, packs of several unroll factors, module expressions) type-checks under every language '
        'standard for every extension. Compile-fail witnesses: every documented call with exactly one type changed (element type of the same or another size, unroll factor, '
        'extension, logical for value, pointer type, result type), every operation on an element type it does not have, and every class on types that are not values, extensions '
        'or alignments must be rejected in C++20, at the line that is wrong. Meaning: the code of the C++20 calls is compared, as in C14 and C15, with the C functions. '
        'Bounds: witnesses differ from a valid call in one type; programs with several errors, and errors only user code could see, are not enumerated.')

def check(rep, tree, work):
    from . import tet, spmd, fixedp, rnd
    q = rep.tier == 'quick'
    jobs = []
    few = ['cpu', 'avx2', 'sve256', 'neon128', 'vsx']
    for n in lm.ALL:
        e = EXTS[n]
        for std in ('gnu++98', 'gnu++11', 'gnu++14', 'gnu++17', 'gnu++20'):
            new = std == 'gnu++20'
            if q and not new and n not in few: continue
            for N in ((1, 2) if new or not q else (2,)):
                jobs.append(('accept', e, L.pack_cells(e, N) + L.operator_cells(e, N) + (L.cxx_cells(e) if N == 1 else []), L.FBNO, std, 'packs%d' % N))
            if std == 'gnu++98' or (q and n not in few): continue
            tc = [c for t in (['f32', 'i16'] if q else TYPES) for c in tet.cells(e, t, 1, rep.tier)] if n in NATIVE else []
            jobs.append(('accept', e, tc, tet.PRE, std, 'tet1d'))
            if n in NATIVE:
                jobs.append(('accept', e, spmd.stmt_cells(e, 1) + spmd.flow_cells(e, 32, 1, list(spmd.PROGS), 'flow'), spmd.pre(32), std, 'spmd'))
                jobs.append(('accept', e, fixedp.scalar_cells(e, 8, 8, 's') + fixedp.simd_cells(e, 8, 8, 'v'), fixedp.PRE, std, 'fixed'))
                jobs.append(('accept', e, rnd.cells(e), rnd.PRE, std, 'random'))
    rj = ['avx2', 'sse42', 'avx512_skylake', 'cpu', 'sve256', 'neon128', 'aarch64', 'vmx'] if q else lm.ALL
    for n in rj:
        for N in ((1,) if q and n not in ('avx2',) else (1, 2) if q else (1, 2, 3)): jobs.append(('reject', EXTS[n], None, N))
        jobs.append(('reject', EXTS[n], None, 0))
    def one(j):
        if j[0] == 'accept':
            os.makedirs(os.path.join(work, j[4] + j[5]), exist_ok=True)
            return j, symbols.syntax(j[1], tree, os.path.join(work, j[4] + j[5]), j[2], 'c++', j[3], j[4], j[5])
        ws = structural(j[1]) if j[3] == 0 else witnesses(j[1], j[3])
        return j, rejected(j[1], tree, work, ws, 'c++20', str(j[3]))
    tot = collections.Counter()
    jobs.sort(key=lambda j: j[0] != 'reject')
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            e = j[1]
            if j[0] == 'accept':
                _, tag, n, rc, bad, out = r; tot['valid programs'] += n; g = 'accept-' + j[4]
                if not n: continue
                if rc and not bad: rep.add('accept.%s.%s.%s' % (e.name, j[4], tag), 'undec', '', 'compiler failed: ' + out[-200:], g); continue
                for msg, where, c in bad: rep.add('accept.%s.%s.%s.%s' % (e.name, j[4], tag, c.id if c is not None else where), 'bad', where, '%s is rejected in %s: %s' % (('the valid call "%s"' % c.src.strip()[:160]) if c is not None else 'a header', j[4], msg), g)
                if not bad: rep.add('accept.%s.%s.%s' % (e.name, j[4], tag), 'ok', '', '%d programs' % n, g)
            else:
                acc, n, out = r; tot['ill-typed programs'] += n; g = 'reject-' + e.name
                if acc is None: rep.add('reject.%s.%d' % (e.name, j[3]), 'undec', '', 'compiler stopped early: ' + out[-200:], g); continue
                for x in acc: rep.add('reject.%s.%s' % (e.name, x.id), 'bad', 'include/nsimd/cxx_adv_api_functions.hpp (egg/operators.py), include/nsimd/cxx_adv_api.hpp, include/nsimd/nsimd.h', 'the ill-typed program "%s" is accepted in C++20 (%s)' % (x.src, x.why), g)
                rep.add('reject.%s.%d' % (e.name, j[3]), 'ok', '', '%d programs rejected' % (n - len(acc)), g)
    rep.notes['programs'] = dict(tot)
    rep.add('count', 'ok' if tot['valid programs'] > 50000 and tot['ill-typed programs'] > 30000 else 'undec', '', str(dict(tot)), 'count')
    # the same meaning: C++20 packs and base functions against the C functions
    cs = []
    for n in pick(rep, ['avx2', 'cpu']): cs += L.pack_cells(EXTS[n], 2) + L.operator_cells(EXTS[n], 2) + L.cxx_cells(EXTS[n])
    for c in cs: c.id = 'cxx20.' + c.id; c.group = 'meaning'
    L.go(rep, tree, work, [('m20', cs, dict(lang='c++', std='-std=gnu++20', prelude=L.FBNO, chunk=300))])
