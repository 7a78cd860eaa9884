# C19: math operators reach the routine of their own name, accuracy, precision and extension.
from .exts import *
from . import ops, run, vecprops as vp, libmodel as L, stage as st
import os

def vec_cells(ext):
    out = []
    for c in ops.cells_for(ext):
        if c.op not in ops.MATH: continue
        t, n, na = c.typ, c.n, ops.MATH[c.op]
        w, lt = ext.lane(t)
        # the routine of this name applied to every lane, in order; emulated f16 lanes are f32 lanes
        if lt == 'h16': call = 'nsimd_f32_to_f16(uf_math_%s__f32(%s))' % (c.op, ', '.join('nsimd_f16_to_f32(((const f16 *)a%d)[i])' % k for k in range(na))); ct = 'f16'
        else: call = 'uf_math_%s__%s(%s)' % (c.op, lt, ', '.join('((const %s *)a%d)[i]' % (lt, k) for k in range(na))); ct = lt
        c.base = 'int i; for (i = 0; i < %d; i++) ((%s *)o)[i] = %s;' % (n, ct, call)
        c.refs = ['base']; c.group = 'vector-' + ext.name
        out.append(c)
    return out

def scalar_cells(ext, lang):
    out = []
    for op, na in ops.MATH.items():
        for t in FTYPES:
            a = ['*(const %s *)a%d' % (t, i) for i in range(na)]
            name = 'nsimd_scalar_%s_%s' % (op, t) if lang == 'c' else 'nsimd::scalar_' + op
            c = ops.Cell(ext, op, t, name, '*(%s *)o = %s(%s);' % (t, name, ', '.join(a)), [{'k': 'out', 'n': 1, 'w': SZ[t] * 8}] + [{'k': 'vec', 'n': 1, 'w': SZ[t] * 8}] * na, ['base'], 1)
            if t == 'f16': call = 'nsimd_f32_to_f16(uf_math_%s__f32(%s))' % (op, ', '.join('nsimd_f16_to_f32(%s)' % x for x in a))
            else: call = 'uf_math_%s__%s(%s)' % (op, t, ', '.join(a))
            c.base = '*(%s *)o = %s;' % (t, call); c.group = 'scalar-' + lang
            c.id = 'scalar-%s.%s.%s' % (lang, op, t)
            c.where = 'egg/gen_scalar_utilities.py via include/nsimd/scalar_utilities.h: ' + name
            c.extra = {'half': True} if t == 'f16' else {}
            out.append(c)
    return out

# ---- the libraries: which routine the symbol of each operator denotes
U1 = 'sin cos tan asin acos atan atan2 log cbrt lgamma tgamma erf'.split()
U35 = 'sin cos tan asin acos atan atan2 log cbrt'.split()
def sleef_name(op, t):
    """the name of the routine in the sources of the math library (Sleef's own naming)"""
    f = 'f' if t == 'f32' else ''
    m = op.rsplit('_', 1)
    if len(m) == 1: return 'x' + op + f
    b, a = m
    suf = {'u10': '_u1' if b in U1 else '', 'u35': '' if b in U35 else '_u35', 'u15': '_u15', 'u05': '_u05'}[a]
    return 'x' + b + f + suf

def objects(tree, work):
    """{(ext, typ): {build: (source, flags)}} of the math objects of every library, by the repository's two build descriptions"""
    out = {}
    for n in L.ALL + ['sve']:
        e = EXTS[n]
        for b, objs in (('build.nsconfig', L.nsconfig(tree, e)), ('CMakeLists.txt', L.cmake(tree, e, work)[0])):
            for o, src, fl in objs or []:
                if not src or 'sleef' not in os.path.basename(src): continue
                out.setdefault((n, src, tuple(L.clean(fl))), []).append((b, o))
    return out

def lanes(e, t):
    """the type of a register of doubles or floats as the sources may declare it"""
    n, w = e.bits // 8 // SZ[t], SZ[t] * 8
    one = 'f%d' % w
    return {'%sx%d' % (one, n), '{' + (one + ';') * n + '}'}

def check_libs(rep, tree, work):
    objs = objects(tree, work)
    jobs = {}
    for (n, src, fl), bs in objs.items(): jobs.setdefault((EXTS[n].triple, src, fl), []).append((n, bs))
    def one(k):
        triple, src, fl = k
        base = ['--target=' + triple] + ([] if triple == X else L.CROSS + [x for x in EXTS[jobs[k][0][0]].flags if x.startswith('-mf')])
        return k, L.astlint(EXTS[jobs[k][0][0]], tree, src, list(fl), base=base)
    import concurrent.futures as cf
    got = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for k, r in ex.map(one, list(jobs)): got[k] = r
    names = {(t, sleef_name(op, t)): op for op in ops.MATH for t in ('f32', 'f64')}
    for n in L.ALL + ['sve']:
        e = EXTS[n]
        for b in ('build.nsconfig', 'CMakeLists.txt'):
            defs = {}; anyobj = False
            for (m, src, fl), bs in objs.items():
                if m != n: continue
                for bb, o in bs:
                    if bb != b: continue
                    anyobj = True
                    f, err = got[(e.triple, src, fl)]
                    if f is None: rep.add('%s.%s.%s' % (b, n, o), 'undec', '%s: %s' % (b, o), 'not analysed: ' + err[:200], group='lib-' + n); continue
                    for x in f:
                        if x['k'] == 'fun' and x['def'] and x['sym']: defs.setdefault(x['sym'], []).append((x, o))
            if not anyobj: rep.add('%s.%s' % (b, n), 'undec', b, 'no math objects found for ' + n, group='lib-' + n); continue
            for ex in (n, 'scalar'):
                if ex == 'scalar' and n not in ('cpu', 'neon128', 'aarch64', 'vmx'): continue   # the scalar objects are the same in every library of a target
                if ex == 'cpu': continue
                for op in ops.MATH:
                    for t in ('f32', 'f64'):
                        sym = 'nsimd_sleef_%s_%s_%s' % (op, ex, t)
                        oid = '%s.%s.%s' % (b, n, sym); g = 'lib-' + n
                        d = defs.get(sym)
                        if not d: rep.add(oid, 'bad', '%s: library of %s' % (b, n), 'no object of the library defines %s, which the headers declare' % sym, group=g); continue
                        x, o = d[0]; where = '%s:%d: %s (object %s of %s)' % (x['file'], x['line'], x['spell'], o, b)
                        want = sleef_name(op, t)
                        if len(d) > 1: rep.add(oid, 'bad', where, '%s is defined by several objects: %s' % (sym, ', '.join('%s:%d' % (y['file'], y['line']) for y, _ in d)), group=g); continue
                        tt = x['type'].split(',')
                        ok = {t} if ex == 'scalar' else lanes(e, t)
                        if tt[0].startswith('sve:'): tt = [y.replace('const ', '') for y in tt]; ok = {'sve:__SVFloat%d_t' % (SZ[t] * 8)}
                        if len(tt) != ops.MATH[op] + 1 or any(y not in ok for y in tt):
                            rep.add(oid, 'bad', where, '%s takes and returns %s, not registers of %s lanes of %s' % (sym, x['type'], t, n), group=g)
                        elif x['spell'] == want: rep.add(oid, 'ok', where, '', group=g)
                        else:
                            other = [(tt2, o2) for (tt2, s2), o2 in names.items() if s2 == x['spell']]
                            if other: rep.add(oid, 'bad', where, 'the symbol %s denotes the routine %s (%s, %s) of the math library' % (sym, x['spell'], other[0][1], other[0][0]), group=g)
                            else: rep.add(oid, 'undec', where, '%s is given to %s, which is not a known name' % (sym, x['spell']), group=g)

# ---- emulated routines (sleefsimd*_emulation.c): the scalar routine of the same name on every lane
EMU = {'neon128': ['f64'], 'vmx': ['f32', 'f64'], 'vsx': ['f32', 'f64']}
def emu_cells(e, typs):
    out = []
    for t in typs:
        for op, na in ops.MATH.items():
            sym = 'nsimd_sleef_%s_%s_%s' % (op, e.name, t)
            c = ops.Cell(e, op, t, sym, '*(%s *)o = %s(%s);' % (e.vt(t), sym, ', '.join('*(const %s *)a%d' % (e.vt(t), k) for k in range(na))), [e.vout(t)] + [e.vec(t)] * na, ['base'], e.n(t))
            c.base = 'int i; for (i = 0; i < %d; i++) ((%s *)o)[i] = uf_math_%s__%s(%s);' % (e.n(t), t, op, t, ', '.join('((const %s *)a%d)[i]' % (t, k) for k in range(na)))
            c.id = 'emulated.%s.%s.%s' % (e.name, op, t); c.group = 'emulated-' + e.name
            c.where = 'src/sleefsimd%s_emulation.c: %s' % ('sp' if t == 'f32' else 'dp', sym)
            out.append(c)
    return out

def check_emu(rep, tree, work, pre):
    for n, typs in EMU.items():
        e = EXTS[n]
        objs = {}
        for b, ol in (('nsconfig', L.nsconfig(tree, e)), ('cmake', L.cmake(tree, e, work)[0])):
            for o, src, fl in ol or []:
                if src and src.endswith('_emulation.c'): objs.setdefault((src, tuple(L.clean(fl))), o)
        mods = []
        for i, (src, fl) in enumerate(objs):
            o = os.path.join(work, 'emu_%s_%d.bc' % (n, i))
            rc, out = run.sh([run.CLANG] + run.target_flags(e) + list(fl) + run.COMMON + ['-U__clang__', '-O1', '-w', '-I' + os.path.join(tree, 'include'), '-I' + os.path.join(tree, 'src'), '-emit-llvm', '-c', src, '-o', o])
            if rc: raise st.CheckError('%s does not compile for %s:\n%s' % (src, n, out[:1500]))
            mods.append(o)
        sub = os.path.join(work, 'emu_' + n); os.makedirs(sub, exist_ok=True)
        # the two descriptions build the same sources; each distinct object is analysed on its own
        seen = {}
        for m, (src, fl) in zip(mods, objs):
            t = 'f32' if 'sp_' in os.path.basename(src) else 'f64'
            seen.setdefault(t, []).append(m)
        for t, ms in seen.items():
            for i, m in enumerate(ms):
                cs = emu_cells(e, [t])
                for c in cs: c.id += '.%d' % i if i else ''
                res = run.run_cells(cs, tree, sub, prelude=pre, mods=lambda ext: [m])
                vp.report_cells(rep, tree, sub, cs, res, prelude=pre, mods=lambda ext: [m])

EXPL = ('One obligation per math operator, element type, SIMD extension and API form: the call is abstractly interpreted with the routines of the math library as '
        'uninterpreted lane-wise functions named by their symbol (operator, accuracy, extension, precision), and compared with the routine of the operator\'s own name applied to each lane in order. For every library and both build descriptions, each symbol an operator calls must be defined by one object, on registers of the right lanes, '
        'as the routine the sources of the math library name so (the name as written in the source, before the renaming headers); emulated routines are interpreted down to the scalar ones.')

def check(rep, tree, work):
    pre = ops.math_decls()
    for tag, lang, std, cs in [('v', 'c', None, [c for n in L.ALL for c in vec_cells(EXTS[n])]),
                               ('sc', 'c', None, scalar_cells(EXTS['cpu'], 'c')), ('scx', 'c++', '-std=gnu++11', scalar_cells(EXTS['cpu'], 'c++'))]:
        sub = os.path.join(work, tag); os.makedirs(sub, exist_ok=True)
        kw = dict(lang=lang, std=std, prelude=pre)
        res = run.run_cells(cs, tree, sub, **kw)
        vp.report_cells(rep, tree, sub, cs, res, **kw)
    check_libs(rep, tree, work)
    check_emu(rep, tree, work, pre)
