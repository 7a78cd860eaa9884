# What each C operator is documented to do: parameters, element types, reference function(s), and the property it
# belongs to. This table is independent of egg/operators.py.
from .exts import *

def up_types(t):
    b = {1: ['i16', 'u16', 'f16'], 2: ['i32', 'u32', 'f32'], 4: ['i64', 'u64', 'f64']}
    return b[SZ[t]]
def down_types(t):
    b = {2: ['i8', 'u8'], 4: ['i16', 'u16', 'f16'], 8: ['i32', 'u32', 'f32']}
    return b[SZ[t]]
def same_size(t):
    return [x for x in TYPES if SZ[x] == SZ[t]]

class Cell:
    """one obligation: wrapper source, engine parameters, references"""
    def __init__(s, ext, op, typ, cfun, src, params, refs, n, mode='', props=(), to=None, tag=''):
        s.ext = ext; s.op = op; s.typ = typ; s.cfun = cfun; s.src = src; s.params = params; s.refs = refs; s.n = n
        s.mode = mode; s.props = props; s.props_ = props; s.to = to
        s.id = '%s.%s.%s%s%s' % (ext.key if hasattr(ext, 'key') else ext, op, typ, '.' + to if to else '', tag)
        s.wrap = None

VEC_OPS = {   # op -> (nargs, types, prop)
    'add': (2, TYPES), 'sub': (2, TYPES), 'mul': (2, TYPES), 'div': (2, TYPES), 'min': (2, TYPES), 'max': (2, TYPES),
    'adds': (2, TYPES), 'subs': (2, TYPES), 'neg': (1, TYPES), 'abs': (1, TYPES),
    'fma': (3, TYPES), 'fms': (3, TYPES), 'fnma': (3, TYPES), 'fnms': (3, TYPES),
    'ceil': (1, TYPES), 'floor': (1, TYPES), 'trunc': (1, TYPES), 'round_to_even': (1, TYPES),
    'sqrt': (1, FTYPES), 'rec': (1, FTYPES),
    'andb': (2, TYPES), 'orb': (2, TYPES), 'xorb': (2, TYPES), 'andnotb': (2, TYPES), 'notb': (1, TYPES),
}
# the math operators: name with accuracy suffix -> number of arguments
MATH = {op + '_' + a: n for n, a, l in [
    (1, 'u35', 'sin cos tan asin acos atan log cbrt sinh cosh tanh exp2 exp10 log2'),
    (1, 'u10', 'sin cos tan asin acos atan log cbrt exp sinh cosh tanh asinh acosh atanh exp2 exp10 expm1 log10 log2 log1p lgamma tgamma erf'),
    (1, 'u15', 'erfc'), (1, 'u05', 'sinpi cospi'), (2, 'u35', 'atan2 hypot'), (2, 'u10', 'atan2 pow'), (2, 'u05', 'hypot')] for op in l.split()}
MATH.update(remainder=2, fmod=2)
def math_decls():
    """declarations of the uninterpreted routines the references are written with"""
    d = ''.join('%s uf_math_%s__%s(%s);' % (t, op, t, ', '.join([t] * na)) for op, na in MATH.items() for t in ('f32', 'f64'))
    return '#if NSIMD_CXX > 0\nextern "C" {\n#endif\n%s\n#if NSIMD_CXX > 0\n}\n#endif\n' % d
def prop_of(op, t):
    f = t in FTYPES
    if op in ('andb', 'orb', 'xorb', 'andnotb', 'notb'): return 'C07'
    if op in ('ceil', 'floor', 'trunc', 'round_to_even'): return 'C10'
    if op in ('min', 'max', 'abs', 'neg'): return 'C10' if f else 'C05'
    return 'C09' if f else 'C05'

def alt_refs(op, t, ext):
    """accepted reference functions for a lane operation"""
    lt = ext.lane(t)[1]
    r = ['ref_%s_%s' % (op, lt)]
    if lt in ('i64', 'u64') and op in ('mul', 'fma', 'fms', 'fnma', 'fnms'): r.append('ref_%s2_%s' % (op, lt))
    if lt in ('f32', 'f64'):
        if op in ('fma', 'fms', 'fnma', 'fnms'):
            r.append('ref_%s2_%s' % (op, lt))
            if op in ('fms', 'fnma', 'fnms'): r += ['ref_%s3_%s' % (op, lt), 'ref_%s4_%s' % (op, lt)]
    if lt in ('f32', 'f64', 'h16') and op in ('min', 'max'): r.append('ref_%s2_%s' % (op, lt))
    if lt == 'h16' and ext.family == 'arm' and op in ('fma', 'fms', 'fnma', 'fnms'): r.append('ref_%s_h16' % {'fma': 'fma3', 'fms': 'fms5', 'fnma': 'fnma5', 'fnms': 'fnms5'}[op])
    if op == 'round_to_even' and lt in FTYPES + ['h16']: r.append('ref_%s2_%s' % (op, lt))
    return r

STEP = {'k': 'int', 'w': 32, 'sbits': 24}   # any step whose products with the lane number fit an int
def fpout(p): return dict(p, fp=True)
def A(i, ty): return '*(const %s *)a%d' % (ty, i)

def cells_for(ext):
    """all cells of the C operators of one extension"""
    out = []
    def cell(op, t, src, params, refs, n, mode='', to=None, tag='', prop=(), fn=None):
        cf = fn or 'nsimd_%s_%s_%s' % (op, ext.name, (to + '_' + t) if to else t)
        c = Cell(ext, op, t, cf, src.replace('@', cf), params, refs, n, mode, prop, to, tag)
        out.append(c); return c
    for op in ('rec8', 'rec11', 'rsqrt8', 'rsqrt11'):
        for t in FTYPES:
            lt = ext.lane(t)[1]; w = 's' if lt == 'f32' else 'd'
            k = ['rec', 'rcp14', 'rcp28'] + (['rcp'] if lt == 'f32' else []) if op[:3] == 'rec' else ['rsqrt', 'rsqrt14', 'rsqrt28'] + (['rsqrtx'] if lt == 'f32' else [])
            if ext.family != 'x86': k = k[:1]
            if ext.family == 'arm' and op.endswith('8'): k.append('arm_frecpe' if op == 'rec8' else 'arm_frsqrte')
            if ext.family == 'ppc': k.append('ppc_re' if op[:3] == 'rec' else 'ppc_rsqrte')
            if lt == 'h16' and ext.family == 'x86': k = k[:1]
            cell(op, t, '*(%s *)o = @(%s);' % (ext.vt(t), A(0, ext.vt(t))), [fpout(ext.vout(t)), ext.vec(t)], ['ref_%s_%s' % (x, lt) for x in k], ext.n(t), prop=('C26',))
    for op, (na, types) in VEC_OPS.items():
        for t in types:
            if ext.f16 == 'n' and t == 'f16' and op in ('fma', 'fms', 'fnma', 'fnms'): pass
            n = ext.n(t)
            args = ', '.join(A(i, ext.vt(t)) for i in range(na))
            cell(op, t, '*(%s *)o = @(%s);' % (ext.vt(t), args), [fpout(ext.vout(t)) if t in FTYPES and prop_of(op, t) in ('C09', 'C10') else ext.vout(t)] + [ext.vec(t)] * na, alt_refs(op, t, ext), n, prop=(prop_of(op, t),))
    for op, na in MATH.items():
        for t in FTYPES:
            cell(op, t, '*(%s *)o = @(%s);' % (ext.vt(t), ', '.join(A(i, ext.vt(t)) for i in range(na))), [ext.vout(t)] + [ext.vec(t)] * na, [], ext.n(t), prop=('C19',))
    for t in ITYPES:
        n = ext.n(t); w = SZ[t] * 8
        for op in ('shl', 'shr', 'shra'):
            cell(op, t, '*(%s *)o = @(%s, %s);' % (ext.vt(t), A(0, ext.vt(t)), A(1, 'int')),
                 [ext.vout(t), ext.vec(t), {'k': 'int', 'w': 32, 'low': {8: 3, 16: 4, 32: 5, 64: 6}[w]}], ['ref_%s_%s' % (op, t)], n, prop=('C06',))
    for t in TYPES:
        n = ext.n(t); w, lt = ext.lane(t); S = ext.S(t); sz = SZ[t]
        V, LG = ext.vt(t), ext.lt(t)
        lo, li = ext.logp(t, 'outlog'), ext.logp(t, 'log')
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            cell(op, t, '*(%s *)o = @(%s, %s);' % (LG, A(0, V), A(1, V)), [lo, ext.vec(t), ext.vec(t)], ['ref_%s_%s' % (op, lt)], n, prop=('C08',))
        for op, na in (('andl', 2), ('orl', 2), ('xorl', 2), ('andnotl', 2), ('notl', 1)):
            cell(op, t, '*(%s *)o = @(%s);' % (LG, ', '.join(A(i, LG) for i in range(na))), [lo] + [li] * na, ['ref_' + op], n, prop=('C08',))
        for op in ('all', 'any', 'nbtrue'):
            cell(op, t, '*(int *)o = @(%s)%s;' % (A(0, LG), '' if op == 'nbtrue' else ' != 0'), [{'k': 'out', 'n': 1, 'w': 32}, li], ['ref_' + op], n, prop=('C08',))
        cell('if_else1', t, '*(%s *)o = @(%s, %s, %s);' % (V, A(0, LG), A(1, V), A(2, V)), [ext.vout(t), li, ext.vec(t), ext.vec(t)], ['ref_if_else1_' + lt], n, prop=('C08',))
        cell('to_mask', t, '*(%s *)o = @(%s);' % (V, A(0, LG)), [ext.vout(t), li], ['ref_to_mask_' + lt], n, prop=('C08',))
        cell('to_logical', t, '*(%s *)o = @(%s);' % (LG, A(0, V)), [lo, ext.vec(t)], ['ref_to_logical_' + lt] + (['ref_to_logical_f16e'] if ext.f16 == 'e' and t == 'f16' else []), n, prop=('C08',))
        # constructors and shuffles
        cell('set1', t, '*(%s *)o = @(%s);' % (V, A(0, t)), [ext.vout(t), {'k': 'vec', 'n': 1, 'w': sz * 8}], ['ref_set1_' + (S if t == 'f16' else t)], n, prop=('C04',))
        cell('set1l', t, '*(%s *)o = @(%s);' % (LG, A(0, 'int')), [lo, {'k': 'int', 'w': 32, 'low': 32}], ['ref_set1l'], n, prop=('C04',))
        cell('iota', t, '*(%s *)o = @();' % V, [ext.vout(t)], ['ref_iota_' + lt], n, prop=('C04',))
        cell('len', t, '*(int *)o = @();', [{'k': 'out', 'n': 1, 'w': 32}], ['ref_len'], n, prop=('C04',))
        for op in ('zip', 'unzip'):
            cell(op, t, '*(%sx2 *)o = @(%s, %s);' % (V, A(0, V), A(1, V)), [ext.vout(t, 2), ext.vec(t), ext.vec(t)], ['ref_%s_%s' % (op, lt)], n, prop=('C04',))
        for op in ('ziplo', 'ziphi', 'unziplo', 'unziphi'):
            cell(op, t, '*(%s *)o = @(%s, %s);' % (V, A(0, V), A(1, V)), [ext.vout(t), ext.vec(t), ext.vec(t)], ['ref_%s_%s' % (op, lt)], n, prop=('C04',))
        first = True
        for i in (0, 3, 1000000, 16777217, 2147483000):
            for d in list(range(-1, n + 2)) + [x for x in (127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537) if x > n + 1 and i + x < 2 ** 31]:
                c = cell('mask_for_loop_tail', t, '*(%s *)o = @(%s, %s);' % (LG, A(0, 'int'), A(1, 'int')), [lo, {'k': 'int', 'v': i}, {'k': 'int', 'v': i + d}], ['ref_mask_for_loop_tail'], n, prop=('C04',), tag='.%d.%d' % (i, i + d))
                if first: head = c
                else: c.wrap = head
                first = False
        # sum of lanes
        if t in FTYPES:
            cell('addv', t, '*(%s *)o = @(%s);' % (t, A(0, V)), [{'k': 'out', 'n': 1, 'w': sz * 8}, ext.vec(t)], [], n, mode='sum', prop=('C09',))
        # memory
        vb = ext.bits // 8
        def ptr(d, aligned): return {'k': 'ptr', 'elem': sz, 'align': vb if aligned else sz, 'd': d}
        M = ('C01', 'C02', 'C03')
        for al in 'ua':
            a = al == 'a'
            cell('load' + al, t, '*(%s *)o = @((const %s *)a0);' % (V, t), [ext.vout(t), ptr(1, a)], ['ref_load_' + S], n, prop=M)
            cell('store' + al, t, '@((%s *)a0, %s);' % (t, A(1, V)), [ptr(1, a), ext.vec(t)], ['ref_store_' + S], n, prop=M)
            for d in (2, 3, 4):
                cell('load%d%s' % (d, al), t, '*(%sx%d *)o = @((const %s *)a0);' % (V, d, t), [ext.vout(t, d), ptr(d, a)], ['ref_load%d_%s' % (d, S)], n, prop=M)
                cell('store%d%s' % (d, al), t, '@((%s *)a0, %s);' % (t, ', '.join(A(1 + i, V) for i in range(d))), [ptr(d, a)] + [ext.vec(t)] * d, ['ref_store%d_%s' % (d, S)], n, prop=M)
            cell('masko_load%s1' % al, t, '*(%s *)o = @(%s, (const %s *)a1, %s);' % (V, A(0, LG), t, A(2, V)), [ext.vout(t), li, ptr(1, a), ext.vec(t)], ['ref_masko_load_' + S], n, prop=M)
            cell('maskz_load%s1' % al, t, '*(%s *)o = @(%s, (const %s *)a1);' % (V, A(0, LG), t), [ext.vout(t), li, ptr(1, a)], ['ref_maskz_load_' + S], n, prop=M)
            cell('mask_store%s1' % al, t, '@(%s, (%s *)a1, %s);' % (A(0, LG), t, A(2, V)), [li, ptr(1, a), ext.vec(t)], ['ref_mask_store_' + S], n, prop=M)
            cell('loadl' + al, t, '*(%s *)o = @((const %s *)a0);' % (LG, t), [lo, ptr(1, a)], ['ref_loadl_' + S], n, prop=M)
            cell('storel' + al, t, '@((%s *)a0, %s);' % (t, A(1, LG)), [ptr(1, a), li], ['ref_storel_' + S], n, prop=M)
        it = 'i%d' % (sz * 8)
        if sz > 1:
            cell('gather', t, '*(%s *)o = @((const %s *)a0, %s);' % (V, t, A(1, ext.vt(it))), [ext.vout(t), ptr(1, False), ext.vec(it)], ['ref_gather_' + S], n, prop=M)
            cell('scatter', t, '@((%s *)a0, %s, %s);' % (t, A(1, ext.vt(it)), A(2, V)), [ptr(1, False), ext.vec(it), ext.vec(t)], ['ref_scatter_' + S], n, prop=M)
        cell('gather_linear', t, '*(%s *)o = @((const %s *)a0, %s);' % (V, t, A(1, 'int')), [ext.vout(t), ptr(1, False), STEP], ['ref_gather_linear_' + S], n, prop=M)
        cell('scatter_linear', t, '@((%s *)a0, %s, %s);' % (t, A(1, 'int'), A(2, V)), [ptr(1, False), STEP, ext.vec(t)], ['ref_scatter_linear_' + S], n, prop=M)
        # conversions
        for tt in same_size(t):
            wt, ltt = ext.lane(tt)
            refs = ['ref_cvt_%s_%s' % (lt, ltt)]
            if tt == 'f16' and ext.f16 == 'e' and t != 'f16': refs.append('ref_cvt_%s_f16e' % lt)
            cell('cvt', t, '*(%s *)o = @(%s);' % (ext.vt(tt), A(0, V)), [(fpout if tt in FTYPES else dict)(ext.vout(tt)), ext.vec(t)], refs, n, to=tt, prop=('C11',))
            if 'f16' not in (t, tt) or ext.f16 == 'n':
                cell('reinterpret', t, '*(%s *)o = @(%s);' % (ext.vt(tt), A(0, V)), [ext.vout(tt), ext.vec(t)], ['ref_copy_' + {'i8': 'u8', 'i16': 'u16', 'f16': 'u16', 'h16': 'u16', 'i32': 'u32', 'f32': 'u32', 'i64': 'u64', 'f64': 'u64'}.get(lt, lt)], n, to=tt, prop=('C04',))
            else:
                if t == 'f16' and tt == 'f16': r = 'ref_copy_f32'
                elif t == 'f16': r = 'ref_reint_from_f16e'
                else: r = 'ref_reint_to_f16e'
                cell('reinterpret', t, '*(%s *)o = @(%s);' % (ext.vt(tt), A(0, V)), [ext.vout(tt), ext.vec(t)], [r], n, to=tt, prop=('C04',))
            cell('reinterpretl', t, '*(%s *)o = @(%s);' % (ext.lt(tt), A(0, LG)), [ext.logp(tt, 'outlog'), li], ['ref_copyl'], n, to=tt, prop=('C04',))
        if sz < 8:
            for tt in up_types(t):
                refs = ['ref_upcvt_%s_%s' % (lt, ext.lane(tt)[1])]
                if tt == 'f16' and ext.f16 == 'e': refs.append('ref_upcvt_%s_f16e' % lt)
                cell('upcvt', t, '*(%sx2 *)o = @(%s);' % (ext.vt(tt), A(0, V)), [(fpout if tt in FTYPES else dict)(ext.vout(tt, 2)), ext.vec(t)], refs, n, to=tt, prop=('C11',))
        if sz > 1:
            for tt in down_types(t):
                refs = ['ref_downcvt_%s_%s' % (lt, ext.lane(tt)[1])]
                if tt == 'f16' and ext.f16 == 'e': refs.append('ref_downcvt_%s_f16e' % lt)
                cell('downcvt', t, '*(%s *)o = @(%s, %s);' % (ext.vt(tt), A(0, V), A(1, V)), [(fpout if tt in FTYPES else dict)(ext.vout(tt)), ext.vec(t), ext.vec(t)], refs, n, to=tt, prop=('C11',))
    return out

def bases(c):
    """texts of the wrappers the cell is compared with (any one of them may be matched)"""
    b = getattr(c, 'base', None)
    return [] if not b else [b] if isinstance(b, str) else b
def wrapper(c, k):
    """C text of the wrapper of cell number k (and of the wrapper it is compared with, when it has one)"""
    ps = []; ai = 0
    for i, p in enumerate(c.params):
        if i == 0 and p['k'] in ('out', 'outlog'): ps.append('void *o')
        else: ps.append('const void *a%d' % ai); ai += 1
    w = 'void cell_%d(%s) { %s }' % (k, ', '.join(ps), c.src)
    for j, b in enumerate(bases(c)): w += ' void refcell_%d_%d(%s) { %s }' % (k, j, ', '.join(ps), b)
    return w + '\n'
