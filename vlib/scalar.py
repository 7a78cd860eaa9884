# Cells for the scalar API (include/nsimd/scalar_utilities.h) and the half-precision helpers (src/fp16.cpp, nsimd.h).
from .exts import *
from .ops import Cell, VEC_OPS, up_types, down_types, same_size
from . import run, vecprops as vp, stage as st
import os, copy

def L(t): return 'h16' if t == 'f16' else t
W = {t: SZ[t] * 8 for t in TYPES}
def vin(t): return {'k': 'vec', 'n': 1, 'w': W[t]}
def vout(t, fp=False): return {'k': 'out', 'n': 1, 'w': W[t], 'fp': True} if fp else {'k': 'out', 'n': 1, 'w': W[t]}
LOGIN = {'k': 'log', 'n': 1, 'w': 32, 'repr': 'any'}
IOUT = {'k': 'out', 'n': 1, 'w': 32}

def prec_refs(op, lt):
    return ['ref_%s_%s' % (op, lt)]

def cells(ext, lang, variant):
    out = []
    def cell(op, t, args, params, refs, to=None, boolres=False, tag_args='', tags=()):
        cf = 'nsimd_scalar_%s_%s' % (op, (to + '_' + t) if to else t) if op not in ('andl', 'orl', 'xorl', 'andnotl', 'notl') else 'nsimd_scalar_' + op
        rt = 'int' if boolres else (to or t)
        call = cf if lang == 'c' else 'nsimd::scalar_' + op
        a = (list(tags) + args) if lang == 'c++' else args
        src = '*(%s *)o = %s(%s)%s;' % (rt, call, ', '.join(a), ' != 0' if boolres else '')
        c = Cell(ext, 'scalar_' + op, t, cf, src, params, refs, 1, '', ('C13',), to, '.' + variant)
        c.id = 'scalar.%s.%s%s' % (op, t, '.' + to if to else '') + '.' + variant
        c.where = 'egg/scalar.py via include/nsimd/scalar_utilities.h: ' + (cf if lang == 'c' else 'nsimd::scalar_%s(%s)' % (op, t))
        c.group = 'scalar-' + variant
        out.append(c)
    def A(i, t): return '*(const %s *)a%d' % (t, i)
    for op, (na, types) in VEC_OPS.items():
        for t in types:
            if op in ('adds', 'subs', 'add') and False: continue
            lt = L(t)
            r = ['ref_%s_%s' % (op, lt)]
            if lt in ('f32', 'f64'):
                if op in ('fma', 'fms', 'fnma', 'fnms'): r += ['ref_%s2_%s' % (op, lt)] + (['ref_%s3_%s' % (op, lt), 'ref_%s4_%s' % (op, lt)] if op in ('fms', 'fnms') else [])
            if lt == 'h16' and op in ('fma', 'fms', 'fnma', 'fnms'): r = ['ref_%s_h16' % op, 'ref_%s2_h16' % op]
            if lt in ('f32', 'f64', 'h16') and op in ('min', 'max'): r.append('ref_%s2_%s' % (op, lt))
            if op == 'round_to_even' and lt in ('f32', 'f64', 'h16'): r.append('ref_%s2_%s' % (op, lt))
            fp = t in FTYPES and op not in ('andb', 'orb', 'xorb', 'andnotb', 'notb')
            cell(op, t, [A(i, t) for i in range(na)], [vout(t, fp)] + [vin(t)] * na, r)
    for t in ITYPES:
        for op in ('shl', 'shr', 'shra'):
            cell(op, t, [A(0, t), A(1, 'int')], [vout(t), vin(t), {'k': 'int', 'w': 32, 'low': {8: 3, 16: 4, 32: 5, 64: 6}[W[t]]}], ['ref_%s_%s' % (op, t)])
    for op, na in (('andl', 2), ('orl', 2), ('xorl', 2), ('andnotl', 2), ('notl', 1)):
        cell(op, 'i32', [A(i, 'int') for i in range(na)], [IOUT] + [{'k': 'vec', 'n': 1, 'w': 32}] * na, ['ref_s_' + op], boolres=True)
    for t in TYPES:
        lt = L(t)
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            cell(op, t, [A(0, t), A(1, t)], [IOUT, vin(t), vin(t)], ['ref_s_%s_%s' % (op, lt)], boolres=True)
        cell('to_mask', t, [A(0, 'int')], [vout(t), {'k': 'vec', 'n': 1, 'w': 32}], ['ref_s_to_mask_' + lt], tags=[t + '()'])
        cell('to_logical', t, [A(0, t)], [IOUT, vin(t)], ['ref_s_to_logical_' + lt], boolres=True)
        for tt in TYPES:
            same = SZ[tt] == SZ[t]
            if same:
                cell('reinterpret', t, [A(0, t)], [vout(tt), vin(t)], ['ref_copy_' + {1: 'u8', 2: 'u16', 4: 'u32', 8: 'u64'}[SZ[t]]], to=tt, tags=[tt + '()'])
            if same: cell('cvt', t, [A(0, t)], [vout(tt, tt in FTYPES), vin(t)], ['ref_cvt_%s_%s' % (lt, L(tt))], to=tt, tags=[tt + '()'])
    for t in FTYPES:
        lt = L(t)
        for op in ('rec', 'rec8', 'rec11'):
            if op == 'rec': continue
            cell(op, t, [A(0, t)], [vout(t, True), vin(t)], ['ref_rec_' + lt])
        for op in ('rsqrt8', 'rsqrt11'):
            cell(op, t, [A(0, t)], [vout(t, True), vin(t)], ['ref_rsqrt_' + lt])
    return out

VARIANTS = [('c', 'cpu', 'c17', '-std=gnu17'), ('c', 'cpu', 'c89', '-std=gnu89'), ('c', 'cpu', 'c90', '-std=c90'), ('c++', 'cpu', 'cxx98', '-std=gnu++98'), ('c++', 'avx2', 'cxx17', '-std=gnu++17'), ('c', 'avx2', 'c17avx2', '-std=gnu17')]

def check_scalar(rep, tree, work):
    for lang, en, v, std in VARIANTS:
        e = EXTS[en]
        cs = cells(e, lang, v)
        sub = os.path.join(work, v); os.makedirs(sub, exist_ok=True)
        kw = dict(lang=lang, std=std)
        res = run.run_cells(cs, tree, sub, **kw)
        vp.report_cells(rep, tree, sub, cs, res, **kw)
