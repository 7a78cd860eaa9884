# C20: fixed-point numbers. The specification of every operation is written on the raw integers; operands of products and
# quotients are given as many bits as keep the result representable (beyond that the documentation promises nothing).
import os
from .exts import *
from .ops import Cell
from . import run, vecprops as vp, layers

PRE = '''#include <nsimd/nsimd.h>
#include <nsimd/modules/fixed_point.hpp>
#include <nsimd/modules/fixed_point/function/ceil.hpp>
#include <nsimd/modules/fixed_point/function/is_int.hpp>
#include <nsimd/modules/fixed_point/function/abs.hpp>
namespace fpx = nsimd::fixed_point;
template <typename F> static inline F mk(typename F::value_type r) { F f; f._raw = r; return f; }
template <typename V> static inline V mv(typename V::value_type r) { V f; f._raw = r; return f; }
template <typename V> static inline V ml(typename V::logic r) { V f; f._raw = r; return f; }
'''
def storage(lf, rt):
    b = lf + 2 * rt
    return 8 if b <= 8 else 16 if b <= 16 else 32 if b <= 32 else 64

FORMATS = [(4, 1), (3, 2), (8, 4), (10, 3), (8, 8), (16, 7), (16, 20), (33, 15)]
MORE = [(1, 3), (16, 8), (4, 6), (20, 5), (2, 10), (8, 28), (40, 4), (4, 8)]

class S:
    def __init__(s, ext, lf, rt, tag):
        s.ext, s.lf, s.rt, s.tag = ext, lf, rt, tag; s.w = storage(lf, rt); s.raw = 'i%d' % s.w; s.pos = 'u%d' % s.w
        s.F = 'fpx::fp_t<%d, %d>' % (lf, rt); s.out = []
    def cell(s, op, src, params, refs, where, n=1, tag=''):
        c = Cell(s.ext, op, s.raw, op, src, params, [], n, 'base')
        c.id = 'fixed.%s.%s.fp_%d_%d%s' % (s.tag, op, s.lf, s.rt, tag)
        c.group = 'fixed-' + s.tag; c.where = 'include/nsimd/modules/fixed_point' + where; c.base = refs if isinstance(refs, list) else [refs]; c.extra = {'half': False}
        s.out.append(c)

def scalar_cells(ext, lf, rt, tag):
    s = S(ext, lf, rt, tag); w, raw, pos, F = s.w, s.raw, s.pos, s.F
    O = {'k': 'out', 'n': 1, 'w': w}; I = {'k': 'vec', 'n': 1, 'w': w}; OI = {'k': 'out', 'n': 1, 'w': 32}; FL = {'k': 'vec', 'n': 1, 'w': 32}
    A = '*(const %s *)a0' % raw; B = '*(const %s *)a1' % raw
    X = 'mk<%s >(%s)' % (F, A); Y = 'mk<%s >(%s)' % (F, B)
    P = lambda e: '(%s)(%s)' % (pos, e)
    put = '*(%s *)o = ' % raw
    one = '(float)(1ull << %d)' % rt
    conv = lambda e: '(%s)roundf((%s) * %s)' % (raw, e, one)
    clip = lambda v, bits: '(%s)(%s << %d) >> %d' % (raw, v, w - bits, w - bits) if bits < w else v
    fw = '/function/%s.hpp'
    def narrow(na, nb): return 'const %s x = (%s)((%s)((%s)(%s) << %d)) >> %d, y = (%s)((%s)((%s)(%s) << %d)) >> %d; ' % (raw, raw, raw, pos, A, w - na, w - na, raw, raw, pos, B, w - nb, w - nb)
    for op, sg in (('add', '+'), ('sub', '-')):
        r = put + '(%s)(%s %s %s);' % (raw, P(A), sg, P(B))
        s.cell(op, put + 'fpx::%s(%s, %s)._raw;' % (op, X, Y), [O, I, I], r, fw % op)
        s.cell('operator' + sg, put + '(%s %s %s)._raw;' % (X, sg, Y), [O, I, I], r, fw % op)
        s.cell('operator%s=' % sg, '%s t = %s; t %s= %s; ' % (F, X, sg, Y) + put + 't._raw;', [O, I, I], r, '/fixed.hpp')
        fl = '*(const float *)a1'
        for f in ('fpx::%s(%s, %s)' % (op, X, fl), '(%s %s %s)' % (X, sg, fl)):
            s.cell(('fn' if 'fpx::' + op in f else 'operator') + op + '_float', put + f + '._raw;', [O, I, FL], put + '(%s)(%s %s %s);' % (raw, P(A), sg, P(conv(fl))), fw % op)
        for f in ('fpx::%s(%s, %s)' % (op, fl, X), '(%s %s %s)' % (fl, sg, X)):
            s.cell('float_' + ('fn' if 'fpx::' + op in f else 'operator') + op, put + f + '._raw;', [O, I, FL], put + '(%s)(%s %s %s);' % (raw, P(conv(fl)), sg, P(A)), fw % op)
    # products of lf/2 integer bits each, and of any number with one below 1
    k = lf // 2 + rt
    for tg, na, nb in (('half', k, k), ('small', lf + rt, rt)):
        if nb < 1: continue
        pre = narrow(na, nb); U = 'mk<%s >(x)' % F; V = 'mk<%s >(y)' % F
        for op, f in (('mul', 'fpx::mul(%s, %s)' % (U, V)), ('operator*', '(%s * %s)' % (U, V)), ('operator*=', None)):
            if f: src = put + f + '._raw;'
            else: src = '%s t = %s; t *= %s; ' % (F, U, V) + put + 't._raw;'
            s.cell(op, pre + src, [O, I, I], pre + put + '(%s)((%s)((%s)x * (%s)y)) >> %d;' % (raw, raw, pos, pos, rt) if w == 64 else pre + put + '(%s)((%s)((%s)x * (%s)y) >> %d);' % (raw, raw, raw, raw, rt), fw % 'mul', tag='.' + tg)
    pre = narrow(lf + rt, lf + rt) + 'if (y == 0) { ' + put + '0; return; } '; U = 'mk<%s >(x)' % F; V = 'mk<%s >(y)' % F
    for op, f in (('div', 'fpx::div(%s, %s)' % (U, V)), ('operator/', '(%s / %s)' % (U, V)), ('operator/=', None)):
        src = put + f + '._raw;' if f else '%s t = %s; t /= %s; ' % (F, U, V) + put + 't._raw;'
        s.cell(op, pre + src, [O, I, I], pre + put + '(%s)((%s)((%s)x << %d) / y);' % (raw, raw, pos, rt), fw % 'div')
    for fn, op in (('lt', '<'), ('lte', '<='), ('gt', '>'), ('gte', '>='), (None, '=='), (None, '!=')):
        wh = fw % {'<': 'less', '>': 'greater', '=': 'eq', '!': 'neq'}[op[0]]
        r = '*(int *)o = (%s) %s (%s);' % (A, op, B)
        if fn: s.cell(fn, '*(int *)o = fpx::%s(%s, %s);' % (fn, X, Y), [OI, I, I], r, wh)
        s.cell('operator' + op, '*(int *)o = %s %s %s;' % (X, op, Y), [OI, I, I], r, wh)
        if fn:
            fl = '*(const float *)a1'
            s.cell('operator%s_float' % op, '*(int *)o = %s %s %s;' % (X, op, fl), [OI, I, FL], '*(int *)o = (%s) %s (%s);' % (A, op, conv(fl)), wh)
            s.cell('float_operator' + op, '*(int *)o = %s %s %s;' % (fl, op, X), [OI, I, FL], '*(int *)o = (%s) %s (%s);' % (conv(fl), op, A), wh)
    pre = narrow(w - 1, w - 1); U = 'mk<%s >(x)' % F; V = 'mk<%s >(y)' % F
    s.cell('equal_ulp', pre + '*(int *)o = fpx::equal_ulp(%s, %s, 3);' % (U, V), [OI, I, I], pre + '*(int *)o = x - y <= 3 && x - y >= -3;', fw % 'eq_ulp')
    s.cell('neg', put + 'fpx::neg(%s)._raw;' % X, [O, I], put + '(%s)-%s;' % (raw, P(A)), fw % 'neg')
    s.cell('operator-(unary)', put + '(-%s)._raw;' % X, [O, I], put + '(%s)-%s;' % (raw, P(A)), fw % 'neg')
    s.cell('operator~', put + '(~%s)._raw;' % X, [O, I], put + '(%s)~%s;' % (raw, P(A)), fw % 'bitwise_not')
    for op, nm in (('&', 'and'), ('|', 'or'), ('^', 'xor')):
        s.cell('operator' + op, put + '(%s %s %s)._raw;' % (X, op, B), [O, I, I], put + '(%s)(%s %s %s);' % (raw, P(A), op, P(B)), fw % ('bitwise_' + nm))
    s.cell('bitwise_nor', put + 'fpx::bitwise_nor(%s, %s)._raw;' % (X, B), [O, I, I], put + '(%s)~(%s | %s);' % (raw, P(A), P(B)), fw % 'bitwise_nor')
    for b in sorted({0, 1, rt, w - 1}):
        s.cell('operator>>', put + '(%s >> %d)._raw;' % (X, b), [O, I], put + '(%s)((%s) >> %d);' % (raw, A, b), fw % 'shift', tag='.%d' % b)
        s.cell('operator<<', put + '(%s << %d)._raw;' % (X, b), [O, I], put + '(%s)(%s << %d);' % (raw, P(A), b), fw % 'shift', tag='.%d' % b)
    s.cell('floor', put + 'fpx::floor(%s)._raw;' % X, [O, I], put + '(%s)(%s >> %d << %d);' % (raw, P(A), rt, rt), fw % 'floor')
    N = lf + rt - 1
    pre = narrow(N, N); U = 'mk<%s >(x)' % F
    if lf > 1: s.cell('ceil', pre + put + 'fpx::ceil(%s)._raw;' % U, [O, I, I], pre + put + '(%s)((%s)(x >> %d << %d) == x ? x : (x >> %d << %d) + ((%s)1 << %d));' % (raw, raw, rt, rt, rt, rt, raw, rt), fw % 'ceil')
    s.cell('is_int', '*(int *)o = fpx::is_int(%s);' % X, [OI, I], '*(int *)o = (%s & (((%s)1 << %d) - 1)) == 0;' % (P(A), pos, rt), fw % 'is_int')
    if lf > 1: s.cell('abs', pre + put + 'fpx::abs(%s)._raw;' % U, [O, I, I], pre + put + '(%s)(x < 0 ? -x : x);' % raw, fw % 'abs')
    s.cell('from_float', put + '%s(*(const float *)a0)._raw;' % F, [O, FL], put + conv('*(const float *)a0') + ';', '/fixed.hpp: float2int')
    s.cell('to_float', '*(float *)o = (float)%s;' % X, [OI, I], ['*(float *)o = (float)(%s) / %s;' % (A, one), '*(float *)o = (float)(%s) * (1.0f / %s);' % (A, one)], '/fixed.hpp: int2float')
    return s.out

def simd_cells(ext, lf, rt, tag):
    s = S(ext, lf, rt, tag); w, raw, pos, F = s.w, s.raw, s.pos, s.F; e = ext.name; n = ext.n(raw)
    V = 'nsimd_%s_v%s' % (e, raw); L = 'nsimd_%s_vl%s' % (e, raw)
    FV = 'fpx::fpsimd_t<%d, %d>' % (lf, rt); FLg = 'fpx::fpsimdl_t<%d, %d>' % (lf, rt)
    O, I, IL = ext.vout(raw), ext.vec(raw), ext.logp(raw, 'log'); OL = ext.logp(raw, 'outlog')
    x = lambda k: 'mv<%s >(*(const %s *)a%d)' % (FV, V, k)
    l = lambda k: 'ml<%s >(*(const %s *)a%d)' % (FLg, L, k)
    P = lambda k: 'fpx::pack<%s >' % F
    put = '*(%s *)o = ' % V; putl = '*(%s *)o = ' % L
    a = lambda i, k: '((const %s *)a%d)[%d]' % (raw, i, k)
    lanes = lambda f: ' '.join('((%s *)o)[%d] = %s;' % (raw, k, f(k)) for k in range(n))
    vo = lambda op, *args: 'nsimd_%s_%s_%s(%s)' % (op, e, raw, ', '.join(args))
    va = lambda k: '*(const %s *)a%d' % (V, k); la = lambda k: '*(const %s *)a%d' % (L, k)
    fs = '/function/simd/%s.hpp'
    pk = lambda v: '(pk.val = %s, pk)' % v
    PK = 'struct H { static fpx::pack<%s > p(%s v) { fpx::pack<%s > r; r.val._raw = v; return r; } static fpx::packl<%s > l(%s v) { fpx::packl<%s > r; r.val._raw = v; return r; } }; ' % (F, V, F, F, L, F)
    def both(op, kinds, spec, res='v', infix=None):
        """the simd_ function, the pack function and the operator on packs"""
        args = [x(i) if k == 'v' else l(i) for i, k in enumerate(kinds)]
        pargs = ['H::p(%s)' % va(i) if k == 'v' else 'H::l(%s)' % la(i) for i, k in enumerate(kinds)]
        ps = [O if res == 'v' else OL] + [I if k == 'v' else IL for k in kinds]
        d = put if res == 'v' else putl
        s.cell('simd_' + op, d + 'fpx::simd_%s(%s)._raw;' % (op, ', '.join(args)), ps, spec, fs % op, n, '.' + e)
        s.cell('pack.' + op, PK + d + 'fpx::%s(%s).val._raw;' % (op, ', '.join(pargs)), ps, spec, '.hpp: ' + op, n, '.' + e)
        if infix:
            s.cell('pack.operator' + infix, PK + d + '(%s %s %s).val._raw;' % (pargs[0], infix, pargs[1]), ps, spec, '.hpp: operator' + infix, n, '.' + e)
            if infix in '+-*/': s.cell('simd.operator' + infix, d + '(%s %s %s)._raw;' % (args[0], infix, args[1]), ps, spec, fs % op, n, '.' + e)
    for op, ix in (('add', '+'), ('sub', '-')): both(op, 'vv', lanes(lambda k: '(%s)((%s)%s %s (%s)%s)' % (raw, pos, a(0, k), ix, pos, a(1, k))), infix=ix)
    # products and quotients: the low word of the product (the first factor shifted, for a quotient), rescaled
    both('mul', 'vv', put + vo('shra', vo('mul', va(0), va(1)), str(rt)) + ';', infix='*')
    both('div', 'vv', put + vo('div', vo('shl', va(0), str(rt)), va(1)) + ';', infix='/')
    both('fma', 'vvv', put + vo('add', vo('shra', vo('mul', va(0), va(1)), str(rt)), va(2)) + ';')
    both('rec', 'v', put + vo('div', 'nsimd_set1_%s_%s((%s)((%s)1 << %d))' % (e, raw, raw, pos, 2 * rt), va(0)) + ';')
    both('min', 'vv', lanes(lambda k: '%s < %s ? %s : %s' % (a(0, k), a(1, k), a(0, k), a(1, k))))
    both('max', 'vv', lanes(lambda k: '%s > %s ? %s : %s' % (a(0, k), a(1, k), a(0, k), a(1, k))))
    both('abs', 'v', lanes(lambda k: '(%s)(%s < 0 ? -(%s)%s : (%s)%s)' % (raw, a(0, k), pos, a(0, k), pos, a(0, k))))
    for op, ix in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')): both(op, 'vv', putl + vo(op, va(0), va(1)) + ';', 'l', ix)
    for op in ('andb', 'orb', 'xorb', 'andnotb'): both(op, 'vv', put + vo(op, va(0), va(1)) + ';')
    both('notb', 'v', put + vo('notb', va(0)) + ';')
    for op in ('andl', 'orl', 'xorl', 'andnotl'): both(op, 'll', putl + vo(op, la(0), la(1)) + ';', 'l')
    both('notl', 'l', putl + vo('notl', la(0)) + ';', 'l')
    both('if_else1', 'lvv', put + vo('if_else1', la(0), va(1), va(2)) + ';')
    S1 = {'k': 'vec', 'n': 1, 'w': w}
    s.cell('simd_set1', put + 'fpx::simd_set1(mk<%s >(*(const %s *)a0))._raw;' % (F, raw), [O, S1], lanes(lambda k: a(0, 0)), fs % 'set1', n, '.' + e)
    s.cell('pack.set1', put + 'fpx::set1<fpx::pack<%s > >(mk<%s >(*(const %s *)a0)).val._raw;' % (F, F, raw), [O, S1], lanes(lambda k: a(0, 0)), '.hpp: set1', n, '.' + e)
    s.cell('fpsimd_t(fp_t)', put + '%s(mk<%s >(*(const %s *)a0))._raw;' % (FV, F, raw), [O, S1], lanes(lambda k: a(0, 0)), '/simd.hpp', n, '.' + e)
    sz = w // 8
    for al in 'ua':
        M = {'k': 'ptr', 'elem': sz, 'align': sz if al == 'u' else n * sz, 'd': 1}
        ld, sto = 'nsimd_load%s_%s_%s' % (al, e, raw), 'nsimd_store%s_%s_%s' % (al, e, raw)
        s.cell('simd_load' + al, put + 'fpx::simd_load%s((%s *)a0)._raw;' % (al, F), [O, M], put + '%s((const %s *)a0);' % (ld, raw), fs % ('load' + al), n, '.' + e)
        s.cell('pack.load' + al, put + 'fpx::load%s<fpx::pack<%s > >((%s *)a0).val._raw;' % (al, F, F), [O, M], put + '%s((const %s *)a0);' % (ld, raw), '.hpp: load' + al, n, '.' + e)
        s.cell('simd_store' + al, '%s v = mv<%s >(*(const %s *)a1); fpx::simd_store%s((%s *)a0, v);' % (FV, FV, V, al, F), [M, I], '%s((%s *)a0, *(const %s *)a1);' % (sto, raw, V), fs % ('store' + al), n, '.' + e)
        s.cell('pack.store' + al, PK + 'fpx::store%s((%s *)a0, H::p(*(const %s *)a1));' % (al, F, V), [M, I], '%s((%s *)a0, *(const %s *)a1);' % (sto, raw, V), '.hpp: store' + al, n, '.' + e)
        ld, sto = 'nsimd_loadl%s_%s_%s' % (al, e, raw), 'nsimd_storel%s_%s_%s' % (al, e, raw)
        s.cell('simd_loadl' + al, putl + 'fpx::simd_loadl%s<%d, %d>((%s *)a0)._raw;' % (al, lf, rt, raw), [OL, M], putl + '%s((const %s *)a0);' % (ld, raw), fs % ('loadl' + al), n, '.' + e)
        s.cell('pack.loadl' + al, putl + 'fpx::loadl%s<fpx::packl<%s > >((%s *)a0).val._raw;' % (al, F, raw), [OL, M], putl + '%s((const %s *)a0);' % (ld, raw), '.hpp: loadl' + al, n, '.' + e)
        s.cell('simd_storel' + al, '%s v = ml<%s >(*(const %s *)a1); fpx::simd_storel%s<%d, %d>((%s *)a0, v);' % (FLg, FLg, L, al, lf, rt, raw), [M, IL], '%s((%s *)a0, *(const %s *)a1);' % (sto, raw, L), fs % ('storel' + al), n, '.' + e)
        s.cell('pack.storel' + al, PK + 'fpx::storel%s((%s *)a0, H::l(*(const %s *)a1));' % (al, raw, L), [M, IL], '%s((%s *)a0, *(const %s *)a1);' % (sto, raw, L), '.hpp: storel' + al, n, '.' + e)
    s.cell('len', '*(int *)o = fpx::len(%s());' % ('fpx::pack<%s >' % F), [{'k': 'out', 'n': 1, 'w': 32}], '*(int *)o = %d;' % n, '.hpp: len', n, '.' + e)
    return s.out

EXPL = ('One obligation per fixed-point operation, operand form, format fp_t<lf, rt> and SIMD extension: the operation and its specification on the raw integers '
        '(scalar expressions, or the C operators of the extension whose meaning is the subject of C01-C08) are compiled in one translation unit and abstractly '
        'interpreted over unknown raw values; operands of products and quotients are restricted to the bits that keep the result representable.')

def check(rep, tree, work):
    fm = FORMATS + (MORE if rep.tier != 'quick' else [])
    jobs = []
    for en, std, tag in (('cpu', '-std=gnu++98', 'cxx98'), ('avx2', '-std=gnu++14', 'cxx14')):
        cs = []
        for lf, rt in fm: cs += scalar_cells(EXTS[en], lf, rt, tag)
        cs += [c for c in scalar_cells(EXTS[en], 1, 31, tag) if 'float' in c.op]
        jobs.append((tag, cs, dict(lang='c++', std=std, prelude=PRE, chunk=120)))
    cs = []
    for n in pick(rep, NATIVE + ['aarch64', 'vsx']):
        for lf, rt in (fm[::2] if rep.tier == 'quick' else fm): cs += simd_cells(EXTS[n], lf, rt, 'simd')
    jobs.append(('simd', cs, dict(lang='c++', std='-std=gnu++11', prelude=PRE, chunk=100)))
    layers.go(rep, tree, work, jobs)
