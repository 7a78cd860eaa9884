# C17: tet1d expression templates. A cell is an assignment as a user writes it, for a constant number of elements; the
# destination and the inputs are pointers to symbolic memory. Its references are the scalar program (the scalar operator at
# every index) and the same with the vector operator on the windows the body of the kernel covers: each byte of the
# destination must be that of one of them, and no byte outside the n elements may be touched.
from .exts import *
from .ops import Cell, up_types
from . import run, vecprops as vp, layers

PRE = '#include <nsimd/nsimd.h>\n#include <nsimd/modules/tet1d.hpp>\n'
ARITH = {'add': 2, 'sub': 2, 'mul': 2, 'div': 2, 'min': 2, 'max': 2, 'adds': 2, 'subs': 2, 'neg': 1, 'abs': 1, 'fma': 3, 'fms': 3, 'fnma': 3, 'fnms': 3,
         'ceil': 1, 'floor': 1, 'trunc': 1, 'round_to_even': 1, 'andb': 2, 'orb': 2, 'xorb': 2, 'andnotb': 2, 'notb': 1}
FLT = {'sqrt': 1, 'rec': 1, 'rec8': 1, 'rec11': 1, 'rsqrt8': 1, 'rsqrt11': 1}
CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
INFIX = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'andb': '&', 'orb': '|', 'xorb': '^'}
LOGI = {'andl': ('&&', 2), 'orl': ('||', 2), 'xorl': (None, 2), 'andnotl': (None, 2), 'notl': ('!', 1)}

class T:
    """cells of one extension, element type, unroll"""
    def __init__(s, ext, t, N):
        s.ext, s.t, s.N = ext, t, N; s.L = ext.n(t) * N; s.out = []
        s.P = 'nsimd::pack<%s, %d, nsimd::%s>' % (t, N, ext.name)
    def cell(s, op, tag, n, kinds, expr, sc, ve=None, mask=None, smask=None, vmask=None, dt=None, sizes=None, off=None):
        """kinds: per parameter after dst 'p' (pointer) or 's' (scalar of the element type) or 'c<bits>' (int with that many low bits).
        expr: right-hand side; sc(k): C++ scalar value of element k; ve(k): C vector expression for the window at k.
        mask / smask / vmask: the same for a masked output"""
        ext, t = s.ext, dt or s.t
        sz = SZ[t]; szs = sizes or [SZ[s.t]] * len(kinds)
        L = s.ext.n(t) * s.N
        P = 'nsimd::pack<%s, %d, nsimd::%s>' % (t, s.N, ext.name)
        params = [{'k': 'ptr', 'elem': sz, 'align': sz, 'd': 1}]
        for k, z in zip(kinds, szs):
            params.append({'k': 'ptr', 'elem': z, 'align': z, 'd': 1} if k == 'p' else {'k': 'vec', 'n': 1, 'w': z * 8} if k == 's' else {'k': 'int', 'w': 32, 'low': int(k[1:])})
        left = 'tet1d::out<%s, %s >((%s *)a0, 128, 0)' % (t, P, t)
        if mask: src = '(%s)(%s) = %s;' % (left, mask, expr)
        else: src = '%s = %s;' % (left, expr)
        d = '((%s *)a0)[%d]' ; b = []
        if mask: b.append(' '.join('{ %s v = %s; %s x = %s; %s = (%s) ? v : x; }' % (t, sc(k), t, d % (t, k), d % (t, k), smask(k)) for k in range(n)))
        else: b.append(' '.join('%s = %s;' % (d % (t, k), sc(k)) for k in range(n)))
        if ve:
            l = ext.n(t)
            for le in (0, 1):
                x = []; k = 0
                while k + L + (0 if le else 1) <= n:
                    for j in range(s.N):
                        w = k + j * l
                        v = ve(w)
                        if mask: v = 'nsimd_if_else1_%s_%s(%s, %s, nsimd_loadu_%s_%s((%s *)a0 + %d))' % (ext.name, t, vmask(w), v, ext.name, t, t, w)
                        x.append('nsimd_storeu_%s_%s((%s *)a0 + %d, %s);' % (ext.name, t, t, w, v))
                    k += L
                if not x: continue
                for k in range(k, n):
                    if mask: x.append('if (%s) %s = %s;' % (smask(k), d % (t, k), sc(k)))
                    else: x.append('%s = %s;' % (d % (t, k), sc(k)))
                x = ' '.join(x)
                if x not in b: b.append(x)
        c = Cell(ext, op, s.t, 'tet1d::' + op, src, params, [], n, 'base')
        c.id = 'tet1d.%s.%s.%s.%s.N%d.n%d' % (ext.name, op, s.t, tag, s.N, n)
        c.group = 'tet1d-%s' % ext.name
        c.where = ('include/nsimd/modules/tet1d.hpp: cpu_kernel_component_wise%s, node<%s>::operator=' % (('_mask', 'mask_out_t') if mask else ('', 'out_t'))) + ' with include/nsimd/modules/tet1d/functions.hpp (egg/modules/tet1d/hatch.py): tet1d::' + op
        c.base = b; c.extra = {}
        s.out.append(c)

def IN(i, t, n): return 'tet1d::in((const %s *)a%d, %d)' % (t, i, n)
def EL(i, t, k): return '((const %s *)a%d)[%d]' % (t, i, k)

def cells(ext, t, N, tier):
    s = T(ext, t, N); L = s.L; e = ext.name
    ld = lambda i, k, ty=t: 'nsimd_loadu_%s_%s((const %s *)a%d + %d)' % (e, ty, ty, i, k)
    sp = lambda i, ty=t: 'nsimd_set1_%s_%s(*(const %s *)a%d)' % (e, ty, ty, i)
    sval = lambda i: '*(const %s *)a%d' % (t, i)
    ns = sorted({0, 1, L - 1, L, L + 1, 2 * L, 2 * L + 1, 3 * L + 2} - {-1}) if N == 1 else [2 * L + 1]
    big = L + 2
    S = lambda op: 'nsimd_scalar_%s_%s' % (op, t)
    V = lambda op: 'nsimd_%s_%s_%s' % (op, e, t)
    f = t in FTYPES
    def op_cell(op, na, n, form='fun'):
        args = [IN(i + 1, t, n) for i in range(na)]
        ex = 'tet1d::%s(%s)' % (op, ', '.join(args)) if form == 'fun' else '%s %s %s' % (args[0], form, args[1]) if na == 2 else form + args[0]
        s.cell(op, 'fun' if form == 'fun' else 'infix', n, ['p'] * na, ex, lambda k: '%s(%s)' % (S(op), ', '.join(EL(i + 1, t, k) for i in range(na))),
               lambda k: '%s(%s)' % (V(op), ', '.join(ld(i + 1, k) for i in range(na))))
    ops = dict(ARITH); ops.update(FLT if f else {})
    for op, na in ops.items():
        if N > 1 and op not in ('add', 'fma', 'andnotb', 'abs'): continue
        op_cell(op, na, big if N == 1 else 2 * L + 1)
        if N > 1: continue
        if op in INFIX: op_cell(op, na, big, INFIX[op])
        if op == 'neg': op_cell(op, 1, big, '-')
        if op == 'notb': op_cell(op, 1, big, '~')
        if na == 2:
            # scalar on either side
            for form in ('fun',) + ((INFIX[op],) if op in INFIX else ()):
                mk = lambda x, y: 'tet1d::%s(%s, %s)' % (op, x, y) if form == 'fun' else '%s %s %s' % (x, form, y)
                tg = '' if form == 'fun' else 'infix'
                s.cell(op, tg + 'sright', big, ['p', 's'], mk(IN(1, t, big), sval(2)), lambda k: '%s(%s, %s)' % (S(op), EL(1, t, k), sval(2)), lambda k: '%s(%s, %s)' % (V(op), ld(1, k), sp(2)))
                s.cell(op, tg + 'sleft', big, ['p', 's'], mk(sval(2), IN(1, t, big)), lambda k: '%s(%s, %s)' % (S(op), sval(2), EL(1, t, k)), lambda k: '%s(%s, %s)' % (V(op), sp(2), ld(1, k)))
        if op == 'fma':
            s.cell(op, 'smid', big, ['p', 's', 'p'], 'tet1d::fma(%s, %s, %s)' % (IN(1, t, big), sval(2), IN(3, t, big)), lambda k: '%s(%s, %s, %s)' % (S(op), EL(1, t, k), sval(2), EL(3, t, k)), lambda k: '%s(%s, %s, %s)' % (V(op), ld(1, k), sp(2), ld(3, k)))
    # every number of elements
    for n in ns:
        if n == big: continue
        op_cell('add', 2, n, '+'); op_cell('andnotb', 2, n)
        s.cell('copy', 'in', n, ['p'], IN(1, t, n), lambda k: EL(1, t, k))
    # nested expression
    n = 2 * L + 1
    s.cell('nested', 'expr', n, ['p', 'p', 's'], 'tet1d::sub(tet1d::max(%s, %s) + %s, tet1d::notb(%s))' % (IN(1, t, n), IN(2, t, n), sval(3), IN(1, t, n)),
           lambda k: '{s}sub_{t}({s}add_{t}({s}max_{t}({a}, {b}), {c}), {s}notb_{t}({a}))'.format(s='nsimd_scalar_', t=t, a=EL(1, t, k), b=EL(2, t, k), c=sval(3)),
           lambda k: '{f}sub{x}({f}add{x}({f}max{x}({a}, {b}), {c}), {f}notb{x}({a}))'.format(f='nsimd_', x='_%s_%s' % (e, t), a=ld(1, k), b=ld(2, k), c=sp(3)))
    if N == 1:
        if not f:
            lb = {1: 3, 2: 4, 4: 5, 8: 6}[SZ[t]]
            for op, ifx in (('shl', '<<'), ('shr', '>>'), ('shra', None)):
                for form in ('fun',):
                    s.cell(op, form, big, ['p', 'c%d' % lb], 'tet1d::%s(%s, *(const int *)a2)' % (op, IN(1, t, big)), lambda k: '%s(%s, *(const int *)a2)' % (S(op), EL(1, t, k)), lambda k: '%s(%s, *(const int *)a2)' % (V(op), ld(1, k)))
        # conversions
        for tt in TYPES:
            if SZ[tt] != SZ[t]: continue
            for op in ('cvt', 'reinterpret'):
                if tt == t and op == 'cvt': pass
                s.cell(op, tt, big, ['p'], 'tet1d::%s<%s>(%s)' % (op, tt, IN(1, t, big)), lambda k: 'nsimd::scalar_%s(%s(), %s)' % (op, tt, EL(1, t, k)),
                       lambda k: 'nsimd_%s_%s_%s_%s(%s)' % (op, e, tt, t, ld(1, k)), dt=tt, sizes=[SZ[t]])
        # logicals through a mask
        s.cell('to_logical', 'to_mask', big, ['p'], 'tet1d::to_mask(tet1d::to_logical(%s))' % IN(1, t, big), lambda k: 'nsimd::scalar_to_mask(%s(), nsimd::scalar_to_logical(%s))' % (t, EL(1, t, k)),
               lambda k: '%s(%s(%s))' % (V('to_mask'), V('to_logical'), ld(1, k)))
        for op, o in CMP.items():
            for form in ('fun', o):
                cond = 'tet1d::%s(%s, %s)' % (op, IN(1, t, big), IN(2, t, big)) if form == 'fun' else '%s %s %s' % (IN(1, t, big), o, IN(2, t, big))
                s.cell(op, 'fun' if form == 'fun' else 'infix', big, ['p', 'p'], 'tet1d::to_mask(%s)' % cond, lambda k: 'nsimd::scalar_to_mask(%s(), %s(%s, %s))' % (t, S(op), EL(1, t, k), EL(2, t, k)),
                       lambda k: '%s(%s(%s, %s))' % (V('to_mask'), V(op), ld(1, k), ld(2, k)))
            s.cell(op, 'sleft', big, ['p', 's'], 'tet1d::to_mask(%s %s %s)' % (sval(2), o, IN(1, t, big)), lambda k: 'nsimd::scalar_to_mask(%s(), %s(%s, %s))' % (t, S(op), sval(2), EL(1, t, k)),
                   lambda k: '%s(%s(%s, %s))' % (V('to_mask'), V(op), sp(2), ld(1, k)))
        for op, (o, na) in LOGI.items():
            for form in ('fun',) + ((o,) if o else ()):
                c1, c2 = 'tet1d::lt(%s, %s)' % (IN(1, t, big), IN(2, t, big)), 'tet1d::to_logical(%s)' % IN(3, t, big)
                ex = ('tet1d::%s(%s)' % (op, ', '.join([c1, c2][:na]))) if form == 'fun' else '(%s) %s (%s)' % (c1, o, c2) if na == 2 else '%s(%s)' % (o, c1)
                s.cell(op, 'fun' if form == 'fun' else 'infix', big, ['p'] * (3 if na == 2 else 2), 'tet1d::to_mask(%s)' % ex,
                       lambda k: 'nsimd::scalar_to_mask(%s(), nsimd_scalar_%s(%s))' % (t, op, ', '.join(['%s(%s, %s)' % (S('lt'), EL(1, t, k), EL(2, t, k)), 'nsimd::scalar_to_logical(%s)' % EL(3, t, k)][:na])),
                       lambda k: '%s(%s(%s))' % (V('to_mask'), V(op), ', '.join(['%s(%s, %s)' % (V('lt'), ld(1, k), ld(2, k)), '%s(%s)' % (V('to_logical'), ld(3, k))][:na])))
        # sub-ranges: inclusive bounds, negative ones count from the end
        M = 2 * L + 6
        for i0, i1 in ((0, M - 1), (1, L + 2), (L, -2), (-3, -1), (2, 'tet1d::end')):
            a = i0 if not isinstance(i0, int) or i0 >= 0 else M + i0
            b = M - 1 if i1 == 'tet1d::end' else i1 if i1 >= 0 else M + i1
            n = b - a + 1
            s.cell('range', ('%s_%s' % (i0, i1)).replace('-', 'm').replace('::', '_'), n, ['p', 'p'], '%s(%s, %s) + %s' % (IN(1, t, M), i0, i1, IN(2, t, n)), lambda k: '%s(%s, %s)' % (S('add'), EL(1, t, k + a), EL(2, t, k)),
                   lambda k: '%s(%s, %s)' % (V('add'), ld(1, k + a), ld(2, k)))
        # a literal given as another type than the elements'
        for lit in ('3', '2.0', "'a'"):
            tl = 'nsimd_f32_to_f16(f32(%s))' % lit if t == 'f16' else '%s(%s)' % (t, lit)
            if t == 'f16': continue   # the conversion routine itself is property C12
            s.cell('add', 'lit_%s' % {'3': 'int', '2.0': 'double', "'a'": 'char'}[lit], big, ['p'], '%s + %s' % (IN(1, t, big), lit), lambda k: '%s(%s, %s)' % (S('add'), EL(1, t, k), tl), lambda k: '%s(%s, nsimd_set1_%s_%s(%s))' % (V('add'), ld(1, k), e, t, tl))
    # masked outputs
    for n in (ns if N == 1 else [2 * L + 1]):
        s.cell('mask', 'lt', n, ['p', 'p'], 'tet1d::xorb(%s, %s)' % (IN(1, t, n), IN(2, t, n)), lambda k: '%s(%s, %s)' % (S('xorb'), EL(1, t, k), EL(2, t, k)), lambda k: '%s(%s, %s)' % (V('xorb'), ld(1, k), ld(2, k)),
               mask='%s < %s' % (IN(1, t, n), IN(2, t, n)), smask=lambda k: '%s(%s, %s)' % (S('lt'), EL(1, t, k), EL(2, t, k)), vmask=lambda k: '%s(%s, %s)' % (V('lt'), ld(1, k), ld(2, k)))
        if N == 1 and t != 'f16':
            s.cell('mask', 'const', n, ['p', 'p', 's'], '%s(7)' % t if False else '7', lambda k: '%s(7)' % t, lambda k: 'nsimd_set1_%s_%s(7)' % (e, t),
                   mask='%s >= %s' % (IN(1, t, n), sval(3)), smask=lambda k: '%s(%s, %s)' % (S('ge'), EL(1, t, k), sval(3)), vmask=lambda k: '%s(%s, %s)' % (V('ge'), ld(1, k), sp(3)))
    return s.out

EXPL = ('One obligation per tet1d assignment form, operator, element type, SIMD extension, unroll and number of elements (0, 1, around one, two and '
        'three body steps): the assignment as a user writes it and the scalar program it stands for (plus the same with the vector operator in the body) are compiled '
        'to LLVM IR and abstractly interpreted over symbolic memory; the abstract memory after the call, the set of bytes touched and the alignment assumed are compared. '
        'Different abstract values count as a violation only when constant folding separates them from every accepted reference.')

def check(rep, tree, work):
    exts = pick(rep, ['cpu', 'sse42', 'avx2', 'avx512_skylake'])
    jobs = []
    for N in ((1, 2) if rep.tier == 'quick' else (1, 2, 3)):
        cs = []
        for n in exts:
            for t in TYPES: cs += cells(EXTS[n], t, N, rep.tier)
        jobs.append(('t%d' % N, cs, dict(lang='c++', std='-std=gnu++11', prelude=PRE, chunk=200)))
    layers.go(rep, tree, work, jobs)

# The numbers of elements above are constants. What could make a large one behave differently is a size or an index that
# is kept in less than 64 bits somewhere between the nodes and the kernels: a query over the IR with a variable size.
def size_rule(rep, tree, work):
    import os
    from . import irlint
    for n in pick(rep, ['cpu', 'avx2']):
        if EXTS[n].triple.startswith('armv7'): continue      # size_t has 32 bits
        for t in ('f32', 'i8', 'f64', 'u16'):
            src = os.path.join(work, 'sz.cpp')
            fs = {'assign': 'tet1d::out(d) = tet1d::in(a, n) + tet1d::in(b, n);',
                  'scalar': 'tet1d::out(d) = tet1d::in(a, n) + *b;',
                  'three': 'tet1d::out(d) = tet1d::fma(tet1d::in(a, n), tet1d::in(b, n), tet1d::in(a, n));',
                  'mask': 'TET1D_OUT(%s) v = tet1d::out(d); v(tet1d::in(a, n) < tet1d::in(b, n)) = tet1d::in(b, n);' % t,
                  'masklit': 'TET1D_OUT(%s) v = tet1d::out(d); v(tet1d::in(a, n) < tet1d::in(b, n)) = 1;' % t,
                  'range': 'tet1d::out(d) = tet1d::in(a, n)(i, j);'}
            with open(src, 'w') as f:
                f.write(PRE + 'extern "C" {\n')
                for k, b in fs.items(): f.write('void %s(%s *d, const %s *a, const %s *b, nsimd::nat n, nsimd::nat i, nsimd::nat j) { %s }\n' % (k, t, t, t, b))
                f.write('}\n')
            m = irlint.compile_ir(EXTS[n], tree, src, work, 'sz', std='-std=gnu++11', extra=['-fno-unroll-loops', '-mllvm', '-inline-threshold=100000'])
            for k in fs:
                bad, cnt = irlint.narrowings(m.fns[k])
                if cnt == 0 and k != 'x': rep.add('tet1d.%s.%s.%s.size' % (n, k, t), 'undec', why='no comparison of 64-bit sizes found', group='tet1d-size'); continue
                why = '; '.join('%s (%s)' % (w, m.where(i)) for i, w in bad[:3])
                rep.add('tet1d.%s.%s.%s.size' % (n, k, t), 'bad' if bad else 'ok', m.where(bad[0][0]) if bad else 'include/nsimd/modules/tet1d.hpp', why, group='tet1d-size', extra='\n'.join(i.text for i, w in bad[:5]))
_check = check
def check(rep, tree, work):
    _check(rep, tree, work); size_rule(rep, tree, work)
