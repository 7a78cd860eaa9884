# C16: the SPMD module. A kernel is written once as a small program and printed twice: with the SPMD constructs, and as plain
# C++ for one lane. Both are compiled in one translation unit and abstractly interpreted over unknown data and an unknown
# initial mask; every lane of every variable and every memory effect must be the lane program's.
#
# "Every nesting" is covered compositionally: in the kernels below the bodies of each construct are *arbitrary* statements,
# i.e. statements that send any subset of the lanes running them to normal completion, break, continue or return (chosen by
# unknown data), and that record which lanes ran them. A construct that handles arbitrary bodies from an arbitrary mask, and
# leaves exactly the lanes that complete normally, handles every program built from such constructs.
import os
from .exts import *
from .ops import Cell
from . import run, layers, scalar as sc, vecprops as vp

PRE = '#include <nsimd/nsimd-all.hpp>\n#include <nsimd/modules/spmd.hpp>\n#include <nsimd/modules/spmd/functions.hpp>\n'
WH = 'include/nsimd/modules/spmd.hpp: '

# ---- programs -------------------------------------------------------------------------------------------------------
class P:
    """prints statements; mode 'k' (SPMD) or 'c' (one lane)"""
    def __init__(s, k): s.k = k
    def ld(s, e):
        import re
        return re.sub(r'LD\((\w+)\)', (r'k_load(\1)' if s.k else r'\1[i]'), e)
    def st(s, x):
        k = s.k; o = x[0]; L = s.ld
        if o == 'seq': return ' '.join(s.st(y) for y in x[1:])
        if o == 'set': return 'k_set(%s, %s);' % (x[1], L(x[2])) if k else '%s = (T)(%s);' % (x[1], L(x[2]))
        if o == 'setb': return 'k_set(%s, %s);' % (x[1], L(x[2])) if k else '%s = (%s);' % (x[1], L(x[2]))
        if o == 'store': return 'k_store(%s, %s);' % (x[1], L(x[2])) if k else '%s[i] = (T)(%s);' % (x[1], L(x[2]))
        if o == 'break': return 'k_break' if k else 'break;'
        if o == 'continue': return 'k_continue' if k else 'continue;'
        if o == 'return': return 'k_return' if k else 'return;'
        if o == 'call': return 'spmd_call_dev_func(%s, %s);' % (x[1], x[2]) if k else '%s_c<T>(i, %s);' % (x[1], x[2])
        if o == 'callset': return 'k_set(%s, spmd_call_dev_func(%s, %s));' % (x[1], x[2], x[3]) if k else '%s = %s_c<T>(i, %s);' % (x[1], x[2], x[3])
        if o == 'while': return ('k_while(%s) %s k_endwhile' if k else 'while (%s) { %s }') % (L(x[1]), s.st(x[2]))
        if o == 'if':
            r = ''
            for j, (c, b) in enumerate(x[1]):
                if k: r += '%s(%s) %s ' % ('k_elseif' if j else 'k_if', L(c), s.st(b))
                else: r += '%s(%s) { %s ' % ('} else if ' if j else 'if ', L(c), s.st(b))
            if len(x) > 2: r += ('k_else %s ' if k else '} else { %s ') % s.st(x[2])
            return r + ('k_endif' if k else '}')
        raise ValueError(o)

def SEQ(*a): return ('seq',) + a
_id = [0]
def mark(n=None):
    """record that the lane ran this point, in order"""
    _id[0] = _id[0] % 3 + 1
    return ('set', 'r', '(r << 2) | %d' % (n or _id[0]))
def bit(v, j): return '(%s & %d) != 0' % (v, 1 << j)
def IF(c, b, *els):
    """IF(c, b, c2, b2, ..., else)"""
    br = [(c, b)]; els = list(els)
    while len(els) >= 2: br.append((els.pop(0), els.pop(0)))
    return ('if', br) + ((els[0],) if els else ())
BRK, CNT, RET = ('break',), ('continue',), ('return',)

def arb(j, loop):
    """an arbitrary statement: runs, then completes / breaks / continues / returns by two unknown bits"""
    if not loop: return SEQ(mark(), IF(bit('y', j), RET), mark())
    return SEQ(mark(), IF(bit('y', j), SEQ(IF(bit('y', j + 1), BRK), mark(), CNT)), IF(bit('y', j + 1), RET), mark())

NEXT = ('set', 'i', 'i << 1')
W = '(x & i) != 0'       # one unknown bit of x per iteration
def wi(b): return '(y & (i << %d)) != 0' % b

# name -> (number of unknown low bits of x and of y, statement)
PROGS = {
 'if': (1, 2, SEQ(IF(bit('x', 0), arb(0, False)), mark())),
 'if_else': (1, 4, SEQ(IF(bit('x', 0), arb(0, False), arb(1, False)), mark())),
 'if_elseif': (2, 4, SEQ(IF(bit('x', 0), arb(0, False), bit('x', 1), arb(1, False)), mark())),
 'if_elseif_else': (3, 6, SEQ(IF(bit('x', 0), arb(0, False), bit('x', 1), arb(1, False), bit('x', 2), arb(2, False), arb(3, False)), mark())),
 'if_changes_condition': (2, 1, SEQ(IF(bit('x', 0), SEQ(('set', 'x', 'x ^ 3'), mark()), bit('x', 1), SEQ(('set', 'x', 'x ^ 3'), mark()), mark()), mark(), IF(bit('x', 0), mark()))),
 'elseif_memory': (1, 2, SEQ(IF(bit('x', 0), SEQ(('store', 'm', 'y'), mark()), '(LD(m) & 1) != 0', mark(), mark()), mark())),
 'nested_if': (3, 4, SEQ(IF(bit('x', 0), SEQ(mark(), IF(bit('x', 1), arb(0, False), arb(1, False)), mark()), SEQ(IF(bit('x', 2), arb(2, False)), mark())), mark())),
 'nested_if3': (3, 3, SEQ(IF(bit('x', 0), IF(bit('x', 1), IF(bit('x', 2), arb(0, False), mark()), bit('y', 1), RET, mark())), mark())),
 'return_twice': (2, 1, SEQ(IF(bit('x', 0), RET), mark(), IF(bit('x', 1), RET), mark())),
 'while': (3, 1, SEQ(('while', W, SEQ(NEXT, mark())), mark())),
 'while_break': (3, 3, SEQ(('while', W, SEQ(NEXT, mark(), IF(wi(0), BRK), mark())), mark())),
 'while_continue': (3, 4, SEQ(('while', W, SEQ(NEXT, mark(), IF(wi(-0), CNT), mark())), mark())),
 'while_return': (3, 4, SEQ(('while', W, SEQ(NEXT, mark(), IF(wi(0), RET), mark())), mark())),
 'while_all': (2, 7, SEQ(('while', W, SEQ(NEXT, mark(), IF(bit('y', 0), IF(wi(1), BRK, wi(2), CNT), wi(3), RET), mark())), mark())),
 'while_if_else': (2, 6, SEQ(('while', W, SEQ(NEXT, IF(wi(0), SEQ(mark(), IF(wi(1), BRK), mark()), SEQ(mark(), IF(wi(2), CNT), mark())), mark())), mark())),
 'continue_then_if': (2, 5, SEQ(('while', W, SEQ(NEXT, IF(wi(0), CNT), IF(wi(2), mark(), mark()), mark())), mark())),
 'while_in_if': (3, 4, SEQ(IF(bit('y', 0), SEQ(('while', W, SEQ(NEXT, mark(), IF(wi(0), BRK), mark())), mark()), mark()), mark())),
 'while_return_in_if': (3, 4, SEQ(IF(bit('y', 0), SEQ(('while', W, SEQ(NEXT, mark(), IF(wi(0), RET), mark())), mark()), mark()), mark())),
 'while_in_while': (3, 5, SEQ(('while', '(x & i & 3) != 0', SEQ(NEXT, mark(1), ('set', 'j', '1'), ('while', '(y & j & 3) != 0', SEQ(('set', 'j', 'j << 1'), mark(2), IF('(y & 8) != 0', BRK), IF('(x & 4) != 0', CNT), mark(3))), IF('(y & 4) != 0', BRK), IF('(y & 16) != 0', CNT), mark(1))), mark(2))),
 'inner_return': (2, 3, SEQ(('while', W, SEQ(NEXT, mark(), ('set', 'j', '1'), ('while', '(y & j) != 0', SEQ(('set', 'j', 'j << 1'), IF('(y & 4) != 0', RET), mark())), mark())), mark())),
 'condition_constant': (2, 0, SEQ(('while', '(x & 1) != 0', SEQ(mark(), IF(bit('x', 1), BRK), ('set', 'x', 'x | 2'))), mark())),
 'stores': (2, 1, SEQ(IF(bit('x', 0), ('store', 'm', 'y'), bit('x', 1), SEQ(('store', 'm', 'x'), RET)), ('store', 'm', 'LD(m) ^ 5'), mark())),
 'while_store': (2, 3, SEQ(('while', W, SEQ(NEXT, ('store', 'm', '(LD(m) << 1) | (y & 1)'), IF(wi(0), BRK))), mark())),
 'void_function': (2, 2, SEQ(IF(bit('x', 0), ('call', 'df', 'm, x, y')), mark(), ('store', 'm', 'LD(m) + 1'))),
 'value_function': (2, 2, SEQ(IF(bit('x', 0), ('callset', 'r', 'dv', 'r, y')), mark())),
 'logical_variable': (2, 2, SEQ(IF(bit('y', 0), SEQ(('setb', 'b', bit('x', 1)), mark())), IF('b', mark()), IF(bit('y', 1), ('setb', 'b', 'true'), ('setb', 'b', 'false')), IF('b', SEQ(mark(), RET)), mark())),
}
HELP = ('spmd_dev_func(void df, MEM *m, k_uint x, k_uint y) k_if((x & 2) != 0) k_store(m, y); k_return k_endif k_store(m, k_load(m) ^ 1); spmd_dev_func_end '
        'spmd_dev_func(k_uint dv, k_uint r, k_uint y) k_uint t(r); k_if((y & 1) != 0) k_set(t, r ^ 7); k_return k_elseif((y & 2) != 0) k_set(t, t ^ 9); k_endif k_set(t, t << 1); return t; spmd_dev_func_end '
        'template <typename T> static inline void df_c(nsimd_nat i, T *m, T x, T y) { if (x & 2) { m[i] = y; return; } m[i] = (T)(m[i] ^ 1); } '
        'template <typename T> static inline T dv_c(nsimd_nat, T r, T y) { T t = r; if (y & 1) { t = (T)(r ^ 7); return t; } else if (y & 2) t = (T)(t ^ 9); return (T)(t << 1); } ')

def flow_cells(ext, bits, N, names, tag):
    out = []; T = 'u%d' % bits; I = 'i%d' % bits; n = ext.n(T)
    for nm in names:
        xb, yb, prog = PROGS[nm]; k = nm.replace('-', '_')
        decl = 'k_uint x(k_unmasked_load(px) & %d); k_uint y(k_unmasked_load(py) & %d); k_uint r(k_unmasked_load(pr)); k_uint i(1); (void)i; k_uint j(1); (void)j; (void)y; (void)m; k_bool b(k_to_bool((y & 1) != 0)); (void)b;'
        decl = decl % ((1 << xb) - 1, (1 << yb) - 1)
        body = decl + ' ' + P(True).st(prog) + ' k_unmasked_store(q, r);'
        lane = 'T x = (T)(px[i_] & %d), y = (T)(py[i_] & %d), i = 1, j = 1; bool b = (y & 1) != 0;' % ((1 << xb) - 1, (1 << yb) - 1)
        cprog = P(False).st(prog)
        # in the lane program i is a variable, so memory is indexed by an enclosing reference to the lane's element
        import re
        cprog = re.sub(r'\bm\[i\]', 'm[i_]', cprog); cprog = re.sub(r'_c<T>\(i,', '_c<T>(i_,', cprog)
        top = ''
        top += 'spmd_kernel_1d(%s_k, %s *px, %s *py, %s *pr, %s *m, %s *q) %s spmd_kernel_end ' % (k, T, T, T, T, T, body)
        top += 'template <typename T> static inline void %s_c(nsimd_nat i_, bool mask, const T *px, const T *py, T *m, T &r) { %s (void)b; (void)i; (void)j; if (!mask) return; %s }' % (k, lane, cprog)
        for simd in ((True, False) if N == 1 else (True,)):
            L = n * N if simd else 1
            V = {'k': 'vec', 'n': L, 'w': bits}
            mk = dict(ext.logp(I, 'log'), n=ext.n(I) * N) if simd else {'k': 'int', 'w': 32, 'low': 1}
            # o: the traces, then the memory word of every lane
            params = [{'k': 'out', 'n': 2 * L, 'w': bits}, V, V, V, V, mk]
            pt = '%s *px = (%s *)a0, *py = (%s *)a1, *pr = (%s *)a2, *pm = (%s *)a3, *q = (%s *)o, *m = q + %d; for (int z = 0; z < %d; z++) m[z] = pm[z]; ' % (T, T, T, T, T, T, L, L)
            PL = 'nsimd::packl<%s, %d, nsimd::%s>' % (I, N, ext.name)
            if simd:
                src = pt + '%s_k<spmd::KernelSIMD, %d, %d>(0, *(const %s *)a4, px, py, pr, m, q);' % (k, bits, N, PL)
                lm = ' '.join('nsimd_storelu_%s_%s(bm + %d, ((const nsimd_%s_vl%s *)a4)[%d]);' % (ext.name, I, z * n, ext.name, I, z) for z in range(N))
                ref = pt + '%s bm[%d]; %s for (int z = 0; z < %d; z++) { %s r = pr[z]; %s_c<%s>(z, bm[z] != 0, px, py, m, r); q[z] = r; }' % (I, L, lm, L, T, k, T)
            else:
                src = pt + '%s_k<spmd::KernelScalar, %d, %d>(0, (*(const int *)a4 & 1) != 0, px, py, pr, m, q);' % (k, bits, N)
                ref = pt + '%s r = pr[0]; %s_c<%s>(0, (*(const int *)a4 & 1) != 0, px, py, m, r); q[0] = r;' % (T, k, T)
            c = Cell(ext, nm, T, 'spmd::' + nm, src, params, [], 2 * L, 'base')
            c.id = 'spmd.%s.flow.%s.%d.N%d.%s' % (ext.name, nm, bits, N, 'simd' if simd else 'scalar'); c.group = 'flow-' + tag
            c.where = WH + 'k_if/k_elseif/k_else/k_while/k_break/k_continue/k_return/k_set/k_store/k_load'
            c.base = [ref]; c.extra = {'half': False, 'laneOrder': True}; c.top = top
            out.append(c)
    return out


def ops_of(tree):
    """the operators the module offers"""
    import re
    p = os.path.join(tree, 'include/nsimd/modules/spmd/functions.hpp')
    return set(re.findall(r'#define k_(\w+)\(', open(p).read()))

def K(kind, bits, N): return 'typedef spmd::Kernel%s spmd_KernelType_; enum { spmd_ScalarBits_ = %d, spmd_N_ = %d }; ' % (kind, bits, N)
WO = 'egg/modules/spmd/hatch.py gen_functions -> include/nsimd/modules/spmd/functions.hpp: '

def op_cells(ext, N, avail):
    """k_<op> in vector kernels is the operator on packs, with scalars broadcast"""
    import re
    out = []
    for cl in layers.base_calls(ext):
        if cl.op not in avail: continue
        p = layers.PackCall(cl, N); v = [p.val(a) for a in cl.args]
        RT = p.pk(cl.rk, cl.rt)
        tt = [RT] if cl.op in ('cvt', 'reinterpret', 'to_mask') else []
        pfx = K('SIMD', SZ[cl.t] * 8, N)
        call = lambda a: pfx + '*(%s *)o = k_%s(%s);' % (RT, cl.op, ', '.join(tt + a))
        if tt: call = lambda a: pfx + 'typedef %s to_t; *(%s *)o = k_%s(%s);' % (RT, RT, cl.op, ', '.join(['to_t'] + a))
        out.append(p.cell('kop%d' % N, call(v), where=WO + 'k_' + cl.op))
        vs = [i for i, a in enumerate(cl.args) if a[0] == 'V']
        if len(vs) >= 2:
            for i in vs:
                a = list(v); a[i] = '*(const %s *)a%d' % (cl.t, i)
                pr = p.params(); pr[1 + i] = {'k': 'vec', 'n': 1, 'w': SZ[cl.t] * 8}
                b = re.sub(r'\(\(const %s \*\)a%d\)\[\d\]' % (ext.vt(cl.t), i), 'nsimd_set1_%s_%s(*(const %s *)a%d)' % (ext.name, cl.t, cl.t, i), p.base()[0])
                out.append(p.cell('kop%d' % N, call(a), tag='.s%d' % i, where=WO + 'k_%s with a scalar operand' % cl.op, base=b, params=pr))
    return out

def scalar_op_cells(ext, avail):
    """k_<op> in scalar kernels is the scalar function"""
    import re
    out = []
    for c in sc.cells(ext, 'c', 'spmd'):
        op = c.op[len('scalar_'):]
        if op not in avail: continue
        m = re.match(r'(\*\(\w+ \*\)o = )(\w+)\((.*)\)( != 0)?;$', c.src)
        args = m.group(3)
        if op in ('andl', 'orl', 'xorl', 'andnotl', 'notl', 'to_mask'): args = args.replace('*(const int *)', '0 != *(const int *)')
        bits = SZ[c.typ] * 8
        to = c.to or (c.typ if op == 'to_mask' else None)
        src = K('Scalar', bits, 1) + m.group(1) + 'k_%s(%s%s)%s;' % (op, to + ', ' if to else '', args, m.group(4) or '')
        d = Cell(ext, 'k_' + op, c.typ, 'k_' + op, src, c.params, [], 1, 'base')
        for q in d.params: q.pop('fp', None)
        d.id = 'spmd.%s.scalar.k_%s.%s%s' % (ext.name, op, c.typ, '.' + c.to if c.to else ''); d.group = 'kscalar-' + ext.name; d.where = WO + 'k_%s (scalar kernels)' % op
        d.base = [c.src.replace('*(const int *)', '0 != *(const int *)') if op in ('andl', 'orl', 'xorl', 'andnotl', 'notl', 'to_mask') else c.src]; d.extra = {}
        out.append(d)
    return out

def stmt_cells(ext, N):
    """assignments, loads and stores, for every element type"""
    out = []; e = ext.name
    def cell(op, t, kind, src, params, ref, n, tag, what):
        c = Cell(ext, op, t, op, K(kind, SZ[t] * 8, N) + src, params, [], n, 'base')
        c.id = 'spmd.%s.%s.%s.N%d.%s%s' % (e, op, t, N, kind, tag); c.group = 'stmt-' + e; c.where = WH + what; c.base = [ref]; c.extra = {}
        out.append(c)
    for t in TYPES:
        b = SZ[t] * 8; I = 'i%d' % b; n = ext.n(t); L = n * N
        P_ = 'nsimd::pack<%s, %d, nsimd::%s>' % (t, N, e); PM = 'nsimd::packl<%s, %d, nsimd::%s>' % (I, N, e)
        O, V, M, S1 = ext.vout(t, N), ext.vec(t, N), dict(ext.logp(I, 'log'), n=n * N), {'k': 'vec', 'n': 1, 'w': b}
        vt, lt = ext.vt(t), ext.lt(I)
        a = lambda i, k: '((const %s *)a%d)[%d]' % (vt, i, k)
        m = lambda i, k: 'nsimd_reinterpretl_%s_%s_%s(((const %s *)a%d)[%d])' % (e, t, I, lt, i, k) if t != I else '((const %s *)a%d)[%d]' % (lt, i, k)
        regs = lambda f: ' '.join('((%s *)o)[%d] = %s;' % (vt, k, f(k)) for k in range(N))
        mask = lambda i: '%s spmd_mask_ = *(const %s *)a%d; ' % (PM, PM, i)
        s1 = lambda i: 'nsimd_set1_%s_%s(*(const %s *)a%d)' % (e, t, t, i)
        cell('set', t, 'SIMD', mask(0) + '%s x = *(const %s *)a1; k_set(x, *(const %s *)a2); *(%s *)o = x;' % (P_, P_, P_, P_), [O, M, V, V], regs(lambda k: 'nsimd_if_else1_%s_%s(%s, %s, %s)' % (e, t, m(0, k), a(2, k), a(1, k))), L, '', 'k_set_(packl, pack, pack)')
        cell('set_scalar', t, 'SIMD', mask(0) + '%s x = *(const %s *)a1; k_set(x, *(const %s *)a2); *(%s *)o = x;' % (P_, P_, t, P_), [O, M, V, S1], regs(lambda k: 'nsimd_if_else1_%s_%s(%s, %s, %s)' % (e, t, m(0, k), s1(2), a(1, k))), L, '', 'k_set_(packl, pack, U)')
        cell('unmasked_set', t, 'SIMD', mask(0) + '%s x = *(const %s *)a1; k_unmasked_set(x, *(const %s *)a2); *(%s *)o = x;' % (P_, P_, P_, P_), [O, M, V, V], regs(lambda k: a(2, k)), L, '', 'k_unmasked_set')
        # logical variables of this type
        PL = 'nsimd::packl<%s, %d, nsimd::%s>' % (t, N, e); OL = dict(ext.logp(t, 'outlog'), n=n * N); LL = dict(ext.logp(t, 'log'), n=n * N)
        la = lambda i, k: '((const %s *)a%d)[%d]' % (ext.lt(t), i, k)
        lregs = lambda f: ' '.join('((%s *)o)[%d] = %s;' % (ext.lt(t), k, f(k)) for k in range(N))
        def sel(mm, v, o): return 'nsimd_orl_%s_%s(nsimd_andl_%s_%s(%s, %s), nsimd_andnotl_%s_%s(%s, %s))' % (e, t, e, t, mm, v, e, t, o, mm)
        cell('setl', t, 'SIMD', mask(0) + '%s x = *(const %s *)a1; k_set(x, *(const %s *)a2); *(%s *)o = x;' % (PL, PL, PL, PL), [OL, M, LL, LL], lregs(lambda k: sel(m(0, k), la(2, k), la(1, k))), L, '', 'k_set_(packl, packl, packl)')
        cell('setl_mask', t, 'SIMD', mask(0) + '%s x = *(const %s *)a1; k_set(x, *(const %s *)a2); *(%s *)o = x;' % (PL, PL, PM, PL), [OL, M, LL, M], lregs(lambda k: sel(m(0, k), m(2, k), la(1, k))), L, '', 'k_set_(packl, packl, packl)')
        cell('setl_bool', t, 'SIMD', mask(0) + '%s x = *(const %s *)a1; k_set(x, bool(*(const int *)a2)); *(%s *)o = x;' % (PL, PL, PL), [OL, M, LL, {'k': 'int', 'w': 32, 'low': 1}], lregs(lambda k: sel(m(0, k), 'nsimd_set1l_%s_%s(*(const int *)a2)' % (e, t), la(1, k))), L, '', 'k_set_(packl, packl, bool)')
        cell('to_bool', t, 'SIMD', '*(%s *)o = k_to_bool(*(const %s *)a0);' % (PM, PL), [dict(ext.logp(I, 'outlog'), n=n * N), LL], ' '.join('((%s *)o)[%d] = %s;' % (lt, k, 'nsimd_reinterpretl_%s_%s_%s(%s)' % (e, I, t, la(0, k)) if t != I else la(0, k)) for k in range(N)), L, '', 'to_k_bool_')
        cell('any', t, 'SIMD', '*(bool *)o = spmd::any(*(const %s *)a0);' % PL, [{'k': 'out', 'n': 1, 'w': 8}, LL], '*(bool *)o = ' + ' || '.join('(nsimd_any_%s_%s(%s) != 0)' % (e, t, la(0, k)) for k in range(N)) + ';', 1, '', 'spmd::any')
        mem = {'k': 'ptr', 'elem': SZ[t], 'align': SZ[t], 'd': 1}
        for i in (0, 5):
            ix = 'nsimd_nat spmd_i_ = %d; ' % i; tg = '.i%d' % i
            at = lambda k: '(%s *)a0 + %d' % (t, i + k * n)
            cell('store', t, 'SIMD', ix + mask(1) + 'k_store(((%s *)a0), *(const %s *)a2);' % (t, P_), [mem, M, V], ' '.join('nsimd_mask_storeu1_%s_%s(%s, %s, %s);' % (e, t, m(1, k), at(k), a(2, k)) for k in range(N)), L, tg, 'k_store')
            cell('store_scalar', t, 'SIMD', ix + mask(1) + 'k_store(((%s *)a0), *(const %s *)a2);' % (t, t), [mem, M, S1], ' '.join('nsimd_mask_storeu1_%s_%s(%s, %s, %s);' % (e, t, m(1, k), at(k), s1(2)) for k in range(N)), L, tg, 'k_store')
            cell('unmasked_store', t, 'SIMD', ix + 'k_unmasked_store(((%s *)a0), *(const %s *)a1);' % (t, P_), [mem, V], ' '.join('nsimd_storeu_%s_%s(%s, %s);' % (e, t, at(k), a(1, k)) for k in range(N)), L, tg, 'k_unmasked_store')
            cell('load', t, 'SIMD', ix + mask(1) + '*(%s *)o = k_load(((%s *)a0));' % (P_, t), [O, mem, M], regs(lambda k: 'nsimd_maskz_loadu1_%s_%s(%s, %s)' % (e, t, m(1, k), at(k))), L, tg, 'k_load')
            cell('unmasked_load', t, 'SIMD', ix + '*(%s *)o = k_unmasked_load(((%s *)a0));' % (P_, t), [O, mem], regs(lambda k: 'nsimd_loadu_%s_%s(%s)' % (e, t, at(k))), L, tg, 'k_unmasked_load')
            if N > 1: continue
            MB = {'k': 'int', 'w': 32, 'low': 1}; bm = 'bool spmd_mask_ = (*(const int *)a%d & 1) != 0; '; el = '((%s *)a0)[%d]' % (t, i)
            X = '*(const %s *)a%d'
            z = 'nsimd_f32_to_f16(0.0f)' if t == 'f16' else '0'
            cell('store', t, 'Scalar', ix + bm % 1 + 'k_store(((%s *)a0), %s);' % (t, X % (t, 2)), [mem, MB, S1], 'if (*(const int *)a1 & 1) %s = %s;' % (el, X % (t, 2)), 1, tg, 'k_store (scalar)')
            cell('unmasked_store', t, 'Scalar', ix + 'k_unmasked_store(((%s *)a0), %s);' % (t, X % (t, 1)), [mem, S1], '%s = %s;' % (el, X % (t, 1)), 1, tg, 'k_unmasked_store (scalar)')
            cell('load', t, 'Scalar', ix + bm % 1 + '*(%s *)o = k_load(((%s *)a0));' % (t, t), [{'k': 'out', 'n': 1, 'w': b}, mem, MB], 'if (*(const int *)a1 & 1) *(%s *)o = %s; else *(%s *)o = %s;' % (t, el, t, z), 1, tg, 'k_load (scalar)')
            cell('unmasked_load', t, 'Scalar', ix + '*(%s *)o = k_unmasked_load(((%s *)a0));' % (t, t), [{'k': 'out', 'n': 1, 'w': b}, mem], '*(%s *)o = %s;' % (t, el), 1, tg, 'k_unmasked_load (scalar)')
        if N == 1:
            MB = {'k': 'int', 'w': 32, 'low': 1}
            cell('set', t, 'Scalar', 'bool spmd_mask_ = (*(const int *)a0 & 1) != 0; %s x = *(const %s *)a1; k_set(x, *(const %s *)a2); *(%s *)o = x;' % (t, t, t, t), [{'k': 'out', 'n': 1, 'w': b}, MB, S1, S1], '*(%s *)o = (*(const int *)a0 & 1) ? *(const %s *)a2 : *(const %s *)a1;' % (t, t, t), 1, '', 'k_set_ (scalar)')
    return out

def launch_cells(ext, bits, N):
    """a launch over n runs the kernel for every index below n once, full vectors first"""
    out = []; T = 'u%d' % bits; L = ext.n(T) * N; e = ext.name; sz = bits // 8
    mem = {'k': 'ptr', 'elem': sz, 'align': sz, 'd': 1}
    body = 'k_uint x(k_load(a)); k_if((x & 1) != 0) k_store(d, x + c); k_elseif((x & 2) != 0) k_return k_endif k_store(d, k_load(d) ^ x);'
    top = 'spmd_kernel_1d(launched%d_%d, %s *d, %s *a, %s c) %s spmd_kernel_end ' % (bits, N, T, T, T, body)
    top += 'spmd_tmpl_kernel_1d(tlaunched%d_%d, A, A *d, A *a, A c) %s spmd_kernel_end ' % (bits, N, body)
    lane = '{ %s x = A[k]; bool z = false; if (x & 1) D[k] = (%s)(x + c); else if (x & 2) z = true; if (!z) D[k] = (%s)(D[k] ^ x); }' % (T, T, T)
    for n in list(range(0, 2 * L + 2)):
        if n > 3 and n not in (L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1): continue
        for tm in (0, 1):
            call = ('spmd_launch_kernel_1d(launched%d_%d, %d, %d, %d, (%s *)a0, (%s *)a1, c)' % (bits, N, bits, N, n, T, T)) if not tm else ('spmd_launch_tmpl_kernel_1d(tlaunched%d_%d, %s, %d, %d, %d, (%s *)a0, (%s *)a1, c)' % (bits, N, T, bits, N, n, T, T)).replace('typename ', '')
            src = '%s c = *(const %s *)a2; %s' % (T, T, call)
            ref = '%s c = *(const %s *)a2; %s *D = (%s *)a0; %s *A = (%s *)a1; for (int k = 0; k < %d; k++) %s' % (T, T, T, T, T, T, n, lane)
            c = Cell(ext, 'launch', T, 'launch', src, [mem, mem, {'k': 'vec', 'n': 1, 'w': bits}], [], max(1, n), 'base')
            c.id = 'spmd.%s.launch.%d.N%d.n%d%s' % (e, bits, N, n, '.tmpl' if tm else ''); c.group = 'launch-' + e; c.where = WH + 'spmd_launch%s_kernel_1d' % ('_tmpl' if tm else ''); c.base = [ref]; c.extra = {'half': False}; c.top = top
            out.append(c)
    return out

def pre(bits): return PRE + HELP.replace('MEM', 'u%d' % bits) + '\n'

EXPL = ('One obligation per kernel, kernel kind (vector or scalar), lane width, unroll factor and extension. Kernels are printed as SPMD constructs and as the '
        'lane program in plain C++; both are abstractly interpreted over unknown data and an unknown initial mask and compared lane by lane (variables after the '
        'kernel and every memory word). Bodies of constructs are arbitrary statements: unknown data decides which lanes complete, break, continue or return.')

def check(rep, tree, work):
    jobs = []
    q = rep.tier == 'quick'
    for bits, N, exts in ((32, 1, ['cpu', 'sse42', 'avx2', 'avx512_skylake']), (8, 1, ['sse42']), (16, 1, ['sse42']), (64, 1, ['avx2']), (32, 2, ['sse42'])):
        cs = []
        for n in exts: cs += flow_cells(EXTS[n], bits, N, list(PROGS), 'flow')
        jobs.append(('f%d_%d' % (bits, N), cs, dict(lang='c++', std='-std=gnu++11', prelude=pre(bits), chunk=12)))
    av = ops_of(tree)
    if len(av) < 40: raise vp.run.st.CheckError('spmd operators not found')
    exts = pick(rep, ['cpu', 'sse42', 'avx2', 'avx512_skylake'])
    for N in (1, 2):
        cs = []
        for n in (exts if N == 1 or not q else ['sse42', 'avx2']): cs += stmt_cells(EXTS[n], N)
        jobs.append(('s%d' % N, cs, dict(lang='c++', std='-std=gnu++11', prelude=PRE, chunk=120)))
        cs = []
        for n in (exts if N == 1 or not q else ['avx2']): cs += op_cells(EXTS[n], N, av)
        jobs.append(('o%d' % N, cs, dict(lang='c++', std='-std=gnu++11', prelude=PRE, chunk=200)))
    cs = []
    for n in pick(rep, ['cpu', 'avx2']): cs += scalar_op_cells(EXTS[n], av)
    jobs.append(('so', cs, dict(lang='c++', std='-std=gnu++11', prelude=PRE, chunk=200)))
    for bits, N in ((32, 1), (8, 1), (64, 2)):
        cs = []
        for n in pick(rep, ['sse42', 'avx512_skylake']): cs += launch_cells(EXTS[n], bits, N) if not (bits == 8 and n != 'sse42') else []
        jobs.append(('l%d_%d' % (bits, N), cs, dict(lang='c++', std='-std=gnu++11', prelude=PRE, chunk=10)))
    layers.go(rep, tree, work, jobs)
