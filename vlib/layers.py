# C14, C15: every API layer above the C functions is compared with the C functions themselves. A cell is a call written
# as a user of the layer writes it; its reference is the same operation written with the C function (for packs: one
# call per sub-vector). Both are wrappers in the same translation unit.
import re, copy
from .exts import *
from .ops import Cell, cells_for, up_types
from . import run, vecprops as vp
import os, copy

ARG = re.compile(r'\*\(const (\w+) \*\)a(\d)|\((const )?(\w+) \*\)a(\d)')

class Call:
    """a base cell taken apart"""
    def __init__(s, c):
        ext, t = c.ext, c.typ
        s.c = c; s.ext = ext; s.op = c.op; s.t = t; s.to = c.to
        m = re.match(r'(?:\*\((\w+) \*\)o = )?(\w+)\((.*)\)( != 0)?;$', c.src)
        s.out, fn, args, s.suf = m.group(1), m.group(2), m.group(3), m.group(4) or ''
        s.args = []   # (kind, type, index)
        for m in ARG.finditer(args):
            if m.group(5): s.args.append(('P', m.group(4), int(m.group(5)), m.group(3) or ''))
            else:
                ct = m.group(1); i = int(m.group(2))
                for ty in TYPES:
                    if ct == ext.vt(ty): s.args.append(('V', ty, i, '')); break
                    if ct == ext.lt(ty): s.args.append(('L', ty, i, '')); break
                else: s.args.append(('I' if ct == 'int' else 'S', ct, i, ''))
        # result
        s.rk, s.rt, s.deg = None, None, 1
        if s.out:
            for ty in TYPES:
                for d in (1, 2, 3, 4):
                    if s.out == ext.vt(ty) + ('x%d' % d if d > 1 else ''): s.rk, s.rt, s.deg = 'V', ty, d
                if s.out == ext.lt(ty): s.rk, s.rt = 'L', ty
            if s.rk is None: s.rk, s.rt = ('I' if s.out == 'int' else 'S'), s.out
    def val(s, a): # C expression of an argument
        k, ty, i, cq = a
        if k == 'P': return '(%s%s *)a%d' % (cq, ty, i)
        return '*(const %s *)a%d' % ({'V': s.ext.vt(ty), 'L': s.ext.lt(ty)}.get(k, ty), i)
    def vals(s): return [s.val(a) for a in s.args]
    def assign(s, call, extra=''):
        return ('*(%s *)o = ' % s.out if s.out else '') + call + extra + s.suf + ';'

BASE_SKIP = ('len',)
def base_calls(ext):
    seen = set(); out = []
    for c in cells_for(ext):
        k = (c.op, c.typ, c.to)
        if k in seen: continue
        seen.add(k)
        if c.op == 'mask_for_loop_tail': c.params = [c.params[0], {'k': 'int', 'w': 32, 'low': 8}, {'k': 'int', 'w': 32, 'low': 8}]
        if c.mode == 'sum': c.params[0] = dict(c.params[0]); c.mode = ''
        out.append(Call(c))
    return out

def mk(cl, layer, src, params=None, base=None, tag='', n=None, where=''):
    c = Cell(cl.ext, cl.op, cl.t, layer, src, params or [dict(p) for p in cl.c.params], ['base'], n or cl.c.n, '', (), cl.to)
    for p in c.params: p.pop('fp', None)
    c.base = base or cl.c.src
    c.id = '%s.%s.%s.%s%s%s' % (layer, cl.ext.name, cl.op, cl.t, '.' + cl.to if cl.to else '', tag)
    c.group = '%s-%s' % (layer, cl.ext.name)
    c.where = where
    c.extra = {}
    return c

# ---------------------------------------------------------------- C layers
ALIGNED_OPS = re.compile(r'(load|load2|load3|load4|loadl|store|store2|store3|store4|storel)([ua])$')
def c_cells(ext):
    out = []
    for cl in base_calls(ext):
        v = cl.vals(); ty = [cl.t] + ([cl.to] if cl.to else [])
        w = 'include/nsimd/functions.h (generated by egg/gen_base_apis.py): v' + cl.op
        out.append(mk(cl, 'macro', cl.assign('v%s(%s)' % (cl.op, ', '.join(v + ty))), where=w))
        out.append(mk(cl, 'macro_e', cl.assign('v%s_e(%s)' % (cl.op, ', '.join(v + ty + [ext.name]))), where=w + '_e'))
        m = ALIGNED_OPS.match(cl.op)
        if m:
            al = 'NSIMD_ALIGNED' if m.group(2) == 'a' else 'NSIMD_UNALIGNED'
            w = 'include/nsimd/nsimd.h: v' + m.group(1)
            out.append(mk(cl, 'macro_align', cl.assign('v%s(%s)' % (m.group(1), ', '.join(v + ty + [al]))), where=w))
            out.append(mk(cl, 'macro_align_e', cl.assign('v%s_e(%s)' % (m.group(1), ', '.join(v + ty + [ext.name, al]))), where=w + '_e'))
        if cl.op == 'if_else1':
            for tl in TYPES:
                if SZ[tl] != SZ[cl.t] or not same_logical(ext, tl, cl.t): continue
                a = list(cl.args); a[0] = ('L', tl, 0, '')
                vv = [cl.val(x) for x in a]
                params = [dict(p) for p in cl.c.params]; params[1] = ext.logp(tl, 'log')
                base = '*(%s *)o = nsimd_if_else1_%s_%s(nsimd_reinterpretl_%s_%s_%s(%s), %s, %s);' % (cl.out, ext.name, cl.t, ext.name, cl.t, tl, vv[0], vv[1], vv[2])
                for nm, ex in (('vif_else', []), ('vif_else_e', [ext.name])):
                    out.append(mk(cl, 'macro', '*(%s *)o = %s(%s);' % (cl.out, nm, ', '.join(vv + [tl, cl.t] + ex)), params, base, tag='.%s.%s' % (nm, tl), where='include/nsimd/nsimd.h: ' + nm))
    return out
def same_logical(ext, a, b): return True

def c11_cells(ext):
    out = []
    def pk(k, ty, d=1): return 'nsimd_pack%s_%s_%s' % ('l' if k == 'L' else 'x%d' % d if d > 1 else '', ty, ext.name)
    for cl in base_calls(ext):
        a = []
        for x in cl.args:
            if x[0] in 'VL': a.append('nsimd_make_%s(%s)' % (pk(x[0], x[1])[6:], cl.val(x)))
            else: a.append(cl.val(x))
        disc = [x for x in cl.args if x[0] in 'VL' and not (x[0] == 'V' and cl.op in ('gather',) )]
        pre = []
        if cl.op == 'len': pre = [pk('V', cl.t)]
        elif cl.to: pre = [pk(cl.rk, cl.rt, cl.deg)]
        elif not disc: pre = [pk(cl.rk, cl.rt, cl.deg)] if cl.rk in 'VL' else []
        call = 'nsimd_%s(%s)' % (cl.op, ', '.join(pre + a))
        if cl.rk in ('V', 'L') and cl.deg == 1: src = '*(%s *)o = %s.v;' % (cl.out, call)
        elif cl.rk == 'V': src = '*(%s *)o = %s;' % (pk('V', cl.rt, cl.deg), call)
        else: src = cl.assign(call)
        w = 'include/nsimd/c_adv_api_functions.h (generated by egg/gen_adv_c_api.py): nsimd_' + cl.op
        out.append(mk(cl, 'c11', src, where=w))
        if pre and cl.op != 'len' and not cl.to:
            # the short names designate the default extension
            call = call.replace(pre[0], pre[0][:-len(ext.name) - 1], 1)
            src = '*(%s *)o = %s%s;' % ((cl.out, call, '.v') if cl.deg == 1 else (pk('V', cl.rt, cl.deg), call, ''))
            out.append(mk(cl, 'c11', src, tag='.short', where=w))
        m = re.match(r'(load|store)([ua])$', cl.op)
        if m:
            al = 'aligned' if m.group(2) == 'a' else 'unaligned'
            if m.group(1) == 'load': src = '*(%s *)o = nsimd_load(%s, %s, %s).v;' % (cl.out, al, pre[0], a[0])
            else: src = 'nsimd_store(%s, %s);' % (al, ', '.join(a))
            out.append(mk(cl, 'c11', src, tag='.' + al, where='include/nsimd/c_adv_api.h: nsimd_' + m.group(1)))
    return out

# ---------------------------------------------------------------- base C++
def cxx_cells(ext):
    out = []
    for cl in base_calls(ext):
        v = cl.vals(); ty = [cl.t + '()'] + ([cl.to + '()'] if cl.to else [])
        w = 'include/nsimd/%s (generated by egg/gen_archis.py): nsimd::%s' % (cl.op + '.h', cl.op)
        E = 'nsimd::%s()' % ext.name
        out.append(mk(cl, 'cxx_e', cl.assign('nsimd::%s(%s)' % (cl.op, ', '.join(v + ty + [E]))), where=w))
        out.append(mk(cl, 'cxx', cl.assign('nsimd::%s(%s)' % (cl.op, ', '.join(v + ty))), where='include/nsimd/functions.h (generated by egg/gen_base_apis.py): nsimd::' + cl.op))
        m = ALIGNED_OPS.match(cl.op)
        if m:
            al = 'nsimd::aligned()' if m.group(2) == 'a' else 'nsimd::unaligned()'
            nm = m.group(1)
            w = 'include/nsimd/nsimd.h: nsimd::' + nm
            out.append(mk(cl, 'cxx_align', cl.assign('nsimd::%s(%s)' % (nm, ', '.join(v + ty + [al]))), where=w))
            out.append(mk(cl, 'cxx_align_e', cl.assign('nsimd::%s(%s)' % (nm, ', '.join(v + ty + [E, al]))), where=w))
        if cl.op == 'if_else1':
            for tl in TYPES:
                if SZ[tl] != SZ[cl.t]: continue
                a = list(cl.args); a[0] = ('L', tl, 0, '')
                vv = [cl.val(x) for x in a]
                params = [dict(p) for p in cl.c.params]; params[1] = ext.logp(tl, 'log')
                base = '*(%s *)o = nsimd_if_else1_%s_%s(nsimd_reinterpretl_%s_%s_%s(%s), %s, %s);' % (cl.out, ext.name, cl.t, ext.name, cl.t, tl, vv[0], vv[1], vv[2])
                for ex in ([], [E]):
                    out.append(mk(cl, 'cxx', '*(%s *)o = nsimd::if_else(%s);' % (cl.out, ', '.join(vv + [tl + '()', cl.t + '()'] + ex)), params, base, tag='.if_else%d.%s' % (len(ex), tl), where='include/nsimd/nsimd.h: nsimd::if_else'))
    return out

# ---------------------------------------------------------------- packs
TEMPLATED = ('set1', 'set1l', 'iota', 'mask_for_loop_tail', 'gather_linear', 'cvt', 'upcvt', 'downcvt', 'reinterpret', 'reinterpretl')
COMM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'andb': '&', 'orb': '|', 'xorb': '^'}
CMPS = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}

class PackCall:
    def __init__(s, cl, N):
        s.cl = cl; s.N = N; s.ext = cl.ext
        e = cl.ext
        s.E = 'nsimd::' + e.name
    def pk(s, k, ty, d=1): return 'nsimd::pack%s<%s, %d, %s>' % ('l' if k == 'L' else 'x%d' % d if d > 1 else '', ty, s.N, s.E)
    def val(s, a):
        if a[0] in 'VL': return '*(const %s *)a%d' % (s.pk(a[0], a[1]), a[2])
        return s.cl.val(a)
    def deg(s):
        m = re.match(r'(?:load|store)(\d)', s.cl.op)
        return int(m.group(1)) if m else 1
    def base(s):
        cl, N, e = s.cl, s.N, s.ext
        cf = 'nsimd_%s_%s_%s' % (cl.op, e.name, (cl.to + '_' + cl.t) if cl.to else cl.t)
        ln = e.n(cl.t)
        b = []
        def args(k):
            r = []
            for a in cl.args:
                if a[0] == 'V': r.append('((const %s *)a%d)[%d]' % (e.vt(a[1]), a[2], k))
                elif a[0] == 'L': r.append('((const %s *)a%d)[%d]' % (e.lt(a[1]), a[2], k))
                elif a[0] == 'P':
                    off = k * ln * s.deg()
                    p = cl.val(a)
                    if cl.op in ('gather', 'scatter'): off = 0
                    if cl.op in ('gather_linear', 'scatter_linear') and k: p = '(%s) + %d * (nsimd_nat)*(const int *)a1' % (p, k * ln)
                    elif off: p = '(%s) + %d' % (p, off)
                    r.append(p)
                else: r.append(cl.val(a))
            if cl.op == 'mask_for_loop_tail' and k: r[0] = '%s + %d' % (r[0], k * ln)
            return r
        calls = ['%s(%s)' % (cf, ', '.join(args(k))) for k in range(N)]
        if cl.op == 'iota':
            def sc(k): return 'nsimd_f32_to_f16(%d.0f)' % (k * ln) if cl.t == 'f16' else '(%s)%d' % (cl.t, k * ln)
            calls = ['nsimd_add_%s_%s(%s, nsimd_set1_%s_%s(%s))' % (e.name, cl.t, calls[k], e.name, cl.t, sc(k)) if k else calls[k] for k in range(N)]
        if not cl.out: return [' '.join(c + ';' for c in calls)]
        if cl.rk in ('V', 'L') and cl.deg == 1: return [' '.join('((%s *)o)[%d] = %s;' % (cl.out, k, c) for k, c in enumerate(calls))]
        if cl.rk == 'V': return [' '.join('{ %s r = %s; %s }' % (cl.out, c, ' '.join('((%s *)o)[%d] = r.v%d;' % (e.vt(cl.rt), N * j + k, j) for j in range(cl.deg))) for k, c in enumerate(calls))]
        if cl.op == 'all': return ['*(int *)o = ' + ' & '.join('(%s != 0)' % c for c in calls) + ';']
        if cl.op == 'any': return ['*(int *)o = ' + ' | '.join('(%s != 0)' % c for c in calls) + ';']
        if cl.op == 'nbtrue': return ['*(int *)o = ' + ' + '.join(calls) + ';']
        if cl.op == 'len': return ['*(int *)o = %d * %s;' % (N, calls[0])]
        if cl.op == 'addv':
            # the order of the summation is not documented: both folds, and the sum of the registers first
            h = cl.t == 'f16'
            def add(x, y): return 'nsimd_f32_to_f16(nsimd_f16_to_f32(%s) + nsimd_f16_to_f32(%s))' % (x, y) if h else '(%s + %s)' % (x, y)
            def fold(l, f):
                r = l[0]
                for x in l[1:]: r = f(r, x)
                return r
            def vadd(x, y): return 'nsimd_add_%s_%s(%s, %s)' % (e.name, cl.t, x, y)
            vs = [args(k)[0] for k in range(N)]
            rs = [fold(calls[::-1], lambda x, y: add(y, x)), fold(calls, add)]
            if N > 1: rs += ['%s(%s)' % (cf, fold(vs[::-1], lambda x, y: vadd(y, x))), '%s(%s)' % (cf, fold(vs, vadd))]
            if h and N > 1:
                f = ['nsimd_f16_to_f32(%s)' % c for c in calls]
                rs += ['nsimd_f32_to_f16(%s)' % fold(f[::-1], lambda x, y: '(%s + %s)' % (y, x)), 'nsimd_f32_to_f16(%s)' % ' + '.join(f)]
            return ['*(%s *)o = %s;' % (cl.out, r) for r in (rs if N > 1 else rs[:1])]
        raise ValueError(cl.op)
    def params(s):
        r = []
        for p in s.cl.c.params:
            p = dict(p)
            if p['k'] in ('vec', 'log', 'outlog') or (p['k'] == 'out' and s.cl.rk == 'V'):
                if not (p['k'] == 'vec' and p['n'] == 1): p['n'] *= s.N
            r.append(p)
        return r
    def cell(s, layer, src, tag='', where='', base=None, params=None):
        return mk(s.cl, layer, src, params or s.params(), base or s.base(), tag, n=s.N * s.cl.c.n, where=where)
    def assign(s, call):
        cl = s.cl
        if not cl.out: return call + ';'
        if cl.rk in ('V', 'L'): return '*(%s *)o = %s;' % (s.pk(cl.rk, cl.rt, cl.deg), call)
        return '*(%s *)o = %s%s;' % (cl.out, call, cl.suf)

def pack_cells(ext, N, full=True):
    out = []
    for cl in base_calls(ext):
        p = PackCall(cl, N); v = [p.val(a) for a in cl.args]
        lay = 'pack%d' % N
        w = 'include/nsimd/cxx_adv_api_functions.hpp (generated by egg/gen_adv_cxx_api.py): nsimd::%s on pack<%s, %d>' % (cl.op, cl.t, N)
        tpl = cl.op in TEMPLATED or (cl.op.startswith('load') and cl.rk)
        R = p.pk(cl.rk, cl.rt, cl.deg) if cl.rk in ('V', 'L') else ''
        if cl.op == 'len': call = 'nsimd::len(%s())' % p.pk('V', cl.t)
        else: call = 'nsimd::%s%s(%s)' % (cl.op, '<%s >' % R if tpl else '', ', '.join(v))
        out.append(p.cell(lay, p.assign(call), where=w))
        wh = 'include/nsimd/cxx_adv_api.hpp: '
        if cl.op == 'len':
            for d in (1, 2, 3, 4):
                for k in ('V', 'L'):
                    if k == 'L' and d > 1: continue
                    ty = p.pk(k, cl.t, d)
                    out.append(p.cell(lay, '*(int *)o = nsimd::len<%s >();' % ty, tag='.%s%d' % (k, d), where=wh + 'nsimd::len<>', base='*(int *)o = %d;' % (d * N * ext.n(cl.t))))
        m = ALIGNED_OPS.match(cl.op)
        if m:
            al = 'nsimd::aligned' if m.group(2) == 'a' else 'nsimd::unaligned'
            ta = '<%s, %s >' % (R, al) if cl.rk else '<%s >' % al
            out.append(p.cell(lay, p.assign('nsimd::%s%s(%s)' % (m.group(1), ta, ', '.join(v))), tag='.tpl', where=wh + 'nsimd::' + m.group(1)))
        m = re.match(r'(mask_store|masko_load|maskz_load)([ua])1', cl.op)
        if m:
            al = 'nsimd::aligned' if m.group(2) == 'a' else 'nsimd::unaligned'
            out.append(p.cell(lay, p.assign('nsimd::%s<%s >(%s)' % (m.group(1), al, ', '.join(v))), tag='.tpl', where=wh + 'nsimd::' + m.group(1)))
            for tl in TYPES:
                if SZ[tl] != SZ[cl.t]: continue
                vv = ['*(const %s *)a0' % p.pk('L', tl)] + v[1:]
                pr = p.params(); i = 1 if cl.out else 0; pr[i] = dict(ext.logp(tl, 'log'), n=pr[i]['n'])
                b = p.base()[0].replace('((const %s *)a0)' % ext.lt(cl.t), '((const %s *)a0)' % ext.lt(tl))
                b = re.sub(r'\(\(const %s \*\)a0\)\[\d\]' % ext.lt(tl), lambda mm: 'nsimd_reinterpretl_%s_%s_%s(%s)' % (ext.name, cl.t, tl, mm.group(0)), b)
                out.append(p.cell(lay, p.assign('nsimd::%s%s(%s)' % (m.group(1), m.group(2), ', '.join(vv))), tag='.any.' + tl, where=wh + 'nsimd::' + m.group(1) + m.group(2), base=b, params=pr))
        if cl.op == 'if_else1':
            for tl in TYPES:
                if SZ[tl] != SZ[cl.t]: continue
                vv = ['*(const %s *)a0' % p.pk('L', tl)] + v[1:]
                pr = p.params(); pr[1] = dict(ext.logp(tl, 'log'), n=pr[1]['n'])
                b = p.base()[0]
                b = re.sub(r'\(\(const %s \*\)a0\)\[(\d)\]' % ext.lt(cl.t), lambda mm: 'nsimd_reinterpretl_%s_%s_%s(((const %s *)a0)[%s])' % (ext.name, cl.t, tl, ext.lt(tl), mm.group(1)), b)
                out.append(p.cell(lay, p.assign('nsimd::if_else(%s)' % ', '.join(vv)), tag='.if_else.' + tl, where=wh + 'nsimd::if_else', base=b, params=pr))
    return out

def operator_cells(ext, N):
    """operators, compound assignments and mixed vector/scalar forms on packs"""
    out = []
    wh = 'include/nsimd/cxx_adv_api.hpp: '
    wf = 'egg/gen_adv_cxx_api.py / egg/gen_friendly_but_not_optimized.py: '
    lay = 'oper%d' % N
    for cl in base_calls(ext):
        p = PackCall(cl, N); v = [p.val(a) for a in cl.args]
        P = p.pk('V', cl.t); PL = p.pk('L', cl.t); O = 'o'
        base = p.base()[0]
        def sc_base(i):  # argument i is one scalar, broadcast
            def f(m): return 'nsimd_set1_%s_%s(*(const %s *)a%d)' % (ext.name, cl.t, cl.t, i)
            return re.sub(r'\(\(const %s \*\)a%d\)\[\d\]' % (ext.vt(cl.t), i), f, base)
        def sc_params(i):
            pr = p.params(); pr[1 + i] = {'k': 'vec', 'n': 1, 'w': SZ[cl.t] * 8}; return pr
        if cl.op in COMM or cl.op in CMPS:
            o = (COMM.get(cl.op) or CMPS.get(cl.op))
            RT = P if cl.op in COMM else PL
            out.append(p.cell(lay, '*(%s *)o = %s %s %s;' % (RT, v[0], o, v[1]), tag='.op', where=wf + 'operator' + o))
            S = '*(const %s *)a%d'
            out.append(p.cell(lay, '*(%s *)o = %s %s %s;' % (RT, v[0], o, S % (cl.t, 1)), tag='.vs', where=wf + 'operator%s(pack, scalar)' % o, base=sc_base(1), params=sc_params(1)))
            out.append(p.cell(lay, '*(%s *)o = %s %s %s;' % (RT, S % (cl.t, 0), o, v[1]), tag='.sv', where=wf + 'operator%s(scalar, pack)' % o, base=sc_base(0), params=sc_params(0)))
        if cl.op in COMM:
            out.append(p.cell(lay, '%s x = %s; x %s= %s; *(%s *)o = x;' % (P, v[0], COMM[cl.op], v[1], P), tag='.assign', where=wh + 'pack::operator%s=' % COMM[cl.op]))
            out.append(p.cell(lay, '%s x = %s; %s y = (x %s= %s); *(%s *)o = y;' % (P, v[0], P, COMM[cl.op], v[1], P), tag='.assignr', where=wh + 'pack::operator%s=' % COMM[cl.op]))
        if cl.op in ('shl', 'shr'):
            o = '<<' if cl.op == 'shl' else '>>'
            out.append(p.cell(lay, '*(%s *)o = %s %s %s;' % (P, v[0], o, v[1]), tag='.op', where=wf + 'operator' + o))
            out.append(p.cell(lay, '%s x = %s; x %s= %s; *(%s *)o = x;' % (P, v[0], o, v[1], P), tag='.assign', where=wh + 'pack::operator%s=' % o))
        if cl.op in ('andl', 'orl'):
            o = '&&' if cl.op == 'andl' else '||'
            out.append(p.cell(lay, '*(%s *)o = %s %s %s;' % (PL, v[0], o, v[1]), tag='.op', where=wf + 'operator' + o))
            def bparams(i):
                pr = p.params(); pr[1 + i] = {'k': 'int', 'w': 32, 'low': 1}; return pr
            def bbase(i): return re.sub(r'\*\(const %s \*\)a%d|\(\(const %s \*\)a%d\)\[\d\]' % (ext.lt(cl.t), i, ext.lt(cl.t), i), 'nsimd_set1l_%s_%s(*(const int *)a%d)' % (ext.name, cl.t, i), base)
            out.append(p.cell(lay, '*(%s *)o = %s %s bool(*(const int *)a1);' % (PL, v[0], o), tag='.vs', where=wf + 'operator%s(packl, scalar)' % o, base=bbase(1), params=bparams(1)))
            out.append(p.cell(lay, '*(%s *)o = bool(*(const int *)a0) %s %s;' % (PL, o, v[1]), tag='.sv', where=wf + 'operator%s(scalar, packl)' % o, base=bbase(0), params=bparams(0)))
        if cl.op in ('neg', 'notb'):
            o = '-' if cl.op == 'neg' else '~'
            out.append(p.cell(lay, '*(%s *)o = %s%s;' % (P, o, v[0]), tag='.op', where=wf + 'operator' + o))
        if cl.op == 'notl': out.append(p.cell(lay, '*(%s *)o = !%s;' % (PL, v[0].join('()')), tag='.op', where=wf + 'operator!'))
        if cl.op == 'set1':
            out.append(p.cell(lay, '*(%s *)o = %s(*(const %s *)a0);' % (P, P, cl.t), tag='.ctor', where=wh + 'pack(S const &)'))
        if cl.op == 'set1l':
            out.append(p.cell(lay, '*(%s *)o = %s(bool(*(const int *)a0));' % (PL, PL), tag='.ctor', where=wh + 'packl(S const &)', params=[p.params()[0], {'k': 'int', 'w': 32, 'low': 1}]))
    # SOA helpers
    for t in TYPES:
        base0 = [c for c in cells_for_cached(ext) if c.op == 'loadu' and c.typ == t][0]
        cl = Call(base0); n = ext.n(t); V = ext.vt(t)
        for d in (2, 3, 4):
            p = PackCall(cl, N)
            PX = 'nsimd::packx%d<%s, %d, nsimd::%s>' % (d, t, N, ext.name)
            PT = 'nsimd::pack<%s, %d, nsimd::%s>' % (t, N * d, ext.name)
            pr = [ext.vout(t, N * d), ext.vec(t, N * d)]
            c = mk(cl, lay, '*(%s *)o = nsimd::to_pack(*(const %s *)a0);' % (PT, PX), pr, ' '.join('((%s *)o)[%d] = ((const %s *)a0)[%d];' % (V, k, V, k) for k in range(N * d)), '.to_pack%d' % d, n=N * d * n, where=wh + 'nsimd::to_pack')
            out.append(c)
            c = mk(cl, lay, '*(%s *)o = nsimd::to_pack_interleave(*(const %s *)a0);' % (PT, PX), pr, ' '.join('((%s *)o)[%d] = ((const %s *)a0)[%d];' % (V, k * d + j, V, j * N + k) for k in range(N) for j in range(d)), '.to_pack_interleave%d' % d, n=N * d * n, where=wh + 'nsimd::to_pack_interleave')
            out.append(c)
            for j in range(d):
                PN = 'nsimd::pack<%s, %d, nsimd::%s>' % (t, N, ext.name)
                c = mk(cl, lay, '*(%s *)o = nsimd::get_pack<%d>(*(const %s *)a0);' % (PN, j, PX), [ext.vout(t, N), ext.vec(t, N * d)], ' '.join('((%s *)o)[%d] = ((const %s *)a0)[%d];' % (V, k, V, j * N + k) for k in range(N)), '.get_pack%d.%d' % (d, j), n=N * n, where=wh + 'nsimd::get_pack')
                out.append(c)
    return out
_cc = {}
def cells_for_cached(ext):
    if ext.name not in _cc: _cc[ext.name] = cells_for(ext)
    return _cc[ext.name]

def judge(prop, r):
    if r.get('nocompile'): return 'bad'
    if 'bad' in (r['out'] if 'out' in r else '', r.get('mem', ''), r.get('foot', ''), r.get('align', '')): return 'bad'
    if r.get('undec'): return 'undec'
    return 'ok'

EXPL = ('One obligation per call form of an API layer: the call written as a user of the layer writes it, and the same operation written '
        'with the C functions (for a pack, one call per sub-vector), are compiled to LLVM IR in one translation unit and compared: first '
        'structurally (identical code discharges the obligation), otherwise by abstract interpretation of both over the canonical bit-level '
        'domain, including the memory they touch and the alignment they assume. A documented call that does not compile is a violation. '
        'Different abstract values count as a violation only when constant folding separates them.')

def go(rep, tree, work, jobs):
    import concurrent.futures as cf
    for tag, cells, kw in jobs:
        sub = os.path.join(work, tag); os.makedirs(sub, exist_ok=True)
        res = run.run_cells(cells, tree, sub, **kw)
        vp.report_cells(rep, tree, sub, cells, res, judge=judge, **kw)

C11PRE = '#include <nsimd/nsimd.h>\n#include <nsimd/c_adv_api.h>\n'
CXXPRE = '#include <nsimd/nsimd.h>\n#include <nsimd/cxx_adv_api.hpp>\n'
FBNO = CXXPRE + '#include <nsimd/friendly_but_not_optimized.hpp>\n'

def check_c15(rep, tree, work):
    exts = pick(rep, NATIVE + ['aarch64', 'vsx'])
    jobs = []
    cs, c11, cx, op = [], [], [], []
    for n in exts:
        e = EXTS[n]; cs += c_cells(e); c11 += c11_cells(e); cx += cxx_cells(e); op += operator_cells(e, 1)
    jobs = [('c', cs, dict(lang='c', chunk=800)), ('c11', c11, dict(lang='c', std='-std=gnu11', prelude=C11PRE, chunk=400)),
            ('cxx', cx, dict(lang='c++', std='-std=gnu++98', chunk=800)), ('op', op, dict(lang='c++', std='-std=gnu++11', prelude=FBNO, chunk=400))]
    go(rep, tree, work, jobs)

def check_c14(rep, tree, work):
    exts = pick(rep, ['cpu', 'sse42', 'avx2', 'avx512_skylake'])
    jobs = []
    for N in ((1, 2, 3) if rep.tier == 'quick' else (1, 2, 3, 4, 5)):
        cs = []
        for n in exts: cs += pack_cells(EXTS[n], N) + (operator_cells(EXTS[n], N) if N > 1 else [])
        jobs.append(('p%d' % N, cs, dict(lang='c++', std='-std=gnu++11', prelude=FBNO, chunk=300)))
    # packs of an extension that is not the one selected for the compilation
    cs = []
    for n, b in (('sse42', 'avx2'),) if rep.tier == 'quick' else (('sse42', 'avx2'), ('cpu', 'sse42'), ('avx2', 'avx512_skylake')):
        x = copy.copy(EXTS[n]); x.flags = EXTS[b].flags
        for N in (1, 2): cs += pack_cells(x, N) + operator_cells(x, N)
    for c in cs: c.id = 'x' + c.id; c.group = 'x' + c.group
    jobs.append(('x', cs, dict(lang='c++', std='-std=gnu++11', prelude=FBNO, chunk=300)))
    go(rep, tree, work, jobs)
