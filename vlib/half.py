# C12: half-precision conversions and classification, on the library's own source (src/fp16.cpp) and nsimd.h.
import os
from .exts import *
from .ops import Cell
from . import run, vecprops as vp, stage as st

def A(t): return '*(const %s *)a0' % t
VARIANTS = [('cpu', '-std=gnu++98', 'cxx98'), ('avx2', '-std=gnu++14', 'avx2')]

def cells(ext, v):
    out = []
    def cell(fn, t, rt, ref, w, rw, fp=False, cls=False):
        c = Cell(ext, fn, t, fn, '*(%s *)o = %s(%s)%s;' % (rt, fn, A(t), ' != 0' if cls else ''), [dict({'k': 'out', 'n': 1, 'w': rw}, **({'fp': True} if fp else {})), {'k': 'vec', 'n': 1, 'w': w}], [ref], 1, '', ('C12',))
        c.id = 'half.%s.%s.%s' % (fn.replace('::', '.'), t, v)
        c.where = ('include/nsimd/nsimd.h: ' if cls or 'to<' in fn or 'biggest' in fn else 'src/fp16.cpp: ') + fn
        c.group = 'half-' + v
        c.extra = {'half': False}
        out.append(c)
    for pre in ('nsimd_', 'nsimd::'):
        cell(pre + 'u16_to_f32', 'u16', 'f32', 'ref_cvt_h16_f32', 16, 32, True)
        cell(pre + 'f16_to_f32', 'f16', 'f32', 'ref_cvt_h16_f32', 16, 32, True)
        cell(pre + 'f32_to_u16', 'f32', 'u16', 'ref_cvt_f32_h16', 32, 16, True)
        cell(pre + 'f32_to_f16', 'f32', 'f16', 'ref_cvt_f32_h16', 32, 16, True)
        for t, w, h in (('f16', 16, 'h16'), ('f32', 32, 'f32'), ('f64', 64, 'f64')):
            for f in ('isnan', 'isinf', 'isnormal'):
                cell('%s%s%s' % (pre, f, '_' + t if pre == 'nsimd_' else ''), t, 'int', 'ref_%s_%s' % (f, h), w, 32, cls=True)
    cell('nsimd_to_biggest_f16', 'f16', 'f64', 'ref_cvt_h16_f64', 16, 64, True)
    for t in ITYPES: cell('nsimd_to_biggest_' + t, t, t[0] + '64', 'ref_cvt_%s_%s64' % (t, t[0]), SZ[t] * 8, 64)
    cell('nsimd_to_biggest_f32', 'f32', 'f64', 'ref_cvt_f32_f64', 32, 64, True)
    for t in TYPES:
        h = 'h16' if t == 'f16' else t
        if t != 'f16': cell('nsimd::to<%s>' % t, 'f16', t, 'ref_cvt_h16_' + h, 16, SZ[t] * 8, t in FTYPES)
        if t not in ('f16',): cell('nsimd::to<f16>', t, 'f16', 'ref_toh_' + t, SZ[t] * 8, 16, True)
    return out

def check(rep, tree, work):
    for en, std, v in VARIANTS:
        e = EXTS[en]; cs = cells(e, v)
        sub = os.path.join(work, v); os.makedirs(sub, exist_ok=True)
        lib = run.build_lib(e, tree, sub, 'src/fp16.cpp', std=std)
        kw = dict(lang='c++', std=std, mods=lambda ext: [lib])
        res = run.run_cells(cs, tree, sub, **kw)
        vp.report_cells(rep, tree, sub, cs, res, **kw)
