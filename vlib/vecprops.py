# Properties decided cell by cell on the C operators: one cell = operator x element type x SIMD extension.
import os, re
from . import exts, ops, run, stage as st

_cache = {}
def locate(tree, ext, op, fn):
    d = {'cpu': 'include/nsimd/cpu/cpu', 'x86': 'include/nsimd/x86/' + ext.name, 'arm': 'include/nsimd/arm/' + ext.name, 'ppc': 'include/nsimd/ppc/' + ext.name}[ext.family]
    p = os.path.join(d, op + '.h')
    k = (tree, p)
    if k not in _cache:
        try: _cache[k] = open(os.path.join(tree, p)).read().split('\n')
        except OSError: _cache[k] = []
    pat = re.compile(r'\b%s\(' % re.escape(fn))
    L = _cache[k]
    for i, l in enumerate(L):
        if pat.search(l) and (i == 0 or 'NSIMD_INLINE' in L[i - 1] or 'NSIMD_INLINE' in l):
            body = []
            for b in L[max(0, i - 1): i + 60]:
                body.append(b.strip())
                if b.rstrip() == '               }': break
            return '%s:%d (generated by egg/platform_%s.py): %s' % (p, i + 1, ext.family, fn), '\n'.join(body)
    return '%s: %s' % (p, fn), ''

def judge(prop, r):
    if prop == 'C01': f = ('align',)
    elif prop == 'C02': f = ('foot',)
    elif prop == 'C03': f = ('out', 'mem')
    else: f = ('out', 'mem')
    v = [r[x] for x in f if x in r]
    if 'bad' in v: return 'bad'
    if r.get('undec'): return 'undec'
    if all(x == '-' for x in v) : return 'undec'
    return 'ok'

EXPL = ('One obligation per C operator, element type and SIMD extension: the generated implementation (regenerated from the '
        'working tree by egg/hatch.py and compiled to LLVM IR for the target of the extension) is abstractly interpreted over a '
        'canonical bit-level value domain in which every input bit is symbolic, joining at every merge point, and its abstract result, '
        'stores, touched offsets and assumed alignments are compared with those of the documented meaning of the operator '
        '(spec/spec.c). Equal canonical values discharge the obligation for all inputs. Different values count as a violation only '
        'when folding both terms on some input gives different constants; otherwise the obligation is reported undecided.')

def run_prop(rep, tree, work, names, cells=None):
    prop = rep.prop
    allc = []
    for n in names:
        ext = exts.EXTS[n]
        cs = [c for c in ops.cells_for(ext) if prop in c.props_] if cells is None else cells(ext)
        allc += cs
    for c in allc:
        if c.wrap is not None and c.wrap not in allc: c.wrap = None
    res = run.run_cells(allc, tree, work)
    return report_cells(rep, tree, work, allc, res)

def report_cells(rep, tree, work, allc, res, judge=judge, **kw):
    redo = []
    for c in allc:
        r = res[c.id]; s = judge(rep.prop, r)
        where, body = locate(tree, c.ext, c.op, c.cfun) if not getattr(c, 'where', None) else (c.where, '')
        why = r.get('why', '')
        if s == 'bad':
            d = r.get('detail') or {}
            if rep.prop == 'C01': why = d.get('align', why)
            elif rep.prop == 'C02': why = d.get('foot', why)
            k = rep.known_for(c.id)
            if k and k.get('observed'): redo.append((c, k, where, why, body)); continue
            if k and k.get('why') and k['why'] in why: s = 'known'; why = k['what']
        rep.add(c.id, s, where, why, group=getattr(c, 'group', None) or c.ext.key, extra=body if s == 'bad' else None)
    if redo:
        # a listed finding must still behave exactly as recorded
        old = {}
        for c, k, *_ in redo: old[c.id] = c.refs; c.refs = k['observed']; c.wrap = None
        res2 = run.run_cells([x[0] for x in redo], tree, work, **kw)
        for c, k, where, why, body in redo:
            s2 = judge(rep.prop, res2[c.id])
            if s2 == 'ok': rep.add(c.id, 'known', where, k['what'], group=getattr(c, 'group', None) or c.ext.key)
            else: rep.add(c.id, 'bad', where, why + ' (and not the recorded finding either)', group=getattr(c, 'group', None) or c.ext.key, extra=body)
            c.refs = old[c.id]
