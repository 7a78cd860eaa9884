# Compiles cells to LLVM IR and runs the analysis engine over them.
import os, json, subprocess, tempfile, concurrent.futures as cf, time
from .exts import *
from . import stage as st, ops

CLANG = 'clang-18'
COMMON = '-fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-math-errno -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks -gline-tables-only'.split()

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout

def target_flags(ext):
    f = ['--target=' + ext.triple] + ext.flags
    if ext.family != 'x86' and ext.family != 'cpu':
        from . import libmodel
        f = f + libmodel.CROSS
    return f

def build_spec(ext, work):
    X = 'x86_64-unknown-linux-gnu'   # 64-bit little-endian targets share one reference module
    triple = ext.triple if ext.family == 'arm' else X
    key = triple.split('-')[0]
    o = os.path.join(work, 'spec_%s.bc' % key)
    if os.path.exists(o): return o
    f = ['--target=' + triple]
    if not key.startswith('armv7') : f.append('-DHAVE_F16')
    rc, out = sh([CLANG] + f + '-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-math-errno -fwrapv -fno-strict-aliasing -w -emit-llvm -c'.split() + [os.path.join(st.VERIF, 'spec', 'spec.c'), '-o', o + '.tmp'])
    if rc: raise st.CheckError('reference compilation failed:\n' + out[-2000:])
    os.rename(o + '.tmp', o)
    return o

def cell_json(c, k):
    d = {'id': c.id, 'fn': 'cell_%d' % k, 'n': c.n, 'params': c.params, 'refs': c.refs, 'vscale': getattr(c.ext, 'vscale', 1), 'ext': c.ext.name}
    if c.mode: d['mode'] = c.mode
    if getattr(c, 'base', None): d['base'] = True; d['refs'] = ['refcell_%d_%d' % (k, j) for j in range(len(ops.bases(c)))]
    d.update(getattr(c, 'extra', {}))
    return d

def run_chunk(ext, cells, tree, work, engine, tag, spec, timeout, prelude='', lang='c', std=None, extra=()):
    """compile one chunk of cells and analyse it; returns {id: result}; cells that do not compile are reported as such"""
    src = os.path.join(work, tag + ('.c' if lang == 'c' else '.cpp'))
    bc = os.path.join(work, tag + '.bc')
    todo = list(enumerate(cells))
    res = {}
    for attempt in range(6):
        lines = {}
        with open(src, 'w') as f:
            text = (prelude if prelude.startswith('#include') else '#include <nsimd/nsimd.h>\n' + prelude)
            n = text.count('\n')
            f.write(text)
            tops = set()
            for k, c in todo:
                if c.wrap is not None: continue
                w = ops.wrapper(c, k)
                if lang != 'c': w = 'extern "C" { ' + w[:-1] + ' }\n'
                t = getattr(c, 'top', '')
                if t and t not in tops: tops.add(t); w = t + ' ' + w
                n += 1
                lines[n] = k
                assert w.count('\n') == 1
                f.write(w)
        cmd = [CLANG if lang == 'c' else 'clang++-18'] + target_flags(ext) + (['-U__clang__'] if lang == 'c' else ['-include', os.path.join(st.VERIF, 'spec', 'pre.hpp')]) + ['-O1', '-w', '-I' + os.path.join(tree, 'include'), '-emit-llvm', '-c', src, '-o', bc, '-ferror-limit=0'] + COMMON + ([std] if std else []) + list(extra)
        rc, out = sh(cmd)
        if rc == 0: break
        bad = {}
        cur = None
        import re
        pend = None
        for l in out.split('\n'):
            m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?(error|note): (.*)', l)
            if not m: continue
            if m.group(3) == 'error': pend = m.group(4)
            if m.group(1) == src and int(m.group(2)) in lines:
                bad.setdefault(lines[int(m.group(2))], pend if pend else m.group(4)); pend = None if m.group(3) == 'error' else pend
        if not bad or attempt == 5: raise st.CheckError('cells of %s do not compile:\n%s' % (ext.name, out[:3000]))
        drop = set(bad)
        for k, c in todo:
            if k in drop or (c.wrap is not None and cells.index(c.wrap) in drop):
                res[c.id] = {'id': c.id, 'nocompile': bad.get(k, 'shared wrapper'), 'undec': True, 'why': 'does not compile: ' + str(bad.get(k, ''))}
        todo = [(k, c) for k, c in todo if c.id not in res]
        if not todo: return res
    js = os.path.join(work, tag + '.jsonl')
    idx = {id(c): k for k, c in enumerate(cells)}
    with open(js, 'w') as f:
        for k, c in todo:
            kk = idx[id(c.wrap)] if c.wrap is not None else k
            f.write(json.dumps(cell_json(c, kk)) + '\n')
    cmd = [engine, js, bc] + ([spec] if isinstance(spec, str) else list(spec))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        out, rc, errtxt = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or ''); rc = -9; errtxt = 'timeout'
    for l in out.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        res[d['id']] = d
    if rc not in (0, -9): raise st.CheckError('engine failed (%d) on %s: %s' % (rc, tag, errtxt[-1000:]))
    for k, c in todo:
        if c.id not in res: res[c.id] = {'id': c.id, 'undec': True, 'why': 'time limit'}
    for f in (src, bc, js):
        if os.path.exists(f) and not os.environ.get('NSIMD_KEEP'): os.remove(f)
    return res

def build_lib(ext, tree, work, src, lang='c++', std=None, extra=(), tag=''):
    """IR of one of the library's own source files for an extension"""
    o = os.path.join(work, 'lib_%s_%s%s.bc' % (ext.key, os.path.basename(src).replace('.', '_'), tag))
    if os.path.exists(o): return o
    cmd = ['clang++-18' if lang == 'c++' else CLANG] + target_flags(ext) + (['-U__clang__'] if lang == 'c' else ['-include', os.path.join(st.VERIF, 'spec', 'pre.hpp')]) + ['-O1', '-w', '-I' + os.path.join(tree, 'include'), '-I' + os.path.join(tree, 'src'), '-emit-llvm', '-c', os.path.join(tree, src), '-o', o] + COMMON + ([std] if std else []) + list(extra)
    rc, out = sh(cmd)
    if rc: raise st.CheckError('%s does not compile for %s:\n%s' % (src, ext.name, out[:2000]))
    return o

def run_cells(cells, tree, work, chunk=250, timeout=600, mods=None, **kw):
    """cells: list over several extensions"""
    engine = st.engine()
    by = {}
    for c in cells: by.setdefault(c.ext.key, []).append(c)
    jobs = []
    for name, cs in by.items():
        ext = EXTS[name]
        spec = build_spec(ext, work)
        # interleave so that costly cells spread over the chunks, but keep shared wrappers together
        groups = []; seen = {}
        for c in cs:
            if c.wrap is None: seen[id(c)] = [c]; groups.append(seen[id(c)])
            else: seen[id(c.wrap)].append(c)
        nch = max(1, -(-len(groups) // chunk))
        for i in range(nch):
            sub = [c for g in groups[i::nch] for c in g]
            jobs.append((ext, sub, '%s_%d' % (name, i), [spec] + (mods(ext) if mods else [])))
    res = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = [ex.submit(run_chunk, e, s, tree, work, engine, t, sp, timeout, **kw) for e, s, t, sp in jobs]
        for f in futs: res.update(f.result())
    return res
