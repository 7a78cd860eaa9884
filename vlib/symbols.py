# C23: every declared operation exists, compiles, returns and never ends the process. Decided on the type-checked program and the symbol
# tables of the compiled (never executed) objects, for every extension and for both descriptions of the build.
import os, re, collections, subprocess, concurrent.futures as cf
from . import libmodel as lm, run, ops, layers as L, stage as st
from .exts import *

EXPL = ('(lib) for each extension and each of the two build descriptions (build.nsconfig, CMakeLists.txt): every object of the library resolves to a source, '
        'compiles, every function the headers declare without a body is defined by some object, and every symbol the objects leave undefined is defined by another one or by the C/C++ runtime; '
        '(header) no header defines a function or object that clashes when included in two translation units; '
        '(stop) no function body ends the process or throws, except the documented *_or_exit functions, what only they call, std::bad_alloc of the allocator and the asserted preconditions of tet1d; '
        '(op) every documented call of every operation, C, C11, C++98 and packs, type-checks for every extension with a return on every path; '
        '(std) the umbrella headers are accepted by every language standard they claim. Bounds: none over inputs; the extensions whose vectors have no size at compile time (sve) are compiled but not analysed for calls through references of memory.')

CSTD = ['c89', 'c99', 'c11', 'c17']; CXXSTD = ['c++98', 'c++11', 'c++14', 'c++17', 'c++20']

def runtime():
    """symbols the C and C++ runtime provide"""
    s = set()
    for l in ('libc.so.6', 'libm.so.6', 'libstdc++.so.6', 'libgcc_s.so.1'):
        for d in ('/lib/x86_64-linux-gnu', '/usr/lib/x86_64-linux-gnu'):
            p = os.path.join(d, l)
            if os.path.exists(p):
                for x in subprocess.run(['nm', '-D', '--defined-only', p], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
                    if x: s.add(x.split()[-1].split('@')[0])
                break
    return s

def libs(rep, tree, work, F):
    objs = {}; jobs = {}
    def cm(n): return n, lm.cmake(tree, EXTS[n], work)
    with cf.ThreadPoolExecutor(8) as ex: C = dict(ex.map(cm, lm.ALL))
    for n in lm.ALL:
        e = EXTS[n]
        objs[n, 'nsconfig'] = lm.nsconfig(tree, e)
        r, err = C[n]
        if r is None: rep.add('cmake.%s' % n, 'bad', 'CMakeLists.txt', 'configuration for %s fails: %s' % (n, err[-300:]), 'cmake')
        objs[n, 'cmake'] = r
    for (n, b), os_ in objs.items():
        if b == 'nsconfig' and os_ is None: rep.add('nsconfig.%s' % n, 'bad', 'build.nsconfig', 'no objects listed for the library of %s' % n, 'nsconfig')
        for o, s, fl in os_ or []:
            if s: jobs[EXTS[n].triple, s, tuple(lm.clean(fl))] = EXTS[n]
            else: rep.add('%s.%s.%s' % (b, n, o), 'bad', 'build.nsconfig', 'object %s of the library of %s has no rule' % (o, n), b)
    def one(k): return k, lm.compile_obj(jobs[k], tree, k[1], list(k[2]), work)
    with cf.ThreadPoolExecutor(8) as ex: R = dict(ex.map(one, jobs))
    rt = runtime(); rep.notes['objects compiled'] = len(R)
    said = set(); nsym = 0
    for k, (r, err) in R.items():
        if r is None: rep.add('object.%s' % ':'.join([k[0], os.path.basename(k[1])] + list(k[2])), 'bad', k[1], 'does not compile with %s: %s' % (' '.join(k[2]), ' '.join(err.split())[:300]), 'objects')
        else: rep.add('object.%s' % ':'.join([k[0], os.path.basename(k[1])] + list(k[2])), 'ok', k[1], '', 'objects')
    for n in lm.ALL:
        f = F[('headers', n, os.path.join(lm.SPEC, 'all.cpp'), ('-std=c++14',))][1]
        if f is None: rep.add('declared.%s' % n, 'undec', '', 'the umbrella header does not compile', 'lib'); continue
        need = {}
        for x in f:
            if x['k'] == 'fun' and x['ext'] and not x['defined'] and x['file'].startswith('include/') and x['sym']: need[x['sym']] = x
        for b in ('nsconfig', 'cmake'):
            if not objs[n, b]: continue
            d, u = set(), {}; lost = False
            for o, s, fl in objs[n, b]:
                r = s and R[EXTS[n].triple, s, tuple(lm.clean(fl))][0]
                if not r: lost = True; continue
                d |= r[0]
                for x in r[1]: u.setdefault(x, s)
            if lost: rep.add('lib.%s.%s' % (b, n), 'undec', '', 'an object is missing', b); continue
            miss = sorted(set(need) - d); bad = False
            for x in miss:
                bad = True
                rep.add('lib.%s.%s.%s' % (b, n, x), 'bad', '%s:%d' % (need[x]['file'], need[x]['line']), '%s is declared, but no object of the library of %s built by %s defines it' % (need[x]['name'], n, b), b)
            for x in sorted(u):
                if x in d or x in rt or x.startswith(('__', '.TOC', '_GLOBAL_OFFSET', '_Unwind')): continue
                bad = True
                rep.add('undef.%s.%s.%s' % (b, n, x), 'bad', u[x], 'uses %s, which no object of the library of %s built by %s and no runtime library defines' % (x, n, b), b)
            nsym += len(need)
            if not bad: rep.add('lib.%s.%s' % (b, n), 'ok', '', '%d declared functions defined' % len(need), b)
    rep.notes['declared symbols looked up'] = nsym

def stops(rep, F):
    n = collections.Counter(); seen = set()
    for k, (tu, f, err) in sorted(F.items()):
        if f is None: rep.add('unit.' + tu, 'undec', tu, 'does not compile: ' + ' '.join(err.split())[:200], 'stop'); continue
        callers = collections.defaultdict(set)
        for x in f:
            if x['k'] == 'stopcall': callers[x['callee']].add(x['fn'])
        def fine(fn, seen=()):
            if re.search(r'_or_exit$|allocat', fn.split('<')[0]): return True
            cs = [c for c in callers.get(fn, ()) if c != fn and c not in seen]
            return bool(cs) and all(fine(c, seen + (fn,)) for c in cs)
        bad = 0
        for x in f:
            if x['k'] == 'sum': n['functions'] += x['functions']; n['calls'] += x['calls']
            if x['k'] in ('fun', 'var') and x['strong'] and k[0] == 'headers' and x['file'].startswith('include/'):
                key = (x['file'], x['name'])
                if key in seen: continue
                seen.add(key); bad += 1
                rep.add('strong.%s' % x['name'], 'bad', '%s:%d' % (x['file'], x['line']), '%s is defined by a header without being inline: two translation units that include it cannot be linked' % x['name'], 'header')
            if x['k'] != 'stop': continue
            n['stop constructs'] += 1
            w = x['what']
            if w.startswith('throw') and re.search(r'bad_alloc|bad_array', w): continue
            if w.startswith('__assert') and '/modules/' in x['file']: continue
            if w in ('__builtin_unreachable',): continue
            if fine(x['fn']): continue
            key = (x['file'], x['line'], w)
            if key in seen: continue
            seen.add(key); bad += 1
            rep.add('stop.%s:%d' % (x['file'], x['line']), 'bad', '%s:%d' % (x['file'], x['line']), 'function %s calls %s' % (x['fn'], w) if not w.startswith('throw') else 'function %s throws %s' % (x['fn'], w[6:]), 'stop')
        if not bad: rep.add('unit.' + tu, 'ok', tu, '', 'stop')
    rep.notes['analysed'] = dict(n)

def syntax(ext, tree, work, cells, lang, prelude, std, tag, opts=()):
    lines = {}; n = prelude.count('\n'); s = [prelude]; tops = set()
    for k, c in enumerate(cells):
        if c.wrap is not None: continue
        x = ops.wrapper(c, k)
        if lang != 'c': x = 'extern "C" { ' + x[:-1] + ' }\n'
        t = getattr(c, 'top', '')
        if t and t not in tops: tops.add(t); x = t + ' ' + x
        n += 1; lines[n] = c; s.append(x)
    f = os.path.join(work, 'syn_%s_%s.%s' % (ext.name, tag, 'c' if lang == 'c' else 'cpp'))
    with open(f, 'w') as h: h.write(''.join(s))
    rc, out = run.sh([('clang-18' if lang == 'c' else 'clang++-18')] + lm.flags(ext) + ['-std=' + std, '-w', '-Wno-everything', '-Werror=return-type', '-ferror-limit=0', '-fsyntax-only', '-I' + os.path.join(tree, 'include')] + (['-include', os.path.join(st.VERIF, 'spec', 'pre.hpp')] if lang != 'c' else ['-U__clang__']) + list(opts) + [f])
    bad = {}; cur = None
    # an error inside a header belongs to the call that needed it
    for l in out.splitlines():
        m = re.match(r'^(\S+?):(\d+):\d+: (?:fatal )?(error|note): (.*)$', l)
        if not m: continue
        if m.group(3) == 'error': cur = [m.group(4), '%s:%s' % (os.path.relpath(m.group(1), tree), m.group(2)), None]; bad.setdefault(len(bad), cur)
        if cur is not None and m.group(1) == f and cur[2] is None: cur[2] = lines.get(int(m.group(2)))
    return ext, tag, len(lines), rc, list(bad.values()), out

def op_calls(rep, tree, work):
    jobs = []
    for n in lm.ALL:
        e = EXTS[n]
        jobs += [(e, ops.cells_for(e), 'c', '#include <nsimd/nsimd.h>\n', 'gnu99', 'c'), (e, L.c11_cells(e), 'c', L.C11PRE, 'gnu11', 'c11'), (e, L.cxx_cells(e), 'c++', '#include <nsimd/nsimd.h>\n', 'gnu++98', 'cxx')]
        for N in (1, 2) if rep.tier == 'quick' else (1, 2, 3, 4): jobs.append((e, L.pack_cells(e, N) + L.operator_cells(e, N), 'c++', L.FBNO, 'gnu++11', 'pack%d' % N))
    with cf.ThreadPoolExecutor(8) as ex:
        for e, tag, n, rc, bad, out in ex.map(lambda j: syntax(j[0], tree, work, *j[1:]), jobs):
            rep.notes['calls type-checked'] = rep.notes.get('calls type-checked', 0) + n
            if rc and not bad: rep.add('call.%s.%s' % (e.name, tag), 'undec', '', 'compiler failed: ' + out[-200:], 'op.' + tag); continue
            for msg, where, c in bad:
                rep.add('call.%s.%s.%s' % (e.name, tag, c.id if c is not None else where), 'bad', where, '%s%s' % (('the call "%s" does not compile: ' % c.src.strip()[:120]) if c is not None else '', msg), 'op.' + tag)
            if not bad: rep.add('call.%s.%s' % (e.name, tag), 'ok', '', '%d calls' % n, 'op.' + tag)

def stds(rep, tree, work):
    jobs = []
    for n in lm.ALL:
        for s in CSTD: jobs.append((n, 'gnu89' if s == 'c89' and EXTS[n].family == 'ppc' else s, 'c'))
        for s in CXXSTD: jobs.append((n, s, 'c++'))
    src = {'c': '#include <nsimd/nsimd-all.h>\n', 'c++': '#include <nsimd/nsimd-all.hpp>\n#include <nsimd/friendly_but_not_optimized.hpp>\n#include <nsimd/modules/memory_management.hpp>\n#include <nsimd/modules/random/functions.hpp>\n'}
    more = '#include <nsimd/modules/fixed_point.hpp>\n#include <nsimd/modules/tet1d.hpp>\n#include <nsimd/modules/spmd.hpp>\n'
    def one(j):
        n, s, lang = j
        f = os.path.join(work, 'std_%s_%s.%s' % (n, s.replace('+', 'x'), 'c' if lang == 'c' else 'cpp'))
        open(f, 'w').write(src[lang] + (more if lang != 'c' and s != 'c++98' else ''))
        return j, run.sh([('clang-18' if lang == 'c' else 'clang++-18')] + lm.flags(EXTS[n]) + ['-std=' + s, '-w', '-Wno-everything', '-Werror=return-type', '-fsyntax-only', '-I' + os.path.join(tree, 'include')] + (['-include', os.path.join(st.VERIF, 'spec', 'pre.hpp')] if lang != 'c' else ['-U__clang__']) + [f])
    with cf.ThreadPoolExecutor(8) as ex:
        for (n, s, lang), (rc, out) in ex.map(one, jobs):
            m = re.search(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', out, re.M)
            if rc and not m: rep.add('std.%s.%s' % (n, s), 'undec', '', out[-200:], 'std')
            elif rc: rep.add('std.%s.%s' % (n, s), 'bad', '%s:%s' % (os.path.relpath(m.group(1), tree), m.group(2)), 'headers of %s are rejected in %s: %s' % (n, s, m.group(3)), 'std')
            else: rep.add('std.%s.%s' % (n, s), 'ok', '', '', 'std')

def check(rep, tree, work):
    F = lm.facts(tree, rep)
    stops(rep, F)
    rep.add('header.count', 'ok', '', 'all headers', 'header')
    libs(rep, tree, work, F)
    op_calls(rep, tree, work)
    stds(rep, tree, work)
