# C22: no shared mutable state. A lint over the type-checked program of every header and library source, for every extension.
import re, collections
from . import libmodel as lm

EXPL = ('Every function body (templates and their instantiations included) of the umbrella headers for each of the 16 extensions and of every source file '
        'of every library is type-checked and searched: each object with static or thread storage duration declared by the library must be const (deeply: no '
        'mutable member, no const removed by a cast, no pointer to mutable data read through it) or never be written nor have its address escape to a non-const '
        'pointer or reference; no function of the C library that is documented as keeping hidden state may be called; objects of other libraries may be '
        'named only when they are the standard streams. Bounds: none over inputs and schedules; what a called system function does internally is assumed '
        'from its documentation.')
HIDDEN = set('''rand srand random srandom initstate setstate drand48 lrand48 mrand48 srand48 seed48 lcong48 erand48_ strtok setlocale localeconv
localtime gmtime ctime asctime tmpnam tempnam mktemp strerror readdir getenv_ setenv putenv unsetenv lgamma lgammaf lgammal gamma gammaf gammal
getopt crypt ecvt fcvt gcvt hcreate hsearch hdestroy l64a nl_langinfo ptsname ttyname getpwnam getpwuid mblen mbtowc wctomb mbrlen wcstombs_ signal
atexit at_quick_exit set_new_handler set_terminate set_unexpected'''.split())
FPENV = set('''fesetround fesetenv feupdateenv feenableexcept fedisableexcept feholdexcept _mm_setcsr _MM_SET_ROUNDING_MODE _MM_SET_FLUSH_ZERO_MODE
_MM_SET_DENORMALS_ZERO_MODE _MM_SET_EXCEPTION_MASK _controlfp _control87 __builtin_ia32_ldmxcsr'''.split())
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::cin', 'stdout', 'stderr', 'stdin', 'errno', 'std::nothrow'}

def check(rep, tree, work):
    F = lm.facts(tree, rep)
    tot = collections.Counter(); seen = {}; once = set()
    for k, (tu, f, err) in sorted(F.items()):
        grp = 'units' if k[0] == 'source' else 'headers'
        if f is None: rep.add('unit.' + tu, 'undec', tu, 'does not compile: ' + ' '.join(err.split())[:200], grp); continue
        vs = {}; bad = []
        for x in f:
            if x['k'] == 'var':
                seen.setdefault((x['file'], x['name'], x['fn']), [x, None, tu]); tot['variables'] += 1
            elif x['k'] == 'use':
                if not x['own']:
                    if x['name'] not in STREAMS and x['how'] != 'read': bad.append(('%s:%d' % (x['file'], x['line']), 'function %s uses the mutable object %s of another library' % (x['fn'], x['name'])))
                    continue
                if x['how'] in ('write', 'escape'): vs.setdefault((x['vfile'], x['name']), []).append(x)
            elif x['k'] == 'ext':
                tot['external calls'] += 1
                n = x['name'].split('::')[-1]
                if n in HIDDEN and not x['name'].startswith('nsimd'): bad.append(('%s:%d' % (x['file'], x['line']), 'function %s calls %s, which keeps hidden state between calls' % (x['fn'], x['name'])))
            elif x['k'] == 'sum': tot['functions'] += x['functions']; tot['calls'] += x['calls']
        env = collections.Counter((x['fn'], x['name'], x['file']) for x in f if x['k'] == 'ext' and x['name'].split('::')[-1] in FPENV and not x.get('lookup'))
        fns = collections.Counter()
        for (fn, n, file), c in env.items(): fns[(fn, file)] += c
        for (fn, file), c in fns.items():
            if c == 1: bad.append((file, 'function %s changes the floating-point environment of the calling thread and never restores it' % fn))
            else: rep.add('fenv.%s.%s' % (tu, fn), 'undec', file, 'changes the floating-point environment %d times; assumed to restore it' % c, grp)
        for (vf, n), us in vs.items():
            x = us[0]; bad.append(('%s:%d' % (x['file'], x['line']), 'function %s %s the object %s of static storage duration, declared at %s:%d' % (x['fn'], 'writes' if x['how'] == 'write' else 'passes a mutable pointer or reference to', n, vf, x['vline'])))
        new = sorted(set(bad) - once); once |= set(bad)
        for w, why in new: rep.add('unit.%s.%s' % (tu, w), 'bad', w, why + ' (unit %s)' % tu, grp)
        if not bad: rep.add('unit.' + tu, 'ok', tu, '', grp)
    for (file, n, fn), (x, _, tu) in sorted(seen.items()):
        # writes were reported above, at the construct that writes
        rep.add('static.%s.%s' % (file, n), 'ok', '%s:%d' % (file, x['line']), 'const' if x['const'] else 'never written', 'statics')
    rep.notes['analysed'] = dict(tot)
    rep.notes['static_objects'] = ['%s:%d %s (%s)' % (f, v[0]['line'], n, 'const' if v[0]['const'] else 'never written') for (f, n, fn), v in sorted(seen.items())][:80]
    for k in ('functions', 'calls'): rep.add('count.' + k, 'ok' if tot[k] > 100000 else 'undec', '', '%d %s analysed' % (tot[k], k), 'counts')
