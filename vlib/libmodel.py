# What the library of each extension is built from, as the repository's two build descriptions say, and the queries of
# engine/astlint over headers and sources.
import os, re, json, subprocess, shlex, concurrent.futures as cf
from .exts import *
from . import run, stage as st

CROSS = ['-nostdinc++', '-isystem', os.path.join(st.VERIF, 'spec', 'cross'), '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu']
ALL = NATIVE + ['neon128', 'aarch64', 'sve128', 'sve256', 'sve512', 'sve1024', 'sve2048', 'vmx', 'vsx']

def flags(ext):
    return ['--target=' + ext.triple] + ext.flags + ([] if ext.triple == X else CROSS)

def astlint(ext, tree, src, args, root=None, base=None):
    """list of facts about one translation unit (base: flags of the extension, or those of a library source alone)"""
    st.engine()
    cmd = [os.path.join(st.BUILD, 'engine', 'astlint'), root or tree, src, '--', '-w', '-Wno-everything', '-I' + os.path.join(tree, 'include'), '-I' + os.path.join(tree, 'src'), '-resource-dir', RES] + (flags(ext) if base is None else base) + list(args)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    facts = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
    if not facts or r.returncode: return None, r.stderr
    return facts, ''
RES = subprocess.run(['clang-18', '-print-resource-dir'], stdout=subprocess.PIPE, text=True).stdout.strip()

SPEC = os.path.join(st.VERIF, 'spec', 'tu')
# the flags nsconfig translates for each compiler
ABSTRACT = {'-msse42': ['-msse4.2'], '-mavx512_knl': ['-mavx512f', '-mavx512pf', '-mavx512er', '-mavx512cd'], '-mavx512_skylake': ['-mavx512f', '-mavx512dq', '-mavx512cd', '-mavx512bw', '-mavx512vl'],
            '-mneon128': ['-mfpu=neon'], '-maarch64': [], '-mvmx': ['-maltivec'], '-mfp16': ['-mf16c'], '-msve': ['-march=armv8.2-a+sve']}
for _b in (128, 256, 512, 1024, 2048): ABSTRACT['-msve%d' % _b] = ['-march=armv8.2-a+sve', '-msve-vector-bits=%d' % _b]
def clean(fl): return [y for x in fl if not GCC_ONLY.match(x) and not x.startswith('-I') for y in ABSTRACT.get(x, [x])]

def facts(tree, rep):
    """astlint over every header (umbrella units) and every source of every library; {(kind, ext or triple, source, flags): facts}"""
    st.engine()
    jobs = {}
    for n in ALL:
        e = EXTS[n]
        for s, fl in [('all.cpp', ['-std=c++14']), ('friendly.cpp', ['-std=c++14']), ('all.c', ['-std=c11'])]:
            jobs[('headers', n, os.path.join(SPEC, s), tuple(fl))] = (e, None)
        for o, src, fl in nsconfig(tree, e) or []:
            if src: jobs.setdefault(('source', e.triple, src, tuple(clean(fl))), (e, ['--target=' + e.triple] + ([] if e.triple == X else CROSS + [x for x in e.flags if x.startswith('-mf')])))
    def one(k):
        e, base = jobs[k]
        f, err = astlint(e, tree, k[2], list(k[3]), base=base)
        return k, f, err
    out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for k, f, err in ex.map(one, list(jobs)):
            tu = '%s:%s%s' % (k[1], os.path.basename(k[2]), (' ' + ' '.join(x for x in k[3] if x.startswith('-D'))) if k[0] == 'source' else '')
            out[k] = (tu, f, err)
    return out

# ------------------------------------------------------------------ build.nsconfig
def nsconfig(tree, ext):
    """[(object, source, flags)] of the library for an extension; unresolvable objects have source None"""
    txt = open(os.path.join(tree, 'build.nsconfig')).read().replace('\\\n', ' ')
    var = {}
    for m in re.finditer(r'^\s*(?:set|ifnot_set "[^"]*")\s+([\w${}]+)\s*=\s*(.*)$', txt, re.M): var[m.group(1)] = m.group(2).strip().strip('"')
    def exp(s, depth=0):
        def one(m):
            k = m.group(1)
            if k == 'o': return ''
            if k == 'root': return tree
            return exp(var.get(k, ''), depth + 1) if depth < 20 else ''
        return re.sub(r'\$(\w+)\$?', one, s)
    rules = {}
    for m in re.finditer(r'^build_file\s+([\w]+)\$o\s+autodeps\s+(\S+)\s*\n\s+(.*)$', txt, re.M): rules[m.group(1)] = (exp(m.group(2)), exp(m.group(3)))
    if 'o_for_' + ext.name not in var: return None
    out = []
    for o in exp(var['o_for_' + ext.name]).split():
        if o not in rules: out.append((o, None, [])); continue
        src, cmd = rules[o]
        fl = [x for x in cmd.split() if x.startswith(('-D', '-m', '-I', '-std'))]
        out.append((o, src, fl))
    return out

# ------------------------------------------------------------------ CMakeLists.txt
def cmake(tree, ext, work):
    b = os.path.join(work, 'cmake_' + ext.name)
    r = subprocess.run(['cmake', '-S', tree, '-B', b, '-Dsimd=' + ext.name, '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_C_COMPILER_WORKS=1', '-DCMAKE_CXX_COMPILER_WORKS=1'] , stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout[-1500:]
    out = []
    for e in json.load(open(os.path.join(b, 'compile_commands.json'))):
        a = shlex.split(e['command'])
        m = re.search(r'CMakeFiles/([\w]+)\.dir/', e.get('output', '') or e['command'])
        out.append((m.group(1) if m else os.path.basename(e['file']), e['file'], [x for x in a if x.startswith(('-D', '-m', '-std', '-I'))]))
    return out, ''

GCC_ONLY = re.compile(r'-mno-avx256-split|-mfloat-abi=softfp|-mcpu=powerpc64le')
def compile_obj(ext, tree, src, fl, work, opt='-O0'):
    """(defined, undefined) symbols"""
    fl = clean(fl)
    lang = 'c' if src.endswith('.c') else 'c++'
    import hashlib
    o = os.path.join(work, 'o_' + hashlib.md5(' '.join([ext.triple, src] + fl).encode()).hexdigest() + '.o')
    cmd = ['clang-18' if lang == 'c' else 'clang++-18', '--target=' + ext.triple] + ([] if ext.triple == X else CROSS + [x for x in ext.flags if x.startswith('-mf')]) + fl + ['-w', opt, '-fPIC', '-I' + os.path.join(tree, 'include'), '-I' + os.path.join(tree, 'src'), '-c', src, '-o', o]
    rc, out = run.sh(cmd)
    if rc: return None, out
    rc, out = run.sh(['llvm-nm-18', o]); os.remove(o)
    d, u = set(), set()
    for l in out.splitlines():
        p = l.split()
        if len(p) == 2 and p[0] in 'UwvV': (u if p[0] == 'U' else set()).add(p[1])
        elif len(p) == 3 and p[1] in 'TDBRSWVuCGi': d.add(p[2])
    return (d, u), ''
