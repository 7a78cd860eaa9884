# C18: allocation. A cell is one call of an allocation function for every count; what reaches the environment (allocator calls
# with their sizes and alignments, releases, copies, exceptions) is a chain of uninterpreted events whose results (fresh
# addresses, NULL or error codes) are unknown. The chain and the result must be those of the specification below.
import os
from .exts import *
from .ops import Cell
from . import run, vecprops as vp, layers

PRE = '#include <nsimd/nsimd.h>\n#include <nsimd/modules/memory_management.hpp>\n'
N64 = '*(const size_t *)a0'
OUT = {'k': 'out', 'n': 1, 'w': 64}
IN = {'k': 'vec', 'n': 1, 'w': 64}

def mk(ext, tag, t, op, src, params, refs, where, group):
    c = Cell(ext, op, t, op, src, params, [], 1, 'base')
    c.id = 'mem.%s.%s.%s' % (tag, op, t); c.group = 'mem-' + tag; c.where = where; c.base = refs; c.extra = {'events': True, 'half': False}
    return c

def header_cells(ext, tag, al, cxx98):
    out = []; H = 'include/nsimd/nsimd.h: '
    pm = lambda size: '{ void *p; if (posix_memalign(&p, %d, %s)) p = NULL; *(void **)o = p; }' % (al, size)
    lim = '~(size_t)0 / 2'
    out.append(mk(ext, tag, 'void', 'nsimd_aligned_alloc', '*(void **)o = nsimd_aligned_alloc((nsimd_nat)%s);' % N64, [OUT, IN], [pm(N64)], 'src/memory.cpp: nsimd_aligned_alloc', 'm'))
    out.append(mk(ext, tag, 'void', 'nsimd::aligned_alloc', '*(void **)o = nsimd::aligned_alloc((nsimd_nat)%s);' % N64, [OUT, IN], [pm(N64)], H + 'aligned_alloc', 'm'))
    fr = 'free(*(void *const *)a0); *(int *)o = 0;'
    OK = ' *(int *)o = 0;'
    O32 = {'k': 'out', 'n': 1, 'w': 32}
    out.append(mk(ext, tag, 'void', 'nsimd_aligned_free', 'nsimd_aligned_free(*(void *const *)a0);' + OK, [O32, IN], [fr], 'src/memory.cpp: nsimd_aligned_free', 'm'))
    out.append(mk(ext, tag, 'void', 'nsimd::aligned_free', 'nsimd::aligned_free(*(void *const *)a0);' + OK, [O32, IN], [fr], H + 'aligned_free', 'm'))
    for t in TYPES:
        sz = SZ[t]
        body = '{ void *p = NULL; if (%s <= (%s) / %d && posix_memalign(&p, %d, %s * %d)) p = NULL; ' % (N64, lim, sz, al, N64, sz)
        out.append(mk(ext, tag, t, 'aligned_alloc_for', '*(void **)o = nsimd::aligned_alloc_for<%s>((nsimd_nat)%s);' % (t, N64), [OUT, IN], [body + '*(void **)o = p; }'], H + 'aligned_alloc_for', 'm'))
        out.append(mk(ext, tag, t, 'aligned_free_for', 'nsimd::aligned_free_for<%s>(*(void *const *)a0);' % t + OK, [O32, IN], [fr], H + 'aligned_free_for', 'm'))
        out.append(mk(ext, tag, t, 'allocator::allocate', 'nsimd::allocator<%s> x; *(void **)o = x.allocate(%s);' % (t, N64), [OUT, IN], [body + 'if (!p) throw std::bad_alloc(); *(void **)o = p; }'], H + 'allocator<T>::allocate', 'm'))
        out.append(mk(ext, tag, t, 'allocator::deallocate', 'nsimd::allocator<%s> x; x.deallocate(*(%s *const *)a0, 1);' % (t, t) + OK, [O32, IN], [fr], H + 'allocator<T>::deallocate', 'm'))
        if cxx98:
            out.append(mk(ext, tag, t, 'allocator::allocate(hint)', 'nsimd::allocator<%s> x; *(void **)o = x.allocate(%s, (const void *)0);' % (t, N64), [OUT, IN], [body + 'if (!p) throw std::bad_alloc(); *(void **)o = p; }'], H + 'allocator<T>::allocate', 'm'))
    return out

PAIR = {'k': 'out', 'n': 3, 'w': 64}
def mem_cells(ext, tag, kind, types=TYPES):
    out = []; H = 'include/nsimd/modules/memory_management.hpp: '
    O32 = {'k': 'out', 'n': 1, 'w': 32}; I2 = {'k': 'vec', 'n': 2, 'w': 64}; I3 = {'k': 'vec', 'n': 3, 'w': 64}
    OK = ' *(int *)o = 0;'
    for t in types:
        sz = SZ[t]; bytes_ = '%s * %d' % (N64, sz); fits = '%s <= ~(size_t)0 / %d' % (N64, sz)
        def c(op, src, params, refs, fn=None): out.append(mk(ext, tag, t, op, src, params, refs if isinstance(refs, list) else [refs], H + (fn or op), 'm'))
        if kind == 'cpu':
            dm = lambda d: '%s = NULL; if (%s) %s = malloc(%s);' % (d, fits, d, bytes_)
            dc = lambda d: '%s = calloc(%s, %d);' % (d, N64, sz)
            df = lambda d: 'free(%s);' % d
            cp = lambda d, s, n, k: 'memcpy(%s, %s, %s);' % (d, s, n)
        else:
            g = kind
            dm = lambda d: 'if (!(%s) || %sMalloc(&%s, %s) != 0) %s = NULL;' % (fits, g, d, bytes_, d)
            dc = lambda d: dm(d) + ' if (%s && %sMemset(%s, 0, %s) != 0) { %sFree(%s); %s = NULL; }' % (d, g, d, bytes_, g, d, d)
            df = lambda d: '%sFree(%s);' % (g, d)
            cp = lambda d, s, n, k: '%sMemcpy(%s, %s, %s, %sMemcpy%s);' % (g, d, s, n, g, k)
        c('device_malloc', '*(void **)o = nsimd::device_malloc<%s>(%s);' % (t, N64), [OUT, IN], 'void *p; %s *(void **)o = p;' % dm('p'))
        c('device_calloc', '*(void **)o = nsimd::device_calloc<%s>(%s);' % (t, N64), [OUT, IN], 'void *p; %s *(void **)o = p;' % dc('p'))
        c('device_free', 'nsimd::device_free(*(%s *const *)a0);' % t + OK, [O32, IN], df('*(void *const *)a0') + OK)
        A0, A1, n1 = '((%s *const *)a0)[0]' % t, '((%s *const *)a0)[1]' % t, '*(const size_t *)a1'
        V0, V1 = '((void *const *)a0)[0]', '((void *const *)a0)[1]'
        for op, k in (('copy_to_device', 'HostToDevice'), ('copy_to_host', 'DeviceToHost')):
            c(op, 'nsimd::%s(%s, %s, %s);' % (op, A0, A1, n1) + OK, [O32, I2, IN], cp(V0, V1, '%s * %d' % (n1, sz), k) + OK)
            # the pair form
            src = 'nsimd::paired_pointers_t<%s> p; p.device_ptr = %s; p.host_ptr = %s; p.sz = %s; nsimd::%s(p);' % (t, A0, A1, n1, op) + OK
            d, s_ = (V0, V1) if k == 'HostToDevice' else (V1, V0)
            c('%s(pair)' % op, src, [O32, I2, IN], (cp(d, s_, '%s * %d' % (n1, sz), k) if kind != 'cpu' else '') + OK, op)
        P = 'const nsimd::paired_pointers_t<%s> p = nsimd::%s<%s>(' + N64 + '); '
        put = '((void **)o)[0] = p.device_ptr; ((void **)o)[1] = p.host_ptr; ((size_t *)o)[2] = p.sz;'
        for op, dev, host in (('pair_malloc', dm, 'malloc(%s)' % bytes_), ('pair_calloc', dc, 'calloc(%s, %d)' % (N64, sz))):
            if kind == 'cpu': r = ['void *d; %s ((void **)o)[0] = ((void **)o)[1] = d; ((size_t *)o)[2] = %s;' % (dev('d'), z) for z in (N64, 'd ? %s : 0' % N64)]
            else: r = ['void *d, *h = NULL; size_t z = 0; %s if (d) { h = %s; if (!h) { %s d = NULL; } else z = %s; } ((void **)o)[0] = d; ((void **)o)[1] = h; ((size_t *)o)[2] = z;' % (dev('d'), host, df('d'), N64)]
            c(op, (P % (t, op, t)) + put, [PAIR, IN], r)
            ab = lambda x: x.replace('((void **)o)[0]', 'if (!d) exit(EXIT_FAILURE); ((void **)o)[0]')
        c('pair_free', 'nsimd::paired_pointers_t<%s> p; p.device_ptr = %s; p.host_ptr = %s; p.sz = 1; nsimd::pair_free(p);' % (t, A0, A1 if kind != 'cpu' else A0) + OK, [O32, I2],
          [df(V0) + ('free(%s);' % V1 if kind != 'cpu' else '') + OK] + (['free(%s);' % V1 + df(V0) + OK] if kind != 'cpu' else []))
    return out

EXPL = ('One obligation per allocation, release, copy or pair function, element type and language standard: the call and its specification are '
        'abstractly interpreted over an unknown count and unknown pointers, with every call that reaches the environment (allocator, device run time, '
        'exceptions) recorded as an uninterpreted event of its arguments; the chains of events and the results are compared. '
        'The CUDA and ROCm sides are analysed against declarations of the run time (spec/gpu).')

def check(rep, tree, work):
    tiers = [('cpu', '-std=gnu++98', 'cxx98'), ('avx2', '-std=gnu++11', 'cxx11')]
    if rep.tier != 'quick': tiers += [('sse42', '-std=gnu++14', 'cxx14'), ('avx512_skylake', '-std=gnu++20', 'cxx20')]
    for en, std, tag in tiers:
        e = EXTS[en]; sub = os.path.join(work, tag); os.makedirs(sub, exist_ok=True)
        lib = run.build_lib(e, tree, sub, 'src/memory.cpp', std=std)
        cs = header_cells(e, tag, 64, tag == 'cxx98') + mem_cells(e, tag + '-mm', 'cpu')
        kw = dict(lang='c++', std=std, prelude=PRE, mods=lambda ext: [lib])
        vp.report_cells(rep, tree, sub, cs, run.run_cells(cs, tree, sub, **kw), judge=layers.judge, **kw)
    gpu = os.path.join(run.st.VERIF, 'spec', 'gpu')
    e = EXTS['cpu']
    for kind, d in (('cuda', 'NSIMD_CUDA'), ('hip', 'NSIMD_ROCM')):
        sub = os.path.join(work, kind); os.makedirs(sub, exist_ok=True)
        pre = '#include "%s/nsimd/nsimd.h"\n#include "%s/include/nsimd/modules/memory_management.hpp"\n' % (gpu, tree)
        cs = mem_cells(e, kind, kind, [t for t in TYPES if t != 'f16'])
        kw = dict(lang='c++', std='-std=gnu++11', prelude=pre, extra=['-D' + d, '-I' + gpu])
        vp.report_cells(rep, tree, sub, cs, run.run_cells(cs, tree, sub, **kw), judge=layers.judge, **kw)
