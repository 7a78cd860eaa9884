# SIMD extensions under analysis: flags from CMakeLists.txt / egg/platform_*.py, and how their registers are laid out.
import os
SZ = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'f16': 2, 'i32': 4, 'u32': 4, 'f32': 4, 'i64': 8, 'u64': 8, 'f64': 8}
ITYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
FTYPES = ['f16', 'f32', 'f64']
TYPES = ITYPES + FTYPES

class Ext:
    def __init__(s, name, family, flags, bits, log, triple, f16='e', vscale=1, half_abi=True, key=None):
        s.name = name; s.key = key or name; s.family = family; s.flags = flags.split(); s.bits = bits; s.log = log
        s.triple = triple; s.f16 = f16; s.vscale = vscale
    def n(s, t): return s.bits // 8 // SZ[t]
    def lane(s, t):
        """width of a register lane of type t, and the type the lane really is"""
        if t == 'f16': return (32, 'f32') if s.f16 == 'e' else (16, 'h16')
        return SZ[t] * 8, t
    def S(s, t):
        """suffix of the reference functions for memory operations"""
        if t == 'f16': return 'f16e' if s.f16 == 'e' else 'h16'
        return t
    def vec(s, t, d=1):
        return {'k': 'vec', 'n': s.n(t) * d, 'w': s.lane(t)[0]}
    def vout(s, t, d=1):
        return {'k': 'out', 'n': s.n(t) * d, 'w': s.lane(t)[0]}
    def logp(s, t, k):
        w = 32 if (t == 'f16' and s.f16 == 'e') else SZ[t] * 8
        if s.log == 'cpu': return {'k': k, 'n': s.n(t), 'w': 32, 'repr': 'ones'}
        return {'k': k, 'n': s.n(t), 'w': w, 'repr': s.log}
    def vt(s, t): return 'nsimd_%s_v%s' % (s.name, t)
    def lt(s, t): return 'nsimd_%s_vl%s' % (s.name, t)

X = 'x86_64-unknown-linux-gnu'
EXTS = {}
def _e(*a, **k):
    e = Ext(*a, **k); EXTS[e.key] = e
_e('cpu', 'cpu', '-DCPU', 128, 'cpu', X)
_e('sse2', 'x86', '-DSSE2 -msse2', 128, 'ones', X)
_e('sse42', 'x86', '-DSSE42 -msse4.2', 128, 'ones', X)
_e('avx', 'x86', '-DAVX -mavx', 256, 'ones', X)
_e('avx2', 'x86', '-DAVX2 -mavx2 -mfma -DFP16 -mf16c -DFMA', 256, 'ones', X)
_e('avx512_knl', 'x86', '-DAVX512_KNL -mavx512f -mavx512pf -mavx512er -mavx512cd -mfma -DFP16 -mf16c', 512, 'bits', X)
_e('avx512_skylake', 'x86', '-DAVX512_SKYLAKE -mavx512f -mavx512dq -mavx512cd -mavx512bw -mavx512vl -mfma -DFP16 -mf16c', 512, 'bits', X)
_e('neon128', 'arm', '-DNEON128 -mfpu=neon -mfloat-abi=hard', 128, 'ones', 'armv7-unknown-linux-gnueabihf')
_e('aarch64', 'arm', '-DAARCH64', 128, 'ones', 'aarch64-unknown-linux-gnu')
for _b in (128, 256, 512, 1024, 2048):
    _e('sve%d' % _b, 'arm', '-DSVE%d -march=armv8.2-a+sve -msve-vector-bits=%d' % (_b, _b), _b, 'pred', 'aarch64-unknown-linux-gnu', f16='n', vscale=_b // 128)
_e('sve', 'arm', '-DSVE -march=armv8.2-a+sve', 128, 'pred', 'aarch64-unknown-linux-gnu', f16='n')   # scalable: only its library sources (the headers need a compiler extension no compiler here has)
_e('vmx', 'ppc', '-DVMX -maltivec', 128, 'ones', 'powerpc64le-unknown-linux-gnu')
_e('vsx', 'ppc', '-DVSX -mvsx', 128, 'ones', 'powerpc64le-unknown-linux-gnu')
# the same extensions with other optional features
_e('sse42', 'x86', '-DSSE42 -msse4.2 -DFMA -mfma -DFP16 -mf16c', 128, 'ones', X, key='sse42+fma+fp16')
_e('avx', 'x86', '-DAVX -mavx -DFP16 -mf16c', 256, 'ones', X, key='avx+fp16')
_e('avx2', 'x86', '-DAVX2 -mavx2', 256, 'ones', X, key='avx2-fma-fp16')
_e('aarch64', 'arm', '-DAARCH64 -DFP16 -march=armv8.2-a+fp16', 128, 'ones', 'aarch64-unknown-linux-gnu', f16='n', key='aarch64+fp16')
VARIANTS = ['sse42+fma+fp16', 'avx+fp16', 'avx2-fma-fp16', 'aarch64+fp16']
NATIVE = ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl', 'avx512_skylake']

# extensions no processor here can execute
CROSS = ['neon128', 'aarch64', 'sve256', 'vmx', 'vsx']
def pick(rep, quick):
    """extensions a check of the generic layers runs on: the given ones, everything in the thorough tier"""
    if os.environ.get('VP_EXTS'): return os.environ['VP_EXTS'].split(',')    # development
    return quick if rep.tier == 'quick' else NATIVE + CROSS
