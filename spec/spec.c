/* Reference meaning of the operators, one lane at a time, written from the documentation of the operators
   (egg/operators.py `desc`, doc/markdown) and independently of the implementation. Compiled for the same target as
   the code under analysis and never run: the analyser compares abstract values.
   Logicals are one byte per lane (0/1). `n` is the number of lanes. `care` marks lanes whose value is specified. */
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16;
typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
typedef float f32; typedef double f64;
#if defined(HAVE_F16)
typedef _Float16 h16;
#else
typedef __fp16 h16;
#endif
#define FOR for (long i = 0; i < n; i++)
#define ALLI(X) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64)
#define ALLF(X) X(f32) X(f64)
#define ALL(X) ALLI(X) ALLF(X)
typedef u8 BITS_i8, BITS_u8; typedef u16 BITS_i16, BITS_u16, BITS_h16; typedef u32 BITS_i32, BITS_u32, BITS_f32; typedef u64 BITS_i64, BITS_u64, BITS_f64;
typedef i8 SINT_i8, SINT_u8; typedef i16 SINT_i16, SINT_u16, SINT_h16; typedef i32 SINT_i32, SINT_u32, SINT_f32; typedef i64 SINT_i64, SINT_u64, SINT_f64;
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)

/* ---- integer arithmetic: two's complement modular, division truncates, adds/subs saturate */
#define BIN(op, T, E) void ref_##op##_##T(T*o, const T*a, const T*b, long n) { FOR { T x = a[i], y = b[i]; o[i] = (T)(E); } }
#define UNA(op, T, E) void ref_##op##_##T(T*o, const T*a, long n) { FOR { T x = a[i]; o[i] = (T)(E); } }
#define TER(op, T, E) void ref_##op##_##T(T*o, const T*a, const T*b, const T*c, long n) { FOR { T x = a[i], y = b[i], z = c[i]; o[i] = (T)(E); } }
#define U(x) ((u64)(x))
#define INTARITH(T) \
  BIN(add, T, U(x) + U(y)) BIN(sub, T, U(x) - U(y)) BIN(min, T, x < y ? x : y) BIN(max, T, x > y ? x : y) UNA(neg, T, 0 - U(x)) \
  UNA(abs, T, x < 0 ? 0 - U(x) : U(x)) BIN(mul, T, (BITS_##T)x * U((BITS_##T)y)) BIN(div, T, x / y) \
  TER(fma, T, (BITS_##T)x * U((BITS_##T)y) + U(z)) TER(fms, T, (BITS_##T)x * U((BITS_##T)y) - U(z)) \
  TER(fnma, T, U(z) - (BITS_##T)x * U((BITS_##T)y)) TER(fnms, T, 0 - (BITS_##T)x * U((BITS_##T)y) - U(z)) \
  UNA(ceil, T, x) UNA(floor, T, x) UNA(trunc, T, x) UNA(round_to_even, T, x)
ALLI(INTARITH)
/* 64-bit products assembled from 32-bit halves: the same number modulo 2^64 */
#define MULALT(T) \
  static T mulparts_##T(T x, T y) { u64 a = (u64)x, b = (u64)y; u64 al = (u32)a, ah = a >> 32, bl = (u32)b, bh = b >> 32; return (T)(al * bl + ((al * bh + ah * bl) << 32)); } \
  BIN(mul2, T, mulparts_##T(x, y)) TER(fma2, T, U(mulparts_##T(x, y)) + U(z)) TER(fms2, T, U(mulparts_##T(x, y)) - U(z)) \
  TER(fnma2, T, U(z) - U(mulparts_##T(x, y))) TER(fnms2, T, 0 - U(mulparts_##T(x, y)) - U(z))
MULALT(i64) MULALT(u64)
#define SATU(T) BIN(adds, T, (T)(x + y) < x ? (T)-1 : (T)(x + y)) BIN(subs, T, x < y ? (T)0 : (T)(x - y))
SATU(u8) SATU(u16) SATU(u32) SATU(u64)
#define SATS(T, MIN, MAX) \
  static T sadd_##T(T x, T y) { T r; if (__builtin_add_overflow(x, y, &r)) r = x < 0 ? MIN : MAX; return r; } \
  static T ssub_##T(T x, T y) { T r; if (__builtin_sub_overflow(x, y, &r)) r = x < 0 ? MIN : MAX; return r; } \
  BIN(adds, T, sadd_##T(x, y)) BIN(subs, T, ssub_##T(x, y))
SATS(i8, -128, 127) SATS(i16, -32768, 32767) SATS(i32, (-2147483647 - 1), 2147483647) SATS(i64, (-9223372036854775807LL - 1), 9223372036854775807LL)

/* ---- shifts */
#define SHIFT(T) \
  void ref_shl_##T(T*o, const T*a, const int*s, long n) { FOR o[i] = (T)((BITS_##T)a[i] << (s[0] & (8*sizeof(T)-1))); } \
  void ref_shr_##T(T*o, const T*a, const int*s, long n) { FOR o[i] = (T)((BITS_##T)a[i] >> (s[0] & (8*sizeof(T)-1))); } \
  void ref_shra_##T(T*o, const T*a, const int*s, long n) { FOR o[i] = (T)(a[i] >> (s[0] & (8*sizeof(T)-1))); }
ALLI(SHIFT)

/* ---- bitwise, on the bit pattern of the lane */
#define BITW(T) \
  void ref_andb_##T(BITS_##T*o, const BITS_##T*a, const BITS_##T*b, long n) { FOR o[i] = a[i] & b[i]; } \
  void ref_orb_##T(BITS_##T*o, const BITS_##T*a, const BITS_##T*b, long n) { FOR o[i] = a[i] | b[i]; } \
  void ref_xorb_##T(BITS_##T*o, const BITS_##T*a, const BITS_##T*b, long n) { FOR o[i] = a[i] ^ b[i]; } \
  void ref_andnotb_##T(BITS_##T*o, const BITS_##T*a, const BITS_##T*b, long n) { FOR o[i] = a[i] & ~b[i]; } \
  void ref_notb_##T(BITS_##T*o, const BITS_##T*a, long n) { FOR o[i] = ~a[i]; }
ALL(BITW) BITW(h16)

/* ---- comparisons and logicals */
#define CMP1(op, T, E) void ref_##op##_##T(u8*o, const T*a, const T*b, long n) { FOR { T x = a[i], y = b[i]; o[i] = (E) ? 1 : 0; } }
#define CMP(T) CMP1(eq,T,x==y) CMP1(ne,T,x!=y) CMP1(lt,T,x<y) CMP1(le,T,x<=y) CMP1(gt,T,x>y) CMP1(ge,T,x>=y)
ALL(CMP) CMP(h16)
void ref_andl(u8*o, const u8*a, const u8*b, long n) { FOR o[i] = a[i] & b[i]; }
void ref_orl(u8*o, const u8*a, const u8*b, long n) { FOR o[i] = a[i] | b[i]; }
void ref_xorl(u8*o, const u8*a, const u8*b, long n) { FOR o[i] = a[i] ^ b[i]; }
void ref_andnotl(u8*o, const u8*a, const u8*b, long n) { FOR o[i] = a[i] & (b[i] ^ 1); }
void ref_notl(u8*o, const u8*a, long n) { FOR o[i] = a[i] ^ 1; }
void ref_copyl(u8*o, const u8*a, long n) { FOR o[i] = a[i]; }
/* all, any: zero or nonzero; compared through `!= 0` (see wrapper); nbtrue: exact count */
void ref_all(i32*o, const u8*a, long n) { u8 r = 1; FOR r &= a[i]; o[0] = r; }
void ref_any(i32*o, const u8*a, long n) { u8 r = 0; FOR r |= a[i]; o[0] = r; }
void ref_nbtrue(i32*o, const u8*a, long n) { i32 r = 0; FOR r += a[i]; o[0] = r; }
#define LOGV(T) \
  void ref_if_else1_##T(T*o, const u8*l, const T*a, const T*b, long n) { FOR o[i] = l[i] ? a[i] : b[i]; } \
  void ref_to_mask_##T(BITS_##T*o, const u8*l, long n) { FOR o[i] = l[i] ? (BITS_##T)-1 : 0; } \
  void ref_to_logical_##T(u8*o, const BITS_##T*a, long n) { FOR o[i] = a[i] != 0; }
ALL(LOGV) LOGV(h16)
void ref_to_logical_f16e(u8*o, const f32*a, long n) { FOR { h16 h = (h16)a[i]; u16 u; __builtin_memcpy(&u, &h, 2); o[i] = u != 0; } }
void ref_set1l(u8*o, const i32*p, long n) { FOR o[i] = p[0] != 0; }
void ref_mask_for_loop_tail(u8*o, const i32*p, const i32*q, long n) { FOR o[i] = (i64)p[0] + i < (i64)q[0]; }
void ref_len(i32*o, long n) { o[0] = (i32)n; }

/* ---- floating point */
#define SQ_f32 __builtin_sqrtf
#define SQ_f64 __builtin_sqrt
#define FMA_f32 __builtin_fmaf
#define FMA_f64 __builtin_fma
#define R1(b,T) CAT(R1_##b##_,T)
#define R1_ceil_f32 __builtin_ceilf
#define R1_ceil_f64 __builtin_ceil
#define R1_floor_f32 __builtin_floorf
#define R1_floor_f64 __builtin_floor
#define R1_trunc_f32 __builtin_truncf
#define R1_trunc_f64 __builtin_trunc
#define R1_rint_f32 __builtin_rintf
#define R1_rint_f64 __builtin_rint
#define R1_fabs_f32 __builtin_fabsf
#define R1_fabs_f64 __builtin_fabs
#define CARE2(op, T, E) void ref_##op##_##T(T*o, const T*a, const T*b, long n, u8*care) { FOR { T x = a[i], y = b[i]; o[i] = (E); care[i] = x == x && y == y; } }
#define NN1(op, T, E) void ref_##op##_##T(T*o, const T*a, long n, u8*care) { FOR { T x = a[i]; o[i] = (E); care[i] = x == x; } }
#define FP(T) \
  BIN(add, T, x + y) BIN(sub, T, x - y) BIN(mul, T, x * y) BIN(div, T, x / y) BIN(adds, T, x + y) BIN(subs, T, x - y) \
  TER(fma, T, FMA_##T(x, y, z)) TER(fms, T, FMA_##T(x, y, -z)) TER(fnma, T, FMA_##T(-x, y, z)) TER(fnms, T, FMA_##T(-x, y, -z)) \
  TER(fma2, T, x * y + z) TER(fms2, T, x * y - z) TER(fnma2, T, z - x * y) TER(fnms2, T, -(x * y) - z) \
  TER(fms3, T, -(-(x * y) + z)) TER(fnms3, T, -(x * y + z)) TER(fnms4, T, -FMA_##T(x, y, z)) TER(fms4, T, -FMA_##T(-x, y, z)) TER(fnma3, T, -FMA_##T(x, y, -z)) TER(fnma4, T, -(x * y - z)) \
  UNA(sqrt, T, SQ_##T(x)) UNA(rec, T, (T)1 / x) UNA(rsqrt, T, (T)1 / SQ_##T(x)) UNA(neg, T, -x) UNA(abs, T, R1(fabs, T)(x)) \
  NN1(ceil, T, R1(ceil, T)(x)) NN1(floor, T, R1(floor, T)(x)) NN1(trunc, T, R1(trunc, T)(x)) NN1(round_to_even, T, R1(rint, T)(x)) \
  CARE2(min, T, x < y ? x : y) CARE2(max, T, x > y ? x : y) CARE2(min2, T, y < x ? y : x) CARE2(max2, T, y > x ? y : x)
ALLF(FP)
/* halves kept in half registers: the operation in f32, rounded once */
#define H(x) ((f32)(x))
#define HBIN(op, E) void ref_##op##_h16(h16*o, const h16*a, const h16*b, long n) { FOR { f32 x = a[i], y = b[i]; o[i] = (h16)(E); } }
#define HUNA(op, E) void ref_##op##_h16(h16*o, const h16*a, long n) { FOR { f32 x = a[i]; o[i] = (h16)(E); } }
HBIN(add, x + y) HBIN(sub, x - y) HBIN(mul, x * y) HBIN(div, x / y) HBIN(adds, x + y) HBIN(subs, x - y)
#define HTER(op, E) void ref_##op##_h16(h16*o, const h16*a, const h16*b, const h16*c, long n) { FOR { f32 x = a[i], y = b[i], z = c[i]; o[i] = (h16)(E); } }
HTER(fma, __builtin_fmaf(x, y, z)) HTER(fms, __builtin_fmaf(x, y, -z)) HTER(fnma, __builtin_fmaf(-x, y, z)) HTER(fnms, __builtin_fmaf(-x, y, -z))
HTER(fma2, x * y + z) HTER(fms2, x * y - z) HTER(fnma2, z - x * y) HTER(fnms2, -(x * y) - z)
#ifdef __aarch64__
void ref_fma3_h16(h16*o, const h16*a, const h16*b, const h16*c, long n) { FOR o[i] = __builtin_fmaf16(a[i], b[i], c[i]); }
void ref_fms5_h16(h16*o, const h16*a, const h16*b, const h16*c, long n) { FOR o[i] = __builtin_fmaf16(a[i], b[i], -c[i]); }
void ref_fnma5_h16(h16*o, const h16*a, const h16*b, const h16*c, long n) { FOR o[i] = __builtin_fmaf16(-a[i], b[i], c[i]); }
void ref_fnms5_h16(h16*o, const h16*a, const h16*b, const h16*c, long n) { FOR o[i] = __builtin_fmaf16(-a[i], b[i], -c[i]); }
extern h16 uf_arm_frecpe__h16(h16), uf_arm_frsqrte__h16(h16);
void ref_arm_frecpe_h16(h16*o, const h16*a, long n) { FOR o[i] = uf_arm_frecpe__h16(a[i]); }
void ref_arm_frsqrte_h16(h16*o, const h16*a, long n) { FOR o[i] = uf_arm_frsqrte__h16(a[i]); }
#endif
HUNA(rsqrt, 1.0f / __builtin_sqrtf(x))
HUNA(sqrt, __builtin_sqrtf(x)) HUNA(rec, 1.0f / x)
void ref_neg_h16(u16*o, const u16*a, long n) { FOR o[i] = a[i] ^ 0x8000; }
void ref_abs_h16(u16*o, const u16*a, long n) { FOR o[i] = a[i] & 0x7fff; }
CARE2(min, h16, x < y ? x : y) CARE2(max, h16, x > y ? x : y) CARE2(min2, h16, y < x ? y : x) CARE2(max2, h16, y > x ? y : x)
HUNA(ceil, __builtin_ceilf(x)) HUNA(floor, __builtin_floorf(x)) HUNA(trunc, __builtin_truncf(x)) HUNA(round_to_even, __builtin_rintf(x))

/* round to even by comparing the distances to floor and ceil: both subtractions are exact or monotone, so this is
   rint for every non-NaN value (see DESIGN.md) */
#define RTE2(T, M, H5) void ref_round_to_even2_##T(T*o, const T*a, long n, u8*care) { FOR { M x = a[i], fl = R1(floor, M)(x), ce = R1(ceil, M)(x), df = x - fl, dc = ce - x; M h = fl * (M)0.5; \
  o[i] = (T)(df < dc ? fl : df > dc ? ce : h == R1(floor, M)(h) ? fl : ce); care[i] = x == x; } }
RTE2(f32, f32, 0) RTE2(f64, f64, 0) RTE2(h16, f32, 0)
/* sum of all lanes in some association: see check of addv (structure) */

/* ---- constructors and shuffles */
#define SHUF(T) \
  void ref_set1_##T(T*o, const T*s, long n) { FOR o[i] = s[0]; } \
  void ref_copy_##T(T*o, const T*a, long n) { FOR o[i] = a[i]; } \
  void ref_zip_##T(T*o, const T*a, const T*b, long n) { FOR { o[2 * i] = a[i]; o[2 * i + 1] = b[i]; } } \
  void ref_ziplo_##T(T*o, const T*a, const T*b, long n) { for (long i = 0; 2 * i < n; i++) { o[2 * i] = a[i]; o[2 * i + 1] = b[i]; } } \
  void ref_ziphi_##T(T*o, const T*a, const T*b, long n) { for (long i = 0; 2 * i < n; i++) { o[2 * i] = a[n / 2 + i]; o[2 * i + 1] = b[n / 2 + i]; } } \
  static T sel_##T(const T*a, const T*b, long n, long k) { return k < n ? a[k] : b[k - n]; } \
  void ref_unzip_##T(T*o, const T*a, const T*b, long n) { FOR { o[i] = sel_##T(a, b, n, 2 * i); o[n + i] = sel_##T(a, b, n, 2 * i + 1); } } \
  void ref_unziplo_##T(T*o, const T*a, const T*b, long n) { FOR o[i] = sel_##T(a, b, n, 2 * i); } \
  void ref_unziphi_##T(T*o, const T*a, const T*b, long n) { FOR o[i] = sel_##T(a, b, n, 2 * i + 1); } 
ALL(SHUF) SHUF(h16)
#define IOTA(T) void ref_iota_##T(T*o, long n) { FOR o[i] = (T)i; }
ALL(IOTA) IOTA(h16)
/* scalar half given to a vector of f32 lanes */
void ref_set1_f16e(f32*o, const h16*s, long n) { FOR o[i] = (f32)s[0]; }

/* ---- memory. L: lane type, M: memory type */
#define MEM(S, L, M, Z) \
  void ref_load_##S(L*o, const M*p, long n) { FOR o[i] = (L)p[i]; } \
  void ref_load2_##S(L*o, const M*p, long n) { FOR { o[i] = (L)p[2*i]; o[n+i] = (L)p[2*i+1]; } } \
  void ref_load3_##S(L*o, const M*p, long n) { FOR { o[i] = (L)p[3*i]; o[n+i] = (L)p[3*i+1]; o[2*n+i] = (L)p[3*i+2]; } } \
  void ref_load4_##S(L*o, const M*p, long n) { FOR { o[i] = (L)p[4*i]; o[n+i] = (L)p[4*i+1]; o[2*n+i] = (L)p[4*i+2]; o[3*n+i] = (L)p[4*i+3]; } } \
  void ref_store_##S(M*p, const L*a, long n) { FOR p[i] = (M)a[i]; } \
  void ref_store2_##S(M*p, const L*a, const L*b, long n) { FOR { p[2*i] = (M)a[i]; p[2*i+1] = (M)b[i]; } } \
  void ref_store3_##S(M*p, const L*a, const L*b, const L*c, long n) { FOR { p[3*i] = (M)a[i]; p[3*i+1] = (M)b[i]; p[3*i+2] = (M)c[i]; } } \
  void ref_store4_##S(M*p, const L*a, const L*b, const L*c, const L*d, long n) { FOR { p[4*i] = (M)a[i]; p[4*i+1] = (M)b[i]; p[4*i+2] = (M)c[i]; p[4*i+3] = (M)d[i]; } } \
  void ref_masko_load_##S(L*o, const u8*l, const M*p, const L*d, long n) { FOR if (l[i]) o[i] = (L)p[i]; else o[i] = d[i]; } \
  void ref_maskz_load_##S(L*o, const u8*l, const M*p, long n) { FOR if (l[i]) o[i] = (L)p[i]; else o[i] = (L)0; } \
  void ref_mask_store_##S(const u8*l, M*p, const L*a, long n) { FOR if (l[i]) p[i] = (M)a[i]; } \
  void ref_gather_##S(L*o, const M*p, const SINT_##M*x, long n) { FOR o[i] = (L)p[x[i]]; } \
  void ref_scatter_##S(M*p, const SINT_##M*x, const L*a, long n) { FOR p[x[i]] = (M)a[i]; } \
  void ref_gather_linear_##S(L*o, const M*p, const i32*s, long n) { FOR o[i] = (L)p[i * (i64)s[0]]; } \
  void ref_scatter_linear_##S(M*p, const i32*s, const L*a, long n) { FOR p[i * (i64)s[0]] = (M)a[i]; } \
  void ref_loadl_##S(u8*o, const M*p, long n, u8*care) { FOR { o[i] = ((BITS_##M const*)p)[i] != 0; care[i] = Z; } } \
  void ref_storel_##S(M*p, const u8*l, long n) { FOR p[i] = l[i] ? (M)1 : (M)0; }
#define MEMI(T) MEM(T, T, T, 1)
#define MEMF(T) MEM(T, T, T, ((BITS_##T const*)p)[i] != (BITS_##T)1 << (8 * sizeof(T) - 1))
ALLI(MEMI) ALLF(MEMF) MEMF(h16)
MEM(f16e, f32, h16, ((BITS_h16 const*)p)[i] != 0x8000)

/* ---- conversions. value-exact; float to integer specified when the truncated value fits */
#define CVT(F, T) void ref_cvt_##F##_##T(T*o, const F*a, long n) { FOR o[i] = (T)a[i]; } \
  void ref_upcvt_##F##_##T(T*o, const F*a, long n) { for (long i = 0; i < n; i++) o[i] = (T)a[i]; } \
  void ref_downcvt_##F##_##T(T*o, const F*a, const F*b, long n) { FOR { o[i] = (T)a[i]; } FOR { o[n + i] = (T)b[i]; } }
#define CVTS(F) CVT(F, i8) CVT(F, u8) CVT(F, i16) CVT(F, u16) CVT(F, i32) CVT(F, u32) CVT(F, i64) CVT(F, u64) CVT(F, f32) CVT(F, f64) CVT(F, h16)
ALL(CVTS) CVTS(h16)
/* conversions into a vector of halves held as f32: also accepted when rounded to half at once */
#define CVTE(F) void ref_cvt_##F##_f16e(f32*o, const F*a, long n) { FOR o[i] = (f32)(h16)a[i]; } \
  void ref_upcvt_##F##_f16e(f32*o, const F*a, long n) { FOR o[i] = (f32)(h16)a[i]; } \
  void ref_downcvt_##F##_f16e(f32*o, const F*a, const F*b, long n) { FOR { o[i] = (f32)(h16)a[i]; } FOR { o[n + i] = (f32)(h16)b[i]; } }
ALL(CVTE)
void ref_reint_from_f16e(u16*o, const f32*a, long n) { FOR { h16 h = (h16)a[i]; __builtin_memcpy(o + i, &h, 2); } }
void ref_reint_to_f16e(f32*o, const u16*a, long n) { FOR { h16 h; __builtin_memcpy(&h, a + i, 2); o[i] = (f32)h; } }

/* ---- scalar API: logicals are ints */
#define SCMP1(op, T, E) void ref_s_##op##_##T(i32*o, const T*a, const T*b, long n) { T x = a[0], y = b[0]; o[0] = (E) ? 1 : 0; }
#define SCAL(T) SCMP1(eq,T,x==y) SCMP1(ne,T,x!=y) SCMP1(lt,T,x<y) SCMP1(le,T,x<=y) SCMP1(gt,T,x>y) SCMP1(ge,T,x>=y) \
  void ref_s_to_mask_##T(BITS_##T*o, const i32*l, long n) { o[0] = l[0] ? (BITS_##T)-1 : 0; } \
  void ref_s_to_logical_##T(i32*o, const BITS_##T*a, long n) { o[0] = a[0] != 0; }
ALL(SCAL) SCAL(h16)
void ref_s_andl(i32*o, const i32*a, const i32*b, long n) { o[0] = a[0] != 0 && b[0] != 0; }
void ref_s_orl(i32*o, const i32*a, const i32*b, long n) { o[0] = a[0] != 0 || b[0] != 0; }
void ref_s_xorl(i32*o, const i32*a, const i32*b, long n) { o[0] = (a[0] != 0) != (b[0] != 0); }
void ref_s_andnotl(i32*o, const i32*a, const i32*b, long n) { o[0] = a[0] != 0 && !(b[0] != 0); }
void ref_s_notl(i32*o, const i32*a, long n) { o[0] = a[0] == 0; }

/* ---- half precision */
#define CLS(T, EXP, MAN) \
  void ref_isnan_##T(i32*o, const BITS_##T*a, long n) { o[0] = (a[0] >> MAN & EXP) == EXP && (a[0] & (((u64)1 << MAN) - 1)) != 0; } \
  void ref_isinf_##T(i32*o, const BITS_##T*a, long n) { o[0] = (a[0] >> MAN & EXP) == EXP && (a[0] & (((u64)1 << MAN) - 1)) == 0; } \
  void ref_isnormal_##T(i32*o, const BITS_##T*a, long n) { o[0] = !((a[0] >> MAN & EXP) == 0 && (a[0] & (((u64)1 << MAN) - 1)) != 0); }
CLS(h16, 31, 10) CLS(f32, 255, 23) CLS(f64, 2047, 52)
/* known finding: what nsimd_isnormal_f16 returns today */
void ref_isnormal_f16_observed(i32*o, const u16*a, long n) { o[0] = (a[0] >> 10 & 31) == 0 && a[0] != 0; }
#define TOH(T) void ref_toh_##T(h16*o, const T*a, long n) { o[0] = (h16)(f32)a[0]; }
ALL(TOH)

/* ---- approximations: the instruction's own function of the lane (manual: rcp, rsqrt 1.5*2^-12; rcp14, rsqrt14 2^-14; rcp28 2^-28), or exact */
#define APX(f, T) extern T uf_x86_##f##__##T(T); UNA(f, T, uf_x86_##f##__##T(x))
#define APXS(T) APX(rcp, T) APX(rcp14, T) APX(rcp28, T) APX(rsqrt14, T) APX(rsqrt28, T)
APXS(f32) APXS(f64)
/* FRECPE (0.0029) and FRSQRTE (0.0033) are within 2^-8, xvre/xvrsqrte within 2^-14, vrefp/vrsqrtefp within 2^-12 */
#define APY(f, T) extern T uf_##f##__##T(T); UNA(f, T, uf_##f##__##T(x))
APY(arm_frecpe, f32) APY(arm_frecpe, f64) APY(arm_frsqrte, f32) APY(arm_frsqrte, f64)
APY(ppc_re, f32) APY(ppc_re, f64) APY(ppc_rsqrte, f32) APY(ppc_rsqrte, f64)
extern f32 uf_x86_rsqrt__f32(f32); UNA(rsqrtx, f32, uf_x86_rsqrt__f32(x))
