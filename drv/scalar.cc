// Scalar arithmetic primitives of the library, one C entry per instantiation.
#include "mli_math.h"
#include "mli_types.h"
#define E extern "C"
#define ALLT(M) M(i8, int8_t) M(i16, int16_t) M(i32, int32_t) M(i64, int64_t)
#define M1(n, T) \
  E T s_add_##n(T a, T b) { return mli_math_add_fx<T>(a, b); } \
  E T s_sub_##n(T a, T b) { return mli_math_sub_fx<T>(a, b); } \
  E T s_asr_##n(T a, int32_t b) { return mli_math_asr_fx<T>(a, b); } \
  E T s_asl_##n(T a, int32_t b) { return mli_math_asl_fx<T>(a, b); } \
  E T s_asrrnd_##n(T a, int32_t b) { return mli_math_asr_rnd_fx<T>(a, b); } \
  E T s_aslrnd_##n(T a, int32_t b) { return mli_math_asl_rnd_fx<T>(a, b); } \
  E T s_ashr_##n(T a, int32_t b) { return mli_math_ashift_right_fx<T>(a, b); } \
  E T s_neg_##n(T a) { return mli_math_neg_fx<T>(a); } \
  E T s_abs_##n(T a) { return mli_math_abs_fx<T>(a); } \
  E T s_max_##n(T a, T b) { return mli_math_max_fx<T>(a, b); } \
  E T s_min_##n(T a, T b) { return mli_math_min_fx<T>(a, b); } \
  E T s_limit_##n(T a) { return mli_math_limit_fx<T>(a); } \
  E T s_sat_##n(T a, uint32_t b) { return mli_math_sat_fx<T>(a, b); } \
  E int32_t s_norm_##n(T a) { return mli_math_norm_fx<T, int32_t>(a); } \
  E T s_bound_##n(T a, T lo, T hi) { return mli_math_bound_range_fx<T, T>(a, lo, hi); }
ALLT(M1)
#define C2(n, I, O) E O s_cast_##n(I a, int32_t b) { return mli_math_cast_fx<I, O>(a, b); }
C2(i8_i8, int8_t, int8_t) C2(i8_i16, int8_t, int16_t) C2(i16_i8, int16_t, int8_t) C2(i16_i16, int16_t, int16_t)
C2(i32_i8, int32_t, int8_t) C2(i32_i16, int32_t, int16_t) C2(i32_i32, int32_t, int32_t)
C2(i64_i8, int64_t, int8_t) C2(i64_i16, int64_t, int16_t) C2(i64_i32, int64_t, int32_t) C2(i16_i64, int16_t, int64_t)
E int16_t s_cast1_i32_i16(int32_t a) { return mli_math_cast_fx<int32_t, int16_t>(a); }
E int16_t s_cast1_i64_i16(int64_t a) { return mli_math_cast_fx<int64_t, int16_t>(a); }
E int8_t s_acccast_i8(int32_t a, int32_t b) { return mli_math_acc_cast_fx<int8_t, mli_acc32_t>(a, b); }
E int16_t s_acccast_i16(int32_t a, int32_t b) { return mli_math_acc_cast_fx<int16_t, mli_acc32_t>(a, b); }
E int32_t s_acccast_i32(int32_t a, int32_t b) { return mli_math_acc_cast_fx<mli_acc32_t, mli_acc32_t>(a, b); }
E int32_t s_accshift_i32(int32_t a, int32_t b) { return mli_math_acc_ashift_fx<mli_acc32_t>(a, b); }
E int64_t s_accshift_i64(int64_t a, int32_t b) { return mli_math_acc_ashift_fx<mli_acc40_t>(a, b); }
E int32_t s_mulhigh(int32_t a, int32_t b) { return mli_math_mul_fx_high<int32_t, int32_t>(a, b); }
E int64_t s_mul_i32(int32_t a, int32_t b) { return mli_math_mul_fx<int32_t, int64_t>(a, b); }
E int32_t s_mul_i16(int16_t a, int16_t b) { return mli_math_mul_fx<int16_t, int32_t>(a, b); }
E int16_t s_mul_i8(int8_t a, int8_t b) { return mli_math_mul_fx<int8_t, int16_t>(a, b); }
E int32_t s_mac_8_8(int32_t c, int8_t a, int8_t b) { return mli_math_mac_fx<int8_t, int8_t, int32_t>(c, a, b); }
E int32_t s_mac_16_16(int32_t c, int16_t a, int16_t b) { return mli_math_mac_fx<int16_t, int16_t, int32_t>(c, a, b); }
E int32_t s_mac_16_8(int32_t c, int16_t a, int8_t b) { return mli_math_mac_fx<int16_t, int8_t, int32_t>(c, a, b); }
E int64_t s_mac_40(int64_t c, int16_t a, int16_t b) { return mli_math_mac_fx<int16_t, int16_t, int64_t>(c, a, b); }
E int16_t s_normcast_i32_i16(int32_t a, int32_t *sh) { return mli_math_norm_cast_fx<int32_t, int16_t>(a, sh); }
E int32_t s_normcast_i32_i32(int32_t a, int32_t *sh) { return mli_math_norm_cast_fx<int32_t, int32_t>(a, sh); }
E int8_t s_normcast_i32_i8(int32_t a, int32_t *sh) { return mli_math_norm_cast_fx<int32_t, int8_t>(a, sh); }
E int16_t s_normcast_i64_i16(int64_t a, int32_t *sh) { return mli_math_norm_cast_fx<int64_t, int16_t>(a, sh); }
