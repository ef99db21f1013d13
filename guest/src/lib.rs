//! Entry points with a C calling convention for the public functions of libm.
#![no_std]
#![feature(f16, f128)]
#![allow(improper_ctypes_definitions)]

macro_rules! w {
    ($($n:ident $f:ident ($($a:ident: $t:ty),*) $r:ty;)*) => { $(#[unsafe(no_mangle)] pub extern "C" fn $n($($a: $t),*) -> $r { libm::$f($($a),*) })* };
}
macro_rules! w2 {
    ($($n:ident $f:ident ($($a:ident: $t:ty),*) $r:ty, $o:ty;)*) => { $(#[unsafe(no_mangle)] pub unsafe extern "C" fn $n($($a: $t,)* o: *mut $o) -> $r { let r = libm::$f($($a),*); unsafe { o.write(r.1) }; r.0 })* };
}

w! {
    m_acos acos (a: f64) f64;
    m_asin asin (a: f64) f64;
    m_acosh acosh (a: f64) f64;
    m_asinh asinh (a: f64) f64;
    m_atan atan (a: f64) f64;
    m_atanh atanh (a: f64) f64;
    m_cbrt cbrt (a: f64) f64;
    m_ceil ceil (a: f64) f64;
    m_cos cos (a: f64) f64;
    m_cosh cosh (a: f64) f64;
    m_erf erf (a: f64) f64;
    m_erfc erfc (a: f64) f64;
    m_exp exp (a: f64) f64;
    m_exp2 exp2 (a: f64) f64;
    m_exp10 exp10 (a: f64) f64;
    m_expm1 expm1 (a: f64) f64;
    m_fabs fabs (a: f64) f64;
    m_floor floor (a: f64) f64;
    m_j0 j0 (a: f64) f64;
    m_j1 j1 (a: f64) f64;
    m_y0 y0 (a: f64) f64;
    m_y1 y1 (a: f64) f64;
    m_lgamma lgamma (a: f64) f64;
    m_log log (a: f64) f64;
    m_log1p log1p (a: f64) f64;
    m_log2 log2 (a: f64) f64;
    m_log10 log10 (a: f64) f64;
    m_rint rint (a: f64) f64;
    m_round round (a: f64) f64;
    m_roundeven roundeven (a: f64) f64;
    m_sin sin (a: f64) f64;
    m_sinh sinh (a: f64) f64;
    m_sqrt sqrt (a: f64) f64;
    m_tan tan (a: f64) f64;
    m_tanh tanh (a: f64) f64;
    m_tgamma tgamma (a: f64) f64;
    m_trunc trunc (a: f64) f64;
    m_acosf acosf (a: f32) f32;
    m_asinf asinf (a: f32) f32;
    m_acoshf acoshf (a: f32) f32;
    m_asinhf asinhf (a: f32) f32;
    m_atanf atanf (a: f32) f32;
    m_atanhf atanhf (a: f32) f32;
    m_cbrtf cbrtf (a: f32) f32;
    m_ceilf ceilf (a: f32) f32;
    m_cosf cosf (a: f32) f32;
    m_coshf coshf (a: f32) f32;
    m_erff erff (a: f32) f32;
    m_erfcf erfcf (a: f32) f32;
    m_expf expf (a: f32) f32;
    m_exp2f exp2f (a: f32) f32;
    m_exp10f exp10f (a: f32) f32;
    m_expm1f expm1f (a: f32) f32;
    m_fabsf fabsf (a: f32) f32;
    m_floorf floorf (a: f32) f32;
    m_j0f j0f (a: f32) f32;
    m_j1f j1f (a: f32) f32;
    m_y0f y0f (a: f32) f32;
    m_y1f y1f (a: f32) f32;
    m_lgammaf lgammaf (a: f32) f32;
    m_logf logf (a: f32) f32;
    m_log1pf log1pf (a: f32) f32;
    m_log2f log2f (a: f32) f32;
    m_log10f log10f (a: f32) f32;
    m_rintf rintf (a: f32) f32;
    m_roundf roundf (a: f32) f32;
    m_roundevenf roundevenf (a: f32) f32;
    m_sinf sinf (a: f32) f32;
    m_sinhf sinhf (a: f32) f32;
    m_sqrtf sqrtf (a: f32) f32;
    m_tanf tanf (a: f32) f32;
    m_tanhf tanhf (a: f32) f32;
    m_tgammaf tgammaf (a: f32) f32;
    m_truncf truncf (a: f32) f32;
    m_atan2 atan2 (a: f64, b: f64) f64;
    m_copysign copysign (a: f64, b: f64) f64;
    m_fdim fdim (a: f64, b: f64) f64;
    m_fmax fmax (a: f64, b: f64) f64;
    m_fmin fmin (a: f64, b: f64) f64;
    m_fmaximum fmaximum (a: f64, b: f64) f64;
    m_fminimum fminimum (a: f64, b: f64) f64;
    m_fmaximum_num fmaximum_num (a: f64, b: f64) f64;
    m_fminimum_num fminimum_num (a: f64, b: f64) f64;
    m_fmod fmod (a: f64, b: f64) f64;
    m_hypot hypot (a: f64, b: f64) f64;
    m_nextafter nextafter (a: f64, b: f64) f64;
    m_pow pow (a: f64, b: f64) f64;
    m_remainder remainder (a: f64, b: f64) f64;
    m_atan2f atan2f (a: f32, b: f32) f32;
    m_copysignf copysignf (a: f32, b: f32) f32;
    m_fdimf fdimf (a: f32, b: f32) f32;
    m_fmaxf fmaxf (a: f32, b: f32) f32;
    m_fminf fminf (a: f32, b: f32) f32;
    m_fmaximumf fmaximumf (a: f32, b: f32) f32;
    m_fminimumf fminimumf (a: f32, b: f32) f32;
    m_fmaximum_numf fmaximum_numf (a: f32, b: f32) f32;
    m_fminimum_numf fminimum_numf (a: f32, b: f32) f32;
    m_fmodf fmodf (a: f32, b: f32) f32;
    m_hypotf hypotf (a: f32, b: f32) f32;
    m_nextafterf nextafterf (a: f32, b: f32) f32;
    m_powf powf (a: f32, b: f32) f32;
    m_remainderf remainderf (a: f32, b: f32) f32;
    m_fma fma (a: f64, b: f64, c: f64) f64;
    m_fmaf fmaf (a: f32, b: f32, c: f32) f32;
    m_ldexp ldexp (a: f64, b: i32) f64;
    m_scalbn scalbn (a: f64, b: i32) f64;
    m_ldexpf ldexpf (a: f32, b: i32) f32;
    m_scalbnf scalbnf (a: f32, b: i32) f32;
    m_jn jn (a: i32, b: f64) f64;
    m_yn yn (a: i32, b: f64) f64;
    m_jnf jnf (a: i32, b: f32) f32;
    m_ynf ynf (a: i32, b: f32) f32;
    m_ilogb ilogb (a: f64) i32;
    m_ilogbf ilogbf (a: f32) i32;
    m_ceilf16 ceilf16 (a: f16) f16;
    m_fabsf16 fabsf16 (a: f16) f16;
    m_floorf16 floorf16 (a: f16) f16;
    m_rintf16 rintf16 (a: f16) f16;
    m_roundf16 roundf16 (a: f16) f16;
    m_roundevenf16 roundevenf16 (a: f16) f16;
    m_sqrtf16 sqrtf16 (a: f16) f16;
    m_truncf16 truncf16 (a: f16) f16;
    m_copysignf16 copysignf16 (a: f16, b: f16) f16;
    m_fdimf16 fdimf16 (a: f16, b: f16) f16;
    m_fmaxf16 fmaxf16 (a: f16, b: f16) f16;
    m_fminf16 fminf16 (a: f16, b: f16) f16;
    m_fmaximumf16 fmaximumf16 (a: f16, b: f16) f16;
    m_fminimumf16 fminimumf16 (a: f16, b: f16) f16;
    m_fmaximum_numf16 fmaximum_numf16 (a: f16, b: f16) f16;
    m_fminimum_numf16 fminimum_numf16 (a: f16, b: f16) f16;
    m_fmodf16 fmodf16 (a: f16, b: f16) f16;
    m_fmaf16 fmaf16 (a: f16, b: f16, c: f16) f16;
    m_ldexpf16 ldexpf16 (a: f16, b: i32) f16;
    m_scalbnf16 scalbnf16 (a: f16, b: i32) f16;
    m_ilogbf16 ilogbf16 (a: f16) i32;
    m_ceilf128 ceilf128 (a: f128) f128;
    m_fabsf128 fabsf128 (a: f128) f128;
    m_floorf128 floorf128 (a: f128) f128;
    m_rintf128 rintf128 (a: f128) f128;
    m_roundf128 roundf128 (a: f128) f128;
    m_roundevenf128 roundevenf128 (a: f128) f128;
    m_sqrtf128 sqrtf128 (a: f128) f128;
    m_truncf128 truncf128 (a: f128) f128;
    m_copysignf128 copysignf128 (a: f128, b: f128) f128;
    m_fdimf128 fdimf128 (a: f128, b: f128) f128;
    m_fmaxf128 fmaxf128 (a: f128, b: f128) f128;
    m_fminf128 fminf128 (a: f128, b: f128) f128;
    m_fmaximumf128 fmaximumf128 (a: f128, b: f128) f128;
    m_fminimumf128 fminimumf128 (a: f128, b: f128) f128;
    m_fmaximum_numf128 fmaximum_numf128 (a: f128, b: f128) f128;
    m_fminimum_numf128 fminimum_numf128 (a: f128, b: f128) f128;
    m_fmodf128 fmodf128 (a: f128, b: f128) f128;
    m_fmaf128 fmaf128 (a: f128, b: f128, c: f128) f128;
    m_ldexpf128 ldexpf128 (a: f128, b: i32) f128;
    m_scalbnf128 scalbnf128 (a: f128, b: i32) f128;
    m_ilogbf128 ilogbf128 (a: f128) i32;
}
w2! {
    m_frexp frexp (a: f64) f64, i32;
    m_frexpf frexpf (a: f32) f32, i32;
    m_frexpf16 frexpf16 (a: f16) f16, i32;
    m_frexpf128 frexpf128 (a: f128) f128, i32;
    m_modf modf (a: f64) f64, f64;
    m_modff modff (a: f32) f32, f32;
    m_lgamma_r lgamma_r (a: f64) f64, i32;
    m_lgammaf_r lgammaf_r (a: f32) f32, i32;
    m_sincos sincos (a: f64) f64, f64;
    m_sincosf sincosf (a: f32) f32, f32;
    m_remquo remquo (a: f64, b: f64) f64, i32;
    m_remquof remquof (a: f32, b: f32) f32, i32;
}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { core::arch::asm!("ud2", options(noreturn)) }
}
