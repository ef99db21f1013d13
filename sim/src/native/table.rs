//! Routines of the 64-bit image and their signatures.
//!
//! h f d q: f16 f32 f64 f128; i l x: 32/64/128-bit integers; s: shift amount; A B C D: pointer to a
//! result of 2/4/8/16 bytes; M: operands of a memory routine.  `m_` is libm's public function, the
//! other names are symbols of compiler-builtins.
pub const TABLE: &str = "\
__addsf3 ff>f
__adddf3 dd>d
__addtf3 qq>q
__addhf3 hh>h
__subsf3 ff>f
__subdf3 dd>d
__subtf3 qq>q
__subhf3 hh>h
__mulsf3 ff>f
__muldf3 dd>d
__multf3 qq>q
__mulhf3 hh>h
__divsf3 ff>f
__divdf3 dd>d
__divtf3 qq>q
__eqsf2 ff>i
__eqdf2 dd>i
__eqtf2 qq>i
__eqhf2 hh>i
__nesf2 ff>i
__nedf2 dd>i
__netf2 qq>i
__nehf2 hh>i
__ltsf2 ff>i
__ltdf2 dd>i
__lttf2 qq>i
__lthf2 hh>i
__lesf2 ff>i
__ledf2 dd>i
__letf2 qq>i
__lehf2 hh>i
__gtsf2 ff>i
__gtdf2 dd>i
__gttf2 qq>i
__gthf2 hh>i
__gesf2 ff>i
__gedf2 dd>i
__getf2 qq>i
__gehf2 hh>i
__unordsf2 ff>i
__unorddf2 dd>i
__unordtf2 qq>i
__unordhf2 hh>i
__extendsfdf2 f>d
__extendhfsf2 h>f
__extendhfdf2 h>d
__extendhftf2 h>q
__extendsftf2 f>q
__extenddftf2 d>q
__gnu_h2f_ieee h>f
__gnu_f2h_ieee f>h
__truncdfsf2 d>f
__truncsfhf2 f>h
__truncdfhf2 d>h
__trunctfhf2 q>h
__trunctfsf2 q>f
__trunctfdf2 q>d
__fixsfsi f>i
__fixsfdi f>l
__fixsfti f>x
__fixdfsi d>i
__fixdfdi d>l
__fixdfti d>x
__fixtfsi q>i
__fixtfdi q>l
__fixtfti q>x
__fixunssfsi f>i
__fixunssfdi f>l
__fixunssfti f>x
__fixunsdfsi d>i
__fixunsdfdi d>l
__fixunsdfti d>x
__fixunstfsi q>i
__fixunstfdi q>l
__fixunstfti q>x
__floatsisf i>f
__floatdisf l>f
__floattisf x>f
__floatsidf i>d
__floatdidf l>d
__floattidf x>d
__floatsitf i>q
__floatditf l>q
__floattitf x>q
__floatunsisf i>f
__floatundisf l>f
__floatuntisf x>f
__floatunsidf i>d
__floatundidf l>d
__floatuntidf x>d
__floatunsitf i>q
__floatunditf l>q
__floatuntitf x>q
__powisf2 fi>f
__powidf2 di>d
__powitf2 qi>q
__ashlsi3 is>i
__ashrsi3 is>i
__lshrsi3 is>i
__bswapsi2 i>i
__clzsi2 i>i
__ctzsi2 i>i
__divsi3 ii>i
__modsi3 ii>i
__udivsi3 ii>i
__umodsi3 ii>i
__divmodsi4 iiB>i
__udivmodsi4 iiB>i
__mulosi4 iiB>i
__ashldi3 ls>l
__ashrdi3 ls>l
__lshrdi3 ls>l
__bswapdi2 l>l
__clzdi2 l>i
__ctzdi2 l>i
__divdi3 ll>l
__moddi3 ll>l
__udivdi3 ll>l
__umoddi3 ll>l
__divmoddi4 llC>l
__udivmoddi4 llC>l
__mulodi4 llB>l
__ashlti3 xs>x
__ashrti3 xs>x
__lshrti3 xs>x
__bswapti2 x>x
__clzti2 x>i
__ctzti2 x>i
__divti3 xx>x
__modti3 xx>x
__udivti3 xx>x
__umodti3 xx>x
__divmodti4 xxD>x
__udivmodti4 xxD>x
__muloti4 xxB>x
__muldi3 ll>l
__multi3 xx>x
__rust_i128_add xx>x
__rust_i128_sub xx>x
__rust_i128_addo xxB>x
__rust_i128_subo xxB>x
__rust_i128_mulo xxB>x
__rust_u128_add xx>x
__rust_u128_sub xx>x
__rust_u128_addo xxB>x
__rust_u128_subo xxB>x
__rust_u128_mulo xxB>x
cbrt d>d
ceil d>d
fabs d>d
floor d>d
rint d>d
round d>d
roundeven d>d
sqrt d>d
trunc d>d
copysign dd>d
fdim dd>d
fmax dd>d
fmin dd>d
fmaximum dd>d
fminimum dd>d
fmaximum_num dd>d
fminimum_num dd>d
fmod dd>d
fma ddd>d
cbrtf f>f
ceilf f>f
fabsf f>f
floorf f>f
rintf f>f
roundf f>f
roundevenf f>f
sqrtf f>f
truncf f>f
copysignf ff>f
fdimf ff>f
fmaxf ff>f
fminf ff>f
fmaximumf ff>f
fminimumf ff>f
fmaximum_numf ff>f
fminimum_numf ff>f
fmodf ff>f
fmaf fff>f
ceilf16 h>h
fabsf16 h>h
floorf16 h>h
rintf16 h>h
roundf16 h>h
roundevenf16 h>h
sqrtf16 h>h
truncf16 h>h
copysignf16 hh>h
fdimf16 hh>h
fmaxf16 hh>h
fminf16 hh>h
fmaximumf16 hh>h
fminimumf16 hh>h
fmaximum_numf16 hh>h
fminimum_numf16 hh>h
fmodf16 hh>h
ceilf128 q>q
fabsf128 q>q
floorf128 q>q
rintf128 q>q
roundf128 q>q
roundevenf128 q>q
sqrtf128 q>q
truncf128 q>q
copysignf128 qq>q
fdimf128 qq>q
fmaxf128 qq>q
fminf128 qq>q
fmaximumf128 qq>q
fminimumf128 qq>q
fmaximum_numf128 qq>q
fminimum_numf128 qq>q
fmodf128 qq>q
fmaf128 qqq>q
memcpy M>l
memmove M>l
memset M>l
memcmp M>i
bcmp M>i
strlen M>l
m_acos d>d
m_asin d>d
m_acosh d>d
m_asinh d>d
m_atan d>d
m_atanh d>d
m_cbrt d>d
m_ceil d>d
m_cos d>d
m_cosh d>d
m_erf d>d
m_erfc d>d
m_exp d>d
m_exp2 d>d
m_exp10 d>d
m_expm1 d>d
m_fabs d>d
m_floor d>d
m_j0 d>d
m_j1 d>d
m_y0 d>d
m_y1 d>d
m_lgamma d>d
m_log d>d
m_log1p d>d
m_log2 d>d
m_log10 d>d
m_rint d>d
m_round d>d
m_roundeven d>d
m_sin d>d
m_sinh d>d
m_sqrt d>d
m_tan d>d
m_tanh d>d
m_tgamma d>d
m_trunc d>d
m_acosf f>f
m_asinf f>f
m_acoshf f>f
m_asinhf f>f
m_atanf f>f
m_atanhf f>f
m_cbrtf f>f
m_ceilf f>f
m_cosf f>f
m_coshf f>f
m_erff f>f
m_erfcf f>f
m_expf f>f
m_exp2f f>f
m_exp10f f>f
m_expm1f f>f
m_fabsf f>f
m_floorf f>f
m_j0f f>f
m_j1f f>f
m_y0f f>f
m_y1f f>f
m_lgammaf f>f
m_logf f>f
m_log1pf f>f
m_log2f f>f
m_log10f f>f
m_rintf f>f
m_roundf f>f
m_roundevenf f>f
m_sinf f>f
m_sinhf f>f
m_sqrtf f>f
m_tanf f>f
m_tanhf f>f
m_tgammaf f>f
m_truncf f>f
m_atan2 dd>d
m_copysign dd>d
m_fdim dd>d
m_fmax dd>d
m_fmin dd>d
m_fmaximum dd>d
m_fminimum dd>d
m_fmaximum_num dd>d
m_fminimum_num dd>d
m_fmod dd>d
m_hypot dd>d
m_nextafter dd>d
m_pow dd>d
m_remainder dd>d
m_atan2f ff>f
m_copysignf ff>f
m_fdimf ff>f
m_fmaxf ff>f
m_fminf ff>f
m_fmaximumf ff>f
m_fminimumf ff>f
m_fmaximum_numf ff>f
m_fminimum_numf ff>f
m_fmodf ff>f
m_hypotf ff>f
m_nextafterf ff>f
m_powf ff>f
m_remainderf ff>f
m_fma ddd>d
m_fmaf fff>f
m_ldexp di>d
m_scalbn di>d
m_ldexpf fi>f
m_scalbnf fi>f
m_jn id>d
m_yn id>d
m_jnf if>f
m_ynf if>f
m_ilogb d>i
m_ilogbf f>i
m_ceilf16 h>h
m_fabsf16 h>h
m_floorf16 h>h
m_rintf16 h>h
m_roundf16 h>h
m_roundevenf16 h>h
m_sqrtf16 h>h
m_truncf16 h>h
m_copysignf16 hh>h
m_fdimf16 hh>h
m_fmaxf16 hh>h
m_fminf16 hh>h
m_fmaximumf16 hh>h
m_fminimumf16 hh>h
m_fmaximum_numf16 hh>h
m_fminimum_numf16 hh>h
m_fmodf16 hh>h
m_fmaf16 hhh>h
m_ldexpf16 hi>h
m_scalbnf16 hi>h
m_ilogbf16 h>i
m_ceilf128 q>q
m_fabsf128 q>q
m_floorf128 q>q
m_rintf128 q>q
m_roundf128 q>q
m_roundevenf128 q>q
m_sqrtf128 q>q
m_truncf128 q>q
m_copysignf128 qq>q
m_fdimf128 qq>q
m_fmaxf128 qq>q
m_fminf128 qq>q
m_fmaximumf128 qq>q
m_fminimumf128 qq>q
m_fmaximum_numf128 qq>q
m_fminimum_numf128 qq>q
m_fmodf128 qq>q
m_fmaf128 qqq>q
m_ldexpf128 qi>q
m_scalbnf128 qi>q
m_ilogbf128 q>i
m_frexp dB>d
m_frexpf fB>f
m_frexpf16 hB>h
m_frexpf128 qB>q
m_modf dC>d
m_modff fB>f
m_lgamma_r dB>d
m_lgammaf_r fB>f
m_sincos dC>d
m_sincosf fB>f
m_remquo ddB>d
m_remquof ffB>f
";
