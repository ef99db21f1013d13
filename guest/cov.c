/* Records the comparisons the instrumented library makes. */
typedef unsigned long u64;
struct { u64 pc, a, b; } nsim_cmp[2048];
u64 nsim_cmps;

static inline __attribute__((always_inline)) void rec(u64 pc, u64 a, u64 b)
{
	if (nsim_cmps < 2048) {
		nsim_cmp[nsim_cmps].pc = pc;
		nsim_cmp[nsim_cmps].a = a;
		nsim_cmp[nsim_cmps].b = b;
		nsim_cmps++;
	}
}
#define CMP(n, t) void n(t a, t b) { rec((u64)__builtin_return_address(0), a, b); }
CMP(__sanitizer_cov_trace_cmp1, unsigned char)
CMP(__sanitizer_cov_trace_cmp2, unsigned short)
CMP(__sanitizer_cov_trace_cmp4, unsigned)
CMP(__sanitizer_cov_trace_cmp8, u64)
CMP(__sanitizer_cov_trace_const_cmp1, unsigned char)
CMP(__sanitizer_cov_trace_const_cmp2, unsigned short)
CMP(__sanitizer_cov_trace_const_cmp4, unsigned)
CMP(__sanitizer_cov_trace_const_cmp8, u64)
void __sanitizer_cov_trace_switch(u64 v, u64 *cases)
{
	for (u64 i = 0; i < cases[0] && i < 64; i++)
		rec((u64)__builtin_return_address(0) + (i << 48), v, cases[2 + i]);
}
void __sanitizer_cov_8bit_counters_init(void) {}
void __sanitizer_cov_pcs_init(void) {}
