// Callbacks of LLVM's SanitizerCoverage (this file is compiled without instrumentation): between
// ct_begin() and ct_end() every executed control-flow edge (its code address), every computed
// array index and every divisor of the calling thread goes, in order, into a hash.
#include <stdint.h>
static __thread uint64_t h, n;
static __thread int on;
static inline void mix(uint64_t x) {
    if (!on) return;
    h = (h ^ x) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    n++;
}
void ct_begin(void) { h = 0x243F6A8885A308D3ull; n = 0; on = 1; }
uint64_t ct_end(uint64_t *steps) { on = 0; *steps = n; return h; }
void __sanitizer_cov_trace_pc(void) { mix((uint64_t)__builtin_return_address(0)); }
void __sanitizer_cov_trace_gep(uintptr_t i) { mix(i ^ 0x1111111111111111ull); }
void __sanitizer_cov_trace_div4(uint32_t d) { mix(d ^ 0x2222222222222222ull); }
void __sanitizer_cov_trace_div8(uint64_t d) { mix(d ^ 0x3333333333333333ull); }
