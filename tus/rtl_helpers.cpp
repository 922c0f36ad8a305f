// Uses of the runtime header's helper macros with operands and contexts of every precedence.
#include <daisy_rtl/daisy_rtl.h>
int w_min(int a, int b, int d) { return d * __daisy_min(a | 1, b | 2); }
int w_max(int a, int b, int d) { return d * __daisy_max(a | 1, b | 2); }
int w_fma(int a, int b, int c, int d) { return d * __daisy_fma(a | 1, b | 2, c | 4); }
long long w_pow(long long a, long long b) { return __daisy_sym_pow(a, b); }
