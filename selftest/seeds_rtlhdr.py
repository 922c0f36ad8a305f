H = "rtl/include/daisy_rtl/daisy_rtl.h"
SEEDS = [
    dict(id="h01_max_result_bare", property="H01", lib="rtl",
         edits=[(H, "#define __daisy_max(a, b) ((a) > (b) ? (a) : (b))", "#define __daisy_max(a, b) (a) > (b) ? (a) : (b)")],
         needs="the maximum used inside a larger expression", breaks="max(a, b) + 1 loses the addition for one of the operands",
         cpp=r"""
#include <daisy_rtl/daisy_rtl.h>
int n = 7, m = 3;
int main() {
    if (__daisy_max(n, m) + 1 != 8 || __daisy_max(m, n) + 1 != 8) return 1;
    if (__daisy_max(n | 8, m) != 15 || __daisy_min(n, m | 4) * 2 != 14) return 1;
    return __daisy_sym_pow(3, 5) == 243 ? 0 : 1;
}
"""),
    dict(id="h01_pow_zero_base_exit", property="H01", lib="rtl",
         edits=[(H, "    while (exp) {\n", "    while (exp && base) {\n")],
         needs="a base of zero with an even exponent", breaks="0^2 gives 1",
         cpp=r"""
#include <daisy_rtl/daisy_rtl.h>
int main() {
    for (int b = -3; b <= 4; ++b)
        for (int e = 0; e < 9; ++e) {
            long long w = 1;
            for (int i = 0; i < e; ++i) w *= b;
            if (__daisy_sym_pow(b, e) != w) return 1;
        }
    return __daisy_sym_pow(5, -1) == 0 ? 0 : 1;
}
"""),
]
