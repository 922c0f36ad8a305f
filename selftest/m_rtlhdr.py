H = "rtl/include/daisy_rtl/daisy_rtl.h"
BUGS = [
    ("H01", [(H, "((a) < (b) ? (a) : (b))", "(a < b ? a : b)")]),
    ("H01", [(H, "((a) > (b) ? (a) : (b))", "(a) > (b) ? (a) : (b)")]),
    ("H01", [(H, "((a) > (b) ? (a) : (b))", "((a) < (b) ? (a) : (b))")]),
    ("H01", [(H, "((a) * (b) + (c))", "((a) * (b + c))")]),
    ("H01", [(H, "        exp >>= 1;\n        if (exp) {\n            base *= base;\n        }\n", "        exp >>= 1;\n        base *= base;\n")]),
    ("H01", [(H, "    if (exp < 0) {\n        return 0;\n    }\n", "    if (exp <= 0) {\n        return 0;\n    }\n")]),
    ("H01", [(H, "        if (exp & 1) {\n            result *= base;", "        if (exp & 1) {\n            result += base;")]),
    ("H01", [(H, "        if (exp & 1) {\n", "        if (exp & 2) {\n")]),
    ("H01", [(H, "            base *= base;\n", "            base *= result;\n")]),
    ("H01", [(H, "    long long result = 1;", "    long long result = 0;")]),
    ("H01", [(H, "    long long result = 1;", "    int result = 1;")]),
    ("H01", [(H, "__daisy_sym_pow(long long base, long long exp)", "__daisy_sym_pow(int base, int exp)")]),
    ("H01", [(H, "    while (exp) {\n", "    while (exp && base) {\n")]),
    ("H01", [(H, "    while (exp) {\n", "    while (exp > 1) {\n")]),
]
SAME = [
    ("H01", [(H, "((a) < (b) ? (a) : (b))", "((b) < (a) ? (b) : (a))")]),
    ("H01", [(H, "((a) < (b) ? (a) : (b))", "((a) <= (b) ? (a) : (b))")]),
    ("H01", [(H, "((a) > (b) ? (a) : (b))", "((b) >= (a) ? (b) : (a))")]),
    ("H01", [(H, "((a) * (b) + (c))", "((c) + (b) * (a))")]),
    ("H01", [(H, "        if (exp & 1) {\n            result *= base;\n        }\n        exp >>= 1;\n        if (exp) {\n            base *= base;\n        }\n", "        if (exp % 2 == 1) {\n            result = base * result;\n        }\n        exp /= 2;\n        if (exp == 0) {\n            break;\n        }\n        base *= base;\n")]),
    ("H01", [(H, "    while (exp) {\n", "    while (exp > 0) {\n")]),
    ("H01", [(H, "    while (exp) {\n", "    for (; exp != 0;) {\n")]),
    ("H01", [(H, "    long long result = 1;\n    while (exp) {\n        if (exp & 1) {\n            result *= base;\n        }\n        exp >>= 1;\n        if (exp) {\n            base *= base;\n        }\n    }\n    return result;", "    long long result = 1;\n    for (long long i = 0; i < exp; i++) {\n        result *= base;\n    }\n    return result;")]),
]
