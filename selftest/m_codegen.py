L = "sdfg/src/codegen/language_extensions/"
C, CPP, CU = L + "c_language_extension.cpp", L + "cpp_language_extension.cpp", L + "cuda_language_extension.cpp"
HW, TH = "opt/src/targets/highway/codegen/highway_map_dispatcher.cpp", "sdfg/include/sdfg/data_flow/tasklet.h"
CM, SP = "sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h", "sdfg/src/passes/symbolic/symbol_promotion.cpp"
AR, PB = "mlir/lib/Target/SDFG/ArithToSDFGTranslator.cpp", "python/bindings/data_flow/py_tasklet.cpp"
I0, I1 = "tasklet.inputs().at(0)", "tasklet.inputs().at(1)"
BUGS = [
    ("G04", [(C, "TaskletCode::fp_sub:\n            return %s + \" - \" + %s;" % (I0, I1), "TaskletCode::fp_sub:\n            return %s + \" - \" + %s;" % (I1, I0))]),
    ("G04", [(CPP, "TaskletCode::int_sge:\n            return %s + \" >= \"" % I0, "TaskletCode::int_sge:\n            return %s + \" > \"" % I0)]),
    ("G04", [(CU, "TaskletCode::int_smin:\n            return %s + \" < \"" % I0, "TaskletCode::int_smin:\n            return %s + \" > \"" % I0)]),
    ("G04", [(C, "\"isnan(\" + %s + \") || isnan(\" + %s + \")\" + \" || \" +\n                   %s + \" > \"" % (I0, I1, I0), "\"isnan(\" + %s + \") || \" +\n                   %s + \" > \"" % (I0, I0))]),
    ("G04", [(C, "\" < 0 ? -\" + %s + \" : \" + %s" % (I0, I0), "\" < 0 ? \" + %s + \" : -\" + %s" % (I0, I0))]),
    ("G04", [(HW, 'CMathFunction::atan2:\n            return cmath_node.output(0) + " = hn::Atan2(" + d + ", " + cmath_node.input(0) + ", " +\n                   cmath_node.input(1)',
              'CMathFunction::atan2:\n            return cmath_node.output(0) + " = hn::Atan2(" + d + ", " + cmath_node.input(1) + ", " +\n                   cmath_node.input(0)')]),
    ("G04", [(HW, '" = hn::Log2(" + d', '" = hn::Log(" + d')]),
    ("G04", [(HW, 'TaskletCode::fp_olt:\n            return tasklet.output() + " = hn::Lt("', 'TaskletCode::fp_olt:\n            return tasklet.output() + " = hn::Le("')]),
    ("G04", [(TH, "        case TaskletCode::int_umin:\n        case TaskletCode::int_umax:\n        case TaskletCode::int_ucmp:\n        case TaskletCode::int_uge:", "        case TaskletCode::int_umin:\n        case TaskletCode::int_ucmp:\n        case TaskletCode::int_uge:")]),
    ("G04", [(CM, 'case types::PrimitiveType::Half:\n        case types::PrimitiveType::BFloat:', 'case types::PrimitiveType::BFloat:\n            return base_name;\n        case types::PrimitiveType::Half:')]),
    ("G04", [(CM, 'case CMathFunction::lrint:\n            return "lrint";', 'case CMathFunction::lrint:\n            return "rint";')]),
    ("G04", [(C, 'return "unsigned int";', 'return "int";')]),
    ("G04", [(C, '        str_ = "((" + apply(x.get_args()[0]) + ") / (" + apply(x.get_args()[1]) + "))";', '        str_ = "(" + apply(x.get_args()[0]) + " / " + apply(x.get_args()[0]) + ")";')]),
    ("G04", [(CPP, 'bvisit(const SymEngine::Unequality& x) {\n    str_ = apply(x.get_args()[0]) + " != "', 'bvisit(const SymEngine::Unequality& x) {\n    str_ = apply(x.get_args()[0]) + " == "')]),
    ("G04", [(C, '((int) ((unsigned int) ((unsigned long long) (" +', '((int) ((unsigned short) ((unsigned long long) (" +')]),
    ("G04", [(SP, "rhs = symbolic::max(op_1, op_2);", "rhs = symbolic::min(op_1, op_2);")]),
    ("G04", [(SP, "rhs = symbolic::mod(op_1, op_2);", "rhs = symbolic::mod(op_2, op_1);")]),
    ("G04", [(AR, "code = ::sdfg::data_flow::TaskletCode::int_sle;", "code = ::sdfg::data_flow::TaskletCode::int_ule;")]),
    ("G04", [(AR, "arith::ShRUIOp, ::sdfg::data_flow::TaskletCode::int_lshr", "arith::ShRUIOp, ::sdfg::data_flow::TaskletCode::int_ashr")]),
    ("G04", [(PB, '.value("fp_ule", sdfg::data_flow::TaskletCode::fp_ule)', '.value("fp_ule", sdfg::data_flow::TaskletCode::fp_ult)')]),
]
SAME = [
    ("G04", [(C, "TaskletCode::fp_sub:\n            return %s + \" - \" + %s;" % (I0, I1), "TaskletCode::fp_sub: {\n            const auto& a = %s;\n            const std::string& b = %s;\n            return \"(\" + a + \" - \" + b + \")\";\n        }" % (I0, I1))]),
    ("G04", [(C, "TaskletCode::fp_add:\n            return %s + \" + \" + %s;" % (I0, I1), "TaskletCode::fp_add:\n            return %s + \" + \" + %s;" % (I1, I0))]),
    ("G04", [(C, "\"isnan(\" + %s + \") || isnan(\" + %s + \")\" + \" || \" +\n                   %s + \" > \" + %s" % (I0, I1, I0, I1), "\"!(\" + %s + \" <= \" + %s + \")\"" % (I0, I1))]),
    ("G04", [(C, "\" < 0 ? -\" + %s + \" : \" + %s" % (I0, I0), "\" >= 0 ? \" + %s + \" : -\" + %s" % (I0, I0))]),
    ("G04", [(C, "        case data_flow::TaskletCode::int_smin:\n            return %s + \" < \" + %s + \" ? \" + %s + \" : \" +\n                   %s;" % (I0, I1, I0, I1),
              "        case data_flow::TaskletCode::int_smin: {\n            std::string s = %s;\n            s += \" <= \";\n            s += %s;\n            s += \" ? \";\n            s += %s;\n            return s + \" : \" + %s;\n        }" % (I0, I1, I0, I1))]),
    ("G04", [(HW, 'TaskletCode::fp_fma:\n            return tasklet.output() + " = hn::MulAdd(" + tasklet.input(0) + ", " + tasklet.input(1) + ", " +', 'TaskletCode::fp_fma:\n            return tasklet.output() + " = hn::MulAdd(" + tasklet.input(1) + ", " + tasklet.input(0) + ", " +')]),
    ("G04", [(TH, "constexpr bool is_unsigned(TaskletCode c) {\n    switch (c) {", "constexpr bool is_unsigned(TaskletCode c) {\n    if (is_floating_point_code(c)) return false;\n    switch (c) {"),
             (TH, "/**\n * @brief Check if a tasklet operation is unsigned", "constexpr bool is_floating_point_code(TaskletCode c) { return c == TaskletCode::fp_add; }\n/**\n * @brief Check if a tasklet operation is unsigned")]),
    ("G04", [(C, 'return "unsigned int";', 'return "uint32_t";')]),
    ("G04", [(SP, "auto op_1 = as_symbol(dataflow, *tasklet, tasklet->input(0));\n            auto op_2 = as_symbol(dataflow, *tasklet, tasklet->input(1));\n            rhs = symbolic::max(op_1, op_2);", "rhs = symbolic::max(as_symbol(dataflow, *tasklet, tasklet->input(1)), as_symbol(dataflow, *tasklet, tasklet->input(0)));")]),
    ("G04", [(C, '        str_ = "((" + apply(x.get_args()[0]) + ") / (" + apply(x.get_args()[1]) + "))";', '        const auto lhs = apply(x.get_args()[0]);\n        const auto rhs = apply(x.get_args()[1]);\n        str_ = "((" + lhs + ")/(" + rhs + "))";')]),
    ("G04", [(CM, '    std::string base_name = cmath_function_to_stem(func);\n\n    switch', '    const std::string base_name(cmath_function_to_stem(func));\n    if (prim_type == types::PrimitiveType::Float) return base_name + std::string("f");\n    switch')]),
    ("G04", [(AR, "code = ::sdfg::data_flow::TaskletCode::int_sle;", "/* signed */ code = sdfg::data_flow::TaskletCode::int_sle;")]),
]
