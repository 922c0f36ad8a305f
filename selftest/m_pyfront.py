D = "python/docc/python/"
A, U, N, S = D + "ast_parser.py", D + "ast_utils.py", D + "functions/numpy.py", D + "functions/scipy.py"
PY, MA = D + "functions/python.py", D + "functions/math.py"
GV = '''        raise NotImplementedError(
            f"Unsupported syntax: {type(node).__name__} "
            f"(line {getattr(node, 'lineno', '?')})"
        )
'''
BUGS = [
    ("F01", [(A, GV, '        if isinstance(node, ast.stmt):\n' + GV.replace("        ", "            ", 1).replace("            f", "                f").replace("        )", "            )") + '        super().generic_visit(node)\n')]),
    ("F01", [(A, '        if node.orelse:\n            raise NotImplementedError("while-else is not supported")\n\n        debug_info', '        debug_info')]),
    ("F01", [(A, '        if node.orelse:\n            self.builder.begin_else(debug_info)\n            for stmt in node.orelse:\n                self.visit(stmt)\n\n        self.builder.end_if()', '        self.builder.end_if()')]),
    ("F01", [(A, '        if len(node.ops) > 1:\n            raise NotImplementedError("Chained comparisons not supported yet")\n', '')]),
    ("F01", [(A, "values = [f\"({self.visit(v)} != 0)\" for v in node.values]", "values = [f\"({self.visit(v)} != 0)\" for v in (node.values[0], node.values[1])]")]),
    ("F01", [(A, "        parsed_values = [self.visit(v) for v in values]\n        debug_info", "        values = values[:1]\n        parsed_values = [self.visit(v) for v in values]\n        debug_info")]),
    ("F01", [(U, "    if len(node.args) > max_args:\n        raise NotImplementedError(\n            f\"Only the first {max_args} positional arguments are supported: \"\n            f\"{ast.unparse(node)}\"\n        )\n", "")]),
    ("F01", [(U, "        if kw.arg not in keywords:\n", "        if keywords and kw.arg not in keywords:\n")]),
    ("F01", [(N, 'check_call(node, 2, ("axis", "keepdims"))', 'check_call(node, 2, ("axis", "keepdims", "dtype"))')]),
    ("F01", [(N, "                        if idx.step is not None:\n                            # Not a contiguous sub-array\n                            return None, None, None, None\n", "")]),
    ("F01", [(S, "                val = constant_value(elt)\n                if val < 0:\n                    val += ndim\n                axes.append(val)\n", "                if isinstance(elt, ast.Constant):\n                    axes.append(elt.value)\n")]),
    ("F01", [(N, '            if kw.arg == "axis":\n                axis = constant_value(kw.value)\n', '            if kw.arg == "axis" and isinstance(kw.value, ast.Constant):\n                axis = kw.value.value\n')]),
    ("F01", [(A, "        check_call(node, len(func_def.args.args))\n", "")]),
    ("F01", [(A, "    def visit_Break(self, node):\n", "    def visit_Try(self, node):\n        for stmt in node.body:\n            self.visit(stmt)\n\n    def visit_Break(self, node):\n")]),
    ("F01", [(A, "            for stmt in node.body:\n                self.visit(stmt)\n\n            self.builder.end_for()\n            return", "            for stmt in node.body[:-1]:\n                self.visit(stmt)\n\n            self.builder.end_for()\n            return")]),
    ("F01", [(A, "    def visit_Break(self, node):\n", "    def visit_With(self, node):\n        for stmt in node.body:\n            self.visit(stmt)\n\n    def visit_Break(self, node):\n")]),
    ("F01", [(A, "                if idx.step is not None:\n                    step_str = self.visit(idx.step)\n", "")]),
    ("F01", [(A, '        if len(node.ops) > 1:\n', '        if len(node.ops) > 2:\n')]),
    ("F01", [(N, 'check_call(node, 2, ("axis",))', 'check_call(node, 3, ("axis",))')]),
    ("F01", [(N, 'clipping."""\n        check_call(node, 3)\n        if len(node.args) != 3:', 'clipping."""\n        if len(node.args) < 3:')]),
]
SAME = [
    ("F01", [(A, GV, '        kind = type(node).__name__\n        line = getattr(node, "lineno", "?")\n        raise NotImplementedError("Unsupported syntax: %s (line %s)" % (kind, line))\n')]),
    ("F01", [(U, "    for kw in node.keywords:\n        if kw.arg not in keywords:\n            raise NotImplementedError(\n                f\"Keyword argument {kw.arg} is not supported: {ast.unparse(node)}\"\n            )\n", "    unknown = [kw.arg for kw in node.keywords if kw.arg not in keywords]\n    if unknown:\n        raise NotImplementedError(f\"Keyword arguments {unknown} are not supported: {ast.unparse(node)}\")\n")]),
    ("F01", [(A, '        if node.orelse:\n            self.builder.begin_else(debug_info)\n            for stmt in node.orelse:\n                self.visit(stmt)\n\n        self.builder.end_if()', '        if len(node.orelse) > 0:\n            self.builder.begin_else(debug_info)\n            self._visit_block(node.orelse)\n        self.builder.end_if()'),
             (A, "    def visit_While(self, node):\n", "    def _visit_block(self, stmts):\n        for stmt in stmts:\n            self.visit(stmt)\n\n    def visit_While(self, node):\n")]),
    ("F01", [(A, '        if len(node.ops) > 1:\n            raise NotImplementedError("Chained comparisons not supported yet")\n', '        if len(node.ops) != 1 or len(node.comparators) != 1:\n            raise NotImplementedError("Chained comparisons not supported yet")\n')]),
    ("F01", [(A, "        values = [f\"({self.visit(v)} != 0)\" for v in node.values]\n", "        values = []\n        for v in node.values:\n            values.append(f\"({self.visit(v)} != 0)\")\n")]),
    ("F01", [(N, '        check_call(node, 2, ("axis", "keepdims"))\n', '        allowed = ("axis", "keepdims")\n        check_call(node, max_args=2, keywords=allowed)\n')]),
    ("F01", [(N, "                        if idx.step is not None:\n                            # Not a contiguous sub-array\n                            return None, None, None, None\n", "                        if not (idx.step is None):\n                            return (None,) * 4\n")]),
    ("F01", [(N, '            if kw.arg == "axis":\n                axis = constant_value(kw.value)\n', '            if kw.arg != "axis":\n                continue\n            axis = constant_value(kw.value)\n')]),
    ("F01", [(A, "        if isinstance(node.value, ast.Tuple):\n            values = node.value.elts\n        else:\n            values = [node.value]\n\n        parsed", "        values = node.value.elts if isinstance(node.value, ast.Tuple) else [node.value]\n\n        parsed")]),
    ("F01", [(N, "    def _handle_numpy_clip(self, node, func_name):\n", "    def _refuse_options(self, node, count):\n        check_call(node, count)\n        return node.args\n\n    def _handle_numpy_clip(self, node, func_name):\n"), (N, 'elementwise clipping."""\n        check_call(node, 3)\n', 'elementwise clipping."""\n        args = self._refuse_options(node, 3)\n')]),
    ("F01", [(N, 'clipping."""\n        check_call(node, 3)\n        if len(node.args) != 3:', 'clipping."""\n        count = len(node.args)\n        if node.keywords:\n            raise NotImplementedError("np.clip has no options")\n        if count < 3 or count >= 4:')]),
    ("F01", [(A, '        if node.value is None:\n            return\n        assign = ast.Assign', '        value = node.value\n        if not value:\n            return\n        assign = ast.Assign')]),
]
