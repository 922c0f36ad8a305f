D = "python/docc/python/"
A, U, N, S = D + "ast_parser.py", D + "ast_utils.py", D + "functions/numpy.py", D + "functions/scipy.py"
BETA = '''                beta = parse_beta(rest)
                if beta is None:
                    return False
'''
BUGS = [
    ("F01", [(N, BETA, '                beta = parse_beta(rest) or "0.0"\n')]),
    ("F01", [(N, BETA, '                beta = "1.0" if self._is_target(rest, target) else beta\n')]),
    ("F01", [(N, '                    return l, r, f if a == "1.0" else f"({a} * {f})"\n', '                    return l, r, f\n')]),
    ("F01", [(N, '''                if not self._is_target(value_node.right, target):
                    return False
                is_accumulate = True
''', '''                is_accumulate = self._is_target(value_node.right, target)
''')]),
    ("F01", [(N, '''                if not self._is_target(value_node.left, target):
                    return False
                is_accumulate = True
''', '''                if self._is_target(value_node.left, target):
                    is_accumulate = True
''')]),
    ("F01", [(N, "            return node.value.id, subscript\n", "            return node.value.id, None\n")]),
    ("F01", [(N, "        if len(node.args) != 2 or node.keywords:\n            return None\n", "        if len(node.args) != 2:\n            return None\n")]),
    ("F01", [(N, "        if len(node.args) != 2 or node.keywords:\n            return None\n", "        if len(node.args) < 2 or node.keywords:\n            return None\n")]),
    ("F01", [(N, '''                if not self._product_args(term):
                    return False
                outer_calls''', '''                if len(term.args) != 2:
                    return False
                outer_calls''')]),
    ("F01", [(N, '''                outer_calls.append(term)
            else:
                return False
''', '''                outer_calls.append(term)
            elif isinstance(term, ast.Name):
                continue
            else:
                return False
''')]),
    ("F01", [(N, "                    return node.left, self._ev.visit(node.right)\n                res = self.parse_arg(node.right)\n", "                    return node.left, \"1.0\"\n                res = self.parse_arg(node.right)\n") if 0 else
             (N, "                return node.value, True\n            return node, False\n", "                return node.value, True\n            if isinstance(node, ast.Subscript):\n                return node.value, False\n            return node, False\n")]),
    ("F01", [(N, '''                collect_terms(node.left)
                collect_terms(node.right)
''', '''                collect_terms(node.left)
                if not isinstance(node.right, ast.Constant):
                    collect_terms(node.right)
''')]),
    ("F01", [(N, '''            if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
                if self._is_target(node.left, target):
                    return self._ev.visit(node.right)
''', '''            if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
                if self._is_target(node.left, target):
                    return "1.0"
''')]),
]
SAME = [
    ("F01", [(N, BETA, '''                factor = parse_beta(rest)
                if not factor:
                    return False
                beta = factor
''')]),
    ("F01", [(N, '''                if not self._is_target(value_node.right, target):
                    return False
                is_accumulate = True
''', '''                is_accumulate = self._is_target(value_node.right, target)
                if not is_accumulate:
                    return False
''')]),
    ("F01", [(N, '''                l, r, a = parse_term(node.left)
                other = node.right
                if not l:
                    l, r, a = parse_term(node.right)
                    other = node.left
                if l:
                    f = self._ev.visit(other)
                    return l, r, f if a == "1.0" else f"({a} * {f})"
''', '''                for product, other in ((node.left, node.right), (node.right, node.left)):
                    l, r, a = parse_term(product)
                    if l:
                        f = self._ev.visit(other)
                        if a != "1.0":
                            f = f"({a} * {f})"
                        return l, r, f
''')]),
    ("F01", [(N, '''                l, r, a = parse_term(node.left)
                other = node.right
                if not l:
                    l, r, a = parse_term(node.right)
                    other = node.left
                if l:
                    f = self._ev.visit(other)
                    return l, r, f if a == "1.0" else f"({a} * {f})"
''', '''                l, r, a = parse_term(node.left)
                if l:
                    return l, r, scaled(a, node.right)
                l, r, a = parse_term(node.right)
                if l:
                    return l, r, scaled(a, node.left)
'''), (N, "        def parse_term(node):\n", '''        def scaled(a, node):
            f = self._ev.visit(node)
            return f if a == "1.0" else f"({a} * {f})"

        def parse_term(node):
''')]),
    ("F01", [(N, "        if len(node.args) != 2 or node.keywords:\n            return None\n        return node.args\n", '''        if node.keywords:
            return None
        if len(node.args) == 2:
            return node.args
        return None
''')]),
    ("F01", [(N, '''            args = self._product_args(dot_node)
            if not args:
                return False
            arg0 = args[0]
            arg1 = args[1]
''', '''            operands = self._product_args(dot_node)
            if operands is None:
                return False
            arg0, arg1 = operands
''')]),
    ("F01", [(N, '''            if self._is_target(term, target):
                if target_found:
                    return False
                target_found = True
            elif''', '''            if self._is_target(term, target) and not target_found:
                target_found = True
            elif''')]),
    ("F01", [(N, '''        dot_node = None
        is_accumulate = False

        if self._is_dot_call(value_node):
            dot_node = value_node
        elif''', '''        dot_node = None
        is_accumulate = False
        whole = self._is_dot_call(value_node)

        if whole:
            dot_node = value_node
        elif''')]),
    ("F01", [(N, '''            rest = value_node.right
            if not l:
                l, r, a = parse_term(value_node.right)
                rest = value_node.left
            if l:
''', '''            rest = value_node.right
            if l is None:
                rest = value_node.left
                l, r, a = parse_term(value_node.right)
            if l is not None:
''')]),
    ("F01", [(N, '''        location = self._location(target)
        return location is not None and self._location(node) == location
''', '''        wanted = self._location(target)
        if wanted is None:
            return False
        found = self._location(node)
        return found == wanted
''')]),
    ("F01", [(N, '''        location = self._location(target)
        return location is not None and self._location(node) == location
''', '''        location = self._location(target)
        if location is not None and self._location(node) == location:
            return True
        return False
''')]),
    ("F01", [(N, '''            arg0 = outer_node.args[0]
            arg1 = outer_node.args[1]

            res_a = self.parse_arg(arg0)
            res_b = self.parse_arg(arg1)
''', '''            first, second = outer_node.args
            res_a = self.parse_arg(first)
            res_b = self.parse_arg(second)
''')]),
    ("F01", [(N, '''            arg0 = outer_node.args[0]
            arg1 = outer_node.args[1]

            res_a = self.parse_arg(arg0)
            res_b = self.parse_arg(arg1)
''', '''            res_a, res_b = [self.parse_arg(arg) for arg in outer_node.args]
''')]),
    ("F01", [(N, '''        if isinstance(target, str):
            target_name = target
        elif isinstance(target, ast.Name):
            target_name = target.id
        elif isinstance(target, ast.Subscript):
            if isinstance(target.value, ast.Name):
                res = self.parse_arg(target)
                if res[0]:
                    target_name = res[0]
                    target_subset = self.flatten_subset(target_name, res[1])
''', '''        if isinstance(target, str):
            target_name = target
        elif isinstance(target, ast.Name):
            target_name = target.id
        elif isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name):
            target_name, offsets, _, _ = self.parse_arg(target)
            if target_name:
                target_subset = self.flatten_subset(target_name, offsets)
''')]),
]
