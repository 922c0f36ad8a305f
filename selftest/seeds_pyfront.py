A = "python/docc/python/ast_parser.py"
N = "python/docc/python/functions/numpy.py"
SEEDS = [
    dict(id="f01_while_else_dropped", property="F01",
         edits=[(A, '        if node.orelse:\n            raise NotImplementedError("while-else is not supported")\n\n        debug_info = get_debug_info(node, self.filename, self.function_name)\n        self.builder.begin_while', '        debug_info = get_debug_info(node, self.filename, self.function_name)\n        self.builder.begin_while')],
         needs="a while loop with an else block", breaks="the else block is left out of the program",
         py='''
import sys
from docc_stub import refused, translate


def plain(n: int) -> int:
    i = 0
    while i < n:
        i = i + 1
    return i


def with_else(n: int) -> int:
    i = 0
    while i < n:
        i = i + 1
    else:
        i = 12345
    return i


if isinstance(translate(plain, 3), Exception):
    sys.exit(1)
sys.exit(0 if refused(with_else, 3) or "12345" in repr(translate(with_else, 3)) else 1)
'''),
    dict(id="f01_chained_compare_cut", property="F01",
         edits=[(A, '        if len(node.ops) > 1:\n            raise NotImplementedError("Chained comparisons not supported yet")\n', '        if len(node.ops) > 2:\n            raise NotImplementedError("Chained comparisons not supported yet")\n')],
         needs="a comparison with two operators", breaks="a < b < c is translated as a < b",
         py='''
import sys
from docc_stub import refused, translate


def two(a: int, b: int) -> int:
    if a < b:
        return 1
    return 0


def three(a: int, b: int, cee: int) -> int:
    if a < b < cee:
        return 1
    return 0


if isinstance(translate(two, 1, 2), Exception):
    sys.exit(1)
t = translate(three, 1, 2, 3)
sys.exit(0 if refused(three, 1, 2, 3) or any("cee" in repr(x) for x in t if x[0] in ("begin_if", "add_access")) else 1)
'''),
    dict(id="f01_third_operand_of_and", property="F01",
         edits=[(A, 'values = [f"({self.visit(v)} != 0)" for v in node.values]', 'values = [f"({self.visit(v)} != 0)" for v in node.values[:2]]')],
         needs="and/or with three operands", breaks="the third operand is left out",
         py='''
import sys
from docc_stub import translate


def f(a: int, b: int, cee: int) -> int:
    if a and b and cee:
        return 1
    return 0


def g(a: int, b: int) -> int:
    if a or b:
        return 1
    return 0


if isinstance(translate(g, 1, 0), Exception):
    sys.exit(1)
t = translate(f, 1, 2, 0)
if isinstance(t, Exception):
    sys.exit(1)
sys.exit(0 if any("cee" in repr(x) for x in t if x[0] in ("begin_if", "add_access", "add_transition", "add_assignment")) else 1)
'''),
]
