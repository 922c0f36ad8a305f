K = "python/docc/python/python_program.py"
HEAD = '''
import os
import sys
import tempfile
import numpy as np
import docc_stub
from docc.python import python_program as pp


class Kernel:
    def __init__(self, lib_path, sdfg, *rest):
        self.lib_path = lib_path


pp.CompiledSDFG = Kernel


def program(f):
    return pp.PythonProgram(f, target="none", category="server")


def reused(p, first, second):
    with tempfile.TemporaryDirectory() as d:
        os.environ["DOCC_TMP"] = d
        k = p.compile(*first)
        return p.compile(*second) is k

'''
SEEDS = [
    dict(id="f02_which_dimension_matches", property="F02",
         edits=[(K, "mapping_sig = sorted(arg_shape_mapping.items())", "mapping_sig = sorted(arg_shape_mapping.values())")],
         needs="two calls whose arrays share the same number of equal dimensions at different places", breaks="the kernel compiled for A (n,m), B (m,n) runs on A (n,n), B (m,m)",
         py=HEAD + '''
def add(a, b):
    a[0, 0] = b[0, 0]


same = reused(program(add), (np.ones((3, 4)), np.ones((4, 3))), (np.ones((5, 6)), np.ones((6, 5))))
other = reused(program(add), (np.ones((3, 4)), np.ones((4, 3))), (np.ones((3, 3)), np.ones((4, 4))))
sys.exit(0 if same and not other else 1)
'''),
    dict(id="f02_which_scalar_is_the_length", property="F02",
         edits=[(K, "equiv_sig = sorted(shape_to_scalar.items())", "equiv_sig = sorted(shape_to_scalar)")],
         needs="a function with two integer parameters, called first with the one and then with the other equal to the array's length",
         breaks="the second call runs the kernel that takes the length from the first parameter",
         py=HEAD + '''
def fill(a, n, m):
    a[0] = n


same = reused(program(fill), (np.ones(3), 3, 7), (np.ones(4), 4, 9))
other = reused(program(fill), (np.ones(3), 3, 7), (np.ones(3), 7, 3))
sys.exit(0 if same and not other else 1)
'''),
    dict(id="f02_pointer_types_alike", property="F02",
         edits=[(K, 'return f"Pointer({self._type_to_str(t.pointee_type)})"',
                 'return f"Pointer({type(t.pointee_type).__name__})"')],
         needs="one program called with arrays of two element types", breaks="the kernel compiled for double arrays is reused for float32 arrays",
         py=HEAD + '''
def fill(a):
    a[0] = 1.0


same = reused(program(fill), (np.ones(3),), (np.ones(4),))
other = reused(program(fill), (np.ones(3),), (np.ones(3, dtype=np.float32),))
sys.exit(0 if same and not other else 1)
'''),
]
