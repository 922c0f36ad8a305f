C = "python/docc/compiler/compiled_sdfg.py"
P = "python/docc/python/python_program.py"
BUGS = [
    ("F06", [(C, "                val = args[u_idx].shape[dim_idx]\n", "                val = args[u_idx].shape[0]\n")]),
    ("F06", [(C, "                s_idx = self.shape_sources.index((u_idx, dim_idx))\n", "                s_idx = u_idx\n")]),
    ("F06", [(C, "                    size = 1\n                    dims", "                    size = 0\n                    dims")]),
    ("F06", [(C, "                            size *= int(val)\n", "                            size = int(val)\n")]),
    ("F06", [(C, "return_buffers.keys(), key=lambda x: int(x.split(\"_\")[-1])", "return_buffers.keys()")]),
    ("F06", [(C, "                    converted_args.append(ctypes.c_int64(val))\n", "                    converted_args.append(ctypes.c_int32(val))\n")]),
    ("F06", [(C, "                                        * itemsize\n", "                                        * 8\n")]),
    ("F06", [(C, "            self.func.restype = None\n", "            pass\n")]),
    ("F06", [(C, "    PrimitiveType.Int32: ctypes.c_int32,\n", "    PrimitiveType.Int32: ctypes.c_uint32,\n")]),
    ("F06", [(C, "        for i, arg_name in enumerate(self.arg_names):\n            target_type = self.arg_types[i]\n", "        for i, arg_name in enumerate(sorted(self.arg_names)):\n            target_type = self.arg_types[i]\n")]),
    ("F06", [(C, "                    if dims:\n", "                    if dims and len(dims) > 2:\n")]),
    ("F06", [(C, "                results.append(buf.value)\n", "                results.append(int(buf.value))\n")]),
    ("F06", [(P, "|{equiv_sig}|{layout_sig}", "|{layout_sig}")]),
    ("F06", [(P, "|{equiv_sig}|{layout_sig}", "|{equiv_sig}")]),
    ("F06", [(P, "            ones = [dim == 1 for dim in arg.shape]\n", "            ones = [dim == 0 for dim in arg.shape]\n")]),
]
SAME = [
    ("F06", [(C, "        converted_args = []\n        structure_refs = []\n        return_buffers = {}\n", "        return_buffers = dict()\n        structure_refs = list()\n        converted_args = list()\n")]),
    ("F06", [(C, "        if len(results) == 1:\n            return results[0]\n        elif len(results) > 1:\n            return tuple(results)\n", "        if results:\n            return tuple(results) if len(results) != 1 else results[-1]\n")]),
    ("F06", [(C, "                            size *= int(val)\n", "                            size = size * int(val)\n")]),
    ("F06", [(C, "                val = args[u_idx].shape[dim_idx]\n", "                owner = args[u_idx]\n                val = owner.shape[dim_idx]\n")]),
    ("F06", [(C, "        sorted_ret_names = sorted(\n            return_buffers.keys(), key=lambda x: int(x.split(\"_\")[-1])\n        )\n", "        sorted_ret_names = list(return_buffers)\n        sorted_ret_names.sort(key=lambda x: int(x.rsplit(\"_\", 1)[1]))\n")]),
    ("F06", [(C, "                    converted_args.append(ctypes.c_int64(val))\n                else:\n                    converted_args.append(ctypes.c_int64(0))\n", "                else:\n                    val = 0\n                converted_args.append(ctypes.c_int64(val))\n")]),
    ("F06", [(C, "                converted_args.append(ctypes.byref(buf))\n", "                converted_args.append(ctypes.pointer(buf))\n")]),
]
