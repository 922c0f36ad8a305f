P = "python/docc/python/python_program.py"
SIG = '        signature = (\n            f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}"\n            f"|{instrumentation_mode}|{capture_args}"\n        )\n'
BUGS = [
    ("F02", [(P, "|{equiv_sig}|{layout_sig}", "|{layout_sig}")]),
    ("F02", [(P, "{type_sig}|{mapping_sig}|", "{type_sig}|")]),
    ("F02", [(P, '{type_sig}|{mapping_sig}|', '{mapping_sig}|')]),
    ("F02", [(P, "            ones = [dim == 1 for dim in arg.shape]\n", "            ones = [dim == 0 for dim in arg.shape]\n")]),
    ("F02", [(P, '            if arg.flags["F_CONTIGUOUS"]:\n                return f"F{ones}"\n', "")]),
    ("F02", [(P, 'return f"{[s // arg.itemsize for s in arg.strides]}{ones}"', 'return f"N{ones}"')]),
    ("F02", [(P, "[(n, type(v).__name__) for n, v in arg.__dict__.items()]", "[n for n, v in arg.__dict__.items()]")]),
    ("F02", [(P, "|{instrumentation_mode}|{capture_args}", "|{self.instrumentation_mode}|{self.capture_args}")]),
    ("F02", [(P, "|{self.target}|{self.category}|", "|{self.target}|")]),
    ("F02", [(P, "|{constants_sig}|", "|")]),
    ("F02", [(P, 'return f"Structure({t.name})"', 'return "Structure"')]),
    ("F02", [(P, 'return f"Pointer({self._type_to_str(t.pointee_type)})"', 'return f"Pointer({type(t.pointee_type).__name__})"')]),
    ("F02", [(P, "            return self.cache[signature]\n", "            return self.cache[type_sig]\n")]),
    ("F02", [(P, "        mapping_sig = sorted(arg_shape_mapping.items())", "        mapping_sig = sorted(arg_shape_mapping.keys())")]),
    ("F02", [(P, "{self.remote_tuning}|{signature}", "{self.remote_tuning}|{type_sig}")]),
    ("F02", [(P, "        equiv_sig = sorted(shape_to_scalar.items())", "        equiv_sig = len(shape_to_scalar)")]),
    ("F02", [(P, '        type_sig = ", ".join(self._type_to_str(t) for t in arg_types)', '        type_sig = ", ".join(self._type_to_str(t) for t in arg_types[:1])')]),
]
SAME = [
    ("F02", [(P, SIG, '        parts = [type_sig, mapping_sig, equiv_sig, layout_sig]\n        parts.append(instrumentation_mode)\n        parts.append(capture_args)\n        signature = "|".join(str(p) for p in parts)\n')]),
    ("F02", [(P, '        type_sig = ", ".join(self._type_to_str(t) for t in arg_types)\n', "        type_sig = self._get_signature(arg_types)\n")]),
    ("F02", [(P, "        if original_output_folder is None and signature in self.cache:\n            return self.cache[signature]\n", "        if original_output_folder is None:\n            hit = self.cache.get(signature)\n            if hit is not None:\n                return hit\n")]),
    ("F02", [(P, '            if arg.flags["C_CONTIGUOUS"]:\n                return f"C{ones}"\n            if arg.flags["F_CONTIGUOUS"]:\n                return f"F{ones}"\n', '            if arg.flags.c_contiguous:\n                return f"C{ones}"\n            if arg.flags.f_contiguous:\n                return f"F{ones}"\n')]),
    ("F02", [(P, "        layout_sig = [self._layout_to_str(arg) for arg in args]\n", "        layout_sig = []\n        for arg in args:\n            layout_sig.append(self._layout_to_str(arg))\n")]),
    ("F02", [(P, "            ones = [dim == 1 for dim in arg.shape]\n", "            ones = tuple(arg.shape)\n")]),
    ("F02", [(P, "        arg_types = []\n        shape_values = []  # List of unique shape values found", "        shape_values = []  # List of unique shape values found"), (P, "        scalar_int_params = {}  # Maps value -> parameter name (first one wins)\n", "        arg_types = []\n        scalar_int_params = {}  # Maps value -> parameter name (first one wins)\n")]),
    ("F02", [(P, "                    if dim_val == 1:\n", "                    if 1 == dim_val:\n")]),
    ("F02", [(P, "        self.last_sdfg = sdfg\n\n", "        target = self.target\n        self.last_sdfg = sdfg\n\n")]),
]
