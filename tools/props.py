PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech="", note="", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      tech=tech, note=note, **kw))


AI = "arg-capture-io/"
NOTE = ("Decided on the type-checked AST by a path-sensitive dataflow engine (helpers inlined, provenance terms); assumes the "
        "documented behaviour of the standard and third-party calls it treats as atoms; an idiom it cannot interpret is listed "
        "as undecided and raises nothing.")

# ------------------------------------------------------------------ A: argument capture
P("A01", "Capture index survives a write/read round trip",
  "Every argument capture written to an index file is restored by loading that file with the same argument number, direction, "
  "element type, dimensions in the same order and the same payload (inline bytes or payload file). Target, invocation and "
  "element identity of the index are restored too, and an index of another format is rejected.",
  ["inputs", "histories"], "all sets of captures, element types, dimension lists, payload kinds and metadata",
  "tests serialise one or two captures; a swapped, narrowed or dropped field that those values do not distinguish passes",
  [AI + "src/arg_capture_io.cpp", AI + "include/daisy_rtl/arg_capture_io.h"],
  [("record serialiser/parser", "ArgCapture::serialize_into / parse_from"), ("index writer/loader", "ArgCaptureIO::write_index / from_index")],
  "path-sensitive dataflow: writer/reader field-key correspondence", NOTE)
P("A02", "Base64 coding of inline payloads is lossless",
  "Decoding the base64 text of any byte sequence gives back exactly that sequence, for every length and every byte value. The "
  "text uses only the standard alphabet with standard padding. Neither direction writes outside its own buffers.",
  ["inputs"], "all byte sequences of all lengths",
  "tests round-trip a handful of payloads; a wrong shift, mask or padding case for one remainder or byte range can survive",
  [AI + "src/base64.cpp"], [("encoder/decoder", "base64_encode / base64_decode")],
  "symbolic bit-provenance dataflow with inductive loop summaries", NOTE)
P("A03", "Captures never report success after a failed read or write",
  "When opening, writing, flushing or reading a capture payload or index fails or falls short, the operation reports failure "
  "(false, or an exception) and records nothing that claims otherwise. A null payload with a non-zero size is refused.",
  ["fault_sequences"], "every point at which a stream operation can fail or fall short",
  "tests never make a stream fail, so error paths are not executed",
  [AI + "src/arg_capture_io.cpp", "rtl/src/capture.cpp"],
  [("payload writer", "ArgCaptureIO::capture_data_to_file"), ("payload reader", "ArgCapture::... read"), ("index writer", "write_index")],
  "stream typestate analysis over all paths", NOTE)
P("A04", "A capture covers exactly the argument's bytes",
  "The bytes captured for an argument are exactly element size times the product of all its dimensions, starting at the "
  "argument's address, and the stored record keeps element size, dimensions (in order), index, direction and element type as "
  "given. Sizes that need more than 32 bits are not truncated.",
  ["inputs"], "all element sizes, dimension lists (any rank and magnitude) and data addresses",
  "tests use a few small arrays; a dropped dimension, swapped stride or 32-bit product is invisible there",
  ["rtl/src/capture.cpp", AI + "src/arg_capture_io.cpp"],
  [("C entry points", "__daisy_capture_raw/1d/2d/3d"), ("library capture", "capture_inline / capture_data_to_file")],
  "path-sensitive dataflow with product normal forms", NOTE)
P("A05", "Distinct captures never share a payload file",
  "Two captures that differ in target, invocation, argument, direction or element are stored in different payload files, and "
  "capturing the same argument again replaces the earlier record completely. Every invocation of every region gets its own index file, and payload "
  "files lie in the same directory as the index naming them.",
  ["histories", "inputs"], "all sequences of captures over targets, invocations, arguments, directions and elements",
  "tests capture one region once; collisions need two captures that agree on the parts the name keeps",
  [AI + "src/arg_capture_io.cpp", "rtl/src/capture.cpp"],
  [("payload file naming", "capture_data_to_file / generate names"), ("record table", "current captures map")],
  "path-sensitive dataflow: provenance of file names and map keys", NOTE)
P("A06", "Capture strategy and directory follow the environment",
  "Strategy 'all' captures every invocation, 'never' none, and 'once', an unset or an unknown value only the first one of each region. "
  "An index is written exactly when something was captured, into the directory given by the environment, else by the caller, "
  "else the default; entry points given no context do nothing.",
  ["configurations", "histories"], "all strategy and directory settings and all sequences of region entries and exits",
  "the tests run one region a few times per strategy; per-region counters, stale records and null contexts are not exercised",
  ["rtl/src/capture.cpp"], [("strategy selection", "capture context init / enter / end")],
  "path-sensitive dataflow over environment-dependent branches", NOTE)

P("A07", "Generated capture calls describe the program's arguments",
  "Around a region that is to be captured, generated code asks the runtime once under the region's id and, only if it agrees, captures "
  "every planned input before and every planned output after the region exactly once, then ends the invocation. Each call passes the "
  "argument's own index, address, size, element type, direction and region id in the runtime's order. Element type numbers, names and "
  "C++ types mean the same to the compiler and to the reader of captures.",
  ["inputs"], "all capture plans, arguments, element types and both directions",
  "the generators are not built here; tests check one element type name and never compare generated calls with the runtime",
  ["sdfg/src/codegen/instrumentation/arg_capture_plan.cpp", "arg-capture-io/include/daisy_rtl/primitive_types.h", "sdfg/src/codegen/code_generators/**"],
  [("capture plan", "ArgCapturePlan::begin_instrumentation, end_instrumentation, add_capture_plan"), ("element types", "arg_capture::PrimitiveType and its tables")],
  "abstract interpretation of generator output; type-level witnesses compiled from the header", NOTE)

# ------------------------------------------------------------------ C: graph queries
GR = "sdfg/src/graph/graph.cpp"
GH = "sdfg/include/sdfg/graph/graph.h"
P("C01", "Graph queries leave the caller's graph unchanged",
  "Every graph query (reverse, undirected, traversals, components, dominator and post-dominator trees, sorting, paths) returns "
  "with the caller's graph holding exactly the vertices and edges it held before, even when the query works with temporary "
  "vertices, and its result never mentions a temporary vertex.",
  ["inputs"], "all directed multigraphs, including graphs with several exits",
  "tests look at query results on small graphs and do not compare the graph before and after",
  [GR, GH], [("post-dominators", "post_dominator_tree"), ("all queries", "sdfg::graph::*")],
  "effect analysis over all paths (typestate of temporary vertices)", NOTE)
P("C02", "Undirected and reversed views match the original graph",
  "undirected() has one vertex per input vertex and one edge per input edge between the images of its endpoints (self and "
  "parallel edges included), and its two maps are inverse bijections, original to new first. reverse() is a live view of the "
  "caller's graph with every edge reversed.",
  ["inputs"], "all directed multigraphs", "tests use one small graph without self or parallel edges",
  [GR, GH], [("undirected copy", "undirected"), ("reverse view", "reverse")],
  "path-sensitive dataflow with loop summaries over vertex and edge ranges", NOTE)
P("C03", "Orders and cycle answers are right for every graph",
  "topological_sort lists every vertex before its successors and reports cyclic graphs; is_acyclic is true exactly for acyclic "
  "graphs (self loops are cycles) and never throws. depth_first_search lists every vertex once in discovery order from the given "
  "start, and back_edges lists exactly the back edges of that traversal, of the whole graph.",
  ["inputs"], "all directed multigraphs and start vertices",
  "tests sort and traverse a few fixed graphs; disconnected, empty or self-looping graphs are not covered",
  [GR, GH], [("sorting", "topological_sort / is_acyclic"), ("traversal", "depth_first_search / back_edges / DFSVisitor")],
  "dataflow over container orders and visitor callbacks (boost algorithms as atoms)", NOTE)
P("C04", "Components and dominator trees cover every vertex",
  "Component maps and (post-)dominator trees have an entry for every vertex of the caller's graph, taken from the boost "
  "algorithm run on that whole graph with a complete vertex numbering and large enough buffers. Dominators are rooted at the "
  "given source; post-dominators at the only exit, or at a virtual exit behind all exits when there are several (then null "
  "stands for the virtual exit).",
  ["inputs"], "all directed multigraphs",
  "tests use connected single-exit graphs; numbering gaps, undersized buffers and multi-exit roots stay hidden",
  [GR], [("numbering/buffers", "dominator_tree, post_dominator_tree, *_connected_components")],
  "path-sensitive dataflow with inductive numbering summaries (boost algorithms as atoms)", NOTE)
P("C05", "all_simple_paths returns exactly the simple paths",
  "all_simple_paths(g, src, dst) returns every path from src to dst that repeats no vertex, each exactly once and with all its "
  "edges in order; when src and dst are the same it returns the simple cycles through that vertex. No path runs back through "
  "the source.",
  ["inputs"], "all directed multigraphs and endpoint pairs",
  "the test has one acyclic graph with two paths; cycles through the source or dropped long paths are not seen",
  [GR], [("search", "all_simple_paths / all_simple_paths_dfs")],
  "typestate and effect analysis of the recursive search (push/pop balance, visited discipline)", NOTE)

# ------------------------------------------------------------------ E: remote optimisation client
RC = "rpc/src/passes/rpc/rpc_context.cpp"
RD = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"
RU = "rpc/src/util/utils_curl.cpp"
RH = "rpc/include/sdfg/passes/rpc/rpc_context.h"
P("E01", "The right credential is sent with the right scheme",
  "The docc credential is the first available of $DOCC_JOB_TOKEN, $DOCC_ACCESS_TOKEN, $HOME/.config/docc/token and "
  "/var/lib/daisytuner/session (empty variables do not count; files lose trailing blanks and line ends). The Authorization "
  "header is 'Job <token>' for job tokens and 'Token <token>' otherwise. Building a context without a credential fails.",
  ["configurations"], "all combinations of set, empty and missing variables and files",
  "no test covers the lookup; a wrong order, scheme or trim shows only in particular environments",
  [RD, RC], [("lookup", "DaisytunerRpcContext::find_docc_auth"), ("header", "build_auth_header_content, from_docc_config")],
  "path-sensitive dataflow over environment- and file-dependent branches", NOTE)
P("E02", "Credentials are never printed and TLS checks stay on",
  "No token, header value or token-file content is written to standard output, standard error or an exception message by the "
  "remote client. Its requests keep certificate verification on, keep curl's request tracing off and do not forward "
  "credentials to redirect targets.",
  ["inputs", "configurations"], "all tokens, headers and execution paths of the remote client",
  "tests do not inspect what is logged, and a leak on one path only shows with that configuration",
  ["rpc/src"], [("logging", "SimpleRpcContextBuilder::build"), ("transport", "post_json")],
  "taint analysis from credential sources to output and exception sinks", NOTE)
P("E03", "HTTP outcomes are reported faithfully",
  "post_json sends one request with the given URL, payload and headers and returns the complete response body. The error "
  "message is empty exactly when the transfer succeeded with a status of 200 to 203, and status and transfer code are defined "
  "on every path (0 when there was no response).",
  ["fault_sequences", "inputs"], "all transfer results, statuses and chunkings of the response",
  "tests need no server, so neither failures nor chunked bodies nor unusual statuses are run",
  [RU, "rpc/include/sdfg/util/utils_curl.h"], [("request", "post_json")],
  "path-sensitive dataflow over curl calls with definite-initialisation of the result", NOTE)
P("E06", "Remote configuration sources are applied faithfully",
  "A configuration file replaces the server, endpoint and headers it names (strings only), and an unreadable one is an error. "
  "The header variable adds 'name:value' split at its first colon (RPC-Hint without one). Unset or empty variables change "
  "nothing, later headers replace earlier ones, and a context without a server is refused. Requests go to <server>/<endpoint>, "
  "$RPC_SERVER (non-empty) replacing the docc default server.",
  ["configurations", "inputs"], "all configuration files, variables and their combinations",
  "tests do not build contexts from files or variables beyond one case each",
  [RC, RD, RH], [("builder", "SimpleRpcContextBuilder"), ("contexts", "build_rpc_context_*")],
  "path-sensitive dataflow from configuration sources to the context's members", NOTE)

# ------------------------------------------------------------------ B: runtime instrumentation
RI = "rtl/src/instrumentation.cpp"
P("B01", "Instrumentation is safe to call from several threads",
  "The instrumentation runtime can be entered from several threads at once: every access to its shared state (region tables, "
  "region records, cache of finalised regions, id counter) that some entry point modifies happens under one common mutex, and no "
  "entry point locks that mutex twice.",
  ["schedules"], "all interleavings of the six instrumentation entry points",
  "tests call the runtime from one thread; a race needs a particular interleaving",
  [RI], [("shared state", "class DaisyInstrumentationState"), ("entry points", "__daisy_instrumentation_*")],
  "lockset analysis over the call graph of the entry points", NOTE)
P("B02", "Counter event sets follow their lifecycle and are released",
  "Registering a region leaves it with one started event set that holds exactly the configured events of its kind. Counter reads "
  "and stops use the region's own event set and a buffer with one slot per event. At most ten finalised regions stay cached: the "
  "oldest is evicted, and evicted or shutdown-cached sets are cleaned up, then destroyed and forgotten, exactly once. A failing "
  "creation, event or release ends the program.",
  ["histories", "fault_sequences"], "all sequences of init/enter/exit/finalize over any number of regions and all PAPI results",
  "no counter library is available to the tests, so none of these paths is run",
  [RI], [("registration", "register_region"), ("release", "finalize, ~DaisyInstrumentationState")],
  "path-sensitive typestate analysis of the event set handles", NOTE)
P("B03", "Calls with an unknown region id are refused",
  "Entering, exiting, finalising or attaching a metric to an id that was never issued ends the program with a failure before any "
  "counter is touched or any table changed. Ids are unique over the run, never 0, and a region known by name gets the id it "
  "already has; init without metadata returns 0 and does nothing.",
  ["inputs", "histories"], "all region ids and call histories",
  "tests cannot create the runtime without a counter library",
  [RI], [("lookup", "enter_region, exit_region, provided_metric, finalize"), ("ids", "register_region")],
  "path-sensitive dataflow: lookup guards dominate every effect", NOTE)
P("B05", "Measurements and their statistics are exact",
  "Each enter/exit pair records its start time, its duration and, per event, the counter difference between the two reads, in "
  "order; aggregated and user metrics keep the sample count, mean, population variance, minimum and maximum of exactly the values "
  "seen, per counter or metric name. Re-registering a region keeps its earlier measurements.",
  ["inputs", "histories"], "all sequences of samples, counters, metrics and regions",
  "no test runs an instrumented region; a wrong statistic needs particular sample values to show",
  [RI], [("timing and counters", "enter_region, exit_region"), ("metrics", "provided_metric")],
  "dataflow to rational normal forms: inductive update equals Welford's recurrence", NOTE)
P("B04", "The trace written at shutdown is valid and complete",
  "On shutdown the trace file is valid JSON for every history and all names: one event per region when aggregating, otherwise "
  "one per enter. Every string survives JSON decoding and non-finite metrics become null. Each event carries its own region's "
  "metadata (function name and lines, module, source range, docc fields, loop info), its start and duration in microseconds, and "
  "each counter (aggregated: also each metric) under its own name.",
  ["histories", "inputs"], "all histories of regions, all names, counters and metric values",
  "no test writes a trace; a stray comma or unescaped byte shows only for particular regions or names",
  [RI], [("shutdown", "~DaisyInstrumentationState"), ("events", "append_event, append_event_aggregated")],
  "abstract interpretation of the output text with a pushdown recogniser for JSON", NOTE)
P("B06", "Instrumentation follows its environment variables",
  "Aggregation is on exactly for __DAISY_INSTRUMENTATION_MODE=aggregate. The trace goes to __DAISY_INSTRUMENTATION_FILE, by default "
  "daisy_trace.json. The counters of CPU and CUDA regions are the comma-separated names in __DAISY_INSTRUMENTATION_EVENTS and "
  "..._EVENTS_CUDA, none when unset. The runtime refuses to start (failure exit) without a counter library that offers every "
  "function it calls, without __DAISY_PAPI_VERSION (decimal, hex or octal), or when the library answers another version.",
  ["configurations", "inputs"], "all values and combinations of the variables, all event lists, all libraries",
  "no test starts the instrumentation runtime",
  [RI], [("configuration", "DaisyInstrumentationState::DaisyInstrumentationState, split_string"), ("library", "load_papi_symbols")],
  "path-sensitive dataflow from environment variables to the runtime's state", NOTE)
P("B07", "Generated code measures each region under a complete and faithful record",
  "Around every node the plan selects, and around no other, generated code fills every field of the runtime's metadata record once with "
  "the node's own data (location, program, element, loop data, metrics), registers it with the planned kind of counters under a name no "
  "other node has, enters it before the node's code, and after it leaves the same region, reports every metric and finalises it last.",
  ["inputs", "configurations"], "all nodes, records, metrics and plans",
  "the generators are not built here and no test runs instrumented code; a missing field is an uninitialised read in the runtime",
  ["sdfg/src/codegen/instrumentation/**", "sdfg/src/codegen/dispatchers/**", "rtl/include/daisy_rtl/daisy_rtl.h"],
  [("record", "InstrumentationPlan::begin_instrumentation"), ("leaving", "InstrumentationPlan::end_instrumentation"), ("brackets", "NodeDispatcher::dispatch, dispatch_library_node")],
  "abstract interpretation of generator output; begin/end typestate over all dispatcher paths", NOTE)
P("H01", "Helper operations of the runtime header compute what they name",
  "__daisy_min, __daisy_max and __daisy_fma give the smaller operand, the larger operand and a*b+c for whole operand expressions of "
  "any precedence, inside expressions of any precedence. __daisy_sym_pow(base, exp) gives base^exp for every exp >= 0 whose power "
  "fits 64 bits, without an intermediate value that overflows, and 0 for a negative exp.",
  ["inputs"], "all operand expressions and contexts; all bases and exponents",
  "no test calls the helpers; generated code uses them with expressions and sizes the tests do not contain",
  ["rtl/include/daisy_rtl/daisy_rtl.h"], [("helpers", "__daisy_min, __daisy_max, __daisy_fma, __daisy_sym_pow")],
  "type-checked expansion against normal forms; inductive loop invariant", NOTE)
P("G01", "An SDFG survives being written to JSON and read back",
  "deserialize(serialize(sdfg)) gives back every part of the program: its name, type, return type, element counter, structures, "
  "containers with types, arguments and externals in order with linkage, metadata; every type of every kind, every control-flow "
  "node in order with its bounds, conditions, schedule, debug info and ids, every transition with its assignments, every data-flow "
  "node and memlet with all attributes and endpoints. Assumes unique ids, parse(print(e)) = e for expressions, and library "
  "nodes' own serializers.",
  ["inputs"], "all SDFGs, all types, all nesting of control flow, all data-flow graphs",
  "the serializer is not built by the test configuration; a dropped attribute shows only for programs that use it",
  ["sdfg/src/serializer/json_serializer.cpp", "sdfg/include/sdfg/serializer/json_serializer.h"],
  [("document", "JSONSerializer::serialize, deserialize"), ("elements", "*_to_json, json_to_*")],
  "composition of the abstract writer and the abstract reader; field-by-field comparison", NOTE)

P("G02", "Library nodes survive their serializers",
  "Every library node written by the serializer registered for its class is read back as a node of that class with every attribute: "
  "shapes, strides, pads, symbolic sizes, flags, enumerations, callee, connectors in order, debug info, no 64-bit value narrowed. "
  "Every concrete library node class has a serializer of its own registered under its code; every enumerator name written into a "
  "document is read back as the same enumerator. Assumes parse(print(e)) = e; a tensor node's single output may be rebuilt from that one.",
  ["inputs"], "all classes of library nodes, all attribute values, attribute lists of every length",
  "the serializers are not built by the test configuration; a dropped or swapped attribute shows only for programs that use it",
  ["sdfg/src/data_flow/library_nodes/**", "sdfg/src/serializer/json_serializer.cpp"],
  [("serializers", "*NodeSerializer::serialize, deserialize"), ("registry", "register_default_serializers"), ("names", "cmath_function_to_stem, primitive_type_to_string")],
  "composition of constructor, abstract writer and abstract reader; field-by-field comparison", NOTE)
P("G03", "Copies of a program are complete",
  "clone() of every data-flow node, memlet and type carries every attribute of the original. A deep copy (copy, insert) creates one "
  "node of the same class per node, in order, with its bounds, conditions, schedule, debug info, body and following assignments, and "
  "maps every old node to its copy. Nodes and graphs copied by the builder keep implementation type and connect the copies "
  "as the originals were. (Element ids are fresh; the transition after a whole inserted node is empty.)",
  ["inputs"], "all classes, all attribute values, all trees",
  "the compiler core is not built by the test configuration; a lost attribute of a copy shows only when a transformation copies such a node",
  ["sdfg/src/data_flow/**", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp", "sdfg/src/builder/structured_sdfg_builder.cpp", "sdfg/src/types/**"],
  [("clone", "*::clone"), ("deep copy", "StructuredSDFGDeepCopy"), ("builder", "copy_node, add_dataflow")],
  "abstract interpretation of every copy operation; field-by-field comparison, induction over trees", NOTE)

P("G04", "Generated code computes what its operation is named after",
  "The C, C++, CUDA and Highway text emitted for every tasklet code, and the Highway text for every math function, computes the operation "
  "the code names on every operand: operand order, ordered and unordered comparisons on NaN, minimum, maximum, three-way comparison, "
  "absolute value, remainder. Arity, signedness and integer/float tables agree with the names; the C function has the suffix of its type; "
  "a primitive type is written as a C type of its width and signedness and its zero is zero; symbolic division, absolute value, extension, "
  "truncation, (in)equality print as themselves; a tasklet promoted to a symbolic expression keeps its operation; MLIR import and Python "
  "bindings map every operation to the code of the same name. A generator may refuse an operation.",
  ["inputs"], "all tasklet codes, functions and primitive types; all orderings of the operands including NaN",
  "tests compare a few emitted strings with themselves and run kernels on a few finite numbers; the generators are not built by the test configuration",
  ["sdfg/src/codegen/language_extensions/**", "opt/src/targets/highway/codegen/highway_map_dispatcher.cpp", "sdfg/include/sdfg/data_flow/tasklet.h",
   "sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h", "sdfg/src/passes/symbolic/symbol_promotion.cpp", "mlir/lib/Target/SDFG/ArithToSDFGTranslator.cpp"],
  [("generators", "CLanguageExtension::tasklet, CPPLanguageExtension::tasklet, CUDALanguageExtension::tasklet, HighwayMapDispatcher::tasklet, cmath_node"),
   ("tables", "arity, is_unsigned, cmath_function_to_arity, get_cmath_intrinsic_name"), ("printers", "CSymbolicPrinter, CPPSymbolicPrinter"), ("promotion", "SymbolPromotion::apply")],
  "abstract interpretation of every generator per enumerator; normal forms of the emitted text compared case by case with the meaning of the name", NOTE)

P("F01", "Python the frontend cannot translate is refused, not dropped",
  "Translating a decorated Python function to an SDFG never leaves a part of it out silently: every statement, every expression, every "
  "positional and keyword argument of a call, every slice step and every element of a shape, axis or argument list is either translated "
  "(used) or makes the translation raise. Imports, pass, docstrings and bare annotations have no effect.",
  ["inputs"], "every Python function: all syntax of the language's grammar, all argument forms of the supported functions",
  "tests call the supported functions in supported ways; a dropped keyword or statement shows only with the one call that uses it, as a wrong number",
  ["python/docc/python/ast_parser.py", "python/docc/python/ast_utils.py", "python/docc/python/functions/**"],
  [("parser", "ASTParser.visit_*, generic_visit"), ("call handlers", "NumPyHandler, MathHandler, PythonHandler, SciPyHandler"), ("inlining", "ASTParser._handle_inline_call")],
  "path-joining must-analysis over the Python syntax trees of the frontend, against Python's own grammar", NOTE)

P("F02", "A compiled kernel is reused only for calls it was compiled for",
  "PythonProgram.compile hands back an earlier kernel - from memory, or by giving it the output folder of an earlier one - only when everything "
  "the translation depends on is the same: the types of the arguments, which dimensions are equal to each other, to an integer argument or to 1, "
  "the memory layout (contiguous or not, strides), the members and member types of objects, the resolved instrumentation and capture options, "
  "the target, the category, remote tuning, the function's code and the numbers it takes from its surroundings. (Within one program object, "
  "globals are read when the kernel is first compiled.)",
  ["inputs", "histories"], "every sequence of calls of a decorated function, all argument types, shapes and options",
  "a test calls a kernel with one set of arguments; reuse goes wrong only on a second call that agrees in what the key holds and differs in what it forgot",
  ["python/docc/python/python_program.py"],
  [("compile", "PythonProgram.compile, _type_to_str"), ("translation", "PythonProgram._build_sdfg, _infer_type")],
  "provenance analysis: every fact of the arguments and every option that reaches the translation must reach the cache key", NOTE)

P("F03", "Scalar Python expressions and control flow keep their meaning when translated",
  "For every operator, comparison, boolean and conditional expression, assignment form, loop, branch, supported scalar function and kind of "
  "scalar operand (Int64, Int32, double, bool, literal, module constant), the program the frontend builds computes what Python (NumPy for np.*) "
  "computes: same operation, operands in order, rounding direction and sign, truth value, evaluation order, number and order of iterations - or "
  "the form is refused with an error. Integer results that leave 64 bits are excepted.",
  ["inputs"], "every scalar expression and statement form, every class of operand values (sign, order, divisibility, truth)",
  "tests run a form on a few values; floor versus truncation, a sign, swapped operands or a skipped iteration shows only for the operands that separate them",
  ["python/docc/python/ast_parser.py", "python/docc/python/functions/**", "python/docc/python/types/**"],
  [("parser", "ASTParser.visit_BinOp, visit_UnaryOp, visit_Compare, visit_BoolOp, visit_IfExp, visit_For, visit_While, visit_Assign, visit_AugAssign"),
   ("handlers", "MathHandler, PythonHandler, NumPyHandler.handle_array_unary_op, handle_array_binary_op")],
  "abstract interpretation of the translator's source per statement form; the recorded program compared with the language's meaning on the cells of its operands", NOTE)

P("F04", "Array statements of Python keep NumPy's meaning when translated",
  "For every supported form of array statement - slices read and written (literal bounds, runtime bounds inside the extent, every literal "
  "step), elementwise operators and functions with broadcasting, reductions over axes, matrix products and outer products in expressions and in "
  "the recognised assignment patterns, transpose, reshape, flip, copies and array constructors, loops over arrays - the program the frontend builds reads and writes exactly "
  "the elements NumPy does, with NumPy's values and result shape; a view shares memory with its source and a copy does not - or the form "
  "is refused with an error.",
  ["inputs"], "every array form, extents, offsets, strides and overlaps of the operands",
  "tests compare a form at one size; an offset, a stride, a broadcast dimension, an aliased read or a missed factor shows only for the "
  "combination of view and form that separates them",
  ["python/docc/python/ast_parser.py", "python/docc/python/functions/numpy.py", "python/docc/python/ast_utils.py"],
  [("slices", "ASTParser._handle_slice_assignment, _create_slice_view, visit_Subscript"),
   ("array operations", "NumPyHandler.handle_array_binary_op, _handle_numpy_reduce, _handle_matmul_helper, handle_gemm, handle_dot, handle_outer, handle_numpy_reshape, handle_numpy_transpose")],
  "abstract interpretation of the translator's source per array form; index functions and views of the recorded program compared with NumPy's at cells of the extents and bounds", NOTE)

P("F05", "Translated functions return Python's results and inlined calls mean the call",
  "A kernel leaves in its return buffers exactly the values (count, order, type, shape, elements) the Python function returns on every "
  "path, a return ends the function where it stands, and a returned array is contiguous to its reader and independent of later writes "
  "unless Python shares it; a call of another function computes its body on the arguments: its parameters and locals are its own, arrays "
  "are shared with the caller, its return ends it and is the value of the call; assigning an argument changes that name only. A form "
  "that cannot be translated so is refused with an error.",
  ["inputs"], "every form of return and call, all arguments and paths through the function",
  "tests call a function on one set of arguments; a path that returns a second type or shape, a name shared with the caller or a return "
  "that does not end its function shows only on the combination of form, path and names that separates them",
  ["python/docc/python/ast_parser.py", "python/docc/python/python_program.py"],
  [("returns", "ASTParser.visit_Return"), ("inlined calls", "ASTParser._handle_inline_call")],
  "abstract interpretation of the translator's source per form of return and call; return buffers and written arrays of the recorded program compared with the function's meaning at cells of the inputs", NOTE)

P("F06", "A call hands each argument to its parameter and the results back, every time",
  "Calling a translated function passes each argument to the parameter of its name in that parameter's type (arrays by address with their "
  "own extents and strides, objects member by member, extents of the array they name), gives the library function result buffers large enough "
  "and of the right type, and returns the values, shapes and order the Python function returns; a later call with arguments of other extents, "
  "coincidences, layouts or types runs a program that is right for them.",
  ["inputs", "histories"], "all arguments and sequences of calls",
  "tests call with packed arrays of one type; a swapped extent, a truncated number, a buffer of the wrong size or a reused program shows only "
  "for the argument list or history that separates them",
  ["python/docc/compiler/compiled_sdfg.py", "python/docc/python/python_program.py"],
  [("marshalling", "CompiledSDFG.__init__, __call__"), ("specialisation", "PythonProgram.compile, _build_sdfg, _infer_type")],
  "abstract interpretation of the call path on argument descriptions (ctypes/NumPy operations as terms); library arguments and result terms decoded against the recorded program", NOTE)

# ------------------------------------------------------------------ not decided statically
def N(id, title, statement, over, text, why, files, mech, na):
    P(id, title, statement, over, text, why, files, mech, na=na)


N("N01", "Optimisation passes preserve the program's results",
  "Every pass and pipeline (dead code, fusion, normalisation, symbol promotion, memory, scheduling) leaves an SDFG that computes "
  "the same values of its arguments and externals as before, for every input.",
  ["inputs"], "all SDFGs and inputs", "tests apply each pass to a few programs",
  ["sdfg/src/passes/**", "opt/src/passes/**"], [("passes", "Pass::run_pass, Pipeline::run")],
  "Needs semantic equivalence of programs over symbolic index sets and unbounded loops: no dataflow over the pass's own C++ source bounds "
  "it, and the analyses it depends on (SymEngine, isl) are not installed, so not even the values they return are analysable here.")
N("N02", "Only independent iterations are run in parallel",
  "A loop becomes a Map (or is offloaded) only when no two of its iterations conflict.",
  ["inputs"], "all loop nests and subscripts", "tests cover selected subscript patterns",
  ["sdfg/src/analysis/**", "sdfg/src/transformations/**", "opt/src/transformations/**"], [("dependence", "DataDependencyAnalysis, For2MapPass")],
  "Soundness of the dependence test is a fact of integer-set arithmetic over symbolic bounds computed at run time by isl and SymEngine, not of "
  "control or data flow in this source.")
N("N03", "Generated code computes what the SDFG states",
  "The C, C++ or CUDA text generated for an SDFG, compiled, computes the values the SDFG's semantics prescribe.",
  ["inputs"], "all SDFGs and inputs", "tests compare the output text of small SDFGs",
  ["sdfg/src/codegen/**", "opt/src/targets/**"], [("generators", "CodeGenerator, *Dispatcher")],
  "The SDFG has no formal semantics in this repository and generated text is assembled from run-time strings; only local facts of the generator "
  "are static.")
N("N04", "Library-node expansions equal the operation they replace",
  "expand() of every library node (convolution, matmul, reductions, softmax, ...) yields loops that compute the same tensor.",
  ["inputs"], "all shapes, strides and values", "tests expand a few shapes",
  ["sdfg/src/data_flow/library_nodes/math/**"], [("expansion", "*Node::expand")],
  "Equality of symbolic loop nests with a mathematical definition over unbounded shapes is functional verification; the expanders build "
  "subscripts through SymEngine, whose algebra is unavailable.")
N("N05", "Symbolic bounds and simplification are sound",
  "Minimum, maximum, affine, series and simplification queries on symbolic expressions return values that hold for every assignment of the symbols.",
  ["inputs"], "all expressions and assignments", "tests use selected expressions",
  ["sdfg/src/symbolic/**", "sdfg/src/analysis/assumptions_analysis.cpp"], [("queries", "symbolic::minimum, maximum, simplify")],
  "Arithmetic facts about expressions that exist at run time only; the algebra is SymEngine's and not in this sandbox.")
N("N06", "Pipelines reach a fixed point",
  "Repeating passes until nothing changes ends for every program.",
  ["inputs"], "all SDFGs", "tests end on the programs they contain",
  ["sdfg/src/passes/pipeline.cpp", "sdfg/src/passes/pass.cpp"], [("loop", "Pipeline::run")],
  "Termination rests on a decreasing measure over programs that each pass would have to respect; no such measure is in the source.")
N("N07", "Offloaded programs keep host and device memory consistent",
  "Every value read on a device or host after offloading is the last one written, wherever that happened.",
  ["inputs", "schedules"], "all placements of transfers", "tests check the transfers of small kernels",
  ["opt/src/targets/**", "opt/src/passes/offloading/**"], [("transfers", "DataOffloadingNode, offloading passes")],
  "A property of the transformed program (which buffer is current where), decided by run-time placement of nodes, and devices cannot be modelled here.")
N("N08", "Compiled functions return what Python would",
  "A function compiled by the Python frontend returns the results NumPy would for the same arguments, up to floating-point reassociation.",
  ["inputs"], "all supported functions and arguments", "tests compare selected functions",
  ["python/docc/python/**"], [("translation", "ASTParser")],
  "End-to-end semantic equivalence of two languages; needs execution. Its static parts are candidates for checks of their own (nothing is dropped, the right operator is "
  "chosen, the right program is reused).")
N("N09", "Remote tuning returns an equivalent schedule",
  "A loop nest replaced by the answer of the tuning service computes the same values.",
  ["inputs", "histories"], "all answers of the service", "tests use a stub service",
  ["sdfg/src/passes/rpc/**", "rpc/**"], [("replacement", "RpcSDFGReplacement")],
  "The replacement is data from outside the source; its equivalence cannot be read off this code (E01 to E06 decide transport, credentials and configuration).")
N("N10", "The MLIR frontend keeps the meaning of its input",
  "Lowering an MLIR module to an SDFG preserves its semantics.",
  ["inputs"], "all supported MLIR modules", "lit tests match the text of small modules",
  ["mlir/**"], [("lowering", "mlir/lib/**")],
  "Semantic equivalence again; MLIR's headers and generated dialect code are not installed, so the sources cannot even be parsed.")
N("N11", "Floating-point results stay within the tolerance of the target",
  "Vectorised, fused and offloaded code differs from the reference by rounding only.",
  ["inputs"], "all inputs", "tests compare with fixed tolerances",
  ["opt/src/**", "sdfg/src/codegen/**"], [("math", "cmath, blas and highway dispatch")],
  "Quantifies over numerical error of code produced at run time by external compilers and libraries.")
