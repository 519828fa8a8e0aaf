import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Parsing any bytes ends in a class or an error, never a crash or hang",
"For every byte string and every parse option, parsing terminates and returns either a class or a parse error: it never panics, overflows an integer or the stack, aborts or loops, including on hostile counts, lengths, offsets, nesting and constant-pool reference cycles. The same holds for everything a caller can then do with an accepted class: iterating its constant pool, formatting it or its descriptors, and looking up instructions by any offset.",
["inputs","configurations"],"All byte strings, with bytecode parsing on or off, in both feature configurations.",
"The tests feed descriptor fragments and one valid class file; no test feeds a truncated, mutated, cyclic, deeply nested or extreme-valued file.",
["src/lib.rs","src/constant_pool.rs","src/attributes.rs","src/bytecode.rs","src/descriptors.rs"],
[("bounds checks before every read","src/lib.rs read_u1..read_u8"),("type checks before every dereference of a resolved entry","src/constant_pool.rs validate"),("self-reference check","src/constant_pool.rs ConstantPoolRef::resolve"),("dimension limit","src/descriptors.rs parse_field_descriptor")],
["parse_class, parse_class_with_options","ClassFile::constantpool_iter","Debug/Display","ByteCode::get_opcode_index"])

p("C02","Memory use is bounded by the input, whatever counts it declares",
"While parsing any input, and holding the result, heap use stays below a fixed constant plus a fixed multiple of the input's length, leaving aside the text of strings that have to be re-encoded. In particular no declared count, table size, switch range or length that the remaining input cannot back makes the parser reserve memory for it beyond that bound, also when such declarations are nested.",
["inputs"],"All inputs, in particular every combination of declared element counts, switch ranges, attribute lengths and nesting depths.",
"No test measures memory and no test input declares more elements than it contains.",
["src/attributes.rs","src/bytecode.rs","src/constant_pool.rs","src/lib.rs","src/descriptors.rs"],
[("counts are 16-bit, lengths are checked against the input before slicing","src/attributes.rs read_attributes, read_code_data"),("preallocation from declared counts","Vec::with_capacity call sites"),("limit on descriptor size","src/descriptors.rs")],
["allocator traffic of parse_class_with_options"])

p("C03","Nothing parsed outlives its result: no leak on success or rejection",
"Once the result of a parse, accepted or rejected, has been dropped together with everything obtained from it, all memory allocated on its behalf has been freed. This holds for every input, including those rejected because of circular or mistyped constant-pool references.",
["inputs","histories"],"All inputs, accepted or rejected at any point, and any sequence of parses in a long-lived process.",
"Tests never count allocations; reference-counted pool entries can form cycles that no functional assertion notices.",
["src/constant_pool.rs","src/lib.rs"],
[("reference-counted constant-pool graph","src/constant_pool.rs ConstantPoolRef, CafeRc")],
["allocator live bytes before parse and after drop"],
[("constant-pool graph","entries point at each other through shared cells","src/constant_pool.rs")])

p("C04","The constant pool is reported completely and exactly, in order",
"Iterating the constant pool of an accepted class yields exactly one item per entry of the file other than text entries, in file order, skipping index 0 and the unusable slot after each 8-byte constant. Each item has the entry's kind and carries exactly the values and names obtained by following the file's indices (numeric constants bit for bit, class, member name and descriptor, handle kind and member kind, bootstrap index). However an iteration is driven (one by one, counting, skipping, several taking turns), the sequence is the same, and nothing follows its end.",
["inputs"],"All accepted classes: every mix, order and count of entry kinds (including 8-byte constants anywhere and pools of up to 65535 slots), every reference structure, every constant value.",
"One test checks three of the items of one class file that contains six entry kinds.",
["src/constant_pool.rs","src/lib.rs"],
[("read_constant_* and slot accounting","src/constant_pool.rs read_constant_pool"),("reference resolution","src/constant_pool.rs ConstantPoolRef::resolve"),("ConstantPoolIter","src/constant_pool.rs")],
["ClassFile::constantpool_iter"])

p("C05","Ill-formed constant pools are rejected and well-formed ones accepted",
"A class is accepted only if every constant-pool entry has a tag legal for the file's major version, every reference between entries designates an existing entry of the kind the JVM format requires there, and every class name, package name, module name, member name, field/method descriptor and method-handle target it leads to is legal. In particular: method references name a legal method (a name starting with '<' only if it is <init>, returning void), handle kinds match their target's kind under the version's rules, an 8-byte constant has room for both its slots, module and package entries occur only in modules, and reference cycles are rejected. Conversely a pool that satisfies these rules is never the reason for a rejection.",
["inputs"],"All constant pools: every assignment of tags, indices (zero, self, forward, backward, cyclic, unusable slot, out of range) and strings, under every major version.",
"Unit tests validate single hand-built entries and never exercise reading, resolution, index bounds, ordering, cycles or slot accounting.",
["src/constant_pool.rs","src/names.rs","src/descriptors.rs","src/lib.rs"],
[("tag and version dispatch","src/constant_pool.rs read_constant_pool"),("resolve","src/constant_pool.rs"),("validate","src/constant_pool.rs")],
["acceptance by parse_class"])

p("C06","Text is decoded exactly; text with no Unicode form is kept raw or refused",
"Every string reported by the parser is exactly the text its bytes encode, whether as ordinary UTF-8 or as the JVM's modified UTF-8 (two-byte NUL, surrogate pairs, each possibly mixed with plain characters, up to 65535 bytes). A string constant whose bytes encode no Unicode text (such as an unpaired surrogate) is reported as exactly its raw bytes, and such bytes are never accepted where a name, descriptor or other text is required.",
["inputs"],"All byte contents and lengths of text entries, and every place a text entry can be used.",
"Tests contain only ASCII names.",
["src/constant_pool.rs","src/attributes.rs"],
[("modified UTF-8 decode with raw-bytes fallback","src/constant_pool.rs read_constant_utf8, string_literal, str"),("debug extension decode","src/attributes.rs read_attributes SourceDebugExtension")],
["LiteralConstant::String/StringBytes","all Cow<str> values of the result"])

p("C07","Reported text and raw data borrow from the input unless re-encoding is needed",
"Every piece of text in a parsed class, including the class names inside descriptors and those yielded by the constant-pool iterator, is borrowed from the caller's buffer whenever its bytes are valid UTF-8, and is copied only when they are not. Method code, unknown-attribute contents and raw string bytes are always slices of the caller's buffer, covering exactly their bytes in the file.",
["inputs"],"All accepted classes and every text or raw-data value reachable from the result.",
"No test looks at whether values are borrowed; one test constructs an owned descriptor only.",
["src/constant_pool.rs","src/descriptors.rs","src/attributes.rs"],
[("Cow propagation","src/constant_pool.rs utf8; src/descriptors.rs parse_class_descriptor"),("slices of input","src/attributes.rs read_code_data, Other")],
["Cow variants and addresses in ClassFile"])

p("C08","Class header and members are reported exactly as in the file",
"For every accepted class the reported versions, access flags, class name, superclass, interfaces, fields and methods (name, descriptor, flags) and the list of attributes of the class and of each member are exactly those of the file, complete and in file order. Access flags are the file's bits restricted to the flags defined for that kind of item.",
["inputs"],"All accepted classes: every version, flag word, count (0 to 65535) and order of interfaces, fields, methods and attributes, every constant-pool index.",
"The only end-to-end test looks at the constant pool of one class; no test reads fields, methods, flags or attributes.",
["src/lib.rs","src/attributes.rs"],
[("sequential readers","src/lib.rs parse_class_with_options, read_interfaces, read_fields, read_methods"),("flag truncation","from_bits_truncate")],
["public fields of ClassFile, FieldInfo, MethodInfo"])

p("C09","Class-level format rules are enforced, and nothing else is refused",
"A class is rejected if its magic number is wrong, a class, field or method name or descriptor is illegal, an interface declares <init>, <init> or <clinit> does not return void, <clinit> takes arguments from version 51 on, two fields or two methods share both name and descriptor, or a module (flag only legal from version 53, on its own) has a superclass, interfaces, fields or methods. A class that breaks no rule is never rejected because of its header or members.",
["inputs"],"All combinations of versions, flags, names, descriptors and member lists, including duplicates at any distance and the version boundaries.",
"No test parses a class that breaks one of these rules.",
["src/lib.rs","src/names.rs","src/descriptors.rs"],
[("magic/module checks","src/lib.rs parse_class_with_options"),("name, descriptor, init and duplicate checks","src/lib.rs read_fields, read_methods"),("name rules","src/names.rs")],
["acceptance by parse_class"])

p("C10","No truncated, padded or mis-sized file is accepted",
"No proper prefix of an accepted file and no accepted file followed by extra bytes is accepted. An attribute whose declared length differs from the length of its contents is rejected wherever it occurs (class, field, method, code or record component), and so is a code array, text entry or table that extends past the end of the file.",
["inputs","fault_sequences"],"All accepted files, every truncation point, every amount of padding, every wrong value of every length field.",
"No test truncates, pads or re-sizes anything.",
["src/lib.rs","src/attributes.rs","src/constant_pool.rs"],
[("end-of-input check","src/lib.rs parse_class_with_options"),("length checks","src/attributes.rs ensure_length, expected_end_ix"),("bounds checks","src/lib.rs read_u*")],
["acceptance by parse_class"])

p("C11","Code, stack maps and debug tables are reported exactly",
"For every accepted class, each Code attribute's limits, code bytes, exception table and nested attributes, and each stack map, line number, local variable and local variable type table, carry exactly the entries and values encoded in the file, in order. Every frame kind, verification type and encoding form of the format is accepted and decoded to its meaning, and undefined frame or verification type tags, and illegal names or descriptors of variables, are rejected.",
["inputs"],"All contents of these attributes: all tags, all 16-bit values, all counts and all nestings.",
"No test decodes any attribute.",
["src/attributes.rs"],
[("read_code_data","src/attributes.rs"),("read_stackmaptable_data/_verification","src/attributes.rs"),("read_linenumber_data, read_localvariable_data, read_localvariabletype_data","src/attributes.rs")],
["AttributeData::Code, StackMapTable, LineNumberTable, LocalVariableTable, LocalVariableTypeTable"])

p("C12","Annotations are reported exactly",
"For every accepted class, every annotation (visible or invisible; on declarations, parameters or types; default values) carries exactly the type, element names and element values encoded in the file, to any supported nesting, and every type annotation exactly its target and type path. Undefined element tags, target types and path kinds, element constants of the wrong kind, and illegal type descriptors are rejected.",
["inputs"],"All annotation contents: all element tags, target types and path kinds, all nestings of arrays and annotations within the supported depth, all counts.",
"No test decodes an annotation.",
["src/attributes.rs"],
[("read_annotation_element_value, read_annotation, read_annotation_data, read_parameter_annotation_data, read_type_annotation_data","src/attributes.rs")],
["AttributeData::Runtime*Annotations, AnnotationDefault"])

p("C13","All other attributes are reported exactly, unknown ones verbatim",
"For every accepted class, constant values, thrown exceptions, inner and enclosing classes, signatures, source file and debug text, method parameters, bootstrap methods with all their arguments, modules, packages, nests, permitted subclasses and records carry exactly the values encoded in the file, in order, with absent optional values reported as absent. Any attribute with another name is reported under its name with its bytes unchanged. Constants of the wrong kind, undefined flag bits where flags are closed (method parameters and modules) and illegal names are rejected, and every kind of loadable constant is accepted as a bootstrap argument.",
["inputs"],"All contents of these attributes: all indices, flags, counts, optional parts and names, in every place an attribute can occur.",
"No test decodes any attribute.",
["src/attributes.rs","src/constant_pool.rs"],
[("read_attributes dispatch and the read_*_data readers","src/attributes.rs"),("read_cp_* accessors","src/constant_pool.rs")],
["AttributeData"])

p("C14","Descriptors: exactly the grammar is accepted, structure exact, printing inverse",
"A string is accepted as a field or method descriptor, wherever one is required, if and only if the whole of it matches the JVM descriptor grammar (at most 255 dimensions, at most 255 parameter units). The reported structure is the one the grammar assigns: dimensions, element type, class name, parameters in order, return type. Printing the reported descriptor reproduces the original text.",
["inputs"],"All strings over the descriptor alphabet and beyond (non-ASCII and re-encoded text included), all lengths, in every position that takes a descriptor.",
"Unit tests check about 30 strings; none in the positions of a real class, none with non-ASCII text or trailing characters after a member's descriptor.",
["src/descriptors.rs","src/lib.rs","src/attributes.rs","src/constant_pool.rs"],
[("parse_field_descriptor, parse_method_descriptor, byte_len","src/descriptors.rs"),("Display impls","src/descriptors.rs")],
["FieldInfo/MethodInfo descriptors","FieldDescriptor, MethodDescriptor Display"])

p("C15","Names are accepted exactly when the JVM's naming rules allow them",
"A name is accepted in each role (class, package, field or variable, method, module, and conversion of text to a class name) if and only if the JVM's rules for that role allow it: non-empty segments without . ; [ / (methods additionally without < and >, except <init> and <clinit>), packages and classes as /-separated segments, modules with their escapes. An accepted name is reported unchanged.",
["inputs"],"All strings over the characters the rules mention plus others, in every role.",
"Six class-name strings are tested; field, method, package and module name rules are not.",
["src/names.rs","src/descriptors.rs","src/lib.rs","src/constant_pool.rs","src/attributes.rs"],
[("is_unqualified_name, is_unqualified_method_name, is_binary_name, is_module_name","src/names.rs"),("ClassName::try_from","src/descriptors.rs")],
["acceptance by parse_class","ClassName::try_from"])

p("C16","Bytecode is decoded exactly",
"For every accepted method body, the decoded instructions tile the code array exactly: each instruction is reported at its byte offset, in increasing order, with the operation and the exact operands (sign, width, wide forms, switch tables with alignment padding, constants and member references) its bytes encode. Code containing an undefined opcode, an illegal operand (constant of the wrong kind, bad array type, nonzero reserved byte, inverted switch range or negative pair count) or an incomplete instruction is rejected.",
["inputs","programs"],"All code arrays: all opcodes, operand values, wide forms, alignments, switch sizes and sequences of instructions.",
"No test decodes an instruction.",
["src/bytecode.rs","src/constant_pool.rs"],
[("read_opcodes","src/bytecode.rs"),("read_cp_memberref and get_cp_loadable","src/constant_pool.rs")],
["CodeData::bytecode"])

p("C17","Jumps land on instructions; offset lookup is the inverse of the listing",
"A method body is accepted if and only if the target of every jump and of every switch entry and default is the offset of an instruction in the same body (apart from faults of other kinds). For every accepted body and every number, looking up an offset yields the index of the instruction listed at that offset, or nothing if there is none.",
["inputs","programs"],"All bodies: every jump form, source, 16- or 32-bit offset (including extremes), switch layout and body length; all lookup arguments.",
"One unit test looks up offsets in four hand-made lists of up to three instructions; jump validation is untested.",
["src/bytecode.rs"],
[("validate_jumps, validate_jump","src/bytecode.rs"),("get_opcode_index binary search","src/bytecode.rs")],
["acceptance by parse_class","ByteCode::get_opcode_index"])

p("C18","Disabling bytecode parsing changes nothing but the decoded bytecode",
"With bytecode parsing disabled a file is accepted whenever it is accepted with it enabled, and otherwise exactly when its only faults are inside code arrays; every Code attribute then reports no decoded bytecode and everything else is identical. With it enabled every Code attribute carries decoded bytecode, and parsing without options behaves as enabled.",
["inputs","configurations"],"All inputs under each option setting, including repeated and contradictory option calls, and code attributes in every position.",
"No stable test sets the option.",
["src/lib.rs","src/attributes.rs"],
[("ParseOptions","src/lib.rs"),("read_code_data","src/attributes.rs")],
["parse_class_with_options"])

p("C19","Dynamic constants are backed by exactly one bootstrap table that covers them",
"A class whose constant pool contains dynamic constants or dynamic call sites is accepted only if it has exactly one class-level bootstrap-methods table and every such entry's index lies within it. A class without such entries is never rejected because of its bootstrap tables' number or size.",
["inputs"],"All combinations of dynamic entries, bootstrap indices, table sizes, numbers and positions of tables.",
"No test parses a class with a dynamic entry.",
["src/lib.rs","src/attributes.rs","src/constant_pool.rs"],
[("validate_bootstrap_methods","src/lib.rs")],
["acceptance by parse_class"])

p("C20","The outcome depends only on the bytes and options: no history, build or place",
"Parsing the same bytes with the same options always gives the same outcome, equal results and identical error text, whatever was parsed, held, iterated or dropped before, wherever the bytes lie in memory, and however often a result is inspected. Builds with and without the thread-safe feature give identical outcomes.",
["histories","configurations","inputs"],"All sequences of parse, iterate, inspect and drop operations over accepted and rejected files, both feature configurations, all buffer placements.",
"Each test parses at most one file once, in the default configuration.",
["src/lib.rs","src/constant_pool.rs","src/descriptors.rs","src/attributes.rs","src/bytecode.rs"],
[("no global state","whole crate"),("feature-selected pointer and cell types","src/lib.rs CafeRc, src/constant_pool.rs CafeCell, peel!")],
["parse_class_with_options, constantpool_iter, Display of errors"])

p("C21","Concurrent use (thread-safe feature) is deadlock-free and matches sequential use",
"With the thread-safe feature, parsed classes and errors can be shared and sent between threads. Under every interleaving of threads that parse (the same or different inputs, valid or not), iterate the constant pool of one shared class, format it or drop it, no thread blocks forever or panics, and each observes exactly what it would observe running alone (the `{:?}` text of a class whose cells another thread holds at that moment may show the standard placeholder for a locked mutex instead).",
["schedules"],"All interleavings of two or three threads at lock operations and input reads, up to a preemption bound, over small classes containing every kind of constant-pool reference.",
"No test uses the feature, let alone threads; the example only compiles.",
["src/constant_pool.rs","src/lib.rs","examples/threadsafe.rs"],
[("Mutex cells and Arc entries","src/constant_pool.rs CafeCell, peel!"),("short lock scopes along acyclic references","src/constant_pool.rs")],
["parse_class, constantpool_iter, Debug from several threads"],
[("reference cells","shared, lock-protected edges of the pool graph","src/constant_pool.rs")],
"None needed: a compiler pass reports every atomic operation of the real code to the checker")

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
