I = "include/fast_ber/"
B, U, C = I + "ber_types/", I + "util/", "src/compiler/"
NOT_APPLICABLE = []
NOTES = ("Every check enumerates a bounded space exhaustively on code built from /repo's working tree, and compares "
         "each step with an independent reference model (ITU-T X.690/X.680 or an abstract value). Genuine defects "
         "that were not repaired are in known_findings.txt; DESIGN.md gives bounds, oracles and costs per check.")
T_LIB = "exhaustive bounded enumeration of inputs on the real library against a reference model"
T_HIST = "explicit-state exploration of all operation sequences to a depth on the real objects against a reference state"
T_GEN = "exhaustive enumeration of bounded schemas and wire histories through the real compiler and generated code against a reference model"

PROPS = [
 dict(id="C01", title="BER header octets are exact, minimal and invertible",
  statement="For every class, construction, tag number and content length, the identifier and length octets written are the canonical X.690 definite-length form with the fewest octets, the lengths predicted for them are exact, and reading them back returns the same class, construction, tag and length. A header that does not fit the buffer, and every truncation of a header, is refused without touching octets outside the buffer. Wrapping content in one or two identifiers produces the same octets wherever the content lies in the buffer.",
  over=["inputs"], quant="all classes x constructions x tags x content lengths x buffer sizes",
  why="tests encode a handful of tags and lengths into one large buffer; boundaries between octet counts and short buffers are not sampled",
  files=[U+"EncodeIdentifiers.hpp", U+"EncodeHelpers.hpp", U+"Extract.hpp", B+"Tag.hpp", B+"Identifier.hpp"],
  mech=[("encode/extract of tags and lengths", U+"EncodeIdentifiers.hpp, "+U+"Extract.hpp"), ("predicted lengths", B+"Tag.hpp, "+U+"EncodeIdentifiers.hpp")],
  technique=T_LIB, note="bounded tags, lengths and buffer sizes, complete within the bounds"),
 dict(id="C02", title="Decoding arbitrary octets is memory safe, terminates and depends only on them",
  statement="Whatever octets are offered to a generic view, to the decoder of any built-in type or to the decoder of any generated type, decoding terminates without accessing memory outside the input or the object, reports success or failure, and leaves an object that can be read, printed, copied, encoded and decoded into again. The outcome is a function of the input octets alone.",
  over=["inputs"], quant="all octet strings up to a length, and all truncations, single-octet substitutions and length edits of valid encodings, for every decoder",
  why="tests decode a few well formed packets and a few malformed ones; safety is over every input an attacker can send",
  files=[U+"BerView.hpp", U+"Extract.hpp", U+"DecodeHelpers.hpp", U+"FixedIdBerContainer.hpp", U+"SmallFixedIdBerContainer.hpp", B+"ObjectIdentifier.hpp", B+"GeneralizedTime.hpp", B+"Real.hpp", B+"SequenceOf.hpp", B+"Choice.hpp", C+"EncodeDecode.cpp"],
  mech=[("bounds checks", U+"BerView.hpp"), ("decoders", B), ("generated decoders", C+"EncodeDecode.cpp")],
  technique=T_LIB, note="every decoder on all short octet strings and all edits of valid encodings, under address and undefined-behaviour sanitizers"),
 dict(id="C03", title="Generic views expose exactly the TLV structure of the octets",
  statement="A view over octets is valid exactly when they begin with a complete definite-length element whose tag and length are representable; then class, construction, tag, header, content and complete extent are those of that element, whatever octets follow. Iterating a view visits exactly the complete child elements that tile the content from its start, in order, stopping at the first octets that are not one, and re-encoding a view reproduces the element octet for octet.",
  over=["inputs"], quant="all octet strings to a length bound and all nested element structures to a depth",
  why="tests look at a few packets with short headers",
  files=[U+"BerView.hpp", U+"Extract.hpp", "src/util/BerView.cpp"],
  mech=[("view assignment", U+"BerView.hpp"), ("child iteration", U+"BerView.hpp")],
  technique=T_LIB, note="all octet strings to a bound over byte classes, compared with an independent parser"),
 dict(id="C04", title="Integer, boolean, null and enumerated values round trip minimally",
  statement="Every 64-bit integer, both booleans, null and every enumerated value encode, when assigned, to the unique minimal X.690 content octets and decode back to the same value, through every history of assignments, decodes and copies. Content that was received in a longer but legal form (padded integers, any non-zero octet for TRUE) denotes its X.690 value and may be kept as received. Decoding refuses empty or wrongly sized contents and integers wider than 64 bits, and a refused decode leaves the value the object had.",
  over=["inputs", "histories"], quant="all boundary integers, all contents to 3 octets and beyond over boundary octets, all operation sequences to a depth",
  why="tests use about ten integer values",
  files=[B+"Integer.hpp", B+"Boolean.hpp", B+"Null.hpp", B+"Enumerated.hpp", U+"SmallFixedIdBerContainer.hpp"],
  mech=[("integer content codec", B+"Integer.hpp"), ("boolean, null, enumerated", B)],
  technique=T_HIST, note="all values around every octet-count boundary, all short contents, all short histories"),
 dict(id="C05", title="Typed decoders accept exactly their own identifier",
  statement="The decoder of a type with a given identifier (one tag, or an explicit outer tag around an inner one) succeeds only on an element whose class, tag and primitive/constructed form are that identifier at every level, and then yields the element's own content no matter what follows it. Every other identifier is refused.",
  over=["inputs", "configurations"], quant="all decoder identifiers in the bound x all wire identifiers (class x construction x tag) at both levels",
  why="tests try one or two wrong tags per type",
  files=[U+"DecodeHelpers.hpp", B+"Identifier.hpp", U+"FixedIdBerContainer.hpp", U+"SmallFixedIdBerContainer.hpp", B+"SequenceOf.hpp"],
  mech=[("header check", U+"DecodeHelpers.hpp"), ("per type decode", B)],
  technique=T_LIB, note="full cross product of decoder and wire identifiers within the bound"),
 dict(id="C06", title="Encoders fill exactly the predicted octets or fail cleanly",
  statement="For every value of every built-in or generated type, encoding into a buffer of at least the predicted encoded length succeeds, writes exactly that many octets, leaves the octets after them alone and produces the same octets whatever the buffer held or how large it is. Encoding into any smaller buffer reports failure and touches nothing outside the buffer.",
  over=["inputs"], quant="all values in the bound x every buffer size from 0 to past the encoded length x initial buffer contents",
  why="tests encode into one large buffer",
  files=[U+"EncodeHelpers.hpp", U+"FixedIdBerContainer.hpp", U+"SmallFixedIdBerContainer.hpp", B+"SequenceOf.hpp", B+"Choice.hpp", C+"EncodeDecode.cpp"],
  mech=[("header wrapping", U+"EncodeHelpers.hpp"), ("generated encoders", C+"EncodeDecode.cpp")],
  technique=T_LIB, note="every buffer size for every value of a value set covering all types"),
 dict(id="C07", title="String values behave as byte sequences under every operation history",
  statement="After any sequence of constructions, assignments, self-assignments, aliasing assignments, resizes, element writes, moves, copies and decodes, a string value (octet, UTF8, printable and other string types, with any identifier) reads as the byte sequence those operations denote, compares equal exactly to that sequence, and encodes as its minimal header followed by those bytes. Failed decodes leave the value as it was.",
  over=["histories"], quant="all operation sequences to a depth over values straddling the inline-storage and length-octet boundaries",
  why="tests run a few fixed assignments",
  files=[B+"StringImpl.hpp", U+"FixedIdBerContainer.hpp"],
  mech=[("content with header kept in place", U+"FixedIdBerContainer.hpp")],
  technique=T_HIST, note="explicit-state search over two objects against std::string"),
 dict(id="C08", title="Object identifiers keep every arc",
  statement="Every object identifier that is legal under X.660 encodes to exactly the X.690 subidentifier octets and decodes back to the same arcs, through whole-value and per-arc access alike. Illegal arc lists are refused. Malformed contents (truncated last subidentifier, empty contents, arcs beyond 64 bits), whether the decode refuses or keeps them, never yield an arc that was not sent.",
  over=["inputs", "histories"], quant="all arc lists to a length over boundary arcs, all content strings to a length",
  why="tests use a few identifiers under 1.x",
  files=[B+"ObjectIdentifier.hpp"], mech=[("arc codec", B+"ObjectIdentifier.hpp")],
  technique=T_LIB, note="all arc lists over boundary values, all short contents"),
 dict(id="C09", title="Real numbers round trip and decode as X.690 defines",
  statement="Every finite double, both infinities, NaN and both zeros encode to a valid X.690 real and decode to the same value; an infinity equals only itself. Every binary encoding (any base, scaling factor, exponent and mantissa length) of a number a double can hold decodes to that number, and of one between two doubles to one of them; numbers outside the range of a double are unspecified. Special values decode to themselves, and malformed contents are refused rather than producing a number or hanging. Contents of more than 100 octets may be refused.",
  over=["inputs"], quant="all exponents x boundary mantissas x signs; all contents to a length; all bases and scaling factors",
  why="tests use about twenty numbers near 1",
  files=[B+"Real.hpp", "src/ber_types/Real.cpp"], mech=[("real codec", B+"Real.hpp")],
  technique=T_LIB, note="every binary exponent with boundary mantissas; all short contents"),
 dict(id="C10", title="Times denote the same instant after set, format, encode and decode",
  statement="A generalized time set to an instant with a precision and time zone kind formats to a legal X.680 string, reports that same precision and zone, converts back to the same instant (to the precision kept), and survives encoding and decoding. The three X.680 forms (UTC, local, local with offset) are told apart, a local time is read in the local zone, and a string that is no legal time never yields an instant: setting it is refused and leaves the value, and reading it reports an error. Fractions and missing minutes or seconds may be refused but are not misread.",
  over=["inputs", "histories"], quant="all boundary instants x precisions x zone kinds x offsets; all short or damaged time strings",
  why="tests use three instants",
  files=[B+"GeneralizedTime.hpp"], mech=[("format selection and parsing", B+"GeneralizedTime.hpp")],
  technique=T_LIB, note="cross product of boundary instants, formats and offsets; all single edits of legal strings"),
 dict(id="C11", title="OPTIONAL and DEFAULT keep presence, value and omission consistent",
  statement="An optional component is encoded exactly when it has a value, and a component equal to its default is never encoded; decoding an absent component yields empty or the default, a present one yields its value, and nothing else is consumed. This holds after every history of assignments, resets, copies, moves and decodes, in static and dynamic storage alike.",
  over=["histories", "configurations"], quant="all operation sequences to a depth x element types x storage modes",
  why="tests assign once and encode",
  files=[B+"Optional.hpp", B+"Default.hpp", U+"DynamicOptional.hpp"],
  mech=[("optional wrapper", B+"Optional.hpp"), ("default wrapper", B+"Default.hpp"), ("heap optional", U+"DynamicOptional.hpp")],
  technique=T_HIST, note="explicit-state search over pairs of objects against a reference optional"),
 dict(id="C12", title="Choice storage has value semantics in every history",
  statement="A choice value holds exactly one alternative at a time: after any sequence of emplacements, assignments, copies, moves, swaps, self-assignments and decodes, its index and content are those the sequence denotes, copies are independent of their source, and every alternative constructed is destroyed exactly once. Static and dynamic storage behave alike.",
  over=["histories"], quant="all operation sequences to a depth over two or three choice objects",
  why="tests run short fixed sequences, mostly on one object",
  files=[U+"DynamicVariant.hpp", U+"DynamicVariantHelpers.hpp", B+"Choice.hpp"],
  mech=[("heap variant", U+"DynamicVariant.hpp")],
  technique=T_HIST, note="explicit-state search with instance-counting alternatives"),
 dict(id="C13", title="SEQUENCE OF and SET OF keep every element in order",
  statement="A list type encodes as one constructed element whose content is the concatenated encodings of its elements in order, and decoding returns exactly those elements, for every element type, length, nesting and identifier. A list whose content is not entirely made of well-formed elements of the element type is refused.",
  over=["inputs", "histories"], quant="all lists to a length over boundary elements x element types x identifiers x storage modes; all edits of their encodings",
  why="tests use lists of at most a few elements, all well formed",
  files=[B+"SequenceOf.hpp", B+"SetOf.hpp"], mech=[("list codec", B+"SequenceOf.hpp")],
  technique=T_LIB, note="all short lists incl. sizes crossing length-octet boundaries; all single edits"),
 dict(id="C14", title="Generated SEQUENCE types decode exactly their component order",
  statement="For every sequence type the compiler accepts, encoding emits the present components in definition order with their tags, and decoding returns the same presence and values. Wire data with a mandatory component that is missing, malformed, or not at its place in the definition order, or with anything between the components, is refused; what lies behind the last component of the definition is ignored.",
  over=["programs", "inputs"], quant="all sequence schemas to a size (component kinds x optionality x tags x extension marker) x all presence subsets x all wire component sequences to a length",
  why="tests have a dozen sequence schemas and mostly complete messages",
  files=[C+"EncodeDecode.cpp", C+"CppGeneration.cpp", U+"EncodeHelpers.hpp", U+"DecodeHelpers.hpp"],
  mech=[("generated sequence encode/decode", C+"EncodeDecode.cpp")],
  technique=T_GEN, note="all schemas in the bound are compiled, and all wire sequences in the bound are decoded"),
 dict(id="C15", title="Generated SET types accept components in any order, once",
  statement="For every set type the compiler accepts, decoding accepts the components in every order and returns the same value, refuses a missing mandatory component, and does not let a component that was not sent appear as sent; a set decoded twice into the same object has only the second message's components. Unknown components are tolerated only in extensible types.",
  over=["programs", "inputs"], quant="all set schemas to a size x all permutations, omissions, repetitions and foreign components",
  why="tests have two set schemas and one order each",
  files=[C+"EncodeDecode.cpp"], mech=[("generated set decode loop", C+"EncodeDecode.cpp")],
  technique=T_GEN, note="all schemas in the bound, all wire sequences in the bound"),
 dict(id="C16", title="Generated CHOICE types select the alternative the tag names",
  statement="For every choice type the compiler accepts, encoding any alternative and decoding it returns the same alternative and value, and each wire identifier selects the one alternative that has it, whatever mix of classes, nested choices and tagging the alternatives use. An identifier that belongs to no alternative is refused.",
  over=["programs", "inputs"], quant="all choice schemas to a size (alternative kinds x classes x tags x nesting) x all wire identifiers in the bound",
  why="tests have a handful of choices whose tags differ in number",
  files=[C+"EncodeDecode.cpp", C+"GenerateChoice.cpp", C+"Identifier.cpp", B+"Choice.hpp"],
  mech=[("generated choice dispatch", C+"EncodeDecode.cpp"), ("library choice dispatch", B+"Choice.hpp")],
  technique=T_GEN, note="all schemas in the bound, all wire identifiers in the bound"),
 dict(id="C17", title="Tags on the wire follow the module's tagging rules",
  statement="For every tagging environment (explicit, implicit, automatic), every class and tag number and every type of component, including type references, the identifier octets emitted are those X.680 and X.690 prescribe, and decoding accepts them, or the compiler refuses the schema where more than two tags nest. The encoding of a value of a referenced type does not depend on whether the type is used through a reference or written in place.",
  over=["programs", "configurations"], quant="all combinations of module tagging x explicit/implicit keyword x class x tag number x component type x use site x one level of reference",
  why="tests cover a few combinations with small tag numbers",
  files=[C+"Identifier.cpp", C+"TypeAsString.cpp", C+"EncodeDecode.cpp", B+"Identifier.hpp"],
  mech=[("identifier resolution", C+"Identifier.cpp")],
  technique=T_GEN, note="complete cross product within the bound, compared with reference octets"),
 dict(id="C18", title="Meaning does not depend on the order of definitions",
  statement="Permuting the assignments of a module, the modules of a file or the files given to the compiler changes neither whether the schema is accepted nor the octets any value encodes to (modules importing from each other in a cycle may be refused in every order). Every accepted schema generates code that compiles.",
  over=["programs", "configurations"], quant="all permutations of the assignments of bounded modules, of modules and of input files",
  why="tests compile each schema in one order",
  files=[C+"ReorderAssignments.cpp", C+"Dependencies.cpp", C+"ResolveType.cpp"],
  mech=[("dependency ordering", C+"ReorderAssignments.cpp, "+C+"Dependencies.cpp")],
  technique=T_GEN, note="all permutations of schemas covering every dependency kind"),
 dict(id="C19", title="Imports resolve to the exporting module's definition",
  statement="A type, value or class imported from another module, in the same file or another, directly or through a chain, keeps the tags and encoding it has where it was defined, including that module's tagging default, even when the importing module defines similar names. An import of something that does not exist is refused with an error.",
  over=["programs", "configurations"], quant="all import graphs on up to three modules x tagging defaults x file splits",
  why="tests have one import schema",
  files=[C+"ReorderAssignments.cpp", C+"CompilerTypes.cpp", C+"ResolveType.cpp", "src/compiler_main/CompilerMain.cpp"],
  mech=[("import resolution", C+"ResolveType.cpp")],
  technique=T_GEN, note="all import graphs in the bound"),
 dict(id="C20", title="The compiler ends every run with output or a diagnostic",
  statement="For every input text, including schemas that are ill-formed, incomplete, ambiguous, circular or truncated at any point, the compiler terminates on its own, without crashing, either reporting success having written the output, or reporting an error on its error stream with a failing exit status. An input that ends before its last END, or has an unclosed comment or an unmatched bracket, is refused, and so is a schema with an undefined reference, duplicated names, duplicated or clashing tags, or a circular definition that cannot be represented.",
  over=["programs", "inputs"], quant="all truncations, token deletions, duplications and swaps of a schema corpus; all ill-formed schema classes",
  why="tests compile valid schemas, and a few fixed invalid ones",
  files=["src/compiler_main/CompilerMain.cpp", C+"asn_compiler.yacc", C+"ResolveType.cpp", C+"ReorderAssignments.cpp", C+"Parameters.cpp"],
  mech=[("error reporting", "src/compiler_main/CompilerMain.cpp")],
  technique=T_GEN, note="all single token edits of the schemas in the bound, run under sanitizers"),
 dict(id="C21", title="The compiler's output is a function of its input",
  statement="Compiling the same files with the same arguments always writes the same octets, whatever the process, environment, address layout or working directory, and compiling one schema never affects the code generated for another. Output for a module does not depend on unrelated modules given along with it.",
  over=["configurations", "programs"], quant="all schemas in the corpus x environments x repeated runs x unrelated companions",
  why="tests compile once",
  files=["src/compiler_main/CompilerMain.cpp", C+"ReorderAssignments.cpp", C+"CppGeneration.cpp"],
  mech=[("ordered emission", C+"CppGeneration.cpp")],
  technique=T_GEN, note="all corpus schemas in all listed environments"),
 dict(id="C22", title="Enumerations, named numbers and default values keep their numbers",
  statement="Every enumerator has on the wire the number X.680 assigns it, given explicitly or implied, in the root or after an extension marker, and numbers are distinct. Named integer values, value assignments and default values given by literal, by name or by reference denote the value written in the schema.",
  over=["programs"], quant="all enumerations to a size over explicit/implicit numbers; all default value forms x types",
  why="tests have two enumerations numbered from zero",
  files=[C+"CppGeneration.cpp", C+"ValueAsString.cpp", C+"ValueType.cpp", B+"Enumerated.hpp"],
  mech=[("enumerator emission", C+"TypeAsString.cpp"), ("default values", C+"ValueAsString.cpp")],
  technique=T_GEN, note="all enumerations and default forms in the bound"),
 dict(id="C23", title="The viewer's dump is well formed and faithful",
  statement="For every input file and command line the viewer terminates without crashing. For a file holding one valid element, nested to any depth, it prints one well-formed JSON document whose nesting, lengths and identifiers are those of the element and all its descendants and whose contents are the values they encode (a string where they are no valid encoding of their universal type), and exits successfully. It reports failure for a file that begins with no element, a file that cannot be read, and output that cannot be written; what it prints for an element with unreadable descendants is still a well-formed document. Printing a value of any built-in or generated type likewise yields one well-formed JSON document with the members and values it holds.",
  over=["inputs"], quant="all octet strings to a length over byte classes, all element trees to a depth x all universal types x content bytes",
  why="tests print two packets and do not parse the result",
  files=["src/view/view.cpp", "src/util/BerView.cpp", B+"StringImpl.hpp", B+"All.hpp"],
  mech=[("stream operators", "src/util/BerView.cpp")],
  technique=T_LIB, note="all short inputs and trees; output parsed by a JSON reader and compared with the reference tree"),
 dict(id="C24", title="Decoding into a used object equals decoding into a fresh one",
  statement="Decoding a message into an object that already holds any other value gives the same result and the same re-encoding as decoding it into a new object; nothing of the earlier value survives in a successful decode, even if a failed decode came in between. Re-encoding a successful decode and decoding that yields the same value.",
  over=["histories", "inputs"], quant="all pairs (and triples) of messages from a message set per type, valid and damaged",
  why="tests decode each object once",
  files=[C+"EncodeDecode.cpp", B+"SequenceOf.hpp", B+"Optional.hpp", B+"Default.hpp", B+"Choice.hpp"],
  mech=[("generated decode resets", C+"EncodeDecode.cpp")],
  technique=T_HIST, note="all message histories of length 3 over each type's message set"),
 dict(id="C25", title="Parameterized types, COMPONENTS OF and classes expand as written out",
  statement="A parameterized type instantiated with arguments, a COMPONENTS OF inclusion and an information object class field each give a type whose encoding is the one of the same type written out by hand, in every tagging environment, in any nesting and definition order.",
  over=["programs"], quant="all instantiations over argument types x tagging x nesting x order in the bound",
  why="tests have one schema each",
  files=[C+"Parameters.cpp", C+"ObjectClass.cpp", C+"ReorderAssignments.cpp"],
  mech=[("parameter substitution", C+"Parameters.cpp"), ("components of", C+"ReorderAssignments.cpp"), ("classes", C+"ObjectClass.cpp")],
  technique=T_GEN, note="each expansion compared with its hand-written expansion"),
 dict(id="C26", title="Owning generic containers hold one independent element in every history",
  statement="After any sequence of decodes, content assignments, resizes, copies, moves and self-assignments, an owning generic container holds exactly the element those operations denote: its identifier is kept across resizes, its length octets match its content, and its octets are its own. Empty and failed states are reported as invalid and can be reused.",
  over=["histories"], quant="all operation sequences to a depth over two containers and boundary contents and identifiers",
  why="tests run a few fixed operations with short identifiers",
  files=[U+"BerContainer.hpp", U+"BerView.hpp", B+"Any.hpp"],
  mech=[("owning container", U+"BerContainer.hpp")],
  technique=T_HIST, note="explicit-state search over two containers against a reference element"),
 dict(id="C27", title="Recursive types round trip at every depth",
  statement="Self-referential and mutually recursive types (through OPTIONAL, CHOICE, SEQUENCE OF or SET OF) that the compiler accepts generate code that compiles, and every value of bounded depth and shape round trips and copies independently of its source.",
  over=["programs", "inputs"], quant="all recursive schema shapes in the bound x all values to a depth",
  why="tests have one recursive schema with one value",
  files=[C+"ReorderAssignments.cpp", C+"TypeAsString.cpp", U+"DynamicOptional.hpp", U+"DynamicVariant.hpp", B+"SequenceOf.hpp"],
  mech=[("dynamic storage selection", C+"ReorderAssignments.cpp")],
  technique=T_GEN, note="all recursion shapes in the bound, all value trees to a depth"),
 dict(id="C28", title="Every legal ASN.1 name yields usable C++",
  statement="Type, component, enumerator, value and module names of any legal spelling, including C++ keywords, hyphenated names, names equal to library or enclosing names, and names differing only in case of the first letter, generate code that compiles and whose members are reachable under the C++ name, which is the ASN.1 name with '_' for '-', and a '_' after it where C++ or the library reserves the name.",
  over=["programs"], quant="all reserved words and clash patterns x all naming positions",
  why="tests use a handful of names",
  files=[C+"CompilerTypes.cpp", C+"ReorderAssignments.cpp", C+"TypeAsString.cpp"],
  mech=[("name sanitizing", C+"CompilerTypes.cpp")],
  technique=T_GEN, note="every reserved word in every position"),
]
