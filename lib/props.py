"""The single source of properties.jsonl and MANIFEST.json:  python3 lib/props.py"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, script=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, script=script, technique=technique, note=note, na=na))


prop("C01", "Compiled programs compute what the Definition of Standard ML says",
     "Every well-typed core program, compiled interactively or in batch, evaluates to the values, side effects (in order) and "
     "exceptions prescribed by the Definition: integers, words, reals, strings, records, datatypes, refs and arrays, closures, "
     "recursion, pattern matching, handlers, equality, exceptions and first-class continuations. The outcome does not depend on the "
     "optimisation controls of the compiler, on inlining or specialisation, on register pressure or the number of "
     "variables alive, or on whether the code sits at top level, in a function, in a structure or in a functor body.",
     ["programs", "configurations"],
     "all closed well-typed terminating programs of the core language x all settings of the optimiser controls",
     "the tests contain a fixed set of programs; a wrong rewrite, representation choice, closure conversion or spill decision only "
     "shows on particular shapes and operand values",
     ["base/compiler/FLINT", "base/compiler/CPS", "base/compiler/CodeGen", "base/compiler/ElabData/prim", "MLRISC/amd64",
      "MLRISC/ra", "base/compiler/Elaborator/matchcomp"],
     [("translation to the typed intermediate language and its optimiser", "base/compiler/FLINT/trans, base/compiler/FLINT/opt"),
      ("CPS contraction, expansion, closure conversion, spilling", "base/compiler/CPS"),
      ("code generation and register allocation", "base/compiler/CodeGen/main/mlrisc-gen-fn.sml, MLRISC/amd64, MLRISC/ra")],
     ["output of generated programs run by the freshly built system"],
     "c01_programs.py", "generated well-typed programs, reference interpreter oracle, metamorphic optimiser settings",
     "Random typed programs are evaluated by an independent interpreter and by the compiled code; exploration, not proof.")

prop("C02", "Fixed-width integer and word arithmetic is exact or raises",
     "Every operation of the fixed-width integer and word structures returns the mathematically exact result, reduced modulo the word "
     "size for words, and raises Overflow or Div exactly when an integer result is not representable or a divisor is zero. "
     "Conversions between all the integer and word types, in any composition, and to and from text in every radix, agree with the "
     "mathematical value. This holds for constants the compiler folds and strength-reduces just as for values known only at run time, and "
     "evaluating an operation never disturbs its operands.",
     ["inputs", "programs"], "all operand values of every operation and all compositions of conversions and literals",
     "the tests sample a few operands; boundary values, literal operands and fused conversions decide which instruction sequence is used",
     ["base/system/Basis/Implementation", "base/system/smlnj/init", "base/compiler/CPS/opt", "base/compiler/FLINT/trans/transprim.sml",
      "base/compiler/CodeGen/main", "MLRISC/amd64/mltree/amd64-gen.sml"],
     [("inline primitive operations and overflow checks", "base/system/smlnj/init/target64-inline.sml, base/compiler/FLINT/trans/transprim.sml"),
      ("constant folding and conversion fusion", "base/compiler/CPS/opt/contract-prim.sml, const-arith.sml, testcnv.sml, divcnv.sml"),
      ("number scanners and formatters", "base/system/Basis/Implementation/num-scan64.sml, num-format64.sml, scan-util.sml")],
     ["Int, Int32, Int64, Word, Word8, Word32, Word64, LargeWord, SysWord"],
     "c02_fixed.py", "table-driven differential testing against unbounded integers, generated literal programs",
     "Boundary-biased random operands on every public operation, plus generated expressions with literal operands; oracle is Python's integers.")

prop("C03", "IntInf arithmetic is exact for integers of any size",
     "Every IntInf operation (arithmetic, both division pairs, powers, bitwise operations, shifts, logarithm, comparison, conversion to and "
     "from fixed-width types, reals and text in every radix) returns the exact mathematical result for operands of any size, "
     "raising Div, Domain or Overflow only where the Basis says so.",
     ["inputs"], "all integers, in particular multi-digit operands with extreme digit patterns",
     "carry, borrow and quotient-correction paths of multi-precision algorithms are reached only by rare digit patterns",
     ["base/system/smlnj/init/target64-core-intinf.sml", "base/system/Basis/Implementation/int-inf.sml"],
     [("multi-precision digit algorithms", "base/system/smlnj/init/target64-core-intinf.sml"),
      ("bit operations, text conversion, powers", "base/system/Basis/Implementation/int-inf.sml")],
     ["IntInf, LargeInt, IntInf literals"],
     "c03_intinf.py", "table-driven differential testing against unbounded integers",
     "Operands up to several thousand bits with digit-pattern generators; oracle is Python's integers.")

prop("C04", "Reals follow IEEE arithmetic and convert to text and back exactly",
     "Real arithmetic, comparison, rounding, classification, decomposition and conversion to and from integers agree with IEEE 754 "
     "binary64, including signed zeros, infinities, NaNs and subnormals, raising Overflow, Domain or Div only where the Basis says so. "
     "Scanning decimal text gives the correctly rounded value and formatting in each style gives the correctly rounded digits, so that "
     "conversion to text and back is the identity; real literals in programs denote the correctly rounded value.",
     ["inputs"], "all 2^64 doubles and all decimal texts",
     "rounding and correction steps go wrong only for particular mantissas, halfway cases and exponents",
     ["base/system/Basis/Implementation/Real", "base/compiler/Basics/reals"],
     [("decimal/binary conversion", "base/system/Basis/Implementation/Real"),
      ("rounding and decomposition", "base/system/Basis/Implementation/Real/real64.sml, Real/math64-common.sml"),
      ("real literals", "base/compiler/Basics/reals")],
     ["Real, LargeReal, Math, PackReal64, real literals"],
     "c04_real.py", "table-driven differential testing against IEEE arithmetic and exact decimal conversion",
     "Random and adversarial doubles and decimal strings; oracle is the host's IEEE doubles and Python's exact conversions.")

prop("C05", "String, Char, Substring and text-conversion functions meet the Basis",
     "Every function of Char, String, Substring, CharVector and StringCvt returns what the Basis specification says for all strings over "
     "all 256 characters and all index pairs, raising Subscript, Size or Chr exactly for out-of-range arguments. Escaping to SML or C syntax and "
     "scanning back is the identity, and scanning any text consumes exactly the longest valid prefix.",
     ["inputs"], "all strings, characters, index pairs and predicate functions",
     "off-by-one errors at string ends, empty strings, overlapping separators and unusual characters escape sampled tests",
     ["base/system/Basis/Implementation/string.sml", "base/system/Basis/Implementation/char.sml", "base/system/Basis/Implementation/substring.sml",
      "base/system/Basis/Implementation/string-cvt.sml", "base/system/Basis/Implementation/pre-string.sml"],
     [("string and substring operations", "base/system/Basis/Implementation/string.sml, substring.sml, pre-string.sml"),
      ("character classes and escapes", "base/system/Basis/Implementation/char.sml")],
     ["Char, String, Substring, StringCvt, Bool text conversion"],
     "c05_string.py", "table-driven model-based testing",
     "Every public function on generated strings with generated offsets; oracle is an executable model of the Basis text.")

prop("C06", "Lists, vectors, arrays and slices behave like their mathematical models",
     "Every operation of List, ListPair, Vector, Array, Array2, the monomorphic vectors and arrays (char, Word8, real and others), their slices "
     "and the Pack structures yields exactly the elements, effect order and exceptions the Basis prescribes, for all lengths, offsets and "
     "overlapping source and destination ranges. Out-of-range accesses raise Subscript (or Size), never read or write outside "
     "the object, and a failed operation leaves its target unchanged.",
     ["inputs", "histories"], "all sequences, index and slice triples, and histories of operations on shared arrays",
     "errors hide in overlapping copies, empty slices, end offsets and boundary indices",
     ["base/system/Basis/Implementation", "base/compiler/FLINT/trans/transprim.sml"],
     [("sequence implementations", "base/system/Basis/Implementation/*array*.sml, *vector*.sml, list.sml, list-pair.sml"),
      ("inlined bounds checks", "base/compiler/FLINT/trans/transprim.sml")],
     ["List, ListPair, Vector, Array, Array2, slices, mono sequences, PackWord*, PackReal*"],
     "c06_seq.py", "model-based testing of operations and operation histories",
     "Each operation is run on generated values and compared with an executable model, including final contents and callback order.")

prop("C07", "Garbage collection never changes what a program observes",
     "Whatever the allocation pattern, nursery size, number and kind of collections and object sizes, every reachable value keeps its contents, "
     "sharing and identity, stores into old objects are seen after later collections, and weak pointers keep their object while it is otherwise reachable and are "
     "cleared only when it is not. Programs run to completion with the same answer under every heap configuration.",
     ["histories", "configurations"], "all mutation and allocation histories x heap parameters x points at which collections happen",
     "a lost root or store-list entry matters only if a collection of the right generation happens at the right moment in the right object graph",
     ["base/runtime/gc", "base/runtime/kernel", "base/runtime/c-libs/smlnj-runtime"],
     [("minor and major collection, store list, big objects", "base/runtime/gc"),
      ("heap limit checks and root registers", "base/compiler/CodeGen/cpscompile, base/compiler/CPS/main/limit.sml")],
     ["checksums of generated object graphs mutated over many collections"],
     "c07_gc.py", "stateful model-based testing with forced collections and varied heap sizes",
     "Random mutation histories over object graphs of all kinds are mirrored in a model and compared after forced and natural collections.")

prop("C08", "Type inference accepts exactly the typable programs, at principal types",
     "The elaborator accepts a core program exactly when it is typable in the Definition's system (with the value restriction, equality types, "
     "overloading, explicit type variables, records with resolved flex patterns and datatype/abstype/exception declarations), "
     "and the types it reports are principal up to renaming. An accepted program never goes wrong at run time.",
     ["programs"], "all core programs, well typed or not",
     "unification, generalisation and equality-attribute errors show only on particular type structures",
     ["base/compiler/Elaborator/types", "base/compiler/ElabData/types", "base/compiler/Elaborator/elaborate"],
     [("unification and generalisation", "base/compiler/Elaborator/types/unify.sml, typecheck.sml"),
      ("overloading resolution", "base/compiler/Elaborator/types/overload.sml"),
      ("equality attributes", "base/compiler/Elaborator/types/eqtypes.sml")],
     ["types reported by the compiler, error reports"],
     "c08_types.py", "generated programs against an independent Hindley-Milner inference oracle",
     "Random terms (mostly near the typable/untypable border) are inferred by an independent algorithm and by the compiler.")

prop("C09", "Pattern matching selects the first matching rule; diagnostics are exact",
     "A match executes the first rule whose pattern matches, binding every variable to the right component, and raises Match or Bind exactly "
     "when none does. The compiler reports a match or binding as nonexhaustive exactly when some value matches no rule, and a rule as redundant "
     "exactly when the earlier rules cover it.",
     ["programs", "inputs"], "all pattern matrices over all types x all values",
     "the decision-tree compiler's choices depend on the whole pattern matrix; tests contain a few fixed matrices",
     ["base/compiler/Elaborator/matchcomp", "base/compiler/FLINT/trans", "base/compiler/ElabData/types/conrep.sml"],
     [("decision tree construction", "base/compiler/Elaborator/matchcomp"),
      ("constructor representations", "base/compiler/ElabData")],
     ["warnings and run-time results of generated matches"],
     "c09_match.py", "generated pattern matrices against an enumeration oracle",
     "Random datatypes and pattern matrices; exhaustiveness, redundancy and selection are decided by brute-force enumeration.")

prop("C10", "Modules: signature matching, functors and type abstraction are respected",
     "A structure matches a signature exactly when every specification is satisfied by an at-least-as-general component; the result exposes "
     "exactly the specified components with the values of the structure. Opaque ascription and functor application yield fresh abstract types, "
     "transparent ascription and where/sharing constraints propagate exactly the intended equalities, and functor "
     "applications evaluate their bodies once per application with the actual argument.",
     ["programs"], "all structures, signatures, functors and their applications",
     "instantiation and realisation logic depends on the combination of specifications; tests use a fixed set",
     ["base/compiler/Elaborator/modules", "base/compiler/ElabData/modules", "base/compiler/FLINT/trans"],
     [("signature matching and functor application", "base/compiler/Elaborator/modules/sigmatch.sml, instantiate.sml"),
      ("coercions and thinning", "base/compiler/FLINT/trans/translate.sml")],
     ["accept/reject decisions and run-time values of generated module programs"],
     "c10_modules.py", "generated module programs against a reference signature matcher and evaluator",
     "Random signatures/structures/functors near the match/mismatch border with computed expected verdicts and values.")

prop("C11", "The front end is total, faithful to the grammar, and transactional",
     "Any byte sequence offered to the compiler leads to normal completion or ordinary error messages with positions inside the text, never to a crash, "
     "hang or internal failure, and a rejected or failing declaration leaves the top-level environment exactly as "
     "before. Accepted text is read as the Definition's grammar says: fixity and precedence, lexical classes, comments and literals, including all string, character, integer, word and real "
     "literal forms, so that printing a program's phrase with redundant or minimal parentheses does not change its meaning.",
     ["inputs", "histories"], "all source texts and sequences of interactive inputs",
     "error-recovery, lexer-state and fixity paths depend on the precise token sequence",
     ["base/compiler/Parse", "base/compiler/Elaborator/elaborate/precedence.sml", "base/compiler/TopLevel/interact"],
     [("lexers and grammars", "base/compiler/Parse"), ("operator precedence", "base/compiler/Elaborator/elaborate/precedence.sml"),
      ("interactive loop", "base/compiler/TopLevel/interact/evalloop.sml")],
     ["compiler messages, values and environment after generated inputs"],
     "c11_frontend.py", "grammar-based and mutational fuzzing with crash, environment and meaning oracles",
     "Mutated and generated source text, literal and fixity cases with computed values.")

prop("C12", "CM's incremental rebuild is equivalent to a rebuild from scratch",
     "After any history of edits to the sources of a CM project (changes of bodies, interfaces, comments, additions, removals, reordering, touched or reverted files), an incremental build "
     "succeeds or fails exactly as a clean build does and the linked program behaves as if built from scratch. CM rejects cyclic or conflicting "
     "projects and hides everything a library or group does not export.",
     ["histories"], "all project shapes and edit histories",
     "stale bin files or dependency information show only after particular sequences of edits",
     ["base/cm"],
     [("dependency analysis and up-to-date checks", "base/cm/depend, base/cm/compile"),
      ("stable libraries and smart recompilation", "base/cm/stable, base/compiler/TopLevel")],
     ["results of CM.make after each edit versus a clean build"],
     "c12_cm.py", "stateful testing of edit histories, differential against clean builds",
     "Random projects and edit sequences; each incremental result is compared with a fresh directory's build and a model of the expected output.")

prop("C13", "ml-yacc parsers accept exactly the grammar's language with the right actions",
     "For every grammar ml-yacc accepts, the generated parser accepts exactly the sentences the LALR(1) automaton of the grammar with its "
     "precedence declarations defines and runs the semantic actions of the corresponding derivation bottom-up, with correct positions. Conflicts are reported "
     "exactly when the LALR(1) tables have them and resolved as documented, and error repair only ever turns the input into a sentence of the "
     "language.",
     ["programs", "inputs"], "all grammars x all token sequences",
     "table construction and compression errors show for particular grammars only",
     ["ml-yacc/src", "ml-yacc/lib"],
     [("LALR construction", "ml-yacc/src/lalr.sml, look.sml, mklrtable.sml"), ("parse engine and repair", "ml-yacc/lib/parser2.sml"),
      ("table encoding", "ml-yacc/src/mkprstruct.sml, ml-yacc/lib/lrtable.sml")],
     ["generated parsers on generated sentences"],
     "c13_yacc.py", "random grammars, differential against an independent LALR(1) construction and parser",
     "Random grammars are processed by the real tool; reference LALR(1) tables built independently decide acceptance, parse trees and conflicts.")

prop("C14", "Generated lexers match the longest, then first, rule",
     "For every lexer specification, the scanners produced by ml-lex, ml-ulex and ml-ulex in ml-lex compatibility mode split any input into the tokens given by the longest match, "
     "ties going to the earliest rule, honouring start states, classes, counted repetition, intersections/complements, lookahead and "
     "end of file, and report correct positions, independent of how the input arrives in chunks.",
     ["programs", "inputs"], "all lexer specifications x all inputs x all chunkings",
     "subset construction, minimisation, buffer refill and back-up logic depend on the specification and the input boundaries",
     ["ml-lex", "ml-lpt/ml-ulex", "ml-lpt/lib"],
     [("regular expression to automaton", "ml-lpt/ml-ulex/FrontEnds, ml-lex/lexgen.sml"), ("code generation", "ml-lpt/ml-ulex/BackEnds"),
      ("run-time buffers", "ml-lpt/lib/ulex-buffer.sml")],
     ["token streams of generated lexers"],
     "c14_lex.py", "random lexer specifications, differential against a derivative-based matcher",
     "Random specifications are compiled by the real tools and run on random inputs and chunkings; oracle is a derivative matcher.")

prop("C15", "ml-antlr parsers accept exactly the LL(k) grammar's language",
     "For every grammar ml-antlr accepts, the generated parser accepts exactly the sentences of the grammar, runs the actions of the unique "
     "leftmost derivation with correct values for sequences, options and repetitions, and its error repair always terminates and reports "
     "at least one repair for a text outside the language.",
     ["programs", "inputs"], "all accepted grammars x all token sequences",
     "prediction sets and EBNF handling depend on the grammar",
     ["ml-lpt/ml-antlr", "ml-lpt/lib"],
     [("prediction tables", "ml-lpt/ml-antlr"), ("EBNF and error repair run time", "ml-lpt/lib")],
     ["generated parsers on generated sentences"],
     "c15_antlr.py", "random LL grammars, differential against a reference recogniser",
     "Random LL(1)/LL(k) grammars with EBNF are processed by the real tool and compared with an Earley-style recogniser.")

prop("C16", "ml-burg matchers find a minimum-cost cover",
     "For every tree grammar and every tree, the matcher generated by ml-burg yields a derivation whose total cost is the minimum over all "
     "derivations, and reports failure exactly when the tree has no derivation.",
     ["programs", "inputs"], "all tree grammars x all trees",
     "cost ties, chain rules and deep patterns interact in ways samples do not cover",
     ["ml-burg"], [("dynamic programming matcher generation", "ml-burg/burg.sml, ml-burg/burg-ast.sml")],
     ["generated matchers on generated trees"],
     "c16_burg.py", "random tree grammars against brute-force minimal covers",
     "Random grammars and trees; oracle is an independent dynamic program.")

prop("C17", "Ordered maps and sets agree with mathematical maps and sets",
     "Every implementation of the ordered map and set signatures (list, binary tree, red-black, splay, char and interval variants; functor and "
     "pre-instantiated) returns, for every sequence of operations, exactly what the mathematical finite map or set gives, in ascending "
     "order for folds and listings, leaves older versions intact, and applies callbacks once per element in the specified order.",
     ["histories"], "all sequences of operations over all versions of a container",
     "rebalancing cases and bulk operations depend on the shape left by earlier operations",
     ["smlnj-lib/Util"],
     [("balanced trees", "smlnj-lib/Util/redblack-map-fn.sml, redblack-set-fn.sml, binary-map-fn.sml, binary-set-fn.sml, splay*.sml"),
      ("interval sets", "smlnj-lib/Util/interval-set-fn.sml")],
     ["ORD_MAP, ORD_SET, MONO maps and sets, INTERVAL_SET"],
     "c17_ordmap.py", "stateful model-based testing of all implementations in lockstep",
     "Random operation histories over several live versions against a Python model, all implementations driven by the same histories.")

prop("C18", "Hash tables and mutable containers agree with their models",
     "Hash tables and sets (functor, polymorphic, int, word, string/atom keyed), two-key tables, dynamic arrays, bit arrays, queues, fifos, priority queues, splay trees, property lists and "
     "union-find references return, for every history of operations, what the mathematical model gives, through growth, deletion, copying and "
     "iteration, raising their exceptions exactly when specified.",
     ["histories"], "all operation histories",
     "resizing, bucket removal and boundary growth depend on the history",
     ["smlnj-lib/Util", "smlnj-lib/HashCons"],
     [("hash tables", "smlnj-lib/Util/hash-table-rep.sml, hash-table-fn.sml, hash2-table-fn.sml, hash-set-fn.sml"),
      ("dynamic and bit arrays", "smlnj-lib/Util/dynamic-array-fn.sml, bit-array.sml"), ("queues", "smlnj-lib/Util/fifo.sml, queue.sml, left-priorityq-fn.sml")],
     ["public signatures of the containers"],
     "c18_containers.py", "stateful model-based testing",
     "Random histories against Python models.")

prop("C19", "Sorting, searching, encoding and formatting utilities meet their contracts",
     "List and array sorts return a (stable, where promised) sorted permutation and searches find an element exactly when present; list products, iteration, edit distance, strongly connected components, statistics and "
     "random ranges obey their definitions. Base64, UTF-8, LEB128 and property encodings decode what they encode and reject what is malformed; "
     "Format, Scan, ListFormat, GetOpt, path and keyword utilities produce and parse exactly what their documentation says.",
     ["inputs"], "all inputs of the utility functions",
     "pivot choice, padding, malformed encodings and format directives have many rare cases",
     ["smlnj-lib/Util", "smlnj-lib/UUID", "smlnj-lib/Unix"],
     [("sorting", "smlnj-lib/Util/list-mergesort.sml, array-qsort*.sml"), ("encodings", "smlnj-lib/Util/base64.sml, utf8.sml"),
      ("formatting and scanning", "smlnj-lib/Util/format.sml, scan.sml, fmt-fields.sml, getopt.sml")],
     ["public utility functions"],
     "c19_util.py", "table-driven model-based testing and round trips",
     "Every utility function on generated inputs against executable models.")

prop("C20", "JSON parsing, printing and streaming agree with RFC 8259 and each other",
     "The JSON parser accepts exactly the valid documents and yields the denoted value; printing any value (compact or pretty, tree or stream printer, or buffer printer) gives a valid document that parses "
     "back to the same value, including all Unicode escapes, control characters, big integers and reals. The stream and tree parsers see the same structure.",
     ["inputs"], "all JSON texts and values", "escape, number and nesting corner cases are unbounded",
     ["smlnj-lib/JSON"], [("lexer", "smlnj-lib/JSON/json-lexer.lex, json-source.sml"), ("parsers", "smlnj-lib/JSON/json-parser.sml, json-stream-parser.sml"),
                          ("printers", "smlnj-lib/JSON/json-printer.sml, json-stream-printer.sml")],
     ["JSONParser, JSONPrinter, JSONStreamParser, JSONStreamPrinter, JSONUtil"],
     "c20_json.py", "grammar-based generation, round trips, differential against an independent JSON reader",
     "Valid and near-valid documents, values of all shapes; oracle is an independent RFC 8259 reader in Python.")

prop("C21", "S-expression, XML and HTML documents survive printing and parsing",
     "For every S-expression value and every well-formed XML document the library's parser accepts the printed form and returns an equal tree; "
     "malformed documents are rejected with an error, never accepted as something else.",
     ["inputs"], "all documents", "quoting, escaping and nesting corner cases are unbounded",
     ["smlnj-lib/SExp", "smlnj-lib/XML", "smlnj-lib/HTML4", "smlnj-lib/HTML"],
     [("S-expressions", "smlnj-lib/SExp"), ("XML parser functor", "smlnj-lib/XML/xml-parser-fn.sml")],
     ["SExpParser, SExpPrinter, XMLParserFn"],
     "c21_docs.py", "generated documents, round trips, differential against reference readers",
     "Generated values and texts with mutation; oracle is an independent reader.")

prop("C22", "Regular-expression engines find the specified matches",
     "For every regular expression and input, each engine of the RegExp library reports a match exactly when the text has a prefix (or substring, for search) in the expression's language; matched ranges and "
     "group positions are consistent with a derivation, the DFA-style engines report the longest match and the backtracking engine the match its documentation specifies, "
     "at the leftmost position.",
     ["inputs"], "all expressions x all inputs", "automaton construction and backtracking depend on the expression",
     ["smlnj-lib/RegExp"], [("engines", "smlnj-lib/RegExp/BackEnd"), ("AWK syntax front end", "smlnj-lib/RegExp/FrontEnd/awk-syntax.sml"), ("glue", "smlnj-lib/RegExp/Glue")],
     ["RegExpFn with the backtracking, DFA and Thompson engines; AwkSyntax"],
     "c22_regexp.py", "random expressions and texts against a reference matcher, engine differential",
     "Expression trees and AWK texts; oracle is set-of-positions semantics.")

prop("C23", "The pretty printer preserves text and respects the box model",
     "For every sequence of pretty-printing operations the output consists of exactly the given strings in order, separated only by the requested spaces or "
     "by newlines with indentation, a horizontal box never breaks, a vertical box breaks at every break, an hv box breaks all or none, a hov "
     "(packed) box breaks only where the next block does not fit, and no line exceeds the width when a conforming layout exists for its breaks.",
     ["inputs"], "all nested box programs x line widths", "layout decisions depend on remaining width and nesting",
     ["smlnj-lib/PP"], [("Oppen-style stream engine", "smlnj-lib/PP/src/pp-stream-fn.sml")],
     ["text printed through the PP devices"],
     "c23_pp.py", "random box programs against a reference layout model", "Random box trees and widths; text preservation, per-box invariants and a reference layout.")

prop("C24", "CML threads communicate and synchronise as the calculus says",
     "Under every preemption schedule a synchronous channel delivers each sent value to exactly one receiver and both sides commit together; choose commits to exactly one alternative and posts the negative "
     "acknowledgements of exactly the others; mailboxes, I-variables, M-variables, multicast and buffered channels keep their order and once-only guarantees; "
     "timeouts fire, and deadlock-free programs never lose a wake-up.",
     ["schedules", "histories"], "all thread schedules and synchronisation histories",
     "lost wake-ups and double commits need particular interleavings",
     ["cml/src", "cml/cml-lib"], [("events and channels", "cml/src/core-cml/event.sml, channel.sml"), ("scheduler", "cml/src/core-cml/scheduler.sml"),
                    ("mailboxes, sync variables", "cml/src/core-cml/mailbox.sml, sync-var.sml")],
     ["traces of generated concurrent programs"],
     "c24_cml.py", "generated concurrent programs, trace checking against the calculus",
     "Random communicating programs with varied time slices; histories are checked against rendezvous, commitment and FIFO rules.")

prop("C25", "ckit parses, types and prints C programs faithfully",
     "For every valid C program, parsing, elaboration and pretty printing yields a program with the same meaning, constant expressions and sizes are computed as C prescribes "
     "for the configured sizes, and invalid programs are reported, never crash the tool.",
     ["programs"], "all C translation units", "precedence, declarator and conversion rules combine without bound",
     ["ckit/src"], [("grammar and lexer", "ckit/src/parser"), ("elaboration to typed AST", "ckit/src/ast/build-ast.sml"), ("pretty printer", "ckit/src/ast/pp")],
     ["printed C programs compiled and run by the host C compiler"],
     "c25_ckit.py", "generated C programs, differential execution with the host compiler",
     "Random C programs are printed back by ckit and compiled and run by gcc; results must agree with the original.")

prop("C26", "Time and Date conversions are exact and mutually inverse",
     "Time arithmetic, comparison, rounding, text conversion and conversion to and from seconds, milliseconds, microseconds and nanoseconds are exact for times before and after the epoch. Dates normalise and convert "
     "to weekdays and year days as the proleptic Gregorian calendar prescribes, and to and from times in every offset and local time zone, with daylight saving time; formatting and scanning agree, and "
     "date-to-time-to-date is the identity.",
     ["inputs"], "all times, dates, offsets and format strings", "leap years, month ends, negative times and offsets are sampled rarely",
     ["base/system/Basis/Implementation/time.sml", "base/system/Basis/Implementation/date.sml", "base/runtime/c-libs/smlnj-date"],
     [("time representation", "base/system/Basis/Implementation/time.sml"), ("calendar conversion", "base/system/Basis/Implementation/date.sml")],
     ["Time, Date"], "c26_date.py", "table-driven differential testing against a calendar model",
     "Random instants and field combinations; oracle is Python integer arithmetic and proleptic Gregorian calendar.")

prop("C27", "OS.Path manipulates path names as the Basis specifies",
     "Splitting and joining of arcs, volumes, directories, bases and extensions are mutually inverse as specified; canonical paths denote the same file, are idempotent and minimal, and making a path relative to a base and "
     "absolute again restores the canonical path, for all strings.",
     ["inputs"], "all path strings", "dots, empty arcs, and repeated separators combine without bound",
     ["base/system/Basis/Implementation/OS"], [("path operations", "base/system/Basis/Implementation/OS/os-path-fn.sml, Unix/os-path.sml")],
     ["OS.Path, PathUtil"], "c27_path.py", "table-driven model-based testing", "Path grammar generator against an executable model of the Basis chapter.")

prop("C28", "Stream I/O delivers exactly the bytes, once, in order",
     "Reading by any mix of the input functions, with look-ahead, on imperative or functional streams, over any reader and buffer size, delivers exactly the source's "
     "content and the correct end-of-stream conditions; functional streams can be re-read from any saved point. Output through any mix of functions and buffering modes, positions and "
     "flushes reaches the file exactly once in order, also when the program ends, and scanning from a stream leaves the rest unread.",
     ["histories", "inputs"], "all operation histories, contents, chunkings and buffer modes",
     "buffer boundaries and end-of-stream handling depend on chunk sizes and mixes of operations",
     ["base/system/Basis/Implementation/IO"], [("text and binary I/O layers", "base/system/Basis/Implementation/IO/text-io-fn.sml, bin-io-fn.sml"),
                                            ("primitive I/O and Posix readers/writers", "base/system/Basis/Implementation/IO, base/system/Basis/Implementation/Unix")],
     ["TextIO, BinIO, StreamIO, PrimIO, IOUtil"], "c28_io.py", "stateful model-based testing over chunked readers, files and pipes",
     "Random operation sequences over custom readers with random chunking, real files and pipes, against a byte-level model.")

prop("C29", "Exported heap images resume with the complete program state",
     "A heap written by exportML or exportFn (and heaps built by the batch tools) and loaded again, in any later process and with any heap parameters, continues with exactly the data reachable "
     "at the export, including mutable state, shared and cyclic structure, big objects, code and the compiler environment, and receives the "
     "new command line. Plain data written with Unsafe.blastWrite and read with Unsafe.blastRead, in this or any other process, is an equal and independent copy with the same sharing and cycles.",
     ["histories", "configurations"], "all program states at export x load configurations, all plain data values", "relocation of big objects, code and tables depends on the heap's shape",
     ["base/runtime/gc/export-heap.c", "base/runtime/gc/import-heap.c", "base/runtime/gc/blast-out.c", "base/runtime/gc/blast-in.c", "base/system/Basis/Implementation/NJ"],
     [("heap export and import", "base/runtime/gc/export-heap.c, import-heap.c"), ("start-up and clean-up hooks", "base/system/Basis/Implementation/NJ/export.sml, cleanup.sml")],
     ["behaviour of reloaded images"], "c29_heap.py", "generated program states exported, reloaded and compared",
     "Random object graphs and histories are exported (possibly several generations of images) and their checksums compared after loading.")

prop("C30", "MLRISC graph and analysis algorithms compute their definitions",
     "The graph library's dominators, dominance frontiers, strongly connected components, loop nesting, shortest paths, spanning trees, flows, matchings, cliques, orders and closures "
     "return results satisfying their definitions for every graph, and graph views reflect updates of the underlying graph.",
     ["inputs", "histories"], "all graphs", "irreducible and disconnected graphs take rare paths",
     ["MLRISC/graphs", "MLRISC/library"], [("graph algorithms", "MLRISC/graphs")],
     ["MLRISC Graphs library"], "c30_graphs.py", "random graphs against reference algorithms", "Random graphs against independent reference computations.")

prop("C31", "File-system and descriptor operations do what the system calls they name do",
     "Every history of calls of Posix.FileSys, Posix.IO and OS.FileSys (directories, links, renaming, permissions, owners, times, status records, opening and creating files, "
     "descriptor duplication and flags, reading, writing and seeking with vectors, arrays and slices, locks, pipes, directory streams) has exactly the result, the error code "
     "and the effect on the file system and the descriptors that the same history of operating-system calls has, with file names and data of any length, from whatever source.",
     ["histories", "inputs"], "all operation histories in a directory tree, all names, modes, flags, times and data",
     "error paths, flag combinations, sizes and multi-call histories (a descriptor shared, truncated, renamed, then read) are sampled rarely",
     ["base/runtime/c-libs/posix-filesys", "base/runtime/c-libs/posix-io", "base/system/Basis/Implementation/Unix", "base/system/Basis/Implementation/Posix"],
     [("file system calls", "base/runtime/c-libs/posix-filesys, base/system/Basis/Implementation/Posix/posix-filesys.sml"),
      ("descriptor calls", "base/runtime/c-libs/posix-io, base/system/Basis/Implementation/Posix/posix-io.sml"),
      ("OS.FileSys", "base/system/Basis/Implementation/Unix/os-filesys.sml")],
     ["Posix.FileSys, Posix.IO, OS.FileSys"], "c31_os.py", "stateful differential testing of call histories against a twin that makes the same calls directly",
     "Random call histories run as an unprivileged user in a scratch directory, compared call by call and tree by tree with the same history executed by a twin.")

prop("C33", "Processes, environment, databases and error codes are reported faithfully",
     "A program sees exactly the arguments and environment it was started with; programs started by fork, exec, Unix and OS.Process get exactly the arguments, environment and "
     "descriptors given, and how they ended (exit status, signal, stop) is reported as it happened; a program's own end (exit, atExit, terminate, uncaught exception) gives the documented status; "
     "user, group, host and limit queries and the user and group databases answer what the system holds; error names, numbers and messages correspond; OS.IO.poll reports exactly the "
     "descriptors that are ready; signals are sent to exactly the named processes; record locks of other processes are reported.",
     ["inputs", "histories"], "all arguments, environments, exit statuses, signals, descriptor states and identities",
     "long argument lists, unusual statuses, several ready descriptors and foreign locks need particular surroundings",
     ["base/runtime/c-libs/posix-process", "base/runtime/c-libs/posix-procenv", "base/runtime/c-libs/posix-sysdb", "base/runtime/c-libs/posix-error", "base/runtime/c-libs/posix-os",
      "base/runtime/gc/ml-objects.c", "base/system/Basis/Implementation/Posix", "base/system/Basis/Implementation/Unix"],
     [("process calls", "base/runtime/c-libs/posix-process, base/system/Basis/Implementation/Posix/posix-process.sml"),
      ("environment and identity", "base/runtime/c-libs/posix-procenv, base/runtime/c-libs/smlnj-runtime/argv.c"),
      ("poll", "base/runtime/c-libs/posix-os/poll.c, base/system/Basis/Implementation/Unix/os-io.sml")],
     ["Posix.Process, Posix.ProcEnv, Posix.SysDB, Posix.Error, OS.Process, OS.IO, Unix, CommandLine"], "c33_proc.py",
     "generated process histories with an independent observer",
     "Generated surroundings (arguments, environments, children, identities, descriptor states, locks) with an outside observer in Python as oracle.")

prop("C32", "The interactive system prints values and types faithfully",
     "For every value of a printable type the interactive system prints the value's SML notation (with documented elision by depth and length) and a "
     "type that denotes the value's type, so that the printed form of base, list, tuple, record and datatype values re-enters as an equal value of the same type.",
     ["programs"], "all values of printable types x print controls", "datatype representations and infix constructors have many cases",
     ["base/compiler/TopLevel/print", "base/compiler/ElabData"], [("value printer", "base/compiler/TopLevel/print/ppobj.sml"), ("type printer", "base/compiler/TopLevel/print/pptype.sml")],
     ["top-level bindings echoed by the interactive system"], "c32_print.py", "generated values printed by the REPL, parsed back and compared",
     "Random datatypes and values; the printed text is read by an independent reader and by the system itself.")

prop("C34", "Sockets and network databases do exactly what was asked of the system",
     "For every history of socket operations (Unix-domain and Internet, stream and datagram; creation, pairs, bind, listen, accept, connect, shutdown, close, options, blocking and "
     "non-blocking sends and receives of vectors and array slices with out-of-band, peek and don't-route flags, select) each operation has exactly the effect and answer of the corresponding "
     "system calls: the bytes and only the bytes of the slice are sent, exactly the received bytes and nothing else of the buffer change, addresses and ports survive every conversion, "
     "would-block is reported as such and errors as OS.SysErr with the system's code. Blocking operations wait even after non-blocking ones. The host, service, protocol and network "
     "databases answer what the system's hold, and addresses convert from and to text faithfully.",
     ["inputs", "histories"], "all histories of socket operations over all socket kinds, payload sizes, flags, options and addresses; all database queries and address texts",
     "needs particular sequences on two ends, payload sizes, address lengths and flags; no test uses sockets",
     ["base/runtime/c-libs/smlnj-sockets", "base/system/Basis/Implementation/Sockets", "base/runtime/gc/ml-objects.c", "base/runtime/c-libs/posix-os/poll.c"],
     [("socket calls", "base/runtime/c-libs/smlnj-sockets, base/system/Basis/Implementation/Sockets/socket.sml"),
      ("addresses", "base/system/Basis/Implementation/Sockets/inet-sock.sml, unix-sock.sml, base/runtime/c-libs/smlnj-sockets/{to,from}-{inet,unix}addr.c"),
      ("databases", "base/system/Basis/Implementation/Sockets/*-db.sml, base/runtime/c-libs/smlnj-sockets/get*by*.c, util-mk*ent.c")],
     ["Socket, INetSock, UnixSock, GenericSock, NetHostDB, NetServDB, NetProtDB, NetDB"], "c34_sock.py",
     "generated histories performed by the program and by a twin on the same kernel",
     "Each generated history is performed by a Python twin on sockets of its own and by the SML program; every answer must agree.")

prop("C35", "Signals run their handlers exactly, and disturb nothing else",
     "For every history of installing, querying and overriding actions, masking and unmasking (nested), sending system signals or provoking the GC signal, alarms and interval timers: each "
     "signal that is not masked and has a handler runs that handler with the number of deliveries, and the interrupted computation continues with the continuation the handler answers; a masked signal "
     "waits until it is unmasked; ignored and default signals behave as the system's; actions inherited at start are kept. "
     "A computation interrupted anywhere, any number of times, by handlers that return, allocate, collect garbage, compute or switch to other suspended computations has the result it has undisturbed.",
     ["schedules", "histories"], "all histories of signal operations and all points at which a signal interrupts a computation", "needs signals at particular points and nested histories; no test sends a signal",
     ["base/runtime/mach-dep", "base/runtime/kernel/run-ml.c", "base/system/Basis/Implementation/NJ/internal-signals.sml", "base/runtime/c-libs/smlnj-signals", "base/runtime/c-libs/smlnj-runtime/setitimer.c"],
     [("delivery", "base/runtime/mach-dep/unix-signal.c, signal-util.c, AMD64.prim.asm"), ("dispatch, masks", "base/system/Basis/Implementation/NJ/internal-signals.sml"), ("resumption", "base/runtime/mach-dep/signal-util.c LoadResumeState, base/runtime/kernel/run-ml.c")],
     ["Signals, SMLofNJ.IntervalTimer, Posix.Process.{alarm,pause,sleep,kill}, SMLofNJ.Internals.GC.signalThreshold"], "c35_signals.py",
     "generated signal histories against a model; computations under timer interrupts against their undisturbed results",
     "Generated histories are judged by a model of actions, masks and pending signals; random computations run under timer signals at many intervals and handler kinds and must give their undisturbed results.")

prop("C36", "Terminals are set and queried exactly as asked",
     "On every terminal, Posix.TTY sets and gets exactly the modes, control characters and speeds asked for, by every action (now, drain, flush), and drains, flushes, suspends and resumes the queue asked for. Window-independent queries (isatty, ttyname, ctermid, "
     "foreground process group) answer what the system's do, and every failure raises OS.SysErr with the system's error. All exported constants have the values of the host.",
     ["inputs", "histories"], "all terminal attributes and all histories of operations on a terminal with both ends in use", "no test uses a terminal; each flag, character and speed has a path of its own",
     ["base/runtime/c-libs/posix-tty", "base/system/Basis/Implementation/Posix/posix-tty.sml", "base/runtime/c-libs/posix-procenv"],
     [("terminal calls", "base/runtime/c-libs/posix-tty"), ("attributes", "base/system/Basis/Implementation/Posix/posix-tty.sml")],
     ["Posix.TTY, Posix.ProcEnv.{isatty,ttyname,ctermid}, Posix.FileSys"], "c36_tty.py", "generated histories on pseudo terminals, against a twin terminal",
     "Each history is performed by the SML program on one pseudo terminal and by a Python twin on another; every answer and the bytes at both ends must agree.")

prop("C37", "ASDL pickles have the documented format in SML and C++",
     "The SML and the C++ pickler libraries write every boolean, integer, unsigned, big integer, string, identifier, tag, option and sequence in the format the ASDL manual documents, byte for byte. Reading a pickle "
     "in either language returns the value that was written in either, consumes exactly its bytes, and conversions of big integers to machine integers are exact or report failure.",
     ["inputs"], "all values of the primitive types, options and sequences", "encodings change length at value boundaries and big integers have arbitrarily many digits",
     ["asdl/src/lib/cpp", "asdl/src/lib/sml", "asdl/doc"],
     [("C++ library", "asdl/src/lib/cpp/asdl.cpp, asdl-integer.cpp, include/asdl/*.hpp"), ("SML library", "asdl/src/lib/sml")],
     ["asdl::write_*, asdl::read_*, asdl::integer, ASDLMemoryPickle, ASDLFilePickle"], "c37_asdl.py", "generated values, independent encoder and round trips in both languages",
     "Random values biased to encoding boundaries are written and read by both libraries and by an independent encoder; all must agree.")

NA_EXTRA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as h:
        for p in P:
            h.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["script"] and os.path.exists(os.path.join(V, "checks", p["script"])) and not p["na"]:
            c = "python3 checks/" + p["script"]
            checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                           "technique": "property-based testing: " + p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "property-based testing applies, but no check was built in the time available (DESIGN.md says how it would be decided); nothing is claimed"})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. All checks build /repo's working tree into /verif/.build/tree (lib/vbuild.py)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as h:
        json.dump(m, h, indent=1)
        h.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert 1 <= p["statement"].count(". ") + 1 <= 3, (p["id"], p["statement"].count(". "))


main()
