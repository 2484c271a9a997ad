NOTE_COMMON = " Exhaustive within these bounds (stated in full in the evidence), no sampling; trusts the reference model and the Rust toolchain."

prop("C01", "Reading XML never crashes, hangs or loops on any input",
 "For every input string the token decoder reaches end of input after finitely many tokens (at most in proportion to the input's length), keeps reporting end of input after that, and neither it nor the document parser panics or fails to return. The document parser accepts no input on which the decoder reports an error.",
 ["inputs"], "all strings",
 "The tests parse a dozen well-formed documents; truncated and malformed inputs at every position are untested, and the question is about all strings.",
 ["src/sax.rs", "src/dom.rs"], [("token scanner", "src/sax.rs: SaxDecoder::raw_token, get_until*, get_name, get_chardata"), ("tree builder", "src/dom.rs: new_document")],
 note="All strings up to length 5 over 16 markup characters, after 8 prefixes up to 4 more, all sequences of up to 3 of 27 fragments, growing families; each run under a panic, hang and memory monitor." + NOTE_COMMON)

prop("C02", "The token stream is exactly what the source spells out",
 "For well-formed input the decoder yields, in source order, one token per start tag (name, attributes in order with decoded values), end tag (also for empty-element tags), comment, CDATA section, processing instruction, directive and run of character data, each with exactly its content. Neither quoting style, white space inside tags, nor neighbouring constructs change a token.",
 ["inputs"], "all well-formed sources",
 "One test drives the decoder over one document; how constructs follow each other, quoting and spacing variants, and name characters are sampled a few times at most.",
 ["src/sax.rs"], [("token scanner", "src/sax.rs: raw_token"), ("name characters", "src/sax.rs: is_name_char, is_letter, ...")],
 note="All sequences of up to 3 of 46 lexical pieces, all start tags of a grammar with up to 2 attributes, all letters of 12 Unicode ranges, sizes 0..40." + NOTE_COMMON)

prop("C03", "Exactly the properly nested, terminated documents are accepted",
 "A document whose tags do not nest, that ends inside an element or inside a markup construct, or that has a syntactically malformed tag is rejected with an error; every properly nested one is accepted and yields the tree its tags describe. Cutting a document anywhere inside an element or markup construct is always an error, never a shortened tree.",
 ["inputs"], "all tag sequences and all truncation points",
 "Tests check one mismatch; the verdict must be right for every nesting and every truncation point.",
 ["src/dom.rs", "src/sax.rs"], [("nesting check", "src/dom.rs: new_document"), ("construct terminators", "src/sax.rs: get_until, get_until_ch, get_until_matching_bracket")],
 note="All sequences of up to 6 of 8 pieces and up to 3 of 23 pieces (malformed ones included), each cut at every character of its last piece, against a stack model that also builds the tree." + NOTE_COMMON)

prop("C04", "Writing a tree and reading it back gives the same tree",
 "Serialising any parsed document and parsing the result yields a tree with the same nodes, names, values, attributes and order; serialising that again gives the same text. The written form does not depend on how the source spelled the document, and each element's own serialisation reads back as that subtree.",
 ["inputs"], "all documents",
 "The tests compare a few serialisations literally; whether every tree survives, with markup characters in every kind of content, is a statement about all documents.",
 ["src/dom.rs", "src/sax.rs"], [("serialiser", "src/dom.rs: to_string_with_indent, encode_entity"), ("reader", "src/sax.rs, src/dom.rs: new_document")],
 note="All trees of up to 4 nodes with troublesome content, forests of up to 5 nodes, all strings of up to 5 troublesome fragments in every content position, all sequences of 2 lexical pieces." + NOTE_COMMON)

prop("C05", "References decode exactly once, and escaping is their inverse",
 "The five named references and decimal and hexadecimal character references denote exactly their character, wherever they stand and whatever stands next to them, and text that decoding produces is never decoded again; malformed or out-of-range character references become the replacement mark and other ampersands stay. Any string stored as attribute value or text is written so that reading gives back that very string.",
 ["inputs"], "all strings in content and attribute values",
 "Tests decode a few references one at a time; adjacency, repeated decoding and the inverse law need all combinations.",
 ["src/sax.rs", "src/dom.rs"], [("decoder", "src/sax.rs: decode_entity"), ("encoder", "src/dom.rs: encode_entity")],
 note="All strings of up to 5 of 15 characters and up to 4 of 22 fragments; all strings of up to 4 of 13 characters stored and read back; code points by both radixes." + NOTE_COMMON)

prop("C06", "Navigation agrees with the tree's structure on every node",
 "On every node of every parsed document, kind, name, local name, prefix, namespace URI, value, parent, root, root element, children, first and n-th child, attributes, attribute values, document order and the text a node displays as agree with one and the same ordered tree. Indices past the end and absent names give nothing rather than a failure.",
 ["inputs"], "all documents and all their nodes",
 "Doctests check one node each; consistency between the methods on all nodes of all shapes is not tested.",
 ["src/dom.rs"], [("node structure", "src/dom.rs: Node, NodePtr methods")],
 note="All trees of up to 4 nodes over a rich palette (namespaces) and all forests of up to 6 nodes over a small one; every method on every node." + NOTE_COMMON)

prop("C07", "Any history of modifications leaves every tree consistent",
 "After any sequence of append_child, insert_as_previous_sibling, insert_as_next_sibling, replace_with, delete_child, set_attribute and delete_attribute on any nodes of any trees, every tree is the one those operations describe: appending moves a node, inserting and replacing copy it, deleting detaches it, and no operation produces a cycle or a node with two parents. Parent, child, root, document-order and serialised views agree on every tree afterwards, detached ones included, whatever was queried in between.",
 ["histories"], "all operation sequences, operand choices and points of observation",
 "Each doctest performs one operation once; interactions such as moving, self-insertion, modifying a detached subtree or stale cached order appear only in longer histories.",
 ["src/dom.rs"], [("modification methods", "src/dom.rs: append_child ... delete_attribute"), ("order cache", "src/dom.rs: document_order, clear_document_order")],
 technique="explicit-state enumeration of all operation histories, model and implementation in lock step",
 note="All histories of up to 2 operations (3 in a small world) over all operand choices from 5 worlds, in 3 observation modes; about 90 thousand distinct model states." + NOTE_COMMON)

prop("C08", "Attributes behave as an ordered map",
 "After any sequence of setting and deleting attributes of an element, the attribute list, the values returned by name, the serialised tag and the XPath attribute axis all show the same ordered map: setting an existing name changes its value in place, a new name goes last, deleting removes only that name. Other elements are unaffected.",
 ["histories"], "all sequences of attribute operations",
 "Tests set two attributes and delete one; order preservation and re-adding after deletion need sequences.",
 ["src/dom.rs"], [("attribute methods", "src/dom.rs: set_attribute, delete_attribute, attribute_value, find_attribute_index")],
 technique="explicit-state enumeration of all operation histories, model and implementation in lock step",
 note="All sequences of up to 4 of 9 operations from 4 documents, compared after every step." + NOTE_COMMON)

prop("C25", "Pretty printing shows the tree one node per line",
 "Pretty printing any node gives each element's start tag, each end tag and each other node its own line, indented by four spaces per level, with names, attributes and escaping as in plain serialisation. Reading the result of a tree without text and dropping white-space text gives the same tree.",
 ["inputs"], "all trees",
 "One doctest shows one tree.",
 ["src/dom.rs"], [("serialiser", "src/dom.rs: to_string_with_indent")],
 note="All forests of up to 4 nodes over 2 names, 2 attribute lists and 5 leaf kinds; every node printed." + NOTE_COMMON)

XPN = " Every result is compared item by item (nodes by identity) with a reference XPath evaluator written from the W3C grammar and function definitions, with its own parser; each error must be an error on both sides."

prop("C10", "Every axis and node test selects exactly the nodes it names, in order",
 "From every node of every tree, attributes included, an axis step returns exactly the nodes the axis and node test describe, each once, in document order. The twelve axes, name tests with prefixes and wildcards, kind tests and abbreviated steps are covered; following and preceding axes from an attribute are empty in this library.",
 ["inputs"], "all trees, context nodes, axes and node tests",
 "Tests evaluate each axis from one node of one document; context nodes at the edges, mixed content, attributes and reverse axes combine far more widely.",
 ["src/xpath_impl/eval.rs", "src/xpath_impl/parser.rs", "src/dom.rs"], [("axis evaluation", "src/xpath_impl/eval.rs: evaluate_xnode_axis, get_xnode_*"), ("node tests", "src/xpath_impl/eval.rs: match_node_test, match_kind_test"), ("document order", "src/xpath_impl/eval.rs: sort_by_doc_order")],
 note="All trees of up to 3 nodes over a rich palette x all nodes x 12 axes x 34 node tests, all one-name trees of 5 and 6 nodes, four larger documents with all two-step axis pairs." + XPN + NOTE_COMMON)

prop("C11", "Predicates filter by position along the axis, or by truth",
 "A numeric predicate keeps the item at that position, any other predicate keeps the items where it is true; on an axis step positions count away from the context node (backwards on reverse axes), on a parenthesised expression they count in sequence order. position() and last() refer to the innermost predicate or step, several predicates apply one after another, and the surrounding focus is intact afterwards.",
 ["inputs"], "all trees, axes, predicates and chains of predicates",
 "Tests try single predicates; chains, nesting, reverse axes and focus restoration interact only in combination.",
 ["src/xpath_impl/eval.rs"], [("predicates", "src/xpath_impl/eval.rs: filter_by_predicates, filter_by_predicate, EvalEnv::set_position/set_last")],
 note="All trees of up to 4 nodes x 12 axes x 3 tests x 38 predicates; all ordered pairs of predicates on larger documents, nested and on both steps of two-step paths; chains of three over atomic sequences." + XPN + NOTE_COMMON)

prop("C12", "Paths and node-set operators give ordered, duplicate-free node sets",
 "E1/E2 evaluates E2 once for each node of E1 and returns the union in document order without duplicates; // includes every descendant level; union, intersect and except compare nodes by identity and return document order. Atomic results keep evaluation order; mixing nodes and atoms, or a non-node left of a slash, is an error. This holds for any nesting of these operators.",
 ["inputs"], "all paths and operator combinations over all trees",
 "Duplicates and wrong order appear only when several context nodes reach overlapping nodes by particular axes; tests contain a few such paths.",
 ["src/xpath_impl/eval.rs", "src/xpath_impl/oper.rs"], [("path operator", "src/xpath_impl/eval.rs: OperatorPath, OperatorMap"), ("set operators", "src/xpath_impl/oper.rs: op_union, op_intersect, op_except"), ("ordering", "src/xpath_impl/eval.rs: sort_by_doc_order")],
 note="Four documents x all nodes x all two-step (and, in part, three-step) paths over 36 steps, every pair and chains of three of 20 node sets under the set operators, all trees of up to 4 nodes over 2 names." + XPN + NOTE_COMMON)

prop("C13", "Expressions group as the XPath grammar says, and only they are accepted",
 "Binary operators bind by the precedence and associativity of the XPath 3.1 grammar, unary and postfix operators, type operators, paths, arrows and control expressions in their places; white space and comments between tokens never matter where the grammar lets them be left out. Text that the grammar does not generate is an error and text it generates is not a syntax error.",
 ["inputs"], "all expressions",
 "Grouping is tested for some pairs of adjacent levels with one sample each; every pair and triple of operators is a different case, and so is each token following each other.",
 ["src/xpath_impl/parser.rs", "src/xpath_impl/lexer.rs"], [("grammar levels", "src/xpath_impl/parser.rs: parse_or_expr ... parse_postfix_expr"), ("tokens", "src/xpath_impl/lexer.rs: Lexer")],
 note="Every operand-operator chain of three operands over 33 operators with value-revealing operands, unary, postfix and type operators in every position, every token sequence over several alphabets, every one-token edit of sixty expressions, spacing and comments." + XPN + NOTE_COMMON)

prop("C15", "Arithmetic follows XPath's numeric types for all operands",
 "For every pair of operands and each of + - * div idiv mod and unary + -, the result has the promoted type and the mathematically right value, with IEEE behaviour for doubles (signed zero, infinities, NaN) and an error for integer or decimal division by zero, integer overflow and non-numeric operands; nodes are converted to double, empty operands give empty. It never wraps around or crashes.",
 ["inputs"], "all operand pairs and nestings",
 "Tests use small ordinary numbers; limits, type mixtures and special values form a product that only enumeration covers.",
 ["src/xpath_impl/oper.rs", "src/xpath_impl/xitem.rs"], [("operators", "src/xpath_impl/oper.rs: op_numeric_*, unary"), ("conversion", "src/xpath_impl/xitem.rs: get_as_raw_*")],
 note="All pairs of a list of limits, zeros, halves, infinities, NaN, nodes and non-numbers under each operator; nestings of two operators over a shorter list." + XPN + NOTE_COMMON)

prop("C16", "Comparisons give the value the operand types define, in both directions",
 "General comparisons hold exactly when some pair of items compares so; value comparisons take single items, give empty for an empty operand and an error otherwise; numbers compare numerically across types (NaN equals nothing), strings by code point, booleans false before true, nodes by content, and is, << and >> by identity and document order. Each operator agrees with its mirror image and its negation where XPath says so.",
 ["inputs"], "all operand pairs",
 "One or two examples per operator cannot settle all type pairs, special values and sequence lengths.",
 ["src/xpath_impl/oper.rs", "src/xpath_impl/xitem.rs"], [("value comparison", "src/xpath_impl/oper.rs: value_compare_*"), ("general comparison", "src/xpath_impl/oper.rs: general_compare_*"), ("node comparison", "src/xpath_impl/oper.rs: op_node_*")],
 note="All pairs of values and of sequences of up to two values under all 15 operators, all pairs of nodes under the node comparisons." + XPN + NOTE_COMMON)

prop("C17", "Truth values, conditionals, quantifiers and bindings mean what they say",
 "The effective boolean value decides if, and, or, not, boolean, quantifiers and predicates alike (errors included); and/or do not evaluate an operand that cannot matter. for binds items in order, let binds whole sequences, some and every quantify over all combinations, and a variable is visible exactly in its scope: inner bindings hide outer ones and the outer value returns afterwards.",
 ["inputs"], "all values under all constructs; all nestings of bindings",
 "Scope errors need shadowing, several clauses and use after the inner scope at once; the tests bind distinct names once.",
 ["src/xpath_impl/eval.rs", "src/xpath_impl/xsequence.rs"], [("bindings", "src/xpath_impl/eval.rs: ForExpr, LetExpr, SomeExpr, EveryExpr, EvalEnv::set_var/remove_var"), ("boolean value", "src/xpath_impl/xsequence.rs: effective_boolean_value")],
 note="All values under every boolean construct, all pairs (and triples) of values and errors under and/or/if, 16 nestings of bindings over all pairs of 11 sequences and 16 bodies." + XPN + NOTE_COMMON)

prop("C18", "Sequence functions return the right items in the right order",
 "For every sequence and argument, head, tail, reverse, count, empty, exists, insert-before, remove, subsequence, index-of, zero-or-one, one-or-more, exactly-one and data return exactly the items their definitions give, keeping order and duplicates. Positions outside the sequence, fractional, huge or negative positions never fail or crash; only the specified cases are errors.",
 ["inputs"], "all sequences and positions",
 "Tests call each function on one or two sequences; off-by-one errors at the ends and in rounding need all lengths and positions.",
 ["src/xpath_impl/func.rs"], [("functions", "src/xpath_impl/func.rs: fn_head ... fn_exactly_one"), ("index arithmetic", "src/xpath_impl/func.rs: subcollection_index_sub")],
 note="All sequences of up to 3 over 6 items x every function x 16 positions and 22 numbers, subsequence with all pairs of numbers, compositions." + XPN + NOTE_COMMON)

prop("C19", "String functions count, cut and compare by character",
 "For every string, including non-ASCII ones, the string functions work on characters, not bytes: lengths, positions, code points, case, translation, search and concatenation follow their definitions, substring rounds and clips any pair of numbers, and empty sequences, nodes and numbers are converted as specified. name, local-name, namespace-uri, lang, root and string report the tree's data for every node.",
 ["inputs"], "all strings and positions",
 "Multi-byte characters, empty strings and overlapping matches in each argument position are not sampled by the tests.",
 ["src/xpath_impl/func.rs"], [("string functions", "src/xpath_impl/func.rs: fn_substring, fn_translate, fn_contains, ..."), ("node functions", "src/xpath_impl/func.rs: fn_name, fn_local_name, fn_namespace_uri, fn_lang")],
 note="All strings of up to 4 of 4 characters (one non-BMP) under 22 functions, with all strings of up to 2 as second argument under 12 functions, all triples under translate, 20x20 number pairs under substring, code point borders." + XPN + NOTE_COMMON)

prop("C20", "Aggregates and numeric functions are right for every mixture of numbers",
 "sum, avg, max, min, count, abs, floor, ceiling, round and number give the value and type their definitions state for every sequence of numbers, nodes and other items: promotion over the whole sequence, NaN propagation, empty input, halves rounded upwards, strings and booleans where allowed, and an error where not.",
 ["inputs"], "all sequences of values",
 "The result type and NaN handling depend on the whole mixture and its order; tests use homogeneous short lists.",
 ["src/xpath_impl/func.rs", "src/xpath_impl/xitem.rs"], [("aggregates", "src/xpath_impl/func.rs: fn_sum, fn_avg, fn_max, fn_min"), ("numeric functions", "src/xpath_impl/func.rs: fn_abs, fn_ceiling, fn_floor, fn_round, fn_number")],
 note="19 numeric forms over some hundreds of values, 10 aggregate forms over all sequences of up to 2 of 20 items and all of 3 of 14, string and node sources." + XPN + NOTE_COMMON)

prop("C21", "Maps and arrays return exactly what was put in, by every way of access",
 "A map keeps its entries in order and yields, for a key that is the same value, exactly the sequence stored; a call, a postfix or unary lookup, map:get and map:contains agree. Array members are sequences addressed from 1 and keep their order and nesting. ?* and flatten list all values; key expressions see the outer focus; duplicate or non-atomic keys and wrong argument counts are errors.",
 ["inputs"], "all maps and arrays, keys and ways of access",
 "Tests access a few maps in one way each; agreement of all ways for every key, including missing and mistyped ones, needs the product.",
 ["src/xpath_impl/xitem.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/func.rs"], [("containers", "src/xpath_impl/xitem.rs: XSeqMap, XSeqArray"), ("lookup", "src/xpath_impl/eval.rs: UnaryLookupBy*, apply_argument, convert_xnode_to_map_array")],
 note="All maps of up to 2 entries over 19 keys and 7 values and of 3 over a shorter list x 20 whole-map forms and 9 keyed forms, all arrays of up to 3 members in both notations, chains of two accesses into nested structures." + XPN + NOTE_COMMON)

prop("C22", "Type tests and casts judge every value consistently with its type",
 "instance of holds exactly for the values that match the sequence type, for item, node, atomic, map, array and function types, occurrence marks included, with parameters of function types contravariant and results covariant. cast gives the converted value or an error, castable says which; lexical forms are those of the target type with surrounding white space ignored.",
 ["inputs"], "all values and types; all strings as cast sources",
 "The judgement is a relation over all pairs of values and types; tests sample it thinly.",
 ["src/xpath_impl/eval.rs", "src/xpath_impl/xitem.rs", "src/xpath_impl/func.rs"], [("matching", "src/xpath_impl/eval.rs: match_sequence_type, subtype, subtype_itemtype, derives_from"), ("casting", "src/xpath_impl/xitem.rs: cast_as, castable_as"), ("signatures", "src/xpath_impl/func.rs: FUNC_SIGNATURE_TBL")],
 note="61 values x 125 sequence types, x 14 cast targets and chains of two, all strings of up to 4 of 8 characters as cast sources, all pairs of 27 parameter types, built-in signatures." + XPN + NOTE_COMMON)

prop("C23", "Functions as values behave the same however they are called",
 "An inline function, named reference, partial application, map or array gives the same result whether called directly, through a variable, by arrow, or by for-each and filter; arguments are matched in order and number and to the declared types. A function sees the variables in scope where it was created, not those where it is called, and neither call nor creation disturbs the caller's variables.",
 ["inputs"], "all function values, ways of calling and scopes",
 "Capture, shadowing and restoration show only when creation and call happen in different scopes, which no test does.",
 ["src/xpath_impl/eval.rs", "src/xpath_impl/func.rs"], [("calls", "src/xpath_impl/eval.rs: apply_argument, call_function, call_inline_func, call_partial_func, call_named_func"), ("higher-order functions", "src/xpath_impl/func.rs: fn_for_each, fn_filter")],
 note="44 function values x 13 ways of calling x 15 arguments, 26 two-place functions x pairs of 10 arguments, 16 captures x 18 uses, compositions." + XPN + NOTE_COMMON)

prop("C26", "A result's text form shows each item's value and type form",
 "The text of a result lists its items in order, separated and bracketed as documented: strings quoted, numbers in the form of their type (decimals without exponent, doubles shortest and exact, INF, -INF, NaN), nodes serialised, maps and arrays with their members, recursively. Number text read back as an expression gives the same value, and string() and concat use the plain form.",
 ["inputs"], "all result values",
 "Tests compare simple results; nesting, number formatting at the limits and mixed sequences are open.",
 ["src/xpath_impl/xitem.rs", "src/xpath_impl/xsequence.rs"], [("formatting", "src/xpath_impl/xitem.rs: Display, number formatting"), ("sequences", "src/xpath_impl/xsequence.rs: to_string")],
 note="43 values under 16 wrappings, all pairs under 5 and triples under 2, some thousands of doubles and decimals." + XPN + NOTE_COMMON)

prop("C09", "A query returns the live nodes of the tree as it stands",
 "After any history of modifications, a query from any node of any tree, detached ones included, selects exactly the nodes of that tree as it stands, and returns those very nodes. get_nodeset gives them in document order without duplicates or other items, get_first_node the first, each_node visits each once (also when its callback changes the tree), eval_xpath keeps order and duplicates; if the expression fails, all of them say so and nothing is visited.",
 ["histories", "inputs"], "all modification histories, query points, expressions and callbacks",
 "Cached document order goes stale only by a particular change after a particular query; tests query a tree once after building it.",
 ["src/dom.rs", "src/xpath.rs", "src/xpath_impl/eval.rs"], [("retrieval methods", "src/xpath.rs: get_nodeset, get_first_node, each_node, eval_xpath"), ("document order", "src/dom.rs: document_order, clear_document_order; src/xpath_impl/eval.rs: sort_by_doc_order")],
 technique="explicit-state enumeration of all modification histories interleaved with queries, model and implementation in lock step",
 note="All histories of 1 operation from 5 worlds and of 2 from 3 of them, queried before, between and after; 44 expressions from every node of all trees of up to 4 nodes by 3 retrieval methods; 6 modifying callbacks over 8 expressions on all small trees of up to 5 nodes." + NOTE_COMMON)

prop("C14", "Evaluating any text as XPath returns a value or an error",
 "For every string, as expression, and every node, as context, evaluation returns a result or an error: it never panics, hangs, overflows the stack or exhausts memory, and neither does turning the result into text. This holds for every argument list of every function and every operand of every operator.",
 ["inputs"], "all strings as expressions, all context nodes",
 "Tests evaluate some hundred chosen expressions, nearly all of them valid; truncated, garbled and wrongly typed ones are the unbounded rest.",
 ["src/xpath_impl/lexer.rs", "src/xpath_impl/parser.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/func.rs", "src/xpath_impl/oper.rs"], [("lexer", "src/xpath_impl/lexer.rs: Lexer"), ("parser", "src/xpath_impl/parser.rs: compile_xpath"), ("evaluator", "src/xpath_impl/eval.rs: evaluate_xnode"), ("functions", "src/xpath_impl/func.rs: evaluate_function")],
 technique="bounded exhaustive enumeration of expressions, run on the real code under a panic, hang, stack and memory monitor",
 note="All sequences of up to 4 of 30 and 3 of 80 tokens, all strings of up to 4 of 26 characters, 68 functions x all tuples of 30 awkward values, 37 operators x all pairs, every one-character edit of 64 expressions, repeated constructs up to 200." + NOTE_COMMON)

prop("C24", "A query depends only on the expression, the node and the document",
 "Evaluating an expression never changes the document, an earlier result or the outcome of any other evaluation, whether it succeeds or fails. The same expression on the same node of equal documents gives the same result or error whatever was evaluated before, and inside a larger expression a part's value does not depend on its neighbours. A result stays valid after the document handle is given up.",
 ["histories", "inputs"], "all pairs of expressions and all orders of evaluation",
 "Tests evaluate each expression once on a fresh document; interference needs two evaluations, in a particular order.",
 ["src/xpath.rs", "src/xpath_impl/eval.rs", "src/dom.rs"], [("environment", "src/xpath_impl/eval.rs: EvalEnv, new_eval_env"), ("entry points", "src/xpath.rs: eval_xpath, get_nodeset"), ("order cache", "src/dom.rs: document_order")],
 technique="exhaustive enumeration of evaluation histories (ordered pairs of expressions) on the real code, compared across orders, documents and with the tree model",
 note="All ordered pairs of 87 expressions, failing ones included, at 2 nodes of 2 documents, before and after each other, on fresh documents and inside one expression." + NOTE_COMMON)

prop("C27", "A failure names its kind and reaches the caller unchanged",
 "Every error of the library is of a stated kind with a message of its own, and none says that the library is at fault: unacceptable XML is an XML syntax error, unacceptable expression text an XPath syntax error, and an accepted expression that fails does so with a dynamic or a type error (division by zero, overflow, undefined variables, duplicate keys: dynamic; operands and arguments of the wrong type or number of items: type). A failing part fails every expression that evaluates it with the part's own error, and eval_xpath, get_nodeset and each_node report the same error.",
 ["inputs"], "all sources, all expressions, all places of a failing part",
 "Tests look at the message of some forty failures; which of the hundreds of error sites an input reaches, and through what, is open.",
 ["src/xmlerror.rs", "src/sax.rs", "src/dom.rs", "src/xpath.rs", "src/xpath_impl/parser.rs", "src/xpath_impl/eval.rs", "src/xpath_impl/func.rs", "src/xpath_impl/oper.rs"], [("kinds", "src/xmlerror.rs: XmlErrorType, XmlError"), ("error sites", "src/xpath_impl: xpath_syntax_error!, dynamic_error!, type_error!, cant_occur!"), ("entry points", "src/xpath.rs: get_nodeset, each_node, eval_xpath")],
 note="All sources of up to 5 markup characters and 3 fragments, all sequences of up to 4 tokens, all functions over tuples and 36 operators over pairs of 30 awkward values, 36 failing expressions in 67 places and in pairs of places." + NOTE_COMMON)

prop("C28", "The sample program prints the file it is given, or fails and says so",
 "Given the name of a readable file with an acceptable UTF-8 document, the program amxml writes the pretty printed document and a newline to standard output, nothing else, and ends with 0, whatever the file's size and its name. For anything else (no argument, no such file, a directory, text that is not UTF-8, an unacceptable document, a file cut short) it writes nothing to standard output, a message to standard error, and ends with 1. It never changes the file.",
 ["inputs"], "all file contents and names, all truncations of a file",
 "The program has no test at all.",
 ["src/main.rs"], [("program", "src/main.rs: main, pretty_print")],
 technique="bounded exhaustive enumeration of files and of every truncation point (torn files), the program run as a process on each",
 note="All files of up to 3 fragments, all truncations of 3 documents, every byte replaced; sizes around powers of two." + NOTE_COMMON)
