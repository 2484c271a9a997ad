def d(i, spec, oracle, why): D[i] = dict(spec=spec, oracle=oracle, why=why)
LOCK = "model and implementation step by step"
XPO = "reference parser, evaluator and tree (`rxp`, `rdom`); items compared one by one, nodes by identity, values by kind and text form; an error must be an error on both sides."
d("C01", "decoder and document parser as functions from any string: a finite token list then end of input for ever, or an error; no panic, hang or runaway.", "monitor only: token count at most in proportion to the input, end of input repeated, panic/time/memory/stack watchdog, and the document parser must reject what the decoder rejects.", "a hang sits at one position of one unfinished construct; all short strings over the markup alphabet reach every scanner state with every next character and with end of input; very long constructs also against an unoptimised build of the library, where a call in tail position keeps its frame.")
d("C02", "the token list as a function of a list of lexical pieces.", "each piece carries the token it denotes; the source is the concatenation, the expected stream the concatenation of tokens with neighbouring text merged (`props/sax.rs`), names judged by the W3C tables (`names.rs`).", "the scanner's state after one construct meets the first character of every other one, and every character is tried as a name character.")
d("C03", "the language of accepted documents: tags nest, constructs are terminated, tags are syntactically right.", "a stack automaton over pieces that also builds the tree; every cut of the last piece is judged by the same automaton.", "every nesting and every truncation point of every construct.")
d("C04", "serialise . parse is the identity on trees; parse . serialise reaches a fixed text.", "tree comparison with the model tree, and text equality at the second round.", "each kind of content next to each other kind with each troublesome string.")
d("C05", "the decoding function on text and attribute values, and its inverse on everything that can be stored.", "a one-pass reference decoder; round trip of all stored strings.", "double decoding and lost markers need particular neighbours; all short strings contain them.")
d("C06", "every navigation method as a function of (tree, node).", "`rdom` answers for each node, attributes included.", "agreement of all methods on all nodes of all small shapes, and large fans, chains and attribute lists (sizes around 8 to 300) where a size-dependent shortcut would change.")
d("C07", "the transition system whose states are forests of up to a few trees and whose actions are the seven operations with all operand choices.", LOCK + ": explicit-state search; after each history all views of all live trees are compared (in two of the three observation modes also in between, since observation fills caches).", "stale caches, cycles and double parents need an operation after an observation after an operation.")
d("C08", "the attribute list as an ordered map under set and delete.", LOCK + ", four views (list, by name, serialised, XPath axis).", "re-adding after deleting, look-alike names, many attributes.")
d("C09", "queries as observers of the transition system of C07; four retrieval methods; callbacks that change the tree while it is walked.", XPO, "order caches go stale by one particular change after one particular query; sizes around 8 to 65 cross thresholds of sorting shortcuts.")
d("C10", "axis step = function of (tree, node, axis, test) to an ordered set.", XPO, "all contexts, attributes included, x 12 axes x tests on all small trees; look-alike names.")
d("C11", "predicates, chains of predicates, position() and last().", XPO, "focus restoration shows only after an inner focus ended in the middle of an outer one: inner x outer expressions are crossed.")
d("C12", "paths, set operators, descent.", XPO, "duplicates and disorder appear for overlapping steps only; all two-step paths and all sequences of equal siblings are run.")
d("C13", "the grammar: acceptance, grouping, tokens.", "reference parser and evaluator; grouping is seen through values, acceptance through errors.", "every pair and triple of operators, every token next to every token, every code point, every string of comment, literal, number and path characters up to a length; every one-token edit of sixty expressions that use every construct (two tokens in the thorough tier).")
d("C14", "evaluation is total.", "monitor: panic, time, memory and stack watchdog on the real code, including turning the result into text.", "the unbounded rest of texts; all short token sequences, all functions with all tuples of awkward values, all one-character edits of a corpus; long flat texts and sequences of 100,000 items on an unoptimised build and a fixed stack.")
d("C15", "arithmetic on typed operands.", XPO + " Exact integer and decimal arithmetic in i128/rational form, IEEE for doubles.", "limits x types x operators is a product.")
d("C16", "value, general and node comparison.", XPO, "all pairs of operand kinds, special values, lengths and non-ASCII strings; long strings that differ in one place.")
d("C17", "logic, conditionals, quantifiers, bindings, simple map.", XPO, "every value under each boolean construct; shadowing and scope in all nestings; order of evaluation seen through errors.")
d("C18", "sequence functions.", XPO, "all lengths x all positions, also fractional, negative and huge; sequences of 7 to 300 items.")
d("C19", "string functions and node-name functions.", XPO, "multi-byte characters in every argument place, every code point for case mapping, boundary numbers for substring.")
d("C20", "aggregates and numeric functions.", XPO, "type and NaN depend on the whole mixture and its order.")
d("C21", "maps and arrays under every access path.", XPO, "all ways of access must agree for every key, including missing and mistyped ones.")
d("C22", "type tests, casts, function types.", XPO, "a relation over all pairs of values and types, all short strings as cast sources; arrays, maps and sequences of up to 300 members with one of another type at every place.")
d("C23", "function items: creation, capture, partial application, calling.", XPO, "capture shows when creation and call happen in different scopes; all combinations of function value, way of calling and arguments.")
d("C24", "evaluation as a pure function of (expression, node, document) under any history of evaluations.", "the same expression before, after, on a fresh document, in one expression with its neighbour, on two documents in turn, after many others; each result also against the reference evaluator where that is defined.", "interference needs two evaluations in a particular order, or look-alike expressions that a cache confuses.")
d("C25", "pretty printing as a function of the tree.", "a reference printer, and reading back.", "all shapes with every kind of leaf next to every other; deep and wide ones.")
d("C26", "the text form of results.", XPO + " The reference formatter computes shortest round-trip doubles independently.", "nesting x kinds x number limits.")
d("C27", "the partition of failing inputs by kind, and error propagation through every enclosing construct.", "refused by the reference reader or parser: the syntax kind; accepted and failing in the reference evaluator: dynamic or type, the one of the two where the failure has a name (`strict`); the enclosing expression's message equals the part's, and so do the three entry points'. The failing name(), local-name(), namespace-uri() and root() of no node are Dynamic (their tests pin it).", "error sites are reached by inputs nobody writes on purpose; a swallowed or relabelled error needs a failing part in one particular place.")
d("C28", "the program as a function from (arguments, file bytes) to (output, message, exit status).", "UTF-8 check, `refxml` for acceptance, the library's own pretty printer in the harness process (judged by C25) for the text.", "every truncation point and every damaged byte of a file; sizes on both sides of every buffer size.")
