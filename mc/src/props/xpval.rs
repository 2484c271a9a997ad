// Value properties: C13 grammar, C15 arithmetic, C16 comparisons, C17 logic and
// control, C18 sequences, C19 strings, C20 numeric functions and aggregates,
// C21 maps and arrays, C22 types, C23 functions as values, C26 result text.
use crate::gen::*;
use crate::props::corpus;
use crate::props::xp::*;
use crate::rdom::K;
use crate::sup::*;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        XP::new("C13", "every sequence operand-operator-operand-...-operand of up to the stated length over all binary operators, with operands chosen so that different groupings give \
            different values; unary, postfix, type and path operators in every position; the reference parser is a recursive descent over the grammar. Non-trivial: a value was produced.", &[], gen_c13),
        XP::new("C15", "every operator applied to every pair of a value list covering the three numeric types, their limits, infinities, NaN, both zeros, nodes, empty and plural sequences and \
            non-numbers; every nesting of two operators over a smaller list. Non-trivial: a value was produced.", &[], gen_c15),
        XP::new("C16", "every comparison operator applied to every pair of a value list, of sequences of up to two of its values, and of nodes. Non-trivial: a value was produced.", &[], gen_c16),
        XP::new("C17", "every value under every construct that takes an effective boolean value; every combination of and/or over values and errors; every binding expression over every pair of \
            sequences, with shadowing. Non-trivial: a value was produced.", &[], gen_c17),
        XP::new("C18", "every sequence up to the stated length over an item list x every sequence function x every position or search argument. Non-trivial: a value was produced.", &[], gen_c18),
        XP::new("C19", "every string up to the stated length over a small alphabet (with non-BMP and combining characters) in every argument position of every string function. Non-trivial: a value was produced.", &[], gen_c19),
        XP::new("C20", "every sequence up to the stated length over a list of numbers, nodes, strings and booleans x every aggregate; every value x every numeric function. Non-trivial: a value was produced.", &[], gen_c20),
        XP::new("C21", "every map and array up to the stated size over lists of keys and values x every access (call, lookup, unary lookup, functions) x every key. Non-trivial: a value was produced.", &[], gen_c21),
        XP::new("C22", "every value x every sequence type under instance of; every value x every target under cast and castable; every string up to the stated length as the source of every cast. \
            Non-trivial: a value was produced.", &[], gen_c22),
        XP::new("C23", "every function value (inline, named, partial, map, array) x every way of calling it x every argument list; scoping of captured and shadowed variables. Non-trivial: a value was produced.", &[], gen_c23),
        XP::new("C26", "every value of every type, alone, in sequences up to the stated length, and inside arrays and maps up to the stated depth; result text compared item by item and as a whole. \
            Non-trivial: a value was produced.", &[], gen_c26),
    ]
}

pub const XML: &str = "<r k=\"3\"><a k=\"1\">5</a><a k=\"2\">x</a><b> 7 </b><c/><d>1e1</d></r>";
fn par(v: &[&str]) -> Vec<String> { v.iter().map(|s| format!("({})", s)).collect() }
macro_rules! refs { ($v:expr) => { &$v.iter().map(|s| s.as_str()).collect::<Vec<&str>>()[..] } }

/// Every function of the list with every tuple of broad values, bare and in two foci.
fn funs(sink: &mut Sink, tier: Tier, list: &[(&str, &[usize])]) -> bool {
    let all = corpus::values(10_000);
    let all = refs!(all).to_vec();
    let two = corpus::values(tier.pick(150, 320));
    let two = refs!(two).to_vec();
    let three = corpus::values(tier.pick(44, 90));
    let three = refs!(three).to_vec();
    for (f, ar) in list {
        for k in ar.iter() {
            let f = [*f];
            let ok = match k {
                0 => crosses(sink, XML, "*", &["①()", "a/①()", "//node() ! ①()", "(1, 'a') ! ①()", "//@* ! ①()"], &[&f]),
                1 => crosses(sink, XML, "1", &["①(②)", "② ! ①(.)", "count(①(②))", "②[①(.)]", "for $x in ② return ①($x)"], &[&f, &all]),
                2 => cross(sink, XML, "1", "①(②, ③)", &[&f, &two, &two]),
                _ => cross(sink, XML, "1", "①(②, ③, ④)", &[&f, &three, &three, &three]),
            };
            if !ok { return false; }
        }
    }
    true
}
const SEQF: [(&str, &[usize]); 14] = [("count", &[1]), ("empty", &[1]), ("exists", &[1]), ("head", &[1]), ("tail", &[1]), ("insert-before", &[3]), ("remove", &[2]), ("reverse", &[1]), ("subsequence", &[2, 3]), ("index-of", &[2]),
    ("zero-or-one", &[1]), ("one-or-more", &[1]), ("exactly-one", &[1]), ("data", &[0, 1])];
const STRF: [(&str, &[usize]); 24] = [("string", &[0, 1]), ("string-length", &[0, 1]), ("normalize-space", &[0, 1]), ("upper-case", &[1]), ("lower-case", &[1]), ("string-to-codepoints", &[1]), ("codepoints-to-string", &[1]), ("compare", &[2]), ("codepoint-equal", &[2]),
    ("concat", &[2, 3]), ("string-join", &[1, 2]), ("substring", &[2, 3]), ("translate", &[3]), ("contains", &[2]), ("starts-with", &[2]), ("ends-with", &[2]), ("substring-before", &[2]), ("substring-after", &[2]),
    ("name", &[0, 1]), ("local-name", &[0, 1]), ("namespace-uri", &[0, 1]), ("root", &[0, 1]), ("lang", &[1, 2]), ("nilled", &[0, 1])];
const NUMF: [(&str, &[usize]); 9] = [("abs", &[1]), ("ceiling", &[1]), ("floor", &[1]), ("round", &[1]), ("number", &[0, 1]), ("sum", &[1, 2]), ("avg", &[1]), ("max", &[1]), ("min", &[1])];
const MAPF: [(&str, &[usize]); 7] = [("map:size", &[1]), ("map:keys", &[1]), ("map:contains", &[2]), ("map:get", &[2]), ("array:size", &[1]), ("array:get", &[2]), ("array:flatten", &[1])];
const BOOLF: [(&str, &[usize]); 4] = [("boolean", &[1]), ("not", &[1]), ("true", &[0]), ("false", &[0])];

// ------------------------------------------------------------------- C13
const BINOPS: [&str; 29] = ["or", "and", "=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge", "is", "<<", ">>", "||", "to", "+", "-", "*", "div", "idiv", "mod", "!", "/", "|", "except"];
const BINOPS2: [&str; 4] = ["union", "intersect", ",", "//"];
const BASES: &[&str] = &[
    "let $f := function ( $x as xs:integer , $y as item() * ) as xs:integer + { $x + 1 } return $f ( 1 , 2 )",
    "function ( ) { 1 } ( )", "function ( $x ) as item() * { $x } ( 3 )", "for $x in ( 1 , 2 ) , $y in a return ( $x , $y )", "let $x := 1 , $y := $x return $x + $y",
    "some $x in ( 1 , 2 ) , $y in a satisfies $x = 2", "every $x in a satisfies $x instance of node()", "if ( a ) then 1 else 2", "1 instance of xs:integer ?",
    "( 1 , 'a' ) instance of item() +", "'1' cast as xs:integer ?", "'1' castable as xs:double", "a treat as element() *", "a [ 1 ] / @ k", "// a [ last() ] [ @ k = '1' ]", "/ r / a", "/ descendant-or-self:: node() / a",
    "child:: a / following-sibling:: * [ 1 ]", "a / .. / b", ". / a", "self:: r / parent:: node()", "map { 'a' : 1 , 'b' : ( 2 , 3 ) } ? b", "[ 1 , [ 2 ] ] ? 2 ? 1", "array { 1 , 2 } ? *", "map { } instance of map ( * )",
    "map { 1 : 2 } instance of map ( xs:integer , item() * )", "[ 1 ] instance of array ( xs:integer )", "abs # 1 instance of function ( xs:double ) as item() ?", "abs # 1 instance of function ( * )", "1 instance of ( xs:integer )",
    "( ) instance of empty-sequence()", "a instance of element ( a )", "a instance of element ( a , xs:untyped ? )", "@ k instance of attribute ( * )", "a [ 1 ] instance of element ( * )", "processing-instruction ( 'p' )", "text() | comment() | @ *",
    "'a' => concat ( 'b' ) => string-length ( )", "-5 => $f ( )", "let $f := abs # 1 return -5 => $f ( )", "concat ( ? , 'b' ) ( 'a' )", "for-each ( ( 1 , 2 ) , function ( $x ) { $x * 2 } )", "a ! ( . , 1 ) ! string( )", "1 to 3 , 5",
    "- 1 + + 2 * 3 div 4 idiv 5 mod 6", "a is b or a << b and b >> a", "a union b intersect a except b", "1 eq 2", "1 != 2", "'a' || 'b' || 'c'", "( 1 , 2 , 3 ) [ . > 1 ] [ 1 ]", "p:a / * : a / p:*", "$x", "( )", "1.5 + .5 + 1e2 + 'x'",
    "map { 'f' : function ( $x ) { $x } } ? f ( 3 )", "( [ 1 ] , [ 2 ] ) ? ( 1 )", "map { 1 : 'x' } ? 1 || 'y'", "let $m := map { 'k' : 1 } return $m ( 'k' )", "( a , b ) / ( c | d ) / e", "a // b", "ancestor:: * [ 2 ] / attribute:: k",
];
const TOKS: &[&str] = &["as", "in", "return", "satisfies", "then", "else", "if", "for", "let", "some", "every", "function", "map", "array", "instance", "of", "cast", "castable", "treat", "to", "div", "idiv", "mod", "and", "or", "eq", "is", "union", "except", "intersect",
    "a", "foo", "p:a", "*", "p:*", "*:a", ".", "..", "@", "/", "//", "(", ")", "[", "]", "{", "}", ",", ";", ":", "::", ":=", "=", "!=", "<", "<<", ">", ">=", "!", "|", "||", "+", "-", "?", "#", "=>", "$", "$x", "1", "1.5", "'as'", "''", "child::", "item()", "node()", "text()", "element()", "xs:integer", "xs:nosuch", "empty-sequence()", "last()", "abs", "abs(", "\"", "'", "&", "%", "^", "~", "\\", "`", "(:", ":)", "(: :)", "é", "&amp;"];
fn gen_c13(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    let ops: Vec<String> = BINOPS.iter().chain(BINOPS2.iter()).map(|o| format!(" {} ", o)).collect();
    let ops: Vec<&str> = ops.iter().map(|s| s.as_str()).collect();
    let nums = ["2", "3", "7", "-1"];
    let mix = ["2", "-3", "1.5", "a", "'x'", "()", "true()", "(1, 2)"];
    let nodes = ["a", "b", "//a", ".", "@k", "3"];
    if !cross(sink, XML, "1", "①②③", &[&mix, &ops, &mix]) { return g; }
    if !cross(sink, XML, "1", "①②③④⑤", &[&nums, &ops, &nums, &ops, &nums]) { return g; }
    if !cross(sink, XML, "1", "①②③④⑤", &[&nodes, &ops, &nodes[..tier.pick(4, 6)], &ops, &nodes]) { return g; }
    if !cross(sink, XML, "1", "①②③④⑤", &[&mix, &ops, &mix[..tier.pick(3, 8)], &ops, &mix[..tier.pick(4, 8)]]) { return g; }
    g.notes.push(format!("all pairs of {} binary operators over number, node and mixed operands", ops.len()));
    // three operators
    let core: Vec<&str> = ops.iter().copied().filter(|o| ![" ne ", " le ", " ge ", " lt ", " >> ", " >= ", " union "].contains(o)).collect();
    if !cross(sink, XML, "1", "7①2②3③2", &[&core, &core, &core]) { return g; }
    if !cross(sink, XML, "1", "6①4②2③1", &[&core, &core, &core]) { return g; }
    if !cross(sink, XML, "1", "a①//a②b③.", &[&core, &core, &core]) { return g; }
    g.notes.push(format!("all triples of {} binary operators over three operand rows", core.len()));
    if tier == Tier::Thorough {
        if !cross(sink, XML, "1", "9①2②3③2④5", &[&core, &core, &core, &core]) { return g; }
        if !cross(sink, XML, "1", "1①8②2③4④3", &[&core, &core, &core, &core]) { return g; }
        g.notes.push("all quadruples over two operand rows".into());
    }
    // unary, postfix and type operators
    let un = ["", "-", "+", "--", "- +", "-+-"];
    let post = ["", "[1]", " instance of xs:integer", " cast as xs:string", " castable as xs:integer", " => string()", " ! (. + 1)", "[. = 2]", " instance of item()+", " cast as xs:double?", "?*", "(1)",
        " => concat('q')", " => sum()", "[1][1]", " castable as xs:boolean?", " instance of empty-sequence()", " treat as xs:integer", " treat as node()+ instance of item()"];
    if !cross(sink, XML, "1", "①2②③④3", &[&un, &post, &ops, &un]) { return g; }
    if !cross(sink, XML, "1", "①2②③④a⑤", &[&un[..3], &post, &ops, &un[..3], &post]) { return g; }
    if !cross(sink, XML, "1", "①(1, 2)②③", &[&un, &post, &post]) { return g; }
    if !cross(sink, XML, "1", "①a②③", &[&un, &post, &post]) { return g; }
    g.notes.push("unary signs, predicates, instance of, cast, castable, arrow, simple map and lookup next to every binary operator".into());
    // names that are also operators; white space; comments; abbreviations
    let words = ["div", "mod", "and", "or", "eq", "union", "to", "if", "for", "return", "is", "instance", "cast", "text", "node", "a-b", "a.b", "element", "map", "array", "function", "some", "then", "idiv", "in"];
    let x2 = "<r><div>1</div><mod>2</mod><and/><or/><eq/><union/><to/><if/><for/><return/><is/><instance/><cast/><text/><node/><a-b/><a.b/><element/><map/><array/><function/><some/><then/><idiv/><in/></r>";
    if !crosses(sink, x2, "1", &["①", "count(①)", "./①", "* / ①", "child::①", "self::node()/①", "@①", "①/..", "①[1]", "①|①", "(①)", "count(①) + 1", "//①", "$①", "let $① := 1 return $①", "① and ①", "1 + count(①)"], &[&words]) { return g; }
    if !crosses(sink, x2, "1", &["①/②", "① union ②", "① or ②", "① eq ②", "count(① | ②)", "①/../②", "(①, ②)", "//①[../②]", "① << ②"], &[&words, &words]) { return g; }
    g.notes.push(format!("{} reserved words as element names, alone and in pairs", words.len()));
    let kw = ["div", "mod", "idiv", "and", "or", "eq", "lt", "is", "union", "except", "to", "if", "then", "else", "for", "let", "some", "every", "in", "return", "satisfies", "instance", "of", "cast", "castable", "treat", "as", "text", "node", "comment", "processing-instruction",
        "document-node", "element", "attribute", "item", "empty-sequence", "map", "array", "function", "switch", "typeswitch", "namespace-node", "schema-element", "schema-attribute", "child", "self", "parent", "ancestor", "following-sibling", "namespace", "a", "position"];
    if !crosses(sink, XML, "1", &["let $① := abs#1 return $①(-1)", "map{'①': abs#1}?①(-1)", "(map{'①': abs#1}) ! ?①(-1)", "(map{'①': 5}) ! ?①", "for $① in (1, 2) return $① + 1", "function($①) {$①}(3)", "function($①) {$①(-1)}(abs#1)", "function($① as xs:integer) {$① * 2}(3)",
        "some $① in (1, 2) satisfies $① = 2", "every $① in (1, 2) satisfies $① (: :) = 2", "let $① := map{'a': 1} return $①?a", "let $① := (4, 5) return $①[2]", "let $① := 3 return $① instance of xs:integer", "let $① := -3 return $① cast as xs:string", "let $① := 3 return $① castable as xs:integer",
        "let $① := 3 return $① treat as xs:integer", "map{'①': map{'①': 2}}?①?①", "let $① := a return $①/..", "let $① := abs#1 return -5 => $①()", "let $① := a return $①::b", "let $① := 1 return $① {1}", "map{'①': 1}?①::a", "map{'①': 7}?① {1}", "let $① := 1 return map{'①': $①}?①",
        "let $① := 1, $b := $① return [$①, $b]", "for $① in 1, $b in ($①, 2) return $b", "$①", "?①", "$①(1)", "let $ ① := abs#1 return $ ① (-1)", "map{'①': abs#1} ? ① (-1)", "map{'①': abs#1}(:x:)?(:y:)①(:z:)(-1)", "let $①:=function($x) {$x}return$①($①(1))"], &[&kw]) { return g; }
    if !crosses(sink, XML, "1", &["let $① := 6 return $① ② $①", "map{'①': 6, '②': 3}?① div map{'②': 3}?②", "let $① := 6, $② := 3 return ($① - $②, $①[$②], $②)", "(map{'①': 6}?① ② 2)", "let $① := abs#1 return ($①(-1) ② $①(-2))"], &[&kw, &kw]) { return g; }
    g.notes.push(format!("{} reserved words as names of variables and as keys, in 33 places alone and 5 in pairs", kw.len()));
    let fnames: Vec<&str> = crate::props::xpmore::FNS.iter().map(|f| f.0).chain(["map:keys", "fn:abs", "xs:integer", "p:f", "fn:nosuch", "text", "if", "map", "Abs", "f-1"]).collect();
    if !crosses(sink, XML, "1", &["① => ②(③)", "if (0) then (① => ②(③)) else 9", "let $f := (① => ②(③)) return 9", "(a, b) ! (if (2) then 1 else . => ②(③))"], &[&["1", "'a'", "(1, 2)", "a", "map{1: 2}", "[3]"], &fnames, &["", "1", "'a'", "?", "1, 2", "?, 1", "1, ?", "?, ?", "1, 2, 3"]]) { return g; }
    if !crosses(sink, XML, "1", &["(① => ②(③))(④)", "let $f := (① => ②(③)) return ($f(④), $f(④))", "for-each(④, ① => ②(③))", "function($g) {$g(④)}(① => ②(③))", "a ! (string(.) => ②(③))(④)"], &[&["'abc'", "1", "('a', 'b')", "."], &["concat", "substring", "contains", "translate", "string-join", "insert-before", "abs", "for-each", "nosuch"], &["?", "1, ?", "?, 'z'", "?, ?"], &["'b'", "2", "1, 2", "abs#1", ""]]) { return g; }
    g.notes.push(format!("{} function names called by => with 9 argument lists (placeholders included), evaluated or not", fnames.len()));
    let sp = ["", " ", "\n", "(::)", "(: x (: y :) :)", "\t "];
    let forms = ["1①+②2", "a①/②b", "//①a", "@①k", "count①(②a①)", "a①[②1①]", "(①1②,①2②)", "child①::②a", "-①1", "if①(②a①)①then①1②else②2", "for①$x②in①a②return①$x", "'x'①||②'y'", "a①|②b", "1①to②2", "1①!②.",
        "1①=②1", "1①<②2", "a①<<②b", "let①$x②:=①1②return①$x", "a①instance②of①node()②*", "'1'①cast②as①xs:integer②?", "some①$x②in①1②satisfies①$x", "map①{②1①:②2①}", "[①1②,①2②]", "a①=>②string()", "$①x", "concat(①'a'②,①?②)", "1①div②2", "1①eq②1", "element(①a②)"];
    for f in forms.iter() { if !cross(sink, XML, "1", f, &[&sp, &sp]) { return g; } }
    g.notes.push(format!("{} forms with every pair of separators (none, spaces, nested comments) at every gap", forms.len()));
    // whole expressions, one token of them replaced, inserted, dropped or moved
    let mut edits = 0usize;
    for b in BASES {
        let t: Vec<&str> = b.split(' ').collect();
        let mut put = |v: &[&str], sink: &mut Sink| { edits += 1; sink(&[XML, "1", &v.join(" ")]) };
        if !put(&t, sink) { return g; }
        for i in 0..t.len() {
            let mut v = t.clone();
            v.remove(i);
            if !put(&v, sink) { return g; }
            for j in 0..t.len() {
                let mut v = t.clone();
                let x = v.remove(i);
                v.insert(j, x);
                if !put(&v, sink) { return g; }
                let mut v = t.clone();
                v[i] = t[j];
                if !put(&v, sink) { return g; }
            }
            let same = [format!("'{}'", t[i]), format!("{}x", t[i]), format!("${}", t[i]), format!("{}:b", t[i]), format!("{}()", t[i]), format!("x{}", t[i]), t[i].to_uppercase(), format!("({})", t[i]), format!("{{{}}}", t[i])];
            for w in TOKS.iter().copied().chain(same.iter().map(|s| s.as_str())) {
                let mut v = t.clone();
                v[i] = w;
                if !put(&v, sink) { return g; }
                let mut v = t.clone();
                v.insert(i, w);
                if !put(&v, sink) { return g; }
                if tier == Tier::Thorough {
                    for k in i + 1..t.len() { for y in TOKS {
                        let mut v = t.clone();
                        v[i] = w;
                        v[k] = y;
                        if !put(&v, sink) { return g; }
                    } }
                }
            }
        }
    }
    g.notes.push(format!("{} expressions of every construct, each token replaced by or preceded by each of {} tokens and of its own variants, dropped, moved and copied over every other{} ({} texts)", BASES.len(), TOKS.len(), tier.pick("", "; two tokens replaced at once"), edits));
    let lits = ["1", "1.", ".5", "0.5", "1e0", "1E0", "1e+1", "1e-1", ".5e1", "1.e2", "007", "9223372036854775807", "9223372036854775808", "0.1e1", "1.5.5", "1e", "1ee1", "'a'", "\"a\"", "'a''b'", "\"a\"\"b\"", "'\"'", "\"'\"", "''", "\"\"", "''''",
        "'a", "\"a", "'(: x :)'", "1 2", "1a", "1 a", "1div 2", "1 div2", "2mod 2", "3to 5", "0x1", "1_0", "+1", "-1", "- 1", "1-1", "1 -1", "1- 1", "1+-1", "1--1", "a-1", "a -1", "a - 1", "2*3", "2**3", "2* *", "***", "* * *", "*[*]", "*/*", "*|*", "//", "/", "/a", "/ a", "/*", "/ * 2", "(/) * 2", "a//", "a/", "/..", "//..", "...", "..", ". .", "./.", "a::b", "child::", "::a", "@", "@@k", "@k/a", "a[", "a]", "a[]", "a[[1]]", "()", "(,)", "(1,)", "(,1)", "((1))", "(((1), 2))", ")(", "1,2", ",", "$", "$x", "$ x", "fn:count(a)", "count(a, b)", "count()", "foo()", "foo:count(a)", "fn:foo(1)", "count", "count(", "count)", "if (1) then 2", "if (1) else 2", "if 1 then 2 else 3", "for $x in 1", "for $x return 1", "let $x = 1 return 1", "let $x := return 1", "some $x in 1", "1 = 1 = 1", "1 < 2 < 3", "1 eq 1 eq 1", "1 to 2 to 3", "a is a is a", "1 instance of", "1 instance of xs:integer instance of xs:boolean", "1 cast as", "1 castable", "- - 1", "not", "not()", "not(1)", "a:b:c", ":a", "a:", "a: b", "a :b", "p:*", "*:a", "*:*", "* :a", "*: a", "p: *", "p :*", "?", "??", "?a", "?1", "?*", "[1]?1", "[1]? 1", "[1]??1", "map{}", "map{1}", "map{1:}", "map{1:2", "map{1:2,}", "map{:2}", "array{1}", "array{", "[1", "[1,]", "[,1]", "[]", "{}", "{1}", "function(){1}", "function($x){$x}", "function($x,){$x}", "function(x){1}", "function($x)", "function($x){", "concat#2", "concat#", "concat#a", "#2", "=>", "1 =>", "1 => 2", "1 => string", "1 => string()", "=> string()", "1 ! 2 ! 3", "! 1", "1 !", "|| 1", "1 ||", "1 || || 2", "a | | b", "union a", "a union", "a except except b", "and", "and and and", "or or or", "div div div", "- div -", "1 div div 2", "return", "in", "\u{e9}", "\u{3b1}\u{3b2}", "a\u{b7}b", "a&b", "a%b", "a;b", "a~b", "a\\b", "`", "^", "a=b", "a==b", "a=!b", "a!==b", "a<>b", "a=>b", "a>=b", "a=<b", "(: :)", "(:", ":)", "(: (: :)", "1 (: c :)", "(: c :) 1", "a(: c :)b", "child(: c :)::a", ""];
    if !cross(sink, XML, "1", "①", &[&lits]) { return g; }
    if !cross(sink, XML, "1", "(①)", &[&lits]) { return g; }
    if !cross(sink, XML, "1", "count((①))", &[&lits]) { return g; }
    if !cross(sink, XML, "1", "*[①]", &[&lits]) { return g; }
    g.notes.push(format!("{} literals and malformed fragments, bare and embedded", lits.len()));
    // strings over the pieces of comments, of string literals and of numbers
    let strings = |pieces: &[&str], n: usize, tpl: &[&str], sink: &mut Sink| -> bool { let mut b = String::new(); seqs(pieces, 0, n, &mut |q| { b.clear(); for x in q { b.push_str(x); } tpl.iter().all(|t| sink(&[XML, "1", &t.replace("①", &b)])) }) };
    if !strings(&["(:", ":)", ":", "(", ")", " ", "x"], tier.pick(6, 7), &["1 ①", "(1 ① + 2)"], sink) { return g; }
    if !strings(&["(:", ":)", "(", ":", "x", "'", "\""], tier.pick(5, 7), &["1 (: ① :) + 2", "'①'"], sink) { return g; }
    if !strings(&["'", "\"", "x", "(:", "&", " "], tier.pick(6, 7), &["①", "('a', ①)"], sink) { return g; }
    if !strings(&["1", "0", ".", "e", "E", "+", "-"], tier.pick(6, 7), &["①"], sink) { return g; }
    if !strings(&["1", "0", ".", "e", "+", "-", " ", "*", "a"], tier.pick(5, 6), &["①", "(1 to 3)[①]"], sink) { return g; }
    if !strings(&["/", "a", "*", ".", "@", "k", "[", "]", "1", ":"], tier.pick(5, 6), &["①"], sink) { return g; }
    if !strings(&["/", "//", "a", "..", ".", "@", "k", "*", "|", "::", "[1]"], tier.pick(5, 6), &["①"], sink) { return g; }
    if !strings(&["}", "a", ":", " ", "1", "@", "(", "'b'", ",", "k"], tier.pick(5, 6), &["map{①", "map{①}?*", "a/①"], sink) { return g; }
    if !strings(&["p:", ":", "a", "*", "::", " ", "@", "child", "(", ")"], tier.pick(5, 6), &["①"], sink) { return g; }
    if !strings(&["<", ">", "=", "!", "|", "1", "a", " ", "?"], tier.pick(5, 6), &["①", "a ① b"], sink) { return g; }
    g.notes.push("all strings of up to 5 or 6 (thorough: one more) pieces of comments, string literals, numbers, paths and operators".into());
    let toks = ["1", "a", "'x'", "*", "/", "(", ")", "[", "]", ",", ".", "@", "$x", "+", "-", "=", "?", "!", "|", "=>", "eq", "to", "div", "if", "then", "else", "return", "for", "let", ":=", "in", "instance of", "xs:integer", "cast as", "text()", "map", "{", "}", ":", "count"];
    if !strings(&toks.iter().map(|t| format!(" {} ", t)).collect::<Vec<_>>().iter().map(|s| s.as_str()).collect::<Vec<_>>(), tier.pick(3, 4), &["①"], sink) { return g; }
    let t2: Vec<String> = toks[..22].iter().map(|t| format!(" {}", t)).collect();
    if !strings(&t2.iter().map(|s| s.as_str()).collect::<Vec<_>>(), tier.pick(4, 5), &["①"], sink) { return g; }
    g.notes.push(format!("all sequences of up to 3 of {} tokens and up to 4 of 22 (thorough: one more)", toks.len()));
    // numbers of every spelling, names of every kind
    let ip = ["", "0", "1", "12", "007", "9223372036854775807", "9223372036854775808", "99999999999999999999", "123456789012345678901234567890"];
    let fp = ["", ".", ".0", ".5", ".25", ".000", ".123456789012345678901234567890", "..", ".1.", ". 5"];
    let ep = ["", "e0", "E0", "e1", "e+1", "e-1", "E+01", "e-007", "e", "e+", "e--1", "e1.5", "e400", "e-400", "e 1", " e1", "f1", "e1e1", "e+-1", "_", "a", "é", "L", "(", "[1]", "?1", " div 2", "div 2", "to", "-1", "--1", "+ 1", "!.", "=1", "eq 1", " eq 1", ".1", "..1"];
    if !cross(sink, XML, "1", "①②③", &[&ip, &fp, &ep]) { return g; }
    if !cross(sink, XML, "1", "(-①②③)[1]", &[&ip[..6], &fp[..7], &ep]) { return g; }
    g.notes.push("numbers: 9 integer parts x 10 fractions x 38 exponents or followers".into());
    let q1 = ["'", "\"", "''", "\"\"", "'''", "\"\"\"", "''''", "\"\"\"\"", "'\"", "\"'", "x", "(:", ":)", "&quot;", "\n", " ", "\\", "é", "\u{1F600}", "\u{3000}"];
    if !cross(sink, XML, "1", "①②③", &[&q1, &q1, &q1]) { return g; }
    if !cross(sink, XML, "1", "①②③④", &[&q1[..10], &q1[..tier.pick(10, 20)], &q1, &q1[..10]]) { return g; }
    if !cross(sink, XML, "1", "concat('<', ①②③, '>')", &[&q1, &q1, &q1]) { return g; }
    g.notes.push("string literals: all runs of 3 and (over 10 pieces at the ends) 4 pieces of quotes of both kinds, comment marks, entities and characters".into());
    let nm = ["a", "a-", "a.", "_", "_a", "-a", ".a", "1a", "a1", "a--b", "a..b", "a-1", "a -1", "xs", "fn", "a\u{b7}", "\u{b7}a", "é", "a\u{300}", "\u{300}", "\u{10000}", "a\u{10000}", "\u{effff}", "\u{f0000}", "a\u{203f}", "\u{203f}", "x\u{2070}", "\u{2070}", "\u{d7}", "\u{f7}", "\u{37e}", "\u{2028}", "\u{feff}a", "div", "or-", "-or", "or.", "if", "eq1", "eqx", "a\u{ad}"];
    if !crosses(sink, XML, "1", &["①", "$①", "@①", "①/①", "①:①", "p:①", "①:p", "①()", "①#1", "child::①", "let $① := 1 return $①", "1 + ①", "①-1", "① - 1", "①+1", "①.1", "1 ①", "a[①]", "for $① in 1 return $①", "?①", "map{'k': 1}?①", "*:①", "①:*", "element(①)", "processing-instruction(①)", "① instance of ①", "1 instance of ①", "1 cast as ①", "function($①) {$①}(1)"], &[&nm]) { return g; }
    if !crosses(sink, XML, "1", &["① ②", "①②", "① eq ②", "①:②", "$①:②", "①/②", "①|②", "let $①:② := 1 return $①:②"], &[&nm, &nm]) { return g; }
    g.notes.push(format!("{} spellings of names (and of what is no name) in 29 places, all pairs in 8", nm.len()));
    // the parts of an expression in every size
    let ns = crate::names::sizes(tier.pick(40, 140), tier.pick(66000, 131100));
    for &n in &ns {
        let r = |s: &str| s.repeat(n);
        let all = [format!("'{}'", r("a")), format!("'{}z' = '{}'", r("a"), r("a")), format!("string-length('{}z')", r("\u{e9}")), format!("\"{}''{}\"", r("b"), r("c")), format!("string-length('{}')", r("''")), format!("'{}' || \"{}\"", r("'' "), r("\"\" ")),
            format!("1 (: {} :) + 2", r("a")), format!("1 (: {} :) + (: {}\u{e9} :) 2", r(":"), r("(")), format!("1 {} + {}2", r(" "), r("\n")), format!("{}1", r("0")), format!("1.{}1", r("0")), format!("1{}e0", r("0")), format!("1{}.5", r("0")), format!("0.{}1e{}2", r("0"), r("0")), format!(".{} > 0.3", r("3")), format!("{}", r("9")),
            format!("a{}", r("b")), format!("let $a{} := 1, $a{}b := 2 return $a{}", r("b"), r("b"), r("b")), format!("count(//a{}) + 1", r("-")), format!("f{}()", r("n")), format!("map{{'{}': 1}}?{}", r("k"), if n == 0 { "''".into() } else { r("k") }), format!("processing-instruction('{}')", r("p")), format!("1 instance of xs:{}", r("i")), format!("$v{}", r(".x"))];
        for e in all.iter() { if !sink(&[XML, "1", e]) { return g; } }
        if n > tier.pick(300, 1100) { continue; }
        let all = [format!("1{}", r(" + 1")), format!("1{}", r(" - 1 + 2")), format!("a{}", r("/..")), format!("a{}", r("/self::a")), format!("a{}", r("[1]")), format!("(1{})", r(", 2")), format!("count((1{}))", r(", a")), format!("concat('a', 'b'{})", r(", 'c'")), format!("'a'{}", r(" || 'b'")), format!("0{}", r(" or 0")), format!("1{}", r(" and 1")), format!("a{}", r(" | b")), format!("1{}", r(" ! (. + 1)")), format!("1{}", r(" => string()")),
            format!("[1{}]", r(", 2")), format!("array:size([1{}])", r(", (2, 3)")), format!("let $a := 1{} return $a", r(", $a := $a + 1")), format!("for $a in 1{} return $a", r(", $b in $a")), format!("some $a in 1{} satisfies $a", r(", $b in 2")), format!("1{} + 2", r(" (: c :)")), format!("map:size(map{{{}}})", (0..n).map(|i| format!("{}: {}", i, i)).collect::<Vec<_>>().join(", ")), format!("(map{{{}}})({})", (0..n).map(|i| format!("{}: {}", i, i)).collect::<Vec<_>>().join(", "), n / 2),
            format!("function({}) {{1}}", (0..n).map(|i| format!("$a{}", i)).collect::<Vec<_>>().join(", ")), format!("1{}", r(" * 1 - 0")), format!("1{}", r(" = 1")), format!("1 div 2{}", r(" div 2")), format!("-1{}", r(" - -1"))];
        for e in all.iter() { if !sink(&[XML, "1", e]) { return g; } }
        if n > 60 { continue; }
        let all = [format!("{}1{}", r("("), r(")")), format!("{}1", r("-")), format!("{}1", r("+ -")), format!("1{}2", r(" + -")), format!("{}1{}", r("["), r("]")), format!("{}(: x :){} 1", r("(:"), r(":)")), format!("1 {} x {}", r("(: ("), r(" :)")), format!("{}1{}", r("not("), r(")")), format!("{}1{}", r("if (1) then "), r(" else 2")), format!("a{}{}", r("[.."), r("]")), format!("{}1", r("1 + (2 * ")), format!("{}1", r("for $x in 1 return ")), format!("{}1{}", r("map{1: "), r("}")), format!("{}1{}", r("function() {"), r("}")), format!("{}1{}{}", r("(function() {"), r("})()"), "")];
        for e in all.iter() { if !sink(&[XML, "1", e]) { return g; } }
    }
    g.notes.push(format!("literals, comments, white space, numbers and names of {} sizes up to {} characters, chains of up to {} parts, nesting up to 60", ns.len(), ns.last().unwrap(), tier.pick(300, 1100)));
    // expressions that leave every grouping to the precedences
    let bare = ["①, ②", "① or ②", "① and ②", "① = ②", "① eq ②", "① is ②", "① || ②", "① to ②", "① + ②", "① - ②", "① * ②", "① div ②", "① | ②", "① intersect ②", "① instance of xs:integer", "① treat as item()*", "① castable as xs:integer", "① cast as xs:string", "① => string()", "-①", "① ! ②", "①/②", "①[②]", "if (①) then ② else ③", "for $x in ① return ②", "some $x in ① satisfies ②", "let $x := ① return ②", "(①)"];
    if !sink_trees(sink, &mut g, "without parentheses", XML, "1", &["①"], &["1", "a", "2.0"], &bare, 4, true) { return g; }
    if tier == Tier::Thorough && !sink_trees(sink, &mut g, "without parentheses", XML, "1", &["①"], &["2", "a"], &bare[..22], 5, true) { return g; }
    let ops: Vec<&str> = bare.iter().copied().filter(|b| ![", ", "treat", "for", "some", "let", "if", "(", " eq "].iter().any(|w| b.contains(w))).collect();
    if !sink_trees(sink, &mut g, "without parentheses", XML, "1", &["①"], &["3"], &ops, tier.pick(6, 7), true) { return g; }

    let step = tier.pick(31, 1);
    for c in std::iter::once('\0').chain(crate::names::code_points(step)) {
        for t in ["1①2", "1 ① + 2", "{}①", "①b", "(:①:)1", "'①'", "\"①\"", "1①", "①1", "1 ①", "a ①", "a①:b", "@①", "1 eq①1", "if①(1) then 2 else 3", "concat('①', \"①\")", "p①:a", "a [1]①", "a/①b", "processing-instruction(①)", "string-length('①')", "string-to-codepoints('①')", "'①' ① '①'", "1 (:①(:①:)①:)", "map{'①': 1}?①", ".①.", "/①/", "<①<", ":①:", "a①b①c"] { if !sink(&[XML, "1", &t.replace('①', &c.to_string())]) { return g; } }
        for t in ["①", "a①", "$①", "a①b + 1", "child::①", "'①' = '①'", "let $①a := 1 return $①a", "1①+①2", "①:a", "p:①", "p:a①"] { if !sink(&[XML, "1", &t.replace('①', &c.to_string())]) { return g; } }
    }
    g.notes.push(format!("every code point of the first plane (and every {}-th above) as name start, name character, in a literal and as separator", step));
    g
}

// ------------------------------------------------------------------- C15
pub const NUMS: [&str; 30] = ["0", "1", "-1", "2", "3", "-3", "7", "9223372036854775807", "(-9223372036854775807 - 1)", "4611686018427387904", "3037000500", "0.0", "0.5", "-0.5", "1.5", "2.0", "-2.5", "0.1",
    "0e0", "-0e0", "1e0", "2.5e0", "-3e0", "1e308", "-1e308", "1e-320", "1e19", "(1 div 0e0)", "(-1 div 0e0)", "(0e0 div 0e0)"];
pub const ODD: [&str; 14] = ["()", "(1, 2)", "'1'", "'x'", "''", "true()", "false()", "@k", "a[1]", "a[2]", "//a", "nosuch", "b", "d"];
const ARITH: [&str; 6] = ["+", "-", "*", "div", "idiv", "mod"];
fn gen_c15(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "arithmetic", XML, "1", &["①"], &["1", "0", "-3", "1.5", "2e0", "'4'", "()", "a[1]", "9223372036854775807"], &["-①", "+①", "① + ②", "① - ②", "① * ②", "① div ②", "① idiv ②", "① mod ②"], tier.pick(5, 6), false) { return g; }

    let vals: Vec<&str> = NUMS.iter().chain(ODD.iter()).copied().collect();
    if !cross(sink, XML, "1", "① ② ③", &[&vals, &ARITH, &vals]) { return g; }
    if !cross(sink, XML, "1", "①①②", &[&["-", "+"], &vals]) { return g; }
    if !cross(sink, XML, "1", "①②", &[&["-", "+", "- -", "-+"], &vals]) { return g; }
    if !cross(sink, XML, "1", "① to ②", &[&["0", "1", "-2", "5", "9223372036854775807", "9223372036854775806", "1.0", "1e0", "()", "(1,2)", "'1'", "@k", "a[2]", "true()", "(-9223372036854775807 - 1)"], &["0", "1", "-2", "5", "9223372036854775807", "9223372036854775806", "1.0", "1e0", "()", "(1,2)", "'1'", "@k", "a[2]", "true()", "(-9223372036854775807 - 1)"]]) { return g; }
    g.notes.push(format!("6 operators x all pairs of {} values; signs; ranges", vals.len()));
    let m = tier.pick(18, 30);
    let pick: Vec<&str> = NUMS.iter().step_by(if m == 30 { 1 } else { 2 }).chain(ODD.iter().take(tier.pick(3, 14))).copied().collect();
    if !cross(sink, XML, "1", "(① ② ③) ④ ⑤", &[&pick, &ARITH, &pick, &ARITH, &pick]) { return g; }
    if !cross(sink, XML, "1", "① ② (③ ④ ⑤)", &[&pick, &ARITH, &pick, &ARITH, &pick[..tier.pick(9, pick.len())]]) { return g; }
    g.notes.push(format!("all pairs of operators over triples of {} values, both groupings", pick.len()));
    let n = tier.pick(40, 120);
    let ints: Vec<String> = (-n..=n).map(|i: i32| if i < 0 { format!("({})", i) } else { i.to_string() }).collect();
    let ints = refs!(ints).to_vec();
    if !cross(sink, XML, "1", "① ② ③", &[&ints, &ARITH, &ints]) { return g; }
    g.notes.push(format!("all pairs of integers in -{}..={}", n, n));
    let q: Vec<String> = (-12..=12).flat_map(|i: i32| vec![format!("({:?})", i as f64 / 4.0), format!("({:?}e0)", i as f64 / 4.0)]).collect();
    let q = refs!(q).to_vec();
    if !cross(sink, XML, "1", "① ② ③", &[&q, &ARITH, &q]) { return g; }
    g.notes.push("all pairs of quarters in -3..=3, decimal and double".into());
    let wide = corpus::numbers();
    let wide = refs!(wide).to_vec();
    if !cross(sink, XML, "1", "① ② ③", &[&wide, &ARITH, &wide]) { return g; }
    if !crosses(sink, XML, "1", &["-①", "+①", "- -①", "0 - ①", "① - ①", "(① + 1) - 1", "1 div ①", "① mod 2", "① idiv 2", "① * ①"], &[&wide]) { return g; }
    let any = corpus::values(tier.pick(160, 400));
    let any = refs!(any).to_vec();
    if !cross(sink, XML, "1", "① ② ③", &[&any, &["+", "*", "idiv", "mod", "-", "div"], &any]) { return g; }
    let all = corpus::values(10_000);
    let all = refs!(all).to_vec();
    if !crosses(sink, XML, "1", &["-(①)", "+(①)", "(①) + 1", "1 - (①)", "① to 3", "1 to (① mod 50)", "count(1 to (①)[. < 300])"], &[&all]) { return g; }
    g.notes.push(format!("6 operators x all pairs of {} numbers (borders of 8 to 63 bits, fractions, magnitudes) and of {} values of every kind; signs and ranges over {} values", wide.len(), any.len(), all.len()));
    g
}

fn docs_up_to(n: usize, pal: &Pal, out: &mut Vec<String>) { docs(n, pal, |d| { out.push(d.xml(0)); true }); }

// ------------------------------------------------------------------- C16
const VALS: [&str; 24] = ["0", "1", "2", "-1", "1.0", "0.5", "1e0", "0e0", "-0e0", "(0e0 div 0e0)", "(1 div 0e0)", "9223372036854775807", "'1'", "'a'", "'ab'", "'b'", "''", "'\u{e9}'", "'\u{1d49c}'", "'\u{ff21}'", "true()", "false()", "@k", "a[1]"];
const GEN: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];
const VAL: [&str; 6] = ["eq", "ne", "lt", "le", "gt", "ge"];
fn gen_c16(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "comparisons", XML, "1", &["①"], &["1", "'1'", "1.5", "(1, 2)", "()", "a", "true()", "a[1]", "0e0"], &["not(①)", "string(①)", "(①, ②)", "① = ②", "① != ②", "① < ②", "① >= ②", "① eq ②", "① lt ②", "① is ②", "① << ②"], tier.pick(5, 5), false) { return g; }

    let extra = ["()", "(1, 2)", "//a", "nosuch", "map{}", "[]", "true#0", "a[2]", "b", "r", "9223372036854775806", "1e308", "0.1", "'A'", "' '", "(1 div -1 * 0e0)"];
    let v: Vec<&str> = VALS.iter().chain(extra.iter()).copied().collect();
    if !cross(sink, XML, "1", "① ② ③", &[&v, &GEN, &v]) { return g; }
    if !cross(sink, XML, "1", "① ② ③", &[&v, &VAL, &v]) { return g; }
    g.notes.push(format!("12 operators x all pairs of {} values", v.len()));
    let m = tier.pick(12, 24);
    let s: Vec<&str> = VALS.iter().step_by(if m == 24 { 1 } else { 2 }).copied().collect();
    if !cross(sink, XML, "1", "(①, ②) ③ ④", &[&s, &s, &GEN, &v]) { return g; }
    if !cross(sink, XML, "1", "④ ③ (①, ②)", &[&s, &s, &GEN, &v]) { return g; }
    let s: Vec<&str> = s.iter().step_by(tier.pick(1, 2)).copied().collect();
    if !cross(sink, XML, "1", "(①, ②) ③ (④, ⑤)", &[&s, &s, &GEN, &s, &s]) { return g; }
    g.notes.push(format!("6 general comparisons x all pairs of sequences of up to 2 of {} values", s.len()));
    let n = ["a[1]", "a[2]", "b", ".", "..", "@k", "a[1]/@k", "a[2]/@k", "a[1]/text()", "/", "()", "//a", "1", "'x'", "nosuch", "a[2]/.."];
    for x in [XML, "<r k=\"3\" l=\"4\"><a k=\"1\"><b/></a><b><a k=\"2\"/></b><!--c--><?p i?></r>"] {
        if !cross(sink, x, "*", "① ② ③", &[&n, &["is", "<<", ">>"], &n]) { return g; }
        if !cross(sink, x, "1", "//node()[. ① $y] ! 1", &[&["is"]]) { return g; }
        if !crosses(sink, x, "1", &["for $x in (//node(), //@*), $y in (//node(), //@*) return $x ① $y"], &[&["is", "<<", ">>", "=", "!=", "<", "eq", "ge"]]) { return g; }
    }
    // every pair of nodes of many documents: attributes in every order, trees of every shape
    let mut docs: Vec<String> = vec![];
    let an = ["z=\"1\"", "b=\"2\"", "p:a=\"0\"", "K=\"1\"", "k=\"\""];
    seqs(&an, 0, 4, &mut |q| { let mut u: Vec<&str> = q.to_vec(); u.sort(); u.dedup(); if u.len() == q.len() { docs.push(format!("<r{}{}><a {}/></r>", if q.is_empty() { "" } else { " " }, q.join(" "), q.iter().rev().copied().collect::<Vec<_>>().join(" ")).replace(" />", "/>")); } true });
    let pal = Pal { names: vec!["a", "b"], attrs: vec![vec![], vec![("n", "1"), ("k", "1")]], leaves: vec![(K::Text, "", "t"), (K::Comment, "", "c")] };
    docs_up_to(tier.pick(4, 5), &pal, &mut docs);
    docs.extend(crate::props::xpnode::BIG.iter().map(|s| s.to_string()));
    for x in docs.iter() {
        if !crosses(sink, x, "1", &["for $x in (//node(), //@*, /), $y in (//node(), //@*, /) return $x ① $y", "for $x in (//@*, //node()) return count((//node(), //@*, /)[. ① $x])"], &[&["is", "<<", ">>"]]) { return g; }
        if !crosses(sink, x, "1", &["for $x in (//@*), $y in (//node(), //@*) return ($x ① $y, $y ① $x)"], &[&["<<", "=", "eq"]]) { return g; }
    }
    g.notes.push(format!("all pairs of nodes of {} documents (up to 4 of 5 attributes in every order, every tree of up to {} nodes) under is, << and >>", docs.len(), tier.pick(4, 5)));
    let st = ["", "a", "b", "A", "\u{e9}", "\u{1d49c}", "\u{ff21}"];
    let mut strs = vec![];
    seqs(&st[1..], 0, 2, &mut |q| { strs.push(format!("'{}'", q.concat())); true });
    let strs = refs!(strs).to_vec();
    if !cross(sink, XML, "1", "① ② ③", &[&strs, &["=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge"], &strs]) { return g; }
    g.notes.push("node comparisons over all pairs of nodes of two documents; all pairs of strings of up to 2 of 6 characters".into());
    // an array stands for the items of its members
    let ars = ["[]", "[1]", "['a']", "[1, 2]", "[(1, 2), 3]", "[[1], 2]", "[[[]]]", "[()]", "[a]", "[a[1], @k]", "array{a}", "[true()]", "[1.5, 'x']", "([1], [2])", "([1], 5)", "(5, [])", "array{1 to 40}", "[[[[1]]]]", "1", "'a'", "(1, 2)", "()", "a", "a[1]", "true()", "1.5"];
    if !cross(sink, XML, "1", "① ② ③", &[&ars, &["=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge"], &ars]) { return g; }
    g.notes.push(format!("12 operators x all pairs of {} operands, mostly arrays and sequences of arrays", ars.len()));
    // max and min of an i64/f64 border
    let big = ["9007199254740992", "9007199254740993", "9007199254740992.0", "9007199254740993.0", "9007199254740992e0", "9223372036854775807", "9223372036854775806", "9223372036854775807e0", "-9223372036854775807", "1e19", "-1e19"];
    if !cross(sink, XML, "1", "① ② ③", &[&big, &["=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge"], &big]) { return g; }
    let (ws, wn) = (corpus::strings(), corpus::numbers());
    let (ws, wn) = (refs!(ws).to_vec(), refs!(wn).to_vec());
    let ops = ["=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge"];
    let few = ["=", "!=", "<", ">=", "eq", "lt", "ge"];
    let wo = tier.pick(&few[..], &ops[..]);
    if !cross(sink, XML, "1", "① ② ③", &[&ws, wo, &ws]) { return g; }
    if !cross(sink, XML, "1", "① ② ③", &[&wn, wo, &wn]) { return g; }
    let any = corpus::values(tier.pick(140, 400));
    let any = refs!(any).to_vec();
    if !cross(sink, XML, "1", "① ② ③", &[&any, &ops, &any]) { return g; }
    if !crosses(sink, XML, "1", &["① is ②", "① << ②", "① >> ②"], &[&any, &any]) { return g; }
    g.notes.push(format!("{} operators x all pairs of {} strings and of {} numbers; 15 operators x all pairs of {} values of every kind", wo.len(), ws.len(), wn.len(), any.len()));
    let ls = ["(1 to 9)", "(1 to 40)", "(40, 1 to 33)", "((1 to 70) ! (. + 0.5))", "((1 to 33) ! string(.))", "((1 to 12) ! 'b')", "(70 to 140)", "((1 to 20) ! (0e0 div 0e0))", "((1 to 20) ! true())", "(1 to 17, 'a')", "//node()", "//@*", "('x', 1 to 20)"];
    let lv = ["1", "9", "33", "40", "70", "140", "0", "0.5", "33.5", "70.5", "'1'", "'33'", "'a'", "'b'", "'5'", "true()", "false()", "()", "(0e0 div 0e0)", "(200, 40)", "(200, 201)"];
    if !cross(sink, XML, "1", "① ② ③", &[&ls, &ops, &lv]) { return g; }
    if !cross(sink, XML, "1", "③ ② ①", &[&ls, &ops, &lv]) { return g; }
    if !cross(sink, XML, "1", "① ② ③", &[&ls, &ops, &ls]) { return g; }
    g.notes.push("sequences of up to 140 items against single values and each other".into());
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["① = ②", "① != ②", "① < ②", "② >= ①"], &[&ol, &["5", "'a'", "0", "999", "number('x')", "true()", "a", "()", "(0, 256)"]]) { return g; }
    g.notes.push(format!("general comparisons of {} sequences of 8..=257 items with an odd one at each of 4 places", ol.len()));
    let near = crate::names::near_pairs(tier.pick(16, 48), tier.pick(1025, 4097));
    for (x, y) in near.iter() {
        for o in tier.pick(&["=", "!=", "<", ">=", "eq", "lt", "ge"][..], &ops[..]) { for e in [format!("'{}' {} '{}'", x, o, y), format!("('a', '{}') {} ('{}', 'zz')[1]", y, o, x)] { if !sink(&[XML, "1", &e]) { return g; } } }
        if !sink(&[&format!("<r><a>{0}</a><b>{1}</b><a k=\"{1}\"/></r>", x, y), "1", "(a = b, a[1] eq b, a/@k = b, a != b, a < b, b le a[1], a = @k, b = a/@k, string(a[1]) lt string(b), a = concat(substring(b, 1, 1), substring(b, 2)))"]) { return g; }
    }
    g.notes.push(format!("comparisons of {} pairs of different strings a weakened comparison may take for one another, as literals and as node contents", near.len()));
    g
}

// ------------------------------------------------------------------- C17
const BOOLISH: [&str; 26] = ["()", "0", "1", "-1", "0.0", "0.5", "0e0", "-0e0", "1e0", "(0e0 div 0e0)", "(1 div 0e0)", "''", "'x'", "'0'", "'false'", "true()", "false()", "a", "nosuch", "(a, 1)", "(1, a)", "(1, 2)", "('', '')", "map{}", "[]", "1 div 0"];
fn gen_c17(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "bindings, conditions, quantifiers", XML, "1", &["①", "let $x := (1, 'a'), $y := () return ①"], &["$x", "$y", "1", "()", "a", "0"], &["not(①)", "count(①)", "(①, ②)", "① and ②", "① or ②", "let $x := ① return ②", "let $y := ① return ②", "for $x in ① return ②", "for $y in ① return ②", "some $x in ① satisfies ②", "every $y in ① satisfies ②", "①[②]", "if (①) then ② else ③"], tier.pick(5, 6), false) { return g; }

    let near = crate::names::near_pairs(tier.pick(12, 40), tier.pick(257, 1025));
    for (x, y) in near.iter() {
        if !crosses(sink, XML, "1", &["let $① := 1, $② := 2 return ($①, $②)", "let $① := 1 return $②", "for $① in (1, 2), $② in (3, 4) return ($①, $②)", "let $② := 1 return (let $① := 2 return $②, $②)", "some $① in (1, 2), $② in (3, 4) satisfies $① = $②",
            "function($①, $②) {($①, $②)}(1, 2)", "let $② := 5, $f := function($①) {($①, $②)} return $f(1)", "let $① := 1 return (let $② := 2 return $①, for $① in (7, 8) return $①)"], &[&[x], &[y]]) { return g; }
    }
    g.notes.push(format!("{} pairs of variable names that differ in one place, in order, in case or in length", near.len()));
    // a node is true whatever its content
    for v in ["false", "true", "0", "1", "NaN", "no", "x", "-0", "0.0", "()", "FALSE", "0e0"] {
        let x = format!("<r k=\"{0}\" l=\"\"><a>{0}</a><b k=\"{0}\"/><c/><!--{0}--><?p {0}?></r>", v);
        if !crosses(sink, &x, "1", &["if (①) then 1 else 2", "boolean(①)", "not(①)", "① and true()", "false() or ①", "some $x in (①) satisfies $x", "every $x in (①) satisfies $x", "some $x in 1 satisfies ①", "(1, 2)[$r/①]", "//*[①]", "string(①) and true()", "① = true()", "boolean((①, 1))", "boolean((1, ①))", "boolean(string(①))", "boolean(data(①))", "count((1, 2)[boolean(/r/①)])", "if (① = '') then 1 else 2", "① ! boolean(.)", "① ! (if (.) then 1 else 2)", "not(not(①))", "if (zero-or-one(①)) then 1 else 2"],
            &[&["@k", "@l", "a", "b", "c", "a/text()", "comment()", "processing-instruction()", "b/@k", ".", "/", "a/@k", "@*", "*", "node()", "(@l, @k)", "(c, a)"]]) { return g; }
    }
    g.notes.push("the truth of nodes of every kind with 12 contents that look false or true".into());

    let b = par(&BOOLISH);
    let b = refs!(b).to_vec();
    let forms = ["if (①) then 1 else 2", "boolean(①)", "not(①)", "① and true()", "① or false()", "true() and ①", "false() or ①", "some $x in (1) satisfies ①", "every $x in (1) satisfies ①", "a[①]", "(1, 2)[①]", "some $x in ① satisfies $x", "every $x in ① satisfies $x",
        "if (①) then 1 else 1 div 0", "if (①) then 1 div 0 else 2", "some $x in ① satisfies true()", "every $x in ① satisfies false()", "for $x in ① return 1", "let $x := ① return count($x)", "count(for $x in ① return ($x, $x))", "not(not(①))"];
    if !crosses(sink, XML, "1", &forms, &[&b]) { return g; }
    let two = ["① and ②", "① or ②", "if (①) then ② else 9", "if (①) then 9 else ②", "some $x in ①, $y in ② satisfies $x", "every $x in ①, $y in ② satisfies $y", "some $x in (①, ②) satisfies $x", "every $x in (①, ②) satisfies $x", "for $x in ①, $y in ② return 1", "not(① and ②)", "let $x := ①, $y := ② return $x or $y",
        "some $x in ① satisfies ②", "every $x in ① satisfies ②", "for $x in ① return ②", "let $x := ① return ②", "① and not(②)"];
    if !crosses(sink, XML, "1", &two, &[&b, &b]) { return g; }
    let c = &b[..tier.pick(26, 26)];
    if !crosses(sink, XML, "1", &["① and ② and ③", "① or ② or ③", "① and ② or ③", "① or ② and ③", "(① or ②) and ③", "if (①) then ② else ③", "some $x in (①, ②, ③) satisfies $x", "every $x in (①, ②, ③) satisfies $x", "if (① and ②) then ③ else 'n'"], &[c, c, c]) { return g; }
    g.notes.push(format!("{} values (errors included) under {} one-place, {} two-place and 9 three-place constructs", BOOLISH.len(), forms.len(), two.len()));
    let all = corpus::values(10_000);
    let all = refs!(all).to_vec();
    if !crosses(sink, XML, "1", &forms, &[&all]) { return g; }
    if !funs(sink, tier, &BOOLF) { return g; }
    let m = corpus::values(tier.pick(110, 250));
    let m = refs!(m).to_vec();
    if !crosses(sink, XML, "1", &two, &[&m, &m[..]]) { return g; }
    g.notes.push(format!("{} values of every kind under the one-place constructs, all pairs of {} under the two-place ones", all.len(), m.len()));
    // binding and scope
    let s = ["()", "1", "(1, 2)", "(3, 4, 5)", "a", "//a", "('x', true())", "(1 to 4)", "$x", "($x, 9)", "$y"];
    let bodies = ["$x", "$y", "($x, $y)", "count($x)", "$x + $y", "$y[1]", "for $x in $y return $x", "let $y := 7 return ($x, $y)", "(let $x := 8 return $x), $x", "position()", "last()", ".", "$x[. = 2]", "$z", "some $z in $y satisfies $z = $x", "if ($x = 1) then $y else ()"];
    let heads = ["for $x in ①, $y in ② return ③", "for $x in ① return for $y in ② return ③", "let $x := ①, $y := ② return ③", "let $x := ① return let $y := ② return ③", "for $x in ① return let $y := ② return ③", "let $x := ① return for $y in ② return ③", "for $y in ①, $x in ② return ③", "let $x := ①, $x := ②, $y := $x return ③",
        "for $x in ①, $x in ②, $y in $x return ③", "some $x in ①, $y in ② satisfies (③)", "every $x in ①, $y in ② satisfies (③)", "(for $x in ① return 1), (let $y := ② return 2), ③", "let $x := ① return (for $x in ② return $x), $x", "for $x in ① return (let $x := ② return $x, $x)", "(1, 2) ! (let $x := ①, $y := ② return ③)", "a[let $x := ①, $y := ② return (③)]"];
    if !crosses(sink, XML, "1", &heads, &[&s, &s, &bodies]) { return g; }
    g.notes.push(format!("{} nestings of for/let/some/every x all pairs of {} bound sequences x {} bodies", heads.len(), s.len(), bodies.len()));
    if !crosses(sink, XML, "1", &["for $x in ①, $y in ②, $z in ③ return ($x, $y, $z)", "for $x in ① return for $y in ② return count(($x, $y, ③))", "some $x in ①, $y in ②, $z in ③ satisfies $x = $z", "every $x in ①, $y in ②, $z in ③ satisfies $x != $z", "let $x := ① return let $y := ($x, ②) return let $x := ($y, ③) return ($x, $y)",
        "let $x := ① return (let $x := ② return (let $x := ③ return $x, $x), $x)", "for $x in ① return (for $x in ② return ($x, for $x in ③ return $x, $x), $x)"], &[&s, &s, &s]) { return g; }
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["boolean(①)", "if (①) then 1 else 2", "for $x in ① return count($x)", "some $x in ① satisfies $x instance of xs:double", "every $x in ① satisfies $x instance of xs:integer", "for $x in ① return if ($x instance of xs:integer) then () else $x", "let $x := ① return count($x)", "count(① ! (., .))"], &[&ol]) { return g; }
    g.notes.push(format!("{} sequences of 8..=257 items with an odd one at each of 4 places", ol.len()));
    for d in corpus::ALIKE {
        if !crosses(sink, d, "1", &["let $r := . return for $x in ① return ②", "let $r := . return some $x in ① satisfies ②", "let $r := . return every $x in ① satisfies ②", "let $r := . return ① ! (let $x := . return ②)", "let $r := . return for $x in ①, $y in ② return ($y, $x)", "let $r := ., $f := function($x) {②} return for $y in ① return $f($y)", "let $r := . return for $x in ① return for $x in ② return $x", "let $r := . return let $x := (①)[2] return ②"], &[&corpus::ALIKE_SEQ, &corpus::ALIKE_BODY]) { return g; }
    }
    g.notes.push("13 lists of nodes that look alike x 21 bodies that tell them apart x 8 constructs, in 2 documents".into());
    g
}

// ------------------------------------------------------------------- C18
fn gen_c18(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "sequence functions", XML, "1", &["①"], &["()", "1", "2", "(3, 'a', 1)", "a", "-1"], &["head(①)", "tail(①)", "reverse(①)", "count(①)", "data(①)", "empty(①)", "zero-or-one(①)", "one-or-more(①)", "(①, ②)", "remove(①, ②)", "①[②]", "index-of(①, ②)", "subsequence(①, ②)", "insert-before(①, ②, ③)", "subsequence(①, ②, ③)"], tier.pick(5, 6), false) { return g; }

    let ars = ["[]", "[1]", "['a', 1]", "[(1, 2), 3]", "[[1], 2]", "[[[]]]", "[()]", "[a]", "[a[1], @k]", "array{a}", "([1], 2)", "(2, [1, 1], 2)", "([], [], 1)", "array{1 to 40}", "([[2]], [3, [2]])", "(1, 'a', 2)", "()", "a"];
    if !crosses(sink, XML, "1", &["data(①)", "count(data(①))", "data((①, ②))", "index-of(①, ②)", "index-of((①, 1, ①), ②)", "data([①, ②])", "data(data(①)) = data(①)", "① ! data(.)", "data(①)[2]"], &[&ars, &["1", "2", "'a'", "[1]", "[2]", "[]", "[1, 2]", "[[2]]", "a[1]", "()", "40"]]) { return g; }
    g.notes.push(format!("data and index-of over {} sequences with arrays", ars.len()));
    let m = tier.pick(70i64, 140);
    let ints: Vec<String> = (-m..=m).map(|i| i.to_string()).collect();
    if !crosses(sink, XML, "1", &["① to ②", "count(① to ②)"], &[&refs!(ints), &refs!(ints)]) { return g; }
    if !crosses(sink, XML, "1", &["(① to ② + 5)[.5 < . and . < 2.5], sum(① to ②)", "reverse(① to ②)[last()], (① to ②)[last()], (① to ②)[2]", "head(① to ②), tail(① to ② - 2)"], &[&refs!(ints).iter().copied().step_by(5).collect::<Vec<_>>(), &refs!(ints).iter().copied().step_by(3).collect::<Vec<_>>()]) { return g; }
    g.notes.push(format!("every range between two integers of -{}..={}", m, m));

    let items = ["1", "2", "'a'", "1.5", "true()", "a", "1e0", "@k"];
    let mut ss = vec![];
    let n = tier.pick(3, 4);
    seqs(&items[..tier.pick(6, 8)], 0, n, &mut |q| { ss.push(format!("({})", q.join(", "))); true });
    let ss = refs!(ss).to_vec();
    let pos = ["0", "1", "2", "3", "4", "5", "-1", "9223372036854775807", "(-9223372036854775807 - 1)", "1.5", "2e0", "()", "(1,2)", "'1'", "@k", "true()"];
    let dbl = ["0", "1", "2", "3", "4", "-1", "-2", "0.5", "1.5", "1.4999", "2.5", "2.5e0", "-0.5", "1e0", "1e308", "-1e308", "(1 div 0e0)", "(-1 div 0e0)", "(0e0 div 0e0)", "9223372036854775807", "()", "(1,2)"];
    if !crosses(sink, XML, "1", &["count(①)", "empty(①)", "exists(①)", "head(①)", "tail(①)", "reverse(①)", "zero-or-one(①)", "one-or-more(①)", "exactly-one(①)", "①", "reverse(reverse(①))", "(head(①), tail(①))", "count((①, ①))", "data(①)", "for $x in ① return $x", "① ! .", "tail(tail(①))", "①[last()]", "① ! position()", "① ! last()", "tail(reverse(①))", "array:flatten([①])", "count(①[. = 1])"], &[&ss]) { return g; }
    if !crosses(sink, XML, "1", &["remove(①, ②)", "subsequence(①, ②)"], &[&ss, &pos]) { return g; }
    if !crosses(sink, XML, "1", &["subsequence(①, ②)", "①[position() >= ②]"], &[&ss, &dbl]) { return g; }
    g.notes.push(format!("all sequences of length 0..={} over {} items x 24 functions, x {} positions for remove, x {} numbers for subsequence", n, tier.pick(6, 8), pos.len(), dbl.len()));
    let short: Vec<&str> = ss.iter().copied().take(tier.pick(43, 73)).collect();
    let lens: Vec<&str> = short.iter().copied().step_by(3).chain(["(1, 'a', 2, true(), 3)", "//node()"]).collect();
    if !cross(sink, XML, "1", "subsequence(①, ②, ③)", &[&lens, &dbl, &dbl]) { return g; }
    if !cross(sink, XML, "1", "insert-before(①, ②, ③)", &[&short, &pos, &["()", "7", "('x', 'y')", "a", "(//a, 1)"]]) { return g; }
    let find = ["1", "2", "1.0", "1e0", "'a'", "'5'", "true()", "a[1]", "(0e0 div 0e0)", "()", "(1,2)", "'1'", "@k", "1.5"];
    if !cross(sink, XML, "1", "index-of(①, ②)", &[&ss, &find]) { return g; }
    if !crosses(sink, XML, "1", &["insert-before(remove(①, ②), ②, ①[②])", "(subsequence(①, 1, ②), subsequence(①, ② + 1))", "remove(insert-before(①, ②, 'q'), ②)"], &[&ss, &["0", "1", "2", "3", "4"]]) { return g; }
    g.notes.push("subsequence with every pair of 22 numbers; insert-before; index-of; compositions".into());
    if !funs(sink, tier, &SEQF) { return g; }
    g.notes.push(format!("every function with every value of a broad list ({} values), every pair of 150 and every triple of 44 (thorough: 320, 90)", corpus::values(10_000).len()));
    let ls = corpus::long_seqs();
    let ls = refs!(ls).to_vec();
    let at = ["0", "1", "2", "3", "7", "8", "9", "10", "15", "16", "17", "31", "32", "33", "34", "63", "64", "65", "66", "99", "100", "127", "128", "129", "130", "255", "256", "257", "300", "301", "-1", "2.5", "64.5", "1e2"];
    if !crosses(sink, XML, "1", &["remove(①, ②)", "subsequence(①, ②)", "subsequence(①, ②, 5)", "subsequence(①, 2, ②)", "insert-before(①, ②, 'q')", "index-of(①, ②)", "①[②]", "①[position() >= ②]", "count(remove(①, ②))", "head(subsequence(①, ②))", "tail(subsequence(①, ②))[1]", "reverse(①)[②]", "(①, ②)[last()]", "tail(①)[②]", "(1 to 70) ! head(①)"], &[&ls, &at]) { return g; }
    g.notes.push(format!("{} sequences of 0..=300 items x 15 forms x {} positions", ls.len(), at.len()));
    let ns = crate::names::sizes(tier.pick(70, 300), 66000);
    let by_n = ["count(1 to Ｎ)", "(1 to Ｎ)[last()]", "(1 to Ｎ)[Ｋ]", "head(reverse(1 to Ｎ))", "count(tail(1 to Ｎ))", "tail(1 to Ｎ)[last()]", "subsequence(1 to Ｎ, Ｋ)[1]", "count(subsequence(1 to Ｎ, Ｋ))", "subsequence(1 to Ｎ, Ｋ, 2)", "subsequence(1 to Ｎ, 1, Ｋ)[last()]", "count(remove(1 to Ｎ, Ｋ))", "remove(1 to Ｎ, Ｋ)[Ｋ]", "insert-before(1 to Ｎ, Ｋ, 'q')[Ｋ]", "insert-before(1 to Ｎ, Ｋ, 'q')[last()]",
        "index-of(1 to Ｎ, Ｋ)", "index-of((1 to Ｎ, 1 to Ｎ), Ｋ)", "reverse(1 to Ｎ)[Ｋ]", "count((1 to Ｎ, 'x', 1 to Ｎ))", "exists(1 to Ｎ)", "empty(1 to Ｎ)", "(1 to Ｎ)[position() = Ｋ]", "((1 to Ｎ) ! position())[Ｋ]", "((1 to Ｎ) ! last())[Ｋ]", "count(for $x in 1 to Ｎ return ($x, $x))", "count(data(1 to Ｎ))", "(1 to Ｎ) = Ｋ"];
    for &n in &ns { if !cross_n(sink, XML, n, &by_n) { return g; } }
    for &n in ns.iter().filter(|n| **n <= 1025) { if !crosses(sink, XML, "1", &["①", "reverse(①)", "tail(①)", "(①, ①)"], &[&[&format!("(1 to {})", n)]]) { return g; } }
    g.notes.push(format!("sequences of {} lengths from 0 to 66000 x {} forms, at every place of note", ns.len(), by_n.len()));
    let nodes = ["a[1]", "a[2]", "@k", "."];
    for it in [&nodes[..], &["a[1]", "1", "a[1]/text()"], &["1", "1.0", "'1'"], &["'a'", "'b'"]] {
        let mut ss = vec![];
        seqs(it, tier.pick(4, 4), tier.pick(if it.len() > 3 { 5 } else { 6 }, if it.len() > 3 { 6 } else { 7 }), &mut |q| { ss.push(format!("({})", q.join(", "))); true });
        let ss = refs!(ss).to_vec();
        if !crosses(sink, XML, "1", &["reverse(①)", "tail(①)", "head(①)", "remove(①, 2)", "remove(①, 4)", "subsequence(①, 2, 3)", "subsequence(①, 3)", "insert-before(①, 3, 'q')", "insert-before(①, 5, ./*[1])", "index-of(①, ①[2])", "①[3]", "①[last()]", "reverse(①)[2]", "count(①)", "① ! position()", "(①, ①)[6]", "distinct-values(①)", "for $x in ① return $x", "deep-equal(①, reverse(①))"], &[&ss]) { return g; }
    }
    g.notes.push("all sequences of 4..=6 of 3 items (nodes, repeated nodes, numbers, strings), of 4..=5 of 4 nodes, under 19 functions".into());
    for x in ["<r><a><b/>t</a><!--c--><a/></r>"] {
        if !crosses(sink, x, "*", &["reverse(①)", "head(①)", "tail(①)", "count(①)", "remove(①, 2)", "subsequence(①, 2, 2)", "insert-before(①, 2, .)", "exactly-one(①)", "root(①)", "①/name()", "(①)/..", "reverse(①)/self::*", "(①)[2]", "exists(①)"], &[&["//*", "//a", "ancestor::*", "preceding::node()", "(//a, //b)", "reverse(//*)", ".", "()", "child::node()"]]) { return g; }
    }
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["head(①)", "count(tail(①))", "tail(①)", "reverse(①)", "count(①)", "①", "remove(①, 2)", "remove(①, last())", "insert-before(①, 3, 'q')", "insert-before((1, 2), 2, ①)", "insert-before(①, 2, ①)", "subsequence(①, 2)", "subsequence(①, 3, 300)", "index-of(①, 5)", "index-of(①, 'a')", "index-of(①, 1.0)", "exactly-one(①)", "one-or-more(①)", "count((①, ①))", "data(①)", "empty(①)", "count(array:flatten([①]))"], &[&ol]) { return g; }
    g.notes.push(format!("{} sequences of 8..=257 items with an odd one at each of 4 places, under 22 forms", ol.len()));
    for d in corpus::ALIKE {
        if !crosses(sink, d, "1", &["remove(①, 2)", "remove(①, 3)", "reverse(①)", "head(①)", "tail(①)", "subsequence(①, 2, 3)", "insert-before(①, 2, (①)[3])", "insert-before(①, 2, ①)", "index-of(①, 'x')", "index-of(①, a[2])", "count(①)", "(①)[b]", "(①)[last()]", "for-each(①, function($x) {count($x/following::node())})", "filter(①, function($x) {count($x/b) = 1})", "(①, ①)"], &[&corpus::ALIKE_SEQ]) { return g; }
    }
    g.notes.push("13 lists of nodes that look alike under 16 forms, in 2 documents".into());
    g
}

// ------------------------------------------------------------------- C19
fn gen_c19(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "string functions", XML, "1", &["①"], &["'abé'", "''", "'b a'", "2", "()", "a[1]"], &["string(①)", "string-length(①)", "upper-case(①)", "normalize-space(①)", "string-to-codepoints(①)", "codepoints-to-string(①)", "concat(①, ②)", "① || ②", "substring(①, ②)", "substring-before(①, ②)", "substring-after(①, ②)", "contains(①, ②)", "starts-with(①, ②)", "string-join((①, ①), ②)", "translate(①, ②, ③)", "substring(①, ②, ③)"], tier.pick(5, 6), false) { return g; }

    let near = crate::names::near_pairs(tier.pick(12, 40), tier.pick(1025, 4097));
    for (x, y) in near.iter() {
        let (x, y) = (format!("'{}'", x), format!("'{}'", y));
        if !crosses(sink, XML, "1", &["① = ②", "① != ②", "① < ②", "① >= ②", "① eq ②", "① ne ②", "① lt ②", "① gt ②", "② le ①", "('q', ①) = (②, 'w')", "(①, ①) != ②", "compare(①, ②)", "① = ①", "max((①, ②))", "sort((②, ①, ②))"], &[&[&x], &[&y]]) { return g; }
    }
    g.notes.push(format!("{} pairs of strings that differ in one place, in order, in case or in length", near.len()));

    let al = ["a", "b", "\u{e9}", "\u{1d49c}"];
    let (mut s2, mut s3) = (vec![], vec![]);
    seqs(&al, 0, 2, &mut |q| { s2.push(format!("'{}'", q.concat())); true });
    seqs(&al, 0, tier.pick(4, 5), &mut |q| { s3.push(format!("'{}'", q.concat())); true });
    let (s2, s3) = (refs!(s2).to_vec(), refs!(s3).to_vec());
    let odd = ["()", "a[1]", "@k", "nosuch", "5", "1.5", "true()", "('a', 'b')", "//a", "map{}", "'\u{df}'", "'\u{130}'", "' a  b '", "'a\u{301}'", "'\u{1f1}x'", "b"];
    let one = ["string-length(①)", "upper-case(①)", "lower-case(①)", "string-to-codepoints(①)", "codepoints-to-string(string-to-codepoints(①))", "string(①)", "concat(①)", "concat(①, ①, 'x')", "string-join(①)", "string-join((①, 'x', ①), '-')", "normalize-space(①)", "① ! string-length()", "① ! string()", "① ! normalize-space()", "lower-case(upper-case(①))", "data(①)", "① || 'x'", "'x' || ①", "name(①)", "local-name(①)", "namespace-uri(①)", "string-length(concat(①, ①))"];
    if !crosses(sink, XML, "1", &one, &[&s3]) { return g; }
    if !crosses(sink, XML, "1", &one, &[&odd]) { return g; }
    let two = ["contains(①, ②)", "starts-with(①, ②)", "ends-with(①, ②)", "substring-before(①, ②)", "substring-after(①, ②)", "compare(①, ②)", "codepoint-equal(①, ②)", "concat(①, ②)", "① || ②", "string-join((①, ②), ①)", "string-join(①, ②)", "concat(substring-before(①, ②), ②, substring-after(①, ②)) = ①"];
    if !crosses(sink, XML, "1", &two, &[&s3, &s2]) { return g; }
    let m: Vec<&str> = s2.iter().copied().take(8).chain(odd.iter().copied()).collect();
    if !crosses(sink, XML, "1", &two, &[&m, &m]) { return g; }
    g.notes.push(format!("all strings of length 0..={} over 4 characters (one non-BMP) x {} functions; with all of length 0..=2 as second argument x {} functions", tier.pick(4, 5), one.len(), two.len()));
    let pos = ["0", "1", "2", "3", "4", "-1", "-3", "0.5", "1.5", "1.4", "2.5e0", "-0.5", "-0.4", "1e308", "-1e308", "(1 div 0e0)", "(-1 div 0e0)", "(0e0 div 0e0)", "9223372036854775807", "(-9223372036854775807 - 1)"];
    let src = ["''", "'a'", "'ab'", "'a\u{1d49c}b'", "'12345'", "()", "a[1]", "5", "\u{27}\u{e9}\u{e9}\u{e9}\u{e9}\u{27}"];
    if !cross(sink, XML, "1", "substring(①, ②)", &[&s3, &pos]) { return g; }
    if !cross(sink, XML, "1", "substring(①, ②, ③)", &[&src, &pos, &pos]) { return g; }
    if !cross(sink, XML, "1", "substring('①', ②, ③)", &[&["", "a", "ab", "abc", "abcd"], &["-2", "-1", "0", "1", "2", "3", "4", "5", "-1.5", "-0.5", "0.5", "1.5", "2.5", "3.5"], &["-2", "-1", "0", "1", "2", "3", "4", "5", "-1.5", "-0.5", "0.5", "1.5", "2.5", "3.5"]]) { return g; }
    let t3: Vec<&str> = s2.iter().copied().filter(|s| !s.contains('\u{e9}')).chain(["'aba'", "'bab'", "'abc'"]).collect();
    if !cross(sink, XML, "1", "translate(①, ②, ③)", &[&t3, &t3, &t3]) { return g; }
    if !cross(sink, XML, "1", "translate(①, ②, ③)", &[&odd, &odd, &odd[..4]]) { return g; }
    g.notes.push("substring over every pair of 20 numbers (infinities, NaN, limits); translate over every triple of strings".into());
    let ws = corpus::strings();
    let ws = refs!(ws).to_vec();
    if !crosses(sink, XML, "1", &one, &[&ws]) { return g; }
    if !crosses(sink, XML, "1", &two, &[&ws, &ws]) { return g; }
    let wp = ["0", "1", "2", "5", "7", "8", "9", "16", "17", "32", "33", "64", "65", "100", "128", "129", "256", "257", "300", "-1", "2.5"];
    if !crosses(sink, XML, "1", &["substring(①, ②)", "substring(①, ②, 3)", "substring(①, 2, ②)", "substring(①, ②, ②)"], &[&ws, &wp]) { return g; }
    if !funs(sink, tier, &STRF) { return g; }
    g.notes.push(format!("every string function with every value of a broad list, every pair of {} strings (lengths to 257, white space, case pairs, planes 0 to 16) under {} functions, every pair of 150 and triple of 44 values of every kind", ws.len(), two.len()));
    let ns = crate::names::sizes(tier.pick(70, 300), 66000);
    for c in ["a", "\u{e9}", "\u{1d49c}", "A "] {
        let s = format!("string-join((1 to Ｎ) ! '{}')", c);
        let z = format!("concat(string-join((2 to Ｋ) ! '{}'), 'z', string-join((Ｋ to Ｎ) ! '{}'), 'zy')", c, c);
        let f = ["string-length($s)", "$s", "substring($s, Ｋ, 3)", "string-length(substring($s, Ｋ))", "string-length(substring($s, 1, Ｋ))", "string-length(upper-case($s))", "string-length(lower-case($s))", "string-length(normalize-space($s))", "count(string-to-codepoints($s))", "string-to-codepoints($s)[Ｋ]", "string-length(codepoints-to-string(string-to-codepoints($s)))", "starts-with($s, substring($s, 1, Ｋ))", "ends-with($s, substring($s, Ｋ))", "contains($s, substring($s, Ｋ))",
            "string-length(substring-before($z, 'z'))", "string-length(substring-after($z, 'z'))", "substring-after($z, 'zy')", "string-length(substring-before($z, 'zy'))", "string-length(translate($z, 'z', ''))", "substring(translate($z, 'z', 'Q'), Ｋ, 1)", "contains($z, 'zy')", "ends-with($z, 'zy')", "compare($s, $z)", "$s = $z", "$s lt $z", "compare($z, translate($z, 'y', 'x'))", "codepoint-equal($s, concat($s, ''))", "codepoint-equal($z, translate($z, 'y', 'x'))", "string-length(concat($s, $z))", "string-length($s || $z)", "string-length(string-join(($s, $z, $s), 'ab'))", "string-length(string-join((1 to Ｎ) ! 'x', ','))"];
        let f: Vec<&&str> = f.iter().filter(|e| c == "a" || !e.ends_with("'x', ',')")).collect();
        let all: Vec<String> = f.iter().map(|e| format!("let $s := {}, $z := {} return ({})", s, z, e)).collect();
        for &n in ns.iter().filter(|n| c == "a" || **n < 70 || [255, 256, 257, 1024, 4096, 65536].contains(*n)) {
            if n <= 300 { if !cross_n(sink, XML, n, &refs!(all)) { return g; } continue; }
            // the long ones are made once for all the places
            let list: Vec<String> = places(n).iter().filter(|&&k| n < 2000 || [1, n / 2, n - 1, n, n + 1, 256, 65535, 65536].contains(&k)).map(|k| k.to_string()).collect();
            for e in &f {
                let zk = if e.contains("$z") { format!("let $z := {} return ", z) } else { String::new() };
                let e = format!("let $s := {} return for $k in ({}) return {}({})", s, list.join(", "), zk, e);
                if !sink(&[XML, "1", &e.replace('Ｎ', &n.to_string()).replace('Ｋ', "$k")]) { return g; }
            }
        }
    }
    g.notes.push(format!("strings of {} lengths from 0 to 66000 characters (of one, two and four bytes) x 32 forms, at every place of note", ns.len()));
    let cps = ["0", "1", "9", "10", "13", "32", "97", "127", "128", "233", "2047", "2048", "55295", "55296", "56320", "57343", "57344", "65533", "65534", "65535", "65536", "65537", "119964", "1114111", "1114112", "-1", "4294967296", "4294967393", "9223372036854775807"];
    if !crosses(sink, XML, "1", &["codepoints-to-string((①, ②))", "string-to-codepoints(codepoints-to-string((①, 97, ②)))", "string-length(codepoints-to-string((①, ②)))", "compare(codepoints-to-string(①), codepoints-to-string(②))"], &[&cps, &cps]) { return g; }
    g.notes.push("codepoints at every encoding border".into());
    let lx = "<r xml:lang=\"en\"><a xml:lang=\"en-US\" k=\"1\"><b/></a><c xml:lang=\"\"/><d><e xml:lang=\"FR-ca-x\">t</e></d><f xml:lang=\"english\"/></r>";
    if !crosses(sink, lx, "*", &["lang(①)", "lang(①, .)", "lang(①, ..)", "//*[lang(①)]"], &[&["'en'", "'EN'", "'en-US'", "'en-us'", "'fr'", "'fr-CA'", "''", "'e'", "'en-'", "()", "'english'", "'fr-ca-x'", "1", "('en', 'fr')"]]) { return g; }
    // languages and namespaces down three levels
    let la = ["", " xml:lang=\"\"", " xml:lang=\"en\"", " xml:lang=\"EN-us\"", " xml:lang=\"en-US-x\"", " xml:lang=\"e\"", " xml:lang=\"en_US\"", " lang=\"en\"", " xml:lang=\"-en\"", " xml:lang=\"de\" k=\"1\"", " k=\"1\" xml:lang=\"en\"", " xml:lang=\" en\"", " xml:lang=\"\u{130}\"", " xml:space=\"en\""];
    let lq = ["'en'", "'EN'", "'en-us'", "''", "'e'", "'en-'", "'de'", "'en-US-x'", "'-'", "' en'", "()"];
    let l3 = tier.pick(6, 14);
    for x in la { for y in la { for z in la.iter().take(l3) {
        let d = format!("<r{}><a{}><b{}>t</b></a><c/></r>", x, y, z);
        if !crosses(sink, &d, "1", &["(//node(), //@*) ! lang(①)"], &[&lq]) { return g; }
    } } }
    let na = ["", " xmlns=\"d\"", " xmlns=\"\"", " xmlns:p=\"u\"", " xmlns:p=\"v\"", " xmlns:q=\"u\" xmlns=\"e\"", " xmlns:xml=\"z\"", " p:k=\"1\" k=\"2\"", " xmlns:p=\"\"", " q:xmlns=\"w\"", " xmlnsp=\"w\" xmln=\"s\""];
    let nn = ["a", "p:a", "q:a", "xml:a", "xmlns:a"];
    for x in na { for y in na { for z in na { for (i, m) in nn.iter().enumerate() {
        let d = format!("<{0}{1}><{2}{3}><{4}{5} p:j=\"1\">t</{4}></{2}></{0}>", nn[(i + 1) % 3], x, ["b", "p:b"][i % 2], y, m, z);
        if !sink(&[&d, "1", "(//node(), //@*) ! (namespace-uri(), local-name(), name())"]) { return g; }
    } } } }
    g.notes.push(format!("lang with 11 languages over every node of {} documents of three levels; names and namespaces over every node of {} documents", 14 * 14 * l3, 11 * 11 * 11 * 5));
    let nx = "<p:r xmlns:p=\"u\" xmlns=\"d\" p:k=\"1\" k=\"2\"><a><p:b xmlns:p=\"v\" p:l=\"3\">t</p:b></a><!--c--><?p i?><q xmlns=\"\"/></p:r>";
    if !crosses(sink, nx, "*", &["①(②)", "(②)/①()"], &[&["name", "local-name", "namespace-uri", "string", "root", "data", "nilled", "string-length", "normalize-space"], &[".", "..", "()", "@*", "*", "//*", "/", "1", "'a'", "child::node()[1]"]]) { return g; }
    if !crosses(sink, nx, "*", &["①()"], &[&["name", "local-name", "namespace-uri", "string", "root", "data", "nilled", "string-length", "normalize-space", "number"]]) { return g; }
    g.notes.push("lang over every node of a document; name functions over every node of a namespaced document".into());
    g
}

// ------------------------------------------------------------------- C20
fn gen_c20(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "aggregates and numeric functions", XML, "1", &["①"], &["()", "1", "-2.5", "3e0", "a", "'7'", "(1, 2)", "true()"], &["sum(①)", "avg(①)", "max(①)", "min(①)", "count(①)", "abs(①)", "round(①)", "floor(①)", "ceiling(①)", "number(①)", "(①, ②)", "① + ②", "sum(①, ②)"], tier.pick(5, 5), false) { return g; }

    let near = crate::names::near_pairs(tier.pick(12, 40), tier.pick(1025, 4097));
    for (x, y) in near.iter() {
        let (x, y) = (format!("'{}'", x), format!("'{}'", y));
        if !crosses(sink, XML, "1", &["contains(①, ②)", "contains(②, ①)", "starts-with(②, ①)", "ends-with(②, ①)", "starts-with(concat(①, ②), ②)", "substring-before(concat('a', ①, 'b', ②), ②)", "substring-after(concat(②, 'b', ①), ①)", "distinct-values((①, ②, ①, ②))", "index-of((①, ②, ①, ②), ②)",
            "deep-equal(①, ②)", "compare(①, ②)", "translate(①, ②, ①)", "upper-case(①) = upper-case(②)", "count(distinct-values((①, ②)))", "min((①, ②))", "replace(①, ②, 'x')", "string-length(②)", "contains(concat(①, ①), ②)"], &[&[&x], &[&y]]) { return g; }
    }
    g.notes.push(format!("{} pairs of strings that differ in one place, in order, in case or in length", near.len()));

    let vals: Vec<&str> = NUMS.iter().chain(ODD.iter()).copied().collect();
    let mut one: Vec<String> = vals.iter().map(|s| s.to_string()).collect();
    let n = tier.pick(24, 100);
    for i in -n..=n { one.push(format!("({:?})", i as f64 / 4.0)); one.push(format!("({:?}e0)", i as f64 / 4.0)); }
    for i in -10..=10 { one.push(format!("({:?})", i as f64 / 10.0)); one.push(format!("({:?}e0)", i as f64 / 10.0)); one.push(i.to_string()); }
    one.extend(["0.49999999999999994", "0.49999999999999994e0", "-0.49999999999999994e0", "4503599627370497.5e0", "4503599627370495.5e0", "-4503599627370495.5e0", "9007199254740993e0", "1.5e300", "-1.5e300"].iter().map(|s| s.to_string()));
    let one = refs!(one).to_vec();
    if !crosses(sink, XML, "1", &["abs(①)", "ceiling(①)", "floor(①)", "round(①)", "number(①)", "string(①)", "abs(-①)", "floor(①) + ceiling(-①)", "1 div round(①)", "1e0 div round(①)", "1e0 div floor(①)", "1e0 div ceiling(①)", "round(①) - ①", "① ! number()", "boolean(①)", "sum(①)", "avg(①)", "max(①)", "min(①)"], &[&one]) { return g; }
    g.notes.push(format!("19 forms x {} values (limits, halves, quarters, both zeros, infinities)", one.len()));
    let items = ["1", "2", "-3", "0.5", "2.0", "1e0", "-2.5e0", "(0e0 div 0e0)", "(1 div 0e0)", "@k", "'x'", "'2'", "true()", "a[1]", "9223372036854775807", "-9223372036854775807", "0", "-0e0", "0e0", "a[2]"];
    let fns = ["sum(①)", "avg(①)", "max(①)", "min(①)", "count(①)", "sum(①, 0.0)", "sum(reverse(①))", "max(reverse(①))", "min(reverse(①))", "avg(reverse(①))"];
    let mut ss = vec![];
    seqs(&items, 0, 2, &mut |q| { ss.push(format!("({})", q.join(", "))); true });
    seqs(&items[..tier.pick(14, 20)], 3, 3, &mut |q| { ss.push(format!("({})", q.join(", "))); true });
    let e = refs!(ss).to_vec();
    if !crosses(sink, XML, "1", &fns, &[&e]) { return g; }
    g.notes.push(format!("10 aggregate forms x {} sequences of length 0..=3 over up to {} items", e.len(), items.len()));
    if tier == Tier::Thorough {
        let mut ss = vec![];
        seqs(&items[..12], 4, 4, &mut |q| { ss.push(format!("({})", q.join(", "))); true });
        let e = refs!(ss).to_vec();
        if !crosses(sink, XML, "1", &fns[..5], &[&e]) { return g; }
        g.notes.push("all sequences of length 4 over 12 items".into());
    }
    let st = ["'a'", "'b'", "'A'", "''", "'10'", "'9'", "'\u{e9}'", "true()", "false()", "1", "()", "@k", "//a", "map{}", "[1]"];
    let mut ss = vec![];
    seqs(&st, 1, 3, &mut |q| { ss.push(format!("({})", q.join(", "))); true });
    let e = refs!(ss).to_vec();
    if !crosses(sink, XML, "1", &["max(①)", "min(①)", "sum(①)", "avg(①)"], &[&e]) { return g; }
    if !crosses(sink, XML, "1", &["sum((), ①)", "sum(1, ①)", "sum(nosuch, ①)"], &[&vals]) { return g; }
    let strs = ["'1'", "' 1 '", "'1.5'", "'1e2'", "'-1'", "'+1'", "'.5'", "'1.'", "''", "' '", "'x'", "'1 2'", "'0x1'", "'1e'", "'--1'", "'1_0'", "'e1'", "'.'", "'1.5.5'", "'\u{ff11}'", "'1d'", "'-0'", "'NaN'", "'INF'", "'-INF'", "'1E2'", "'1e+2'", "'00'", "'true'"];
    if !crosses(sink, XML, "1", &["number(①)", "① ! number()", "sum(①)", "abs(number(①))", "number(number(①))", "string(number(①))"], &[&strs]) { return g; }
    for x in ["<r><a>1</a><a>2.5</a><a>-3</a><b>x</b><b/><c> 4 </c><d>1e2</d><e>1<f>2</f></e></r>"] {
        if !crosses(sink, x, "1", &["①(②)"], &[&["sum", "avg", "max", "min", "count", "number", "abs", "round", "floor", "ceiling"], &["a", "b", "*", "a[1]", "a[2]", "c", "d", "e", "e/f", "(a, c)", "(a, 1)", "(1, a)", "a/text()", "nosuch", "(a, 'x')", "."]]) { return g; }
    }
    g.notes.push("strings and nodes as numbers".into());
    if !funs(sink, tier, &NUMF) { return g; }
    let (all, wn, ls) = (corpus::values(10_000), corpus::numbers(), corpus::long_seqs());
    let (all, wn, ls) = (refs!(all).to_vec(), refs!(wn).to_vec(), refs!(ls).to_vec());
    if !crosses(sink, XML, "1", &["round(-①)", "floor(-①)", "ceiling(-①)", "abs(①) eq ①", "number(string(①))", "1e0 div round(①)", "round(①) instance of xs:integer", "abs(①) instance of xs:decimal", "ceiling(①) instance of xs:double", "floor(①) - ceiling(①)", "max((①, 1))", "min((①, 1.5))", "sum((①, 1e0))", "avg((①, 2))", "sum((①, ①))", "avg((①, ①, 1))"], &[&wn]) { return g; }
    if !crosses(sink, XML, "1", &["max((①, ②))", "min((①, ②))", "sum((①, ②))", "avg((①, ②))"], &[&wn, &wn]) { return g; }
    let any = corpus::values(tier.pick(130, 300));
    let any = refs!(any).to_vec();
    if !crosses(sink, XML, "1", &["max((①, ②))", "min((①, ②))", "sum((①, ②))", "avg((①, ②))", "sum(①, ②)", "count((①, ②))"], &[&any, &any]) { return g; }
    if !crosses(sink, XML, "1", &["sum(①)", "avg(①)", "max(①)", "min(①)", "count(①)", "sum(reverse(①))", "avg((①, 0.5))", "max((①, 0e0))", "min((①, -1e0))", "max((-1, ①))", "sum((①, ①))", "count((①, ①))", "sum(① ! 1)", "max((0.5, ①, 1000))", "min((①, -1000))", "sum(①) instance of xs:integer", "avg(①) instance of xs:integer"], &[&ls]) { return g; }
    let ns = crate::names::sizes(tier.pick(70, 300), 66000);
    let by_n = ["sum(1 to Ｎ)", "avg(1 to Ｎ)", "max(1 to Ｎ)", "min(1 to Ｎ)", "max((1 to Ｎ) ! (if (. = Ｋ) then 999999 else .))", "min((1 to Ｎ) ! (if (. = Ｋ) then -5 else .))", "max((1 to Ｎ) ! (if (. = Ｋ) then 0.5 else 0))", "min((1 to Ｎ) ! (if (. = Ｋ) then -1.5e0 else 7))", "sum((1 to Ｎ) ! (if (. = Ｋ) then 0.5 else 2))", "avg((1 to Ｎ) ! (if (. = Ｋ) then 1e0 else 1))", "sum((1 to Ｎ) ! (if (. = Ｋ) then 'x' else 1))", "max((1 to Ｎ) ! (if (. = Ｋ) then 'z' else 'm'))", "min((1 to Ｎ) ! (if (. = Ｋ) then 'a' else 'm'))",
        "max((1 to Ｎ) ! (if (. = Ｋ) then 'z' else 1))", "max((1 to Ｎ) ! (if (. = Ｋ) then (0e0 div 0e0) else .))", "min((1 to Ｎ) ! (if (. = Ｋ) then true() else false()))", "max((1 to Ｎ) ! (if (. = Ｋ) then true() else false()))", "sum((1 to Ｎ) ! (. * 1e0))", "avg((1 to Ｎ) ! (. div 2))", "count((1 to Ｎ) ! (if (. = Ｋ) then () else 1))", "sum(reverse(1 to Ｎ))", "max(reverse(1 to Ｎ))", "max((1 to Ｎ) ! (. mod Ｋ))", "min((1 to Ｎ) ! -(. mod Ｋ))"];
    for &n in &ns { for t in by_n.iter() { if t.contains("mod") && n == 0 { continue; } if !cross_n(sink, XML, n, &[t]) { return g; } } }
    g.notes.push(format!("aggregates of {} lengths from 0 to 66000 x {} forms, the odd one out at every place of note", ns.len(), by_n.len()));
    g.notes.push(format!("every numeric function with each of {} values; aggregates over all pairs of {} numbers and of {} values; over {} sequences of up to 300 items", all.len(), wn.len(), any.len(), ls.len()));
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["sum(①)", "avg(①)", "max(①)", "min(①)", "count(①)", "sum(①, 0)", "sum((①) ! (. * 1e0))"], &[&ol]) { return g; }
    g.notes.push(format!("{} sequences of 8..=257 items with an odd one at each of 4 places", ol.len()));
    g
}

// ------------------------------------------------------------------- C21
fn gen_c21(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "maps and arrays", XML, "1", &["①"], &["1", "'a'", "()", "(1, 2)", "map{'a': 1}", "[1, 'a']", "a[1]"], &["[①]", "array{①}", "①?*", "①?1", "①?a", "map:size(①)", "map:keys(①)", "array:size(①)", "array:flatten(①)", "(①, ②)", "[①, ②]", "map{①: ②}", "①(②)", "①?(②)", "map:get(①, ②)", "map:contains(①, ②)", "array:get(①, ②)", "① ! ②", "map{1: ①, 'a': ②}"], tier.pick(5, 5), false) { return g; }

    let near = crate::names::near_pairs(tier.pick(12, 40), tier.pick(257, 1025));
    for (x, y) in near.iter() {
        let (k, l) = (format!("'{}'", x), format!("'{}'", y));
        let ident = !y.ends_with('-');
        let m = format!("map{{{}: 1, {}: 2}}", k, l);
        if !crosses(sink, XML, "1", &["①(②)", "①(③)", "map:size(①)", "map:get(①, ③)", "map:contains(map{②: 1}, ③)", "map:remove(①, ③)(②)", "map:remove(①, ②)(③)", "map:put(①, ③, 9)?*", "map:put(map{②: 1}, ③, 2)(②)", "map:merge((map{②: 1}, map{③: 2}))(②)", "map:size(map:merge((map{③: 1}, map{②: 2})))", "map{②: 1}(③)", "map:keys(①) = ③", "map:contains(①, concat(③, 'q'))", "map:find((map{②: 1}, map{③: 2}), ③)", "map{②: 1}?(③)"], &[&[&m], &[&k], &[&l]]) { return g; }
        if ident && !crosses(sink, XML, "1", &["①?②", "①?③", "map{'②': 1}?③"], &[&[&m], &[x], &[y]]) { return g; }
    }
    g.notes.push(format!("{} pairs of keys that differ in one place, in order, in case or in length", near.len()));

    // keys of different types that read alike are different keys
    let alike = ["1", "'1'", "1.0", "1e0", "'1.0'", "true()", "'true'", "false()", "'false'", "0", "'0'", "0.0", "-0e0", "0e0", "(0e0 div 0e0)", "'NaN'", "(1e0 div 0e0)", "(-1e0 div 0e0)", "'INF'", "'+Infinity'", "'Infinity'", "1.5", "'1.5'", "1.5e0", "-1", "'-1'", "''", "b[1]", "1 = 1", "9007199254740993", "9007199254740993e0", "'9007199254740993'", "1e21", "'1e21'", "'1E21'", "string(1)", "count(a)", "'2'", "10000000", "1e7", "10000000.0", "100000000000000000", "1e17", "100000000000000000.0", "0.0000001", "1e-7", "1e300", "9223372036854775807", "9223372036854775807.0", "-9223372036854775808e0"];
    if !crosses(sink, XML, "1", &["map{①: 'x'}(②)", "map{①: 'x', ②: 'y'}", "map:contains(map{①: 'x'}, ②)", "map:get(map{①: 'x'}, ②)", "map{①: 'x'}?(②)", "map:size(map{①: 'x', ②: 'y'})", "map{①: 'x', 'k': 5, ②: 'y'}?*"], &[&alike, &alike]) { return g; }
    if !crosses(sink, XML, "1", &["map{①: 'x', ②: 'y'}(③)"], &[&alike[..tier.pick(12, 30)], &alike[..tier.pick(12, 30)], &alike]) { return g; }
    g.notes.push(format!("{} keys of every type, many of which read alike, as written and as asked for", alike.len()));
    let ix = ["0", "1", "2", "3", "4", "-1", "9223372036854775807", "-9223372036854775808", "count(//nosuch)", "(1, 2)", "(1, 4)", "(0, 1)", "(4, 1)", "(2, 2)", "()", "last()", "1 + 2"];
    if !crosses(sink, XML, "1", &["[①](②)", "[①]?(②)", "array:get([①], ②)", "array{①}(②)", "array{①}?(②)", "([①], [9])?(②)", "let $a := [①] return $a(②)", "[①] ! ?(②)", "array:get(array{①}, ②)", "count([①]?(②))", "[[①]]?(②)"], &[&["", "()", "1", "1, 2", "(1, 2), 3", "'a', (), 'c'", "a, @k", "[1], [2]"], &ix]) { return g; }
    if !crosses(sink, XML, "1", &["[①]?0", "[①]?1", "[①]?2", "[①]?3", "[①]?4", "[①] ! ?2", "array{①}?2", "array{①}?3", "([1, 2], [①])?2"], &[&["", "()", "1", "1, 2", "(1, 2), 3", "'a', (), 'c'", "a, @k", "[1], [2]"]]) { return g; }
    g.notes.push("indices inside and outside of arrays by call, lookup and array:get".into());

    let keys = ["1", "2", "'a'", "'b'", "true()", "1.5", "1.0", "1e0", "(0e0 div 0e0)", "a[1]", "@k", "'x'", "''"];
    let kbad = ["()", "(1, 2)", "map{}", "[1]", "//a", "true#0"];
    let vals = ["10", "(20, 21)", "()", "'v'", "a", "[7, 8]", "map{1: 5}"];
    let k: Vec<&str> = keys.iter().chain(kbad.iter()).copied().collect();
    let acc = ["①(②)", "map:get(①, ②)", "map:contains(①, ②)", "①?(②)", "① ! ?(②)", "count(①(②))", "let $m := ① return $m(②)", "let $m := ① return $m?(②)", "exists(①?(②))"];
    let all = ["①", "map:size(①)", "map:keys(①)", "①?*", "① ! ?*", "①?a", "①?b", "①?1", "①?2", "① ! ?a", "① instance of map(*)", "for $k in map:keys(①) return ①($k)", "map:keys(①) ! ①(.)", "count(①)", "①?nosuch", "map:size(①) = count(map:keys(①))", "(①, ①)?a", "(①, map{'a': 99})?a", "①?x", "let $m := ① return map:keys($m)[1]"];
    let mut maps: Vec<String> = vec!["map{}".into()];
    for a in k.iter() { for v in vals.iter() { maps.push(format!("map{{{}: {}}}", a, v)); } }
    for a in keys.iter() { for b in k.iter() { maps.push(format!("map{{{}: 10, {}: 20}}", a, b)); } }
    let mm = refs!(maps).to_vec();
    if !crosses(sink, XML, "1", &all, &[&mm]) { return g; }
    if !crosses(sink, XML, "1", &acc, &[&mm, &k]) { return g; }
    g.notes.push(format!("{} maps of up to 2 entries x {} whole-map forms and {} keyed forms x {} keys", mm.len(), all.len(), acc.len(), k.len()));
    let mut m3 = vec![];
    let kk = &keys[..tier.pick(6, 13)];
    for a in kk { for b in kk { for c in kk { m3.push(format!("map{{{}: 10, {}: 'v', {}: (1, 2)}}", a, b, c)); } } }
    let m3 = refs!(m3).to_vec();
    let vv = ["1", "a", "(2, a)", "(a, 'x')", "()", "'s'", "@k", "[7, 8]", "[a]", "map{1: 5}", "/", "//a", "abs#1", "1.5", "2e0", "true()"];
    let acc3 = ["①?*", "① ! ?*", "for $k in map:keys(①) return ①($k)", "count(①?*)", "①?b", "map:keys(①) ! ①(.)", "(①)?('a', 'b', 'c')", "(①, ①)?*", "(①?*)[2]"];
    let mut m2 = vec![];
    for a in vv.iter() { for b in vv.iter() { m2.push(format!("map{{'a': {}, 'b': {}}}", a, b)); m2.push(format!("map{{'a': {}, 'b': {}, 'c': {}}}", a, b, a)); m2.push(format!("[{}, {}]", a, b)); m2.push(format!("[{}, {}, {}]", b, a, b)); } }
    for a in &vv[..tier.pick(7, 16)] { for b in &vv[..7] { for c in &vv[..7] { m2.push(format!("map{{'a': {}, 'b': {}, 'c': {}}}", a, b, c)); m2.push(format!("[{}, {}, {}]", a, b, c)); } } }
    let m2 = refs!(m2).to_vec();
    if !crosses(sink, XML, "1", &acc3, &[&m2]) { return g; }
    if !crosses(sink, XML, "1", &["①(2)", "array:flatten(①)", "①?1", "①?(3, 1)", "array:flatten((①, a))"], &[&m2]) { return g; }
    g.notes.push(format!("{} maps and arrays of two and three values of every kind (atomic, node, sequence, empty, map, array, function) x {} accesses", m2.len(), acc3.len() + 5));
    if !crosses(sink, XML, "1", &all, &[&m3]) { return g; }
    if !crosses(sink, XML, "1", &acc[..4], &[&m3, &keys]) { return g; }
    g.notes.push("all maps of 3 entries over the key list".into());
    // arrays
    let items = ["1", "'a'", "(2, 3)", "()", "a", "[4, 5]", "map{'k': 6}"];
    let mut arrs = vec![];
    let n = tier.pick(3, 4);
    seqs(&items, 0, n, &mut |q| { arrs.push(format!("[{}]", q.join(", "))); arrs.push(format!("array{{{}}}", q.join(", "))); true });
    let aa = refs!(arrs).to_vec();
    let idx = ["0", "1", "2", "3", "4", "-1", "9223372036854775807", "()", "(1, 2)", "a[2]", "map{}"];
    let aall = ["①", "array:size(①)", "①?*", "① ! ?*", "array:flatten(①)", "array:flatten((①, 9, [①]))", "count(①)", "count(①?*)", "①?1", "①?2", "① ! ?1", "① instance of array(*)", "array:size([①])", "[①]?1?1", "(1 to array:size(①)) ! ①(.)", "for $i in 1 to array:size(①) return count(①($i))", "(①, [88])?1", "①(1)", "①?(1 to array:size(①))"];
    if !crosses(sink, XML, "1", &aall, &[&aa]) { return g; }
    if !crosses(sink, XML, "1", &["①(②)", "array:get(①, ②)", "①?(②)", "① ! ?(②)", "let $a := ① return $a(②)"], &[&aa, &idx]) { return g; }
    g.notes.push(format!("{} arrays of length 0..={} in both notations x {} forms, x {} indexes", aa.len(), n, aall.len(), idx.len()));
    // every nested array of bounded size
    let mut shapes: Vec<Vec<String>> = vec![vec!["1".into(), "()".into(), "(2, 3)".into(), "a".into(), "map{'a': [4]}".into(), "[]".into()]];
    for depth in 1..=3usize {
        let prev: Vec<String> = shapes[depth - 1].iter().take(tier.pick([6, 14, 24][depth - 1], [6, 40, 70][depth - 1])).cloned().collect();
        let mut v: Vec<String> = prev.clone();
        let r: Vec<&str> = prev.iter().map(|s| s.as_str()).collect();
        seqs(&r, 1, tier.pick(2, if depth == 1 { 3 } else { 2 }), &mut |q| { v.push(format!("[{}]", q.join(", "))); if q.len() == 2 { v.push(format!("[({})]", q.join(", "))); v.push(format!("({})", q.join(", "))); } true });
        shapes.push(v);
    }
    let deep: Vec<&str> = shapes[2].iter().chain(shapes[3].iter()).map(|s| s.as_str()).collect();
    if !crosses(sink, XML, "1", &["array:flatten(①)", "array:flatten((①, 9))", "array:flatten((9, ①))", "count(array:flatten([①, [①]]))", "array:flatten(array:flatten(①))", "(①, [0]) ! ?*", "[①]?*", "count([①]?1)", "array{①}", "array:size(array{①})", "①"], &[&deep]) { return g; }
    g.notes.push(format!("{} nested arrays of depth up to 3 under flatten, wildcard lookup and both constructors", deep.len()));
    if !funs(sink, tier, &MAPF) { return g; }
    let any = corpus::values(tier.pick(160, 400));
    let any = refs!(any).to_vec();
    if !crosses(sink, XML, "1", &["map{①: 1}", "map{①: 1}(①)", "map{①: 1, 'zz': 2}?*", "map:contains(map{①: 1}, ①)", "map:keys(map{①: 1})", "map{1: ①}(1)", "map{1: ①, 2: 'z'}?*", "count(map{1: ①}?1)", "[①](1)", "[①, 'z']?*", "count([①, ①]?1)", "array{①}?*", "array:size(array{①})", "count([①])", "map{'k': ①, 'l': [①]}?l?1", "(①)?1", "(①)?a", "(①)?*", "map:size(map{①: ①})"], &[&any]) { return g; }
    if !crosses(sink, XML, "1", &["map{①: 'v'}(②)", "map:contains(map{①: 'v', 'zz': 1}, ②)", "map:size(map{①: 1, ②: 2})", "map{①: 1, ②: 2}(②)", "map{①: 'v'}?(②)"], &[&any[..tier.pick(110, 250)], &any[..tier.pick(110, 250)]]) { return g; }
    // many entries, many members
    for n in [7usize, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 200] {
        let ks: Vec<String> = (0..n).map(|i| match i % 4 { 0 => i.to_string(), 1 => format!("'k{}'", i), 2 => format!("{}.5", i), _ => format!("'{}'", "x".repeat(i)) }).collect();
        let m = format!("map{{{}}}", ks.iter().enumerate().map(|(i, k)| format!("{}: {}", k, ["'v'", "(1, 2)", "()", "[3]"][i % 4].replace("v", &format!("v{}", i)))).collect::<Vec<_>>().join(", "));
        let a = format!("[{}]", (0..n).map(|i| format!("({}, 'm')", i)).collect::<Vec<_>>().join(", "));
        let mut f: Vec<String> = ["map:size($m)", "map:keys($m)", "$m?*", "$m", "$a", "array:size($a)", "$a?*", "array:flatten($a)", "$a ! ?*", "for $k in map:keys($m) return $m($k)", "(1 to array:size($a)) ! count($a(.))", "$m?nosuch", "map:keys($m)[last()]", "$m instance of map(xs:anyAtomicType, item()*)", "$a instance of array(item()+)"].iter().map(|s| s.to_string()).collect();
        for i in 0..n { f.push(format!("$m({})", ks[i])); f.push(format!("$m?({})", ks[i])); f.push(format!("$a({})", i + 1)); f.push(format!("array:get($a, {})", i + 1)); }
        f.push(format!("$m?({}, {})", ks[n - 1], ks[0])); f.push(format!("$a?({}, 1, {})", n, n / 2)); f.push(format!("$a({})", n + 1)); f.push(format!("map:contains($m, {})", n)); f.push(format!("map{{{}: 1, {}}}", ks[n - 1], ks.iter().map(|k| format!("{}: 0", k)).collect::<Vec<_>>().join(", ")));
        for e in f { if !sink(&[XML, "1", &format!("let $m := {}, $a := {} return ({})", m, a, e)]) { return g; } }
    }
    g.notes.push(format!("{} values of every kind as keys, members and values; all pairs of {} as keys; maps and arrays of up to 200 entries, every key", any.len(), tier.pick(110, 250)));
    let ns = crate::names::sizes(tier.pick(40, 130), tier.pick(5000, 66000));
    let by_n = ["array:size(array{1 to Ｎ})", "array{1 to Ｎ}(Ｋ)", "array{1 to Ｎ}?Ｋ", "array:get(array{1 to Ｎ}, Ｋ)", "count(array{1 to Ｎ}?*)", "(array{1 to Ｎ}?*)[Ｋ]", "count(array:flatten([array{1 to Ｎ}, 0]))", "array:flatten([array{1 to Ｎ}, 0])[Ｋ]", "([(1 to Ｎ), 7](1))[Ｋ]", "(map{'k': 1 to Ｎ}?k)[Ｋ]", "count(map{'k': 1 to Ｎ, 'l': 2}?*)", "array{1 to Ｎ}?(Ｋ, 1)", "((1 to Ｎ) ! [., 'x']?1)[Ｋ]", "((1 to Ｎ) ! map{.: 'x'})[Ｋ]?(Ｋ)"];
    for &n in &ns { if !cross_n(sink, XML, n, &by_n) { return g; } }
    for n in [254, 255, 256, 257, 258, 300, 1000, 1023, 1024, 1025].iter().take(tier.pick(7, 10)) {
        let m = format!("map{{{}}}", (1..=*n).map(|i| format!("{}: {}", i, i * 2)).collect::<Vec<_>>().join(", "));
        let s = format!("map{{{}}}", (1..=*n).map(|i| format!("'k{}': {}", i, i * 2)).collect::<Vec<_>>().join(", "));
        let a = format!("[{}]", (1..=*n).map(|i| format!("{}", i * 2)).collect::<Vec<_>>().join(", "));
        for t in ["map:size($m)", "count(map:keys($m))", "$m(Ｋ)", "$m?Ｋ", "map:get($m, Ｋ)", "map:contains($m, Ｋ)", "map:keys($m)[Ｋ]", "($m?*)[Ｋ]"] { if !cross_n(sink, XML, *n, &[&format!("let $m := {} return {}", m, t)]) { return g; } }
        for t in ["map:size($m)", "$m('kＫ')", "$m?kＫ", "map:contains($m, 'kＫ')", "count($m?*)"] { if !cross_n(sink, XML, *n, &[&format!("let $m := {} return {}", s, t)]) { return g; } }
        for t in ["array:size($m)", "$m(Ｋ)", "$m?Ｋ", "($m?*)[Ｋ]", "array:flatten($m)[Ｋ]"] { if !cross_n(sink, XML, *n, &[&format!("let $m := {} return {}", a, t)]) { return g; } }
    }
    g.notes.push(format!("arrays of {} sizes from 0 to {} x {} forms, and written-out maps and arrays of up to 257 (thorough: 1025) entries, at every place of note", ns.len(), ns.last().unwrap(), by_n.len()));
    // nesting and the focus of keys
    let nest = ["map{'a': map{'b': 1, 'c': [2, 3]}, 'd': [map{'b': 4}, 5]}", "[map{'a': 1, 'd': 2}, map{'a': (3, 4)}]", "[[1, 2], [3, [4, 5]]]", "map{1: map{1: map{1: 'deep'}}}", "(map{'a': 1}, map{'a': 2, 'd': 3})", "map{'k': 'k', 3: 'three', 'a': 'A'}"];
    let path = ["?a", "?d", "?1", "?2", "?*", "?b", "?c", "?(@k)", "?('a')", "?('a', 'd')", "?(1, 2)", "('a')", "(1)", "[1]", "[?a = 1]", " ! ?a", "?(./@k)", "?(1 to 2)", "?(name())", "?(count(a))", "?(())", "?(a/@k ! 1)", "[1]?a"];
    if !crosses(sink, XML, "1", &["①②③", "(①②)③", "let $m := ① return $m②③", "count(①②③)", "a[1] ! ①②③"], &[&nest, &path, &path]) { return g; }
    if tier == Tier::Thorough && !crosses(sink, XML, "1", &["①②③④", "①②③④ ! ?a"], &[&nest, &path, &path, &path]) { return g; }
    if !crosses(sink, XML, "1", &["① ② ③", "(①) ② (③)"], &[&["map{1:2}", "[1]", "1", "a", "()", "map{}", "[]", "(map{1:2}, 1)"], &["?1 ,", "?* ,", "(1) ,", "?(1) +", "eq", "=", "||", "+", "|", "is", "to", "and", "instance of map(*) or"], &["map{1:2}", "[1]", "1", "a", "()"]]) { return g; }
    g.notes.push("6 nested structures x all chains of 2 (thorough: 3) of 23 accesses, keys taken from the outer focus".into());
    g
}

// ------------------------------------------------------------------- C22
fn gen_c22(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "types and casts", XML, "1", &["①"], &["1", "'1'", "1.5", "2e0", "()", "(1, 'a')", "a", "true()", "[1]", "map{1: 'a'}"], &["① instance of xs:integer", "① instance of item()+", "① instance of xs:string*", "① instance of node()?", "① instance of xs:decimal", "① instance of array(xs:integer)", "① instance of map(*)", "① instance of function(*)", "① cast as xs:string", "① cast as xs:integer?", "① cast as xs:double", "① cast as xs:boolean", "① cast as xs:decimal", "① castable as xs:integer", "① castable as xs:boolean?", "① castable as xs:double", "(①, ②)", "[①, ②]", "map{①: ②}", "① + ②", "if (①) then ② else 1", "function($x as xs:integer) as xs:numeric {$x + 1}(①)", "function($x as item()*) as xs:string? {$x}(①)"], tier.pick(4, 5), false) { return g; }

    let vals = ["1", "-1", "0", "1.5", "0.0", "1e0", "(0e0 div 0e0)", "(1 div 0e0)", "(-1 div 0e0)", "1.9", "-1.9", "-1.9e0", "1e19", "9223372036854775807", "'1'", "' 1 '", "'x'", "''", "'true'", "'false'", "'0'", "' true '", "'TRUE'", "'1.5'", "'1e2'", "'INF'", "'-INF'", "'NaN'", "'+1'", "true()", "false()", "a[1]", "a[2]", "b", "@k", "d", "(/)", ".", "a[1]/text()",
        "()", "(1, 2)", "('a', 'b')", "(1, 'a')", "//a", "(1, 1.5)", "map{}", "map{1: 'a'}", "map{'a': 1}", "map{'a': (1, 2), 'b': ()}", "[]", "[1]", "[1, 'a']", "[(1, 2), 3]", "[[1]]", "concat#2", "true#0", "function($x) {$x}", "function($x as xs:integer) as xs:string {'a'}", "concat(?, 'a')"];
    let casts = ["xs:string", "xs:double", "xs:decimal", "xs:integer", "xs:boolean", "xs:string?", "xs:double?", "xs:decimal?", "xs:integer?", "xs:boolean?", "string", "integer", "nosuch", "xs:nosuch?"];
    if !crosses(sink, XML, "1", &["① cast as ②", "① castable as ②", "(if (① castable as ②) then ① cast as ② else 'no')", "(① cast as ②) instance of ②"], &[&vals, &casts]) { return g; }
    if !crosses(sink, XML, "1", &["(① cast as ②) cast as ③", "(① cast as ②) castable as ③"], &[&vals[..45.min(vals.len())], &casts[..10], &casts[..10]]) { return g; }
    g.notes.push(format!("{} values x {} cast targets, chains of two casts", vals.len(), casts.len()));
    let al = ["1", "0", "-", ".", "e", " ", "+", "t"];
    let mut ss = vec![];
    let n = tier.pick(4, 5);
    seqs(&al, 0, n, &mut |q| { ss.push(format!("'{}'", q.concat())); true });
    let ss = refs!(ss).to_vec();
    if !crosses(sink, XML, "1", &["① cast as ②", "① castable as ②"], &[&ss, &casts[..5]]) { return g; }
    g.notes.push(format!("all strings of length 0..={} over 8 characters as cast sources", n));
    let all = corpus::values(10_000);
    let all = refs!(all).to_vec();
    if !crosses(sink, XML, "1", &["① cast as ②", "① castable as ②", "(① cast as ②) instance of ②", "for $x in ① return $x castable as ②"], &[&all, &casts]) { return g; }
    let five = &casts[..5];
    let wn = corpus::numbers();
    let wn = refs!(wn).to_vec();
    if !crosses(sink, XML, "1", &["(① cast as ②) cast as ③", "(① cast as ②) castable as ③", "(① cast as xs:string) cast as ② cast as ③", "①  cast as ② = ① cast as ③"], &[&wn, five, five]) { return g; }
    let sp = ["", " ", "\t", "\n", "\r", " \n ", "\u{a0}", "\u{3000}", "\u{2003}", "\u{85}", "\u{b}", "\u{feff}", "x", "+", "-", "0", "."];
    let lex = ["1", "0", "true", "false", "1.5", "1e2", "INF", "-INF", "NaN", "-1", "", "1 1", "9223372036854775807"];
    if !crosses(sink, XML, "1", &["'①②③' cast as ④", "'①②③' castable as ④"], &[&sp, &lex, &sp, five]) { return g; }
    // words that look like infinities or NaN
    let mut ws: Vec<String> = vec![];
    for w in ["INF", "inf", "Inf", "INf", "InF", "NaN", "nan", "NAN", "Nan", "Infinity", "infinity", "INFINITY", "INFI", "IN", "I", "F", "NaNN", "aNaN", "1e", "1E5", "e5", "1INF", "INF1", "1e999", "-1e999", "1e-999", ".5e1", "5.e1", "1e5f", "0x1", "1d", "1f", "infinit", "e", "E", "1e+", "1_0"] { for sg in ["", "+", "-", "--", "+-"] { for (b, e) in [("", ""), (" ", "\n"), ("", " x")] { ws.push(format!("'{}{}{}{}'", b, sg, w, e)); } } }
    let wr = refs!(ws).to_vec();
    if !crosses(sink, XML, "1", &["number(①)", "① cast as ②", "① castable as ②", "string(number(①))", "number(①) = number(①)"], &[&wr, five]) { return g; }
    for w in ws.iter() { let x = format!("<r a={0}><b>{1}</b></r>", w.replace('\'', "\""), w.replace('\'', ""));
        if !crosses(sink, &x, "1", &["number(b)", "b + 1", "@a + 0", "b * 2 = b * 2", "b > 1", "sum(b)", "b cast as xs:double", "@a castable as xs:double", "-@a", "max((b, 1))", "number() = 1", "round(b)", "abs(@a)"], &[]) { return g; } }
    g.notes.push(format!("{} words that look like numbers, infinities or NaN, as strings and as node contents", ws.len()));
    let nd: Vec<String> = all.iter().filter(|s| s.starts_with('\'') && !s.contains('&') && !s.contains('<') && s.len() < 40).map(|s| s[1..s.len() - 1].replace("''", "'")).filter(|s| !s.is_empty() && !s.contains('\r') && !s.contains('\u{ffff}')).collect();
    for v in nd.iter() { if v.contains('"') || v.contains('>') || v.trim().is_empty() { continue; } let x = format!("<r a=\"{}\"><b>{}</b></r>", v.replace(|c| c == '\n' || c == '\t', " "), v);
        if !crosses(sink, &x, "1", &["① cast as ②", "① castable as ②", "string(①)", "① + 0"], &[&["@a", "b", "b/text()", "."], five]) { return g; } }
    g.notes.push(format!("{} values of every kind x {} targets; {} numbers under chains of two casts; 17 prefixes and suffixes around 13 lexical forms; node contents", all.len(), casts.len(), wn.len()));
    let its = ["item()", "node()", "element()", "element(a)", "element(*, xs:untyped)", "element(a, xs:integer)", "attribute()", "attribute(k)", "attribute(k, xs:untypedAtomic)", "text()", "comment()", "processing-instruction()", "processing-instruction(p)", "xs:integer", "xs:decimal", "xs:double", "xs:numeric", "xs:string", "xs:boolean", "xs:anyAtomicType", "xs:anyURI", "xs:untypedAtomic", "map(*)", "map(xs:integer, xs:string)", "map(xs:string, item()*)", "map(xs:anyAtomicType, xs:integer)", "array(*)", "array(xs:integer)", "array(xs:integer+)", "array(array(*))", "function(*)"];
    let mut tys: Vec<String> = vec!["empty-sequence()".into()];
    for t in its.iter() { for o in ["", "?", "*", "+"].iter() { tys.push(format!("{}{}", t, o)); } }
    let tys = refs!(tys).to_vec();
    if !crosses(sink, XML, "1", &["① instance of ②", "① treat as ②", "(① treat as ②) instance of ②"], &[&vals, &tys]) { return g; }
    let small = corpus::values(tier.pick(300, 10_000));
    let small = refs!(small).to_vec();
    if !crosses(sink, XML, "1", &["① instance of ②", "count(① treat as ②)"], &[&small, &tys]) { return g; }
    let nx = "<r k=\"1\" xsi:nil=\"true\"><a k=\"2\">t</a><!--c--><?p i?><p:b/></r>";
    if !crosses(sink, nx, "*", &[". instance of ①", ". treat as ①", "(@* treat as ①)/..", "@* instance of ①", "node() instance of ①", "(., 1) instance of ①", ".. instance of ①"], &[&tys]) { return g; }
    g.notes.push(format!("{} values and every node of a document x {} sequence types", vals.len(), tys.len()));
    // a parenthesized item type is the item type it contains
    if !crosses(sink, XML, "1", &["① instance of (②)③", "count(① treat as ( ②)③)"], &[&vals, &its, &["", "?", "*", "+"]]) { return g; }
    if !crosses(sink, XML, "1", &["① instance of ((②))③", "① instance of (( ( ② ) ) )③", "function($x as (②)③) {count($x)}(①)", "function() as (②)③ {①}()", "(①, 1) instance of (②)③", "[①] instance of array((②)③)", "[①] instance of (array(②))③", "map{1: ①} instance of map(xs:integer, (②)③)", "function($x as ②③) {1} instance of function((②)③) as (xs:integer)", "function($x as (②)③) {1} instance of (function(②) as xs:integer)", "function() as (②)③ {1} instance of (function() as (②)③)"],
        &[&["()", "1", "'x'", "1.5", "a", "(1, 2)", "(a, 1)", "[]", "map{}", "count#1", "@k", "text()"], &its, &["", "?", "*", "+"]]) { return g; }
    if !crosses(sink, XML, "1", &["1 instance of ①", "1 treat as ①", "function($x as ①) {$x}(1)", "1 instance of ① and true()", "let $x as ① := 1 return $x"], &[&["(xs:integer)", "((xs:integer))", "(xs:integer)?", "(xs:integer?)", "(xs:integer*)*", "(xs:integer)*?", "()", "(empty-sequence())", "(empty-sequence())?", "(xs:integer", "xs:integer)", "(xs:integer))", "( xs:integer )", "(xs:integer, xs:string)", "(xs:integer | xs:string)", "(nosuch)", "(xs:nosuch)", "(1)", "('x')", "(item())", "(item()*)", "(integer)"]]) { return g; }
    g.notes.push(format!("every item type in parentheses, nested, with each occurrence, in every place of a sequence type ({} item types)", its.len()));
    // sequences of nodes of every kind
    let kinds = ["(/)", "r", "r/a", "r/@k", "r/a/text()", "r/comment()", "r/processing-instruction()", "r/p:b", "1", "'x'"];
    let n = tier.pick(2, 3);
    let mut ks = vec![];
    seqs(&kinds, 2, n, &mut |q| { ks.push(format!("({})", q.join(", "))); true });
    seqs(&kinds[..5], 3, n + 1, &mut |q| { ks.push(format!("({})", q.join(", "))); true });
    let kr = refs!(ks).to_vec();
    let nodal: Vec<&str> = tys.iter().copied().filter(|t| t.ends_with('*') || t.ends_with('+')).collect();
    if !cross(sink, nx, "0", "① instance of ②", &[&kr, &nodal]) { return g; }
    for k in crate::names::sizes(tier.pick(20, 70), tier.pick(130, 520)) { for j in places(k) { if k > 1 && j <= k {
        for (most, odd) in [("1", "'x'"), ("a", "1"), ("a", "@k"), ("@k", "a"), ("a", "."), ("'x'", "1"), ("1", "1.5"), ("1", "()"), ("1.5", "1")] {
            let e = format!("(for $i in 1 to {} return if ($i = {}) then {} else {})", k, j, odd, most.replace('a', "a[1]"));
            for ty in ["xs:integer*", "xs:string+", "element()*", "element(a)+", "node()+", "attribute()*", "item()+", "xs:decimal*", "xs:integer?"] { if !sink(&[XML, "1", &format!("{} instance of {}", e, ty)]) { return g; } }
            if !sink(&[XML, "1", &format!("count(function($p as {}) {{$p}}({}))", if most == "1" { "xs:integer*" } else { "element()*" }, e)]) { return g; }
        }
    } } }
    g.notes.push(format!("{} sequences of nodes of mixed kinds x {} types; one odd item at every place of note of sequences of up to 130 (thorough: 520)", ks.len(), nodal.len()));
    // function types and functions of many parameters
    let four = ["xs:integer", "xs:string", "element()", "item()*"];
    for n in 1..=tier.pick(6usize, 9) {
        let own: Vec<&str> = (0..n).map(|i| four[i % 4]).collect();
        for j in 0..n { for t in ["xs:integer", "xs:string", "element()", "item()*", "xs:decimal", "node()"] {
            let mut other = own.clone();
            other[j] = t;
            let ps: Vec<String> = own.iter().enumerate().map(|(i, t)| format!("$p{} as {}", i, t)).collect();
            let f = format!("function({}) as xs:integer {{1}}", ps.join(", "));
            for e in [format!("{} instance of function({}) as xs:integer", f, other.join(", ")), format!("function($f as function({}) as xs:integer) {{1}} instance of function(function({}) as xs:integer) as item()*", own.join(", "), other.join(", ")),
                format!("function($f as function({}) as xs:integer) {{1}}({})", other.join(", "), f)] { if !sink(&[XML, "1", &e]) { return g; } }
        } }
    }
    g.notes.push("function types of up to 6 (thorough: 9) parameters, one of which differs, directly and inside a function type".into());
    // function types: contravariant parameters, covariant results
    let p = ["xs:integer", "xs:decimal", "xs:numeric", "item()", "item()*", "xs:string?", "xs:integer+", "node()", "element()", "xs:anyAtomicType", "empty-sequence()", "map(*)", "array(xs:integer)", "function(*)", "function(xs:integer) as xs:string", "element(a)"];
    let p = &p[..tier.pick(12, 16)];
    if !crosses(sink, XML, "1", &["function($x as ①) as ② {()} instance of function(③) as ④"], &[p, &p[..8], p, &p[..8]]) { return g; }
    if !crosses(sink, XML, "1", &["function($x as ①) {$x} instance of function(②) as item()*", "function() as ① {()} instance of function() as ②", "function($x, $y as ①) {()} instance of function(item()*, ②) as item()*", "function($x as ①) {()} instance of function(②, ②) as item()*", "function($f as function(①) as item()*) {()} instance of function(function(②) as item()*) as item()*",
        "[function($x as ①) {()}] instance of array(function(②) as item()*)"], &[&["xs:integer", "xs:decimal", "xs:double", "xs:numeric", "item()", "item()*", "item()?", "item()+", "xs:string", "xs:string?", "xs:string*", "xs:string+", "node()", "element()", "element(a)", "attribute(k)", "text()", "xs:anyAtomicType", "xs:boolean", "empty-sequence()", "map(*)", "map(xs:integer, item()*)", "array(*)", "array(xs:integer)", "function(*)", "function(xs:integer) as xs:string", "function(item()) as item()"],
        &["xs:integer", "xs:decimal", "xs:double", "xs:numeric", "item()", "item()*", "item()?", "item()+", "xs:string", "xs:string?", "xs:string*", "xs:string+", "node()", "element()", "element(a)", "attribute(k)", "text()", "xs:anyAtomicType", "xs:boolean", "empty-sequence()", "map(*)", "map(xs:integer, item()*)", "array(*)", "array(xs:integer)", "function(*)", "function(xs:integer) as xs:string", "function(item()) as item()"]]) { return g; }
    g.notes.push("inline function types against function tests over all pairs of parameter and result types".into());
    let more = ["element(*)", "element(a, xs:untyped?)", "element(a, xs:untyped)", "element(b)", "element(*, xs:anyType?)", "attribute(*)", "attribute(*, xs:untypedAtomic)", "attribute(l)", "processing-instruction(q)", "processing-instruction('p')", "xs:error", "array(xs:integer?)", "map(xs:integer, xs:string?)", "function(xs:integer, xs:string) as xs:string", "function() as item()*", "function(xs:decimal) as xs:integer?", "xs:untyped", "xs:anyType", "xs:anySimpleType"];
    let mut full: Vec<String> = vec!["empty-sequence()".into()];
    for t in its.iter().chain(more.iter()) { for o in ["", "?", "*", "+"].iter() { full.push(if t.starts_with("function(") && !t.ends_with("(*)") && !t.ends_with("item()*") { format!("({}){}", t, o) } else if t.ends_with("item()*") { t.to_string() } else { format!("{}{}", t, o) }); } }
    full.dedup();
    let full = refs!(full).to_vec();
    if !crosses(sink, XML, "1", &["function($x as ①) {()} instance of function(②) as item()*", "function() as ① {()} instance of function() as ②"], &[&full, &full]) { return g; }
    let deep: Vec<&str> = full.iter().copied().step_by(tier.pick(3, 1)).collect();
    if !crosses(sink, XML, "1", &["function($f as function() as ①) {()} instance of function(function() as ②) as item()*", "function() as array(①) {[]} instance of function() as array(②)", "function() as map(xs:string, ①) {map{}} instance of function() as map(xs:anyAtomicType, ②)", "function($f as function(②) as item()*) {1}(function($x as ①) {()})"], &[&deep, &deep]) { return g; }
    g.notes.push(format!("subtyping of all pairs of {} sequence types (every item type, four occurrences), as parameters and results, and of every third inside other types", full.len()));
    // maps, arrays and functions against function tests
    let fv = ["[]", "map{}", "[()]", "[1]", "['a']", "[1, 'a']", "[(1, 2)]", "[a]", "[[]]", "[map{}]", "map{1: 1}", "map{'a': 1}", "map{1: 'a', 'b': 2}", "map{1: ()}", "map{1: (1, 2)}", "map{1: a}", "map{1: []}", "map{true(): 1}", "map{1.5: 1}", "array{}", "array{1, 2}", "true#0", "concat#2", "concat#3", "concat('a', ?)", "concat(?, ?)", "function() {1}", "function($x) {1}", "function($x as xs:integer) {1}", "function($x as xs:integer) as xs:integer {1}", "function($x as xs:string) as xs:string {'a'}", "function($x, $y) {1}",
        "1", "'a'", "()", "a", "([], [])", "(map{}, [])", "([1], map{1: 1})"];
    let ft = ["xs:integer", "xs:decimal", "xs:double", "xs:numeric", "xs:string", "xs:boolean", "xs:anyAtomicType", "item()", "item()?", "item()*", "item()+", "xs:integer?", "xs:integer*", "xs:integer+", "xs:string?", "xs:string*", "node()", "node()*", "element()", "attribute()", "empty-sequence()", "map(*)", "map(*)*", "array(*)", "array(*)?", "function(*)", "function(*)*", "xs:anyAtomicType?", "xs:anyAtomicType*"];
    let occ = ["", "?", "*", "+"];
    if !crosses(sink, XML, "1", &["① instance of function(②) as ③"], &[&fv, &ft, &ft]) { return g; }
    if !crosses(sink, XML, "1", &["① instance of (function(②) as item()*)③", "① instance of (function(xs:integer, ②) as item()*)③", "① instance of (function() as ②)③", "① instance of array(②)③", "① instance of map(xs:anyAtomicType, ②)③", "① instance of map(②, item()*)③", "[①] instance of array(function(②) as item()*)", "map{1: ①} instance of map(*)③"], &[&fv, &ft, &occ]) { return g; }
    if !crosses(sink, XML, "1", &["function($p as function(②) as item()*) {1}(①)", "function($p as array(②)) {1}(①)", "function($p as map(*)?) as ② {$p}(①)", "function($p) as ② {$p}(①)"], &[&fv, &ft]) { return g; }
    g.notes.push(format!("{} maps, arrays and functions x {} argument and result types of function tests, also as member, value and parameter types", fv.len(), ft.len()));
    // signatures of the built-in functions
    for (name, sig) in crate::rxp::types::SIGS.iter() {
        let probes = [sig.to_string(), "function(*)".to_string(), "function() as item()*".into(), "function(item()*) as item()*".into(), "function(item()) as item()*".into(), "function(node()) as item()*".into(), "function(xs:string) as item()*".into(), "function(xs:string, xs:string) as item()*".into(),
            "function(xs:integer) as item()*".into(), "function(xs:string?) as xs:string".into(), "function(item()*) as item()".into(), "function(item()*) as item()?".into(), "function(item()*) as item()+".into(), "function(xs:string) as xs:string".into(), "function(xs:double) as xs:numeric?".into(), "function(xs:double) as xs:double?".into(), "function(item()*, xs:integer) as item()*".into(), "function() as xs:string".into(), "function() as xs:integer".into(), "function(map(*)) as item()*".into(), "function(array(*)) as item()*".into()];
        for q in probes.iter() { if !sink(&[XML, "1", &format!("{} instance of {}", name, q)]) { return g; } }
    }
    g.notes.push(format!("{} built-in function signatures x 21 function tests", crate::rxp::types::SIGS.len()));
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["① instance of ②", "count(① treat as ②)", "function($x as ②) {count($x)}(①)"], &[&ol, &["xs:integer+", "xs:decimal*", "item()+", "node()*", "xs:integer", "xs:double*"]]) { return g; }
    g.notes.push(format!("{} sequences of 8..=257 items with an odd one at each of 4 places against 6 types", ol.len()));
    // one odd member or entry at every place of large arrays, maps and sequences
    let mut n_odd = 0u64;
    for k in [2usize, 3, 9, 17, 33, 65, 101, 129, 257, 300, 513] { if k > tier.pick(300, 513) { continue; }
        let at: Vec<usize> = if k <= tier.pick(101, 300) { (1..=k + 1).collect() } else { vec![1, 2, 3, 4, 63, 64, 65, 66, k / 2, k / 2 + 1, k - 2, k - 1, k, k + 1] };
        for j in at { for odd in ["'x'", "()", "(1, 2)", "1.5", "a[1]"] {
            if odd != "'x'" && j % tier.pick(7, 2) != 0 { continue; }
            let m = format!("(if ($i = {}) then {} else $i)", j, odd);
            let arr = format!("[{}]", (1..=k).map(|i| if i == j { odd.to_string() } else { i.to_string() }).collect::<Vec<_>>().join(", "));
            let map = format!("map{{{}}}", (1..=k).map(|i| if i == j { format!("{}: {}", i, odd) } else { format!("{}: {}", i, i + 1) }).collect::<Vec<_>>().join(", "));
            let key = format!("map{{{}}}", (1..=k).map(|i| if i == j { format!("{}: 1", if odd == "()" || odd == "(1, 2)" { "'y'" } else { odd }) } else { format!("{}: {}", i, i + 1) }).collect::<Vec<_>>().join(", "));
            let nest = format!("[[{}], {}]", 1, arr);
            let seq = format!("(for $i in 1 to {} return {})", k, m);
            for e in [format!("let $v := {} return ($v instance of array(xs:integer), $v instance of array(xs:integer*), $v instance of array(xs:decimal+), $v instance of array(item()?), count(array:flatten($v)))", arr),
                format!("let $v := {} return ($v instance of map(xs:integer, xs:integer), $v instance of map(*), $v instance of map(xs:integer, xs:anyAtomicType*), $v instance of function(xs:anyAtomicType) as xs:integer, map:size($v))", map),
                format!("let $v := {} return ($v instance of map(xs:integer, xs:integer), $v instance of map(xs:numeric, item()))", key),
                format!("let $v := {} return ($v instance of array(array(xs:integer)), $v instance of array(array(xs:integer?)+))", nest),
                format!("let $v := {} return ($v instance of xs:integer+, $v instance of xs:anyAtomicType*, count($v))", seq),
                format!("function($p as array(xs:integer)) {{array:size($p)}}({})", arr), format!("function($p as xs:integer*) {{sum($p)}}({})", seq), format!("count({} treat as xs:integer*)", seq), format!("function($p) as map(xs:integer, xs:integer) {{$p}}({})(1)", map)] { n_odd += 1; if !sink(&[XML, "1", &e]) { return g; } }
        } }
    }
    g.notes.push(format!("{} type tests of arrays, maps and sequences of up to 300 (thorough: 513) members of which one, at every place, is of another type", n_odd));
    g
}

// ------------------------------------------------------------------- C23
fn gen_c23(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "functions as values", XML, "1", &["①", "let $x := 5, $y := abs#1 return ①"], &["$x", "$y", "1", "(1, -2)", "abs#1", "concat(?, 'z')"], &["function($x) {①}", "function($y) {①}", "function() {①}", "①()", "count(①)", "①(②)", "①(②, 3)", "for-each(①, ②)", "filter(①, ②)", "let $x := ① return ②", "let $y := ① return ②", "for $x in ① return ②", "(①, ②)", "① ! ②", "concat(①, ?)(②)", "let $f := ① return ② => $f()"], tier.pick(5, 6), false) { return g; }

    let f1 = ["function($x) {$x}", "function($x) {$x + 1}", "function($x as xs:integer) {$x * 2}", "function($x as xs:string) {concat($x, '!')}", "function($x as xs:integer?) as xs:boolean {$x = 1}", "function($x) {($x, $x)}", "function($x) {()}", "function($x) {}", "string#1", "count#1", "abs#1", "not#1", "concat(?, 'z')", "concat('z', ?)", "concat(?, 'm', 'n')", "substring('abcdef', ?, 2)", "substring(?, 2)",
        "map{1: 'one', 'a': 'A'}", "['p', 'q']", "function($x) {function($y) {($x, $y)}}", "function($x) {$x = 1}", "boolean#1", "exists#1", "function($x) {$y}", "function($y) {$y[1]}", "fn:string-length#1", "map:size#1", "head#1", "function($x as node()) {name($x)}", "function($x) {$f}", "index-of((1, 2, 1), ?)", "function($x) {1 div 0}"];
    let bad = ["1", "'x'", "()", "a", "(abs#1, abs#1)", "function() {5}", "function($x, $y) {$x}", "concat#2", "true#0", "concat(?, ?)", "map{}", "[]"];
    let f: Vec<&str> = f1.iter().chain(bad.iter()).copied().collect();
    let args = ["1", "2", "'a'", "'abc'", "()", "(1, 2)", "a", "a[1]", "true()", "1.5", "map{1: 2}", "[1]", "3e0", "(3, 'a')", "(1 to 3)"];
    let ways = ["(①)(②)", "let $f := ① return $f(②)", "for-each(②, ①)", "filter(②, ①)", "let $f := ① return ② => $f()", "count(for-each(②, ①))", "let $f := ① return for $v in ② return $f($v)", "② ! (①)(.)", "let $f := ①, $x := 77, $y := 88 return $f(②)", "map{'f': ①}?f(②)", "[①](1)(②)", "(let $y := 5 return ①)(②)", "for-each((②, ②), ①)[2]"];
    if !crosses(sink, XML, "1", &ways, &[&f, &args]) { return g; }
    g.notes.push(format!("{} function values x {} ways of calling x {} arguments", f.len(), ways.len(), args.len()));
    // functions that look at the focus, called where they are made
    let foc = ["name#0", "local-name#0", "namespace-uri#0", "string#0", "data#0", "number#0", "position#0", "last#0", "root#0", "string-length#0", "normalize-space#0", "nilled#0", "lang#1", "lang(?)", "root#1", "true#0", "name#1"];
    let call = ["①()", "①('en')", "①(.)", "let $f := ① return $f()", "let $f := ① return $f('en')", "(①)()", "[①](1)()", "map{'f': ①}?f()", "[①]?1('en')", "(//* ! ①())", "//node() ! (①)()", "//@* ! ①()", "(//node(), //@*) ! (let $f := ① return $f())", "(//node(), //@*) ! (①('en'), ①(..))", "//*[①()]", "//node()[(①)()]", "//node()[①() = 2]", "//*[①() = 'a']", "('a', 'bb', 7, true()) ! ①()", "('a', 'bb', 7)[①() = 2]", "'en' ! (., ①(.))", "some $x in //a satisfies ①()", "for $x in //a return ①()", "if (①()) then 1 else 2", "//a/①()", "//a/(let $f := ① return $f())", "(1 to 3) ! (let $f := ① return $f())", "'en' => (①)()", "for-each(('en', 'fr'), ①)", "filter(('en', 'fr'), ①)", "//a ! for-each(('en', 'fr'), ①)", "//node() ! filter(., ①)", "(1 to 4)[let $f := ① return $f() = (2, 3)]", "//a[2]/①()", "//b/..[①() = 1]/@k"];
    for x in [XML, "<r xml:lang=\"en\" k=\"a b\"><a xmlns=\"u\" p:k=\" x  y \">1</a> t <p:a xmlns:p=\"v\"><b xsi:nil=\"true\"/></p:a><!--c--><?p i?></r>"] {
        if !crosses(sink, x, "*", &call, &[&foc]) { return g; }
    }
    g.notes.push(format!("{} references to functions that look at the focus x {} ways of calling them where they are made, at every node of 2 documents", foc.len(), call.len()));
    let f2 = ["function($x, $y) {($x, $y)}", "function($x as xs:integer, $y as xs:string?) {concat($x, $y)}", "concat#2", "concat#3", "concat(?, ?)", "concat(?, 'm', ?)", "contains#2", "function($x, $x2) {$x2}", "substring(?, ?)", "substring(?, ?, 2)", "subsequence#2", "remove#2", "string-join#2", "string-join(?, ?)", "function($a, $b) {$a + $b}", "index-of#2", "insert-before(?, 1, ?)", "for-each#2", "filter#2", "for-each(?, ?)", "compare#2", "array:get#2", "map:get#2", "abs#1", "map{1:2}", "true#0"];
    let a2 = ["1", "2", "'a'", "'abc'", "()", "(1, 2)", "a", "abs#1", "map{1: 2}", "[1, 2]"];
    if !crosses(sink, XML, "1", &["(①)(②, ③)", "let $f := ① return $f(②, ③)", "let $f := ① return ② => $f(③)", "function($g) {$g(②, ③)}(①)"], &[&f2, &a2, &a2]) { return g; }
    if !crosses(sink, XML, "1", &["(①)()", "(①)(②)", "(①)(②, ②, ②)", "let $f := ① return ② => $f()"], &[&f2, &a2]) { return g; }
    g.notes.push(format!("{} two-place functions x all pairs of {} arguments, and wrong arities", f2.len(), a2.len()));
    // scope: captured, shadowed, returned
    let cap = ["let $y := 1 return let $f := function($x) {$x + $y} return ①", "let $y := 1, $f := function($x) {$x + $y}, $y := 10 return ①", "for $y in (1, 2) return let $f := function($x) {($x, $y)} return ①", "let $f := (let $y := 3 return function($x) {$x + $y}) return ①", "let $mk := function($y) {function($x) {($x, $y)}}, $f := $mk(7) return ①",
        "let $x := 5, $f := function($x) {$x} return ①", "let $f := function($x) {let $x := $x + 1 return $x} return ①", "let $y := 2, $f := concat(?, $y), $y := 3 return ①", "let $f := function($x) {$x} return let $f := function($x) {$f($x) + 1} return ①", "let $y := 4, $f := function($x) {for $y in (1, 2) return $x + $y} return ①", "for $f in (abs#1, function($x) {$x}) return ①",
        "let $f := function($g) {$g(1)} return $f(function($x) {①})", "let $y := 1, $m := map{'a': function($x) {$x + $y}}, $y := 50, $f := $m?a return ①", "let $a := 2, $g := function($x) {$x * $a}, $f := function($x) {$g($x) + 1}, $a := 9 return ①", "let $x := 2, $f := function() {$x}, $g := function($x) {$f()} return ($g(5), ①)", "some $y in (1, 2) satisfies (let $f := function($x) {$y = 2} return ①)"];
    let uses = ["$f(1)", "$f(1), $y", "($f(1), $f(2))", "for $x in (1, 2) return $f($x)", "for-each((1, 2), $f)", "let $y := 100 return $f(1)", "let $x := 100 return ($f(1), $x)", "(1, 2) ! $f(.)", "1 => $f()", "function($q) {$f($q)}(1)", "for $y in (20, 30) return $f(1)", "$f", "count($f)", "$x", "function($y) {$f(1)}(500)", "filter((1, 2), function($x) {$f($x) = 2})", "for-each((1, 2), function($y) {$f($y)})", "($f(1), let $y := 3 return $f($y))"];
    if !crosses(sink, XML, "1", &cap, &[&uses]) { return g; }
    if !crosses(sink, XML, "1", &["①", "(①, $x)", "let $x := 'outer' return (①)", "let $x := 'outer' return (①, $x)", "let $y := 'outer' return (①, $y)", "for $x in (8, 9) return (①)", "function($x) {①}(6)"], &[&["for-each((1, 2), function($x) {$x})", "filter((1, 2), function($x) {$x = 2})", "function($x) {$x}(3)", "function($x) {for $x in (1, 2) return $x}(3)", "for $x in (1, 2) return function($y) {($x, $y)}(4)", "let $f := function($x, $y) {$x} return $f(1, 2)", "function($x, $y) {$y}(1, 2)", "function($x) {function($x) {$x}(2)}(1)", "function($y) {function($x) {$y}(2)}(1)", "let $f := function() {$x} return $f()", "concat(?, 'q')('p')", "function($x as xs:integer) {$x}('s')", "function($x) {let $y := $x return $y}(1)"]]) { return g; }
    g.notes.push(format!("{} captures x {} uses: lexical scope", cap.len(), uses.len()));
    // composition
    let h = ["function($x) {$x + 1}", "function($x) {$x * 3}", "function($x) {-$x}", "abs#1", "function($x) {($x, 0)[1]}", "function($x) {if ($x > 2) then $x else 9}"];
    let pr = ["function($x) {$x > 2}", "function($x) {$x mod 2 = 0}", "not#1", "boolean#1", "function($x) {true()}"];
    let src = ["(1 to 5)", "()", "3", "(2, -2, 0)", "//@k ! 4"];
    if !crosses(sink, XML, "1", &["for-each(for-each(①, ②), ③)", "for-each(①, function($v) {(③)((②)($v))})", "① ! (②)(.) ! (③)(.)", "let $f := ②, $g := ③ return for $i in ① return $g($f($i))"], &[&src, &h, &h]) { return g; }
    if !crosses(sink, XML, "1", &["filter(for-each(①, ②), ③)", "for-each(filter(①, ③), ②)", "sum(filter(for-each(①, ②), ③))", "let $p := ③ return for-each(①, ②)[$p(.)]", "count(filter(①, ③)) + count(filter(①, function($v) {not((③)($v))}))"], &[&src, &h, &pr]) { return g; }
    if tier == Tier::Thorough && !crosses(sink, XML, "1", &["for-each(for-each(for-each(①, ②), ③), ④)", "for-each(filter(for-each(①, ②), ⑤), ④)"], &[&src, &h, &h, &h, &pr]) { return g; }
    // the focus inside the arguments of every kind of call
    let fx = "<r k=\"3\"><a k=\"1\" n=\"q\">5<c/></a><a k=\"2\">x</a><b> 7 <d>8</d></b></r>";
    let fa = [".", "position()", "last()", "name()", "string()", "@k", "'z'", "string(..)", "count(*)", "(a, 'n')[last()]", "name(.)", "string(@k)"];
    let ctx = ["a ! (①)", "(4, 5, 6) ! (①)", "//*/(①)", "*[2]/(①)", "(1 to 3)[(①) = .]", "for $v in * return $v/(①)", "a[string(①) != ''] ! name()"];
    let calls3 = ["concat(①, ②, ③)", "concat#3(①, ②, ③)", "(let $f := concat#3 return $f(①, ②, ③))", "① => concat(②, ③)", "concat(?, ②, ?)(①, ③)", "concat(①, ?, ②)(③)", "function($x, $y, $z) {concat($x, '-', $y, '-', $z)}(①, ②, ③)", "map{'f': concat#3}?f(①, ②, ③)", "[concat#3](1)(①, ②, ③)", "(let $f := function($x, $y, $z) {concat($z, $y, $x)} return ① => $f(②, ③))", "string-join(for-each((①, ②), concat(?, ③)), ',')", "(concat(?, ?, ?)(①, ?, ②))(③)"];
    for c in ctx.iter() {
        let t: Vec<String> = calls3.iter().map(|x| c.replace('①', &format!("string(({}))", x))).collect();
        let m = tier.pick(7, 12);
        if !crosses(sink, fx, "1", &refs!(t), &[&fa[..m], &fa[..m], &fa[..m]]) { return g; }
    }
    for n in 2..=tier.pick(6usize, 9) { for i in 0..n { for f in fa.iter() {
        let args: Vec<String> = (0..n).map(|j| if j == i { format!("string({})", f) } else { format!("'{}'", j) }).collect();
        let ps: Vec<String> = (0..n).map(|j| format!("$p{}", j)).collect();
        let holes: Vec<String> = (0..n).map(|j| if j == i { format!("string({})", f) } else { "?".into() }).collect();
        let rest: Vec<String> = (0..n).filter(|&j| j != i).map(|j| format!("'{}'", j)).collect();
        for e in [format!("concat({})", args.join(", ")), format!("concat#{}({})", n, args.join(", ")), format!("let $f := concat#{} return $f({})", n, args.join(", ")), format!("{} => concat({})", args[0], args[1..].join(", ")), format!("let $f := concat#{} return {} => $f({})", n, args[0], args[1..].join(", ")),
            format!("function({}) {{concat({})}}({})", ps.join(", "), ps.join(", "), args.join(", ")), format!("concat({})({})", holes.join(", "), rest.join(", ")), format!("map{{'f': concat#{}}}?f({})", n, args.join(", ")), format!("let $g := [concat#{}] return $g?1({})", n, args.join(", "))] {
            for c in ["(4, 5, 6) ! (①)", "*/(①)", "a ! (①)", "*[2] ! (①)", "for $q in (1, 2) return a ! (①)"] { if !sink(&[fx, "1", &c.replace('①', &e)]) { return g; } }
        }
    } } }
    let body = [".", "position()", "last()", "name()", "@k", "a", "..", "$x", "/", "string()", "(., $x)", "count(*)", "*[1]"];
    if !crosses(sink, fx, "1", &["function($x) {①}(②)", "let $f := function($x) {①} return $f(②)", "let $f := function($x) {①} return a ! $f(②)", "a ! function($x) {①}(②)", "for-each(②, function($x) {①})", "a ! for-each(②, function($x) {①})", "filter(②, function($x) {exists(①)})", "let $f := function() {①} return $f()", "a ! (let $f := function() {①} return $f())", "(1, 2) ! function($x) {①}(②)", "② => (function($x) {①})()", "*/(let $f := function($x) {①} return $f(②))", "let $f := a[1]/(function($x) {①}) return $f(②)", "let $f := (5 ! (function($x) {①})) return b/$f(②)"], &[&body, &["1", ".", "a", "@k", "position()", "()", "(1, 2)", "*"]]) { return g; }
    g.notes.push(format!("the focus: {} kinds of call x all triples of focus-dependent arguments x {} surroundings; calls of 2 to 6 (thorough: 9) arguments, each argument in turn depending on the focus; focus-dependent bodies", calls3.len(), ctx.len()));
    // every built-in function as a reference, called with every number of arguments
    let names: Vec<&str> = crate::props::xpmore::FNS.iter().map(|x| x.0).collect();
    let vals = ["1", "'a'", "()", "(1, 2)", "a", "true()", "map{1: 2}", "[1]", "'x y'", "2.5", "abs#1", "@k", "3e0"];
    let lists: Vec<String> = { let mut v = vec![]; seqs(&vals[..tier.pick(8, 13)], 0, 2, &mut |q| { v.push(q.join(", ")); true }); seqs(&vals[..tier.pick(4, 6)], 3, 4, &mut |q| { v.push(q.join(", ")); true }); v };
    let lists = refs!(lists).to_vec();
    let ar = ["0", "1", "2", "3", "4"];
    if !crosses(sink, XML, "1", &["①#②(③)", "let $f := ①#② return $f(③)"], &[&names, &ar, &lists]) { return g; }
    if !crosses(sink, XML, "1", &["①(③)"], &[&names, &ar[..1], &lists]) { return g; }
    g.notes.push(format!("{} named references of arity 0 to 4 x {} argument lists of length 0 to 4", names.len(), lists.len()));
    // partial application: every pattern of placeholders
    for n in 1..=tier.pick(5usize, 6) { for mask in 0..(1usize << n) {
        let args: Vec<String> = (0..n).map(|i| if mask >> i & 1 == 1 { "?".into() } else { format!("'{}'", (b'a' + i as u8) as char) }).collect();
        for m in 0..=n + 1 {
            let given: Vec<String> = (0..m).map(|i| format!("'{}'", (b'P' + i as u8) as char)).collect();
            for t in ["concat(①)(②)", "let $f := concat(①) return $f(②)", "let $f := concat(①) return ($f(②), $f(②))", "concat(①)(②) instance of xs:string", "function($g) {$g(②)}(concat(①))"] {
                if !sink(&[XML, "1", &t.replace("①", &args.join(", ")).replace("②", &given.join(", "))]) { return g; }
            }
        }
    } }
    for (f, args) in [("substring", ["'abcdef'", "2", "3"]), ("translate", ["'abcabc'", "'ab'", "'xy'"]), ("insert-before", ["(1, 2, 3)", "2", "('p', 'q')"]), ("subsequence", ["(5 to 15)", "3", "4"]), ("string-join", ["('a', 'b')", "'-'", ""]), ("contains", ["'abc'", "'b'", ""]), ("starts-with", ["'abc'", "'a'", ""]), ("ends-with", ["'abc'", "'c'", ""]), ("substring-before", ["'abc'", "'b'", ""]), ("substring-after", ["'abc'", "'b'", ""]), ("compare", ["'a'", "'b'", ""]), ("remove", ["(1, 2, 3)", "2", ""]), ("index-of", ["(1, 2, 1)", "1", ""]), ("for-each", ["(1, 4)", "abs#1", ""]), ("filter", ["(true(), false())", "not#1", ""]), ("map:get", ["map{'a': 1}", "'a'", ""]), ("map:contains", ["map{'a': 1}", "'b'", ""]), ("array:get", ["[7, 8]", "2", ""]), ("sum", ["()", "5", ""]), ("lang", ["'en'", ".", ""]), ("codepoint-equal", ["'a'", "'a'", ""]), ("string-length", ["'abc'", "", ""]), ("abs", ["-3", "", ""]), ("not", ["1", "", ""]), ("count", ["(1, 2)", "", ""]), ("head", ["(1, 2)", "", ""]), ("reverse", ["(1, 2)", "", ""])].iter() {
        let k = args.iter().filter(|a| !a.is_empty()).count();
        for mask in 0..(1usize << k) {
            let fixed: Vec<&str> = (0..k).map(|i| if mask >> i & 1 == 1 { "?" } else { args[i] }).collect();
            let rest: Vec<&str> = (0..k).filter(|i| mask >> i & 1 == 1).map(|i| args[i]).collect();
            let mut calls: Vec<String> = vec![rest.join(", "), "".into(), "1".into(), "1, 2".into(), "1, 2, 3".into()];
            calls.push(rest.iter().rev().copied().collect::<Vec<_>>().join(", "));
            for c in calls { for t in ["①(②)(③)", "let $f := ①(②) return ($f(③), 'end')", "for $i in (1, 2) return ①(②)(③)", "①(②)(③) = ①(④)"] {
                if !sink(&[XML, "1", &t.replace("①", f).replace("②", &fixed.join(", ")).replace("③", &c).replace("④", &args[..k].join(", "))]) { return g; }
            } }
        }
    }
    g.notes.push("every placeholder pattern of up to 5 (thorough: 6) arguments of concat with every number of arguments given; every placeholder pattern of 27 other functions".into());
    // parameters: names, order, number, types
    for n in 0..=tier.pick(6usize, 9) {
        let ps: Vec<String> = (0..n).map(|i| format!("$p{}", i)).collect();
        for m in n.saturating_sub(1)..=n + 1 {
            let given: Vec<String> = (0..m).map(|i| format!("{}", 10 + i)).collect();
            for i in 0..=n { for t in ["function(①) {③}(②)", "let $f := function(①) {③} return $f(②)", "let $p0 := 'o', $p1 := 'u' return (function(①) {③}(②), $p0, $p1)", "map{'f': function(①) {③}}?f(②)", "function(①) {(③, for $p0 in (1, 2) return ③)}(②)"] {
                let body = if i == n { format!("({})", ps.join(", ")) } else { ps[i].clone() };
                if !sink(&[XML, "1", &t.replace("①", &ps.join(", ")).replace("②", &given.join(", ")).replace("③", &body)]) { return g; }
            } }
        }
    }
    let four = [("xs:integer", "1"), ("xs:string", "'a'"), ("element()", "a[1]"), ("xs:boolean", "true()"), ("map(*)", "map{}")];
    for n in 1..=tier.pick(7usize, 12) { for rot in 0..four.len() { for j in 0..n { for w in ["1", "'a'", "a[1]", "true()", "map{}", "()", "(1, 2)", "2.5"] {
        let ps: Vec<String> = (0..n).map(|i| format!("$p{} as {}", i, four[(i + rot) % 5].0)).collect();
        let some: Vec<String> = (0..n).map(|i| if i == j { format!("$p{} as {}", i, four[(i + rot) % 5].0) } else { format!("$p{}", i) }).collect();
        let given: Vec<&str> = (0..n).map(|i| if i == j { w } else { four[(i + rot) % 5].1 }).collect();
        for (p, t) in [(&ps, "function(①) {②}(③)"), (&some, "function(①) {②}(③)"), (&ps, "let $f := function(①) {②} return $f(③)")] {
            if !sink(&[XML, "1", &t.replace('①', &p.join(", ")).replace('②', &format!("$p{}", j)).replace('③', &given.join(", "))]) { return g; }
        }
    } } } }
    g.notes.push("parameters of different types, up to 7 (thorough: 12), one of them given 8 kinds of argument".into());
    let pt = ["xs:integer", "xs:decimal", "xs:double", "xs:string", "xs:boolean", "xs:numeric", "xs:anyAtomicType", "item()", "item()*", "item()+", "item()?", "node()", "element()", "element(a)", "attribute()", "text()", "map(*)", "array(*)", "function(*)", "xs:integer*", "xs:string+", "xs:integer?", "empty-sequence()", "map(xs:string, xs:integer)", "array(xs:integer)", "function(item()) as item()*"];
    let pv = corpus::values(tier.pick(90, 250));
    let pv = refs!(pv).to_vec();
    if !crosses(sink, XML, "1", &["function($x as ①) {count($x)}(②)", "let $f := function($y, $x as ①) {count($x)} return $f(1, ②)", "function($x as ①) as item()* {$x}(②)", "for-each(②, function($x as ①) {'ok'})"], &[&pt, &pv]) { return g; }
    g.notes.push(format!("inline functions of 0 to 6 (thorough: 9) parameters, called with one fewer, equal and one more arguments; {} parameter types x {} values", pt.len(), pv.len()));
    if !crosses(sink, XML, "1", &["count(①#②)", "①#② instance of function(*)", "for-each(1, ①#②)", "let $f := ①#② return 1"], &[&names, &["0", "1", "2", "3", "4", "5", "10"]]) { return g; }
    if !crosses(sink, XML, "1", &["count(①②#③)", "count(②①#③)"], &[&names, &["x", "s", "-", "A", "fn:", "map:", "1", "."], &["0", "1", "2"]]) { return g; }
    let refs = ["count#1", "count#2", "concat#0", "concat#1", "concat#7", "nosuch#1", "fn:abs#1", "fn:abs#2", "map:get#2", "array:size#1", "math:pi#0", "abs#", "abs#-1", "abs#99999999999999999999", "name#0", "string#0"];
    if !crosses(sink, XML, "1", &["①", "count(①)", "let $f := ① return 1", "① instance of function(*)"], &[&refs]) { return g; }
    g.notes.push("for-each and filter compositions; named references".into());
    for d in corpus::ALIKE {
        if !crosses(sink, d, "1", &["let $r := . return for-each(①, function($x) {②})", "let $r := . return filter(①, function($x) {exists(②)})", "let $r := . return (①) ! (function($x) {②}(.))", "let $r := ., $m := map{1: function($x) {②}} return for-each(①, $m(1))", "let $r := . return for $x in ① return (function() {②})()"], &[&corpus::ALIKE_SEQ, &corpus::ALIKE_BODY]) { return g; }
    }
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["for-each(①, function($x) {count($x)})", "count(filter(①, function($x) {$x instance of xs:integer}))", "filter(①, function($x) {not($x instance of xs:integer)})", "for-each(①, function($x) {if ($x instance of xs:integer) then () else $x})", "function($x) {count($x)}(①)"], &[&ol]) { return g; }
    g.notes.push(format!("functions over 13 lists of nodes that look alike x 21 bodies, in 2 documents; over {} sequences of 8..=257 items with an odd one at each of 4 places", ol.len()));
    g
}

// ------------------------------------------------------------------- C26
fn gen_c26(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "values of every kind", XML, "1", &["①"], &["1", "-0e0", "1.50", "1e21", "'a\"b'", "()", "a", "@k", "true()", "0.1e0", "(1 div 0e0)"], &["[①]", "array{①}", "map{'k': ①}", "string(①)", "reverse(①)", "(①, ②)", "[①, ②]", "map{1: ①, 'b': ②}", "concat(①, ②)"], tier.pick(5, 5), false) { return g; }

    let items = ["1", "-1", "0", "9223372036854775807", "1.5", "2.0", "-0.5", "100.0", "0.1", "1e0", "-1.5e0", "0e0", "-0e0", "1e21", "1e-7", "1.7976931348623157e308", "5e-324", "123456.789e0", "(0e0 div 0e0)", "(1 div 0e0)", "(-1 div 0e0)", "'a'", "''", "'a\"b'", "'a, b'", "'(1)'", "true()", "false()", "a[1]", "@k", "a[1]/text()", "/", "()", "(1, 2)", "map{}", "[]", "map{'Su': 'Sunday', 1: (1, 2)}", "[1, 'a', (2.0, 3e0), ()]", "b", "c", "1000000", "1.0", "0.000001", "12345678901234567.0", "1e15", "1e16", "1e17"];
    let wrap = ["①", "[①]", "map{'k': ①}", "(①, 1)", "('x', ①)", "[①, ①]", "[[①]]", "map{1: [①], 'b': (①, ①)}", "string(①)", "concat(①, '|')", "array{①}", "string-join((①, 'z'), ',')", "① ! [.]", "-①", "① || ''", "[(①, ①)]"];
    if !crosses(sink, XML, "1", &wrap, &[&items]) { return g; }
    if !crosses(sink, XML, "1", &["(①, ②)", "[①, ②]", "map{'a': ①, 'b': ②}", "([①], ②)", "[map{1: ①}, ②]"], &[&items, &items]) { return g; }
    let few: Vec<&str> = items.iter().step_by(tier.pick(2, 1)).copied().collect();
    if !crosses(sink, XML, "1", &["(①, ②, ③)", "[①, (②, ③)]"], &[&few, &few, &few]) { return g; }
    g.notes.push(format!("{} values under {} wrappings, all pairs under 5, all triples of {} under 2", items.len(), wrap.len(), few.len()));
    let all = corpus::values(10_000);
    let all = refs!(all).to_vec();
    if !crosses(sink, XML, "1", &wrap, &[&all]) { return g; }
    let any = corpus::values(tier.pick(170, 400));
    let any = refs!(any).to_vec();
    if !crosses(sink, XML, "1", &["(①, ②)", "[①, ②]", "map{'a': ①, 'b': ②}", "([①], ②)", "[map{1: ①}, ②]", "concat(①, ②)", "string-join((①, ②), '|')", "① || ②", "[[①, [②]]]", "map{①: ②}"], &[&any, &any]) { return g; }
    let mut deep: Vec<String> = vec!["1".into(), "'a'".into(), "()".into(), "(1, 'b')".into(), "1.0".into(), "-0e0".into()];
    for _ in 0..tier.pick(2, 3) { let prev = deep.clone(); for x in &prev { deep.push(format!("[{}]", x)); deep.push(format!("map{{'k': {}}}", x)); deep.push(format!("[{}, ()]", x)); deep.push(format!("({}, [])", x)); deep.push(format!("map{{1: {}, 'z': map{{}}}}", x)); } }
    for x in deep.iter() { if !sink(&[XML, "1", x]) { return g; } }
    g.notes.push(format!("{} values of every kind under all wrappings, all pairs of {} under 10; {} nested maps and arrays", all.len(), any.len(), deep.len()));
    let n = tier.pick(300, 3000);
    for m in 1..n { for e in [-320i32, -10, -5, -1, 0, 1, 5, 10, 20, 22, 300].iter() {
        for f in ["①", "string(①)", "[①]"].iter() { if !sink(&[XML, "1", &f.replace("①", &format!("{}e{}", m, e))]) { return g; } }
    } }
    for m in 0..n { for d in ["", ".5", ".25", ".125", ".1", ".0", ".000"].iter() {
        if !sink(&[XML, "1", &format!("({}{}, -{}{})", m, d, m, d)]) { return g; }
    } }
    g.notes.push(format!("doubles m x 10^e for m in 1..{} and 11 exponents; decimals m.d", n));
    let nx = "<r xmlns:p=\"u\" k=\"1\" p:l=\"&quot;\"><a>t</a><p:b k=\"2\" m=\"3\"><c/></p:b><!--c--><?p i?></r>".replace("&quot;", "q");
    if !crosses(sink, &nx, "*", &[".", "(., .)", "[.]", "map{1: .}", "..", "@*", "node()", "//@*", "string(.)", "(//node(), 1)", "/"], &[&["x"]]) { return g; }
    let ol = corpus::odd_long();
    let ol = refs!(ol).to_vec();
    if !crosses(sink, XML, "1", &["①", "[①]", "map{1: ①}", "array{①}"], &[&ol]) { return g; }
    g.notes.push(format!("{} sequences of 8..=257 items with an odd one at each of 4 places, in 4 forms", ol.len()));
    g
}
