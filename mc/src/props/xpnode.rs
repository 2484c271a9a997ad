// Node-set properties: C10 axes and node tests, C11 predicates, C12 paths and
// set operators.
use crate::gen::*;
use crate::names::*;
use crate::props::tree::big_docs;
use crate::props::corpus;
use crate::props::xp::*;
use crate::rdom::*;
use crate::sup::*;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        XP::new("C10", "every tree up to the stated size x every node as context (attributes included) x every axis x every node test; result nodes compared by identity \
            and order with the reference axes. Non-trivial: a value was produced.", &[], gen_c10),
        XP::new("C11", "every tree shape up to the stated size x every node as context x every axis x node test x every one and every ordered pair of predicates; filters over \
            parenthesized expressions likewise. Non-trivial: a value was produced.", &[], gen_c11),
        XP::new("C12", "every path of up to the stated number of steps over the step alphabet, every pair of paths under every set operator, from every node of every chosen \
            tree. Non-trivial: a value was produced.", &[], gen_c12),
    ]
}

pub const AXES: [&str; 12] = ["child::", "descendant::", "descendant-or-self::", "self::", "attribute::", "parent::", "ancestor::", "ancestor-or-self::",
    "following::", "following-sibling::", "preceding::", "preceding-sibling::"];
const TESTS: [&str; 24] = ["node()", "*", "a", "p:a", "b", "p:*", "*:a", "*:k", "q:*", "k", "p:k", "text()", "comment()", "processing-instruction()", "processing-instruction(p)",
    "processing-instruction(\"p\")", "processing-instruction('q')", "element()", "element(*)", "element(a)", "element(p:a, xs:untyped)", "element(*, xs:string)",
    "attribute()", "attribute(k)"];
const TESTS2: [&str; 10] = ["attribute(*, xs:untypedAtomic)", "attribute(p:k)", "attribute(*)", "attribute(k, xs:integer)", "element(*, xs:anyType)", "element(*, xs:untyped?)", "element(a, xs:untyped)",
    "*:b", "nosuch", "attribute(*, xs:anyAtomicType)"];
const ABBR: [&str; 14] = ["a", "*", "p:a", "@k", "@*", "@p:k", "..", ".", "//a", "//*", ".//a", "..//@k", "/", "//node()"];

pub fn rich(lim: usize) -> Pal {
    let _ = lim;
    Pal {
        names: vec!["a", "p:a"],
        attrs: vec![vec![], vec![("k", "1"), ("p:k", "2")]],
        leaves: vec![(K::Text, "", "t"), (K::Comment, "", "c"), (K::Pi, "p", "i")],
    }
}
pub const BIG: [&str; 4] = [
    "<?xml version=\"1.0\"?><!--q--><r xmlns:p=\"u\" k=\"1\"><a k=\"2\" p:k=\"3\">x<b/>y</a><p:a><a/><!--c--><?p i?></p:a><a n=\"4\"/></r><?p z?>",
    "<r><a><b><a/><c/></b><b k=\"1\"/></a><c><a k=\"2\"><b/></a></c></r>",
    "<a k=\"1\"><a k=\"2\"><a k=\"3\"/>t</a><b><a k=\"4\">u<a k=\"5\"/></a></b></a>",
    "<r xsi:nil=\"false\"><a xsi:nil=\"true\"/><a xsi:nil=\"false\">1</a><b xsi:nil=\"true\" k=\"xsi:nil\"><a/></b></r>",
];

fn gen_c10(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "chains of axes", BIG[0], "*", &["①"], &["a", "node()", "@*", "..", "text()", "//p:a"], &["①/child::node()", "①/descendant::*", "①/descendant-or-self::node()", "①/self::a", "①/attribute::*", "①/parent::node()", "①/ancestor::*", "①/ancestor-or-self::node()", "①/following::node()", "①/following-sibling::*", "①/preceding::node()", "①/preceding-sibling::node()", "①/p:*", "①/*:k", "①/*:a", "①/element()", "①/..", "①/@*:k"], tier.pick(4, 5), false) { return g; }

    let n = tier.pick(3, 4);
    let pal = rich(0);
    let ok = docs(n, &pal, |d| {
        let x = d.xml(0);
        cross(sink, &x, "*", "①②", &[&AXES, &TESTS]) && cross(sink, &x, "*", "①②", &[&AXES[..], &TESTS2]) && cross(sink, &x, "*", "①", &[&ABBR])
    });
    if !ok { return g; }
    g.notes.push(format!("all trees of 1..={} nodes x all nodes x 12 axes x {} node tests, {} abbreviations", n, TESTS.len() + TESTS2.len(), ABBR.len()));
    let small = Pal { names: vec!["a"], attrs: vec![vec![], vec![("k", "1")]], leaves: vec![(K::Text, "", "t")] };
    let n = tier.pick(6, 7);
    let t = ["node()", "*", "a", "text()"];
    for k in n - 1..=n {
        for f in forests(k, &small) {
            if f.iter().filter(|x| x.k == K::El).count() != 1 || f.iter().any(|x| x.k == K::Text) { continue; }
            let x = doc_of(&f).xml(0);
            if !cross(sink, &x, "*", "①②", &[&AXES, &t[..tier.pick(1, 4)]]) { return g; }
        }
    }
    g.notes.push(format!("all trees of {}..={} nodes, one name, x 12 axes", n - 1, n));
    for x in BIG.iter() {
        if !(cross(sink, x, "*", "①②", &[&AXES, &TESTS]) && cross(sink, x, "*", "①②", &[&AXES[..], &TESTS2]) && cross(sink, x, "*", "①", &[&ABBR])
            && cross(sink, x, "*", "①②/③④", &[&AXES, &TESTS[..tier.pick(4, 24)], &AXES, &TESTS[..tier.pick(3, 8)]])) { return g; }
    }
    g.notes.push("4 larger documents, every two-step path over all pairs of axes".into());
    // names that look alike
    let names = ["a", "A", "ab", "ba", "b", "p:a", "p:ab", "P:a", "pq:a", "p:p", "a:a", "a:p", "xml:a", "xml:b", "q", "p", "pq", "a-b", "a.b", "a_b", "_", "_a", "\u{e9}", "\u{e9}a", "p:\u{e9}", "a1", "a12", "x", "xm:a", "xmlx:a", "k", "text", "node", "element", "item"];
    let attrs = ["xml:lang", "xml:a", "xmlns:p", "xmlns:q"];
    let mut el = String::from("<r>");
    for n in names.iter() { el += &format!("<{}/>", n); }
    let mut at = String::from("<r");
    for n in names.iter().chain(attrs.iter()) { at += &format!(" {}=\"{}\"", n, n.len()); }
    let mut pi = String::from("<r>");
    for n in names.iter().filter(|n| !n.contains(':')) { pi += &format!("<?{} v?>", n); }
    let docs3 = [el + "</r>", at + "/>", pi + "</r>"];
    let mut tests: Vec<String> = vec![];
    for n in names.iter().chain(attrs.iter()).chain(["nosuch", "p:nosuch", "q:a", "xmlns", "xml", "z", "B"].iter()) {
        let (pre, loc) = n.split_once(':').unwrap_or(("", n));
        tests.push(n.to_string());
        for q in [pre, loc] { if !q.is_empty() { tests.push(format!("{}:*", q)); tests.push(format!("*:{}", q)); tests.push(format!("p:{}", q)); tests.push(format!("xml:{}", q)); tests.push(format!("processing-instruction({})", q)); tests.push(format!("processing-instruction('{}')", q)); } }
        for t in ["element(①)", "attribute(①)", "element(①, xs:untyped)", "element(①, xs:string)", "attribute(①, xs:untypedAtomic)", "element(①, xs:anyType?)", "attribute(①, xs:anySimpleType)"] { tests.push(t.replace('①', n)); }
    }
    tests.extend(["processing-instruction('')", "processing-instruction('p q')", "processing-instruction(' p ')"].iter().map(|s| s.to_string()));
    tests.sort();
    tests.dedup();
    let tests: Vec<&str> = tests.iter().map(|s| s.as_str()).collect();
    for x in docs3.iter() {
        if !cross(sink, x, "1", "①②", &[&["child::", "attribute::", "descendant-or-self::", "", "@", "self::", ".//"], &tests]) { return g; }
        if !crosses(sink, x, "1", &["(child::node(), @*) ! (self::①)", "(child::node() | @*)[self::①]", "count(*[self::①] | @*[self::①])", "node()[. instance of ①]", "@*[. instance of ①]"], &[&tests]) { return g; }
        if !cross(sink, x, "*", "①②", &[&["self::", "parent::*/", "following-sibling::", "preceding-sibling::"], &tests[..]]) { return g; }
    }
    g.notes.push(format!("{} node tests over elements, attributes and processing instructions of {} names that share letters, prefixes or case", tests.len(), names.len() + attrs.len()));
    let near = near_pairs(tier.pick(16, 40), tier.pick(257, 1025));
    for (x, y) in near.iter() {
        let d = format!("<r {}=\"1\" {}=\"2\" p:{}=\"3\"><{}/><{} {}=\"4\"/><?{} v?><?{} w?><p:{}/><{}:a/><{}:a/></r>", x, y, x, x, y, x, x, y, y, x, y);
        if !crosses(sink, &d, "1", &["①", "②", "@①", "@②", "*:①", "*:②", "p:①", "p:②", "@*:①", "@p:①", "@p:②", "①:*", "②:*", "①:a", "②:a", "*[self::①]", "processing-instruction(①)", "processing-instruction('②')", "element(①)", "attribute(②)", ".//element(②)", "(* | @*)[name() = '①']", "node()/..//①", "①/@*", "②/@①", "②/@②", "*/following-sibling::②", "* instance of element(①)*"], &[&[x], &[y]]) { return g; }
    }
    g.notes.push(format!("{} pairs of names that differ in one place, in order, in case or in length, in documents that have both", near.len()));
    // contents of every kind: what a node holds does not matter to where it is
    let vals = ["", "x", " ", "  ", "   ", "    ", "\n", "\n  ", "\t\t\t", " \n \t ", "\u{a0}", "\u{3000}\u{3000}\u{3000}", "0", "1", "-1", "1.5", "true", "false", "a", "p:a", "node()", "*", "@k", "&amp;", "&lt;a/&gt;", "&#x9;&#xA;&#xD;", "'", "--x", "?", "]]", "xmlns", "xml", "\u{e9}", "\u{20000}", "NaN", "INF", "long long long long long long long long long long long long long long long long long", "            x", "x            ", "DocumentRoot", "text"];
    let mut n = 0;
    for v in vals.iter() { for w in vals[..tier.pick(12, vals.len())].iter() {
        let c = v.replace("--", "");
        let c = if c.ends_with('-') { "" } else { &c };
        let x = format!("<r k=\"{}\" l=\"{}\"><a>{}</a>{}<a k=\"{}\">{}<b/>{}</a><!--{}--><?p {}?></r>", v, w, v, w, w, w, v, c, if v.contains('?') { "q" } else { v.trim_start_matches([' ', '\t', '\n']) });
        n += 1;
        let t = ["node()", "*", "text()", "comment()", "processing-instruction()", "a", "attribute()"];
        if !cross(sink, &x, "*", "①②", &[&AXES, &t[..tier.pick(3, 7)]]) { return g; }
        if !crosses(sink, &x, "1", &["①", "count(①)", "string(①)", "(①)/.."], &[&["text()", "//text()", "node()", "//node()", "comment()", "@*", "//@*", "a/text()", "processing-instruction('p')", "processing-instruction()", "//*", "a[2]/node()", "text()[1]/following::node()", "a[2]/text()[last()]/preceding::node()", "(//text())[last()]/ancestor::node()", "//element()", "//@k/..", "//b/preceding-sibling::node()"]]) { return g; }
    } }
    g.notes.push(format!("{} documents: {} contents of texts, attributes, comments and processing instructions, in pairs", n, vals.len()));
    // every name character
    let step = tier.pick(97, 1);
    let mut chunk: Vec<char> = vec![];
    let mut all: Vec<char> = code_points(step).filter(|&c| c != ':' && xml_char(c) && char5(c)).collect();
    all.push('\0');
    for c in all {
        if c != '\0' { chunk.push(c); }
        if chunk.len() < 60 && c != '\0' { continue; }
        let mut x = String::from("<r>");
        for &c in &chunk { x += &format!("<a{}{}/>", c, if xml_start(c) { format!(" {}=\"1\"", c) } else { String::new() }); if xml_start(c) && start5(c) { x += &format!("<{}/>", c); } }
        x += "</r>";
        for &c in &chunk {
            if !sink(&[&x, "1", &format!("a{}", c)]) || !sink(&[&x, "1", &format!("*/@{}", c)]) || !sink(&[&x, "1", &format!("{}", c)]) || !sink(&[&x, "1", &format!("*:a{} | *:{}", c, c)]) { return g; }
        }
        chunk.clear();
    }
    g.notes.push("every character that may occur in names of both specifications, in element, attribute and wildcard tests".into());
    let big: Vec<String> = big_docs(tier).iter().map(|d| d.xml(0)).filter(|x| !x.contains('&')).collect();
    for x in big.iter() {
        let t = ["node()", "*", "a", "p:b", "text()", "x1", "comment()", "*[1]", "node()[last()]", "node()[9]"];
        if !cross(sink, x, "*", "①②", &[&AXES, &t[..tier.pick(if x.len() < 700 { 4 } else { 1 }, 10)]]) { return g; }
    }
    g.notes.push(format!("{} large documents (chains, fans, combs, attribute lists of up to 65, thorough 300, nodes) x all nodes x 12 axes", big.len()));
    g
}

const PREDS: [&str; 30] = ["1", "2", "last()", "position() = 2", "position() < last()", "position() mod 2 = 1", "last() - 1", "0", "-1", "1.0", "1.5", "2e0", "@k", "@k = '1'", "a", "a[1]",
    "..", "text()", "''", "'x'", "true()", "false()", "()", "self::a", "position()", "last() = 2", "count(*)", "number(@k)", "not(@k)", "position() >= 2 and position() != last()"];
const PREDS2: [&str; 8] = ["(1, 2)", "('a', 'b')", "following-sibling::*[1]", "preceding-sibling::*[1]/@k", ".//a[position() = last()]", "string-length(.)", ". = 't'", "map{}"];
const FILT: [&str; 8] = ["(ancestor-or-self::*)①", "(preceding::node())①", "(//a)①", "(//a, .)①", "(//*, //*)①", "reverse(//a)①", "//a①", "(//a/..)①"];

fn gen_c11(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "predicates", BIG[1], "1", &["①", "//*[①]", "(1, 'q')[①]"], &["*", "//a", "..", "@k", "1", "2", "position()", "last()", "."], &["①[②]", "①/②", "(① , ②)[1]", "① ! ②", "① = ②", "count(①)", "reverse(①)", "*[①]", "ancestor-or-self::*[①]"], tier.pick(5, 6), false) { return g; }

    let br: Vec<String> = PREDS.iter().chain(PREDS2.iter()).map(|p| format!("[{}]", p)).collect();
    let br: Vec<&str> = br.iter().map(|s| s.as_str()).collect();
    let none = [""];
    let tests = ["node()", "*", "a"];
    let small = Pal { names: vec!["a"], attrs: vec![vec![], vec![("k", "1")]], leaves: vec![(K::Text, "", "t")] };
    let n = tier.pick(4, 5);
    let ok = docs(n, &small, |d| {
        let x = d.xml(0);
        cross(sink, &x, "*", "①②③", &[&AXES, &tests, &br]) && (0..FILT.len()).all(|k| cross(sink, &x, "*", FILT[k], &[&br]))
    });
    if !ok { return g; }
    g.notes.push(format!("all trees of 1..={} nodes x all nodes x 12 axes x 3 node tests x {} predicates; {} filtered expressions", n, br.len(), FILT.len()));
    for x in BIG.iter() {
        let lim = tier.pick(2, 3);
        if !cross(sink, x, "*", "①②③④", &[&AXES, &tests[..lim], &br, &br]) { return g; }
        for f in FILT.iter() { if !cross(sink, x, "*", &f.replace('①', "①②"), &[&br, &br]) { return g; } }
        if !cross(sink, x, "*", "①*②/③*④", &[&AXES, &br[..tier.pick(3, 12)], &AXES, &br[..tier.pick(7, 20)]]) { return g; }
        if !cross(sink, x, "*", "//*[①*②]③", &[&AXES, &br[..tier.pick(8, 30)], &br]) { return g; }
    }
    g.notes.push("4 larger documents: all ordered pairs of predicates on every axis, on both steps of two-step paths, nested".into());
    let big: Vec<String> = big_docs(tier).iter().map(|d| d.xml(0)).filter(|x| !x.contains('&')).collect();
    let bp = ["[1]", "[2]", "[8]", "[9]", "[16]", "[17]", "[33]", "[64]", "[65]", "[last()]", "[last() - 1]", "[position() > 8]", "[position() = last()]", "[@k]", "[@n]", "[last() = 9]", "[last() > 32][2]", "[position() mod 2 = 0][3]", "[position() > 3][last()]", "[self::e][2]"];
    for x in big.iter() {
        let m = tier.pick(if x.len() < 500 { 20 } else { 6 }, 20);
        for ctx in ["1", "3", "6"] { if !cross(sink, x, ctx, "①node()②", &[&AXES, &bp[..]]) { return g; } }
        if !cross(sink, x, "*", "①*②", &[&["preceding::", "following::", "ancestor::", "preceding-sibling::"], &bp[..m]]) { return g; }
        if !crosses(sink, x, "1", &["(//*)①", "(//node())①", "//*①", "//node()①", "(//@*)①", "reverse(//node())①", "//*[1]①", "(//node() ! name())①", "//*[node()①]", "@*①"], &[&bp]) { return g; }
    }
    g.notes.push(format!("{} large documents x 20 predicates on the axes and on filters", big.len()));
    // any number of siblings, of levels, of attributes
    let ns = crate::names::sizes(tier.pick(40, 130), tier.pick(4097, 66000));
    let fan = ["a[Ｋ]", "a[position() = Ｋ]/@k", "a[last()]/@k", "count(a[position() <= Ｋ])", "(//a)[Ｋ]", "(a ! position())[Ｋ]", "(a ! last())[Ｋ]", "reverse(a)[Ｋ]", "a[last() - Ｋ]", "a[position() > last() - 1]", "a[@k = 'Ｋ']", "(a)[Ｋ]/@k", "a[Ｋ][1]", "a[position() != Ｋ][last()]", "*[position() = (1, Ｋ)]"];
    let fan2 = ["a[Ｎ]/preceding-sibling::a[Ｋ]", "a[1]/following-sibling::*[Ｋ]", "a[Ｋ]/preceding::*[1]", "a[Ｋ]/following::*[last()]", "a[Ｋ]/preceding-sibling::*[last()]", "count(a[Ｋ]/preceding-sibling::*)", "a[Ｋ]/following-sibling::*[1]", "a[Ｎ]/preceding::a[Ｋ]"];
    let deep = ["(//a)[Ｋ]/@k", "(//a)[last()]/ancestor::*[Ｋ]/@k", "//a[Ｋ]", "(//a)[last()]/ancestor-or-self::a[Ｋ]", "(//a)[Ｋ]/descendant::*[last()]/@k", "count((//a)[Ｋ]/ancestor::*)", "(//a)[last()]/ancestor::*[last()]", "descendant::a[Ｋ]", "descendant-or-self::*[Ｋ]"];
    let at = ["@*[Ｋ]", "@*[last()]", "(@*)[Ｋ]", "@*[position() > Ｋ][1]", "@k1[Ｋ]", "count(@*)", "(@* ! position())[Ｋ]"];
    for &n in &ns {
        let ok = cross_n(sink, &format!("!fan {}", n), n, &fan) && (n > 4100 || cross_n(sink, &format!("!fan {}", n), n, &fan2) && cross_n(sink, &format!("!alt {}", n), n, &fan[..8]))
            && (n > 520 || cross_n(sink, &format!("!chain {}", n), n, &deep)) && (n > 2100 || cross_n(sink, &format!("!attrs {}", n), n, &at));
        if !ok { return g; }
    }
    g.notes.push(format!("{} sizes from 0 to {}: {} positional expressions over that many siblings, {} over levels, {} over attributes, at every place of note", ns.len(), ns.last().unwrap(), fan.len() + fan2.len(), deep.len(), at.len()));
    // the focus before and after: position() and last() outside any step or predicate keep the value they have alone
    let inner = ["b[1]", "a[2]", "*[position() = 1]", "*[last()]", "a/b", "a/position()", "(1, 2)[1]", "(1 to 7)[last()]", "(1, 2, 3) ! .", "//a[1]", "count(*[2])", "for $x in a return $x[1]", "some $x in * satisfies $x[2]", "a[b[1]][1]", "nosuch[1]", "()[1]", "a[()]", "*[..[1]]", "//*[last() = 1]", "let $x := *[1] return $x", "function($v) {1}(*[1])", "for-each(*, function($v) {$v[1]})",
        "filter((1, 2, 3), function($v) {$v = 2})", "map{'a': *[1]}?a", "[*[1], 2](1)", "string-join(*[1], 'x')", "if (*[1]) then *[2] else 3", "* except *[1]", "a[1] | b[1]", "..", "/*[1]", "reverse(*)[1]", "(*[1])[1]", "a[position() < last()]/..", "1 + count(*)", "*[1] instance of node()", "(* ! (position(), last()))[2]"];
    let outer = ["(①, position(), last())", "(position(), last(), ①, position(), last())", "(①, ②, last())", "(①, (②, position()))", "let $x := (①) return last()", "for $x in (①) return (position(), last())", "(1, 2, 3) ! (count((①)), position(), last())", "*[count((①)) >= 0][last()]", "*[(count((①)), position())[2] = last()]", "//a[(count((①)), last())[2] = 1]", "*/(count((①)), position(), last())", "(10, 20, 30)[count((①)) >= 0 and position() = last()]", "some $x in (①) satisfies (position() = last())", "if (①) then (position(), last()) else last()", "(position() + count((①)), last())", "*/*[count((//*[1])) > 0 and position() = last()]", "[position(), count((①)), last()]", "map{'p': count((①)), 'q': (position(), last())}", "concat(count((①)), position(), last())", "(* ! (count((①)), ((1, 2) ! last()), last()))", "*[count((①)) >= 0]/(position(), last())"];
    for x in [BIG[1], BIG[0]] { for t in outer.iter() { if !cross(sink, x, tier.pick("1", "*"), t, &[&inner, &inner]) { return g; } } }
    g.notes.push(format!("{} expressions evaluated before or between position() and last() in {} surroundings", inner.len(), outer.len()));
    let atoms = ["(10, 20, 30)", "('a', 'b', 'c')", "(1 to 5)", "(3, 'x', true())", "()", "7", "(1, 2, 3)[. > 1]"];
    let ap = ["[1]", "[2]", "[last()]", "[position() > 1]", "[. = 20]", "[true()]", "[false()]", "[0]", "[last() - 1]", "[1.0]", "[2.5]", "['']", "['z']", "[position() = last()]", "[()]", "[.]", "[. > 1]",
        "[position() = (1, 3)]", "[-1]", "[4]", "[(1, 2)]", "[position() mod 2 = 0]", "[last() > 2]", "[3 - position()]", "[. instance of xs:integer]"];
    for t in ["①②③", "①②③④", "count(①②)③", "(①②, ①③)④", "①[②③]"] { let _ = none; if !cross(sink, BIG[1], "1", t, &[&atoms, &ap, &ap, &ap]) { return g; } }
    g.notes.push("filters over sequences of atomic values: all chains of up to three predicates".into());
    for d in corpus::ALIKE {
        if !crosses(sink, d, "1", &["let $r := . return (①)[let $x := . return ②]", "//a[let $r := /r, $x := . return ②]", "count((①)[last()])", "(①)[1] | (①)[2]", "(①)[position() > 1]"], &[&corpus::ALIKE_SEQ, &corpus::ALIKE_BODY]) { return g; }
        if !crosses(sink, d, "1", &["(①)[b]", "(①)[b][2]", "(①)[not(b)]", "(①)[2][b]", "(①)[following-sibling::b]", "(①)[@k][b]", "(①)[.//b]", "(①)[position() = (2, 3)]", "(①)[last() - 1]"], &[&corpus::ALIKE_SEQ]) { return g; }
    }
    g.notes.push("13 lists of nodes that look alike under predicates that tell them apart, in 2 documents".into());
    g
}

const STEPS: [&str; 26] = ["a", "*", "..", ".", "@k", "@*", "node()", "text()", "b", "parent::*", "ancestor::*", "following-sibling::*", "preceding-sibling::*", "preceding::*", "following::a", "descendant-or-self::*",
    "(a | b)", "(b, a)", "(., .)", "(.., *)", "a[1]", "*[last()]", "*[position() > 1]", "string()", "position()", "last()"];
const STEPS2: [&str; 10] = ["(1, 2)", "(a, 1)", "name()", "@k/..", "(* except a)", "(* intersect a)", "self::a", "root()", "count(*)", "(if (a) then a else ..)"];
const SETS: [&str; 4] = ["|", "union", "intersect", "except"];

fn gen_c12(tier: Tier, sink: &mut Sink) -> GenInfo {
    let mut g = GenInfo::default();
    if !sink_trees(sink, &mut g, "paths and sets", BIG[0], "3", &["①"], &["a", "*", "//b", "..", ".", "@k", "1"], &["①/②", "①//②", "① | ②", "① intersect ②", "① except ②", "(①, ②)", "①[②]", "reverse(①)", "(①)[last()]", "count(①)", "① ! ②"], tier.pick(5, 6), false) { return g; }
    if !sink_trees(sink, &mut g, "paths and sets", BIG[1], "1", &["①"], &["a", "*", "//b", "..", ".", "@k", "1"], &["①/②", "①//②", "① | ②", "① intersect ②", "① except ②", "(①, ②)", "①[②]", "reverse(①)", "(①)[last()]", "count(①)", "① ! ②"], tier.pick(5, 6), false) { return g; }

    let all: Vec<&str> = STEPS.iter().chain(STEPS2.iter()).copied().collect();
    let sep = ["/", "//"];
    for x in BIG.iter() {
        if !cross(sink, x, "*", "①②③", &[&all, &sep, &all]) { return g; }
        if !cross(sink, x, "*", "①②", &[&["/", "//"], &all]) { return g; }
    }
    g.notes.push("4 documents x all nodes x all two-step paths over 36 steps and both separators".into());
    for (i, x) in BIG.iter().enumerate() {
        if i > 0 && tier == Tier::Quick { break; }
        let m = &all[..tier.pick(18, 36)];
        if !cross(sink, x, "*", "①/②/③", &[m, m, m]) { return g; }
        if !cross(sink, x, tier.pick("2", "*"), "①//②//③", &[m, m, m]) { return g; }
    }
    g.notes.push("all three-step paths".into());
    let paths = ["a", "*", "//a", "//*", "@*", "//@k", "..", ".", "/", "ancestor::*", "preceding::*", "following::*", "//text()", "()", "//a/..", "reverse(//a)", "(//b, //a)", "//a[1]", "1", "descendant::node()"];
    for x in BIG.iter() {
        if !cross(sink, x, "*", "① ② ③", &[&paths, &SETS, &paths]) { return g; }
        if !cross(sink, x, "1", "① ② ③ ④ ⑤", &[&paths[..tier.pick(12, 20)], &SETS, &paths[..tier.pick(12, 20)], &SETS, &paths[..tier.pick(8, 20)]]) { return g; }
        if !cross(sink, x, "*", "(① ② ③)/④", &[&paths, &SETS, &paths, &all[..tier.pick(8, 36)]]) { return g; }
        if !cross(sink, x, "*", "(① ② ③)[④]", &[&paths, &SETS, &paths, &["1", "last()", "self::a"]]) { return g; }
    }
    g.notes.push("every pair of 20 node sets under | union intersect except, chains of three, results used in further steps".into());
    // a path whose step gives each node something else
    let each = ["()", "1", ".", "@k", "(., 'b')", "(1, ..)", "(1, 2)", "(.., .)", "node()"];
    let n = tier.pick(4, 5);
    let five = ["<r><a k=\"1\"/><b>t</b><a/><b k=\"2\"><c/></b></r>", "<r><a k=\"1\"/><b>t</b><a/><b k=\"2\"><c/></b><c/></r>"][n - 4];
    let ok = seqs(&each, n, n, &mut |q| {
        let mut s = String::new();
        for (i, x) in q.iter().enumerate() { if i + 1 < q.len() { s += &format!("if (position() = {}) then {} else ", i + 1, x); } else { s += x; } }
        [format!("*/({})", s), format!("* ! ({})", s), format!("count(*/({})) + 1", s)].iter().all(|e| sink(&[five, "1", e]))
    });
    if !ok { return g; }
    g.notes.push(format!("a step giving each of {} nodes one of {} results (none, atoms, nodes, mixtures), every assignment, by / and by !", n, each.len()));
    // every sequence of siblings alike in all but place
    for x in ["<r><a/><a/><a/><a/><a/></r>", "<r><a>t</a><a>t</a><a>t</a><a>t</a><a>t</a></r>", "<r k0=\"1\" k1=\"1\" k2=\"1\" k3=\"1\" k4=\"1\"/>"] {
        let it: Vec<&str> = if x.contains("k0") { vec!["@k0", "@k1", "@k2", "@k3", "@k4"] } else { vec!["a[1]", "a[2]", "a[3]", "a[4]", "a[5]"] };
        let mut all = vec![];
        seqs(&it, 0, 4, &mut |q| { all.push(format!("({})", q.join(", "))); true });
        for a in all.iter() { for t in ["①/.", "① | ()", "() union ①", "①/..", "①/self::node()", "① except a[3]", "① intersect (a | @*)", "count(①/.)"] { if !sink(&[x, "1", &t.replace('①', a)]) { return g; } } }
        let five: Vec<String> = { let mut v = vec![]; seqs(&it, 5, 5, &mut |q| { v.push(format!("({})", q.join(", "))); true }); v };
        for a in five.iter() { for t in ["①/.", "① | ()"] { if !sink(&[x, "1", &t.replace('①', a)]) { return g; } } }
        let few: Vec<&str> = all.iter().filter(|a| a.matches(',').count() < tier.pick(2, 3)).map(|s| s.as_str()).collect();
        if !cross(sink, x, "1", "① ② ③", &[&few, &SETS, &few]) { return g; }
    }
    g.notes.push("every sequence of up to 5 of 5 siblings (empty, with equal text; attributes with equal values) through a path and a union; all pairs of sequences of up to 2 under every set operator".into());
    for k in [7usize, 8, 9, 10, 12, 16, 17, 20, 32, 33, 64, 65] {
        if k > 20 && tier == Tier::Quick && k % 2 == 0 { continue; }
        let fan = format!("<r>{}</r>", "<a/>".repeat(k));
        let texts = format!("<r>{}</r>", "<a>t</a><b/>".repeat(k / 2));
        let deep = format!("{}{}", "<a>".repeat(k), "</a>".repeat(k));
        let chain = format!("<r>{}</r>", (0..k).map(|i| if i % 3 == 0 { "<a><b/></a>" } else { "<a/>" }).collect::<String>());
        let ranges: Vec<String> = vec!["*".into(), "//*".into(), "*[position() mod 2 = 0]".into(), "*[position() mod 3 = 1]".into(), format!("*[position() > {}]", k / 2), format!("*[position() <= {}]", k / 2), "*[1]".into(), "*[last()]".into(), format!("*[{}]", k - 1), "reverse(*)".into(), "(*, *)".into(), "reverse((*[3], *[2], //*[last()]))".into(), "//a".into(), "//b".into(), "()".into(), "*[8]".into(), "*[9]".into(), "*[4]/following-sibling::*".into(), "*[last()]/preceding-sibling::*".into(), "//*/ancestor::*".into(), "//*/..".into()];
        let ranges: Vec<&str> = ranges.iter().map(|s| s.as_str()).collect();
        for x in [&fan, &texts, &deep, &chain] {
            if !cross(sink, x, "1", "① ② ③", &[&ranges, &SETS, &ranges]) { return g; }
            if !crosses(sink, x, "1", &["①/②", "(①)/..", "count(①/②)", "(①, ②)/.", "(reverse(①) | ②)[last()]", "①//②"], &[&ranges[..tier.pick(13, 21)], &ranges]) { return g; }
        }
    }
    g.notes.push("fans, chains and mixed trees of 7 to 65 alike nodes: 21 node sets under every set operator and in two-step paths".into());
    let ns = crate::names::sizes(tier.pick(24, 70), tier.pick(1025, 4097));
    let set = ["*/..", "(a, a)/.", "count(*/.)", "reverse(*)/.", "* | *", "(*[Ｋ] | *[1])", "* except *[Ｋ]", "(* intersect *[Ｋ])", "count(* except *[Ｋ])", "(*[position() > Ｋ] | *[position() <= Ｋ])", "(*[Ｋ], *)/.", "//b/c", "//*[Ｋ]/..", "(reverse(*) union *)[Ｋ]", "*/*/..", "(* except *[position() < Ｋ])[1]", "count((* | */*))", "(*/* | *)[Ｋ]", "*[Ｋ]/(., ..)"];
    for &n in &ns { for shape in ["!fan", "!alt", "!texts", "!nest"] { if !cross_n(sink, &format!("{} {}", shape, n), n, &set) { return g; } } }
    g.notes.push(format!("{} sizes from 0 to {}: {} paths and set expressions over that many siblings in 4 shapes, at every place of note", ns.len(), ns.last().unwrap(), set.len()));
    if !cross_n(sink, "!fan 66000", 66000, &["(*[Ｋ] | *[1])[1]/@k", "(*[Ｋ] | *[65534])[1]/@k", "(*[Ｋ], *[1], *[65534])/@k", "(*[2] | *[Ｋ]/@k)[last()]", "(*[Ｋ] | *[65537] | *[32768])/@k", "count(*[Ｋ] intersect *[65536])", "*[1] << *[Ｋ]", "*[65534] << *[Ｋ]/@k", "(*[Ｋ] except *[65536])/@k", "*[Ｋ]/.."]) { return g; }
    g.notes.push("node sets over a document of 66000 siblings with attributes".into());
    let small = Pal { names: vec!["a", "b"], attrs: vec![vec![], vec![("k", "1")]], leaves: vec![(K::Text, "", "t")] };
    let n = tier.pick(4, 5);
    let ok = docs(n, &small, |d| {
        let x = d.xml(0);
        cross(sink, &x, "*", "①/②", &[&STEPS[..22], &STEPS[..tier.pick(10, 22)]]) && cross(sink, &x, "*", "① ② ③", &[&paths[..10], &SETS[1..], &paths[2..10]])
    });
    if !ok { return g; }
    g.notes.push(format!("all trees of 1..={} nodes over 2 names", n));
    for d in corpus::ALIKE {
        let s: Vec<&str> = corpus::ALIKE_SEQ.to_vec();
        if !crosses(sink, d, "1", &["① | ②", "① except ②", "① intersect ②", "(①)/(②)", "(① | ②)[2]", "count(① union ②)"], &[&s, &s]) { return g; }
        if !crosses(sink, d, "1", &["(①)/b", "(①)/..", "(①)/following-sibling::*", "(①)//b", "(①)/node()", "(①)/self::a", "(①)/@k", "(①)/preceding::node()", "(①)/b/..", "(①)/string()", "(①)/(., b)"], &[&s]) { return g; }
    }
    g.notes.push("13 lists of nodes that look alike under the set operators, in pairs, and under 11 steps, in 2 documents".into());
    g
}
