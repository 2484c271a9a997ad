// C27: what a failure says of itself.
use crate::gen::*;
use crate::props::xp::*;
use crate::props::xpmore::{FNS, ODDV};
use crate::props::xpval::XML;
use crate::refxml::{self, Verdict};
use crate::rxp::{self, RErr};
use crate::sup::*;
use amxml::dom::new_document;
use amxml::sax::{SaxDecoder, XmlToken};

pub fn all() -> Vec<Box<dyn Prop>> { vec![Box::new(C27::default())] }

#[derive(Default)]
struct C27 { steps: u64, cache: Cache }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind { Xml, Syntax, Dynamic, Type, Other }

/// The kind an error names, and what it says after that.
fn kind(t: &str) -> Result<(Kind, &str), String> {
    for (p, k) in [("Syntax Error in XML:", Kind::Xml), ("Syntax Error in XPath:", Kind::Syntax), ("Dynamic Error:", Kind::Dynamic), ("Type Error:", Kind::Type), ("Static Error:", Kind::Other), ("Feature not inplemented yet:", Kind::Other)] {
        if let Some(r) = t.strip_prefix(p) {
            if r.trim().is_empty() { return Err(format!("{:?} names its kind and nothing else", t)); }
            return Ok((k, r));
        }
    }
    if t.starts_with("Can't Occur") { return Err(format!("the library reports a problem of its own: {:?}", t)); }
    Err(format!("{:?} names no kind of error", t))
}
/// The debug form carries the kind as well.
fn both(e: &dyn std::error::Error) -> Result<(Kind, String), String> {
    let t = e.to_string();
    let (k, _) = kind(&t)?;
    let d = format!("{:?}", e);
    let name = match k { Kind::Xml => "XmlSyntaxError", Kind::Syntax => "XPathSyntaxError", Kind::Dynamic => "DynamicError", Kind::Type => "TypeError", Kind::Other => "" };
    if !d.contains(name) { return Err(format!("{:?} is an error of another kind: {}", t, d)); }
    Ok((k, t))
}
/// Which of the two kinds an evaluation fails with, where the statement says so.
fn strict(msg: &str) -> Option<Kind> {
    Some(match msg {
        "division by zero" | "integer overflow" | "overflow" | "undefined variable" | "duplicate key" | "code point" | "not one" | "none" | "more than one" | "index out of range" | "integer literal" => Kind::Dynamic,
        "singleton required" | "not comparable" | "no effective boolean value" | "a node is required" | "nodes and atomic values mixed" | "argument type" | "not a function" | "not one function" | "function required" | "map required" | "array required"
        | "not an integer" | "not a double" | "not a decimal" | "not a boolean" | "integer required" | "string required" | "number required" | "treat as another type" | "a function cannot be atomized" => Kind::Type,
        _ => return None,
    })
}

impl C27 {
    fn xml(&mut self, src: &str) -> Result<u64, String> {
        self.steps += 1;
        let good = matches!(refxml::read(src).v, Verdict::Good(_));
        let mut o = 0;
        match new_document(src) {
            Ok(_) => {}
            Err(e) => {
                if good { return Err(format!("{:?} is refused: {}", src, e)); }
                let (k, t) = both(e.as_ref())?;
                if k != Kind::Xml { return Err(format!("{:?}: {}", src, t)); }
                o = hs(&t);
            }
        }
        match SaxDecoder::new(src) {
            Err(e) => { let (k, t) = both(e.as_ref())?; if k != Kind::Xml { return Err(format!("{:?}: {}", src, t)); } }
            Ok(mut d) => for _ in 0..2 * src.len() + 4 {
                match d.raw_token() {
                    Ok(XmlToken::EOF) => break,
                    Ok(_) => {}
                    Err(e) => { let (k, t) = both(e.as_ref())?; if k != Kind::Xml { return Err(format!("{:?}, token by token: {}", src, t)); } }
                }
            },
        }
        Ok(o)
    }
    /// The kind of failure, against what the reference makes of the expression.
    fn expr(&mut self, k: usize, e: &str, single: bool) -> Result<u64, String> {
        self.steps += 1;
        self.cache.load(XML)?;
        let c = &self.cache;
        let parsed = rxp::parse(e);
        let m = match &parsed { Ok(x) => rxp::eval_at(&c.d, c.node(k), x), Err(x) => Err(x.clone()) };
        if let Err(RErr::Unspec("huge range")) = m { return Ok(0); }
        let n = crate::rdom::at(&c.map, c.node(k));
        let r = n.eval_xpath(e);
        let le = match &r { Ok(_) => { return if let Err(RErr::Err(x)) = m { Err(format!("{} at node {}: error expected ({})", e, k, x)) } else { Ok(1) } } Err(le) => le };
        let (kd, t) = both(le.as_ref()).map_err(|x| format!("{}: {}", e, x))?;
        let bad = |w: &str| Err(format!("{} at node {}: {} expected, got {:?}", e, k, w, t));
        if kd == Kind::Xml { return bad("no error of XML"); }
        match (&parsed, &m) {
            (Err(RErr::Err(_)), _) => if kd != Kind::Syntax { return bad("a syntax error"); },
            (Ok(_), Err(RErr::Err(x))) => {
                // a type name nobody knows may be found out while reading; "*:" is a symbol
                let early = e.contains("cast") || e.contains("*:") || x.contains("cast");
                if !(kd == Kind::Dynamic || kd == Kind::Type || early && kd == Kind::Syntax) { return bad("an error of evaluation"); }
                // (the nodes' names and roots are asked for with errors of their own)
                let own = t.ends_with("(): Item is not a node");
                if let (true, Some(w)) = (single && !own, strict(x)) { if kd != w { return bad(&format!("a {:?} error ({})", w, x)); } }
            }
            (Ok(_), Ok(_)) => return bad("a value"),
            _ => {}
        }
        if single {
            // the same by every way of asking
            let all = [n.get_nodeset(e).err(), n.each_node(e, |_| ()).err(), n.eval_xpath(e).err()];
            for a in all { match a { Some(a) if a.to_string() == t => {} a => return Err(format!("{}: {:?}, then {:?}", e, t, a.map(|a| a.to_string()))) } }
            if n.get_first_node(e).is_some() { return Err(format!("{}: get_first_node finds a node", e)); }
        }
        Ok(hs(&t))
    }
    /// A failing part fails the whole, with its own message.
    fn inside(&mut self, e: &str, tpl: &str) -> Result<u64, String> {
        self.steps += 1;
        self.cache.load(XML)?;
        let n = crate::rdom::at(&self.cache.map, self.cache.node(1));
        let t = match n.eval_xpath(e) { Err(x) => both(x.as_ref())?.1, Ok(_) => return Err(format!("{}: error expected", e)) };
        let w = tpl.replace('①', e);
        match n.eval_xpath(&w) {
            Ok(s) => Err(format!("{}: error expected, got {}", w, s.to_string())),
            Err(x) => { let u = x.to_string(); if u != t { Err(format!("{} fails with {:?}, its part {} with {:?}", w, u, e, t)) } else { Ok(hs(&t)) } }
        }
    }
}

const FAIL: &[&str] = &["1 div 0", "1 idiv 0", "'x' + 1", "$nosuch", "(1, 2) eq 1", "9223372036854775807 + 1", "map{1: 2, 1: 3}", "[1](2)", "2(1)", "'x' cast as xs:integer", "codepoints-to-string(0)", "exactly-one(())", "zero-or-one((1, 2))", "one-or-more(())", "1 is 2", "1/a", "1 | 2",
    "abs('x')", "function($x as xs:string) {$x}(1)", "map{(1, 2): 1}", "'x' treat as xs:integer", "1?a", "boolean((1, 2))", "name(1)", "1 to 'x'", "1 eq 'x'", "-'x'", "abs#1(1, 2)", "99999999999999999999", "sum(('a', 1))", "avg('x')", "max((1, 'x'))", "for-each('a', 'b')", "'x' * 2", "for-each(1, 2)"];
const WHOLE: &[&str] = &["(①)", "((①))", "(①, 1)", "(1, ①)", "count((1, ①))", "(①)[1]", "string((①))", "for $x in (①) return 1", "for $x in (1, 2) return (①)", "let $x := (①) return $x", "if (①) then 1 else 2", "if (1) then (①) else 2", "if (0) then 1 else (①)", "some $x in (①) satisfies 1",
    "some $x in 1 satisfies (①)", "every $x in 1 satisfies (①)", "(①) + 1", "1 + (①)", "-(①)", "(①) eq 1", "1 = (①)", "(①) or 0", "0 or (①)", "1 and (①)", "(①) || 'a'", "'a' || (①)", "(①) ! 1", "1 ! (①)", "a ! (①)", "a/(①)", "a[①]", "(1, 2)[①]", "(①) to 2", "1 to (①)", "map{1: (①)}", "map{(①): 1}", "[(①)]",
    "array{(①)}", "[1]((①))", "[1]?((①))", "(①) instance of item()", "(①) cast as xs:string", "(①) castable as xs:string", "(①) treat as item()", "(①) => string()", "'a' => concat((①))", "function($x) {(①)}(1)", "function($x) {1}((①))", "for-each((1, 2), function($x) {(①)})", "filter(1, function($x) {(①)})", "concat('a', (①))",
    "concat(?, (①))('a')", "(①) | a", "a union (①)", "a except (①)", "let $f := function() {(①)} return $f()", "(①)/a", "a[1][①]", "a/b[①] | a[①]", "(1, (2, (3, (①))))", "(①) is a", "(①) << a", "reverse((①))", "head(((①), 1))"];

impl Prop for C27 {
    fn id(&self) -> &'static str { "C27" }
    fn rule(&self) -> &'static str {
        "every source up to the stated length over markup characters and fragments; every sequence up to the stated length of two alphabets of expression tokens; every operator, function and one-place form over every pair (tuple) of 30 awkward values; every one \
         of 39 failing expressions in every one of 68 places. The kind the error names against the verdict of the reference parser and evaluator. Non-trivial: an error."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let mut b = String::new();
        let n = tier.pick(5, 6);
        if !seqs(&crate::props::sax::MK, 0, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["X", &b]) }) { return g; }
        g.notes.push(format!("all sources of 0..={} of 15 markup characters", n));
        let n = tier.pick(3, 4);
        if !seqs(&crate::props::sax::FRAG, 1, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["X", &b]) }) { return g; }
        if !seqs(&crate::props::sax::FRAG, 1, n, &mut |q| { b.clear(); b.push_str("<a>"); for p in q { b.push_str(p); } b.push_str("</a>"); sink(&["X", &b]) }) { return g; }
        g.notes.push(format!("all sources of 1..={} of 34 fragments, alone and in an element", n));
        let mut join = |s: &[&str], sink: &mut Sink| -> bool { b.clear(); for (i, p) in s.iter().enumerate() { if i > 0 { b.push(' '); } b.push_str(p); } sink(&["q", "1", &b]) };
        use crate::props::xpmore::{TOKS, TOKS2};
        let n = tier.pick(4, 5);
        if !seqs(&TOKS, 0, n, &mut |s| join(s, sink)) { return g; }
        let both: Vec<&str> = TOKS.iter().chain(TOKS2.iter()).copied().collect();
        if !seqs(&both, 0, tier.pick(3, 4), &mut |s| join(s, sink)) { return g; }
        g.notes.push(format!("all sequences of 0..={} of {} tokens and 0..={} of {} tokens", n, TOKS.len(), n - 1, both.len()));
        for (name, arities) in FNS.iter() { for &k in arities.iter() {
            let tpl = match k { 0 => "①()", 1 => "①(②)", 2 => "①(②, ③)", _ => "①(②, ③, ④)" };
            let nm = [*name];
            let v = &ODDV[..];
            let l3 = &ODDV[..tier.pick(12, ODDV.len())];
            let lists: Vec<&[&str]> = match k { 0 => vec![&nm], 1 => vec![&nm, v], 2 => vec![&nm, v, v], _ => vec![&nm, l3, l3, l3] };
            if !cross(&mut |f: &[&str]| sink(&["Q", "1", f[2]]), "", "", tpl, &lists) { return g; }
        }
            for a in 0..5 { for post in ["", "(1)", "()", "(1, 2)", "(?)"] { if !sink(&["Q", "1", &format!("{}#{}{}", name, a, post)]) { return g; } } }
            for args in ["", "1", "1, 2", "1, 2, 3", "1, 2, 3, 4", "?", "?, ?", "1, ?", ","] { for t in ["①(②)", "1 => ①(②)", "if (0) then ①(②) else 1", "①(②)(1)"] { if !sink(&["Q", "1", &t.replace('①', name).replace('②', args)]) { return g; } } }
        }
        g.notes.push(format!("{} functions over tuples of {} values, every arity by every way of calling", FNS.len(), ODDV.len()));
        let ops = ["or", "and", "=", "!=", "<", "<=", "eq", "ne", "lt", "ge", "is", "<<", ">>", "||", "+", "-", "*", "div", "idiv", "mod", "!", "/", "//", "|", "intersect", "except", ",", "[", "?", "=>", "(", "to", "instance of", "cast as", "castable as", "treat as"];
        let tys = ["xs:integer", "xs:string", "xs:nosuch", "nosuch", "item()", "element()*", "map(*)", "empty-sequence()", "xs:integer?", "function(*)", "array(xs:integer)", "1"];
        for o in ops { for x in ODDV.iter() {
            let close = match o { "[" => "]", "(" => ")", _ => "" };
            if o == "to" && (x.contains("9223372036854775807") || x.contains("300")) { continue; }
            for y in if o.ends_with("s") && o.len() > 5 || o == "instance of" { &tys[..] } else { &ODDV[..] } { for c in ["1", "0"] { if !sink(&["Q", c, &format!("{} {} {}{}", x, o, y, close)]) { return g; } } }
        } }
        let nums = ["0", "1", "-1", "7", "0.0", "-0.0", "1.5", "0e0", "-0e0", "2e0", "1e308", "number('x')", "(1 div 0e0)", "9223372036854775807", "(-9223372036854775807 - 1)", "1e19", "true()", "'7'", "@k", "a[1]", "()", "(1, 2)", "map{}", "[]", "abs#1"];
        for o in ["+", "-", "*", "div", "idiv", "mod", "to", "=", "eq", "lt", "<"] { for x in nums { for y in nums {
            if o == "to" && (x.contains("92233") || y.contains("92233")) { continue; }
            if !sink(&["Q", "1", &format!("{} {} {}", x, o, y)]) { return g; }
        } } }
        for f in ["-①", "+①", "abs(①)", "round(①)", "floor(①)", "ceiling(①)", "sum((1, ①))", "avg((1, ①))", "max((1, ①))", "min((1, ①))", "① cast as xs:integer", "① cast as xs:decimal", "(1, 2)[①]", "[1](①)", "substring('abc', ①)", "codepoints-to-string(①)", "remove((1, 2), ①)"] { for x in nums { if !sink(&["Q", "1", &f.replace('①', x)]) { return g; } } }
        let un = ["-①", "+①", "①[1]", "①?*", "①?1", "①?a", "①()", "①(1)", "①(1, 2)", "①(?)", "for $x in ① return $x", "if (①) then 1 else 2", "some $x in ① satisfies $x", "①/a", "①//a", "a[①]", "map{①: 1}", "map{1: 2, ①: 1}", "array{①}(1)", "[1](①)", "map{1: 2}(①)", "map{1: 2}?(①)", "function($x as xs:string) {$x}(①)", "function($x) as xs:integer {$x}(①)",
            "for-each(①, 1)", "for-each(1, ①)", "filter(1, ①)", "① => abs()", "1 => (①)()", "let $f := ① return $f(1)", "let $f := ① return 1 => $f()", "$x[①]", "(①)(①)", "[①]?2", "codepoints-to-string(①)", "exactly-one(①)", "one-or-more(①)", "zero-or-one(①)", "①/1/2", "(a, 1)/①", "@k/①"];
        for u in un { for x in ODDV.iter() { for c in ["0", "1", "2"] { if !sink(&["Q", c, &u.replace('①', x)]) { return g; } } } }
        g.notes.push(format!("{} operators over all pairs, {} one-place forms over all of {} values", ops.len(), un.len(), ODDV.len()));
        for e in FAIL { for t in WHOLE { if !sink(&["T", e, t]) { return g; } } }
        let two: &[&str] = &WHOLE[..tier.pick(WHOLE.len().min(40), WHOLE.len())];
        for e in FAIL { for t in two { for u in two {
            // a place that moves the context keeps the places that need nodes out
            let moves = ["1 !", "a !", "a/(", "a[", "[①]", "a/b["].iter().any(|p| t.contains(p)) || t.contains("function");
            if moves && ["a !", "a/", "a[", "a union", "a except", "| a", "/a", "is a", "<< a"].iter().any(|p| u.contains(p)) { continue; }
            if !sink(&["T", e, &t.replace('①', &format!("({})", u))]) { return g; }
        } } }
        g.notes.push(format!("{} failing expressions in {} places, and in {} places within one another", FAIL.len(), WHOLE.len(), two.len()));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let r = match f[0] { "X" => self.xml(f[1]), "T" => self.inside(f[1], f[2]), m => self.expr(f[1].parse().unwrap(), f[2], m == "Q") };
        match r { Ok(o) => Out::Ok { obs: o, trivial: o < 2 }, Err(e) => Out::Bad(e) }
    }
    fn steps(&self) -> u64 { self.steps }
}
