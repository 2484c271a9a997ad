// Properties of the document tree: C04 (write/read round trip), C06
// (navigation), C07 (modification histories), C08 (attributes), C25 (pretty
// printing).

use crate::gen::*;
use crate::props::sax::{expected, pieces, Tok};
use crate::rdom::*;
use crate::sup::*;
use amxml::dom::{new_document, NodePtr};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C04::default()), Box::new(C06::default()), Box::new(C07::default()), Box::new(C08::default()), Box::new(C25::default())]
}

// ---------------------------------------------------------------- codec
// A model document travels through a case line as a compact term.
pub fn doc_term(d: &D, i: usize) -> String {
    let n = &d.n[i];
    let tag = match n.k { K::Doc => 'R', K::El => 'E', K::Text => 'T', K::Comment => 'C', K::Decl => 'X', K::Pi => 'I', K::Attr => 'A' };
    let mut s = format!("{}{}\u{2}{}\u{2}", tag, n.name, n.value);
    for &a in &n.at { s += &doc_term(d, a); }
    for &c in &n.ch { s += &doc_term(d, c); }
    s.push('\u{3}');
    s
}
pub fn doc_parse(t: &str) -> D {
    let c: Vec<char> = t.chars().collect();
    let mut d = D { n: vec![] };
    let mut p = 0;
    fn go(c: &[char], p: &mut usize, d: &mut D, parent: Option<usize>) {
        let k = match c[*p] { 'R' => K::Doc, 'E' => K::El, 'T' => K::Text, 'C' => K::Comment, 'X' => K::Decl, 'I' => K::Pi, _ => K::Attr };
        *p += 1;
        let mut f = [String::new(), String::new()];
        for s in f.iter_mut() { while c[*p] != '\u{2}' { s.push(c[*p]); *p += 1; } *p += 1; }
        let i = match parent {
            None => d.add(k, &f[0], &f[1]),
            Some(q) if k == K::Attr => d.attr(q, &f[0], &f[1]),
            Some(q) => d.push(q, k, &f[0], &f[1]),
        };
        while c[*p] != '\u{3}' { go(c, p, d, Some(i)); }
        *p += 1;
    }
    go(&c, &mut p, &mut d, None);
    d
}

/// The document written with other quotes, spacing, CDATA, references and
/// expanded empty elements: a different source of the same tree.
fn alt_source(d: &D, i: usize) -> String {
    let n = &d.n[i];
    match n.k {
        K::El => {
            let mut s = format!("<{}", n.name);
            for &a in &n.at {
                let mut v = String::new();
                for c in d.n[a].value.chars() { if "<&'\r".contains(c) { v += &format!("&#{};", c as u32) } else { v.push(c) } }
                s += &format!("\n {} = '{}'", d.n[a].name, v);
            }
            s += "\t>";
            for &c in &n.ch { s += &alt_source(d, c); }
            s + &format!("</{} >", n.name)
        }
        K::Doc => n.ch.iter().map(|&c| alt_source(d, c)).collect(),
        K::Text if !n.value.contains("]]>") && !n.value.contains('\r') => format!("<![CDATA[{}]]>", n.value),
        _ => d.xml(i),
    }
}

fn run_doc(d: &D, what: &str, src: &str, map: &mut Vec<(usize, NodePtr)>) -> Result<NodePtr, String> {
    let p = new_document(src).map_err(|e| format!("{} {:?} does not parse: {}", what, src, e))?;
    map.clear();
    bind(d, 0, &p, map).map_err(|e| format!("{} {:?}: {}", what, src, e))?;
    Ok(p)
}

// =====================================================================
#[derive(Default)]
struct C04 { steps: u64 }

const AMPS: [&str; 18] = ["&", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#13;", "&#x41;", "&#", ";", "amp;", "lt;", "#65;", "x", "<", ">", "\"", " "];
const TROUBLE: [&str; 9] = ["&", "<", ">", "\"", "'", "\n", "\r", "]]>", "a"];

fn pal_c04() -> Pal {
    Pal {
        names: vec!["a", "p:b"],
        attrs: vec![vec![], vec![("k", "v\"<&>'\r\n\t")], vec![("p:k", ""), ("l", " x ")]],
        leaves: vec![(K::Text, "", "t<&>\"']]>\n"), (K::Text, "", " "), (K::Comment, "", "a-b<&"), (K::Pi, "p", "i <&>"), (K::Pi, "q", ""), (K::Decl, "xml", "version='1.0'"), (K::Pi, "xml-a", "i"), (K::Comment, "", "")],
    }
}

impl Prop for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn rule(&self) -> &'static str {
        "every tree up to the stated number of nodes over 2 element names, 3 attribute lists and 6 kinds of leaf with troublesome characters, written in two \
         different ways, read, compared node by node with the model, written, read again; every element's to_string read on its own; every sequence of lexical \
         pieces: writing what was read and reading it again gives the same text. Non-trivial: more than one node."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let n = tier.pick(5, 6);
        if !docs(n, &pal_c04(), |d| { let t = doc_term(d, 0); sink(&["T", &t]) }) { return g; }
        g.notes.push(format!("all trees of 1..={} nodes under one root element", n));
        let small = Pal { leaves: vec![(K::Comment, "", "c"), (K::Pi, "p", "i"), (K::Text, "", "\n"), (K::Decl, "xml", "version='1.0'"), (K::Decl, "xml", ""), (K::Comment, "", "")], names: vec!["a"], attrs: vec![vec![]] };
        for k in 1..=tier.pick(6, 7) { for f in forests(k, &small) { let t = doc_term(&doc_of(&f), 0); if !sink(&["T", &t]) { return g; } } }
        g.notes.push("all forests (several top-level nodes) of up to 5/6 nodes".into());
        for name in ["xml", "xml-stylesheet", "xmlx", "XML", "Xml", "xm", "xml:p", "p:xml", "x", "_", "a.b-c:d", "\u{6bb5}\u{843d}"] {
            let mut d = D::new();
            if name != "xml" { d.push(0, K::Pi, name, "i='1'"); }
            let r = d.push(0, K::El, name, "");
            d.attr(r, name, "v"); d.attr(r, "l", "");
            let e = d.push(r, K::El, "e", "");
            if name != "xml" { d.push(e, K::Pi, name, ""); d.push(r, K::Pi, name, "i "); }
            let e = d.push(r, K::El, name, "");
            d.attr(e, name, "\"");
            d.push(e, K::El, name, "");
            let t = doc_term(&d, 0);
            if !sink(&["T", &t]) { return g; }
        }
        g.notes.push("12 special names as element, attribute and instruction names".into());
        if !empties(tier.pick(4, 5), |d| { let t = doc_term(d, 0); sink(&["T", &t]) }) { return g; }
        g.notes.push("all forests of up to 4 (5) nodes without name, value or content".into());
        for d in big_docs(tier) { let t = doc_term(&d, 0); if !sink(&["T", &t]) { return g; } }
        g.notes.push("growing families: chains, fans, combs and attribute lists".into());
        for c in crate::names::code_points(1) { if !sink(&["S", &c.to_string()]) { return g; } }
        g.notes.push("every code point in every kind of node".into());
        let n = tier.pick(6, 7);
        let mut b = String::new();
        if !seqs(&TROUBLE, 0, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["S", &b]) }) { return g; }
        g.notes.push(format!("all strings of length 0..={} over 9 fragments as text, CDATA, comment, instruction and attribute", n));
        let n = tier.pick(4, 5);
        if !seqs(&AMPS, 1, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["S", &b]) }) { return g; }
        g.notes.push(format!("all sequences of 1..={} of 18 pieces of references as text, CDATA, comment, instruction and attribute", n));
        let ix: Vec<usize> = (0..pieces().len()).collect();
        let n = tier.pick(3, 3);
        if !seqs(&ix, 1, n, &mut |q| { b.clear(); for (k, i) in q.iter().enumerate() { if k > 0 { b.push(' '); } b.push_str(&i.to_string()); } sink(&["P", &b]) }) { return g; }
        g.notes.push(format!("all sequences of 1..={} lexical pieces inside an element", n));
        for n in ["1000", "100000"] { if !sink(&["deep", "write", n, "", "<a>", "x", "</a>"]) { return g; } }
        g.notes.push("elements nested 1,000 and 100,000 deep (in a process of their own)".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        if f[0] == "deep" || f[0] == "deep0" { self.steps += 1; return crate::props::deep::case(f); }
        macro_rules! t { ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Out::Bad(e) } } }
        let mut m = vec![];
        match f[0] {
            "T" => {
                let d = doc_parse(f[1]);
                self.steps += 4;
                let canon = d.xml(0);
                let p = t!(run_doc(&d, "source", &canon, &mut m));
                if p.to_string() != canon { return Out::Bad(format!("read from {:?}, written {:?}", canon, p.to_string())); }
                let alt = alt_source(&d, 0);
                let p = t!(run_doc(&d, "source", &alt, &mut m));
                if p.to_string() != canon { return Out::Bad(format!("read from {:?}, written {:?}, expected {:?}", alt, p.to_string(), canon)); }
                // each element on its own
                for (i, q) in &m {
                    if d.n[*i].k != K::El { continue; }
                    self.steps += 1;
                    let s = q.to_string();
                    let e = t!(new_document(&s).map_err(|e| format!("element written {:?} does not parse: {}", s, e)));
                    let mut m2 = vec![];
                    t!(bind(&d, *i, &e.root_element(), &mut m2).map_err(|e| format!("element {:?} reads back differently: {}", s, e)));
                    if q.inner_xml() != d.inner(*i) { return Out::Bad(format!("inner_xml {:?}, expected {:?}", q.inner_xml(), d.inner(*i))); }
                }
                Out::Ok { obs: hs(&canon), trivial: d.n.len() < 3 }
            }
            "S" => {
                let v = f[1];
                self.steps += 5;
                let mut d = D::new();
                let r = d.push(0, K::El, "r", "");
                d.attr(r, "k", v);
                if !v.is_empty() { d.push(r, K::Text, "", v); }
                let e1 = d.push(r, K::El, "e", "");
                if !v.contains("-->") { d.push(e1, K::Comment, "", v); }
                // an instruction starts at its first non-space character; a carriage return can only be written as a reference
                if !v.starts_with(|c| " \t\r\n".contains(c)) { d.push(e1, K::Pi, "p", v); }
                if v.contains('\r') { d.n[e1].ch.clear(); }
                let canon = d.xml(0);
                let p = t!(run_doc(&d, "source", &canon, &mut m));
                if p.to_string() != canon { return Out::Bad(format!("read from {:?}, written {:?}", canon, p.to_string())); }
                t!(run_doc(&d, "written form", &p.to_string(), &mut m));
                let alt = alt_source(&d, 0);
                t!(run_doc(&d, "source", &alt, &mut m));
                Out::Ok { obs: hs(&canon), trivial: v.is_empty() }
            }
            _ => {
                self.steps += 2;
                let ps = pieces();
                let sel: Vec<_> = f[1].split(' ').map(|i| &ps[i.parse::<usize>().unwrap()]).collect();
                let src = format!("<r>{}</r>", sel.iter().map(|p| p.src).collect::<String>());
                // well formed iff the tokens nest
                let mut st = vec![];
                let mut ok = true;
                for tk in expected(&sel) { match tk { Tok::S(n, _) => st.push(n), Tok::E(n) => ok &= st.pop() == Some(n), _ => {} } }
                ok &= st.is_empty();
                match new_document(&src) {
                    Err(e) => if ok { return Out::Bad(format!("{:?} rejected: {}", src, e)); } else { return Out::Ok { obs: 0, trivial: true } },
                    Ok(p) => {
                        if !ok { return Out::Bad(format!("{:?} accepted", src)); }
                        let s1 = p.to_string();
                        let s2 = t!(new_document(&s1).map_err(|e| format!("{:?} was written {:?}, which does not parse: {}", src, s1, e))).to_string();
                        if s1 != s2 { return Out::Bad(format!("{:?} was written {:?}; read and written again {:?}", src, s1, s2)); }
                        Out::Ok { obs: hs(&s1), trivial: false }
                    }
                }
            }
        }
    }
    fn steps(&self) -> u64 { self.steps }
}

const NAMES: [&str; 20] = ["a:b:c", ":a", "a:", "p:p:a", "pns:a", "ns:a", "A", "P:a", "a", "p", "p:a", "pp:a", "xml:a", "q:a", "xmlnsx", "p:p", "p:xmlns", "a-b", "a.b", "\u{843d}:\u{6bb5}"];

/// Forests of nodes without a name, a value or anything else that may be missing.
pub fn empties(n: usize, mut f: impl FnMut(&D) -> bool) -> bool {
    let p = Pal { names: vec!["a"], attrs: vec![vec![], vec![("k", "")]],
        leaves: vec![(K::Pi, "", "x"), (K::Pi, "", ""), (K::Comment, "", ""), (K::Pi, "p", ""), (K::Decl, "xml", ""), (K::Text, "", " ")] };
    for k in 1..=n { for t in forests(k, &p) { if !f(&doc_of(&t)) { return false; } } }
    true
}

/// Large trees of regular shape.
pub fn big_docs(tier: Tier) -> Vec<D> {
    let mut v = vec![];
    for k in tier.pick(vec![8usize, 9, 10, 11, 16, 17, 21, 32, 33, 64, 65], vec![8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]) {
        let leaf = |d: &mut D, p: usize, i: usize| { match i % 4 { 0 => { let e = d.push(p, K::El, "e", ""); d.attr(e, "n", &i.to_string()); } 1 => { d.push(p, K::Text, "", &format!("t{}", i)); } 2 => { d.push(p, K::Comment, "", &format!("c{}", i)); } _ => { d.push(p, K::El, &format!("x{}", i % 3), ""); } } };
        // chain, with something at the bottom
        let mut d = D::new(); let mut c = 0;
        for i in 0..k { c = d.push(c, K::El, if i % 2 == 0 { "a" } else { "p:b" }, ""); if i % 3 == 0 { d.attr(c, "k", &i.to_string()); } if i == 1 { d.attr(c, "xmlns:p", "u"); } }
        d.push(c, K::Text, "", "t");
        v.push(d);
        // fan
        let mut d = D::new(); let r = d.push(0, K::El, "r", "");
        for i in 0..k { leaf(&mut d, r, i); }
        v.push(d);
        // comb: a chain with a leaf before and after each link
        let mut d = D::new(); let mut c = d.push(0, K::El, "r", "");
        for i in 0..k / 3 { leaf(&mut d, c, i); let n = d.push(c, K::El, "c", ""); d.push(c, K::El, "z", ""); c = n; }
        v.push(d);
        // many attributes
        let mut d = D::new(); let r = d.push(0, K::El, "r", "");
        for i in 0..k { d.attr(r, &format!("{}{}", if i % 2 == 0 { "k" } else { "p:k" }, i / 2), &format!("{}<", i)); }
        d.push(r, K::El, "e", "");
        v.push(d);
    }
    v
}

pub fn large(what: &str, k: usize) -> D {
    let mut d = D::new();
    let r = d.push(0, K::El, "r", "");
    match what {
        "fan" => for i in 0..k { match i % 3 { 0 => { d.push(r, K::El, "e", ""); } 1 => { d.push(r, K::Text, "", &format!("t{}", i)); } _ => { d.push(r, K::Comment, "", &format!("c{}", i)); } } },
        "chain" => { let mut c = r; for i in 0..k { c = d.push(c, K::El, if i % 2 == 0 { "a" } else { "p:b" }, ""); if i == 3 { d.attr(c, "xmlns:p", "u"); } if i % 50 == 1 { d.attr(c, "k", "v"); } } d.push(c, K::Text, "", "t"); }
        _ => { for i in 0..k { d.attr(r, &format!("k{}", i), &i.to_string()); } d.push(r, K::El, "e", ""); }
    }
    d
}

// =====================================================================
#[derive(Default)]
struct C06 { steps: u64 }

impl Prop for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn rule(&self) -> &'static str {
        "every tree up to the stated number of nodes over 2 names, 4 attribute lists (with namespace declarations) and 3 kinds of leaf; every navigation method is \
         called on every node, attributes included, and compared with the model. Non-trivial: more than one node."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let p = Pal {
            names: vec!["a", "p:b"],
            attrs: vec![vec![], vec![("k", "1")], vec![("xmlns:p", "u1"), ("p:k", "2")], vec![("xmlns", "u2"), ("xmlns:p", "u3")], vec![("xmlns", ""), ("xmlns:p", "")]],
            leaves: vec![(K::Text, "", "t"), (K::Comment, "", "c"), (K::Pi, "p", "i")],
        };
        let n = tier.pick(4, 5);
        if !docs(n, &p, |d| { let t = doc_term(d, 0); sink(&[&t]) }) { return g; }
        g.notes.push(format!("all trees of 1..={} nodes, rich palette", n));
        // names: every pair of an element name and an attribute name, with declarations of look-alike prefixes around them
        for en in NAMES { for an in NAMES { for nest in 0..3 {
            let mut d = D::new();
            let r = d.push(0, K::El, "r", "");
            for (a, v) in [("xmlns", "d"), ("xmlns:p", "u"), ("xmlns:pp", "w"), ("xmlns:xml", "x"), ("p", "no"), ("q:xmlns", "no"), ("xmlns:pns", "y"), ("xmlns:ns", "z"), ("xmlns:a", "aa"), ("xmlns:P", "PP")] { d.attr(r, a, v); }
            let m = if nest == 0 { r } else { let m = d.push(r, K::El, "p:m", ""); d.attr(m, "xmlns:p", if nest == 1 { "" } else { "inner" }); d.attr(m, "xmlns", if nest == 1 { "inner" } else { "" }); m };
            d.push(m, K::Pi, "xml-p", "i");
            d.push(m, K::Text, "", " ");
            let e = d.push(m, K::El, en, "");
            d.attr(e, an, "1");
            if an != "a" { d.attr(e, "a", "2"); }
            d.push(e, K::Comment, "", "c");
            let t = doc_term(&d, 0);
            if !sink(&[&t]) { return g; }
        } } }
        g.notes.push("every pair of 20 names of an element and its attribute, under 3 namespace environments".into());
        if !empties(tier.pick(4, 5), |d| { let t = doc_term(d, 0); sink(&[&t]) }) { return g; }
        g.notes.push("all forests of up to 4 (5) nodes without name, value or content".into());
        for d in big_docs(tier) { let t = doc_term(&d, 0); if !sink(&[&t]) { return g; } }
        g.notes.push("growing families: chains, fans, combs and attribute lists of up to 65 (300) nodes".into());
        for k in [127usize, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1025] {
            for (what, n) in [("fan", k), ("chain", k), ("attrs", k)] { if !sink(&["big", what, &n.to_string()]) { return g; } }
        }
        g.notes.push("fans, chains and attribute lists of 127 to 1025 nodes".into());
        // what stands before the root element
        let before: [(K, &str, &str); 5] = [(K::Decl, "xml", "version='1.0'"), (K::Text, "", "\n"), (K::Comment, "", "c"), (K::Pi, "p", "i"), (K::Text, "", " x ")];
        let ix: Vec<usize> = (0..before.len()).collect();
        if !seqs(&ix, 0, tier.pick(4, 5), &mut |q| {
            let mut d = D::new();
            for (k, &i) in q.iter().enumerate() { if k > 0 && before[i].0 == K::Text && before[q[k - 1]].0 == K::Text { return true; } d.push(0, before[i].0, before[i].1, before[i].2); }
            for n in ["a", "b"] { let e = d.push(0, K::El, n, ""); d.push(e, K::El, "x", ""); d.push(0, K::Text, "", "\n"); }
            let t = doc_term(&d, 0);
            sink(&[&t])
        }) { return g; }
        g.notes.push("every sequence of up to 4 (5) other nodes before two top-level elements".into());
        let p = Pal { names: vec!["a"], attrs: vec![vec![], vec![("k", "1"), ("l", "2")]], leaves: vec![(K::Text, "", "t"), (K::Comment, "", "c")] };
        let n = tier.pick(6, 7);
        for k in 1..=n { for f in forests(k, &p) { let t = doc_term(&doc_of(&f), 0); if !sink(&[&t]) { return g; } } }
        g.notes.push(format!("all forests of 1..={} nodes, small palette", n));
        if !sink(&["deep0", "order", "1000", "", "<a>", "x", "</a>"]) || !sink(&["deep0", "order", "100000", "", "<a>", "x", "</a>"]) { return g; }
        for n in ["1000", "100000"] { if !sink(&["deep", "order", n, "", "<a>", "x", "</a>"]) { return g; } }
        g.notes.push("elements nested 1,000 and 100,000 deep (in a process of their own)".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        if f[0] == "deep" || f[0] == "deep0" { self.steps += 1; return crate::props::deep::case(f); }
        let d = if f[0] == "big" { large(f[1], f[2].parse().unwrap()) } else { doc_parse(f[0]) };
        let src = d.xml(0);
        let mut m = vec![];
        let p = match new_document(&src) { Ok(p) => p, Err(e) => return Out::Bad(format!("{:?} does not parse: {}", src, e)) };
        if let Err(e) = bind(&d, 0, &p, &mut m) { return Out::Bad(format!("{:?}: {}", src, e)); }
        if let Err(e) = check_nav(&d, 0, &m, &mut self.steps) { return Out::Bad(format!("{:?}: {}", src, e)); }
        Out::Ok { obs: hs(&src), trivial: d.n.len() < 3 }
    }
    fn steps(&self) -> u64 { self.steps }
}

// =====================================================================
// C07: histories of modifications
#[derive(Default)]
struct C07 { steps: u64 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { A(usize, usize), P(usize, usize), N(usize, usize), R(usize, usize), X(usize, usize), S(usize, usize), U(usize, usize), F(usize, usize) }
const ANAMES: [&str; 2] = ["k", "n"];

pub fn op_str(o: &Op) -> String {
    let (c, a, b) = match *o { Op::A(a, b) => ('A', a, b), Op::P(a, b) => ('P', a, b), Op::N(a, b) => ('N', a, b), Op::R(a, b) => ('R', a, b),
        Op::X(a, b) => ('X', a, b), Op::S(a, b) => ('S', a, b), Op::U(a, b) => ('U', a, b), Op::F(a, b) => ('F', a, b) };
    format!("{}{}.{}", c, a, b)
}
pub fn op_parse(s: &str) -> Op {
    let mut it = s[1..].split('.').map(|x| x.parse::<usize>().unwrap());
    let (a, b) = (it.next().unwrap(), it.next().unwrap());
    match &s[..1] { "A" => Op::A(a, b), "P" => Op::P(a, b), "N" => Op::N(a, b), "R" => Op::R(a, b), "X" => Op::X(a, b), "S" => Op::S(a, b), "U" => Op::U(a, b), _ => Op::F(a, b) }
}

/// A starting point: two documents, the second one's document node kept or dropped.
pub struct World { pub a: &'static str, pub b: &'static str, pub keep: bool }
pub const WORLDS: [World; 5] = [
    World { a: "<a><b/>t<c k=\"1\"/></a>", b: "<x n=\"2\"><z/></x>", keep: true },
    World { a: "<a><b/>t<c k=\"1\"/></a>", b: "<x n=\"2\"><z/></x>", keep: false },
    World { a: "<a><b/></a>", b: "<x/>", keep: true },
    World { a: "<a><b><c/></b></a>", b: "<x/>", keep: false },
    World { a: "<?xml version=\"1.0\"?><!--q--><a><b k=\"0\"><c><d/></c></b></a>", b: "<x><y>u</y><?p i?></x>", keep: true },
];

/// Starting points whose second tree is taken apart at once: its content is a list of nodes without parents.
pub const LOOSE: [(&str, &str); 3] = [("<a><b/>t</a>", "<x><!--q--><?p i?>u<c k=\"1\"/></x>"), ("<a k=\"1\"><!--q--><b/></a>", "<x><?xml v?><!--r--></x>"), ("<!--q--><a/><?p i?>", "<x>u<y>v<!--w--></y></x>")];

/// Larger starting points, named b0, b1, ...: a fan of k children, a chain, an element with many attributes, a comb.
pub const BIGW: [(&str, usize); 9] = [("fan", 7), ("fan", 9), ("fan", 17), ("chain", 9), ("attrs", 9), ("attrs", 17), ("comb", 6), ("fan", 33), ("mixed", 10)];
pub fn world(s: &str) -> World {
    if let Some(k) = s.strip_prefix('b') {
        let (what, n) = BIGW[k.parse::<usize>().unwrap()];
        let a = match what {
            "fan" => format!("<a>{}</a>", (0..n).map(|i| ["<b/>", "t", "<c k=\"1\"/>", "<!--q-->", "<b>u</b>"][i % 5].to_string()).collect::<String>()),
            "chain" => format!("{}{}", (0..n).map(|i| if i % 3 == 1 { "<b k=\"1\">" } else { "<b>" }).collect::<String>(), "</b>".repeat(n)),
            "attrs" => format!("<a{}><b/></a>", (0..n).map(|i| format!(" a{}=\"{}\"", i, i)).collect::<String>()),
            "comb" => (0..n).fold(String::from("<z/>"), |x, i| format!("<b{}>t{}<c/></b{}>", i, x, i)),
            _ => format!("<a>{}</a>", (0..n).map(|i| format!("<b k=\"{}\"><c/></b>", i)).collect::<String>()),
        };
        return World { a: Box::leak(a.into_boxed_str()), b: "<x n=\"2\"><z/></x>", keep: true };
    }
    // a second tree of given content
    if let Some(x) = s.strip_prefix('c') { return World { a: "<a><b/></a>", b: Box::leak(format!("<x>{}</x>", x).into_boxed_str()), keep: true }; }
    if let Some(k) = s.strip_prefix('o') { let w = LOOSE[k.parse::<usize>().unwrap()]; return World { a: w.0, b: w.1, keep: false }; }
    let w = &WORLDS[s.parse::<usize>().unwrap()];
    World { a: w.a, b: w.b, keep: w.keep }
}
/// Single operations whose target is a document or attribute node, or whose operands do not belong together.
pub fn odd_ops(d: &D, roots: &[usize]) -> Vec<Op> {
    let mut all: Vec<usize> = vec![];
    for &r in roots { all.extend(d.order(r)); }
    let nondoc: Vec<usize> = all.iter().copied().filter(|&i| !matches!(d.n[i].k, K::Doc | K::Attr)).collect();
    let mut v = vec![];
    for &t in &all {
        if matches!(d.n[t].k, K::Doc | K::Attr) { for &n in &nondoc { v.push(Op::P(t, n)); v.push(Op::N(t, n)); v.push(Op::R(t, n)); } }
        for &c in &all { if d.n[c].parent != Some(t) || d.n[c].k == K::Attr { v.push(Op::X(t, c)); } }
    }
    v
}

/// Model and implementation of a world; the model alone suffices to generate.
pub fn model_world(w: &World) -> (D, Vec<usize>) {
    // written as literal constructions through the tiny reader below
    let mut d = D { n: vec![] };
    let r1 = mini(&mut d, w.a);
    let r2 = mini(&mut d, w.b);
    let mut roots = vec![r1, r2];
    if !w.keep {
        // without its document node the top element has no parent
        let x = d.n[r2].ch[0];
        d.n[x].parent = None;
        d.n[r2].ch.clear();
        roots[1] = x;
    }
    (d, roots)
}

/// Reader for the literal worlds above (no CDATA, no directives).
pub fn mini(d: &mut D, s: &str) -> usize {
    let root = d.add(K::Doc, "", "");
    let mut cur = root;
    let mut r = s;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix("<!--") { let e = x.find("-->").unwrap(); d.push(cur, K::Comment, "", &x[..e]); r = &x[e + 3..]; }
        else if let Some(x) = r.strip_prefix("<?") {
            let e = x.find("?>").unwrap();
            let (n, v) = x[..e].split_once(' ').unwrap();
            d.push(cur, if n == "xml" { K::Decl } else { K::Pi }, n, v);
            r = &x[e + 2..];
        }
        else if let Some(x) = r.strip_prefix("</") { let e = x.find('>').unwrap(); cur = d.n[cur].parent.unwrap(); r = &x[e + 1..]; }
        else if let Some(x) = r.strip_prefix('<') {
            let e = x.find('>').unwrap();
            let body = &x[..e];
            let (body, empty) = match body.strip_suffix('/') { Some(b) => (b, true), None => (body, false) };
            let mut it = body.splitn(2, ' ');
            let el = d.push(cur, K::El, it.next().unwrap(), "");
            let mut rest = it.next().unwrap_or("").trim();
            while let Some(q) = rest.find("=\"") {
                let name = rest[..q].to_string();
                let v = &rest[q + 2..];
                let e = v.find('"').unwrap();
                d.attr(el, &name, &crate::props::sax::ref_decode(&v[..e]));
                rest = v[e + 1..].trim();
            }
            if !empty { cur = el; }
            r = &x[e + 1..];
        }
        else { let e = r.find('<').unwrap_or(r.len()); d.push(cur, K::Text, "", &crate::props::sax::ref_decode(&r[..e])); r = &r[e..]; }
    }
    root
}

pub fn live(d: &D, roots: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for &r in roots { v.extend(d.order(r).into_iter().filter(|&i| d.n[i].k != K::Attr)); }
    v
}
pub fn ops_at(d: &D, roots: &[usize]) -> Vec<Op> {
    let l = live(d, roots);
    let els: Vec<usize> = l.iter().copied().filter(|&i| d.n[i].k == K::El).collect();
    let nondoc: Vec<usize> = l.iter().copied().filter(|&i| d.n[i].k != K::Doc).collect();
    let parents: Vec<usize> = l.iter().copied().filter(|&i| matches!(d.n[i].k, K::El | K::Doc)).collect();
    let mut v = vec![];
    for &p in &parents { for &c in &nondoc { v.push(Op::A(p, c)); } }
    for &p in &nondoc { for &c in &nondoc { v.push(Op::P(p, c)); v.push(Op::N(p, c)); v.push(Op::R(p, c)); } }
    for &p in &parents { for &c in &nondoc { if d.n[c].parent == Some(p) || Some(&p) == parents.first() { v.push(Op::X(p, c)); } } }
    for &e in &els { for n in 0..2 { v.push(Op::S(e, n)); v.push(Op::U(e, n)); } }
    // giving up the only handle of a tree's topmost node frees it
    if roots.len() > 1 { for &r in roots { if !d.n[r].ch.is_empty() { v.push(Op::F(r, 0)); } } }
    v
}

/// Applies the operation to the model; returns the copied subtree's root, when one was made.
pub fn apply_model(d: &mut D, roots: &mut Vec<usize>, o: Op) -> Option<usize> {
    let detach = |d: &mut D, roots: &mut Vec<usize>, c: usize| {
        match d.n[c].parent {
            Some(p) => { d.n[p].ch.retain(|&x| x != c); d.n[c].parent = None; }
            None => roots.retain(|&x| x != c),
        }
    };
    match o {
        Op::A(p, c) => {
            if d.is_ancestor_or_self(c, p) { return None; }
            detach(d, roots, c);
            d.n[p].ch.push(c);
            d.n[c].parent = Some(p);
            None
        }
        Op::P(t, n) | Op::N(t, n) | Op::R(t, n) => {
            let p = d.n[t].parent?;
            // an attribute has a parent but is not among its children
            let k = d.n[p].ch.iter().position(|&x| x == t)?;
            let c = d.copy_subtree(n);
            d.n[c].parent = Some(p);
            d.n[p].ch.insert(if let Op::N(..) = o { k + 1 } else { k }, c);
            if let Op::R(..) = o { detach(d, roots, t); roots.push(t); }
            Some(c)
        }
        Op::X(p, c) => {
            if d.n[c].parent == Some(p) && d.n[c].k != K::Attr { detach(d, roots, c); roots.push(c); }
            None
        }
        Op::S(e, n) => {
            let name = ANAMES[n];
            let val = format!("v{}<", d.n.len());
            let i = d.add(K::Attr, name, &val);
            d.n[i].parent = Some(e);
            match d.n[e].at.iter().position(|&a| d.n[a].name == name) {
                Some(k) => { let old = d.n[e].at[k]; d.n[old].parent = None; d.n[e].at[k] = i; }
                None => d.n[e].at.push(i),
            }
            Some(i)
        }
        Op::U(e, n) => {
            if let Some(k) = d.n[e].at.iter().position(|&a| d.n[a].name == ANAMES[n]) { let old = d.n[e].at.remove(k); d.n[old].parent = None; }
            None
        }
        Op::F(r, _) => {
            let (ch, at) = (std::mem::take(&mut d.n[r].ch), std::mem::take(&mut d.n[r].at));
            for &c in ch.iter().chain(&at) { d.n[c].parent = None; }
            roots.retain(|&x| x != r);
            roots.extend(ch);
            None
        }
    }
}

pub struct Live { pub d: D, pub roots: Vec<usize>, pub map: Vec<(usize, NodePtr)> }

pub fn start(w: &World) -> Result<Live, String> {
    let (d, roots) = model_world(w);
    let mut map = vec![];
    let a = new_document(w.a).map_err(|e| e.to_string())?;
    bind(&d, roots[0], &a, &mut map)?;
    let b = new_document(w.b).map_err(|e| e.to_string())?;
    if w.keep { bind(&d, roots[1], &b, &mut map)?; } else { bind(&d, roots[1], &b.root_element(), &mut map)?; }
    Ok(Live { d, roots, map })
}

/// Applies one operation to both sides and pairs the nodes it created.
pub fn apply_both(l: &mut Live, o: Op) -> Result<(), String> {
    let get = |l: &Live, i: usize| at(&l.map, i).clone();
    match o {
        Op::A(p, c) => get(l, p).append_child(&get(l, c)),
        Op::P(t, n) => get(l, t).insert_as_previous_sibling(&get(l, n)),
        Op::N(t, n) => get(l, t).insert_as_next_sibling(&get(l, n)),
        Op::R(t, n) => get(l, t).replace_with(&get(l, n)),
        Op::X(p, c) => get(l, p).delete_child(&get(l, c)),
        Op::S(e, n) => { let v = format!("v{}<", l.d.n.len()); get(l, e).set_attribute(ANAMES[n], &v); }
        Op::U(e, n) => get(l, e).delete_attribute(ANAMES[n]),
        Op::F(r, _) => l.map.retain(|x| x.0 != r),
    }
    let made = apply_model(&mut l.d, &mut l.roots, o);
    if let Some(c) = made {
        let p = l.d.n[c].parent.unwrap();
        let pp = get(l, p);
        let q = if l.d.n[c].k == K::Attr {
            let k = l.d.n[p].at.iter().position(|&x| x == c).unwrap();
            pp.attributes().get(k).cloned()
        } else {
            let k = l.d.n[p].ch.iter().position(|&x| x == c).unwrap();
            pp.nth_child(k)
        };
        let q = q.ok_or_else(|| format!("{}: the new node is not in place in {}", op_str(&o), pp.to_string()))?;
        if id_of(&l.map, &q).is_some() { return Err(format!("{}: an existing node stands where a new one belongs in {}", op_str(&o), pp.to_string())); }
        bind(&l.d, c, &q, &mut l.map).map_err(|e| format!("{}: {}", op_str(&o), e))?;
    }
    Ok(())
}

pub fn observe(l: &Live, steps: &mut u64) -> Result<(), String> {
    for &r in &l.roots { check_nav(&l.d, r, &l.map, steps)?; }
    // attribute nodes taken out of their element belong to nothing
    for (i, p) in &l.map {
        if l.d.n[*i].k == K::Attr && l.d.n[*i].parent.is_none() && p.parent().is_some() {
            return Err(format!("removed attribute {:?} still has a parent", p.name()));
        }
    }
    Ok(())
}

/// All histories of a world up to a depth, through a sink.
pub fn histories(wi: usize, depth: usize, g: &mut GenInfo, sink: &mut dyn FnMut(&str) -> bool) -> bool {
    histories_of(&WORLDS[wi], depth, g, sink)
}
pub fn histories_of(w: &World, depth: usize, g: &mut GenInfo, sink: &mut dyn FnMut(&str) -> bool) -> bool {
    histories_after(w, None, depth, g, sink)
}
/// The histories that begin with the given operation.
pub fn histories_after(w: &World, first: Option<Op>, depth: usize, g: &mut GenInfo, sink: &mut dyn FnMut(&str) -> bool) -> bool {
    let (mut d, mut roots) = model_world(w);
    let mut states = std::collections::HashSet::new();
    let pre = match first { Some(o) => { apply_model(&mut d, &mut roots, o); op_str(&o) } None => String::new() };
    fn go(d: &D, roots: &[usize], depth: usize, pre: &str, g: &mut GenInfo, states: &mut std::collections::HashSet<u64>, sink: &mut dyn FnMut(&str) -> bool) -> bool {
        let key: String = roots.iter().map(|&r| doc_term(d, r)).collect();
        states.insert(hs(&key));
        if !pre.is_empty() && !sink(pre) { return false; }
        if depth == 0 { return true; }
        for o in ops_at(d, roots) {
            g.transitions += 1;
            let mut d2 = d.clone();
            let mut r2 = roots.to_vec();
            apply_model(&mut d2, &mut r2, o);
            let h = if pre.is_empty() { op_str(&o) } else { format!("{} {}", pre, op_str(&o)) };
            if !go(&d2, &r2, depth - 1, &h, g, states, sink) { return false; }
        }
        true
    }
    let r = go(&d, &roots, depth, &pre, g, &mut states, sink);
    g.states += states.len() as u64;
    r
}

/// Runs the history, then asks first for the position of the k-th live node, then of all others, last to first.
fn first_asked(w: &World, hist: &str, pre: bool, k: usize, steps: &mut u64) -> Result<Option<u64>, String> {
    let mut l = start(w)?;
    if pre { observe(&l, steps)?; }
    for o in hist.split(' ') { apply_both(&mut l, op_parse(o))?; }
    let mut all: Vec<(usize, usize)> = vec![];
    for &r in &l.roots { all.extend(l.d.order(r).into_iter().map(|i| (r, i))); }
    if k >= all.len() { return Ok(None); }
    let (r, j) = all[k];
    let oj = at(&l.map, j).document_order();
    let tree: Vec<usize> = all.iter().filter(|x| x.0 == r).map(|x| x.1).collect();
    let pj = tree.iter().position(|&x| x == j).unwrap();
    for (pi, &i) in tree.iter().enumerate().rev() {
        *steps += 1;
        let oi = at(&l.map, i).document_order();
        if oi.cmp(&oj) != pi.cmp(&pj) { return Err(format!("node #{} {:?} <{}>, asked first, is at {}; node #{} {:?} <{}> is at {}", j, l.d.n[j].k, l.d.n[j].name, oj, i, l.d.n[i].k, l.d.n[i].name, oi)); }
    }
    observe(&l, steps)?;
    Ok(Some(hs(&l.roots.iter().map(|&r| l.d.xml(r)).collect::<Vec<_>>().join("|"))))
}

impl Prop for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn rule(&self) -> &'static str {
        "every history up to the stated depth of append_child, insert_as_previous/next_sibling, replace_with, delete_child, set_attribute, delete_attribute and dropping the handle of a tree's topmost node, over \
         every choice of operands (nodes of both documents, copies and detached nodes included), from 5 starting worlds; the whole navigation interface is compared \
         with the model on every live tree, observing at the end only, at the start and the end, or after every step. Non-trivial: the model state changed."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let depths = tier.pick([2, 2, 3, 2, 1], [2, 2, 3, 3, 2]);
        for (wi, dep) in depths.iter().enumerate() {
            let ws = wi.to_string();
            if !histories(wi, *dep, &mut g, &mut |h| {
                for mode in ["0", "1", "2"] { if !sink(&[&ws, mode, h]) { return false; } }
                true
            }) { return g; }
            g.notes.push(format!("world {}: all histories of 1..={} operations, 3 observation modes", wi, dep));
        }
        if tier == Tier::Thorough {
            if !histories(2, 4, &mut g, &mut |h| sink(&["2", "1", h])) { return g; }
            g.notes.push("world 2: all histories of up to 4 operations, observed at start and end".into());
        }
        // the first position asked for after the change is that of each node in turn
        let fd = tier.pick([1, 1, 2, 1, 1], [1, 1, 2, 2, 1]);
        for (wi, dep) in fd.iter().enumerate() {
            let ws = wi.to_string();
            if !histories(wi, *dep, &mut g, &mut |h| sink(&[&ws, "f", h]) && sink(&[&ws, "g", h])) { return g; }
        }
        g.notes.push(format!("histories of up to {:?} operations in the worlds, every node being the first whose position is asked for, with and without having asked before", fd));
        for wi in 0..WORLDS.len() + BIGW.len() {
            let ws = if wi < WORLDS.len() { wi.to_string() } else { format!("b{}", wi - WORLDS.len()) };
            let (d, roots) = model_world(&world(&ws));
            for o in odd_ops(&d, &roots) { for mode in ["0", "1"] { if !sink(&[&ws, mode, &op_str(&o)]) { return g; } } }
            if wi >= WORLDS.len() {
                let modes: &[&str] = if d.n.len() < 25 { &["0", "1", "f", "g"] } else { &["1"] };
                if !histories_of(&world(&ws), 1, &mut g, &mut |h| modes.iter().all(|m| sink(&[&ws, m, h]))) { return g; }
            }
        }
        g.notes.push(format!("every single operation with a document or attribute node as target or an operand of another parent; every single operation in {} larger worlds (fans, chains, combs, attribute lists of up to 33)", BIGW.len()));
        for wi in 0..LOOSE.len() {
            let ws = format!("o{}", wi);
            let (_, roots) = model_world(&world(&ws));
            let f = Some(Op::F(roots[1], 0));
            if !histories_after(&world(&ws), f, 1, &mut g, &mut |h| sink(&[&ws, "f", h]) && sink(&[&ws, "g", h])) { return g; }
            if !histories_after(&world(&ws), f, 2, &mut g, &mut |h| ["0", "1", "2"].iter().all(|m| sink(&[&ws, m, h]))) { return g; }
        }
        g.notes.push(format!("{} worlds with loose nodes of every kind, all histories of up to 2 operations after the loosening", LOOSE.len()));
        // what is copied or moved: content of every kind next to content of every kind
        let pc = ["<b/>", "<b> </b>", "t", " ", "\n", "<!---->", "<!-- -->", "<?p i?>", "<c k=\"\"/>", "<c k=\" \" l=\"v\">  </c>", "<c><d/> </c>", "]", "<b>0</b>", "<b><b/><b/></b>"];
        let mut nw = 0;
        let mut nh = 0u64;
        if !seqs(&pc, 1, tier.pick(2, 3), &mut |q| {
            let ws = format!("c{}", q.concat());
            nw += 1;
            histories_of(&world(&ws), 1, &mut g, &mut |h| { nh += 1; sink(&[&ws, "0", h]) && sink(&[&ws, "1", h]) })
        }) { return g; }
        g.notes.push(format!("{} worlds whose second tree is every sequence of up to 2 (thorough: 3) of {} pieces of content, all {} single operations, observed after and before and after", nw, pc.len(), nh));
        if !sink(&["deep0", "copy", "1000", "", "<a>", "x", "</a>"]) || !sink(&["deep0", "copy", "100000", "", "<a>", "x", "</a>"]) { return g; }
        for n in ["1000", "100000"] { if !sink(&["deep", "copy", n, "", "<a>", "x", "</a>"]) { return g; } }
        g.notes.push("elements nested 1,000 and 100,000 deep (in a process of their own)".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        if f[0] == "deep" || f[0] == "deep0" { self.steps += 1; return crate::props::deep::case(f); }
        let w = world(f[0]);
        let mode = f[1];
        if mode == "f" || mode == "g" {
            let mut h = 1;
            let mut k = 0;
            loop {
                match first_asked(&w, f[2], mode == "g", k, &mut self.steps) {
                    Ok(Some(o)) => h = o,
                    Ok(None) => return Out::Ok { obs: h, trivial: false },
                    Err(e) => return Out::Bad(format!("world {:?} + {:?} (document of the second {}), history {}: {}", w.a, w.b, if w.keep { "kept" } else { "dropped" }, f[2], e)),
                }
                k += 1;
            }
        }
        let r = (|| -> Result<u64, String> {
            let mut l = start(&w)?;
            let before = l.d.clone();
            if mode != "0" { observe(&l, &mut self.steps)?; }
            for o in f[2].split(' ') {
                apply_both(&mut l, op_parse(o))?;
                if mode == "2" { observe(&l, &mut self.steps)?; }
            }
            observe(&l, &mut self.steps)?;
            if l.d == before { return Ok(0); }
            Ok(hs(&l.roots.iter().map(|&r| l.d.xml(r)).collect::<Vec<_>>().join("|")))
        })();
        match r {
            Ok(o) => Out::Ok { obs: o, trivial: o == 0 },
            Err(e) => Out::Bad(format!("world {:?} + {:?} (document of the second {}), history {}: {}", w.a, w.b, if w.keep { "kept" } else { "dropped" }, f[2], e)),
        }
    }
    fn steps(&self) -> u64 { self.steps }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["append_child moves the node; the sibling insertions and replace_with insert a deep copy; operations that would make a cycle or lack a parent do nothing",
             "document and attribute nodes are not passed as the node to insert (the documentation says not to)"]
    }
}

// =====================================================================
#[derive(Default)]
struct C08 { steps: u64 }
const C8N: [&str; 5] = ["k", "p:l", "l", "kk", "K"];
const C8V: [&str; 2] = ["", "<\"v"];
const C8P: [&str; 34] = ["k", "K", "kk", "kK", "l", "k1", "k2", "k10", "p:k", "q:k", "p:l", "P:k", "k:p", "pk", "p", ":k", "k:", "xmlns", "xmlns:p", "xmlns:q", "xmlns:k", "xml:lang", "lang", "id", "xml:id", "name", "value",
    "a-b", "a.b", "a_b", "\u{e9}", "\u{c9}", "\u{6bb5}", "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"];
const C8W: [&str; 14] = ["", " ", "1", "1 ", " 1", "x", "X", "<", "&amp;", "&", "\"", "'", "\n", "\u{20000}"];
const C8D: [&str; 6] = ["<r><e/><e k=\"s\"/></r>", "<r><e k=\"1\" p:l=\"2\"/></r>", "<r><e kk=\"1\"><f k=\"9\"/></e></r>", "<r><e kk=\"3\" k=\"2\" p:l=\"1\" z=\"0\"/></r>",
    "<r><e l=\"3\" p:l=\"2\" q:l=\"1\" p:k=\"0\"/></r>", "<r><e a0=\"0\" a1=\"1\" a2=\"2\" a3=\"3\" a4=\"4\" a5=\"5\" a6=\"6\" a7=\"7\" a8=\"8\" a9=\"9\" b0=\"0\" b1=\"1\" b2=\"2\" b3=\"3\" b4=\"4\" b5=\"5\" k=\"6\" l=\"7\"/></r>"];

impl Prop for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn rule(&self) -> &'static str {
        "every sequence up to the stated length of set_attribute and delete_attribute over 5 names and 2 values, from 6 documents; after every step the ordered \
         attribute list, every attribute_value, the serialised document and the XPath views (@*, @name, count) are compared with an ordered map. Non-trivial: some attribute changed."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let full: Vec<&str> = vec!["00", "01", "10", "11", "20", "21", "0-", "1-", "2-", "30", "3-", "41", "4-"];
        let few: Vec<&str> = vec!["00", "11", "20", "0-", "1-", "2-"];
        let n = tier.pick(6, 7);
        for d in 0..C8D.len() {
            let ds = d.to_string();
            let mut b = String::new();
            if !seqs(&full, 1, tier.pick(4, 5), &mut |q| { b.clear(); for (i, p) in q.iter().enumerate() { if i > 0 { b.push(' '); } b.push_str(p); } sink(&[&ds, &b]) }) { return g; }
            let ops = &few;
            if !seqs(ops, 1, n, &mut |q| { b.clear(); for (i, p) in q.iter().enumerate() { if i > 0 { b.push(' '); } b.push_str(p); } sink(&[&ds, &b]) }) { return g; }
        }
        g.notes.push(format!("all sequences of 1..={} of 13 operations and of 1..={} of 6 operations from 6 documents", n - 1, n));
        let set = |n: &str, v: &str| format!("S{}\u{2}{}\u{3}", n, v);
        let del = |n: &str| format!("D{}\u{3}", n);
        for x in C8P { for y in C8P {
            let one = set(x, "1");
            let two = if x == y { one.clone() } else { format!("{}{}", one, set(y, "2")) };
            for (init, ops) in [(&one, set(y, "3")), (&one, del(y)), (&one, format!("{}{}", set(y, "3"), del(x))), (&one, format!("{}{}", del(y), set(y, "4"))), (&one, format!("{}{}", del(x), set(y, "4"))),
                (&two, set(x, "3")), (&two, set(y, "3")), (&two, del(x)), (&two, del(y)), (&two, format!("{}{}", del(x), set(x, "5"))), (&two, format!("{}{}{}", set(x, "6"), del(y), del(x)))] {
                if !sink(&["G", init, &ops]) { return g; }
            }
        } }
        g.notes.push(format!("every pair of {} names (case, prefixes, parts of each other, declarations) under 11 histories", C8P.len()));
        let near = crate::names::near_pairs(tier.pick(20, 40), tier.pick(257, 1025));
        for (x, y) in near.iter() {
            let one = set(x, "1");
            let two = format!("{}{}", one, set(y, "2"));
            for (init, ops) in [(&one, set(y, "3")), (&one, del(y)), (&two, set(x, "3")), (&two, set(y, "3")), (&two, del(x)), (&two, del(y)), (&two, format!("{}{}", del(x), set(x, "5")))] { if !sink(&["G", init, &ops]) { return g; } }
        }
        g.notes.push(format!("{} pairs of names that differ in one place, in order, in case or in length, under 7 histories", near.len()));
        for v in C8W { for w in C8W { for (init, ops) in [(set("k", v), set("k", w)), (set("k", v), format!("{}{}", set("l", w), del("k"))), (set("k", v), format!("{}{}", set("l", w), del("l"))), (set("k", v), format!("{}{}", set("k", w), del("k"))), (format!("{}{}", set("k", v), set("l", w)), format!("{}{}", del("k"), set("k", w)))] {
            if !sink(&["G", &init, &ops]) { return g; }
        } } }
        g.notes.push(format!("every pair of {} values under 5 histories", C8W.len()));
        for k in crate::names::sizes(tier.pick(40, 80), tier.pick(257, 1025)) {
            let init: String = (0..k).map(|i| set(&format!("k{}", i), &i.to_string())).collect();
            let mut at: Vec<usize> = if k <= 40 { (0..k).collect() } else { vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, k / 2, k - 3, k - 2, k - 1] };
            at.retain(|&i| i < k);
            at.dedup();
            for i in at {
                let n = format!("k{}", i);
                for ops in [set(&n, "x"), del(&n), format!("{}{}", del(&n), set(&n, "y")), format!("{}{}", set("z", "1"), del(&n)), format!("{}{}", set(&n, "x"), set("z", "1"))] {
                    if !sink(&["G", &init, &ops]) { return g; }
                }
            }
            // built up and taken down one by one, either way round
            let down: String = (0..k).map(|i| del(&format!("k{}", i))).collect();
            let up: String = (0..k).rev().map(|i| del(&format!("k{}", i))).collect();
            let odd: String = (0..k).filter(|i| i % 2 == 1).map(|i| del(&format!("k{}", i))).collect();
            if k <= 130 { for ops in [format!("{}{}", init, down), format!("{}{}", init, up), format!("{}{}{}", init, odd, init)] { if !sink(&["G", "", &ops]) { return g; } } }
        }
        g.notes.push("lists of 0..40 attributes and around powers of two, every place (or 15 places) set, deleted, set again; built up and taken down".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let built;
        let mut extra: Vec<String> = vec![];
        let decode = |t: &str| -> Vec<(bool, String, String)> { t.split('\u{3}').filter(|x| !x.is_empty()).map(|x| match x[1..].split_once('\u{2}') { Some((n, v)) => (true, n.to_string(), v.to_string()), None => (false, x[1..].to_string(), String::new()) }).collect() };
        let (src, ops): (&str, Vec<(bool, String, String)>) = if f[0] == "G" {
            let mut t = String::from("<r><e");
            for (_, n, v) in decode(f[1]) { t += &format!(" {}=\"{}\"", n, encode(&v)); extra.push(n); }
            t += "/><e k=\"s\"/></r>";
            built = t;
            let ops = decode(f[2]);
            for o in &ops { extra.push(o.1.clone()); }
            (&built, ops)
        } else {
            (C8D[f[0].parse::<usize>().unwrap()], f[1].split(' ').map(|op| { let n = C8N[op[..1].parse::<usize>().unwrap()].to_string(); if &op[1..] == "-" { (false, n, String::new()) } else { (true, n, C8V[op[1..].parse::<usize>().unwrap()].to_string()) } }).collect())
        };
        extra.sort();
        extra.dedup();
        extra.truncate(60);
        let mut d = D { n: vec![] };
        let root;
        if f[0] == "G" {
            root = d.add(K::Doc, "", "");
            let r = d.push(root, K::El, "r", "");
            let e = d.push(r, K::El, "e", "");
            for (_, n, v) in decode(f[1]) { d.attr(e, &n, &v); }
            let e2 = d.push(r, K::El, "e", "");
            d.attr(e2, "k", "s");
        } else { root = mini(&mut d, src); }
        let doc = match new_document(src) { Ok(d) => d, Err(e) => return Out::Bad(format!("{} does not parse: {}", src, e)) };
        let e = d.n[d.n[root].ch[0]].ch[0];
        let mut p = doc.root_element().first_child().unwrap();
        let mut changed = false;
        for (step, op) in ops.iter().enumerate() {
            self.steps += 1;
            // every prefix is a case of its own; queries on the way are made in half of the histories
            let query = step + 1 == ops.len() || (f[0] != "G" && hs(f[1]) % 2 == 0);
            let name = op.1.as_str();
            let pos = d.n[e].at.iter().position(|&a| d.n[a].name == name);
            if !op.0 {
                if let Some(k) = pos { d.n[e].at.remove(k); changed = true; }
                p.delete_attribute(name);
            } else {
                changed = true;
                let v = op.2.as_str();
                match pos { Some(k) => { let i = d.n[e].at[k]; d.n[i].value = v.into(); } None => { d.attr(e, name, v); } }
                p.set_attribute(name, v);
            }
            if f[0] == "G" && ops.len() > 8 && step + 1 < ops.len() && step % 7 != 3 { continue; }
            let want: Vec<(String, String)> = d.n[e].at.iter().map(|&a| (d.n[a].name.clone(), d.n[a].value.clone())).collect();
            let got: Vec<(String, String)> = p.attributes().iter().map(|a| (a.name(), a.value())).collect();
            if want != got { return Out::Bad(format!("{} after {}: attributes {:?}, expected {:?}", src, f[1], got, want)); }
            for nm in ["k", "p:l", "kk", "z", "none", "l", "q:l", "p:k", "K", "a9", "p", ""].into_iter().chain(extra.iter().map(|x| x.as_str())) {
                let w = d.attr_value(e, nm).map(|s| s.to_string());
                if p.attribute_value(nm) != w { return Out::Bad(format!("{} after {}: attribute_value({}) is {:?}, expected {:?}", src, f[1], nm, p.attribute_value(nm), w)); }
            }
            for a in p.attributes() { if a.parent().as_ref() != Some(&p) { return Out::Bad(format!("{} after {}: attribute {} has a wrong parent", src, f[1], a.name())); } }
            if doc.to_string() != d.xml(root) { return Out::Bad(format!("{} after {}: written {:?}, expected {:?}", src, f[1], doc.to_string(), d.xml(root))); }
            if !query { continue; }
            let ns = match p.get_nodeset("@*") { Ok(n) => n, Err(e) => return Out::Bad(format!("@*: {}", e)) };
            let gx: Vec<(String, String)> = ns.iter().map(|a| (a.name(), a.value())).collect();
            if gx != want { return Out::Bad(format!("{} after {}: @* selects {:?}, expected {:?}", src, f[1], gx, want)); }
            for nm in ["k", "kk", "l", "p:l", "K"] {
                let r = match p.eval_xpath(&format!("count(@{})", nm)) { Ok(r) => r.to_string(), Err(e) => e.to_string() };
                let w = if d.attr_value(e, nm).is_some() { "1" } else { "0" };
                if r != w { return Out::Bad(format!("{} after {}: count(@{}) is {}", src, f[1], nm, r)); }
            }
        }
        Out::Ok { obs: hs(&d.xml(root)), trivial: !changed }
    }
    fn steps(&self) -> u64 { self.steps }
}

// =====================================================================
#[derive(Default)]
struct C25 { steps: u64 }

impl Prop for C25 {
    fn id(&self) -> &'static str { "C25" }
    fn rule(&self) -> &'static str {
        "every tree up to the stated number of nodes over 2 names, 2 attribute lists and 5 kinds of leaf: to_pretty_string of every node compared with the layout the \
         documentation shows; trees without text read back the same after dropping the layout's white space. Non-trivial: some nesting."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let p = Pal { names: vec!["a", "p:b"], attrs: vec![vec![], vec![("k", "1<"), ("l", "\"")]],
            leaves: vec![(K::Text, "", "t&"), (K::Text, "", " \n"), (K::Comment, "", " c\nd "), (K::Pi, "p", "i\n j "), (K::Decl, "xml", "version='1.0'")] };
        let n = tier.pick(5, 6);
        for k in 1..=n { for f in forests(k, &p) { let t = doc_term(&doc_of(&f), 0); if !sink(&[&t]) { return g; } } }
        g.notes.push(format!("all forests of 1..={} nodes", n));
        if !empties(tier.pick(4, 5), |d| { let t = doc_term(d, 0); sink(&[&t]) }) { return g; }
        g.notes.push("all forests of up to 4 (5) nodes without name, value or content".into());
        for d in big_docs(tier) { let t = doc_term(&d, 0); if !sink(&[&t]) { return g; } }
        g.notes.push("growing families: chains, fans, combs and attribute lists".into());
        let mut b = String::new();
        if !seqs(&[" ", "\n", "\t", "a", "&", "<", "\"", "-", "]"], 0, tier.pick(4, 5), &mut |q| {
            b.clear();
            for p in q { b.push_str(p); }
            for place in 0..3 {
                let mut d = D::new();
                let mut c = d.push(0, K::El, "r", "");
                d.attr(c, "k", &b);
                if place > 0 { c = d.push(c, K::El, "s", ""); d.attr(c, "l", &b); }
                if !b.is_empty() { d.push(c, K::Text, "", &b); }
                if place == 2 { d.push(c, K::El, "e", ""); }
                if !b.contains("--") && !b.starts_with('-') && !b.ends_with('-') { d.push(c, K::Comment, "", &b); }
                if place == 2 && !b.is_empty() { d.push(c, K::Text, "", &b); }
                if !b.starts_with(|c| " \n\t".contains(c)) { d.push(c, K::Pi, "p", &b); d.push(0, K::Pi, "q", &b); }
                let t = doc_term(&d, 0);
                if !sink(&[&t]) { return false; }
            }
            true
        }) { return g; }
        g.notes.push("all strings of up to 4 (5) of 9 characters as every kind of content, at 3 places".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let d = doc_parse(f[0]);
        let src = d.xml(0);
        let mut m = vec![];
        let p = match new_document(&src) { Ok(p) => p, Err(e) => return Out::Bad(format!("{:?} does not parse: {}", src, e)) };
        if let Err(e) = bind(&d, 0, &p, &mut m) { return Out::Bad(format!("{:?}: {}", src, e)); }
        for (i, q) in &m {
            self.steps += 1;
            let w = d.pretty(*i, 0);
            if q.to_pretty_string() != w { return Out::Bad(format!("{:?}: pretty form {:?}, expected {:?}", src, q.to_pretty_string(), w)); }
        }
        if !d.n.iter().any(|n| n.k == K::Text) {
            let ps = p.to_pretty_string();
            let q = match new_document(&ps) { Ok(q) => q, Err(e) => return Out::Bad(format!("pretty form {:?} does not parse: {}", ps, e)) };
            fn strip(p: &NodePtr) { for c in p.children() { if kind_of(&c) == Some(K::Text) { p.delete_child(&c); } else { strip(&c); } } }
            strip(&q);
            if q.to_string() != src { return Out::Bad(format!("pretty form {:?} of {:?} reads back as {:?}", ps, src, q.to_string())); }
        }
        Out::Ok { obs: hs(&src), trivial: d.n.iter().all(|n| n.k != K::El || n.ch.is_empty()) }
    }
    fn steps(&self) -> u64 { self.steps }
}
