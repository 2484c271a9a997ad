// Properties of XML reading: C01 (totality), C02 (token stream), C03
// (well-formedness verdicts), C05 (references).

use crate::gen::seqs;
use crate::names::*;
use crate::refxml::{self, Verdict};
use crate::rdom::*;
use crate::sup::*;
use amxml::dom::new_document;
use amxml::sax::{SaxDecoder, XmlToken};

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C01::default()), Box::new(C02::default()), Box::new(C03::default()), Box::new(C05::default())]
}

/// A token written out; the strings are unambiguous because fields are separated by \u{1}.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    S(String, Vec<(String, String)>),
    E(String),
    T(String),
    P(String, String),
    C(String),
    D(String),
    Err,
}

/// Drives the decoder to EOF. Err when it does not get there.
pub fn drive(src: &str) -> Result<Vec<Tok>, String> {
    // U+0000 is no XML character: the source is refused as a whole
    if src.contains('\u{0}') {
        return match SaxDecoder::new(src) {
            Err(_) => Ok(vec![Tok::Err]),
            Ok(_) => { let v = drive_tokens(src)?; if v.contains(&Tok::Err) { Ok(v) } else { Err("U+0000 is passed over without an error".into()) } }
        };
    }
    drive_tokens(src)
}
fn drive_tokens(src: &str) -> Result<Vec<Tok>, String> {
    let mut dec = SaxDecoder::new(src).map_err(|e| format!("SaxDecoder::new failed: {}", e))?;
    let limit = 2 * src.chars().count() + 4;
    let mut v = vec![];
    for _ in 0..limit {
        match dec.raw_token() {
            Ok(XmlToken::EOF) => {
                return match dec.raw_token() {
                    Ok(XmlToken::EOF) => Ok(v),
                    _ => Err("a token was returned after EOF".into()),
                };
            }
            Ok(XmlToken::StartElement { name, attr }) =>
                v.push(Tok::S(name, attr.iter().map(|a| (a.name().to_string(), a.value().to_string())).collect())),
            Ok(XmlToken::EndElement { name }) => v.push(Tok::E(name)),
            Ok(XmlToken::CharData { chardata }) => v.push(Tok::T(chardata)),
            Ok(XmlToken::ProcInst { target, inst }) => v.push(Tok::P(target, inst)),
            Ok(XmlToken::Comment { comment }) => v.push(Tok::C(comment)),
            Ok(XmlToken::Directive { directive }) => v.push(Tok::D(directive)),
            Err(_) => v.push(Tok::Err),
        }
    }
    Err(format!("no EOF within {} tokens", limit))
}

// =====================================================================
#[derive(Default)]
struct C01 { steps: u64 }

pub const CH16: [&str; 17] = ["<", ">", "/", "!", "?", "-", "[", "]", "=", "\"", "'", "&", ";", "a", " ", "#", "\u{0}"];
const TOK: [&str; 29] = ["\u{0}", "\u{feff}", "<a", "<a>", "</a>", "</", "/>", ">", "<!--", "-->", "<!", "<![CDATA[", "]]>", "<?", "?>", "<?xml ",
    " b=", "\"", "'", "&lt;", "&#", "&#x", ";", "41", " ", "\n", "\r", "\u{6bb5}", "<!DOCTYPE"];

fn feed(sink: &mut Sink, parts: &[&str], buf: &mut String) -> bool {
    buf.clear();
    for p in parts { buf.push_str(p); }
    sink(&[buf])
}

impl Prop for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn rule(&self) -> &'static str {
        "every string up to the stated length over 17 markup-significant characters (U+0000 included), every sequence up to the stated length of 29 markup \
         fragments, and a family of growing inputs; each is read to the end by SaxDecoder and parsed by new_document. Non-trivial: contains '<' or '&'."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let mut b = String::new();
        let n = tier.pick(6, 7);
        if !seqs(&CH16, 0, n, &mut |s| feed(sink, s, &mut b)) { return g; }
        g.notes.push(format!("all strings of length 0..={} over 17 characters", n));
        // an open start tag followed by anything: the longest scanner loop
        let n = tier.pick(5, 6);
        for pre in ["<a ", "<a b", "<a b=\"", "<a></", "<!-", "<![CDATA[", "<?a", "<!D<"] {
            if !seqs(&CH16, 0, n, &mut |s| { b.clear(); b.push_str(pre); for p in s { b.push_str(p); } sink(&[&b]) }) { return g; }
        }
        g.notes.push(format!("8 open-construct prefixes followed by all strings of length 0..={}", n));
        let n = tier.pick(4, 5);
        if !seqs(&TOK, 0, n, &mut |s| feed(sink, s, &mut b)) { return g; }
        g.notes.push(format!("all sequences of 0..={} of 29 fragments", n));
        for k in [1usize, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024] {
            for (pre, mid, post) in [("", "<a>", ""), ("", "</a>", ""), ("<a", " b=\"v\"", ">"), ("<a", " b=\"v\"", ""), ("<a>", "x", ""),
                ("<a>", "x", "</a>"), ("<a>", "&lt;", "</a>"), ("<a>", "&", "</a>"), ("<a>", "&#x41;", ""), ("<!--", "-", "-->"), ("<!--", "-", ""),
                ("<![CDATA[", "]", "]]>"), ("<![CDATA[", "]", ""), ("<?p ", "?", "?>"), ("<?p ", "?", ""), ("<!D ", "<", ">"), ("<!D ", "<>", ">"), ("<", "a", "/>"),
                ("<a b='", "x", "'/>"), ("<a b='", "&gt;", "'/>"), ("<a", " ", "/>"), ("", "<a/>", ""), ("", "\n", "")] {
                let s = format!("{}{}{}", pre, mid.repeat(k), post);
                if !sink(&[&s]) { return g; }
            }
        }
        g.notes.push("21 sizes up to 1024 of 23 repeated constructs".into());
        for n in ["10000", "300000"] { for (pre, mid, post, closer) in [("", "<a>", "", ""), ("", "<a>", "", "</a>"), ("", "<a>", "</b>", ""), ("", "<a><b/>", "x", "</a>"), ("", "</a>", "", ""), ("", "<a/>", "", ""), ("<!D ", "<", "", ""), ("<!D ", "<", "", ">"), ("<!--", "-", "", ""), ("<a", " b='c'", "/>", ""), ("<a>", "<!---->", "</a>", ""),
            ("<a>", "&amp;", "</a>", ""), ("<a>", "<?p?>", "", ""), ("<", "a", "", ""), ("<a ", " ", "", ""), ("<a>", "]]>", "</a>", ""), ("<a>", "<![CDATA[]]>", "</a>", ""), ("", "<!D>", "", "")] {
            if !sink(&["deep", "read", n, pre, mid, post, closer]) { return g; }
        } }
        let units: &[(&str, &str, &str, &str)] = &[("", "<a>", "", "</a>"), ("", "<a>", "", ""), ("", "</a>", "", ""), ("", "<a/>", "", ""), ("<a", " b='c'", "/>", ""), ("<a", " b='c'", "", ""), ("<a b='", "c", "'/>", ""), ("<a b='", "&lt;", "'/>", ""), ("<", "a", "/>", ""), ("</", "a", ">", ""), ("<a>", "x", "</a>", ""), ("<a>", "&amp;", "</a>", ""), ("<a>", "&#65;", "</a>", ""), ("<a>", "&", "</a>", ""), ("<a>", "]", "</a>", ""), ("<a>", "\u{e9}", "</a>", ""),
            ("<!--", "x", "-->", ""), ("<!--", "-", "-->", ""), ("<a>", "<!---->", "</a>", ""), ("<a><![CDATA[", "x", "]]></a>", ""), ("<a><![CDATA[", "]", "]]></a>", ""), ("<a>", "<![CDATA[]]>", "</a>", ""), ("<?p ", "x", "?><a/>", ""), ("<?p ", "?", "?><a/>", ""), ("<?", "p", "?><a/>", ""), ("<a>", "<?p?>", "</a>", ""), ("<!D ", "<", "", ">"), ("<!D ", "<x>", "><a/>", ""), ("<!D ", "x", "><a/>", ""), ("", "<!D>", "", ""), ("<!", "D", "><a/>", ""), ("<a b='&#", "0", "65;'/>", ""), ("<a>&", "x", ";</a>", "")];
        let mut nd = 0;
        for n in ["100000", "400000"] { for u in units { nd += 1; if !sink(&["deep0", "read", n, u.0, u.1, u.2, u.3]) { return g; } } }
        for sp in [" ", "\t", "\n", "\r", "\r\n", " \n"] { for (pre, post) in [("", "<a/>"), ("<a/>", ""), ("<a>", "</a>"), ("<a", "/>"), ("<a", ">"), ("<a", "b='c'/>"), ("<a b", "='c'/>"), ("<a b=", "'c'/>"), ("<a b='c'", "/>"), ("<a b='c'", "d='e'/>"), ("<a b='", "'/>"), ("<a></a", ">"), ("<", "a/>"), ("</", "a>"), ("<?p", "?><a/>"), ("<?p", "x?><a/>"), ("<?", "p?><a/>"), ("<!D", "><a/>"), ("<!--", "--><a/>"), ("<a><![CDATA[", "]]></a>"), ("<a", ""), ("<?xml", "version='1.0'?><a/>")] {
            nd += 1;
            if !sink(&["deep0", "read", "400000", pre, sp, post, ""]) { return g; }
        } }
        g.notes.push("18 constructs repeated 10,000 and 300,000 times (each in a process of its own)".into());
        g.notes.push(format!("{} cases of 33 constructs and of white space of 6 kinds at 22 places, repeated up to 400,000 times and read by an unoptimised build of the library", nd));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let s = f[0];
        if s == "deep" || s == "deep0" { self.steps += 1; return crate::props::deep::case(f); }
        self.steps += 2;
        let toks = match drive(s) { Ok(t) => t, Err(e) => return Out::Bad(e) };
        let doc = new_document(s);
        if toks.contains(&Tok::Err) && doc.is_ok() {
            return Out::Bad("SaxDecoder reports a syntax error, new_document accepts the input".into());
        }
        let o = format!("{:?}{}", toks, doc.is_ok());
        Out::Ok { obs: hs(&o), trivial: !(s.contains('<') || s.contains('&')) }
    }
    fn steps(&self) -> u64 { self.steps }
    fn assumptions(&self) -> Vec<&'static str> { vec!["inputs longer than the bounds are covered only by the growing families", "a stack of at least 8 MB"] }
}

// =====================================================================
// C02: the token stream of well-formed lexical pieces
#[derive(Default)]
struct C02 { steps: u64 }

pub const MK: [&str; 15] = ["<", ">", "/", "!", "?", "-", "a", "b", " ", "=", "'", "\"", "&", "[", "]"];
pub const FRAG: [&str; 34] = ["<", "</", "/>", ">", "a", "p:a", "A", " ", "\n", "b", "=", "'", "\"", "b='v'", " b=\"v'w\"", "<!--", "-->", "-", "--", "<![CDATA[", "]]>", "]", "]]", "<?", "?>", "?", "xml", "<!D", "&lt;", "&#65;", "x", "<a>", "</a>", "<a/>"];
/// Characters that matter less to markup, with the ones they can be mixed up with.
const MK2: [&str; 15] = ["1", "\n", "\t", ":", ".", "A", "\u{3042}", "a", " ", "?", "-", "]", ">", "'", "="];
const STARTS2: [&str; 16] = ["<", "<a", "<a ", "<a b", "<a b=", "<a b='", "<a b='1' ", "</a", "<!--", "<![CDATA[", "<?", "<?a", "<?a ", "<!D", "t", "<a>t</"];
const STARTS: [&str; 14] = ["<a ", "<a b", "<a b=", "<a b='", "<a b='c'", "<a></", "<a></a", "<!-", "<!--", "<![CDATA[", "<?a", "<?xml ", "<!D<", "<a><b/>"];

/// Sources for the reference reader: strings, continued constructs, sequences of fragments.
fn gen_sources(tier: Tier, sink: &mut Sink, g: &mut GenInfo) -> bool {
    let mut b = String::new();
    let n = tier.pick(6, 7);
    if !seqs(&MK, 0, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["R", &b]) }) { return false; }
    g.notes.push(format!("all strings of 0..={} of 15 markup characters", n));
    let n = tier.pick(4, 5);
    for pre in STARTS { for post in ["", ">", "</a>"] {
        if !seqs(&MK, 0, n, &mut |q| { b.clear(); b.push_str(pre); for p in q { b.push_str(p); } b.push_str(post); sink(&["R", &b]) }) { return false; }
    } }
    g.notes.push(format!("14 begun constructs, all strings of 0..={} of 15 characters, 3 endings", n));
    for pre in STARTS2 { for post in ["", ">", "'>", "?>", "-->", "]]>", "</a>"] {
        let n = n - if post.len() < 2 { 0 } else { 1 };
        if !seqs(&MK2, 0, n, &mut |q| { b.clear(); b.push_str(pre); for p in q { b.push_str(p); } b.push_str(post); sink(&["R", &b]) }) { return false; }
    } }
    g.notes.push(format!("16 begun constructs, all strings of 0..={} of 15 characters (line feed, tab, digit, colon, dot, ideograph ...), 7 endings", n));
    let n = tier.pick(4, 5);
    if !seqs(&FRAG, 1, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["R", &b]) }) { return false; }
    let n = tier.pick(3, 4);
    if !seqs(&FRAG, 1, n, &mut |q| { b.clear(); b.push_str("<a>"); for p in q { b.push_str(p); } b.push_str("</a>"); sink(&["R", &b]) }) { return false; }
    let near = near_pairs(tier.pick(40, 70), tier.pick(1025, 4097));
    for (x, y) in near.iter() { for t in ["<①></②>", "<②><①/></①>", "<①><②></①></②>", "<①><②></②></①>", "<①><②/></①>", "<① ①='1' ②='2'/>", "<p:①></p:②>", "<①:p></②:p>", "<①><②></①>", "<①></②></①>", "<?① ②?><②/>", "<① ></② >"] {
        if !sink(&["R", &t.replace('①', x).replace('②', y)]) { return false; }
    } }
    g.notes.push(format!("{} pairs of names that differ in one place, in order, in case or in length, as start and end tags and attributes", near.len()));
    g.notes.push(format!("all sequences of up to {} of 34 fragments, and of up to {} inside an element", n + 1, n));
    let mut count = 0u64;
    for t in EDITED { for x in near_texts(t) {
        count += 1;
        if !sink(&["R", &x]) { return false; }
        if tier == Tier::Thorough && t.len() <= 22 { for y in near_texts(&x) { count += 1; if !sink(&["R", &y]) { return false; } } }
    } }
    g.notes.push(format!("{} texts one edit (with the thorough tier, for the shorter ones also two) away from {} documents: a character or a run inserted, left out, doubled, replaced, exchanged with another, in the other case", count, EDITED.len()));
    true
}

/// Documents whose neighbourhoods are read: every text one edit away.
const EDITED: [&str; 16] = ["<a><![CDATA[x]]></a>", "<a><!--x--></a>", "<?xml version='1.0'?><a/>", "<a b='1' c=\"2\">t</a>", "<a><?p q?></a>", "<!DOCTYPE a [<!ENTITY b 'c'>]><a/>", "<p:a xmlns:p='u'/>", "<a>&lt;&#65;&#x41;</a>", "<A><a/></A>",
    "<a><b><c/></b></a>", "<a\n b = '1'\t></a >", "<\u{6bb5}>\u{e9}</\u{6bb5}>", "<a><![CDATA[]]]]><![CDATA[>]]></a>", "<a.b-c_d/>", "<a><!--x-y--><!-- --></a>", "<a><?xml-s t??></a>"];
const EDITS: [char; 40] = ['<', '>', '/', '!', '?', '-', '[', ']', '=', '"', '\'', '&', ';', '#', 'a', 'A', 'x', 'X', 'C', 'c', 'D', 'd', 'T', 't', 'p', ':', '.', '_', '1', '0', ' ', '\n', '\t', '\r', '\u{a0}', '\u{b7}', '\u{301}', '\u{6bb5}', '\u{1f600}', '\u{feff}'];

fn near_texts(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let join = |a: &[char], m: &[char], b: &[char]| -> String { a.iter().chain(m).chain(b).collect() };
    for i in 0..=c.len() {
        for &e in EDITS.iter() { o.push(join(&c[..i], &[e], &c[i..])); }
        if i == c.len() { break; }
        o.push(join(&c[..i], &[], &c[i + 1..]));
        o.push(join(&c[..i], &[c[i], c[i]], &c[i + 1..]));
        for &e in EDITS.iter() { if e != c[i] { o.push(join(&c[..i], &[e], &c[i + 1..])); } }
        let swapped = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        if swapped != c[i] { o.push(join(&c[..i], &[swapped], &c[i + 1..])); }
        for j in i + 1..c.len() { o.push(join(&c[..i], &[c[j]], &{ let mut v = c[i + 1..].to_vec(); v[j - i - 1] = c[i]; v })); }
        for j in i + 2..=c.len() { o.push(join(&c[..i], &[], &c[j..])); o.push(join(&c[..j], &c[i..j], &c[j..])); let mut v: Vec<char> = c[i..j].to_vec(); for x in v.iter_mut() { *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }; } o.push(join(&c[..i], &v, &c[j..])); }
    }
    o
}

/// One piece: source text and the tokens it must produce.
pub struct Piece { pub src: &'static str, pub tok: Vec<Tok>, pub nest: i32 }

fn s(x: &str) -> String { x.to_string() }
fn st(n: &str, a: &[(&str, &str)]) -> Tok { Tok::S(s(n), a.iter().map(|x| (s(x.0), s(x.1))).collect()) }

pub fn pieces() -> Vec<Piece> {
    let mut v = vec![];
    let mut p = |src: &'static str, tok: Vec<Tok>, nest: i32| v.push(Piece { src, tok, nest });
    p("<a>", vec![st("a", &[])], 1);
    p("</a>", vec![Tok::E(s("a"))], -1);
    p("<a/>", vec![st("a", &[]), Tok::E(s("a"))], 0);
    p("x", vec![Tok::T(s("x"))], 0);
    p("<!--c-->", vec![Tok::C(s("c"))], 0);
    p("<![CDATA[d]]>", vec![Tok::T(s("d"))], 0);
    p("<?t i?>", vec![Tok::P(s("t"), s("i"))], 0);
    p("<a >", vec![st("a", &[])], 1);
    p("</a >", vec![Tok::E(s("a"))], -1);
    p("<a\n/>", vec![st("a", &[]), Tok::E(s("a"))], 0);
    p("<ns:a-b.c_1>", vec![st("ns:a-b.c_1", &[])], 1);
    p("</ns:a-b.c_1\t>", vec![Tok::E(s("ns:a-b.c_1"))], -1);
    p("<_/>", vec![st("_", &[]), Tok::E(s("_"))], 0);
    p("<\u{6bb5}\u{843d} \u{5c5e}\u{6027}=\"\u{5024}\"/>", vec![st("\u{6bb5}\u{843d}", &[("\u{5c5e}\u{6027}", "\u{5024}")]), Tok::E(s("\u{6bb5}\u{843d}"))], 0);
    p("<a b=\"v\">", vec![st("a", &[("b", "v")])], 1);
    p("<a b='v'/>", vec![st("a", &[("b", "v")]), Tok::E(s("a"))], 0);
    p("<a b = \"v\" >", vec![st("a", &[("b", "v")])], 1);
    p("<a\tb\n=\n'v'\n/>", vec![st("a", &[("b", "v")]), Tok::E(s("a"))], 0);
    p("<a b='1' c=\"2\" d='3'/>", vec![st("a", &[("b", "1"), ("c", "2"), ("d", "3")]), Tok::E(s("a"))], 0);
    p("<a c='2' b=''/>", vec![st("a", &[("c", "2"), ("b", "")]), Tok::E(s("a"))], 0);
    p("<a b='\"'/>", vec![st("a", &[("b", "\"")]), Tok::E(s("a"))], 0);
    p("<a b=\"'\"/>", vec![st("a", &[("b", "'")]), Tok::E(s("a"))], 0);
    p("<a b='/>'/>", vec![st("a", &[("b", "/>")]), Tok::E(s("a"))], 0);
    p("<a b='a=b'/>", vec![st("a", &[("b", "a=b")]), Tok::E(s("a"))], 0);
    p("<a b=' x  y '/>", vec![st("a", &[("b", " x  y ")]), Tok::E(s("a"))], 0);
    p("<a b='&lt;&#65;&#x42;&amp;'>", vec![st("a", &[("b", "<AB&")])], 1);
    p("<!---->", vec![Tok::C(s(""))], 0);
    p("<!-- <a> &lt; -->", vec![Tok::C(s(" <a> &lt; "))], 0);
    p("<!--a-b--c-->", vec![Tok::C(s("a-b--c"))], 0);
    p("<!--->-->", vec![Tok::C(s("->"))], 0);
    p("<![CDATA[]]>", vec![Tok::T(s(""))], 0);
    p("<![CDATA[<a b='c'>&lt;]]>", vec![Tok::T(s("<a b='c'>&lt;"))], 0);
    p("<![CDATA[]]]]>", vec![Tok::T(s("]]"))], 0);
    p("<![CDATA[a]b]]c]>d]]>", vec![Tok::T(s("a]b]]c]>d"))], 0);
    p("<?t?>", vec![Tok::P(s("t"), s(""))], 0);
    p("<?t  i j ?>", vec![Tok::P(s("t"), s("i j "))], 0);
    p("<?xml version=\"1.0\"?>", vec![Tok::P(s("xml"), s("version=\"1.0\""))], 0);
    p("<?x-y a?>b<c>??>", vec![Tok::P(s("x-y"), s("a")), Tok::T(s("b")), st("c", &[]), Tok::T(s("??>"))], 1);
    p("<!DOCTYPE a>", vec![Tok::D(s("<!DOCTYPE a>"))], 0);
    p("<!DOCTYPE a [<!ENTITY b 'c'><!ELEMENT a (b)>]>", vec![Tok::D(s("<!DOCTYPE a [<!ENTITY b 'c'><!ELEMENT a (b)>]>"))], 0);
    p("\n", vec![Tok::T(s("\n"))], 0);
    p("\r\n", vec![Tok::T(s("\n"))], 0);
    p("a&amp;b&gt;&quot;&apos;", vec![Tok::T(s("a&b>\"'"))], 0);
    p("&#169;&#x30bd;&#x1F600;", vec![Tok::T(s("\u{a9}\u{30bd}\u{1F600}"))], 0);
    p("a > b / c = 'd' \"e\" ]]> -- ?", vec![Tok::T(s("a > b / c = 'd' \"e\" ]]> -- ?"))], 0);
    p("\u{843d}\u{30bd}", vec![Tok::T(s("\u{843d}\u{30bd}"))], 0);
    v
}

/// Pieces that are raw character data merge with a neighbouring one.
fn is_raw_text(p: &Piece) -> bool { !p.src.starts_with('<') && p.tok.len() == 1 }
fn ends_raw(p: &Piece) -> bool { is_raw_text(p) || p.src.ends_with("??>") }

pub fn expected(ps: &[&Piece]) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let mut raw_open = false;
    for p in ps {
        if raw_open && is_raw_text(p) {
            if let (Some(Tok::T(a)), Tok::T(b)) = (v.last_mut(), &p.tok[0]) { a.push_str(b); }
        } else {
            v.extend(p.tok.iter().cloned());
        }
        raw_open = ends_raw(p);
    }
    v
}


impl Prop for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn rule(&self) -> &'static str {
        "every sequence up to the stated length of 46 lexical pieces (tags with every quoting/spacing/self-closing variant, comments, CDATA, PIs, \
         directives, text), every start tag built from the attribute grammar, every XML name character in names and every code point in content; the token list of SaxDecoder \
         is compared with the list known from the construction. Non-trivial: at least one markup token."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let ps = pieces();
        let ix: Vec<usize> = (0..ps.len()).collect();
        let n = tier.pick(4, 4);
        let mut b = String::new();
        if !seqs(&ix, 1, n, &mut |q| {
            b.clear();
            for (k, i) in q.iter().enumerate() { if k > 0 { b.push(' '); } b.push_str(&i.to_string()); }
            sink(&["P", &b])
        }) { return g; }
        g.notes.push(format!("all sequences of 1..={} of {} pieces", n, ps.len()));
        if !gen_sources(tier, sink, &mut g) { return g; }
        let an = ["b", "xmlns", "xmlns:b", "xml:lang", "xml:space", "xml:id", "p:b", "b:xmlns", "xmlnsb", "xsi:nil", "xml", "version", "encoding", "id", "href", "class", "B", "_", "b-c", "b.c", "b1", "\u{e9}", "\u{e9}:\u{3042}", "n", "name", "type"];
        let av = ["", "v", " ", " v ", "&lt;", "&amp;lt;", "a&#65;b", "&#x41;", "&", "&amp;&gt;", "a\nb", "a\tb", "a\r\nb", "a\rb", "&#10;", "&#13;", ">", "/>", "=", "b='c'", "?>", "-->", "]]>", "<!--", "\u{3042}", "http://x/y?a&amp;b#c", "&quot;&apos;"];
        for n in an { for v in av { for (q, w) in [("'", "\""), ("\"", "'")] { if v.contains(q) || v.contains('<') { continue; } for t in ["<a n=qvq/>", "<a n=qvq>x</a>", "<n n=qvq></n>", "<a c=wvw n=qvq d=wvw/>", "<a n=qvq n2=qvq/>", "<n c=qvq>v</n>", "<?n v?>", "<a><!--n v--><![CDATA[n v]]>v</a>", "<!n v>", "<n>v<n n=qvq/>v</n>"] {
            let t: String = t.chars().map(|c| match c { 'n' => n.to_string(), 'v' => v.to_string(), 'q' => q.to_string(), 'w' => if v.contains(w) { q.to_string() } else { w.to_string() }, c => c.to_string() }).collect();
            if !sink(&["R", &t]) { return g; }
        } } } }
        g.notes.push(format!("{} names x {} values (references, line ends, markup) x 2 quotes in 10 places", an.len(), av.len()));
        // start tag grammar: name x attributes x spacing x closing
        let names = ["a", "b:c", "\u{6bb5}"];
        let vals = ["", "v", "a b", "&amp;", ">", "\u{5024}"];
        let na = tier.pick(2, 3);
        let mut attrs: Vec<(usize, usize, usize, usize)> = vec![];
        for n in 0..names.len() { for v in 0..vals.len() { for q in 0..2 { for sp in 0..3 { attrs.push((n, v, q, sp)); } } } }
        for k in 0..=na {
            let pool: Vec<usize> = if k < 2 { (0..attrs.len()).collect() } else { (0..attrs.len()).step_by(if k == 2 { 1 } else { 5 }).collect() };
            if !seqs(&pool, k, k, &mut |q| {
                for el in names { for close in [">", " >", "/>", " />", "\n/>"] {
                    let mut d = String::from(el);
                    d.push('|'); d.push_str(close);
                    for &i in q { let a = attrs[i]; d += &format!("|{},{},{},{}", a.0, a.1, a.2, a.3); }
                    if !sink(&["S", &d]) { return false; }
                } }
                true
            }) { return g; }
        }
        g.notes.push(format!("start tags with 0..={} attributes over 3 names, 6 values, 2 quotes, 3 spacings, 5 closings", na));
        for c in code_points(1) {
            if xml_char(c) && !sink(&["L", &c.to_string()]) { return g; }
            if !sink(&["U", &c.to_string()]) { return g; }
        }
        g.notes.push("every name character of XML 1.0 in element, attribute and instruction names, first and later; every code point as text, value, comment, instruction and CDATA".into());
        for k in sizes(300, 65537) { for w in ["A", "V", "T", "N", "AN", "PN", "C", "I", "D", "B", "M", "X", "E"] {
            if k > 4200 && (w == "A" || w == "X") { continue; }
            if !sink(&["G", w, &k.to_string()]) { return g; }
        } }
        g.notes.push("sizes 0..300 and around powers of two up to 65536 of attribute lists, values, texts, element, attribute and instruction names, comments, instructions, CDATA, nested and repeated brackets in directives, references, elements".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        self.steps += 1;
        let (src, exp) = match f[0] {
            "R" => {
                let r = refxml::read(f[1]);
                if !matches!(r.v, Verdict::Good(_)) { return Out::Ok { obs: 0, trivial: true }; }
                (f[1].to_string(), r.toks)
            }
            "P" => {
                let ps = pieces();
                let sel: Vec<&Piece> = f[1].split(' ').map(|i| &ps[i.parse::<usize>().unwrap()]).collect();
                (sel.iter().map(|p| p.src).collect::<String>(), expected(&sel))
            }
            "S" => {
                let names = ["a", "b:c", "\u{6bb5}"];
                let vals = ["", "v", "a b", "&amp;", ">", "\u{5024}"];
                let parts: Vec<&str> = f[1].split('|').collect();
                let mut src = format!("<{}", parts[0]);
                let mut at = vec![];
                for a in &parts[2..] {
                    let x: Vec<usize> = a.split(',').map(|z| z.parse().unwrap()).collect();
                    let q = ["\"", "'"][x[2]];
                    let eq = ["=", " = ", "\n=\t"][x[3]];
                    src += &format!(" {}{}{}{}{}", names[x[0]], eq, q, vals[x[1]], q);
                    at.push((names[x[0]].to_string(), if vals[x[1]] == "&amp;" { "&".to_string() } else { vals[x[1]].to_string() }));
                }
                src += parts[1];
                let mut e = vec![Tok::S(parts[0].to_string(), at)];
                if parts[1].ends_with("/>") { e.push(Tok::E(parts[0].to_string())); }
                src += "t";
                e.push(Tok::T(s("t")));
                (src, e)
            }
            "L" => {
                let c = f[1];
                if xml_start(c.chars().next().unwrap()) {
                    (format!("<{}a x{}='1' {}='2'><{}/><?{} i?></{}a>", c, c, c, c, c, c),
                     vec![Tok::S(format!("{}a", c), vec![(format!("x{}", c), s("1")), (s(c), s("2"))]), Tok::S(s(c), vec![]), Tok::E(s(c)), Tok::P(s(c), s("i")), Tok::E(format!("{}a", c))])
                } else {
                    (format!("<a{}b x{}='1'><a{}/><?p{}q i?></a{}b>", c, c, c, c, c),
                     vec![Tok::S(format!("a{}b", c), vec![(format!("x{}", c), s("1"))]), Tok::S(format!("a{}", c), vec![]), Tok::E(format!("a{}", c)),
                          Tok::P(format!("p{}q", c), s("i")), Tok::E(format!("a{}b", c))])
                }
            }
            "U" => {
                let c = f[1];
                let raw = if c == "\r" { "\n" } else { c };
                let e = match c { "<" => "&lt;", "&" => "&amp;", "\"" => "&quot;", c => c };
                let pi = if " \t\r\n".contains(c) { s("x") } else { format!("{}x", raw) };
                (format!("<a b=\"{}\">{}<!--{}--><?p {}x?><![CDATA[{}]]>{}t{}</a>", e, e, c, c, c, e, e),
                 vec![st("a", &[("b", raw)]), Tok::T(s(raw)), Tok::C(s(raw)), Tok::P(s("p"), pi), Tok::T(s(raw)), Tok::T(format!("{}t{}", raw, raw)), Tok::E(s("a"))])
            }
            _ => {
                let k: usize = f[2].parse().unwrap();
                match f[1] {
                    "A" => {
                        let mut src = s("<a"); let mut at = vec![];
                        for i in 0..k { src += &format!(" b{}='{}'", i, i * 7); at.push((format!("b{}", i), (i * 7).to_string())); }
                        (src + "/>", vec![Tok::S(s("a"), at), Tok::E(s("a"))])
                    }
                    "V" => { let v: String = (0..k).map(|i| (b'a' + (i % 26) as u8) as char).collect(); (format!("<a b=\"{}\">", v), vec![Tok::S(s("a"), vec![(s("b"), v)])]) }
                    "T" => { let v: String = (0..=k).map(|i| ['x', 'y', '>', '\n', '\u{3042}'][i % 5]).collect(); (format!("{}<a>", v), vec![Tok::T(v), st("a", &[])]) }
                    "N" => { let v: String = (0..=k).map(|i| ['a', 'b', '-', '1', '.', '_', '\u{3042}'][i % 7]).collect(); (format!("<{}>", v), vec![Tok::S(v, vec![])]) }
                    "AN" => { let v: String = (0..=k).map(|i| ['a', 'b', '-', '1', ':', '_', '\u{3042}'][i % 7]).collect(); (format!("<a {}='1' b='2'/>", v), vec![Tok::S(s("a"), vec![(v, s("1")), (s("b"), s("2"))]), Tok::E(s("a"))]) }
                    "PN" => { let v: String = (0..=k).map(|i| ['a', 'b', '-', '1', '.', '_', '\u{3042}'][i % 7]).collect(); (format!("<?{} i?></{}>", v, v), vec![Tok::P(v.clone(), s("i")), Tok::E(v)]) }
                    "B" => { let v = format!("<!D {}a{}>", "<".repeat(k), ">".repeat(k)); (format!("{}t", v), vec![Tok::D(v), Tok::T(s("t"))]) }
                    "M" => { let v = format!("<!D [{}] >", "\n <!E 'x'>".repeat(k)); (format!("{}t", v), vec![Tok::D(v), Tok::T(s("t"))]) }
                    "X" => { let mut src = s("<a b='"); for i in 0..k { src += ["&amp;", "x", "&#65;", "&lt;&gt;"][i % 4]; } let v: String = (0..k).map(|i| ["&", "x", "A", "<>"][i % 4]).collect(); (src + "'/>", vec![Tok::S(s("a"), vec![(s("b"), v)]), Tok::E(s("a"))]) }
                    "E" => { let mut e = vec![]; let mut src = s(""); for i in 0..k.min(3000) { src += ["<a/>", "<!--c-->", "t", "<b c='d'>"][i % 4]; match i % 4 { 0 => { e.push(st("a", &[])); e.push(Tok::E(s("a"))) } 1 => e.push(Tok::C(s("c"))), 2 => e.push(Tok::T(s("t"))), _ => e.push(st("b", &[("c", "d")])) } } (src, e) }
                    "C" => { let v: String = (0..k).map(|i| ['-', 'a', '<', '>', ' '][i % 5]).collect(); (format!("<!--{}-->t", v), vec![Tok::C(v), Tok::T(s("t"))]) }
                    "I" => { let v: String = (0..k).map(|i| ['a', '?', '<', '&', ' '][i % 5]).collect(); (format!("<?t {}?>t", v), vec![Tok::P(s("t"), v), Tok::T(s("t"))]) }
                    _ => { let v: String = (0..k).map(|i| [']', ']', 'a', '<', '&'][i % 5]).collect(); (format!("<![CDATA[{}]]>t", v), vec![Tok::T(v), Tok::T(s("t"))]) }
                }
            }
        };
        let got = match drive(&src) { Ok(t) => t, Err(e) => return Out::Bad(format!("{} on {:?}", e, src)) };
        if got != exp {
            return Out::Bad(format!("source {:?}\nexpected tokens {:?}\ngot             {:?}", src, exp, got));
        }
        Out::Ok { obs: hs(&format!("{:?}", got)), trivial: !src.contains('<') }
    }
    fn steps(&self) -> u64 { self.steps }
    fn assumptions(&self) -> Vec<&'static str> { vec!["name characters are those of XML 1.0 before its fifth edition, as the productions quoted in the source say"] }
}

// =====================================================================
// C03: accept exactly the properly nested and terminated documents
#[derive(Default)]
struct C03 { steps: u64 }

/// (source, effect): what the piece does to the stack of open elements.
#[derive(Clone, Copy)]
enum Ef { Open(&'static str), Close(&'static str), Empty(&'static str), Text(&'static str), Other(K, &'static str, &'static str), Nothing, Malformed }
const PC: [(&str, Ef); 28] = [
    ("<a>", Ef::Open("a")), ("</a>", Ef::Close("a")), ("<b>", Ef::Open("b")), ("</b>", Ef::Close("b")), ("<a/>", Ef::Empty("a")),
    ("t", Ef::Text("t")), ("<!--c-->", Ef::Other(K::Comment, "", "c")), ("<?p i?>", Ef::Other(K::Pi, "p", "i")),
    ("<ab c='</a>'>", Ef::Open("ab")), ("</ab >", Ef::Close("ab")), ("<![CDATA[<a>]]>", Ef::Text("<a>")),
    ("<!DOCTYPE a>", Ef::Nothing), ("<?xml version='1.0'?>", Ef::Other(K::Decl, "xml", "version='1.0'")),
    ("<a b>", Ef::Malformed), ("<a b=v>", Ef::Malformed), ("<a/ >", Ef::Malformed), ("<!-c-->", Ef::Malformed), ("<![CDAT[x]]>", Ef::Malformed),
    ("<a b=\"v'/>", Ef::Malformed), ("<a b='1' c/>", Ef::Malformed), ("</A>", Ef::Close("A")), ("<p:a>", Ef::Open("p:a")), ("</a:p>", Ef::Close("a:p")),
    ("<a b='1'c='2'/>", Ef::Malformed), ("</a b>", Ef::Malformed), ("<a b==''/>", Ef::Malformed), ("<a b='' ''/>", Ef::Malformed), ("</p:a>", Ef::Close("p:a")),
];

/// Verdict of the model on a sequence of pieces cut `cut` characters before its end.
fn model_c03(ix: &[usize], cut: usize) -> (String, Option<D>) {
    let src: String = ix.iter().map(|&i| PC[i].0).collect();
    let total = src.chars().count();
    let keep = total - cut;
    let text: String = src.chars().take(keep).collect();
    let mut d = D::new();
    let mut cur = 0usize;
    let mut pos = 0usize;
    let mut last_raw = false;
    for &i in ix {
        let (p, ef) = PC[i];
        let len = p.chars().count();
        let end = pos + len;
        if pos >= keep { break; }
        if end > keep {
            // cut inside this piece: character data may be cut anywhere, markup may not
            if let Ef::Text(_) = ef { if !p.starts_with('<') { unreachable!("texts are one character long") } }
            return (text, None);
        }
        pos = end;
        let mut raw = false;
        match ef {
            Ef::Open(n) => { cur = d.push(cur, K::El, n, ""); if n == "ab" { d.attr(cur, "c", "</a>"); } }
            Ef::Close(n) => {
                if cur == 0 || d.n[cur].name != n { return (text, None); }
                cur = d.n[cur].parent.unwrap();
            }
            Ef::Empty(n) => { d.push(cur, K::El, n, ""); }
            Ef::Text(t) => {
                raw = !p.starts_with('<');
                let l = d.n[cur].ch.last().copied();
                match l { Some(l) if raw && last_raw => d.n[l].value.push_str(t), _ => { d.push(cur, K::Text, "", t); } }
            }
            Ef::Other(k, n, v) => { d.push(cur, k, n, v); }
            Ef::Nothing => {}
            Ef::Malformed => return (text, None),
        }
        last_raw = raw;
    }
    if cur != 0 { (text, None) } else { (text, Some(d)) }
}

const NM: [&str; 42] = ["a", "A", "b", "aa", "ab", "ba", "aA", "Aa", "abc", "abd", "abC", "xbc", "p:a", "q:a", "p:b", "a:p", "pp:a", "P:a", ":a", "a:", ":", "a:b:c", "b:b:c", "a:b:d", "a.", "a-", "a_", "_a", "_", "a1", "a2", "a-b", "a.b", "\u{e1}", "\u{c1}", "a\u{301}", "\u{6bb5}", "\u{6bb6}", "a\u{b7}", "xml", "x:xml", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];

impl Prop for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> &'static str {
        "every sequence up to the stated length of tags, text, comments, PIs, CDATA, directives and malformed tags, complete and cut at every character \
         position of its end piece(s); new_document must accept exactly the sequences a stack model accepts, with the tree the model builds. Non-trivial: at least one tag."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let mut b = String::new();
        let mut put = |q: &[usize], cut: usize, sink: &mut Sink| -> bool {
            b.clear();
            for (k, i) in q.iter().enumerate() { if k > 0 { b.push(' '); } b.push_str(&i.to_string()); }
            sink(&[&b, &cut.to_string()])
        };
        let small: Vec<usize> = (0..8).collect();
        let n = tier.pick(7, 8);
        if !seqs(&small, 1, n, &mut |q| put(q, 0, sink)) { return g; }
        g.notes.push(format!("all sequences of 1..={} of 8 pieces", n));
        let all: Vec<usize> = (0..PC.len()).collect();
        let n = tier.pick(4, 5);
        if !seqs(&all, 1, n, &mut |q| {
            // cut at every position of the last piece
            let l = PC[*q.last().unwrap()].0.chars().count();
            for cut in 0..l { if !put(q, cut, sink) { return false; } }
            true
        }) { return g; }
        g.notes.push(format!("all sequences of 1..={} of {} pieces, cut at every character of the last piece", n, PC.len()));
        for c in code_points(1) { if !sink(&["U", &c.to_string()]) { return g; } }
        g.notes.push("every code point at 9 places in tags".into());
        if !gen_sources(tier, sink, &mut g) { return g; }
        for x in NM { for y in NM {
            for t in [format!("<{}></{}>", x, y), format!("<{} b='1'>t</{} >", x, y), format!("<{}><{}/></{}>", x, y, x), format!("<{}><{}></{}></{}>", x, y, x, y), format!("<{}><{}></{}></{}>", x, y, y, x), format!("<{}/></{}>", x, y), format!("<{}><{}></{}>", x, y, x)] {
                if !sink(&["R", &t]) { return g; }
            }
        } }
        g.notes.push(format!("every pair of {} names as start and end tag, empty, with content and crossing", NM.len()));
        for k in sizes(200, 4097) {
            let (a, b) = ("a".repeat(k), format!("{}b", "a".repeat(k.max(1) - 1)));
            let many = |o: &str| o.repeat(k);
            for t in [format!("<{}></{}>", a, a), format!("<{}></{}>", a, b), format!("<{}></{}a>", a, a), format!("<r>{}</r>", many("<a/>")), format!("<r>{}</r>", many("<a></a>")), format!("{}{}", many("<a>"), many("</a>")),
                format!("{}<b>{}", many("<a>"), many("</a>")), format!("{}</b>{}", many("<a>"), many("</a>")), format!("<a {}/>", (0..k).map(|i| format!(" b{}='{}'", i, i)).collect::<String>()), format!("<a {}></a>", (0..k).map(|i| format!(" b{}=\"{}\"", i, i)).collect::<String>()),
                format!("<a {}>", (0..k).map(|i| format!(" b{}='{}'", i, i)).collect::<String>()), format!("<!D {}{}><a/>", many("<"), many(">")), format!("<!D {}{}<a/>", many("<"), many(">")), format!("<a{}/>", many(" ")), format!("<a b='{}'/>", a), format!("<a>{}</a>", many("&amp;")),
                format!("<a>{}", many("<b></b>")), format!("<!--{}--><a/>", many("- ")), format!("<!--{}", many("- "))] {
                if !sink(&["R", &t]) { return g; }
            }
        }
        g.notes.push("19 forms of sizes 0..200 and around powers of two up to 4096".into());
        // nesting runs
        for d in 1..40usize { for e in d.saturating_sub(2)..d + 2 { for (o, c) in [(0, 1), (2, 3), (8, 9)] {
            let mut q = vec![o; d];
            q.extend(vec![c; e]);
            if !put(&q, 0, sink) { return g; }
        } } }
        g.notes.push("runs of 1..40 open tags against -2..+1 as many end tags".into());
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        self.steps += 1;
        if f[0] == "U" {
            // one character at nine places of a tag; accepted where the grammar has a space, a name character or (in one place) a bracket
            self.steps += 8;
            let c = f[1].chars().next().unwrap();
            let (sp, nm, ns) = (" \t\r\n".contains(c), xml_char(c), xml_start(c));
            for (text, ok) in [
                (format!("<{}a/>", c), ns || c == '!'), (format!("<a{}/>", c), sp || nm), (format!("<a {}/>", c), sp), (format!("<a b='1'{}/>", c), sp),
                (format!("<a b{}='1'/>", c), sp || nm), (format!("<a b={}'1'/>", c), sp), (format!("<a {}b='1'/>", c), sp || ns),
                (format!("<a></a{}>", c), sp), (format!("<a></{}a>", c), false),
            ] {
                // a bracket or a quote changes what follows
                if c == '>' || c == '\'' || c == '/' || c == '=' { continue; }
                match new_document(&text) {
                    Ok(d) if !ok => return Out::Bad(format!("{:?} is not well formed but was accepted as {:?}", text, d.to_string())),
                    Err(e) if ok => return Out::Bad(format!("{:?} is well formed but was rejected: {}", text, e)),
                    _ => {}
                }
            }
            return Out::Ok { obs: hs(&format!("{} {} {}", sp, nm, ns)), trivial: false };
        }
        if f[0] == "R" {
            let r = new_document(f[1]);
            return match (refxml::read(f[1]).v, r) {
                (Verdict::Open, _) => Out::Ok { obs: 0, trivial: true },
                (Verdict::Bad, Ok(d)) => Out::Bad(format!("{:?} is not well formed but was accepted as {:?}", f[1], d.to_string())),
                (Verdict::Bad, Err(_)) => Out::Ok { obs: 1, trivial: !f[1].contains('<') },
                (Verdict::Good(_), Err(e)) => Out::Bad(format!("{:?} is well formed but was rejected: {}", f[1], e)),
                (Verdict::Good(d), Ok(p)) => {
                    let mut m = vec![];
                    if let Err(e) = bind(&d, 0, &p, &mut m) { return Out::Bad(format!("{:?}: {}", f[1], e)); }
                    Out::Ok { obs: hs(&d.xml(0)), trivial: !f[1].contains('<') }
                }
            };
        }
        let ix: Vec<usize> = f[0].split(' ').map(|x| x.parse().unwrap()).collect();
        let (text, model) = model_c03(&ix, f[1].parse().unwrap());
        let r = new_document(&text);
        match (&model, &r) {
            (None, Ok(d)) => return Out::Bad(format!("{:?} is not well formed but was accepted as {:?}", text, d.to_string())),
            (Some(_), Err(e)) => return Out::Bad(format!("{:?} is well formed but was rejected: {}", text, e)),
            (Some(d), Ok(p)) => {
                let mut m = vec![];
                if let Err(e) = bind(d, 0, p, &mut m) { return Out::Bad(format!("{:?}: {}", text, e)); }
            }
            _ => {}
        }
        Out::Ok { obs: hs(&format!("{:?}", model.map(|d| d.xml(0)))), trivial: !text.contains('<') }
    }
    fn steps(&self) -> u64 { self.steps }
    fn assumptions(&self) -> Vec<&'static str> { vec!["several top-level elements, top-level text and repeated XML declarations are accepted, as the documentation says"] }
}

// =====================================================================
// C05: references
#[derive(Default)]
struct C05 { steps: u64 }

pub fn ref_decode(t: &str) -> String {
    let mut o = String::new();
    let mut r = t;
    while let Some(c) = r.chars().next() {
        if c != '&' { o.push(c); r = &r[c.len_utf8()..]; continue; }
        let mut done = false;
        for (e, ch) in [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&quot;", '"'), ("&apos;", '\'')] {
            if let Some(x) = r.strip_prefix(e) { o.push(ch); r = x; done = true; break; }
        }
        if done { continue; }
        if let Some(body) = r.strip_prefix("&#") {
            if let Some(semi) = body.find(';') {
                let num = &body[..semi];
                let (digits, radix) = match num.strip_prefix('x') { Some(h) => (h, 16), None => (num, 10) };
                let mut val: Option<u64> = if digits.is_empty() { None } else { Some(0) };
                for d in digits.chars() {
                    val = match (val, d.to_digit(radix)) { (Some(v), Some(x)) if v <= 0x110000 => Some(v * radix as u64 + x as u64), (Some(v), Some(_)) => Some(v), _ => None };
                }
                o.push(val.and_then(|v| if v > 0x10ffff { None } else { char::from_u32(v as u32) }).unwrap_or('\u{3013}'));
                r = &body[semi + 1..];
                continue;
            }
        }
        o.push('&');
        r = &r[1..];
    }
    o
}

const DEC: [&str; 15] = ["&", "#", "x", ";", "l", "t", "a", "m", "p", "g", "1", "6", "4", "D", "\u{e9}"];
const DTOK: [&str; 22] = ["&", "&#", "&#x", ";", "&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "lt;", "#", "x", "41", "65", "110000", "D800", "0", "\u{6bb5}", "amp;", " ", "&nbsp;", "&LT;"];
const ENC: [&str; 13] = ["&", "<", ">", "\"", "'", ";", "a", "#", "\n", "\r", "\u{e9}", "\u{20000}", "]]>"];
const ETOK: [&str; 18] = ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#13;", "&#x41;", "&#", "&#x", "&", ";", "lt;", "amp;", "x", "<", "'", "\"", " "];

impl Prop for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn rule(&self) -> &'static str {
        "every string up to the stated length over 15 characters, and every sequence of 22 reference fragments, as element content and as an attribute value \
         (decoding compared with a one-pass reference decoder); every string over 13 troublesome characters set as an attribute value and as CDATA content, \
         serialised and read back; every code point as decimal and hexadecimal reference. Non-trivial: contains '&' or a character that must be escaped."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let mut b = String::new();
        let n = tier.pick(6, 7);
        if !seqs(&DEC, 1, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["D", &b]) }) { return g; }
        g.notes.push(format!("decoding: all strings of length 1..={} over 15 characters", n));
        let n = tier.pick(5, 6);
        if !seqs(&DTOK, 1, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["D", &b]) }) { return g; }
        g.notes.push(format!("decoding: all sequences of 1..={} of 22 fragments", n));
        let n = tier.pick(4, 5);
        if !seqs(&ENC, 0, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["E", &b]) }) { return g; }
        g.notes.push(format!("encoding: all strings of length 0..={} over 13 characters", n));
        let n = tier.pick(4, 5);
        if !seqs(&ETOK, 1, n, &mut |q| { b.clear(); for p in q { b.push_str(p); } sink(&["E", &b]) }) { return g; }
        g.notes.push(format!("encoding: all sequences of 1..={} of 18 fragments of references", n));
        for c in code_points(1) { if !sink(&["E", &c.to_string()]) || !sink(&["E", &format!("{}&{}", c, c)]) { return g; } }
        g.notes.push("encoding: every code point".into());
        // one thing to decode or to escape at every place of a value of every size
        let ns = crate::names::sizes(tier.pick(40, 140), tier.pick(4097, 66000));
        for &n in ns.iter().filter(|&&n| n > 0) {
            let mut at = super::xp::places(n);
            if n <= 40 { at = (1..=n).collect(); }
            for &k in at.iter().filter(|&&k| k <= n) {
                for fill in ["a", "\u{e9}"] {
                    for x in ["&", "<", ">", "\"", "'", "\r", "\n", "]]>"] { if !sink(&["E", &format!("{}{}{}", fill.repeat(k - 1), x, fill.repeat(n - k))]) { return g; } }
                    for x in ["&lt;", "&amp;", "&#65;", "&#x41;", "&", "&#", "&#0;", "&quot;"] { if !sink(&["D", &format!("{}{}{}", fill.repeat(k - 1), x, fill.repeat(n - k))]) { return g; } }
                }
            }
            for x in ["&", "<", "\"", "&lt;", "a&", "\r"] { if !sink(&["E", &x.repeat(n)]) { return g; } }
            for x in ["&lt;", "&amp;", "&#65;", "&#x1F600;", "&", "a&gt;", "&amp;lt;", "&#"] { if !sink(&["D", &x.repeat(n)]) { return g; } }
            for x in ["0", "9", "00065", "+", "-", " "] { if !sink(&["D", &format!("&#{}65;&#x{}41;b", x.repeat(n), x.repeat(n))]) { return g; } }
        }
        g.notes.push(format!("values of {} sizes up to {} with one thing to decode or escape at every place of note, and made of nothing else", ns.len(), ns.last().unwrap()));
        let num: [&str; 16] = ["0", "1", "6", "A", "f", "x", "X", "+", "-", " ", "_", ".", "\u{661}", "g", ",", "\u{ff11}"];
        let n = tier.pick(4, 5);
        if !seqs(&num, 0, n, &mut |q| { b.clear(); b.push_str("&#"); for p in q { b.push_str(p); } b.push_str(";&#x"); for p in q { b.push_str(p); } b.push(';'); sink(&["D", &b]) }) { return g; }
        g.notes.push(format!("numeric references of 0..={} of 16 digits, signs, separators and letters", n));
        let step = 1;
        let mut c = 1u32;
        while c <= 0x110010 {
            if !sink(&["D", &format!("&#{};&#x{:x};&#x{:X};", c, c, c)]) { return g; }
            c += if c < 0x3000 || (0xd7f0..0xe010).contains(&c) || c > 0x10fff0 { 1 } else { step };
        }
        g.notes.push(format!("references to code points 1..=0x110010, step 1 below 0x3000 and around the surrogates, {} elsewhere", step));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let t = f[1];
        if f[0] == "D" {
            self.steps += 3;
            let exp = ref_decode(t);
            let toks = match drive(&format!("<a b=\"{}\" c='{}'>{}</a>", t, t, t)) { Ok(x) => x, Err(e) => return Out::Bad(e) };
            let mut want = vec![Tok::S(s("a"), vec![(s("b"), exp.clone()), (s("c"), exp.clone())])];
            want.push(Tok::T(exp.clone()));
            want.push(Tok::E(s("a")));
            if toks != want { return Out::Bad(format!("references in {:?} decode to {:?}; got {:?}", t, exp, toks)); }
            Out::Ok { obs: hs(&exp), trivial: !t.contains('&') }
        } else {
            self.steps += 4;
            let doc = new_document("<r/>").unwrap();
            let mut r = doc.root_element();
            r.set_attribute("k", t);
            let ser = doc.to_string();
            let want = format!("<r k=\"{}\"/>", encode(t));
            if ser != want { return Out::Bad(format!("attribute value {:?} is written {:?}, expected {:?}", t, ser, want)); }
            match new_document(&ser) {
                Ok(d) => { if d.root_element().attribute_value("k").as_deref() != Some(t) { return Out::Bad(format!("attribute value {:?} reads back as {:?}", t, d.root_element().attribute_value("k"))); } }
                Err(e) => return Out::Bad(format!("{:?} does not parse: {}", ser, e)),
            }
            // element content, through CDATA (which cannot hold "]]>" nor, read as a document, a raw CR)
            let body = t.replace("]]>", "]] >").replace('\r', "\n");
            if !body.is_empty() {
                let d = match new_document(&format!("<r><![CDATA[{}]]></r>", body)) { Ok(d) => d, Err(e) => return Out::Bad(format!("CDATA {:?} rejected: {}", body, e)) };
                let ser = d.to_string();
                if ser != format!("<r>{}</r>", encode(&body)) { return Out::Bad(format!("text {:?} is written {:?}", body, ser)); }
                match new_document(&ser) {
                    Ok(d2) => {
                        let ch = d2.root_element().children();
                        if ch.len() != 1 || ch[0].value() != body { return Out::Bad(format!("text {:?} reads back as {:?}", body, d2.root_element().inner_xml())); }
                    }
                    Err(e) => return Out::Bad(format!("{:?} does not parse: {}", ser, e)),
                }
            }
            Out::Ok { obs: hs(t), trivial: !t.contains(|c| "&<>\"'\r".contains(c)) }
        }
    }
    fn steps(&self) -> u64 { self.steps }
}
