// Shared machinery of the XPath properties: one expression, evaluated by the
// implementation and by the reference evaluator at given context nodes.

use crate::props::tree::mini;
use crate::rdom::*;
use crate::rxp::{self, It, RErr, R, Seq};
use crate::sup::*;
use amxml::dom::{new_document, NodePtr};

#[derive(Default)]
pub struct Cache { pub xml: String, pub d: D, pub order: Vec<usize>, pub doc: Option<NodePtr>, pub map: Vec<(usize, NodePtr)> }

pub enum Cmp { Same { obs: u64, error: bool }, Open }

pub fn show_model(d: &D, s: &Seq) -> String {
    let v: Vec<String> = s.iter().map(|x| match x { It::N(n) => format!("node#{}[{}]", n, d.show(*n)), x => rxp::show(d, x).unwrap_or("function".into()) }).collect();
    format!("({})", v.join(", "))
}

impl Cache {
    pub fn load(&mut self, xml: &str) -> Result<(), String> {
        if self.xml == xml && self.doc.is_some() { return Ok(()); }
        let mut d = D { n: vec![] };
        let src = sized(xml);
        mini(&mut d, &src);
        let doc = new_document(&src).map_err(|e| format!("{:?} does not parse: {}", xml, e))?;
        let mut map = vec![];
        bind(&d, 0, &doc, &mut map).map_err(|e| format!("{:?}: {}", xml, e))?;
        // What the focus of a whole expression is (position() and last() with no
        // predicate around them) is left open by the statement; whatever the
        // library says of it is taken, and must then be the same everywhere.
        let n = |e: &str| doc.eval_xpath(e).ok().and_then(|s| s.to_string().trim_matches(|c| c == '(' || c == ')').parse().ok()).unwrap_or(0i64);
        rxp::TOP.with(|t| t.set((n("position()"), n("last()"))));
        self.order = d.order(0);
        *self = Cache { xml: xml.to_string(), order: std::mem::take(&mut self.order), d, doc: Some(doc), map };
        Ok(())
    }
    /// The k-th node in document order.
    pub fn node(&self, k: usize) -> usize { self.order[k] }

    pub fn model(&self, ctx: usize, expr: &str) -> R<Seq> { let e = rxp::parse(expr)?; rxp::eval_at(&self.d, ctx, &e) }

    /// The library's answer as text, failures included.
    pub fn eval_text(&self, k: usize, expr: &str) -> Result<String, String> {
        match at(&self.map, self.node(k)).eval_xpath(expr) { Ok(s) => Ok(format!("{}:{}", s.len(), s.to_string())), Err(e) => Err(format!("error {}", e)) }
    }
    pub fn compare(&self, k: usize, expr: &str) -> Result<Cmp, String> {
        let m = rxp::parse(expr);
        self.compare_parsed(k, expr, &m)
    }
    pub fn compare_parsed(&self, k: usize, expr: &str, parsed: &R<std::rc::Rc<rxp::E>>) -> Result<Cmp, String> {
        let ctx = self.node(k);
        let m = match parsed { Ok(e) => rxp::eval_at(&self.d, ctx, e), Err(e) => Err(e.clone()) };
        // a range of millions of items is a question of memory, not of meaning
        if let Err(RErr::Unspec("huge range")) = m { return Ok(Cmp::Open); }
        let r = at(&self.map, ctx).eval_xpath(expr);
        let wher = || format!("{} at node {} of {}", expr, k, self.xml);
        match (m, r) {
            (Err(RErr::Unspec(_)), _) => Ok(Cmp::Open),
            (Err(RErr::Err(_)), Err(_)) => Ok(Cmp::Same { obs: 1, error: true }),
            (Err(RErr::Err(e)), Ok(s)) => Err(format!("{}: error expected ({}), got {}", wher(), e, s.to_string())),
            (Ok(s), Err(e)) => Err(format!("{}: expected {}, got error {}", wher(), show_model(&self.d, &s), e)),
            (Ok(m), Ok(s)) => {
                if m.len() != s.len() { return Err(format!("{}: expected {}, got {}", wher(), show_model(&self.d, &m), s.to_string())); }
                let mut o = String::new();
                for (i, x) in m.iter().enumerate() {
                    let y = s.get_item(i);
                    let same = match (x, y.as_nodeptr()) {
                        (It::N(n), Some(p)) => id_of(&self.map, &p) == Some(*n),
                        (It::N(_), None) | (_, Some(_)) => false,
                        (x, None) => match rxp::show(&self.d, x) { Some(t) => t == y.to_string(), None => true },
                    };
                    if !same { return Err(format!("{}: expected {}, got {} (item {})", wher(), show_model(&self.d, &m), s.to_string(), i + 1)); }
                    match x { It::N(n) => o += &format!("#{};", n), x => { o += &rxp::show(&self.d, x).unwrap_or("f".into()); o.push(';') } }
                }
                Ok(Cmp::Same { obs: hs(&o), error: false })
            }
        }
    }
}

/// "!shape n": a document of that shape and size; anything else is the document itself.
pub fn sized(x: &str) -> String {
    let mut w = x.split(' ');
    let (shape, n) = match (w.next(), w.next().and_then(|n| n.parse::<usize>().ok())) { (Some(s), Some(n)) if s.starts_with('!') => (s, n), _ => return x.to_string() };
    let all = |f: &dyn Fn(usize) -> String| (1..=n).map(f).collect::<String>();
    match shape {
        "!fan" => format!("<r>{}</r>", all(&|i| format!("<a k=\"{}\"/>", i))),
        "!alt" => format!("<r>{}</r>", all(&|i| if i % 2 == 1 { format!("<a>{}</a>", i) } else { "<!--c--><b/>".into() })),
        "!texts" => format!("<r>{}</r>", all(&|i| format!("{}<b/>", i % 10))),
        "!chain" => format!("<r>{}{}</r>", all(&|i| format!("<a k=\"{}\">", i)), "</a>".repeat(n)),
        "!attrs" => format!("<r{}/>", all(&|i| format!(" k{}=\"{}\"", i, i))),
        "!nest" => format!("<r>{}</r>", all(&|i| format!("<a><b k=\"{}\"><c/></b><c/></a>", i))),
        _ => x.to_string(),
    }
}
/// Places worth asking about in something of n parts.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![1, 2, n / 2, n.saturating_sub(1), n, n + 1];
    for k in [15, 16, 17, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 32768, 65535, 65536, 65537] { if k <= n { v.push(k); } }
    v.sort();
    v.dedup();
    v
}
/// Expressions over something of n parts: N is its size, K a place in it.
pub fn cross_n(sink: &mut Sink, doc: &str, n: usize, tpls: &[&str]) -> bool {
    for t in tpls {
        let e = t.replace('Ｎ', &n.to_string());
        if !e.contains('Ｋ') { if !sink(&[doc, "1", &e]) { return false; } continue; }
        // of something very long: fewer places
        let at = places(n).into_iter().filter(|&k| n < 5000 || [1, n / 2, n - 1, n, n + 1, 256, 65535, 65536].contains(&k));
        for k in at { if !sink(&[doc, "1", &e.replace('Ｋ', &k.to_string())]) { return false; } }
    }
    true
}

/// A property decided by comparing expressions.  Case: document, context
/// ("*": every node), expression.
pub struct XP {
    pub id: &'static str,
    pub rule: &'static str,
    pub assume: &'static [&'static str],
    pub gen: fn(Tier, &mut Sink) -> GenInfo,
    pub cache: Cache,
    pub steps: u64,
}
impl XP {
    pub fn new(id: &'static str, rule: &'static str, assume: &'static [&'static str], gen: fn(Tier, &mut Sink) -> GenInfo) -> Box<dyn Prop> {
        Box::new(XP { id, rule, assume, gen, cache: Cache::default(), steps: 0 })
    }
}
impl Prop for XP {
    fn id(&self) -> &'static str { self.id }
    fn rule(&self) -> &'static str { self.rule }
    fn assumptions(&self) -> Vec<&'static str> { self.assume.to_vec() }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo { (self.gen)(tier, sink) }
    fn run(&mut self, f: &[&str]) -> Out {
        if let Err(e) = self.cache.load(f[0]) { return Out::Bad(e); }
        let parsed = rxp::parse(f[2]);
        let ks: Vec<usize> = if f[1] == "*" { (0..self.cache.order.len()).collect() } else { vec![f[1].parse().unwrap()] };
        let mut obs = hs(f[0]);
        let mut trivial = true;
        for k in ks {
            self.steps += 1;
            match self.cache.compare_parsed(k, f[2], &parsed) {
                Err(e) => return Out::Bad(e),
                Ok(Cmp::Open) => {}
                Ok(Cmp::Same { obs: o, error }) => { obs = obs.wrapping_mul(31).wrapping_add(o); trivial &= error; }
            }
        }
        Out::Ok { obs, trivial }
    }
    fn steps(&self) -> u64 { self.steps }
}

/// Fills ①②③④ of the template with every combination; false to stop.
pub fn cross(sink: &mut Sink, xml: &str, ctx: &str, tpl: &str, lists: &[&[&str]]) -> bool {
    const MARK: [char; 5] = ['①', '②', '③', '④', '⑤'];
    let n = lists.len();
    let mut ix = vec![0usize; n];
    if lists.iter().any(|l| l.is_empty()) { return true; }
    let mut s = String::new();
    loop {
        s.clear();
        for c in tpl.chars() {
            match MARK.iter().position(|&m| m == c) { Some(k) => s.push_str(lists[k][ix[k]]), None => s.push(c) }
        }
        if !sink(&[xml, ctx, &s]) { return false; }
        let mut k = n;
        loop {
            if k == 0 { return true; }
            k -= 1;
            ix[k] += 1;
            if ix[k] < lists[k].len() { break; }
            ix[k] = 0;
        }
    }
}
/// Every template with every combination of its lists.
pub fn crosses(sink: &mut Sink, xml: &str, ctx: &str, tpls: &[&str], lists: &[&[&str]]) -> bool {
    for t in tpls { if !cross(sink, xml, ctx, t, lists) { return false; } }
    true
}

/// Every expression of 1 to `max` parts: leaves, and templates whose holes ①②③ hold smaller ones
/// (in parentheses unless `bare`).  Returns how many there are, or None to stop.
pub fn trees(leaves: &[&str], tpls: &[&str], max: usize, bare: bool, f: &mut dyn FnMut(&str) -> bool) -> Option<usize> {
    const MARK: [char; 3] = ['①', '②', '③'];
    let arity: Vec<usize> = tpls.iter().map(|t| MARK.iter().filter(|m| t.contains(**m)).count()).collect();
    let mut by: Vec<Vec<String>> = vec![vec![], leaves.iter().map(|s| s.to_string()).collect()];
    let mut n = leaves.len();
    for l in leaves { if !f(l) { return None; } }
    for size in 2..=max {
        let mut here: Vec<String> = vec![];
        let keep = size < max;
        for (t, &h) in tpls.iter().zip(&arity) {
            // sizes of the parts
            let mut parts = vec![1usize; h];
            if h + 1 > size { continue; }
            loop {
                if parts.iter().sum::<usize>() == size - 1 {
                    let mut ix = vec![0usize; h];
                    'fill: loop {
                        let mut s = String::with_capacity(64);
                        for c in t.chars() {
                            match MARK.iter().position(|&m| m == c) {
                                Some(k) => { let e = &by[parts[k]][ix[k]]; if bare || parts[k] == 1 { s.push_str(e) } else { s.push('('); s.push_str(e); s.push(')') } }
                                None => s.push(c),
                            }
                        }
                        n += 1;
                        if !f(&s) { return None; }
                        if keep { here.push(s); }
                        let mut k = h;
                        loop {
                            if k == 0 { break 'fill; }
                            k -= 1;
                            ix[k] += 1;
                            if ix[k] < by[parts[k]].len() { break; }
                            ix[k] = 0;
                        }
                    }
                }
                let mut k = h;
                let mut done = true;
                while k > 0 { k -= 1; parts[k] += 1; if parts[k] < size { done = false; break; } parts[k] = 1; }
                if done { break; }
            }
        }
        by.push(here);
    }
    Some(n)
}
/// The same as cases of a property: each in every surrounding.
pub fn sink_trees(sink: &mut Sink, g: &mut GenInfo, what: &str, xml: &str, ctx: &str, outer: &[&str], leaves: &[&str], tpls: &[&str], max: usize, bare: bool) -> bool {
    let n = trees(leaves, tpls, max, bare, &mut |e| outer.iter().all(|o| sink(&[xml, ctx, &o.replace('①', e)])));
    match n {
        None => false,
        Some(n) => { g.notes.push(format!("all {} expressions of 1..={} parts over {} leaves and {} constructs ({}), in {} surroundings", n, max, leaves.len(), tpls.len(), what, outer.len())); true }
    }
}
