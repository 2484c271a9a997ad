// C09 queries after any history, C14 totality of the query engine, C24 purity.
use crate::gen::*;
use crate::props::tree::*;
use crate::props::xp::*;
use crate::props::xpnode::rich;
use crate::props::xpval::XML;
use crate::rdom::*;
use crate::rxp::{self, It, RErr};
use crate::sup::*;
use amxml::dom::{new_document, NodePtr};

pub fn all() -> Vec<Box<dyn Prop>> { vec![Box::new(C09::default()), Box::new(C14::default()), Box::new(C24::default())] }

// ------------------------------------------------------------------- C09
#[derive(Default)]
struct C09 { steps: u64, cache: Cache, exprs: Vec<AExpr> }

/// Evaluated from every node after a history.
/// Compiling an expression is most of the cost, so the short set has short ones.
/// (expression, from every node rather than from the roots of the trees only, only in the long set)
const AFTER: &[(&str, bool, bool)] = &[("preceding::node()", true, false), ("following::*", true, false), ("..", true, false), (".//node()", false, false), (".//@*", false, false), (".//*[last()]", false, false), (".//*|.//@*", false, false),
    ("(following::node(), preceding::node())", true, true), ("ancestor-or-self::node()", true, true), ("(.., following-sibling::*, preceding-sibling::*, @*)", true, true), ("root()//node() except descendant::node()", true, true),
    ("descendant-or-self::node()", false, true), (".//*[1]", false, true), (".//node()[. << (root()//*)[last()]]", false, true), (".//*[@n or @k]", false, true), (".//text()/..", false, true), ("reverse(.//node())", false, true)];
const SETQ: &[&str] = &["//*", "//node()", "//@*", "//* | //@*", "(//*, //@*)", "(//*, //*)", "reverse(//*)", "(//a, .)", "(., ..)", "(.., ., *)", "//*/..", "//*/@*", "//text()", "ancestor-or-self::node()", "reverse(ancestor::node())",
    "(descendant::node(), ancestor::node())", "preceding::node()", "(following::node(), preceding::node())", "()", "1", "'a'", "(1, //*, 'x')", "true()", "nosuch", "//*[1]", "(//*)[1]", "(//*)[last()]", "//* except .", "for $x in reverse(//*) return $x/@k",
    "//* ! ..", "map{}", "[//*]", "[//*]?1", "if (*) then * else ..", "1 div 0", "//*[", "", "$x", "nosuch()", "(//*) ! (., @*)", "insert-before(//*, 2, //@*)", "(//@*, //*)", "remove(reverse(//node()), 1)", "let $x := //* return ($x, reverse($x))"];

/// Over documents of every size, at the outermost element.
const SETQ_N: &[&str] = &["*", "//*/@*", "reverse(*)", "(//a, //a)", "(*, ..)", "1 to Ｎ", "(//a)[last()]", "//node()", "(1 to Ｎ, *)", "ancestor-or-self::*", "//a/.."];

/// Results of every size, in document order or not, from a document root among many nodes to one node many times.
const SETQ_BIG: &[&str] = &["(/, //node())", "(//node(), /)", "//node()/ancestor-or-self::node()", "(//*, //@*, /)", "reverse(//node()/ancestor-or-self::node())", "(//node(), //node(), //node())", "//node() ! root()", "//@*/..", "//*/ancestor::*", "(1 to 20, //node(), 'x')", "//node()[position() > 8]", "(//node())[position() < 10]", "(//node())[position() mod 2 = 0]",
    "(//text(), //comment(), //processing-instruction())", "(//@*)[last()]", "subsequence(reverse(//node()), 2, 17)", "insert-before(//node(), 9, /)", "//*[@*]/@*", "following::node() | preceding::node()", "(//* except /*, /*)"];

type AExpr = (&'static str, bool, bool, rxp::R<std::rc::Rc<rxp::E>>);
fn observe_q(l: &Live, long: bool, exprs: &[AExpr], steps: &mut u64, obs: &mut u64) -> Result<(), String> {
    for &r in &l.roots {
        for i in l.d.order(r) {
            let p = at(&l.map, i);
            for (src, every, only_long, e) in exprs.iter() {
                if !every && i != r || *only_long && !long { continue; }
                *steps += 1;
                let m = match e { Ok(e) => rxp::eval_at(&l.d, i, e), Err(e) => Err(e.clone()) };
                let m = match m { Ok(m) => m, Err(RErr::Unspec(_)) => continue, Err(RErr::Err(x)) => return Err(format!("model: {} fails: {}", src, x)) };
                let want: Vec<Option<usize>> = m.iter().map(|x| if let It::N(n) = x { Some(*n) } else { None }).collect();
                let s = p.eval_xpath(src).map_err(|e| format!("{} at node #{} fails: {}", src, i, e))?;
                let got: Vec<Option<usize>> = (0..s.len()).map(|k| s.get_item(k).as_nodeptr().and_then(|q| id_of(&l.map, &q))).collect();
                if want != got { return Err(format!("{} at node #{} <{}> of {}: expected nodes {:?}, got {:?}", src, i, l.d.n[i].name, l.d.xml(r), want, got)); }
                *obs = obs.wrapping_mul(31).wrapping_add(want.len() as u64);
                if i != r && !long { continue; }
                let mut ws: Vec<usize> = want.iter().flatten().copied().collect();
                let ord = l.d.order(r);
                ws.sort_by_key(|n| ord.iter().position(|x| x == n));
                ws.dedup();
                let ns: Vec<Option<usize>> = p.get_nodeset(src).map_err(|e| format!("get_nodeset({}): {}", src, e))?.iter().map(|q| id_of(&l.map, q)).collect();
                let ws = ws.into_iter().map(Some).collect::<Vec<_>>();
                if ns != ws { return Err(format!("get_nodeset({}) at node #{} of {}: expected {:?}, got {:?}", src, i, l.d.xml(r), ws, ns)); }
                let mut vis = vec![];
                p.each_node(src, |n| vis.push(id_of(&l.map, &n))).map_err(|e| format!("each_node({}): {}", src, e))?;
                if vis != ws { return Err(format!("each_node({}) at node #{} of {}: expected {:?}, visits {:?}", src, i, l.d.xml(r), ws, vis)); }
                let first = p.get_first_node(src).map(|q| id_of(&l.map, &q));
                if first != ws.first().copied() { return Err(format!("get_first_node({}) at node #{} of {}: expected {:?}, got {:?}", src, i, l.d.xml(r), ws.first(), first)); }
            }
        }
    }
    Ok(())
}

impl C09 {
    fn history(&mut self, f: &[&str]) -> Result<u64, String> {
        if self.exprs.is_empty() { self.exprs = AFTER.iter().map(|s| (s.0, s.1, s.2, rxp::parse(s.0))).collect(); }
        let w = &world(f[1]);
        let mut l = start(w)?;
        let mut obs = hs(f[3]) | 1;
        let (mode, long) = (&f[2][..1], f[2].len() > 1);
        if mode != "0" { observe_q(&l, long, &self.exprs, &mut self.steps, &mut obs)?; }
        for o in f[3].split(' ') {
            apply_both(&mut l, op_parse(o))?;
            if mode == "2" { observe_q(&l, long, &self.exprs, &mut self.steps, &mut obs)?; }
        }
        observe_q(&l, long, &self.exprs, &mut self.steps, &mut obs)?;
        Ok(obs)
    }
    /// The retrieval methods against the sequence the model computes.
    fn retrieve(&mut self, xml: &str, expr: &str) -> Result<u64, String> {
        self.cache.load(xml)?;
        let c = &self.cache;
        let e = rxp::parse(expr);
        let mut obs = hs(xml);
        let all = if xml.starts_with('!') { 1..2 } else { 0..c.order.len() };
        let rank: std::collections::HashMap<usize, usize> = c.order.iter().enumerate().map(|(i, &n)| (n, i)).collect();
        for k in all {
            self.steps += 1;
            let ctx = c.node(k);
            let p = at(&c.map, ctx);
            let wher = format!("{} at node {} of {}", expr, k, xml);
            if xml.starts_with('!') { c.compare(k, expr)?; }
            let m = match &e { Ok(e) => rxp::eval_at(&c.d, ctx, e), Err(e) => Err(e.clone()) };
            let ids = |v: &[NodePtr]| -> Vec<Option<usize>> { v.iter().map(|q| id_of(&c.map, q)).collect() };
            let set = p.get_nodeset(expr);
            let mut visited = vec![];
            let each = p.each_node(expr, |n| visited.push(n));
            let first = p.get_first_node(expr);
            match m {
                Err(RErr::Unspec(_)) => {}
                Err(RErr::Err(_)) => {
                    if set.is_ok() || each.is_err() == false || first.is_some() || !visited.is_empty() { return Err(format!("{}: an error expected from every retrieval method", wher)); }
                }
                Ok(s) => {
                    let mut w: Vec<usize> = s.iter().filter_map(|x| if let It::N(n) = x { Some(*n) } else { None }).collect();
                    w.sort_by_key(|n| rank.get(n));
                    w.dedup();
                    let w: Vec<Option<usize>> = w.into_iter().map(Some).collect();
                    let set = set.map_err(|e| format!("{}: get_nodeset: {}", wher, e))?;
                    if ids(&set) != w { return Err(format!("{}: get_nodeset gives {:?}, expected {:?}", wher, ids(&set), w)); }
                    if each.is_err() { return Err(format!("{}: each_node fails", wher)); }
                    if ids(&visited) != w { return Err(format!("{}: each_node visits {:?}, expected {:?}", wher, ids(&visited), w)); }
                    let fw = w.first().copied();
                    if first.map(|q| id_of(&c.map, &q)) != fw { return Err(format!("{}: get_first_node is not the first of {:?}", wher, w)); }
                    obs = obs.wrapping_mul(31).wrapping_add(w.len() as u64 + 1);
                }
            }
        }
        Ok(obs)
    }
    /// each_node with a callback that changes the tree it walks.
    fn walk(&mut self, xml: &str, expr: &str, act: &str) -> Result<u64, String> {
        self.steps += 1;
        let mut d = D { n: vec![] };
        let root = mini(&mut d, xml);
        let doc = new_document(xml).map_err(|e| e.to_string())?;
        let mut map = vec![];
        bind(&d, root, &doc, &mut map)?;
        let e = rxp::parse(expr);
        let m = match &e { Ok(e) => rxp::eval_at(&d, root, e), Err(e) => Err(e.clone()) }.map_err(|e| format!("model: {:?}", e))?;
        let want: Vec<usize> = { let o = d.order(root); let mut v: Vec<usize> = m.iter().filter_map(|x| if let It::N(n) = x { Some(*n) } else { None }).collect(); v.sort_by_key(|n| o.iter().position(|x| x == n)); v.dedup(); v };
        let mut roots = vec![root];
        let mut got: Vec<Option<usize>> = vec![];
        let r = doc.each_node(expr, |mut n| {
            let id = id_of(&map, &n);
            got.push(id);
            match act {
                "delete" => if let Some(p) = n.parent() { p.delete_child(&n); },
                "attr" => n.set_attribute("q", "1"),
                "unattr" => n.delete_attribute("k"),
                "dup" => { let c = n.rc_clone(); n.insert_as_previous_sibling(&c); }
                "query" => { let _ = n.get_nodeset("//*"); let _ = n.eval_xpath("count(preceding::*)"); }
                "nest" => { let _ = doc.each_node("//*", |m| { let _ = m.document_order(); }); }
                "clear" | "next" => {
                    let p = if n.node_type() == amxml::dom::NodeType::Element && act == "clear" { Some(n.rc_clone()) } else { n.parent() };
                    if let Some(p) = p {
                        let (at, ch) = (p.attributes(), p.children());
                        let skip = |v: &Vec<NodePtr>| v.iter().position(|x| *x == n).map(|k| k + 1);
                        let (ka, kc) = if act == "clear" { (Some(0), Some(0)) } else { (skip(&at), skip(&ch)) };
                        if let Some(k) = ka { let mut q = p.rc_clone(); for a in &at[k..] { q.delete_attribute(a.name().as_str()); } }
                        if let Some(k) = kc { for c in &ch[k..] { p.delete_child(c); } }
                    }
                }
                _ => unreachable!(),
            }
        });
        for &i in &want {
            match act {
                "delete" => if let Some(p) = d.n[i].parent { if d.n[i].k != K::Attr { apply_model(&mut d, &mut roots, Op::X(p, i)); } },
                "attr" => if d.n[i].k == K::El { match d.n[i].at.iter().position(|&a| d.n[a].name == "q") { Some(k) => { let a = d.n[i].at[k]; d.n[a].value = "1".into(); } None => { d.attr(i, "q", "1"); } } },
                "unattr" => if let Some(k) = d.n[i].at.iter().position(|&a| d.n[a].name == "k") { d.n[i].at.remove(k); },
                "dup" => if d.n[i].k != K::Attr { apply_model(&mut d, &mut roots, Op::P(i, i)); },
                "clear" | "next" => {
                    let p = if d.n[i].k == K::El && act == "clear" { Some(i) } else { d.n[i].parent };
                    if let Some(p) = p {
                        let (ka, kc) = if act == "clear" { (Some(0), Some(0)) } else { (d.n[p].at.iter().position(|&x| x == i).map(|k| k + 1), d.n[p].ch.iter().position(|&x| x == i).map(|k| k + 1)) };
                        if let Some(k) = ka { for a in d.n[p].at.split_off(k) { d.n[a].parent = None; } }
                        if let Some(k) = kc { for c in d.n[p].ch.split_off(k) { d.n[c].parent = None; } }
                    }
                }
                _ => {}
            }
        }
        if r.is_err() { return Err(format!("each_node({}) of {} fails", expr, xml)); }
        if got != want.iter().map(|&x| Some(x)).collect::<Vec<_>>() { return Err(format!("each_node({}) of {} with {}: visits {:?}, expected {:?}", expr, xml, act, got, want)); }
        if doc.to_string() != d.xml(root) { return Err(format!("each_node({}) of {} with {}: leaves {}, expected {}", expr, xml, act, doc.to_string(), d.xml(root))); }
        Ok(hs(&d.xml(root)))
    }
}
const WALK: &[&str] = &["//*", "//node()", "/*//*", "/*/node()", "//*[1]", "reverse(//*)", "//text()", "//*/..", "//@*", "//*/(@* | node())", "//@*/..", "//*[last()] | //@k"];
const ACTS: &[&str] = &["delete", "attr", "unattr", "dup", "query", "nest", "clear", "next"];

impl Prop for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn rule(&self) -> &'static str {
        "every history up to the stated depth over the modification operations from 5 worlds, after which (or around, or between which) 17 queries (7 for the longer ones) are evaluated from the nodes of every live tree, detached ones \
         included; every document up to the stated size x 44 expressions x every node through get_nodeset, each_node and get_first_node; each_node with callbacks that modify the tree. Results compared by node identity \
         with the reference evaluator on the model tree. Non-trivial: every case."
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a callback of each_node sees the nodes selected before the first call"] }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let depths = tier.pick([2, 1, 2, 2, 1], [2, 2, 3, 2, 2]);
        for (wi, dep) in depths.iter().enumerate() {
            let ws = wi.to_string();
            if !histories(wi, *dep, &mut g, &mut |h| {
                let n = h.split(' ').count();
                let modes: &[&str] = if n == 1 { &["0L", "1L", "2L"] } else if tier == Tier::Thorough && n == 2 { &["0", "1L", "2"] } else { &["1"] };
                modes.iter().all(|m| sink(&["H", &ws, m, h]))
            }) { return g; }
            g.notes.push(format!("world {}: all histories of 1..={} operations, queries around (short ones also afterwards only, and after every step)", wi, dep));
        }
        for wi in 0..LOOSE.len() {
            let ws = format!("o{}", wi);
            let w = world(&ws);
            let (_, roots) = model_world(&w);
            if !histories_after(&w, Some(Op::F(roots[1], 0)), 1, &mut g, &mut |h| ["0", "1"].iter().all(|m| sink(&["H", &ws, m, h]))) { return g; }
        }
        g.notes.push(format!("{} worlds with loose nodes of every kind, every operation, queries around it or after it", LOOSE.len()));
        let pal = rich(0);
        let n = tier.pick(4, 5);
        if !docs(n, &pal, |d| { let x = d.xml(0); SETQ.iter().all(|q| sink(&["D", &x, q])) }) { return g; }
        g.notes.push(format!("all trees of 1..={} nodes x all nodes x {} expressions x 3 retrieval methods", n, SETQ.len()));
        let big: Vec<String> = big_docs(tier).iter().map(|d| d.xml(0)).filter(|x| !x.contains('&')).collect();
        for x in &big { for q in SETQ.iter().chain(SETQ_BIG) { if !sink(&["D", x, q]) { return g; } } }
        g.notes.push(format!("{} documents of up to {} bytes x all nodes x {} expressions x 3 retrieval methods", big.len(), big.iter().map(|x| x.len()).max().unwrap_or(0), SETQ.len() + SETQ_BIG.len()));
        let ns = crate::names::sizes(tier.pick(70, 300), tier.pick(4097, 20000));
        for &n in &ns { for shape in ["!fan", "!nest", "!attrs", "!chain"] {
            if n > match shape { "!chain" => 1030, "!attrs" => 2100, _ => 30000 } { continue; }
            for q in SETQ_N { if !sink(&["D", &format!("{} {}", shape, n), &q.replace('Ｎ', &n.to_string())]) { return g; } }
        } }
        g.notes.push(format!("documents of {} sizes from 0 to {} parts in 4 shapes x {} expressions: every item of the sequence and the 3 retrieval methods", ns.len(), ns.last().unwrap(), SETQ_N.len()));
        let small = Pal { names: vec!["a"], attrs: vec![vec![], vec![("k", "1")]], leaves: vec![(K::Text, "", "t"), (K::Comment, "", "c")] };
        let many = Pal { names: vec!["a"], attrs: vec![vec![], vec![("q", "0"), ("k", "1"), ("l", "2"), ("m", "3")]], leaves: vec![(K::Text, "", "t"), (K::Pi, "p", "")] };
        if !docs(tier.pick(4, 5), &many, |d| { let x = d.xml(0); WALK.iter().all(|q| ACTS.iter().all(|a| sink(&["W", &x, q, a]))) }) { return g; }
        let n = tier.pick(5, 6);
        if !docs(n, &small, |d| { let x = d.xml(0); WALK.iter().all(|q| ACTS.iter().all(|a| sink(&["W", &x, q, a]))) }) { return g; }
        g.notes.push(format!("all trees of 1..={} nodes x {} expressions x {} callbacks of each_node", n, WALK.len(), ACTS.len()));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        let r = match f[0] { "H" => self.history(f), "D" => self.retrieve(f[1], f[2]), _ => self.walk(f[1], f[2], f[3]) };
        match r {
            Ok(o) => Out::Ok { obs: o, trivial: false },
            Err(e) if f[0] == "H" => { let w = &world(f[1]); Out::Bad(format!("world {:?} + {:?} (document of the second {}), history {}: {}", w.a, w.b, if w.keep { "kept" } else { "dropped" }, f[3], e)) }
            Err(e) => Out::Bad(e),
        }
    }
    fn steps(&self) -> u64 { self.steps }
}

// ------------------------------------------------------------------- C14
#[derive(Default)]
struct C14 { steps: u64, doc: Option<NodePtr>, doc2: Option<NodePtr>, ctx: Vec<NodePtr> }

pub const TOKS: &[&str] = &["1", "a", "'x'", "*", "/", "//", "(", ")", "[", "]", "{", "}", ",", ".", "..", "@", "$x", "+", "-", "=", "?", "!", "|", ":", "::", "#", "=>", ":=", "(:", ":)"];
pub const TOKS2: [&str; 50] = ["<", "<<", "||", "1.5", "1e0", "''", "to", "div", "eq", "is", "and", "union", "if", "then", "else", "for", "let", "some", "in", "return", "satisfies", "instance", "of", "cast", "castable", "as", "treat", "map", "array", "function",
    "child::", "attribute", "self::", "text()", "node()", "element", "item()", "xs:integer", "empty-sequence()", "$", "$x:=1", "a()", "count", "abs#1", "concat(?", "position()", "!=", "%", "\"", "p:a"];
const CHARS: &[&str] = &["a", "1", "0", ".", "e", "'", "\"", "(", ")", "[", "]", "{", "}", "/", "*", "@", "$", ":", "?", "!", "-", "+", "<", " ", "#", "\u{e9}"];
pub const FNS: [(&str, &[usize]); 68] = [("fn:nilled", &[0, 1]), ("string", &[0, 1]), ("data", &[0, 1]), ("number", &[0, 1]), ("string-length", &[0, 1]), ("normalize-space", &[0, 1]), ("name", &[0, 1]), ("local-name", &[0, 1]), ("namespace-uri", &[0, 1]),
    ("lang", &[1, 2]), ("root", &[0, 1]), ("position", &[0]), ("last", &[0]), ("for-each", &[2]), ("filter", &[2]), ("abs", &[1]), ("ceiling", &[1]), ("floor", &[1]), ("round", &[1]), ("codepoints-to-string", &[1]), ("string-to-codepoints", &[1]),
    ("compare", &[2]), ("codepoint-equal", &[2]), ("concat", &[0, 1, 2, 3]), ("string-join", &[1, 2]), ("substring", &[2, 3]), ("upper-case", &[1]), ("lower-case", &[1]), ("translate", &[3]), ("contains", &[2]), ("starts-with", &[2]), ("ends-with", &[2]),
    ("substring-before", &[2]), ("substring-after", &[2]), ("true", &[0]), ("false", &[0]), ("boolean", &[1]), ("not", &[1]), ("empty", &[1]), ("exists", &[1]), ("head", &[1]), ("tail", &[1]), ("insert-before", &[3]), ("remove", &[2]), ("reverse", &[1]),
    ("subsequence", &[2, 3]), ("index-of", &[2]), ("zero-or-one", &[1]), ("one-or-more", &[1]), ("exactly-one", &[1]), ("count", &[1]), ("avg", &[1]), ("max", &[1]), ("min", &[1]), ("sum", &[1, 2]), ("map:size", &[1]), ("map:keys", &[1]),
    ("map:contains", &[2]), ("map:get", &[2]), ("array:size", &[1]), ("array:get", &[2]), ("array:flatten", &[1]), ("xs:integer", &[1]), ("math:sqrt", &[1]), ("matches", &[2, 3]), ("nosuch", &[0, 1]), ("node", &[0, 1]), ("if", &[0, 1, 2])];
pub const ODDV: &[&str] = &["()", "1", "-1", "0", "1.5", "1e0", "1e300", "9223372036854775807", "(-9223372036854775807 - 1)", "(0e0 div 0e0)", "(1 div 0e0)", "(-1 div 0e0)", "'a'", "''", "'\u{1d49c}'", "true()", "false()", "a", "a[1]", "@k", "/", ".", "(1, 'a')", "(a, 1)", "map{'a': 1}", "map{}", "[1, (2, 3)]", "[]", "abs#1", "function($x) {$x}"];
const CORPUS: &[&str] = &["/r/a[1]/@k", "//a[@k = '2']/text()", "a[position() < last()]", "(//a)[2]/..", "ancestor-or-self::*[1]", "descendant::p:b", "*:a | p:*", "@*[name() = 'k']", "a/b//c[d]/..", "..//@k", "1 + 2 * -3", "(1 to 5)[. mod 2 = 0]", "2 idiv 3 - 1.5e0 div 2.", "a = 'x' and not(b) or c != 1", "a << b", "a is b", "'a' || \"b\" || 1",
    "if (a) then b else c", "for $x in (1, 2), $y in ($x, 3) return $x + $y", "let $x := 1, $y := $x return ($x, $y)", "some $x in a satisfies $x = 'x'", "every $x in (1, 2), $y in a satisfies $x < $y", "a instance of element()+", "1 cast as xs:string?", "'1' castable as xs:integer", "() instance of empty-sequence()", "[1, 2] instance of array(xs:integer)",
    "map{'a': 1, 'b': (2, 3)}", "map{'a': map{'b': 5}}?a?b", "[1, [2, 3]]?2?1", "array{1, 2}(2)", "map{1: 'x'}(1)", "(map{'a': 1}, map{'a': 2}) ! ?a", "[1, 2]?*", "map{'a b': 1}?('a b')", "function($x as xs:integer, $y) as item()* {$x, $y}(1, 2)", "concat(?, 'b', ?)('a', 'c')", "fn:abs#1(-1)", "for-each((1, 2), function($x) {$x * 2})", "filter(1 to 4, function($v) {$v > 2})",
    "'abc' => substring(2) => upper-case()", "1 => (function($x) {$x})()", "a ! name()", "a ! (., position())", "a/(b, c)/d", "(a, b)/.", "self::node()[self::a or self::b]", "processing-instruction('p')", "element(a, xs:untyped?)", "attribute(k)", "a(: comment (: nested :) :)/b", "a union b intersect c except d", "-a", "+ - 1", "- - a[1]", "1.5e-3", ".5", "5.", "'it''s'", "\"q\"\"q\"",
    "child::a/attribute::k", "following-sibling::*[last() - 1]", "function(xs:integer) as xs:string", "1 instance of function(item()*, xs:string?) as map(xs:string, array(*))+"];

/// Names whose characters take one to four bytes, prefixes and suffixes of one another.
const UNAMES: &[&str] = &["a", "ab", "\u{e9}", "\u{e9}a", "a\u{e9}", "\u{3042}", "\u{3042}b", "b\u{3042}", "\u{3042}\u{3042}", "\u{20000}", "\u{20000}\u{3042}", "x\u{20000}", "p:\u{3042}", "\u{3042}:p", "\u{3042}:\u{3042}", "p:a", "\u{e9}:\u{20000}", "p:\u{e9}x"];
const DEEP_E: &[(&str, &str, &str, &str)] = &[("", "(", "1", ")"), ("", "(", "", ""), ("", "[", "1", "]"), ("", "if (1) then ", "1", " else 2"), ("", "- ", "1", ""), ("", "a[", "1", "]"), ("", "abs(", "1", ")"), ("1", " + 1", "", ""), ("a", "/a", "", ""), ("map{1: 2}", "?1", "", ""), ("", "for $x in 1 return ", "1", ""), ("", "function($x) {", "1", "}"),
    ("1 instance of ", "array(", "item()", ")"), ("1", " or 1", "", ""), ("1", " ! 1", "", ""), ("a", "|a", "", ""), ("1", "||1", "", ""), ("1", " => abs()", "", ""), ("", "map{1: ", "1", "}"), ("", "(:", "", ":)"), ("a", "[1]", "", ""), ("'", "x", "'", ""), ("(1", ", 1", ")", ""), ("concat('a'", ", 'a'", ")", ""), ("", "9", "", ""), ("", "a", "", ""), ("", "..", "", ""), ("", " ", "1", "")];
const FLAT_E: &[(&str, &str, &str, &str)] = &[("", "(:", "", ":)"), ("", "(:x:)", "1", ""), ("", "(::) ", "1", ""), ("1 ", "(::)", "+ 1", ""), ("'", "x", "'", ""), ("\"", "\u{e9}", "\"", ""), ("'", "''", "'", ""), ("\"", "\"\"", "\"", ""), ("'", "x", "", ""), ("", "9", "", ""), ("0", "0", "", ""), ("1.", "3", "", ""), (".", "0", "1", ""), ("1e", "0", "1", ""), ("1e-", "0", "1", ""), ("", "a", "", ""), ("a", "-", "", ""), ("a", ".", "", ""), ("", "\u{3042}", "", ""), ("$", "x", "", ""), ("", "..", "", ""), ("", ".", "", ""), ("", " ", "1", ""), ("", "\n", "1", ""), ("", "\t", "1", ""), ("", "\r\n", "1", ""), ("1", " ", "", ""), ("1", "\n", "+ 1", ""), ("1 + ", "\n", "1", ""), ("a", " ", "[1]", ""), ("abs", "\n", "(1)", ""), ("(", "\n", ")", ""), ("a/", " ", "b", ""), ("'a' ||", "\n", "'b'", ""), ("(: ", "\n", ":)1", ""), ("(: ", ":", ":)1", ""), ("(: ", "(", ":)1", ""), ("", ":", "", ""), ("", "!", "", ""), ("", "/", "", ""), ("", "<", "", ""), ("", "]", "", ""), ("", ")", "", ""), ("", "}", "", ""), ("", ",", "", ""), ("", "?", "", ""), ("", "@", "", ""), ("", "#", "", ""), ("", "&", "", ""), ("Q{", "u", "}a", ""), ("processing-instruction('", "p", "')", ""), ("element(", "a", ")", "")];
const FLAT_X: &[&str] = &["sum(1 to 100000)", "count(1 to 100000)", "avg(1 to 100000)", "max(1 to 100000)", "min(1 to 100000)", "(1 to 100000) = 100000", "(1 to 100000) != 1", "(1 to 100000)[. = 99999]", "(1 to 100000)[last()]", "(1 to 100000)[100000]", "string-join((1 to 100000) ! 'a', ',')", "count(reverse(1 to 100000))", "count(remove(1 to 100000, 99999))", "count(insert-before(1 to 100000, 50000, 0))", "count(subsequence(1 to 100000, 99990))", "count(tail(1 to 100000))", "head(1 to 100000)", "index-of(1 to 100000, 99999)", "count((1 to 100000) ! (. + 1))", "count(for $i in 1 to 100000 return $i * 2)", "some $i in 1 to 100000 satisfies $i = 100000", "every $i in 1 to 100000 satisfies $i > 0", "count(for-each(1 to 20000, function($x) {$x}))", "count(filter(1 to 20000, function($x) {$x > 1}))", "count(array{1 to 100000}?*)", "array:size(array{1 to 100000})", "count(array:flatten(array{1 to 100000}))", "array{1 to 100000}(99999)", "string-length(codepoints-to-string((1 to 100000) ! 97))", "count(string-to-codepoints(codepoints-to-string((1 to 100000) ! 97)))", "count(data(1 to 100000))", "(1 to 100000) instance of xs:integer+", "count((1 to 100000) treat as item()+)", "boolean((//a, 1 to 100000))", "empty(1 to 100000)", "string-length(normalize-space(codepoints-to-string((1 to 100000) ! 32)))", "upper-case(codepoints-to-string((1 to 100000) ! 97)) = 'A'", "translate(codepoints-to-string((1 to 100000) ! 97), 'a', 'b') = 'b'", "contains(codepoints-to-string((1 to 100000) ! 97), 'b')", "substring-after(codepoints-to-string((1 to 100000) ! 97), 'b')", "substring(codepoints-to-string((1 to 100000) ! 97), 99999)", "codepoints-to-string((1 to 100000) ! 49) castable as xs:integer", "number(codepoints-to-string((1 to 100000) ! 49)) > 1", "codepoints-to-string((1 to 100000) ! 49) cast as xs:double", "compare(codepoints-to-string((1 to 100000) ! 49), codepoints-to-string((1 to 99999) ! 49))", "(1 to 100000)", "[1 to 100000]", "round(99999999999.5)", "1 to 100000 => count()"];
const FLAT_Q: &[&str] = &["count(//node())", "count(r/node()[last()])", "string(r)", "count(r/node()/..)", "count(r/node()[last()]/preceding-sibling::node())", "count(r/node()[1]/following-sibling::node())", "count(r/node() | r/node())", "count(r/node() except r/node()[1])", "count(r/node() intersect r/node())", "r/node()[last()] >> r/node()[1]", "count(//@k)", "count(r/node()[position() mod 2 = 0])", "count(r/node()[last()]/preceding::node())", "count((/)/descendant::node()/ancestor::*)", "r/node() = 'x'", "count(r/node() ! string(.))", "string-join(r/node(), '')", "reverse(r/node())[1]", "/"];
const DEEP_Q: &[&str] = &["count(/*)", "count(//a)", "string(/)", "count(//text()/ancestor::*)", "count(//node()/..)", "(//a)[last()]/..", "/"];

impl C14 {
    fn go(&mut self, p: usize, e: &str) -> u64 {
        if self.doc.is_none() {
            let d = new_document(XML).unwrap();
            let r = d.root_element();
            self.ctx = vec![r.rc_clone(), d.rc_clone(), r.attributes()[0].rc_clone(), r.children()[0].children()[0].rc_clone()];
            let mut x = String::from("<r");
            for n in UNAMES.iter().filter(|n| !n.contains('\u{20000}')) { x += &format!(" {}=\"{}\"", n, n); }
            x += ">";
            for n in UNAMES.iter().filter(|n| !n.contains('\u{20000}')) { x += &format!("<{}>{}</{}>", n, n, n); if !n.contains(':') { x += &format!("<?{} {}?>", n, n); } }
            self.doc2 = Some(new_document(&(x + "</r>")).unwrap());
            self.ctx.push(self.doc2.as_ref().unwrap().root_element());
            self.doc = Some(d);
        }
        self.steps += 1;
        let c = self.ctx[p].rc_clone();
        match c.eval_xpath(e) {
            Err(e) => { let _ = e.to_string(); 1 }
            Ok(s) => {
                let mut o = hs(&s.to_string());
                for i in 0..s.len() { let it = s.get_item(i); o ^= it.to_string().len() as u64; let _ = it.as_nodeptr(); }
                o | 2
            }
        }
    }
}
impl Prop for C14 {
    fn id(&self) -> &'static str { "C14" }
    fn rule(&self) -> &'static str {
        "every sequence up to the stated length over an alphabet of 30 and one of 80 expression tokens, every string up to the stated length over 26 characters, every function with every argument tuple over 30 awkward values, \
         every operator over every pair of them, every one-character deletion, insertion, replacement and adjacent swap and every truncation of 64 expressions, and growing families; evaluated under a panic, hang, stack and memory \
         monitor, the result's text forms included. Non-trivial: a value was produced."
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["ranges of millions of items and nesting deeper than 200 are not explored", "longer expressions are covered only by the growing families and the edits"] }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let mut b = String::new();
        let mut join = |s: &[&str], sep: &str, sink: &mut Sink| -> bool { b.clear(); for (i, p) in s.iter().enumerate() { if i > 0 { b.push_str(sep); } b.push_str(p); } sink(&["0", &b]) };
        let n = tier.pick(4, 5);
        if !seqs(&TOKS, 0, n, &mut |s| join(s, " ", sink)) { return g; }
        if !seqs(&TOKS, 0, 3, &mut |s| join(s, "", sink)) { return g; }
        let both: Vec<&str> = TOKS.iter().chain(TOKS2.iter()).copied().collect();
        let n2 = tier.pick(3, 4);
        if !seqs(&both, 0, n2, &mut |s| join(s, " ", sink)) { return g; }
        g.notes.push(format!("all sequences of 0..={} of {} tokens and 0..={} of {} tokens", n, TOKS.len(), n2, both.len()));
        let n = tier.pick(4, 5);
        if !seqs(&CHARS, 0, n, &mut |s| join(s, "", sink)) { return g; }
        g.notes.push(format!("all strings of 0..={} over {} characters", n, CHARS.len()));
        // everything that opens and may never close
        let ops = ["'", "\"", "Q{", "(:", "(: (:", "(", "[", "{", "map{", "array{", "map{'a':", "a[", "a(", "$", "function(", "function($x) {", "for $", "let $x :=", "element(", "processing-instruction('", "1.", "1e", ".", "@", "a::", "child::", "p:", "*:", "if (", "some $x in", "Q", "#", "concat#", "a#", "?", "=>", "1 =>", "instance", "1 instance", "1 cast", "''", "\"\"", "('", "['"];
        let fill = ["a", "'", "\"", " ", ":", ")", "(", "}", "{", "1", "\u{e9}", "/", "&", "\\", ".", "-", "Q{", "(:", ":)", "''", "]"];
        let ks: Vec<usize> = (0..tier.pick(12, 40)).chain([63, 64, 65, 150, 199].iter().copied()).collect();
        for o in ops.iter() { for f in fill.iter() { for &k in &ks { for e in ["", "'", "}", ":)"] {
            if f.len() == 1 && "([{".contains(f) && k > 65 || (*f == "Q{" || *f == "(:") && k > 65 { continue; }
            if !sink(&["0", &format!("{}{}{}", o, f.repeat(k), e)]) { return g; }
        } } } }
        g.notes.push(format!("{} openings followed by {} repeated pieces of {} lengths, with 4 ends", ops.len(), fill.len(), ks.len()));
        for (name, arities) in FNS.iter() {
            for &k in arities.iter() {
                let tpl = match k { 0 => "①②()".to_string(), 1 => "①②(③)".into(), 2 => "①②(③, ④)".into(), _ => "①②(③, ④, ⑤)".to_string() };
                let v = &ODDV[..];
                let pre: &[&str] = &["", "a/", "1 ! "][..if k == 3 { tier.pick(1, 3) } else { 3 }];
                let nm = [*name];
                let lists: Vec<&[&str]> = match k { 0 => vec![pre, &nm], 1 => vec![pre, &nm, v], 2 => vec![pre, &nm, v, v], _ => vec![pre, &nm, v, v, v] };
                if !cross(sink, "0", "", &tpl, &lists) { return g; }
                // and every arity it does not have
            }
            for call in ["", "1", "1, 2", "1, 2, 3", "1, 2, 3, 4", "?", "?, ?", "1, ?", "?, ?, ?", ","] { if !sink(&["0", &format!("{}({})", name, call)]) { return g; } }
            for k in 0..5 { for post in ["", "(1)", "()", "(1, 2)", " instance of function(*)", " instance of function(item()*) as item()*"] { if !sink(&["0", &format!("{}#{}{}", name, k, post)]) { return g; } } }
        }
        g.notes.push(format!("{} functions x every tuple of up to 3 of {} values", FNS.len(), ODDV.len()));
        let ops = ["or", "and", "=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge", "is", "<<", ">>", "||", "+", "-", "*", "div", "idiv", "mod", "!", "/", "//", "|", "union", "intersect", "except", ",", "[", "?", "=>", "(", "to 3 to"];
        for o in ops.iter() { for x in ODDV.iter() { for y in ODDV.iter() {
            let close = match *o { "[" => "]", "(" => ")", _ => "" };
            for c in ["0", "2"] { if !sink(&[c, &format!("{} {} {}{}", x, o, y, close)]) { return g; } }
        } } }
        let un = ["-①", "+①", "①[1]", "①?*", "①?1", "①?a", "①()", "①(1)", "①(1, 2)", "① instance of item()", "① instance of map(*)", "① instance of array(xs:integer)", "① instance of function(xs:integer) as item()", "① cast as xs:string", "① cast as xs:integer?", "① castable as xs:double", "if (①) then 1 else 2",
            "for $x in ① return $x", "let $x := ① return $x", "some $x in ① satisfies $x", "every $x in ① satisfies $x", "①/a", "①//a", "a[①]", "①[①]", "map{①: 1}", "map{'a': ①}", "[①]", "array{①}", "① ! .", "①/position()", "① to 3", "1 to (①)", "?(①)", "@*[①]", "① => count()", "(①, ①)", "①/..", "string(①)", "//node()[①]", "① treat as item()"];
        for u in un.iter() { for x in ODDV.iter() {
            if u.contains(" to ") && (x.contains("9223372036854775807") || x.contains("300")) { continue; }
            for c in ["0", "1", "2", "3"] { if !sink(&[c, &u.replace("①", x)]) { return g; } }
        } }
        g.notes.push(format!("{} operators over all pairs and {} one-place forms over all of them", ops.len(), un.len()));
        for s in CORPUS.iter() {
            let cs: Vec<char> = s.chars().collect();
            let put = |v: Vec<char>, sink: &mut Sink| -> bool { let t: String = v.into_iter().collect(); sink(&["0", &t]) };
            for i in 0..=cs.len() {
                if !put(cs[..i].to_vec(), sink) || !put(cs[i..].to_vec(), sink) { return g; }
                if i < cs.len() { let mut v = cs.clone(); v.remove(i); if !put(v, sink) { return g; } }
                if i + 1 < cs.len() { let mut v = cs.clone(); v.swap(i, i + 1); if !put(v, sink) { return g; } }
                for c in CHARS.iter() {
                    let c = c.chars().next().unwrap();
                    let mut v = cs.clone(); v.insert(i, c); if !put(v, sink) { return g; }
                    if i < cs.len() { let mut v = cs.clone(); v[i] = c; if !put(v, sink) { return g; } }
                }
            }
            for c in ["1", "2", "3"] { if !sink(&[c, s]) { return g; } }
        }
        if tier == Tier::Thorough {
            for s in CORPUS.iter() { for t in CORPUS.iter() {
                for j in [", ", " ", "/", " ! ", "[", " = ", " + ", " => ", " | "] { if !sink(&["0", &format!("{}{}{}{}", s, j, t, if j == "[" { "]" } else { "" })]) { return g; } }
            } }
            for s in CORPUS.iter() { for c in CHARS.iter() { for c2 in CHARS.iter() {
                let cs: Vec<char> = s.chars().collect();
                for i in (0..cs.len()).step_by(2) { let t: String = cs[..i].iter().collect::<String>() + c + c2 + &cs[i..].iter().collect::<String>(); if !sink(&["0", &t]) { return g; } }
            } } }
        }
        g.notes.push(format!("every single-character edit and every truncation of {} expressions", CORPUS.len()));
        let more: Vec<&str> = UNAMES.iter().copied().chain(["xml", "", "\u{3042}\u{3042}\u{3042}", "\u{e9}\u{e9}", "zzzzzzzz", "p", "\u{10ffff}", "*", "\u{1F600}"]).collect();
        let forms = ["①", "@①", "①:*", "*:①", "①/①", "//①", "processing-instruction(①)", "processing-instruction('①')", "element(①)", "attribute(①)", "element(*, ①)", "①()", "①('a')", "①#1", "①#1('a')", "$①", "let $① := 1 return $①", "for $① in * return name($①)", "function($①) {$①}(1)", "map{'①': 1}?①", "?①", "*[name() = '①']", "'①' => ①()", "* instance of element(①)*", "'①' cast as ①", "'①' cast as xs:integer", "① + 1", "@① = '①'", "string-length('①')", "name(①)", "local-name(@①)", "lang('①')", "namespace-uri(①)", "processing-instruction(①)/string()", "child::①/following::①", "node()[self::①]", "xs:①", "fn:①(1)", "map:①()", "array:①([1])", "'①①①'", "(:①:)1", "①(:①:)", "function(①) as ①", "'x' instance of ①", "upper-case('①')", "normalize-space(' ① ')", "number('①')", "'①' eq ①", "string-to-codepoints('①')"];
        if !cross(sink, "4", "", "②", &[&["x"], &["."]]) { return g; }
        for f in forms.iter() { for n in more.iter() { if !sink(&["4", &f.replace('①', n)]) { return g; } } }
        let forms2 = ["substring-before('①', '②')", "substring-after('①', '②')", "contains('①', '②')", "starts-with('①', '②')", "ends-with('①', '②')", "translate('①', '②', 'xy')", "translate('xyz', '①', '②')", "compare('①', '②')", "string-join(('①', '②'), '①')", "①|②", "①:②", "$①:②", "① ②", "①②", "processing-instruction(①②)", "element(①, ②)", "map{'①': 1}?②", "map{'①': 1}('②')", "*:①②", "①②:*", "@①②", "①[②]", "'①' < '②'", "codepoint-equal('①', '②')", "translate('①②', '②', '')", "substring('①②', 2, 1)", "substring('①②', 0)", "index-of(('①', '②'), '②')"];
        for f in forms2.iter() { for n in more.iter() { for m in more.iter() { if !sink(&["4", &f.replace('①', n).replace('②', m)]) { return g; } } } }
        g.notes.push(format!("{} forms over {} names and strings of characters of one to four bytes, {} forms over all pairs, on a document of such names", forms.len(), more.len(), forms2.len()));
        let mut nums: Vec<String> = (0..=tier.pick(300u32, 2000)).map(|i| i.to_string()).collect();
        for b in 8..=70u32 { let p = 1u128 << b; for d in [p - 1, p, p + 1] { nums.push(d.to_string()); } }
        for k in [18usize, 19, 20, 25, 38, 39, 40, 100, 309, 400] { nums.push("9".repeat(k)); nums.push(format!("1{}", "0".repeat(k))); nums.push(format!("{}1", "0".repeat(k))); }
        let nf = ["①", "-①", "①.①", "①e0", "1e①", "1e-①", ".①", "concat#①", "concat#①(1, 2)", "concat#①()", "concat#① instance of function(xs:string, xs:string) as xs:string", "abs#① instance of function(item()) as item()", "count#①(())", "abs#①(1)", "abs#①", "string#①('a')", "a[①]", "a[-①]", "(1, 2)[①]", "[1, 2](①)", "[1, 2]?①", "string-length(string-join((1 to 3) ! concat('①', .)))", "map{①: 1}(①)", "map{1: 1}?①", "substring('abc', ①)", "substring('abc', 1, ①)", "substring('abc', -①, ①)", "subsequence((1, 2), ①)", "subsequence((1, 2), 1, ①)", "remove((1, 2), ①)", "insert-before((1, 2), ①, 3)", "codepoints-to-string(①)", "array:get([1], ①)", "① to 2", "count(① to 3)", "① idiv 7", "7 idiv ①", "7 mod ①", "① mod 7", "① * ①", "① + ①", "-① - ①", "① div 3", "1 div ①", "round(①)", "round(-①.5)", "floor(-①.5)", "'①' cast as xs:integer", "'①' cast as xs:double", "'-①' castable as xs:integer", "① cast as xs:string", "①e0 cast as xs:integer", "① eq ①.0", "① = ①e0", "abs(-①)", "sum((①, ①))", "avg((①, 1))", "max((①, 1.5))", "number('①')", "position() = ①", "function($x) {$x}#①", "true#①()", "?①", "map:get#①(map{1: 1}, 1)", "for-each#①((1, 2), abs#1)"];
        for n in nums.iter() { for f in nf.iter() {
            if f.contains(" to ") && n.len() < 21 && n.parse::<u128>().map(|v| v > 3 && !f.starts_with('①') && !f.starts_with("count")).unwrap_or(false) { continue; }
            if !sink(&["0", &f.replace('①', n)]) { return g; }
        } }
        g.notes.push(format!("{} forms over {} numbers: 0 to {}, around every power of two to 2^70, up to 400 digits", nf.len(), nums.len(), tier.pick(300, 2000)));
        for k in [1usize, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 150, 200] {
            for (pre, mid, post) in [("", "(", ""), ("", "(", ")"), ("1", "+1", ""), ("1", "-1", ""), ("a", "/a", ""), ("a", "[1]", ""), ("a", "[", "]"), ("", "-", "1"), ("", "//a", ""), ("(1", ",1", ")"), ("'", "x", "'"), ("", "9", ""), ("", "a", ""), ("1", " or 1", ""),
                ("if (1) then ", "if (1) then ", "1"), ("", "for $x in 1 return ", "$x"), ("", "let $x := 1 return ", "$x"), ("[", "[", "]"), ("map{1:", "map{1:", "2}"), ("", "(:", ":)"), ("'", "''", "'"), ("1", " => abs()", ""), ("a", " | a", ""), ("", "a[", ""), ("(1,2)", "[1]", ""), ("1", " ! .", ""), ("", "not(", "1"), ("1 instance of ", "array(", "item()"), ("", "function($x) {", "1"), ("concat(1", ",1", ",1)"), ("$", "x", ""), ("", " ", "1"), ("0.", "0", "1"), ("1e", "0", "1"), ("..", "/..", "")] {
                let e = format!("{}{}{}", pre, mid.repeat(k), post);
                let closer = match mid { "(" => ")", "[" | "a[" => "]", "not(" | "array(" => ")", "map{1:" | "function($x) {" => "}", "(:" => ":)", _ => "" };
                if !sink(&["0", &e]) { return g; }
                if !closer.is_empty() && !sink(&["0", &format!("{}{}{}", e, closer.repeat(k), if pre == "[" { "]" } else { "" })]) { return g; }
            }
        }
        g.notes.push("18 sizes up to 200 of 35 repeated constructs".into());
        for &(pre, mid, post, closer) in DEEP_E { for n in ["300", "200000"] { if !sink(&["deep", "expr", n, pre, mid, post, closer]) { return g; } } }
        for e in DEEP_Q { for n in ["1000", "200000"] { if !sink(&["deep", "query", n, "", "<a>", "x", "</a>", e]) { return g; } } }
        g.notes.push(format!("{} constructs repeated 300 and 200,000 times; {} expressions on elements nested 1,000 and 200,000 deep (each in a process of its own)", DEEP_E.len(), DEEP_Q.len()));
        // long but flat: nothing here needs a stack that grows; the library is unoptimised
        let mut nf = 0;
        for &(pre, mid, post, closer) in FLAT_E { nf += 1; if !sink(&["deep0", "expr", "100000", pre, mid, post, closer]) { return g; } }
        for e in FLAT_X { nf += 1; if !sink(&["deep0", "expr", "0", e, "", "", ""]) { return g; } }
        for (mid, k) in [("<a/>", "3000"), ("<a k='1'>x</a>", "3000"), ("t<!--c-->", "3000"), ("<?p i?>", "3000")] { for e in FLAT_Q { nf += 1; if !sink(&["deep0", "query", k, "<r>", mid, "</r>", "", e]) { return g; } } }
        g.notes.push(format!("{} long flat texts, evaluations of 100,000 items and queries of 3,000 siblings, by an unoptimised build of the library", nf));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        if f[0] == "deep" || f[0] == "deep0" { self.steps += 1; return crate::props::deep::case(f); }
        let p = f[0].parse::<usize>().unwrap();
        let o = self.go(p, f[f.len() - 1]);
        Out::Ok { obs: o, trivial: o == 1 }
    }
    fn steps(&self) -> u64 { self.steps }
}

// ------------------------------------------------------------------- C24
#[derive(Default)]
struct C24 { steps: u64, a: Cache, b: Cache }
/// Expressions that differ only in what a careless key would drop: white space, letters' case, quotes, comments, the way a number is written, prefixes.
const ALIKE: &[&[&str]] = &[
    &["'a b'", "'a  b'", "'ab'", "' a b'", "'a b '", "'a\tb'", "'a\nb'", "\"a b\"", "'A b'", "'a B'", "'a\u{a0}b'"],
    &["a", "A", " a", "a ", "(a)", "a(::)", "(:b:)a", "./a", "child::a", "@a", "*:a", "b", "a[1]", "a [1]", "a[ 1 ]", "'a'", "a[(1)]", "a[2]"],
    &["1", "1.0", "1.", "1e0", "01", "'1'", "+1", "-1", "- 1", "--1", "(1)", "xs:integer(1)", "1.00", "10", "1e1"],
    &["a -1", "a - 1", "a-1", "1 - 1", "1-1", "1 -1", "1- 1", "1--1"],
    &["string-join(('a', 'b'), ' ')", "string-join(('a', 'b'), '  ')", "string-join(('a', 'b'), '')", "string-join(('a', 'b'))", "string-join(('a','b'),' ')"],
    &["'a(:b:)c'", "'ac'", "'a' (:b:)", "'a(::)c'", "\"a(:b:)c\"", "'a (:b:) c'"],
    &["'it''s'", "'it\"s'", "\"it's\"", "\"it''s\"", "'its'", "'it' || 's'"],
    &["count((1, 2))", "count(([1, 2]))", "count([1, 2])", "count([(1, 2)])", "count(array{1, 2})", "count((1 , 2))", "count((12))", "count(((1), (2)))"],
    &["for $x in (1, 2) return $x", "for $y in (1, 2) return $y", "for $x in (1,2) return$x", "for $x in (2, 1) return $x", "for $X in (1, 2) return $X", "for $x in (1, 2) return 'x'", "let $x := (1, 2) return $x"],
    &["map{'a': 1}?a", "map{'a' : 1} ? a", "map{'A': 1}?A", "map{'a': 1}?A", "map{'a':1}('a')", "map{'a b': 1}('a b')", "map{'a b': 1}('a  b')"],
    &["if (a) then 'x' else 'y'", "if (A) then 'x' else 'y'", "if (a) then 'X' else 'y'", "if(a)then'x'else'y'", "if (not(a)) then 'x' else 'y'", "if (a) then 'x ' else 'y'"],
    &["translate('a b', ' ', '-')", "translate('a  b', ' ', '-')", "translate('a b', '  ', '-')", "translate('a b', '', '-')", "translate('a b', ' ', '')", "normalize-space('a b')", "normalize-space('a  b')"],
    &["a = 'x'", "a = 'X'", "a = ' x'", "a='x'", "a = \"x\"", "a != 'x'", "a eq 'x'", "'x' = a", "a[. = 'x']", "a[.= 'x ']"],
    &["//a", "// a", "//A", "/a", "/ / a", "a", ".//a", "//a[1]", "(//a)[1]", "//a [1]", "//@a", "//*", "//a//a"],
    &["concat('a', 'b')", "concat('a', 'b', '')", "concat('a ', 'b')", "concat('ab', '')", "concat('a', ' b')", "fn:concat('a', 'b')", "'a' || 'b'", "'a'||' b'"],
    &["'abc'", "'abd'", "'abcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcx'", "'abcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcy'", "'cab'", "'bca'", "'acb'"],
];
const PURE: &[&str] = &["//*", "//@*", "a[1]", "a[position() = last()]", "(//*)[2]", "reverse(//node())", "preceding::*", "following::node()", "ancestor-or-self::*[1]", "//a/..", "//a | //b", "//* except a", "//* intersect a", "a/(b, c, ..)", "a ! position()", "//*[last()]/position()", "count(//node())", "string(.)", "name()", "position()", "last()",
    "1 + 2", "1 div 0", "'x' + 1", "1 idiv 0", "nosuch()", "$x", "a[", "", "for $x in a return $x", "for $x in (1, 2) return (1 div ($x - 1))", "let $x := 1 return $x", "let $x := 1 return (1 div 0)", "let $x := a return $x[1]", "$y", "some $x in a satisfies $x = 'x'", "some $x in (1, 0) satisfies 1 div $x = 1", "every $x in a satisfies $y", "a[$x]", "a[1 div 0]", "a[position() = (1 div 0)]", "(1, 2) ! (1 div 0)", "a/(1 div 0)",
    "function($x) {$x}", "function($x) {$x}(1)", "function($x) {1 div 0}(1)", "function($x as xs:string) {$x}(1)", "let $f := function($x) {$x + 1} return $f(2)", "concat(?, 'z')('y')", "abs#1", "for-each((1, 2), function($v) {$v * 2})", "filter(a, function($v) {$v = 'x'})", "for-each((1, 0), function($x) {1 idiv $x})", "map{'a': 1}?a", "map{'a': a}", "[a, 1]", "[1, 2]?3", "[1](2)", "map{1: 2, 1: 3}", "?a", "(map{'a': 1}, 2)?a",
    "1 to 5", "(1, 'a', true(), 2.5, 1e0)", "a instance of element()", "'x' cast as xs:integer", "'1' castable as xs:integer", "if (a) then b else c", "sum((1, 2.5))", "max(a)", "string-join(//a, ',')", "substring('abc', 2)", "translate('abc', 'a', 'b')", "a = 'x'", "a << b", "a is a", "not(a)", "root()", "/", "..", "@k", ".", "data(//@k)", "normalize-space(.)", "subsequence(//*, 2)", "a[b]/c[d]", "zero-or-one(a)", "lang('en')"];
const PROBES: &[&str] = &["a", "string('x')", "concat('a', 'b', 'c')", "//a[2]", "//*[last()]", "(//node())[position() < 3]", "let $x := 1 return $x + 1", "for $x in (1, 2), $y in ($x, 3) return $x * $y", "$u", "$x", "some $x in (1, 2) satisfies $x = 2", "function($x, $y) {($x, $y)}(1, 2)", "for-each((1, 2), function($x) {$x + 1})", "filter(1 to 4, function($v) {$v > 2})", "concat(?, 'b')('a')", "map{'a': (1, 2)}?a", "[1, [2]]?2?1", "a/..//@k", "a | b", "reverse(//*)", "position()", "last()", "(1, 2) ! (position(), last())", "1 div 0", "'a' cast as xs:integer", "sum(1 to 10)", "if (a) then b else c", "1 to 3", "'x' => upper-case()", "ancestor-or-self::node()", "following::node()", "string-join(//a, ',')", "deep-nosuch()", "((((((((((1))))))))))", "abs(abs(abs(abs(abs(-1)))))", "a[b[c]]", "let $f := function($n) {if ($n < 1) then 0 else $n} return $f($f(3))"];
const PDOC: &[&str] = &[XML, "<?xml version=\"1.0\"?><r xml:lang=\"en\" k=\"9\"><a k=\"1\"><b/><c>t<d/></c></a><a>x</a><!--c--><b><a k=\"2\"/></b><?p i?></r>"];

fn snap(map: &[(usize, NodePtr)], s: &Result<amxml::xpath::Sequence, Box<dyn std::error::Error>>) -> String {
    match s {
        Err(e) => format!("error {}", e),
        Ok(s) => {
            let mut o = format!("{}:", s.len());
            for i in 0..s.len() {
                let it = s.get_item(i);
                match it.as_nodeptr() { Some(p) => o += &format!("#{:?};", id_of(map, &p)), None => o += &format!("{};", it.to_string()) }
            }
            o + &s.to_string()
        }
    }
}
impl C24 {
    /// e2 after e1 in the same process, each against the reference.
    fn alike(&mut self, f: &[&str]) -> Result<u64, String> {
        self.steps += 3;
        let big;
        let xml = match PDOC.get(f[1].parse::<usize>().unwrap()) {
            Some(x) => *x,
            None => { big = format!("!fan {}", f[1]); big.as_str() }
        };
        self.a.load(xml)?;
        let k = f[2].parse::<usize>().unwrap();
        let mut o = 7u64;
        for e in [f[3], f[4], f[3]] {
            if let Cmp::Same { obs, .. } = self.a.compare(k, e).map_err(|x| format!("{} then {}: {}", f[3], f[4], x))? { o = o.wrapping_mul(31) ^ obs; }
        }
        Ok(o)
    }
    /// The same expression on two documents in turn, one of them dropped and made again in between.
    fn across(&mut self, f: &[&str]) -> Result<u64, String> {
        let (k, e) = (f[1].parse::<usize>().unwrap(), f[2]);
        let mut o = 7u64;
        let parsed = rxp::parse(e);
        for round in 0..3 {
            self.steps += 2;
            if round == 1 { self.a = Cache::default(); self.b = Cache::default(); }
            self.a.load(PDOC[round % 2])?;
            let r = self.a.compare_parsed(k, e, &parsed).map_err(|x| format!("round {}: {}", round, x))?;
            if round == 2 { self.b = Cache::default(); }
            self.b.load(PDOC[1 - round % 2])?;
            let q = self.b.compare_parsed(k, e, &parsed).map_err(|x| format!("round {}, second document: {}", round, x))?;
            // back on the first one
            self.a.compare_parsed(k, e, &parsed).map_err(|x| format!("round {}, back on the first document: {}", round, x))?;
            for c in [r, q] { if let Cmp::Same { obs, .. } = c { o = o.wrapping_mul(31) ^ obs; } }
        }
        Ok(o)
    }
    /// e, then n other expressions, then e; every one against the reference.
    fn long(&mut self, f: &[&str]) -> Result<u64, String> {
        let (k, e, n) = (f[1].parse::<usize>().unwrap(), f[2], f[3].parse::<usize>().unwrap());
        self.a.load(PDOC[0])?;
        let mut o = 7u64;
        for i in 0..n + 2 {
            self.steps += 1;
            let between;
            let q = if i == 0 || i == n + 1 { e } else if f[4] == "same" { e } else if i % 3 == 0 { between = format!("//a[{}]", i / 7); &between } else if i % 3 == 1 { between = format!("'{}' || {}", "x".repeat(i % 11), i); &between } else { PURE[i % PURE.len()] };
            let c = self.a.compare(k, q).map_err(|x| format!("expression {} of {}, {} first: {}", i + 1, n + 2, e, x))?;
            if i == n + 1 { if let Cmp::Same { obs, .. } = c { o = o.wrapping_mul(31) ^ obs; } }
        }
        Ok(o)
    }
    /// e many times, then every probe against the reference.
    fn burden(&mut self, f: &[&str]) -> Result<u64, String> {
        let (k, e, n) = (f[1].parse::<usize>().unwrap(), f[2], f[3].parse::<usize>().unwrap());
        self.a.load(PDOC[0])?;
        let mut o = 7u64;
        let first = match self.a.eval_text(k, e) { Ok(t) => t, Err(t) => t };
        for i in 1..n {
            self.steps += 1;
            let t = match self.a.eval_text(k, e) { Ok(t) => t, Err(t) => t };
            if t != first { return Err(format!("{} at node {}: {} the first time, {} after {} times", e, k, first, t, i)); }
        }
        for q in PROBES { if let Cmp::Same { obs, .. } = self.a.compare(k, q).map_err(|x| format!("after {} times {}: {}", n, e, x))? { o = o.wrapping_mul(31) ^ obs; } }
        Ok(o)
    }
    fn go(&mut self, f: &[&str]) -> Result<u64, String> {
        let (di, k) = (f[0].parse::<usize>().unwrap(), f[1].parse::<usize>().unwrap());
        let (e1, e2) = (f[2], f[3]);
        let xml = PDOC[di];
        let load = || -> Result<(D, NodePtr, Vec<(usize, NodePtr)>), String> {
            let mut d = D { n: vec![] };
            mini(&mut d, xml);
            let doc = new_document(xml).map_err(|e| e.to_string())?;
            let mut m = vec![];
            bind(&d, 0, &doc, &mut m)?;
            Ok((d, doc, m))
        };
        let (d, doc, map) = load()?;
        let i = d.order(0)[k];
        let p = at(&map, i).rc_clone();
        let r1 = p.eval_xpath(e1);
        let s1 = snap(&map, &r1);
        // the other expression, from this node, from the document, and on another document
        self.steps += 3;
        let t1 = snap(&map, &p.eval_xpath(e2));
        let _ = p.get_nodeset(e2);
        let _ = doc.eval_xpath(e2);
        if snap(&map, &p.eval_xpath(e1)) != s1 { return Err(format!("{} at node {} of {}: {} before {} was evaluated, {} after", e1, k, xml, s1, e2, snap(&map, &p.eval_xpath(e1)))); }
        if snap(&map, &r1) != s1 { return Err(format!("{} at node {} of {}: the earlier result changed when {} was evaluated", e1, k, xml, e2)); }
        check_nav(&d, 0, &map, &mut self.steps).map_err(|e| format!("after {} and {} at node {} of {}: {}", e1, e2, k, xml, e))?;
        // a fresh document, in the other order: nothing depends on what went before
        let (_d2, _doc2, map2) = load()?;
        let p2 = at(&map2, i).rc_clone();
        let t2 = snap(&map2, &p2.eval_xpath(e2));
        let s2 = snap(&map2, &p2.eval_xpath(e1));
        if s1 != s2 { return Err(format!("{} at node {} of {}: {} on a fresh document, {} after {}", e1, k, xml, s1, s2, e2)); }
        if t1 != t2 { return Err(format!("{} at node {} of {}: {} on a fresh document, {} after {}", e2, k, xml, t2, t1, e1)); }
        // in one expression: a value does not depend on its neighbour
        if !s1.starts_with("error") && !t1.starts_with("error") {
            let both = snap(&map2, &p2.eval_xpath(&format!("(({}), ({}))", e1, e2)));
            let one = |s: &str| -> String { let b = s.find(':').unwrap(); s[..b].to_string() };
            let items = |m: &[(usize, NodePtr)], p: &NodePtr, e: &str| -> String { let r = p.eval_xpath(e).unwrap(); (0..r.len()).map(|i| { let it = r.get_item(i); match it.as_nodeptr() { Some(q) => format!("#{:?};", id_of(m, &q)), None => format!("{};", it.to_string()) } }).collect() };
            let n = one(&s1).parse::<usize>().unwrap() + one(&t1).parse::<usize>().unwrap();
            let want = format!("{}:{}{}", n, items(&map2, &p2, e1), items(&map2, &p2, e2));
            if !both.starts_with(&want) { return Err(format!("(({}), ({})) at node {} of {}: {} expected to begin with {}", e1, e2, k, xml, both, want)); }
        }
        // results outlive the document handle
        let hold = p2.eval_xpath(e1);
        let before = hold.as_ref().map(|s| s.to_string()).unwrap_or_default();
        drop((map2, _doc2, p2));
        if hold.as_ref().map(|s| s.to_string()).unwrap_or_default() != before { return Err(format!("{} of {}: the result's text changed when the document handle was dropped", e1, xml)); }
        Ok(hs(&s1))
    }
}
impl Prop for C24 {
    fn id(&self) -> &'static str { "C24" }
    fn rule(&self) -> &'static str {
        "every ordered pair of 84 expressions (failing ones included) at the chosen nodes of two documents: the first is evaluated before and after the second, on the same and on a fresh document, and both inside one expression; \
         results must not differ, the earlier result must not change and the whole tree must still agree with the model. Every ordered pair within 16 families of look-alike expressions (white space, case, quotes, comments, number forms), \
         every expression on two documents in turn with documents dropped and made again, and every expression before and after 0..=n others, each result compared with the reference evaluator. Non-trivial: every case."
    }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo {
        let mut g = GenInfo::default();
        let nodes: &[&str] = tier.pick(&["1", "3", "0", "6"][..], &["0", "1", "2", "3", "4", "5", "6", "7", "8"][..]);
        for d in ["0", "1"] { for k in nodes { for a in PURE.iter() { for b in PURE.iter() { if !sink(&["P", d, k, a, b]) { return g; } } } } }
        g.notes.push(format!("2 documents x {} nodes x all ordered pairs of {} expressions", nodes.len(), PURE.len()));
        let all = ["0", "1", "2", "3", "4", "5", "6", "7", "8"];
        for fam in ALIKE { for d in ["0", "1"] { for k in all { for a in fam.iter() { for b in fam.iter() { if !sink(&["V", d, k, a, b]) { return g; } } } } } }
        g.notes.push(format!("2 documents x 9 nodes x all ordered pairs within {} families of look-alikes ({} expressions)", ALIKE.len(), ALIKE.iter().map(|f| f.len()).sum::<usize>()));
        let near = crate::names::near_pairs(tier.pick(24, 40), tier.pick(300, 1025));
        for (x, y) in near.iter() { for tpl in ["'①'", "string-length('①')", "a[. != '①']", "①", "let $① := 1 return $①", "map{'①': 1}", "concat('①', '①')", "'-①-'"] {
            if tpl.contains('$') && y.ends_with('-') { continue; }
            if !sink(&["V", "0", "1", &tpl.replace('①', x), &tpl.replace('①', y)]) { return g; }
        } }
        g.notes.push(format!("8 expressions around each of {} pairs of words that differ in one place, in order, in case or in length", near.len()));
        // the same characters in another order
        let mut words: Vec<Vec<String>> = vec![];
        for (sep, parts) in [(" + ", ["1", "2", "3", "4"]), (" - ", ["1", "2", "3", "4"]), (", ", ["1", "2", "3", "4"]), (" | ", ["a[1]", "a[2]", "b", "@k"]), ("/", ["a", "..", "*", "b"]), (" * 2 - ", ["3", "5", "7", "9"]), (" || ", ["'a'", "'b'", "'c'", "'d'"]), (" = ", ["(1", "2)", "(3", "4)"]), ("][", ["a[1", "2", "3", "last()]"]), (" or ", ["a", "nosuch", "1 = 2", "@k"]), ("", ["'", "a", "b", "'"]), ("", ["a", "[", "1", "]"]), ("", ["1", "-", "2", ""]), ("", ["(", "1", ",2", ")"])] {
            let mut v = vec![];
            for i in 0..4 { for j in 0..4 { for k in 0..4 { for l in 0..4 {
                let s: std::collections::BTreeSet<usize> = [i, j, k, l].into_iter().collect();
                if s.len() == 4 || (sep != "" && s.len() == 1) { v.push([i, j, k, l].iter().map(|&x| parts[x]).collect::<Vec<_>>().join(sep)); }
            } } } }
            words.push(v);
        }
        for v in words.iter() { for a in v.iter() { for b in v.iter() { if !sink(&["V", "0", "1", a, b]) { return g; } } } }
        g.notes.push(format!("{} families of expressions with the same parts in every order, all ordered pairs", words.len()));
        // a document of many nodes: comparing, uniting and counting the same far nodes in turn
        let at: &[usize] = tier.pick(&[2, 256, 1300, 1301][..], &[1, 2, 255, 256, 257, 600, 601, 1023, 1024, 1300, 1301][..]);
        let mut far = vec!["count(a)".to_string(), "a[last()]/@k".to_string(), "count(//@k)".to_string()];
        for i in at { for j in at {
            for op in ["<<", ">>", "is"] { far.push(format!("a[{}] {} a[{}]", i, op, j)); }
            if i < j { far.push(format!("count(a[{}] | a[{}])", j, i)); far.push(format!("count(a[position() > {} and position() < {}])", i, j)); }
        } }
        for a in far.iter() { for b in far.iter() { if !sink(&["V", "1400", "1", a, b]) { return g; } } }
        g.notes.push(format!("all ordered pairs of {} expressions about far nodes of a document of 1400 elements", far.len()));
        for k in all { for e in PURE.iter().chain(ALIKE.iter().flat_map(|f| f.iter())) { if !sink(&["X", k, e]) { return g; } } }
        g.notes.push(format!("9 nodes x {} expressions on two documents in turn, 3 rounds", PURE.len() + ALIKE.iter().map(|f| f.len()).sum::<usize>()));
        let ns: &[&str] = tier.pick(&["1", "2", "7", "8", "15", "16", "17", "31", "32", "63", "64", "65", "99", "100", "127", "128", "255", "256", "257"][..], &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "15", "16", "17", "31", "32", "33", "63", "64", "65", "99", "100", "101", "127", "128", "129", "255", "256", "257", "511", "512", "513", "999", "1000", "1024", "2048", "4096"][..]);
        for e in PURE { for n in ns { for how in ["same", "other"] { if !sink(&["L", "1", e, n, how]) { return g; } } } }
        g.notes.push(format!("{} expressions before and after up to {} repetitions or others", PURE.len(), ns.last().unwrap()));
        let fails = ["$u", "1 div 0", "1 + 'x'", "abs('x')", "(a, 1)/b", "exactly-one(())", "'x' cast as xs:integer", "[1](9)", "function($q as xs:string) {$q}(1)", "(1, 'a')[1 div 0]"];
        let wraps = ["①", "string(①)", "concat('a', ①)", "concat(①, 'b', 'c')", "(1, ①)", "a[①]", "a[1][①]", "//*[①]", "if (①) then 1 else 2", "if (1) then ① else 2", "if (0) then 1 else ①", "for $x in ① return 1", "for $x in (1, 2) return ①", "for $x in 1, $y in ① return 2", "let $x := ① return 1", "let $x := 1 return ①", "some $x in ① satisfies 1", "some $x in (1, 2) satisfies ①", "every $x in (1, 2) satisfies ①", "1 + ①", "① + 1", "-①", "① = 1", "1 = ①", "① or 1", "0 or ①", "1 and ①", "① is a", "a << ①", "① | a", "a except ①", "① to 2", "1 || ①", "① ! 1", "(1, 2) ! ①", "a/①", "①/a", "map{'a': ①}", "map{①: 1}", "map{'a': 1}(①)", "map{'a': 1}?(①)", "[①]", "[1](①)", "array{①}", "function($x) {①}(1)", "function($x) {$x}(①)", "let $f := function($x) {①} return $f(1)", "let $f := abs#1 return $f(①)", "for-each((1, 2), function($x) {①})", "for-each(①, abs#1)", "filter((1, 2), function($x) {①})", "concat(?, ①)('a')", "concat(?, 'b')(①)", "① => string()", "1 => concat(①)", "① instance of xs:integer", "① cast as xs:string", "① castable as xs:string", "string-join(for-each(1 to 3, function($v) {①}), '')", "sum((1, ①))", "(①)[1]", "(1 to 3)[① = .]", "?(①)", "let $x := 1, $y := ① return $y"];
        let reps = tier.pick("700", "5000");
        for w in wraps.iter() { for e in fails.iter() { if !sink(&["B", "1", &w.replace('①', e), reps]) { return g; } } }
        for e in PURE { for k in ["1", "3"] { if !sink(&["B", k, e, reps]) { return g; } } }
        for e in ["string($u)", "a[1 div 0]", "for $x in (1, 0) return 1 div $x", "function($x) {1 div 0}(1)", "(1, 2) ! (1 div 0)", "a[", "let $f := function($x) {$x[1 div 0]} return $f(a)", "//*[@k]/position()", "reverse(//node())", "map{'a': 1}?a", "'x'"] { if !sink(&["B", "1", e, tier.pick("70000", "1000000")]) { return g; } }
        g.notes.push(format!("{} constructs with each of {} failures inside and {} other expressions, evaluated {} times (11 of them {}), then {} probes", wraps.len(), fails.len(), PURE.len(), reps, tier.pick("70,000", "1,000,000"), PROBES.len()));
        g
    }
    fn run(&mut self, f: &[&str]) -> Out {
        match match f[0] { "B" => self.burden(f), "P" => self.go(&f[1..]), "V" => self.alike(f), "X" => self.across(f), _ => self.long(f) } { Ok(o) => Out::Ok { obs: o, trivial: false }, Err(e) => Out::Bad(e) }
    }
    fn steps(&self) -> u64 { self.steps }
}
