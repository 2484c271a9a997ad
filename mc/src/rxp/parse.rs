// XPath 3.1 grammar, by recursive descent over characters.  Whether a word is
// an operator or a name follows from where the grammar allows which.
use super::ast::*;
use std::rc::Rc;

pub struct P { s: Vec<char>, p: usize, depth: usize }

use crate::names::{char5 as name_char, start5 as name_start};

const AXES: [(&str, Axis); 12] = [("ancestor", Axis::Anc), ("ancestor-or-self", Axis::AncSelf), ("attribute", Axis::Attr), ("child", Axis::Child),
    ("descendant", Axis::Desc), ("descendant-or-self", Axis::DescSelf), ("following", Axis::Foll), ("following-sibling", Axis::FollSib),
    ("parent", Axis::Parent), ("preceding", Axis::Prec), ("preceding-sibling", Axis::PrecSib), ("self", Axis::SelfAx)];
const KINDS: [&str; 10] = ["document-node", "element", "attribute", "schema-element", "schema-attribute", "processing-instruction", "comment", "text", "namespace-node", "node"];

pub fn parse(s: &str) -> R<Rc<E>> {
    if s.contains('\0') { return err("U+0000 is no character"); }
    let mut p = P { s: s.chars().collect(), p: 0, depth: 0 };
    let e = p.expr()?;
    p.ws()?;
    if p.p != p.s.len() { return err("trailing input"); }
    Ok(e)
}

impl P {
    fn c(&self, k: usize) -> char { self.s.get(self.p + k).copied().unwrap_or('\0') }
    fn ws(&mut self) -> R<()> {
        loop {
            while !matches!(self.c(0), '\0') && super::types::xspace(self.c(0)) { self.p += 1; }
            if self.c(0) == '(' && self.c(1) == ':' {
                let mut d = 0;
                loop {
                    if self.p >= self.s.len() { return err("open comment"); }
                    if self.c(0) == '(' && self.c(1) == ':' { d += 1; self.p += 2; }
                    else if self.c(0) == ':' && self.c(1) == ')' { d -= 1; self.p += 2; if d == 0 { break; } }
                    else { self.p += 1; }
                }
            } else { return Ok(()); }
        }
    }
    fn at(&mut self, t: &str) -> R<bool> {
        self.ws()?;
        Ok(t.chars().enumerate().all(|(i, c)| self.c(i) == c))
    }
    fn eat(&mut self, t: &str) -> R<bool> {
        let b = self.at(t)?;
        if b { self.p += t.chars().count(); }
        Ok(b)
    }
    fn need(&mut self, t: &str) -> R<()> { if self.eat(t)? { Ok(()) } else { err(&format!("expected {}", t)) } }
    fn at_kw(&mut self, t: &str) -> R<bool> { Ok(self.at(t)? && !name_char(self.c(t.chars().count()))) }
    fn kw(&mut self, t: &str) -> R<bool> {
        let b = self.at_kw(t)?;
        if b { self.p += t.chars().count(); }
        Ok(b)
    }
    fn kw_need(&mut self, t: &str) -> R<()> { if self.kw(t)? { Ok(()) } else { err(&format!("expected {}", t)) } }
    /// keyword a followed by text b
    fn kw_then(&mut self, a: &str, b: &str) -> R<bool> {
        let save = self.p;
        let r = self.kw(a)? && self.at(b)?;
        self.p = save;
        Ok(r)
    }
    fn ncname(&mut self) -> Option<String> {
        if !name_start(self.c(0)) { return None; }
        let b = self.p;
        while self.p < self.s.len() && name_char(self.c(0)) { self.p += 1; }
        Some(self.s[b..self.p].iter().collect())
    }
    fn qname(&mut self) -> R<String> {
        self.ws()?;
        match self.ncname() {
            None => err("name expected"),
            Some(a) => {
                if self.c(0) == ':' && name_start(self.c(1)) {
                    self.p += 1;
                    let b = self.ncname().unwrap();
                    Ok(format!("{}:{}", a, b))
                } else { Ok(a) }
            }
        }
    }
    fn var(&mut self) -> R<String> { self.need("$")?; self.qname() }

    pub fn expr(&mut self) -> R<Rc<E>> {
        let mut v = vec![self.single()?];
        while self.eat(",")? { v.push(self.single()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Rc::new(E::Seq(v)) })
    }
    fn single(&mut self) -> R<Rc<E>> {
        self.depth += 1;
        if self.depth > 200 { return unspec("deep nesting"); }
        let r = self.single_();
        self.depth -= 1;
        r
    }
    fn single_(&mut self) -> R<Rc<E>> {
        for (k, which) in [("for", 0), ("let", 1), ("some", 2), ("every", 3)] {
            if self.kw_then(k, "$")? {
                self.kw(k)?;
                let mut b = vec![];
                loop {
                    let v = self.var()?;
                    if which == 1 { self.need(":=")?; } else { self.kw_need("in")?; }
                    let e = self.single()?;
                    b.push((v, e));
                    if !self.eat(",")? { break; }
                }
                self.kw_need(if which < 2 { "return" } else { "satisfies" })?;
                let mut e = self.single()?;
                for (v, x) in b.into_iter().rev() {
                    e = Rc::new(match which { 0 => E::For(v, x, e), 1 => E::Let(v, x, e), 2 => E::Some(v, x, e), _ => E::Every(v, x, e) });
                }
                return Ok(e);
            }
        }
        if self.kw_then("if", "(")? {
            self.kw("if")?;
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            self.kw_need("then")?;
            let a = self.single()?;
            self.kw_need("else")?;
            let b = self.single()?;
            return Ok(Rc::new(E::If(c, a, b)));
        }
        self.or()
    }
    fn or(&mut self) -> R<Rc<E>> {
        let mut a = self.and()?;
        while self.kw("or")? { let b = self.and()?; a = Rc::new(E::Or(a, b)); }
        Ok(a)
    }
    fn and(&mut self) -> R<Rc<E>> {
        let mut a = self.comparison()?;
        while self.kw("and")? { let b = self.comparison()?; a = Rc::new(E::And(a, b)); }
        Ok(a)
    }
    fn comparison(&mut self) -> R<Rc<E>> {
        let a = self.concat()?;
        let mut op = None;
        for (t, o) in [("<<", Op::Before), (">>", Op::After), ("<=", Op::GLe), (">=", Op::GGe), ("!=", Op::GNe), ("=", Op::GEq), ("<", Op::GLt), (">", Op::GGt)] {
            if t == "=" && self.at("=>")? { continue; }
            if self.eat(t)? { op = Some(o); break; }
        }
        if op.is_none() {
            for (t, o) in [("eq", Op::VEq), ("ne", Op::VNe), ("lt", Op::VLt), ("le", Op::VLe), ("gt", Op::VGt), ("ge", Op::VGe), ("is", Op::Is)] {
                if self.kw(t)? { op = Some(o); break; }
            }
        }
        match op {
            None => Ok(a),
            Some(o) => { let b = self.concat()?; Ok(Rc::new(E::Bin(o, a, b))) }
        }
    }
    fn concat(&mut self) -> R<Rc<E>> {
        let mut a = self.range()?;
        while self.eat("||")? { let b = self.range()?; a = Rc::new(E::Bin(Op::Concat, a, b)); }
        Ok(a)
    }
    fn range(&mut self) -> R<Rc<E>> {
        let a = self.additive()?;
        if self.kw("to")? { let b = self.additive()?; return Ok(Rc::new(E::Bin(Op::To, a, b))); }
        Ok(a)
    }
    fn additive(&mut self) -> R<Rc<E>> {
        let mut a = self.multiplicative()?;
        loop {
            let o = if self.eat("+")? { Op::Add } else if self.eat("-")? { Op::Sub } else { return Ok(a) };
            let b = self.multiplicative()?;
            a = Rc::new(E::Bin(o, a, b));
        }
    }
    fn multiplicative(&mut self) -> R<Rc<E>> {
        let mut a = self.union()?;
        loop {
            let o = if self.eat("*")? { Op::Mul } else if self.kw("div")? { Op::Div } else if self.kw("idiv")? { Op::IDiv } else if self.kw("mod")? { Op::Mod } else { return Ok(a) };
            let b = self.union()?;
            a = Rc::new(E::Bin(o, a, b));
        }
    }
    fn union(&mut self) -> R<Rc<E>> {
        let mut a = self.intersect()?;
        loop {
            if self.at("||")? { return Ok(a); }
            if !(self.eat("|")? || self.kw("union")?) { return Ok(a); }
            let b = self.intersect()?;
            a = Rc::new(E::Bin(Op::Union, a, b));
        }
    }
    fn intersect(&mut self) -> R<Rc<E>> {
        let mut a = self.instance()?;
        loop {
            let o = if self.kw("intersect")? { Op::Intersect } else if self.kw("except")? { Op::Except } else { return Ok(a) };
            let b = self.instance()?;
            a = Rc::new(E::Bin(o, a, b));
        }
    }
    fn two(&mut self, a: &str, b: &str) -> R<bool> {
        let save = self.p;
        if self.kw(a)? && self.kw(b)? { return Ok(true); }
        self.p = save;
        Ok(false)
    }
    fn instance(&mut self) -> R<Rc<E>> {
        let mut a = self.castable()?;
        if self.two("treat", "as")? { let t = self.seq_type()?; a = Rc::new(E::Treat(a, t)); }
        if self.two("instance", "of")? { let t = self.seq_type()?; return Ok(Rc::new(E::Inst(a, t))); }
        Ok(a)
    }
    fn castable(&mut self) -> R<Rc<E>> {
        let a = self.cast()?;
        if self.two("castable", "as")? { let (n, q) = self.single_type()?; return Ok(Rc::new(E::Castable(a, n, q))); }
        Ok(a)
    }
    fn cast(&mut self) -> R<Rc<E>> {
        let a = self.arrow()?;
        if self.two("cast", "as")? { let (n, q) = self.single_type()?; return Ok(Rc::new(E::Cast(a, n, q))); }
        Ok(a)
    }
    fn single_type(&mut self) -> R<(String, bool)> {
        let n = self.qname()?;
        if OPERATOR_WORDS.contains(&n.as_str()) { return unspec("a type named like an operator"); }
        let q = self.eat("?")?;
        Ok((n, q))
    }
    fn arrow(&mut self) -> R<Rc<E>> {
        let mut a = self.unary()?;
        while self.eat("=>")? {
            self.ws()?;
            if self.at("$")? {
                let v = self.var()?;
                let mut args = self.args()?;
                args.insert(0, Some(a));
                a = Rc::new(E::CallDyn(Rc::new(E::Var(v)), args));
            } else if self.at("(")? {
                return unspec("=> (expr)()");
            } else {
                let n = self.qname()?;
                let mut args = self.args()?;
                args.insert(0, Some(a));
                a = self.call(&n, args)?;
            }
        }
        Ok(a)
    }
    fn unary(&mut self) -> R<Rc<E>> {
        self.depth += 1;
        if self.depth > 400 { return unspec("deep nesting"); }
        let r = if self.eat("-")? { let a = self.unary()?; Rc::new(E::Neg(a)) }
            else if self.eat("+")? { let a = self.unary()?; Rc::new(E::Plus(a)) }
            else { self.simple_map()? };
        self.depth -= 1;
        Ok(r)
    }
    fn simple_map(&mut self) -> R<Rc<E>> {
        let mut a = self.path()?;
        loop {
            if self.at("!=")? || !self.eat("!")? { return Ok(a); }
            let b = self.path()?;
            a = Rc::new(E::Map(a, b));
        }
    }
    fn starts_step(&mut self) -> R<bool> {
        self.ws()?;
        let c = self.c(0);
        Ok(name_start(c) || c.is_ascii_digit() || "\"'$(.@*[?".contains(c) && c != '\0')
    }
    fn ds() -> Rc<E> { Rc::new(E::Step(Axis::DescSelf, Test::Node, vec![])) }
    fn path(&mut self) -> R<Rc<E>> {
        if self.eat("//")? {
            let start = Rc::new(E::Path(Rc::new(E::Root), Self::ds()));
            return self.rel(Some(start));
        }
        if self.eat("/")? {
            if !self.starts_step()? { return Ok(Rc::new(E::Root)); }
            // the grammar takes these words for a step; the library is lenient
            let here = self.p;
            for (a, b) in [("instance", "of"), ("cast", "as"), ("castable", "as"), ("treat", "as")] { if self.two(a, b)? { self.p = here; return unspec("type operator after a lone slash"); } }
            return self.rel(Some(Rc::new(E::Root)));
        }
        self.rel(None)
    }
    fn rel(&mut self, left: Option<Rc<E>>) -> R<Rc<E>> {
        let s = self.step()?;
        let mut a = match left { Some(l) => Rc::new(E::Path(l, s)), None => s };
        loop {
            if self.eat("//")? {
                a = Rc::new(E::Path(a, Self::ds()));
                let s = self.step()?;
                a = Rc::new(E::Path(a, s));
            } else if self.eat("/")? {
                let s = self.step()?;
                a = Rc::new(E::Path(a, s));
            } else { return Ok(a); }
        }
    }
    fn predicates(&mut self) -> R<Vec<Rc<E>>> {
        let mut v = vec![];
        while self.eat("[")? { v.push(self.expr()?); self.need("]")?; }
        Ok(v)
    }
    fn step(&mut self) -> R<Rc<E>> {
        self.ws()?;
        if let Some(p) = self.primary()? { return self.postfix(p); }
        if self.eat("..")? { let v = self.predicates()?; return Ok(Rc::new(E::Step(Axis::Parent, Test::Node, v))); }
        if self.eat("@")? { let t = self.node_test()?; let v = self.predicates()?; return Ok(Rc::new(E::Step(Axis::Attr, t, v))); }
        let save = self.p;
        if let Some(n) = self.ncname() {
            if self.at("::")? {
                if n == "namespace" { return unspec("namespace axis"); }
                let ax = match AXES.iter().find(|x| x.0 == n) { Some(x) => x.1, None => return err("no such axis") };
                self.need("::")?;
                let t = self.node_test()?;
                let v = self.predicates()?;
                return Ok(Rc::new(E::Step(ax, t, v)));
            }
            self.p = save;
        }
        let t = self.node_test()?;
        // element tests and names on the child axis; attribute(..) abbreviates the attribute axis
        let ax = if let Test::At(..) = t { Axis::Attr } else { Axis::Child };
        let v = self.predicates()?;
        if ax == Axis::Attr { return unspec("attribute() without an axis"); }
        Ok(Rc::new(E::Step(ax, t, v)))
    }
    fn node_test(&mut self) -> R<Test> {
        self.ws()?;
        if self.c(0) == '*' {
            self.p += 1;
            if self.c(0) == ':' && name_start(self.c(1)) { self.p += 1; let n = self.ncname().unwrap(); return Ok(Test::Name(format!("*:{}", n))); }
            return Ok(Test::Name("*".into()));
        }
        if !name_start(self.c(0)) { return err("node test expected"); }
        let save = self.p;
        let a = self.ncname().unwrap();
        if self.c(0) == ':' && self.c(1) == '*' { self.p += 2; return Ok(Test::Name(format!("{}:*", a))); }
        if KINDS.contains(&a.as_str()) && self.at("(")? { self.p = save; return self.kind(); }
        self.p = save;
        Ok(Test::Name(self.qname()?))
    }
    fn kind(&mut self) -> R<Test> {
        let k = self.ncname().unwrap();
        self.need("(")?;
        let t = match k.as_str() {
            "node" => Test::Node,
            "text" => Test::Text,
            "comment" => Test::Comment,
            "processing-instruction" => {
                self.ws()?;
                if self.c(0) == '"' || self.c(0) == '\'' { 
                    // the name is what normalize-space leaves; what is no NCName is a type error
                    let n = crate::rxp::types::xtrim(&self.string()?).to_string();
                    if n.is_empty() { return err("an empty target name"); }
                    if !n.chars().enumerate().all(|(i, c)| c != ':' && if i == 0 { name_start(c) } else { crate::names::char5(c) }) { return unspec("a target that is no name"); }
                    Test::Pi(Some(n))
                }
                else if name_start(self.c(0)) { Test::Pi(self.ncname()) }
                else { Test::Pi(None) }
            }
            "element" | "attribute" => {
                let (mut n, mut t) = (None, None);
                if !self.at(")")? {
                    if !self.eat("*")? { n = Some(self.qname()?); }
                    if self.eat(",")? {
                        let mut x = self.qname()?;
                        if k == "element" && self.eat("?")? { x.push('?'); }
                        t = Some(x);
                    }
                }
                if k == "element" { Test::El(n, t) } else { Test::At(n, t) }
            }
            _ => return unspec("unimplemented kind test"),
        };
        self.need(")")?;
        Ok(t)
    }
    fn string(&mut self) -> R<String> {
        let q = self.c(0);
        self.p += 1;
        let mut s = String::new();
        loop {
            if self.p >= self.s.len() { return err("open string"); }
            let c = self.c(0);
            self.p += 1;
            if c == q { if self.c(0) == q { self.p += 1; s.push(q); } else { return Ok(s); } } else { s.push(c); }
        }
    }
    fn number(&mut self) -> R<E> {
        let b = self.p;
        let mut dec = false;
        let mut dbl = false;
        while self.c(0).is_ascii_digit() { self.p += 1; }
        if self.c(0) == '.' { dec = true; self.p += 1; while self.c(0).is_ascii_digit() { self.p += 1; } }
        if self.c(0) == 'e' || self.c(0) == 'E' {
            dbl = true;
            self.p += 1;
            if self.c(0) == '+' || self.c(0) == '-' { self.p += 1; }
            if !self.c(0).is_ascii_digit() { return err("exponent"); }
            while self.c(0).is_ascii_digit() { self.p += 1; }
        }
        let t: String = self.s[b..self.p].iter().collect();
        if name_start(self.c(0)) { return unspec("number directly followed by a name"); }
        if self.c(0) == '.' { return err("number runs into a number"); }
        Ok(if dbl { E::Dbl(t) } else if dec { E::Dec(t) } else { E::Int(t) })
    }
    fn args(&mut self) -> R<Vec<Option<Rc<E>>>> {
        self.need("(")?;
        let mut v = vec![];
        if self.eat(")")? { return Ok(v); }
        loop {
            // a placeholder, unless it begins a unary lookup
            self.ws()?;
            let save = self.p;
            if self.eat("?")? {
                if self.at(",")? || self.at(")")? { v.push(None); }
                else { self.p = save; v.push(Some(self.single()?)); }
            } else { v.push(Some(self.single()?)); }
            if self.eat(")")? { return Ok(v); }
            self.need(",")?;
        }
    }
    fn call(&mut self, n: &str, args: Vec<Option<Rc<E>>>) -> R<Rc<E>> {
        let full = if n.contains(':') { n.to_string() } else { format!("fn:{}", n) };
        if !super::funcs::known(&full, args.len()) { return err("no such function"); }
        Ok(Rc::new(E::Call(full, args)))
    }
    fn key(&mut self) -> R<Option<Key>> {
        self.ws()?;
        let c = self.c(0);
        if c == '*' { self.p += 1; return Ok(Some(Key::Star)); }
        if name_start(c) { return Ok(self.ncname().map(Key::Name)); }
        if c.is_ascii_digit() {
            let b = self.p;
            while self.c(0).is_ascii_digit() { self.p += 1; }
            return Ok(Some(Key::Int(self.s[b..self.p].iter().collect())));
        }
        if c == '(' {
            self.p += 1;
            if self.eat(")")? { return Ok(Some(Key::Paren(Rc::new(E::Seq(vec![]))))); }
            let e = self.expr()?;
            self.need(")")?;
            return Ok(Some(Key::Paren(e)));
        }
        Ok(None)
    }
    fn postfix(&mut self, p: Rc<E>) -> R<Rc<E>> {
        let mut a = p;
        loop {
            if self.eat("[")? { let e = self.expr()?; self.need("]")?; a = Rc::new(E::Filter(a, e)); }
            else if self.at("(")? {
                let v = self.args()?;
                if v.iter().any(|x| x.is_none()) { return unspec("partial dynamic call"); }
                a = Rc::new(E::CallDyn(a, v));
            }
            else if self.eat("?")? {
                match self.key()? { Some(k) => a = Rc::new(E::Lookup(a, k)), None => return err("key expected") }
            }
            else { return Ok(a); }
        }
    }
    fn primary(&mut self) -> R<Option<Rc<E>>> {
        self.ws()?;
        let c = self.c(0);
        if c.is_ascii_digit() || (c == '.' && self.c(1).is_ascii_digit()) { return Ok(Some(Rc::new(self.number()?))); }
        if c == '"' || c == '\'' { return Ok(Some(Rc::new(E::Str(self.string()?)))); }
        if c == '$' { return Ok(Some(Rc::new(E::Var(self.var()?)))); }
        if c == '(' {
            self.p += 1;
            if self.eat(")")? { return Ok(Some(Rc::new(E::Seq(vec![])))); }
            let e = self.expr()?;
            self.need(")")?;
            // keep the boundary: (a, b) inside a list is one expression
            return Ok(Some(e));
        }
        if c == '.' && self.c(1) != '.' { self.p += 1; return Ok(Some(Rc::new(E::Ctx))); }
        if c == '[' {
            self.p += 1;
            let mut v = vec![];
            if self.eat("]")? { return Ok(Some(Rc::new(E::ArrS(v)))); }
            loop {
                v.push(self.single()?);
                if self.eat("]")? { return Ok(Some(Rc::new(E::ArrS(v)))); }
                self.need(",")?;
            }
        }
        if c == '?' {
            self.p += 1;
            return match self.key()? { Some(k) => Ok(Some(Rc::new(E::ULookup(k)))), None => err("key expected") };
        }
        if !name_start(c) { return Ok(None); }
        if self.kw_then("map", "{")? {
            self.kw("map")?;
            self.need("{")?;
            let mut v = vec![];
            if self.eat("}")? { return Ok(Some(Rc::new(E::MapC(v)))); }
            loop {
                let k = self.single()?;
                self.need(":")?;
                let x = self.single()?;
                v.push((k, x));
                if self.eat("}")? { return Ok(Some(Rc::new(E::MapC(v)))); }
                self.need(",")?;
            }
        }
        if self.kw_then("array", "{")? {
            self.kw("array")?;
            self.need("{")?;
            if self.eat("}")? { return Ok(Some(Rc::new(E::ArrC(None)))); }
            let e = self.expr()?;
            self.need("}")?;
            return Ok(Some(Rc::new(E::ArrC(Some(e)))));
        }
        if self.kw_then("function", "(")? {
            self.kw("function")?;
            self.need("(")?;
            let mut ps = vec![];
            if !self.eat(")")? {
                loop {
                    let n = self.var()?;
                    let t = if self.kw("as")? { self.seq_type()? } else { any() };
                    ps.push((n, t));
                    if self.eat(")")? { break; }
                    self.need(",")?;
                }
            }
            let ret = if self.kw("as")? { self.seq_type()? } else { any() };
            self.need("{")?;
            if self.eat("}")? { return Ok(Some(Rc::new(E::Inline(ps, ret, None)))); }
            let b = self.expr()?;
            self.need("}")?;
            return Ok(Some(Rc::new(E::Inline(ps, ret, Some(b)))));
        }
        let save = self.p;
        let n = self.qname()?;
        if self.at("(")? && !KINDS.contains(&n.as_str()) {
            if ["if", "item", "empty-sequence", "switch", "typeswitch", "function"].contains(&n.as_str()) { return err("reserved function name"); }
            let v = self.args()?;
            return Ok(Some(self.call(&n, v)?));
        }
        if self.eat("#")? {
            self.ws()?;
            let b = self.p;
            while self.c(0).is_ascii_digit() { self.p += 1; }
            let a: String = self.s[b..self.p].iter().collect();
            let a: usize = match a.parse() { Ok(a) => a, Err(_) => return err("arity") };
            let full = if n.contains(':') { n } else { format!("fn:{}", n) };
            if !super::funcs::known(&full, a) { return Err(RErr::Err("unknown function".into())); }
            return Ok(Some(Rc::new(E::Ref(full, a))));
        }
        self.p = save;
        Ok(None)
    }
    pub fn seq_type(&mut self) -> R<SeqT> {
        if self.kw_then("empty-sequence", "(")? { self.kw("empty-sequence")?; self.need("(")?; self.need(")")?; return Ok(SeqT::Empty); }
        let t = self.item_type()?;
        let o = if self.eat("?")? { '?' } else if self.eat("*")? { '*' } else if self.eat("+")? { '+' } else { ' ' };
        Ok(SeqT::Of(t, o))
    }
    fn item_type(&mut self) -> R<ItemT> {
        self.ws()?;
        if self.eat("(")? { let t = self.item_type()?; self.need(")")?; return Ok(t); }
        if self.kw_then("item", "(")? { self.kw("item")?; self.need("(")?; self.need(")")?; return Ok(ItemT::Item); }
        if self.kw_then("function", "(")? {
            self.kw("function")?;
            self.need("(")?;
            if self.eat("*")? { self.need(")")?; return Ok(ItemT::AnyFn); }
            let mut v = vec![];
            if !self.eat(")")? {
                loop { v.push(self.seq_type()?); if self.eat(")")? { break; } self.need(",")?; }
            }
            self.kw_need("as")?;
            let r = self.seq_type()?;
            return Ok(ItemT::Fn(v, Box::new(r)));
        }
        if self.kw_then("map", "(")? {
            self.kw("map")?;
            self.need("(")?;
            if self.eat("*")? { self.need(")")?; return Ok(ItemT::Map("xs:anyAtomicType".into(), Box::new(any()))); }
            let k = self.qname()?;
            self.need(",")?;
            let v = self.seq_type()?;
            self.need(")")?;
            return Ok(ItemT::Map(k, Box::new(v)));
        }
        if self.kw_then("array", "(")? {
            self.kw("array")?;
            self.need("(")?;
            if self.eat("*")? { self.need(")")?; return Ok(ItemT::Array(Box::new(any()))); }
            let v = self.seq_type()?;
            self.need(")")?;
            return Ok(ItemT::Array(Box::new(v)));
        }
        for k in KINDS { if self.kw_then(k, "(")? { self.ws()?; return Ok(ItemT::Kind(self.kind()?)); } }
        let n = self.qname()?;
        if OPERATOR_WORDS.contains(&n.as_str()) { return unspec("a type named like an operator"); }
        Ok(ItemT::Atomic(n))
    }
}
/// No type of the library has such a name; whether the name is refused as an unknown type or as a
/// misplaced operator is nowhere stated.
const OPERATOR_WORDS: [&str; 16] = ["and", "or", "div", "mod", "idiv", "eq", "ne", "lt", "le", "gt", "ge", "is", "to", "union", "intersect", "except"];
pub fn parse_type(s: &str) -> SeqT {
    let mut p = P { s: s.chars().collect(), p: 0, depth: 0 };
    p.seq_type().unwrap()
}
