// Evaluator: direct transcription of the XPath 3.1 rules over the reference tree.
use super::ast::*;
use super::fmt::raw;
use super::{funcs, types};
use crate::rdom::{D, K};
use std::cmp::Ordering;
use std::rc::Rc;

pub struct World<'a> { pub d: &'a D, pub ord: Vec<usize>, pub ranks: Vec<usize>, pub fuel: std::cell::Cell<u64> }

/// Context item, position, size; `None` item: not available.
#[derive(Clone, Debug)]
pub struct Focus { pub item: Option<It>, pub pos: i64, pub last: i64 }
/// The focus of a call of a built-in function item: known where it is the same at the place of
/// the call and where the function item was made.
fn same_focus(a: &Focus, b: &Focus) -> Focus {
    let same = a.pos == b.pos && a.last == b.last && match (&a.item, &b.item) {
        (Some(It::N(x)), Some(It::N(y))) => x == y,
        (Some(It::I(x)), Some(It::I(y))) => x == y,
        (Some(It::S(x)), Some(It::S(y))) => x == y,
        (Some(It::B(x)), Some(It::B(y))) => x == y,
        _ => false,
    };
    if same { a.clone() } else { Focus { item: None, pos: -1, last: -1 } }
}

thread_local! {
    /// What position() and last() give outside any step, predicate or map: the
    /// library's choice (XPath would give 1), read from it before it is compared.
    pub static TOP: std::cell::Cell<(i64, i64)> = std::cell::Cell::new((0, 0));
}
/// Evaluates with node ctx as the context item.
pub fn eval_at(d: &D, ctx: usize, e: &Rc<E>) -> R<Seq> {
    let ord = d.order(d.root(ctx));
    let mut ranks = vec![usize::MAX; d.n.len()];
    for (k, &n) in ord.iter().enumerate() { ranks[n] = k; }
    let w = World { d, ord, ranks, fuel: std::cell::Cell::new(3_000_000) };
    let (pos, last) = TOP.with(|t| t.get());
    w.eval(e, &Focus { item: Some(It::N(ctx)), pos, last }, &None)
}

fn lookup_var(mut env: &Env, n: &str) -> R<Seq> {
    while let Some(e) = env { if e.name == n { return Ok(e.value.clone()); } env = &e.next; }
    err("undefined variable")
}
fn bind(n: &str, v: Seq, env: &Env) -> Env { Some(Rc::new(Bound { name: n.to_string(), value: v, next: env.clone() })) }

impl<'a> World<'a> {
    pub fn rank(&self, n: usize) -> usize { self.ranks[n] }
    pub fn doc_order(&self, v: &mut Vec<usize>) { v.sort_by_key(|&n| self.rank(n)); v.dedup(); }

    pub fn atomize(&self, s: &[It]) -> R<Seq> {
        let mut v = vec![];
        for x in s {
            v.push(match x {
                It::N(n) => It::S(self.d.string_value(*n)),
                It::A(_) => return unspec("atomizing an array"),
                It::M(_) | It::Fn(_) => return err("a function cannot be atomized"),
                x => x.clone(),
            });
        }
        Ok(v)
    }
    /// Atomization where an array stands for the items of its members.
    pub fn atomize_all(&self, s: &[It]) -> R<Seq> {
        let mut v = vec![];
        super::funcs::flatten(s, &mut v);
        if v.iter().any(|x| matches!(x, It::M(_) | It::Fn(_))) { return unspec("data of a function"); }
        self.atomize(&v)
    }
    pub fn ebv(&self, s: &[It]) -> R<bool> {
        if s.is_empty() { return Ok(false); }
        if let It::N(_) = s[0] { return Ok(true); }
        if s.len() > 1 { return err("no effective boolean value"); }
        Ok(match &s[0] {
            It::B(b) => *b,
            It::S(x) => !x.is_empty(),
            It::I(i) => *i != 0,
            It::D(f) | It::F(f) => !(*f == 0.0 || f.is_nan()),
            _ => return err("no effective boolean value"),
        })
    }

    // ------------------------------------------------------------ axes
    pub fn axis(&self, ax: Axis, n: usize) -> Vec<usize> {
        let d = self.d;
        let is_attr = d.n[n].k == K::Attr;
        let sub = |x: usize| d.order(x).into_iter().filter(|&y| d.n[y].k != K::Attr || y == x).collect::<Vec<_>>();
        let anc = || { let mut v = vec![]; let mut c = n; while let Some(p) = d.n[c].parent { v.push(p); c = p; } v };
        let tree = || self.ord.iter().copied().filter(|&y| d.n[y].k != K::Attr).collect::<Vec<_>>();
        match ax {
            Axis::SelfAx => vec![n],
            Axis::Child => d.n[n].ch.clone(),
            Axis::Attr => d.n[n].at.clone(),
            Axis::Parent => d.n[n].parent.into_iter().collect(),
            Axis::Anc => anc(),
            Axis::AncSelf => { let mut v = vec![n]; v.extend(anc()); v }
            Axis::Desc => sub(n).into_iter().filter(|&x| x != n).collect(),
            Axis::DescSelf => sub(n),
            Axis::Foll if is_attr => vec![],
            Axis::Prec if is_attr => vec![],
            Axis::FollSib if is_attr => vec![],
            Axis::PrecSib if is_attr => vec![],
            Axis::Foll => { let r = self.rank(n); tree().into_iter().filter(|&x| self.rank(x) > r && !d.is_ancestor_or_self(n, x)).collect() }
            Axis::Prec => { let r = self.rank(n); tree().into_iter().rev().filter(|&x| self.rank(x) < r && !d.is_ancestor_or_self(x, n)).collect() }
            Axis::FollSib => match d.n[n].parent { None => vec![], Some(p) => { let c = &d.n[p].ch; let i = c.iter().position(|&x| x == n).unwrap(); c[i + 1..].to_vec() } },
            Axis::PrecSib => match d.n[n].parent { None => vec![], Some(p) => { let c = &d.n[p].ch; let i = c.iter().position(|&x| x == n).unwrap(); c[..i].iter().rev().copied().collect() } },
        }
    }
    pub fn test(&self, n: usize, t: &Test, attr_axis: bool) -> R<bool> {
        let d = self.d;
        let x = &d.n[n];
        let name = |s: &str| s == "*" || s == x.name
            || (s.ends_with(":*") && x.name.contains(':') && d.prefix(n) == &s[..s.len() - 2])
            || (s.starts_with("*:") && d.local(n) == &s[2..]);
        Ok(match t {
            Test::Node => true,
            Test::Text => x.k == K::Text,
            Test::Comment => x.k == K::Comment,
            Test::Pi(None) => x.k == K::Pi,
            Test::Pi(Some(s)) => x.k == K::Pi && x.name == *s,
            Test::Name(s) => x.k == if attr_axis { K::Attr } else { K::El } && name(s),
            Test::El(nm, ty) => {
                if x.k != K::El { return Ok(false); }
                if let Some(nm) = nm { if *nm != x.name { return Ok(false); } }
                if let Some(ty) = ty {
                    let base = ty.trim_end_matches('?');
                    if !types::known_type(base) { return unspec("unknown type name"); }
                    if !types::derives("xs:untyped", base) { return Ok(false); }
                    if !ty.ends_with('?') && d.attr_value(n, "xsi:nil") == Some("true") { return Ok(false); }
                }
                true
            }
            Test::At(nm, ty) => {
                if x.k != K::Attr { return Ok(false); }
                if let Some(nm) = nm { if *nm != x.name { return Ok(false); } }
                if let Some(ty) = ty {
                    if !types::known_type(ty) { return unspec("unknown type name"); }
                    if !types::derives("xs:untypedAtomic", ty) { return Ok(false); }
                }
                true
            }
        })
    }
    /// Keeps the items for which the predicate holds, in the order given.
    fn filter(&self, items: Seq, p: &Rc<E>, env: &Env) -> R<Seq> {
        let last = items.len() as i64;
        let mut out = vec![];
        for (i, x) in items.into_iter().enumerate() {
            let pos = i as i64 + 1;
            let v = self.eval(p, &Focus { item: Some(x.clone()), pos, last }, env)?;
            let keep = match (v.len(), v.get(0)) {
                (1, Some(It::I(k))) => *k == pos,
                (1, Some(It::D(f))) | (1, Some(It::F(f))) => *f == pos as f64,
                _ => self.ebv(&v)?,
            };
            if keep { out.push(x); }
        }
        Ok(out)
    }

    // ------------------------------------------------------------ operators
    fn num_pair(&self, a: &It, b: &It) -> Option<(f64, f64, char)> {
        let f = |x: &It| match x { It::I(i) => Some((*i as f64, 'i')), It::D(v) => Some((*v, 'd')), It::F(v) => Some((*v, 'f')), _ => None };
        let (x, y) = (f(a)?, f(b)?);
        Some((x.0, y.0, if x.1 == 'f' || y.1 == 'f' { 'f' } else if x.1 == 'd' || y.1 == 'd' { 'd' } else { 'i' }))
    }
    /// None: not comparable.  Some(None): unordered (NaN).
    pub fn cmp(&self, a: &It, b: &It) -> Option<Option<Ordering>> {
        match (a, b) {
            (It::S(x), It::S(y)) => Some(Some(x.chars().cmp(y.chars()))),
            (It::B(x), It::B(y)) => Some(Some(x.cmp(y))),
            (It::I(x), It::I(y)) => Some(Some(x.cmp(y))),
            _ => self.num_pair(a, b).map(|(x, y, _)| x.partial_cmp(&y)),
        }
    }
    fn holds(op: Op, o: Option<Ordering>) -> bool {
        use std::cmp::Ordering::*;
        match op {
            Op::GEq | Op::VEq => o == Some(Equal),
            Op::GNe | Op::VNe => o != Some(Equal),
            Op::GLt | Op::VLt => o == Some(Less),
            Op::GLe | Op::VLe => o == Some(Less) || o == Some(Equal),
            Op::GGt | Op::VGt => o == Some(Greater),
            _ => o == Some(Greater) || o == Some(Equal),
        }
    }
    pub fn numeric(&self, x: &It) -> R<It> {
        match x {
            It::N(n) => types::cast(self, &It::S(self.d.string_value(*n)), "xs:double"),
            It::I(_) | It::D(_) | It::F(_) => Ok(x.clone()),
            It::A(_) => unspec("arithmetic on an array"),
            _ => err("not numeric"),
        }
    }
    pub fn arith(&self, op: Op, a: &It, b: &It) -> R<It> {
        let (x, y, k) = match self.num_pair(a, b) { Some(t) => t, None => return err("not numeric") };
        let ov = |v: Option<i64>| match v { Some(i) => Ok(It::I(i)), None => err("integer overflow") };
        let wrap = |f: f64| if k == 'f' { Ok(It::F(f)) } else if f.is_finite() { Ok(It::D(f + 0.0)) } else { unspec("decimal overflow") };
        let exact_zero = y == 0.0 && !matches!((a, b), (It::F(_), _) | (_, It::F(_)));
        match (op, a, b) {
            (Op::Add, It::I(p), It::I(q)) => ov(p.checked_add(*q)),
            (Op::Sub, It::I(p), It::I(q)) => ov(p.checked_sub(*q)),
            (Op::Mul, It::I(p), It::I(q)) => ov(p.checked_mul(*q)),
            (Op::Add, ..) => wrap(x + y),
            (Op::Sub, ..) => wrap(x - y),
            (Op::Mul, ..) => wrap(x * y),
            (Op::Div, ..) => if exact_zero { err("division by zero") } else if k == 'f' { Ok(It::F(x / y)) } else { wrap_dec(x / y) },
            (Op::IDiv, ..) => {
                if x.is_nan() || x.is_infinite() || y.is_nan() { return err("idiv"); }
                if y == 0.0 { return err("division by zero"); }
                if let (It::I(p), It::I(q)) = (a, b) { return ov(p.checked_div(*q)); }
                let t = (x / y).trunc();
                if t >= -9223372036854775808.0 && t < 9223372036854775808.0 { Ok(It::I(t as i64)) } else { err("integer overflow") }
            }
            (Op::Mod, It::I(p), It::I(q)) => if *q == 0 { err("division by zero") } else { Ok(It::I(p.wrapping_rem(*q))) },
            (Op::Mod, ..) => if exact_zero { err("division by zero") } else { wrap(x % y) },
            _ => unreachable!(),
        }
    }
    fn nodes(&self, s: &[It]) -> R<Vec<usize>> {
        s.iter().map(|x| match x { It::N(n) => Ok(*n), _ => err("a node is required") }).collect()
    }
    fn binary(&self, op: Op, a: Seq, b: Seq) -> R<Seq> {
        match op {
            Op::GEq | Op::GNe | Op::GLt | Op::GLe | Op::GGt | Op::GGe => {
                let (a, b) = (self.atomize_all(&a)?, self.atomize_all(&b)?);
                for x in &a { for y in &b {
                    if let Some(o) = self.cmp(x, y) { if Self::holds(op, o) { return Ok(vec![It::B(true)]); } }
                } }
                Ok(vec![It::B(false)])
            }
            Op::VEq | Op::VNe | Op::VLt | Op::VLe | Op::VGt | Op::VGe => {
                let arr = |s: &Seq| s.iter().any(|x| matches!(x, It::A(_)));
                if !arr(&a) && !arr(&b) && a.len() <= 1 && b.len() <= 1 && !a.is_empty() && !b.is_empty() && a.iter().chain(b.iter()).any(|x| matches!(x, It::M(_) | It::Fn(_))) { return err("a function cannot be compared"); }
                let (a, b) = (self.atomize_all(&a)?, self.atomize_all(&b)?);
                if a.is_empty() != b.is_empty() && (a.len() > 1 || b.len() > 1) { return unspec("empty against many"); }
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                if a.len() > 1 || b.len() > 1 { return err("singleton required"); }
                match self.cmp(&a[0], &b[0]) { Some(o) => Ok(vec![It::B(Self::holds(op, o))]), None => err("not comparable") }
            }
            Op::Is | Op::Before | Op::After => {
                if a.is_empty() != b.is_empty() {
                    let o = if a.is_empty() { &b } else { &a };
                    if o.len() > 1 || !matches!(o[0], It::N(_)) { return unspec("empty against something else"); }
                }
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                if a.len() > 1 || b.len() > 1 { return err("singleton required"); }
                let (x, y) = (self.nodes(&a)?[0], self.nodes(&b)?[0]);
                Ok(vec![It::B(match op { Op::Is => x == y, Op::Before => self.rank(x) < self.rank(y), _ => self.rank(x) > self.rank(y) })])
            }
            Op::Concat => Ok(vec![It::S(format!("{}{}", self.concat_arg(&a)?, self.concat_arg(&b)?))]),
            Op::To => {
                if a.is_empty() != b.is_empty() && (a.len() > 1 || b.len() > 1) { return unspec("empty against many"); }
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                let (x, y) = (self.int_arg(&a)?, self.int_arg(&b)?);
                if x > y { return Ok(vec![]); }
                if (y as i128) - (x as i128) > 70_000 { return unspec("huge range"); }
                Ok((x..=y).map(It::I).collect())
            }
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::IDiv | Op::Mod => {
                if a.is_empty() != b.is_empty() && (a.len() > 1 || b.len() > 1) { return unspec("empty against many"); }
                if a.is_empty() != b.is_empty() {
                    let o = if a.is_empty() { &b } else { &a };
                    if self.numeric(&o[0]).is_err() { return unspec("empty against a non-number"); }
                }
                if a.is_empty() || b.is_empty() { return Ok(vec![]); }
                if a.len() > 1 || b.len() > 1 { return err("singleton required"); }
                let (x, y) = (self.numeric(&a[0])?, self.numeric(&b[0])?);
                Ok(vec![self.arith(op, &x, &y)?])
            }
            Op::Union | Op::Intersect | Op::Except => {
                let (x, y) = (self.nodes(&a)?, self.nodes(&b)?);
                let mut v: Vec<usize> = match op {
                    Op::Union => { let mut v = x; v.extend(y); v }
                    Op::Intersect => x.into_iter().filter(|n| y.contains(n)).collect(),
                    _ => x.into_iter().filter(|n| !y.contains(n)).collect(),
                };
                self.doc_order(&mut v);
                Ok(v.into_iter().map(It::N).collect())
            }
        }
    }
    pub fn concat_arg(&self, s: &[It]) -> R<String> {
        match s.len() { 0 => Ok(String::new()), 1 => raw(self.d, &s[0]), _ => err("singleton required") }
    }
    pub fn int_arg(&self, s: &[It]) -> R<i64> {
        if s.len() != 1 { return err("singleton required"); }
        match &s[0] {
            It::I(i) => Ok(*i),
            It::N(_) => match types::cast(self, &s[0], "xs:integer")? { It::I(i) => Ok(i), _ => unreachable!() },
            It::A(_) => unspec("array as integer"),
            _ => err("integer required"),
        }
    }

    // ------------------------------------------------------------ maps and arrays
    /// op:same-key: a number, a string and a boolean never are the same key.
    pub fn same_key(&self, a: &It, b: &It) -> R<bool> {
        if let (It::I(i), It::D(f)) | (It::I(i), It::F(f)) | (It::D(f), It::I(i)) | (It::F(f), It::I(i)) = (a, b) { return Ok(*f == f.trunc() && f.is_finite() && *f as i128 == *i as i128); }
        if let (It::I(i), It::I(j)) = (a, b) { return Ok(i == j); }
        if let Some((x, y, _)) = self.num_pair(a, b) { return Ok(x == y || (x.is_nan() && y.is_nan())); }
        match (a, b) {
            (It::S(x), It::S(y)) => Ok(x == y),
            (It::B(x), It::B(y)) => Ok(x == y),
            _ => Ok(false),
        }
    }
    pub fn key_arg(&self, s: &[It]) -> R<It> {
        if s.iter().any(|x| matches!(x, It::M(_) | It::Fn(_))) { return unspec("a function as a key"); }
        let v = self.atomize(s)?;
        if v.len() != 1 { return err("a key is one atomic value"); }
        Ok(v.into_iter().next().unwrap())
    }
    pub fn map_get(&self, m: &[(It, Seq)], k: &It) -> R<Option<Seq>> {
        for (kk, v) in m { if self.same_key(kk, k)? { return Ok(Some(v.clone())); } }
        Ok(None)
    }
    fn lookup(&self, x: &It, keys: &Option<Seq>, out: &mut Seq) -> R<()> {
        match x {
            It::M(m) => match keys {
                None => for (_, v) in m.iter() { out.extend(v.clone()); },
                Some(ks) => for k in ks { if let Some(v) = self.map_get(m, k)? { out.extend(v); } },
            },
            It::A(a) => match keys {
                None => for v in a.iter() { out.extend(v.clone()); },
                Some(ks) => for k in ks {
                    match k {
                        It::I(i) if *i >= 1 && (*i as usize) <= a.len() => out.extend(a[*i as usize - 1].clone()),
                        It::I(_) => return err("array lookup out of bounds"),
                        _ => return unspec("array lookup by another type"),
                    }
                },
            },
            _ => return err("lookup in something that is neither map nor array"),
        }
        Ok(())
    }
    fn keys(&self, k: &Key, f: &Focus, env: &Env) -> R<Option<Seq>> {
        Ok(match k {
            Key::Star => None,
            Key::Name(s) => Some(vec![It::S(s.clone())]),
            Key::Int(s) => match s.parse() { Ok(i) => Some(vec![It::I(i)]), Err(_) => return unspec("huge key") },
            Key::Paren(e) => {
                let v = self.eval(e, f, env)?;
                if v.iter().any(|x| matches!(x, It::M(_) | It::Fn(_))) { return unspec("a function as a key"); }
                Some(self.atomize(&v)?)
            }
        })
    }

    // ------------------------------------------------------------ functions
    pub fn apply(&self, fun: &It, args: Vec<Seq>, at: &Focus) -> R<Seq> {
        match fun {
            It::M(m) => {
                if args.len() != 1 { return err("arity"); }
                let k = self.key_arg(&args[0])?;
                Ok(self.map_get(m, &k)?.unwrap_or_default())
            }
            It::A(a) => {
                if args.len() != 1 { return err("arity"); }
                if args[0].iter().any(|x| matches!(x, It::M(_) | It::Fn(_))) { return unspec("a function as an index"); }
                let v = self.atomize(&args[0])?;
                if v.len() != 1 { return err("index"); }
                match v[0] {
                    It::I(i) if i >= 1 && (i as usize) <= a.len() => Ok(a[i as usize - 1].clone()),
                    It::I(_) => err("index out of range"),
                    _ => unspec("array index of another type"),
                }
            }
            It::Fn(f) => match &**f {
                Fun::Inline { params, ret, body, env } => {
                    if params.len() != args.len() { return err("arity"); }
                    let mut env = env.clone();
                    for ((n, t), a) in params.iter().zip(args) {
                        if !types::instance(self, &a, t)? {
                            if a.iter().any(|x| matches!(x, It::N(_) | It::A(_))) || a.iter().any(|x| matches!(x, It::I(_) | It::D(_))) && matches!(t, SeqT::Of(ItemT::Atomic(n), _) if n == "xs:double") { return unspec("argument conversion"); }
                            return err("argument type");
                        }
                        env = bind(n, a, &env);
                    }
                    let r = match body { None => vec![], Some(b) => self.eval(b, &Focus { item: None, pos: -1, last: -1 }, &env)? };
                    if !types::instance(self, &r, ret)? { return unspec("declared result type"); }
                    Ok(r)
                }
                Fun::Named(n, k, made) => {
                    if args.len() != *k { return err("arity"); }
                    if !funcs::known(n, *k) { return err("no such function"); }
                    self.call_fun(n, args, &same_focus(made, at))
                }
                Fun::Partial(n, given, made) => {
                    if given.iter().filter(|x| x.is_none()).count() != args.len() { return err("arity"); }
                    let mut it = args.into_iter();
                    let full = given.iter().map(|g| match g { Some(s) => s.clone(), None => it.next().unwrap() }).collect();
                    self.call_fun(n, full, &same_focus(made, at))
                }
            },
            _ => err("not a function"),
        }
    }
    fn call_fun(&self, n: &str, args: Vec<Seq>, f: &Focus) -> R<Seq> { funcs::call(self, n, args, f) }

    pub fn ctx(&self, f: &Focus) -> R<It> { match &f.item { Some(x) => Ok(x.clone()), None => unspec("focus inside a function body") } }

    // ------------------------------------------------------------ expressions
    pub fn eval(&self, e: &Rc<E>, f: &Focus, env: &Env) -> R<Seq> {
        let fuel = self.fuel.get();
        if fuel == 0 { return unspec("too long"); }
        self.fuel.set(fuel - 1);
        match &**e {
            E::Int(s) => match s.parse() { Ok(i) => Ok(vec![It::I(i)]), Err(_) => err("integer literal") },
            E::Dec(s) => { let v: f64 = s.parse().unwrap(); Ok(vec![It::D(v)]) }
            E::Dbl(s) => { let v: f64 = s.parse().unwrap(); Ok(vec![It::F(v)]) }
            E::Str(s) => Ok(vec![It::S(s.clone())]),
            E::Var(n) => lookup_var(env, n),
            E::Ctx => Ok(vec![self.ctx(f)?]),
            E::Seq(v) => { let mut o = vec![]; for x in v { o.extend(self.eval(x, f, env)?); } Ok(o) }
            E::Root => match self.ctx(f)? { It::N(n) => Ok(vec![It::N(self.d.root(n))]), _ => unspec("root of an atomic context item") },
            E::Path(a, b) => {
                let l = self.eval(a, f, env)?;
                let l = self.nodes(&l)?;
                let last = l.len() as i64;
                let (mut out, mut nn, mut na) = (vec![], 0, 0);
                for (i, n) in l.into_iter().enumerate() {
                    let v = self.eval(b, &Focus { item: Some(It::N(n)), pos: i as i64 + 1, last }, env)?;
                    for x in v { if let It::N(_) = x { nn += 1 } else { na += 1 } out.push(x); }
                }
                if nn > 0 && na > 0 { return err("nodes and atomic values mixed"); }
                if na > 0 { return Ok(out); }
                let mut v = self.nodes(&out)?;
                self.doc_order(&mut v);
                Ok(v.into_iter().map(It::N).collect())
            }
            E::Step(ax, t, preds) => {
                let n = match self.ctx(f)? { It::N(n) => n, _ => return unspec("axis step from an atomic value") };
                let mut v: Seq = vec![];
                for x in self.axis(*ax, n) { if self.test(x, t, *ax == Axis::Attr)? { v.push(It::N(x)); } }
                for p in preds { v = self.filter(v, p, env)?; }
                let mut v = self.nodes(&v)?;
                self.doc_order(&mut v);
                Ok(v.into_iter().map(It::N).collect())
            }
            E::Filter(a, p) => { let v = self.eval(a, f, env)?; self.filter(v, p, env) }
            E::CallDyn(c, args) => {
                if args.iter().any(|a| a.is_none()) { return unspec("partial application of a function item"); }
                let c = self.eval(c, f, env)?;
                let args: Vec<Seq> = args.iter().map(|a| self.eval(a.as_ref().unwrap(), f, env)).collect::<R<_>>()?;
                if c.len() != 1 { return err("not one function"); }
                self.apply(&c[0], args, f)
            }
            E::Lookup(a, k) => {
                let v = self.eval(a, f, env)?;
                let ks = match self.keys(k, f, env) {
                    Err(RErr::Err(_)) if v.is_empty() => return unspec("lookup on an empty sequence with a failing key"),
                    r => r?,
                };
                let mut o = vec![];
                for x in &v { self.lookup(x, &ks, &mut o)?; }
                Ok(o)
            }
            E::ULookup(k) => {
                let x = self.ctx(f)?;
                let ks = self.keys(k, f, env)?;
                let mut o = vec![];
                self.lookup(&x, &ks, &mut o)?;
                Ok(o)
            }
            E::Bin(op, a, b) => { let x = self.eval(a, f, env)?; let y = self.eval(b, f, env)?; self.binary(*op, x, y) }
            E::Or(a, b) => { let x = self.eval(a, f, env)?; if self.ebv(&x)? { return Ok(vec![It::B(true)]); } let y = self.eval(b, f, env)?; Ok(vec![It::B(self.ebv(&y)?)]) }
            E::And(a, b) => { let x = self.eval(a, f, env)?; if !self.ebv(&x)? { return Ok(vec![It::B(false)]); } let y = self.eval(b, f, env)?; Ok(vec![It::B(self.ebv(&y)?)]) }
            E::Neg(a) | E::Plus(a) => {
                let v = self.eval(a, f, env)?;
                if v.is_empty() { return Ok(vec![]); }
                if v.len() > 1 { return err("singleton required"); }
                let x = self.numeric(&v[0])?;
                Ok(vec![match (&**e, x) {
                    (E::Plus(_), x) => x,
                    (_, It::I(i)) => match i.checked_neg() { Some(i) => It::I(i), None => return err("integer overflow") },
                    (_, It::D(v)) => It::D(0.0 - v),
                    (_, It::F(v)) => It::F(-v),
                    _ => unreachable!(),
                }])
            }
            E::Map(a, b) => {
                let l = self.eval(a, f, env)?;
                let last = l.len() as i64;
                let mut o = vec![];
                for (i, x) in l.into_iter().enumerate() { o.extend(self.eval(b, &Focus { item: Some(x), pos: i as i64 + 1, last }, env)?); }
                Ok(o)
            }
            E::If(c, a, b) => { let v = self.eval(c, f, env)?; if self.ebv(&v)? { self.eval(a, f, env) } else { self.eval(b, f, env) } }
            E::For(n, x, b) => { let l = self.eval(x, f, env)?; let mut o = vec![]; for i in l { o.extend(self.eval(b, f, &bind(n, vec![i], env))?); } Ok(o) }
            E::Let(n, x, b) => { let l = self.eval(x, f, env)?; self.eval(b, f, &bind(n, l, env)) }
            E::Some(n, x, b) => { for i in self.eval(x, f, env)? { let v = self.eval(b, f, &bind(n, vec![i], env))?; if self.ebv(&v)? { return Ok(vec![It::B(true)]); } } Ok(vec![It::B(false)]) }
            E::Every(n, x, b) => { for i in self.eval(x, f, env)? { let v = self.eval(b, f, &bind(n, vec![i], env))?; if !self.ebv(&v)? { return Ok(vec![It::B(false)]); } } Ok(vec![It::B(true)]) }
            E::Treat(a, t) => { let v = self.eval(a, f, env)?; if types::instance(self, &v, t)? { Ok(v) } else { err("treat as another type") } }
            E::Inst(a, t) => { let v = self.eval(a, f, env)?; Ok(vec![It::B(types::instance(self, &v, t)?)]) }
            E::Cast(a, t, q) => {
                let v = self.eval(a, f, env)?;
                let v = self.atomize(&v)?;
                if v.is_empty() { return if *q { Ok(vec![]) } else { err("empty") }; }
                if v.len() > 1 { return err("singleton required"); }
                Ok(vec![types::cast(self, &v[0], t)?])
            }
            E::Castable(a, t, q) => {
                let v = self.eval(a, f, env)?;
                if v.iter().any(|x| matches!(x, It::A(_) | It::M(_) | It::Fn(_))) { return unspec("castable of a function"); }
                let v = self.atomize(&v)?;
                Ok(vec![It::B(if v.is_empty() { *q } else if v.len() > 1 { false } else {
                    match types::cast(self, &v[0], t) { Ok(_) => true, Err(RErr::Err(_)) => false, Err(u) => return Err(u) }
                })])
            }
            E::Call(n, args) => {
                if args.iter().any(|a| a.is_none()) {
                    let mut g = vec![];
                    for a in args { g.push(match a { Some(a) => Some(self.eval(a, f, env)?), None => None }); }
                    return Ok(vec![It::Fn(Rc::new(Fun::Partial(n.clone(), g, f.clone())))]);
                }
                let args: Vec<Seq> = args.iter().map(|a| self.eval(a.as_ref().unwrap(), f, env)).collect::<R<_>>()?;
                self.call_fun(n, args, f)
            }
            E::Ref(n, k) => if funcs::known(n, *k) { Ok(vec![It::Fn(Rc::new(Fun::Named(n.clone(), *k, f.clone())))]) } else { unspec("reference to an unknown function") },
            E::Inline(ps, r, b) => Ok(vec![It::Fn(Rc::new(Fun::Inline { params: ps.clone(), ret: r.clone(), body: b.clone(), env: env.clone() }))]),
            E::MapC(v) => {
                let mut m: Vec<(It, Seq)> = vec![];
                for (k, x) in v {
                    let k = self.eval(k, f, env)?;
                    let k = self.key_arg(&k)?;
                    let x = self.eval(x, f, env)?;
                    for (kk, _) in &m { if self.same_key(kk, &k)? { return err("duplicate key"); } }
                    m.push((k, x));
                }
                Ok(vec![It::M(Rc::new(m))])
            }
            E::ArrS(v) => { let mut a = vec![]; for x in v { a.push(self.eval(x, f, env)?); } Ok(vec![It::A(Rc::new(a))]) }
            E::ArrC(b) => { let v = match b { None => vec![], Some(b) => self.eval(b, f, env)? }; Ok(vec![It::A(Rc::new(v.into_iter().map(|x| vec![x]).collect()))]) }
        }
    }
}
fn wrap_dec(f: f64) -> R<It> { if f.is_finite() { Ok(It::D(f + 0.0)) } else { unspec("decimal overflow") } }
