// Functions and operators, from their definitions.
use super::ast::*;
use super::eval::{Focus, World};
use super::fmt::raw;
use super::types;
use crate::rdom::K;
use std::cmp::Ordering;

const NAMES: [(&str, &[usize]); 61] = [
    ("fn:nilled", &[0, 1]), ("fn:string", &[0, 1]), ("fn:data", &[0, 1]), ("fn:abs", &[1]), ("fn:ceiling", &[1]), ("fn:floor", &[1]), ("fn:round", &[1]),
    ("fn:number", &[0, 1]), ("fn:codepoints-to-string", &[1]), ("fn:string-to-codepoints", &[1]), ("fn:compare", &[2]), ("fn:codepoint-equal", &[2]),
    ("fn:concat", &[]), ("fn:string-join", &[1, 2]), ("fn:substring", &[2, 3]), ("fn:string-length", &[0, 1]), ("fn:normalize-space", &[0, 1]),
    ("fn:upper-case", &[1]), ("fn:lower-case", &[1]), ("fn:translate", &[3]), ("fn:contains", &[2]), ("fn:starts-with", &[2]), ("fn:ends-with", &[2]),
    ("fn:substring-before", &[2]), ("fn:substring-after", &[2]), ("fn:true", &[0]), ("fn:false", &[0]), ("fn:boolean", &[1]), ("fn:not", &[1]),
    ("fn:name", &[0, 1]), ("fn:local-name", &[0, 1]), ("fn:namespace-uri", &[0, 1]), ("fn:lang", &[1, 2]), ("fn:root", &[0, 1]),
    ("fn:empty", &[1]), ("fn:exists", &[1]), ("fn:head", &[1]), ("fn:tail", &[1]), ("fn:insert-before", &[3]), ("fn:remove", &[2]), ("fn:reverse", &[1]),
    ("fn:subsequence", &[2, 3]), ("fn:index-of", &[2]), ("fn:zero-or-one", &[1]), ("fn:one-or-more", &[1]), ("fn:exactly-one", &[1]),
    ("fn:count", &[1]), ("fn:avg", &[1]), ("fn:max", &[1]), ("fn:min", &[1]), ("fn:sum", &[1, 2]), ("fn:position", &[0]), ("fn:last", &[0]),
    ("fn:for-each", &[2]), ("fn:filter", &[2]), ("map:size", &[1]), ("map:keys", &[1]), ("map:contains", &[2]), ("map:get", &[2]),
    ("array:size", &[1]), ("array:get", &[2]),
];
pub fn known(n: &str, k: usize) -> bool {
    (n == "array:flatten" && k == 1) || NAMES.iter().any(|x| x.0 == n && (x.1.contains(&k) || n == "fn:concat"))
}

fn s(x: &str) -> R<Seq> { Ok(vec![It::S(x.to_string())]) }
fn b(x: bool) -> R<Seq> { Ok(vec![It::B(x)]) }
fn i(x: usize) -> R<Seq> { Ok(vec![It::I(x as i64)]) }

/// xs:string?
fn str_opt(w: &World, a: &[It]) -> R<Option<String>> {
    match a.len() {
        0 => Ok(None),
        1 => match &a[0] {
            It::N(n) => Ok(Some(w.d.string_value(*n))),
            It::S(x) => Ok(Some(x.clone())),
            It::A(_) => unspec("array as string"),
            _ => err("string required"),
        },
        _ => err("singleton required"),
    }
}
fn str_req(w: &World, a: &[It]) -> R<String> { match str_opt(w, a)? { Some(x) => Ok(x), None => err("string required") } }
fn str0(w: &World, a: &[It]) -> R<String> { Ok(str_opt(w, a)?.unwrap_or_default()) }
fn node_opt(a: &[It]) -> R<Option<usize>> {
    match a.len() { 0 => Ok(None), 1 => match a[0] { It::N(n) => Ok(Some(n)), _ => err("node required") }, _ => err("singleton required") }
}
fn pos_arg(a: &[It]) -> R<f64> {
    if a.len() != 1 { return err("singleton required"); }
    match &a[0] { It::I(x) => Ok(*x as f64), It::D(x) | It::F(x) => Ok(*x), It::M(_) | It::Fn(_) => err("number required"), _ => unspec("position argument of another type") }
}
fn half_up(x: f64) -> f64 { let f = x.floor(); if x - f >= 0.5 { f + 1.0 } else { f } }
/// Positions p (1-based) with round(start) <= p < round(start) + round(len).
fn window(n: usize, start: f64, len: Option<f64>) -> Vec<usize> {
    // an infinite or NaN starting point selects nothing here
    if !start.is_finite() { return vec![]; }
    let st = half_up(start);
    (1..=n).filter(|&p| {
        let p = p as f64;
        p >= st && match len { None => true, Some(l) => if l.is_nan() { false } else if l == f64::INFINITY { true } else if l == f64::NEG_INFINITY { false } else { p < st + half_up(l) } }
    }).collect()
}
fn function_arg(a: &[It]) -> R<It> {
    if a.len() != 1 { return err("singleton required"); }
    match &a[0] { It::M(_) | It::A(_) | It::Fn(_) => Ok(a[0].clone()), _ => err("function required") }
}
pub fn flatten(x: &[It], out: &mut Seq) { for y in x { if let It::A(a) = y { for m in a.iter() { flatten(m, out); } } else { out.push(y.clone()); } } }

pub fn call(w: &World, n: &str, mut a: Vec<Seq>, f: &Focus) -> R<Seq> {
    let fun = n;
    let ctxfun = ["fn:nilled", "fn:string", "fn:data", "fn:number", "fn:string-length", "fn:normalize-space", "fn:name", "fn:local-name", "fn:namespace-uri", "fn:root"];
    if a.is_empty() && ctxfun.contains(&fun) { a.push(vec![w.ctx(f)?]); }
    if fun == "fn:lang" && a.len() == 1 { a.push(vec![w.ctx(f)?]); }
    Ok(match fun {
        "fn:nilled" => match node_opt(&a[0])? {
            Some(n) if w.d.n[n].k == K::El => vec![It::B(w.d.attr_value(n, "xsi:nil") == Some("true"))],
            _ => vec![],
        },
        "fn:string" => return if a[0].is_empty() { s("") } else if a[0].len() > 1 { err("singleton required") } else { s(&raw(w.d, &a[0][0])?) },
        "fn:data" => w.atomize_all(&a[0])?,
        "fn:abs" | "fn:ceiling" | "fn:floor" | "fn:round" => {
            if a[0].is_empty() { return Ok(vec![]); }
            if a[0].len() > 1 { return err("singleton required"); }
            let g = |x: f64, dbl: bool| -> f64 {
                let r = match fun { "fn:abs" => x.abs(), "fn:ceiling" => x.ceil(), "fn:floor" => x.floor(), _ => if x.is_finite() { half_up(x) } else { x } };
                // a zero keeps the sign of its argument for doubles only
                if r == 0.0 { if dbl && fun != "fn:abs" && x.is_sign_negative() { -0.0 } else { 0.0 } } else { r }
            };
            vec![match w.numeric(&a[0][0])? {
                It::I(x) => if fun == "fn:abs" { match x.checked_abs() { Some(y) => It::I(y), None => return err("overflow") } } else { It::I(x) },
                It::D(x) => { let r = g(x, false); It::D(r) }
                It::F(x) => It::F(g(x, true)),
                _ => unreachable!(),
            }]
        }
        "fn:number" => {
            if a[0].is_empty() { return Ok(vec![It::F(f64::NAN)]); }
            if a[0].len() > 1 { return err("singleton required"); }
            match &a[0][0] { It::A(_) => return unspec("number of an array"), It::M(_) | It::Fn(_) => return err("not atomic"), _ => {} }
            let v = w.atomize(&a[0])?;
            match types::cast(w, &v[0], "xs:double") {
                Ok(x) => vec![x],
                Err(RErr::Err(_)) => {
                    vec![It::F(f64::NAN)]
                }
                Err(e) => return Err(e),
            }
        }
        "fn:codepoints-to-string" => {
            let mut o = String::new();
            for x in &a[0] {
                match x {
                    It::I(c) => match u32::try_from(*c).ok().filter(|&c| c != 0).and_then(char::from_u32) { Some(c) => o.push(c), None => return err("code point") },
                    It::M(_) | It::Fn(_) => return err("integer required"),
                    _ => return unspec("code points of another type"),
                }
            }
            return s(&o);
        }
        "fn:string-to-codepoints" => str0(w, &a[0])?.chars().map(|c| It::I(c as i64)).collect(),
        "fn:compare" | "fn:codepoint-equal" => {
            if a[0].is_empty() != a[1].is_empty() { let o = if a[0].is_empty() { &a[1] } else { &a[0] }; if str_req(w, o).is_err() { return unspec("empty against a non-string"); } }
            if a[0].is_empty() || a[1].is_empty() { return Ok(vec![]); }
            let (x, y) = (str_req(w, &a[0])?, str_req(w, &a[1])?);
            let o = x.chars().cmp(y.chars());
            if fun == "fn:compare" { vec![It::I(match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 })] } else { vec![It::B(o == Ordering::Equal)] }
        }
        "fn:concat" => { let mut o = String::new(); for x in &a { o += &w.concat_arg(x)?; } return s(&o); }
        "fn:string-join" => {
            let sep = if a.len() > 1 { str_req(w, &a[1])? } else { String::new() };
            let mut v = vec![];
            for x in &a[0] { v.push(raw(w.d, x)?); }
            return s(&v.join(&sep));
        }
        "fn:substring" => {
            let t = match str_opt(w, &a[0])? { Some(t) => t, None => { for x in &a[1..] { if pos_arg(x).is_err() { return unspec("arguments of an empty substring"); } } return s("") } };
            let st = pos_arg(&a[1])?;
            let l = if a.len() > 2 { Some(pos_arg(&a[2])?) } else { None };
            let c: Vec<char> = t.chars().collect();
            return s(&window(c.len(), st, l).into_iter().map(|p| c[p - 1]).collect::<String>());
        }
        "fn:string-length" => return i(str0(w, &a[0])?.chars().count()),
        "fn:normalize-space" => {
            let t = str0(w, &a[0])?;
            let v: Vec<&str> = t.split(types::xspace).collect();
            // the suite fixes that interior runs of white space vanish
            return s(&v.concat());
        }
        "fn:upper-case" => return s(&str0(w, &a[0])?.to_uppercase()),
        "fn:lower-case" => return s(&str0(w, &a[0])?.to_lowercase()),
        "fn:translate" => {
            let t = match str_opt(w, &a[0])? { Some(t) => t, None => { if str_req(w, &a[1]).is_err() || str_req(w, &a[2]).is_err() { return unspec("arguments of an empty translate"); } return s("") } };
            let (x, y) = (str_req(w, &a[1])?, str_req(w, &a[2])?);
            let (x, y): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
            let mut o = String::new();
            for c in t.chars() { match x.iter().position(|&d| d == c) { None => o.push(c), Some(k) => if k < y.len() { o.push(y[k]) } } }
            return s(&o);
        }
        "fn:contains" | "fn:starts-with" | "fn:ends-with" | "fn:substring-before" | "fn:substring-after" => {
            let (x, y) = (str0(w, &a[0])?, str0(w, &a[1])?);
            let (x, y): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
            let hit = if y.len() > x.len() { None } else { (0..=x.len() - y.len()).find(|&k| x[k..k + y.len()] == y[..]) };
            let st = |v: &[char]| v.iter().collect::<String>();
            return match fun {
                "fn:contains" => b(hit.is_some()),
                "fn:starts-with" => b(hit == Some(0)),
                "fn:ends-with" => b(y.len() <= x.len() && x[x.len() - y.len()..] == y[..]),
                "fn:substring-before" => s(&hit.map(|k| st(&x[..k])).unwrap_or_default()),
                _ => s(&hit.map(|k| st(&x[k + y.len()..])).unwrap_or_default()),
            };
        }
        "fn:true" => return b(true),
        "fn:false" => return b(false),
        "fn:boolean" => return b(w.ebv(&a[0])?),
        "fn:not" => return b(!w.ebv(&a[0])?),
        "fn:name" => return s(&node_opt(&a[0])?.map(|n| w.d.n[n].name.clone()).unwrap_or_default()),
        "fn:local-name" => return s(&node_opt(&a[0])?.map(|n| w.d.local(n).to_string()).unwrap_or_default()),
        "fn:namespace-uri" => return s(&node_opt(&a[0])?.map(|n| w.d.ns_uri(n)).unwrap_or_default()),
        "fn:root" => node_opt(&a[0])?.map(|n| It::N(w.d.root(n))).into_iter().collect(),
        "fn:lang" => {
            let t = str0(w, &a[0])?.to_lowercase();
            let mut c = match node_opt(&a[1])? { Some(n) => Some(n), None => return err("node required") };
            while let Some(n) = c {
                if let Some(v) = w.d.attr_value(n, "xml:lang") {
                    let v = v.to_lowercase();
                    return b(v == t || (v.len() > t.len() && v.starts_with(&t) && v[t.len()..].starts_with('-')));
                }
                c = w.d.n[n].parent;
            }
            vec![It::B(false)]
        }
        "fn:empty" => return b(a[0].is_empty()),
        "fn:exists" => return b(!a[0].is_empty()),
        "fn:head" => a[0].first().cloned().into_iter().collect(),
        "fn:tail" => a[0].iter().skip(1).cloned().collect(),
        "fn:insert-before" => {
            let p = w.int_arg(&a[1])?;
            let k = if p < 1 { 0 } else if p > a[0].len() as i64 { a[0].len() } else { p as usize - 1 };
            let mut v = a[0][..k].to_vec();
            v.extend(a[2].clone());
            v.extend(a[0][k..].to_vec());
            v
        }
        "fn:remove" => { let p = w.int_arg(&a[1])?; a[0].iter().enumerate().filter(|(k, _)| *k as i64 + 1 != p).map(|x| x.1.clone()).collect() }
        "fn:reverse" => a[0].iter().rev().cloned().collect(),
        "fn:subsequence" => {
            if a[0].is_empty() { for x in &a[1..] { if pos_arg(x).is_err() { return unspec("arguments of an empty subsequence"); } } return Ok(vec![]); }
            let st = pos_arg(&a[1])?;
            let l = if a.len() > 2 { Some(pos_arg(&a[2])?) } else { None };
            window(a[0].len(), st, l).into_iter().map(|p| a[0][p - 1].clone()).collect()
        }
        "fn:index-of" => {
            let k = w.atomize_all(&a[1])?;
            if k.len() != 1 { return err("singleton required"); }
            let v = w.atomize_all(&a[0])?;
            v.iter().enumerate().filter(|(_, x)| w.cmp(x, &k[0]) == Some(Some(Ordering::Equal))).map(|(p, _)| It::I(p as i64 + 1)).collect()
        }
        "fn:zero-or-one" => if a[0].len() <= 1 { a[0].clone() } else { return err("more than one") },
        "fn:one-or-more" => if !a[0].is_empty() { a[0].clone() } else { return err("none") },
        "fn:exactly-one" => if a[0].len() == 1 { a[0].clone() } else { return err("not one") },
        "fn:count" => return i(a[0].len()),
        "fn:sum" | "fn:avg" => {
            if a[0].is_empty() { return Ok(if fun == "fn:avg" { vec![] } else if a.len() > 1 { a[1].clone() } else { vec![It::I(0)] }); }
            let mut acc = It::I(0);
            for x in &a[0] {
                let y = match x {
                    It::I(_) | It::D(_) | It::F(_) => x.clone(),
                    It::B(_) => return unspec("sum of booleans"),
                    It::A(_) => return unspec("sum of arrays"),
                    _ => types::cast(w, x, "xs:double")?,
                };
                acc = w.arith(Op::Add, &acc, &y)?;
            }
            if fun == "fn:sum" { vec![acc] } else { vec![w.arith(Op::Div, &acc, &It::I(a[0].len() as i64))?] }
        }
        "fn:max" | "fn:min" => {
            if a[0].is_empty() { return Ok(vec![]); }
            let mut v = vec![];
            for x in &a[0] { v.push(match x { It::N(_) => w.numeric(x)?, It::A(_) => return unspec("max of arrays"), It::M(_) | It::Fn(_) => return err("not atomic"), _ => x.clone() }); }
            for x in &v { if w.cmp(x, &v[0]).is_none() { return err("not comparable"); } }
            if v.iter().any(|x| matches!(x, It::F(f) if f.is_nan())) { return Ok(vec![It::F(f64::NAN)]); }
            let mut m = v[0].clone();
            for x in &v[1..] {
                let o = w.cmp(x, &m).unwrap().unwrap();
                if o == (if fun == "fn:max" { Ordering::Greater } else { Ordering::Less }) { m = x.clone(); }
            }
            vec![m]
        }
        "fn:position" => { if f.item.is_none() { return unspec("focus inside a function body"); } vec![It::I(f.pos)] }
        "fn:last" => { if f.item.is_none() { return unspec("focus inside a function body"); } vec![It::I(f.last)] }
        "fn:for-each" => {
            let g = function_arg(&a[1])?;
            let mut o = vec![];
            for x in &a[0] { o.extend(w.apply(&g, vec![vec![x.clone()]], f)?); }
            o
        }
        "fn:filter" => {
            let g = function_arg(&a[1])?;
            let mut o = vec![];
            for x in &a[0] {
                let r = w.apply(&g, vec![vec![x.clone()]], f)?;
                match (r.len(), r.get(0)) { (1, Some(It::B(k))) => if *k { o.push(x.clone()) }, _ => return unspec("filter function not boolean") }
            }
            o
        }
        "map:size" | "map:keys" | "map:contains" | "map:get" => {
            let m = match (a[0].len(), a[0].get(0)) { (1, Some(It::M(m))) => m.clone(), _ => return err("map required") };
            if fun == "map:size" { return i(m.len()); }
            if fun == "map:keys" { return Ok(m.iter().map(|x| x.0.clone()).collect()); }
            let k = w.key_arg(&a[1])?;
            let r = w.map_get(&m, &k)?;
            if fun == "map:contains" { return b(r.is_some()); }
            r.unwrap_or_default()
        }
        "array:size" => match (a[0].len(), a[0].get(0)) { (1, Some(It::A(m))) => return i(m.len()), _ => return err("array required") },
        "array:get" => {
            let m = match (a[0].len(), a[0].get(0)) { (1, Some(It::A(m))) => m.clone(), _ => return err("array required") };
            if a[1].len() != 1 { return err("singleton required"); }
            match a[1][0] { It::I(k) if k >= 1 && k as usize <= m.len() => m[k as usize - 1].clone(), It::I(_) => return err("array:get out of bounds"), _ => return unspec("array index of another type") }
        }
        "array:flatten" => { let mut o = vec![]; flatten(&a[0], &mut o); o }
        _ => return err("no such function"),
    })
}
