// Sequence types, subtyping and casting.
use super::ast::*;
use super::eval::World;
use super::fmt::raw;
use super::parse::parse_type;

const PARENT: [(&str, &str); 12] = [
    ("xs:integer", "xs:decimal"), ("xs:decimal", "xs:numeric"), ("xs:double", "xs:numeric"), ("xs:numeric", "xs:anyAtomicType"),
    ("xs:string", "xs:anyAtomicType"), ("xs:boolean", "xs:anyAtomicType"), ("xs:untypedAtomic", "xs:anyAtomicType"),
    ("xs:anyAtomicType", "xs:anySimpleType"), ("xs:anySimpleType", "xs:anyType"), ("xs:untyped", "xs:anyType"),
    ("xs:anyURI", "xs:string"), ("xs:float", "xs:numeric"),
];
pub fn known_type(t: &str) -> bool { t == "xs:anyType" || t == "xs:error" || PARENT.iter().any(|p| p.0 == t && t != "xs:float") }
pub fn derives(mut a: &str, b: &str) -> bool {
    loop {
        if a == b { return true; }
        match PARENT.iter().find(|p| p.0 == a) { Some(p) => a = p.1, None => return false }
    }
}
fn atomic_type(it: &It) -> Option<&'static str> {
    Some(match it {
        It::S(_) => "xs:string", It::I(_) => "xs:integer", It::D(_) => "xs:decimal", It::F(_) => "xs:double", It::B(_) => "xs:boolean",
        _ => return None,
    })
}
pub fn instance(w: &World, s: &[It], t: &SeqT) -> R<bool> {
    match t {
        SeqT::Empty => Ok(s.is_empty()),
        SeqT::Of(i, o) => {
            // an unknown type makes the outcome open even for empty sequences
            check(i)?;
            let n = s.len();
            if n == 0 && (*o == ' ' || *o == '+') { return Ok(false); }
            if n > 1 && (*o == ' ' || *o == '?') { return Ok(false); }
            for x in s { if !item(w, x, i)? { return Ok(false); } }
            Ok(true)
        }
    }
}
fn check(t: &ItemT) -> R<()> {
    match t {
        ItemT::Atomic(a) => if known_type(a) { Ok(()) } else { unspec("unknown type name") },
        ItemT::Map(k, _) => if k != "xs:error" && known_type(k) { Ok(()) } else { unspec("unknown type name") },
        ItemT::Kind(Test::El(_, Some(a))) => if known_type(a.trim_end_matches('?')) { Ok(()) } else { unspec("unknown type name") },
        ItemT::Kind(Test::At(_, Some(a))) => if known_type(a) { Ok(()) } else { unspec("unknown type name") },
        _ => Ok(()),
    }
}
fn item(w: &World, x: &It, t: &ItemT) -> R<bool> {
    check(t)?;
    Ok(match t {
        ItemT::Item => true,
        ItemT::Kind(k) => match x { It::N(n) => w.test(*n, k, false)?, _ => false },
        ItemT::AnyFn => matches!(x, It::M(_) | It::A(_) | It::Fn(_)),
        ItemT::Atomic(a) => match atomic_type(x) { Some(b) => derives(b, a), None => false },
        ItemT::Map(k, v) => match x {
            It::M(m) => {
                for (kk, vv) in m.iter() {
                    match atomic_type(kk) { Some(b) if derives(b, k) => {} _ => return Ok(false) }
                    if !instance(w, vv, v)? { return Ok(false); }
                }
                true
            }
            _ => false,
        },
        ItemT::Array(v) => match x {
            It::A(a) => { for s in a.iter() { if !instance(w, s, v)? { return Ok(false); } } true }
            _ => false,
        },
        ItemT::Fn(ps, r) => match x {
            // a map is a function of its keys, an array a function of xs:integer
            It::M(m) => {
                if ps.len() != 1 { return Ok(false); }
                let k = match &ps[0] { SeqT::Of(ItemT::Atomic(k), ' ') => k, _ => return unspec("map against a function test whose argument is not one atomic value") };
                for (kk, vv) in m.iter() {
                    match atomic_type(kk) { Some(b) if derives(b, k) => {} _ => return Ok(false) }
                    if !instance(w, vv, r)? { return Ok(false); }
                }
                true
            }
            It::A(a) => {
                if ps.len() != 1 || !instance(w, &vec![It::I(1)], &ps[0])? { return Ok(false); }
                for s in a.iter() { if !instance(w, s, r)? { return Ok(false); } }
                match &ps[0] { SeqT::Of(ItemT::Atomic(k), ' ') if *k == "xs:integer" => true, _ => return unspec("array against a function test whose argument is more than an integer") }
            }
            It::Fn(f) => {
                let (ap, ar) = signature(f)?;
                if ap.len() != ps.len() { return Ok(false); }
                for (a, p) in ap.iter().zip(ps) { if !sub(p, a)? { return Ok(false); } }
                sub(&ar, r)?
            }
            _ => false,
        },
    })
}
pub fn signature(f: &Fun) -> R<(Vec<SeqT>, SeqT)> {
    match f {
        Fun::Inline { params, ret, .. } => Ok((params.iter().map(|p| p.1.clone()).collect(), ret.clone())),
        Fun::Named(n, a, _) => sig(n, *a),
        Fun::Partial(n, args, _) => {
            let (ps, r) = sig(n, args.len())?;
            Ok((ps.into_iter().zip(args).filter(|x| x.1.is_none()).map(|x| x.0).collect(), r))
        }
    }
}
fn sig(n: &str, a: usize) -> R<(Vec<SeqT>, SeqT)> {
    if n == "fn:concat" && a > 2 {
        let (p, r) = sig(n, 2)?;
        return Ok((vec![p[0].clone(); a], r));
    }
    let key = format!("{}#{}", n, a);
    for (k, s) in SIGS.iter() {
        if *k == key {
            if let SeqT::Of(ItemT::Fn(p, r), _) = parse_type(s) { return Ok((p, *r)); }
        }
    }
    unspec("signature")
}
/// Is every value of type a also a value of type b?
pub fn sub(a: &SeqT, b: &SeqT) -> R<bool> {
    // xs:error has no instances: an optional one is always empty, a required one never comes about
    let none = |t: &SeqT| match t { SeqT::Of(ItemT::Atomic(e), o) if *e == "xs:error" => Some(*o), _ => None };
    let (ra, rb);
    let a = match none(a) { Some('?') | Some('*') => { ra = SeqT::Empty; &ra } Some(_) => return Ok(true), None => a };
    let b = match none(b) { Some('?') | Some('*') => { rb = SeqT::Empty; &rb } Some(_) => return Ok(false), None => b };
    let (ai, ao, bi, bo) = match (a, b) {
        (SeqT::Empty, SeqT::Empty) => return Ok(true),
        (SeqT::Empty, SeqT::Of(_, o)) => return Ok(*o == '?' || *o == '*'),
        (SeqT::Of(..), SeqT::Empty) => return Ok(false),
        (SeqT::Of(ai, ao), SeqT::Of(bi, bo)) => (ai, *ao, bi, *bo),
    };
    let min = |o: char| if o == '?' || o == '*' { 0 } else { 1 };
    let many = |o: char| o == '*' || o == '+';
    if min(ao) < min(bo) || (many(ao) && !many(bo)) { return Ok(false); }
    sub_item(ai, bi)
}
fn sub_item(a: &ItemT, b: &ItemT) -> R<bool> {
    check(a)?;
    check(b)?;
    Ok(match (a, b) {
        (_, ItemT::Item) => true,
        (ItemT::Atomic(x), ItemT::Atomic(y)) => derives(x, y),
        (ItemT::Fn(..), ItemT::AnyFn) | (ItemT::AnyFn, ItemT::AnyFn) => true,
        (ItemT::Map(..), ItemT::AnyFn) | (ItemT::Array(_), ItemT::AnyFn) => true,
        (ItemT::Map(..), ItemT::Fn(..)) | (ItemT::Array(_), ItemT::Fn(..)) => return unspec("map type against function type"),
        (ItemT::Fn(ap, ar), ItemT::Fn(bp, br)) => {
            if ap.len() != bp.len() { return Ok(false); }
            for (x, y) in ap.iter().zip(bp) { if !sub(y, x)? { return Ok(false); } }
            sub(ar, br)?
        }
        (ItemT::Map(k, v), ItemT::Map(k2, v2)) => derives(k, k2) && sub(v, v2)?,
        (ItemT::Array(v), ItemT::Array(v2)) => sub(v, v2)?,
        (ItemT::Kind(x), ItemT::Kind(y)) => {
            if x == y || *y == Test::Node { true } else {
                match (x, y) {
                    (Test::Pi(_), Test::Pi(None)) => true,
                    (Test::El(n1, t1), Test::El(n2, t2)) | (Test::At(n1, t1), Test::At(n2, t2)) => {
                        let dflt = if matches!(x, Test::El(..)) { "xs:anyType?" } else { "xs:anyType" };
                        let (t1, t2) = (t1.as_deref().unwrap_or(dflt), t2.as_deref().unwrap_or(dflt));
                        (n2.is_none() || n1 == n2) && (t2.ends_with('?') || !t1.ends_with('?')) && derives(t1.trim_end_matches('?'), t2.trim_end_matches('?'))
                    }
                    _ => false,
                }
            }
        }
        _ => false,
    })
}

pub fn xspace(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r') }
pub fn xtrim(s: &str) -> &str { s.trim_matches(xspace) }
fn digits(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) }
fn unsigned(s: &str) -> &str { s.strip_prefix('+').or(s.strip_prefix('-')).unwrap_or(s) }
fn is_int(s: &str) -> bool { digits(unsigned(s)) }
fn is_dec(s: &str) -> bool {
    let u = unsigned(s);
    match u.find('.') {
        None => digits(u),
        Some(p) => { let (a, b) = (&u[..p], &u[p + 1..]); (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && !(a.is_empty() && b.is_empty()) }
    }
}
fn is_dbl(s: &str) -> bool {
    match s.find(|c| c == 'e' || c == 'E') { None => is_dec(s), Some(p) => is_dec(&s[..p]) && is_int(&s[p + 1..]) }
}
pub fn xs_double(s: &str) -> R<f64> {
    let t = xtrim(s);
    match t {
        "NaN" => return Ok(f64::NAN),
        "INF" => return Ok(f64::INFINITY),
        "-INF" => return Ok(f64::NEG_INFINITY),
        "+INF" => return Ok(f64::INFINITY),
        _ => {}
    }
    if is_dbl(t) { Ok(t.parse().unwrap()) } else { err("not a double") }
}
pub fn cast(w: &World, it: &It, ty: &str) -> R<It> {
    let ty = ty.strip_prefix("xs:").unwrap_or(ty);
    if !["string", "double", "decimal", "integer", "boolean"].contains(&ty) {
        if ["anyURI", "untypedAtomic", "float", "numeric", "anyAtomicType", "anySimpleType", "anyType", "untyped", "error"].contains(&ty) { return unspec("cast to another type"); }
        return err("cannot cast to this type");
    }
    let it = match it { It::N(n) => It::S(w.d.string_value(*n)), x => x.clone() };
    match it { It::A(_) => return unspec("cast of an array"), It::M(_) | It::Fn(_) => return err("cast of a function"), _ => {} }
    Ok(match ty {
        "string" => It::S(raw(w.d, &it)?),
        "double" => It::F(match it {
            It::S(s) => xs_double(&s)?, It::I(i) => i as f64, It::D(f) | It::F(f) => f, It::B(b) => b as u8 as f64, _ => unreachable!(),
        }),
        // + 0.0: there is no negative zero among the decimals
        "decimal" => It::D(0.0 + match it {
            It::S(s) => if is_dec(xtrim(&s)) { xtrim(&s).parse().unwrap() } else { return err("not a decimal") },
            It::I(i) => i as f64,
            It::D(f) => f,
            It::F(f) => if f.is_finite() { f } else { return err("not finite") },
            It::B(b) => b as u8 as f64, _ => unreachable!(),
        }),
        "integer" => It::I(match it {
            It::S(s) => if is_int(xtrim(&s)) { match xtrim(&s).parse() { Ok(i) => i, Err(_) => return err("integer range") } } else { return err("not an integer") },
            It::I(i) => i,
            It::D(f) | It::F(f) => { let t = f.trunc(); if t >= -9223372036854775808.0 && t < 9223372036854775808.0 { t as i64 } else { return err("integer range") } }
            It::B(b) => b as i64, _ => unreachable!(),
        }),
        _ => It::B(match it {
            It::S(s) => match xtrim(&s) { "true" | "1" => true, "false" | "0" => false, _ => return err("not a boolean") },
            It::I(i) => i != 0,
            It::D(f) | It::F(f) => !(f == 0.0 || f.is_nan()),
            It::B(b) => b, _ => unreachable!(),
        }),
    })
}

// XPath and XQuery Functions and Operators 3.1
pub const SIGS: [(&str, &str); 76] = [
    ("fn:nilled#0", "function() as xs:boolean?"), ("fn:nilled#1", "function(node()?) as xs:boolean?"),
    ("fn:string#0", "function() as xs:string"), ("fn:string#1", "function(item()?) as xs:string"),
    ("fn:data#0", "function() as xs:anyAtomicType*"), ("fn:data#1", "function(item()*) as xs:anyAtomicType*"),
    ("fn:abs#1", "function(xs:numeric?) as xs:numeric?"), ("fn:ceiling#1", "function(xs:numeric?) as xs:numeric?"),
    ("fn:floor#1", "function(xs:numeric?) as xs:numeric?"), ("fn:round#1", "function(xs:numeric?) as xs:numeric?"),
    ("fn:number#0", "function() as xs:double"), ("fn:number#1", "function(xs:anyAtomicType?) as xs:double"),
    ("fn:codepoints-to-string#1", "function(xs:integer*) as xs:string"), ("fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*"),
    ("fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?"), ("fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?"),
    ("fn:concat#2", "function(xs:anyAtomicType?, xs:anyAtomicType?) as xs:string"),
    ("fn:string-join#1", "function(xs:string*) as xs:string"), ("fn:string-join#2", "function(xs:string*, xs:string) as xs:string"),
    ("fn:substring#2", "function(xs:string?, xs:double) as xs:string"), ("fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string"),
    ("fn:string-length#0", "function() as xs:integer"), ("fn:string-length#1", "function(xs:string?) as xs:integer"),
    ("fn:normalize-space#0", "function() as xs:string"), ("fn:normalize-space#1", "function(xs:string?) as xs:string"),
    ("fn:upper-case#1", "function(xs:string?) as xs:string"), ("fn:lower-case#1", "function(xs:string?) as xs:string"),
    ("fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string"),
    ("fn:contains#2", "function(xs:string?, xs:string?) as xs:boolean"), ("fn:starts-with#2", "function(xs:string?, xs:string?) as xs:boolean"),
    ("fn:ends-with#2", "function(xs:string?, xs:string?) as xs:boolean"),
    ("fn:substring-before#2", "function(xs:string?, xs:string?) as xs:string"), ("fn:substring-after#2", "function(xs:string?, xs:string?) as xs:string"),
    ("fn:true#0", "function() as xs:boolean"), ("fn:false#0", "function() as xs:boolean"),
    ("fn:boolean#1", "function(item()*) as xs:boolean"), ("fn:not#1", "function(item()*) as xs:boolean"),
    ("fn:name#0", "function() as xs:string"), ("fn:name#1", "function(node()?) as xs:string"),
    ("fn:local-name#0", "function() as xs:string"), ("fn:local-name#1", "function(node()?) as xs:string"),
    ("fn:namespace-uri#0", "function() as xs:anyURI"), ("fn:namespace-uri#1", "function(node()?) as xs:anyURI"),
    ("fn:lang#1", "function(xs:string?) as xs:boolean"), ("fn:lang#2", "function(xs:string?, node()) as xs:boolean"),
    ("fn:root#0", "function() as node()"), ("fn:root#1", "function(node()?) as node()?"),
    ("fn:empty#1", "function(item()*) as xs:boolean"), ("fn:exists#1", "function(item()*) as xs:boolean"),
    ("fn:head#1", "function(item()*) as item()?"), ("fn:tail#1", "function(item()*) as item()*"),
    ("fn:insert-before#3", "function(item()*, xs:integer, item()*) as item()*"), ("fn:remove#2", "function(item()*, xs:integer) as item()*"),
    ("fn:reverse#1", "function(item()*) as item()*"),
    ("fn:subsequence#2", "function(item()*, xs:double) as item()*"), ("fn:subsequence#3", "function(item()*, xs:double, xs:double) as item()*"),
    ("fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*"),
    ("fn:zero-or-one#1", "function(item()*) as item()?"), ("fn:one-or-more#1", "function(item()*) as item()+"), ("fn:exactly-one#1", "function(item()*) as item()"),
    ("fn:count#1", "function(item()*) as xs:integer"), ("fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?"),
    ("fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?"), ("fn:min#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?"),
    ("fn:sum#2", "function(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?"),
    ("fn:position#0", "function() as xs:integer"), ("fn:last#0", "function() as xs:integer"),
    ("map:size#1", "function(map(*)) as xs:integer"), ("map:keys#1", "function(map(*)) as xs:anyAtomicType*"),
    ("map:contains#2", "function(map(*), xs:anyAtomicType) as xs:boolean"), ("map:get#2", "function(map(*), xs:anyAtomicType) as item()*"),
    ("array:size#1", "function(array(*)) as xs:integer"), ("array:get#2", "function(array(*), xs:integer) as item()*"),
    ("array:flatten#1", "function(item()*) as item()*"),
    ("fn:for-each#2", "function(item()*, function(item()) as item()*) as item()*"), ("fn:filter#2", "function(item()*, function(item()) as xs:boolean) as item()*"),
];
