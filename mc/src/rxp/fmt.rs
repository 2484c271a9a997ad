// How result sequences are written.
use super::ast::*;
use crate::rdom::D;

/// The lexical form used when a value becomes a string.
pub fn raw(d: &D, it: &It) -> R<String> {
    Ok(match it {
        It::N(n) => d.string_value(*n),
        It::S(s) => s.clone(),
        It::I(i) => i.to_string(),
        It::D(f) => format!("{}", f),
        It::F(f) => {
            if f.is_nan() { "NaN".into() }
            else if f.is_infinite() { if *f > 0.0 { "+Infinity".into() } else { "-Infinity".into() } }
            else { format!("{}", f) }
        }
        It::B(b) => b.to_string(),
        It::A(_) => return unspec("an array as a string"),
        It::M(_) | It::Fn(_) => return err("a map or function has no string value"),
    })
}

/// Display form of one item; None when it contains a function.
pub fn show(d: &D, it: &It) -> Option<String> {
    Some(match it {
        It::N(n) => d.show(*n),
        It::S(s) => format!("\"{}\"", s),
        It::I(i) => i.to_string(),
        It::D(f) => { let s = format!("{}", f); if s.contains('.') { s } else { s + ".0" } }
        It::F(f) => {
            if f.is_nan() { "NaN".into() }
            else if *f == f64::INFINITY { "+Infinity".into() }
            else if *f == f64::NEG_INFINITY { "-Infinity".into() }
            else if *f == 0.0 && f.is_sign_negative() { "-0e0".into() }
            else { format!("{:e}", f) }
        }
        It::B(b) => b.to_string(),
        It::M(m) => {
            let mut v = vec![];
            for (k, x) in m.iter() { v.push(format!("{} => {}", show(d, k)?, show_seq(d, x)?)); }
            format!("{{{}}}", v.join(", "))
        }
        It::A(a) => {
            let mut v = vec![];
            for x in a.iter() { v.push(show_seq(d, x)?); }
            format!("[{}]", v.join(", "))
        }
        It::Fn(_) => return None,
    })
}
pub fn show_seq(d: &D, s: &[It]) -> Option<String> {
    if s.len() == 1 { return show(d, &s[0]); }
    let mut v = vec![];
    for x in s { v.push(show(d, x)?); }
    Some(format!("({})", v.join(", ")))
}
