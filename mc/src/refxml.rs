// Reference reader of XML sources, written at character level from the W3C
// grammar with the leniencies the library documents (several top-level
// elements, text outside elements, repeated declarations, any directive).

use crate::names::*;
use crate::props::sax::{ref_decode, Tok};
use crate::rdom::*;

pub enum Verdict {
    /// Well formed (nesting included): the tokens and the tree.
    Good(D),
    /// Must be refused.
    Bad,
    /// The grammar is violated in a way the statement does not settle.
    Open,
}

pub struct Read { pub toks: Vec<Tok>, pub v: Verdict }

fn space(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }

/// Characters XML does not allow anywhere.
fn no_char(c: char) -> bool { (c < ' ' && !space(c)) || c == '\u{FFFE}' || c == '\u{FFFF}' }

fn find(s: &[char], from: usize, pat: &str) -> Option<usize> {
    let p: Vec<char> = pat.chars().collect();
    (from..s.len()).find(|&i| s[i..].starts_with(&p))
}
fn name(s: &[char], i: &mut usize) -> String {
    let st = *i;
    if *i < s.len() && xml_start(s[*i]) { *i += 1; while *i < s.len() && xml_char(s[*i]) { *i += 1; } }
    s[st..*i].iter().collect()
}
fn spaces(s: &[char], i: &mut usize) { while *i < s.len() && space(s[*i]) { *i += 1; } }

pub fn read(src: &str) -> Read {
    let norm = src.replace("\r\n", "\n").replace('\r', "\n");
    let s: Vec<char> = norm.chars().collect();
    let mut toks = vec![];
    let bad = |toks: Vec<Tok>| Read { toks, v: Verdict::Bad };
    if s.contains(&'\u{0}') { return bad(toks); }
    let mut open = s.iter().any(|&c| no_char(c));
    let mut d = D::new();
    let mut cur = 0usize;
    let mut i = 0;
    while i < s.len() {
        if s[i] != '<' {
            let st = i;
            while i < s.len() && s[i] != '<' { i += 1; }
            let t = ref_decode(&s[st..i].iter().collect::<String>());
            d.push(cur, K::Text, "", &t);
            toks.push(Tok::T(t));
            continue;
        }
        i += 1;
        if i == s.len() { return bad(toks); }
        match s[i] {
            '/' => {
                i += 1;
                let n = name(&s, &mut i);
                spaces(&s, &mut i);
                if n.is_empty() || i == s.len() || s[i] != '>' { return bad(toks); }
                i += 1;
                if cur == 0 || d.n[cur].name != n { return bad(toks); }
                cur = d.n[cur].parent.unwrap();
                toks.push(Tok::E(n));
            }
            '?' => {
                i += 1;
                let n = name(&s, &mut i);
                let Some(e) = find(&s, i, "?>") else { return bad(toks) };
                if n.is_empty() || (e > i && !space(s[i])) { open = true; }
                spaces(&s, &mut i);
                let v: String = s[i..e].iter().collect();
                i = e + 2;
                if n == "xml" { d.push(cur, K::Decl, "xml", &v); } else { d.push(cur, K::Pi, &n, &v); }
                toks.push(Tok::P(n, v));
            }
            '!' => {
                let rest: String = s[i..s.len().min(i + 8)].iter().collect();
                if rest.starts_with("!--") {
                    let Some(e) = find(&s, i + 3, "-->") else { return bad(toks) };
                    let v: String = s[i + 3..e].iter().collect();
                    i = e + 3;
                    d.push(cur, K::Comment, "", &v);
                    toks.push(Tok::C(v));
                } else if rest.starts_with("![CDATA[") {
                    let Some(e) = find(&s, i + 8, "]]>") else { return bad(toks) };
                    let v: String = s[i + 8..e].iter().collect();
                    i = e + 3;
                    if !v.is_empty() { d.push(cur, K::Text, "", &v); }
                    toks.push(Tok::T(v));
                } else if rest.starts_with("!-") || rest.starts_with("![") {
                    return bad(toks);
                } else {
                    // a directive ends at its matching bracket; quotes, comments and
                    // instructions inside are not told apart by the library
                    let st = i - 1;
                    i += 1;
                    if i == s.len() { return bad(toks); }
                    if !s[i].is_ascii_alphabetic() { return Read { toks, v: Verdict::Open }; }
                    let mut depth = 1;
                    while depth > 0 {
                        if i == s.len() { return bad(toks); }
                        match s[i] { '<' => depth += 1, '>' => depth -= 1, '"' | '\'' | '?' => open = true, '-' if s[i - 1] == '-' => open = true, _ => {} }
                        i += 1;
                    }
                    toks.push(Tok::D(s[st..i].iter().collect()));
                }
            }
            _ => {
                let n = name(&s, &mut i);
                if n.is_empty() { return bad(toks); }
                let mut at: Vec<(String, String)> = vec![];
                let empty;
                loop {
                    let gap = i;
                    spaces(&s, &mut i);
                    if i == s.len() { return bad(toks); }
                    if s[i] == '>' { i += 1; empty = false; break; }
                    if s[i] == '/' {
                        i += 1;
                        if i == s.len() || s[i] != '>' { return bad(toks); }
                        i += 1;
                        empty = true;
                        break;
                    }
                    if gap == i { return bad(toks); }
                    let an = name(&s, &mut i);
                    spaces(&s, &mut i);
                    if an.is_empty() || i == s.len() || s[i] != '=' { return bad(toks); }
                    i += 1;
                    spaces(&s, &mut i);
                    if i == s.len() || (s[i] != '"' && s[i] != '\'') { return bad(toks); }
                    let q = s[i];
                    i += 1;
                    let st = i;
                    while i < s.len() && s[i] != q { i += 1; }
                    if i == s.len() { return bad(toks); }
                    let v: String = s[st..i].iter().collect();
                    i += 1;
                    // refused by XML, accepted here; nothing says which
                    if v.contains('<') || at.iter().any(|x| x.0 == an) { open = true; }
                    at.push((an, ref_decode(&v)));
                }
                let e = d.push(cur, K::El, &n, "");
                for (a, v) in &at { d.attr(e, a, v); }
                toks.push(Tok::S(n.clone(), at));
                if empty { toks.push(Tok::E(n)); } else { cur = e; }
            }
        }
    }
    if cur != 0 { return bad(toks); }
    Read { toks, v: if open { Verdict::Open } else { Verdict::Good(d) } }
}
