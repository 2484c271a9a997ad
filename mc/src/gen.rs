// Exhaustive generators of small trees and strings.

use crate::rdom::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct T { pub k: K, pub name: String, pub value: String, pub at: Vec<(String, String)>, pub ch: Vec<Rc<T>> }

/// What a node of the tree may be.
#[derive(Clone)]
pub struct Pal {
    pub names: Vec<&'static str>,
    pub attrs: Vec<Vec<(&'static str, &'static str)>>,     // attribute lists an element may carry
    pub leaves: Vec<(K, &'static str, &'static str)>,      // kind, name, value
}

/// All forests of exactly n nodes (attributes not counted); no two adjacent texts.
pub fn forests(n: usize, p: &Pal) -> Vec<Vec<Rc<T>>> {
    let mut f: Vec<Vec<Vec<Rc<T>>>> = vec![vec![vec![]]];
    let mut t: Vec<Vec<Rc<T>>> = vec![vec![]];
    for k in 1..=n {
        t.push(trees_of(k, &f, p));
        let mut cur = vec![];
        for first in 1..=k {
            for a in &t[first] {
                for rest in &f[k - first] {
                    if a.k == K::Text && rest.first().map(|r| r.k) == Some(K::Text) { continue; }
                    let mut v = Vec::with_capacity(rest.len() + 1);
                    v.push(a.clone());
                    v.extend(rest.iter().cloned());
                    cur.push(v);
                }
            }
        }
        f.push(cur);
    }
    f.pop().unwrap()
}

fn trees_of(k: usize, f: &[Vec<Vec<Rc<T>>>], p: &Pal) -> Vec<Rc<T>> {
    let mut v = vec![];
    for name in &p.names {
        for at in &p.attrs {
            for ch in &f[k - 1] {
                v.push(Rc::new(T {
                    k: K::El, name: name.to_string(), value: String::new(),
                    at: at.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), ch: ch.clone(),
                }));
            }
        }
    }
    if k == 1 {
        for (kd, nm, val) in &p.leaves {
            v.push(Rc::new(T { k: *kd, name: nm.to_string(), value: val.to_string(), at: vec![], ch: vec![] }));
        }
    }
    v
}

fn put(d: &mut D, parent: usize, t: &T) {
    let i = d.push(parent, t.k, &t.name, &t.value);
    for (a, b) in &t.at { d.attr(i, a, b); }
    for c in &t.ch { put(d, i, c); }
}

pub fn doc_of(forest: &[Rc<T>]) -> D {
    let mut d = D::new();
    for t in forest { put(&mut d, 0, t); }
    d
}

/// All documents whose root element has a subtree of at most n nodes.
pub fn docs(n: usize, p: &Pal, mut f: impl FnMut(&D) -> bool) -> bool {
    for k in 1..=n {
        for forest in forests(k, p) {
            if forest.len() != 1 || forest[0].k != K::El { continue; }
            if !f(&doc_of(&forest)) { return false; }
        }
    }
    true
}

/// All sequences over `alpha` of length lo..=hi, shortest first.
pub fn seqs<A: Copy>(alpha: &[A], lo: usize, hi: usize, f: &mut dyn FnMut(&[A]) -> bool) -> bool {
    for n in lo..=hi {
        if n > 0 && alpha.is_empty() { continue; }
        let mut ix = vec![0usize; n];
        let mut cur: Vec<A> = ix.iter().map(|&i| alpha[i]).collect();
        loop {
            if !f(&cur) { return false; }
            let mut k = n;
            loop {
                if k == 0 { break; }
                k -= 1;
                ix[k] += 1;
                if ix[k] < alpha.len() { cur[k] = alpha[ix[k]]; break; }
                ix[k] = 0;
                cur[k] = alpha[0];
                if k == 0 { k = usize::MAX; break; }
            }
            if n == 0 || k == usize::MAX { break; }
        }
    }
    true
}
