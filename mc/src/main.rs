mod deepchild;
mod sup;
mod rdom;
mod refxml;
mod gen;
mod names;
mod rxp;
mod props;

use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    if s(1) == "list" {
        for p in props::all() { println!("{}", p.id()); }
        return;
    }
    if s(1) == "deep" { std::process::exit(deepchild::child(&a[2..])); }
    let id = s(2).to_string();
    let mut p = match props::all().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => { eprintln!("unknown property {:?}", id); std::process::exit(2) }
    };
    let code = match s(1) {
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            sup::supervise(p.as_ref(), sup::Tier::parse(s(3)), seed, Path::new(s(4)))
        }
        "worker" => {
            sup::worker(p.as_mut(), sup::Tier::parse(s(3)), s(4).parse().unwrap(), s(5).parse().unwrap(),
                s(6), s(7), s(8).parse().unwrap());
            0
        }
        "replay" => {
            let c = std::fs::read_to_string(s(3)).unwrap();
            let line = c.trim_end_matches('\n');
            if line.starts_with("!history ") {
                let mut m = std::collections::HashMap::new();
                for kv in line.split_whitespace().skip(1) {
                    let mut it = kv.splitn(2, '=');
                    m.insert(it.next().unwrap().to_string(), it.next().unwrap_or("").to_string());
                }
                let (st, out) = (format!("{}.st", s(3)), format!("{}.out", s(3)));
                sup::worker(p.as_mut(), sup::Tier::parse(&m["tier"]), m["worker"].parse().unwrap(), m["of"].parse().unwrap(),
                    &st, &out, m["upto"].parse().unwrap());
                let o = std::fs::read_to_string(&out).unwrap();
                let bad: Vec<&str> = o.lines().filter(|l| l.starts_with("B\t")).collect();
                for b in &bad { println!("{}", b); }
                if bad.is_empty() { 0 } else { 1 }
            } else {
                sup::replay(p.as_mut(), line)
            }
        }
        "diff" => {     // mc diff <ID> <xml> <file of expressions>: for exploration by hand
            let mut c = props::xp::Cache::default();
            c.load(s(3)).unwrap();
            let mut n = [0usize; 4];
            for l in std::fs::read_to_string(s(4)).unwrap().lines() {
                match c.compare(s(5).parse().unwrap_or(1), l) {
                    Err(e) => { n[3] += 1; println!("{}\n    {}", l, e); }
                    Ok(props::xp::Cmp::Open) => n[2] += 1,
                    Ok(props::xp::Cmp::Same { error, .. }) => n[error as usize] += 1,
                }
            }
            println!("values {} errors {} open {} different {}", n[0], n[1], n[2], n[3]);
            0
        }
        "eval" => {     // mc eval <ID> <xml> <xpath>: for exploration by hand
            let doc = amxml::dom::new_document(s(3)).unwrap();
            match doc.root_element().eval_xpath(s(4)) {
                Ok(r) => println!("{}", r.to_string()),
                Err(e) => println!("Err: {}", e),
            }
            0
        }
        _ => { eprintln!("usage: mc run|worker|replay|list ..."); 2 }
    };
    std::process::exit(code);
}
