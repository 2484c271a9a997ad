// What a "deep" case runs in a process of its own, on a stack of fixed size.  Compiled
// into mc itself and, with an unoptimised library (where a call in tail position
// keeps its frame), into deep0.
use amxml::dom::new_document;

const STACK: usize = 8 << 20;

/// The child: exit 0 when the library came back with an answer of any kind.
pub fn child(a: &[String]) -> i32 {
    let a: Vec<String> = a.to_vec();
    // no core dump, no trace
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
        let n: usize = s(1).parse().unwrap();
        let text = format!("{}{}{}{}", s(2), s(3).repeat(n), s(4), s(5).repeat(n));
        if s(0) == "expr" {
            let d = new_document("<r><a/><b/></r>").unwrap();
            if let Ok(r) = d.root_element().eval_xpath(&text) { let _ = r.to_string(); }
            return;
        }
        let d = match new_document(&text) { Ok(d) => d, Err(_) => return };
        match s(0) {
            "read" => {}
            "write" => { let w = d.to_string(); assert!(w == text); }
            "order" => { let mut p = d.root_element(); while let Some(c) = p.first_child() { p = c; } assert!(p.document_order() > d.document_order()); }
            "copy" => { let r = d.root_element(); if let Some(c) = r.first_child() { c.insert_as_next_sibling(&c); assert!(r.children().len() == 2); } }
            "query" => { if let Ok(r) = d.eval_xpath(s(6)) { let _ = r.len(); } }
            x => panic!("{}", x),
        }
    });
    match h.map(|h| h.join()) { Ok(Ok(())) => 0, _ => 1 }
}
