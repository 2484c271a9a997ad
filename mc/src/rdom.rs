// Reference model of an XML tree: an arena of nodes, kept deliberately plain.

use amxml::dom::{NodePtr, NodeType};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K { Doc, El, Text, Comment, Decl, Pi, Attr }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct N {
    pub k: K,
    pub name: String,
    pub value: String,
    pub parent: Option<usize>,
    pub ch: Vec<usize>,
    pub at: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct D { pub n: Vec<N> }

impl D {
    pub fn new() -> D {
        let mut d = D { n: vec![] };
        d.add(K::Doc, "", "");
        d
    }
    pub fn add(&mut self, k: K, name: &str, value: &str) -> usize {
        self.n.push(N { k, name: name.into(), value: value.into(), parent: None, ch: vec![], at: vec![] });
        self.n.len() - 1
    }
    pub fn push(&mut self, parent: usize, k: K, name: &str, value: &str) -> usize {
        let i = self.add(k, name, value);
        self.n[i].parent = Some(parent);
        self.n[parent].ch.push(i);
        i
    }
    pub fn attr(&mut self, el: usize, name: &str, value: &str) -> usize {
        let i = self.add(K::Attr, name, value);
        self.n[i].parent = Some(el);
        self.n[el].at.push(i);
        i
    }
    pub fn root(&self, mut i: usize) -> usize {
        while let Some(p) = self.n[i].parent { i = p; }
        i
    }
    pub fn is_ancestor_or_self(&self, a: usize, mut i: usize) -> bool {
        loop {
            if i == a { return true; }
            match self.n[i].parent { Some(p) => i = p, None => return false }
        }
    }
    /// Document order of the subtree at i: node, its attributes, its children.
    pub fn order(&self, i: usize) -> Vec<usize> {
        let mut v = vec![];
        self.order_into(i, &mut v);
        v
    }
    fn order_into(&self, i: usize, v: &mut Vec<usize>) {
        v.push(i);
        v.extend(&self.n[i].at);
        for &c in &self.n[i].ch { self.order_into(c, v); }
    }
    pub fn copy_subtree(&mut self, src: usize) -> usize {
        let (k, name, value) = (self.n[src].k, self.n[src].name.clone(), self.n[src].value.clone());
        let at: Vec<(String, String)> = self.n[src].at.iter().map(|&a| (self.n[a].name.clone(), self.n[a].value.clone())).collect();
        let ch = self.n[src].ch.clone();
        let i = self.add(k, &name, &value);
        for (n, v) in at { self.attr(i, &n, &v); }
        for c in ch {
            let cc = self.copy_subtree(c);
            self.n[cc].parent = Some(i);
            self.n[i].ch.push(cc);
        }
        i
    }
    pub fn string_value(&self, i: usize) -> String {
        match self.n[i].k {
            K::Doc | K::El => {
                let mut s = String::new();
                for &c in &self.n[i].ch {
                    match self.n[c].k { K::El | K::Text => s += &self.string_value(c), _ => {} }
                }
                s
            }
            K::Decl => String::new(),
            _ => self.n[i].value.clone(),
        }
    }
    pub fn xml(&self, i: usize) -> String {
        let n = &self.n[i];
        match n.k {
            K::Doc => n.ch.iter().map(|&c| self.xml(c)).collect(),
            K::El => {
                let mut s = format!("<{}", n.name);
                for &a in &n.at { s += &format!(" {}=\"{}\"", self.n[a].name, encode(&self.n[a].value)); }
                if n.ch.is_empty() { s + "/>" } else {
                    s += ">";
                    for &c in &n.ch { s += &self.xml(c); }
                    s + &format!("</{}>", n.name)
                }
            }
            K::Text => encode(&n.value),
            K::Comment => format!("<!--{}-->", n.value),
            K::Decl => format!("<?xml {}?>", n.value),
            K::Pi => format!("<?{} {}?>", n.name, n.value),
            K::Attr => String::new(),
        }
    }
    pub fn inner(&self, i: usize) -> String { self.n[i].ch.iter().map(|&c| self.xml(c)).collect() }
    /// Four spaces of indentation per level, one node per line.
    pub fn pretty(&self, i: usize, level: usize) -> String {
        let n = &self.n[i];
        let ind = "    ".repeat(level);
        match n.k {
            K::Doc => n.ch.iter().map(|&c| self.pretty(c, level)).collect(),
            K::El => {
                let mut s = format!("{}<{}", ind, n.name);
                for &a in &n.at { s += &format!(" {}=\"{}\"", self.n[a].name, encode(&self.n[a].value)); }
                if n.ch.is_empty() { s + "/>\n" } else {
                    s += ">\n";
                    for &c in &n.ch { s += &self.pretty(c, level + 1); }
                    s + &format!("{}</{}>\n", ind, n.name)
                }
            }
            K::Attr => String::new(),
            _ => format!("{}{}\n", ind, self.xml(i)),
        }
    }
    pub fn local(&self, i: usize) -> &str {
        let n = &self.n[i].name;
        match n.find(':') { Some(p) => &n[p + 1..], None => n }
    }
    pub fn prefix(&self, i: usize) -> &str {
        let n = &self.n[i].name;
        match n.find(':') { Some(p) => &n[..p], None => "" }
    }
    pub fn attr_value(&self, el: usize, name: &str) -> Option<&str> {
        self.n[el].at.iter().find(|&&a| self.n[a].name == name).map(|&a| self.n[a].value.as_str())
    }
    pub fn ns_uri(&self, i: usize) -> String {
        let pre = self.prefix(i);
        if pre.is_empty() && self.n[i].k == K::Attr { return String::new(); }
        let decl = if pre.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", pre) };
        let mut c = Some(i);
        while let Some(x) = c {
            if let Some(v) = self.attr_value(x, &decl) { return v.to_string(); }
            c = self.n[x].parent;
        }
        String::new()
    }
    /// How a node is shown inside a result sequence.
    pub fn show(&self, i: usize) -> String {
        let n = &self.n[i];
        match n.k {
            K::Doc => "(DocumentRoot)".into(),
            K::El => {
                let mut s = format!("<{}", n.name);
                for &a in &n.at { s += &format!(" {}=\"{}\"", self.n[a].name, self.n[a].value); }
                s + ">"
            }
            K::Text => n.value.clone(),
            K::Attr => format!("{}=\"{}\"", n.name, n.value),
            _ => String::new(),
        }
    }
}

pub fn encode(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;", '<' => o += "&lt;", '>' => o += "&gt;", '"' => o += "&quot;", '\'' => o += "&apos;",
            '\r' => o += "&#13;",
            c => o.push(c),
        }
    }
    o
}

pub fn kind_of(p: &NodePtr) -> Option<K> {
    Some(match p.node_type() {
        NodeType::DocumentRoot => K::Doc,
        NodeType::Element => K::El,
        NodeType::Text => K::Text,
        NodeType::Comment => K::Comment,
        NodeType::XMLDecl => K::Decl,
        NodeType::Instruction => K::Pi,
        NodeType::Attribute => K::Attr,
        NodeType::Directive => return None,
    })
}

/// Pairs every model node of the subtree with the implementation node at the
/// same position; Err when the two trees differ in shape, kind, name or value.
pub fn bind(d: &D, i: usize, p: &NodePtr, map: &mut Vec<(usize, NodePtr)>) -> Result<(), String> {
    let n = &d.n[i];
    if kind_of(p) != Some(n.k) || p.name() != n.name || p.value() != n.value {
        return Err(format!("node {:?} {:?} {:?} expected, got {:?} {:?} {:?}", n.k, n.name, n.value, kind_of(p), p.name(), p.value()));
    }
    map.push((i, p.clone()));
    let at = p.attributes();
    if at.len() != n.at.len() { return Err(format!("<{}>: {} attributes expected, got {}", n.name, n.at.len(), at.len())); }
    for (a, q) in n.at.iter().zip(at.iter()) { bind(d, *a, q, map)?; }
    let ch = p.children();
    if ch.len() != n.ch.len() {
        return Err(format!("{:?} <{}>: {} children expected, got {}", n.k, n.name, n.ch.len(), ch.len()));
    }
    for (c, q) in n.ch.iter().zip(ch.iter()) { bind(d, *c, q, map)?; }
    Ok(())
}

pub fn at(map: &[(usize, NodePtr)], i: usize) -> &NodePtr { &map.iter().find(|x| x.0 == i).unwrap().1 }
pub fn id_of(map: &[(usize, NodePtr)], p: &NodePtr) -> Option<usize> { map.iter().find(|x| x.1 == *p).map(|x| x.0) }

/// Everything the navigation interface says about the subtree rooted at r
/// (which must be a root of the model), compared with the model.
pub fn check_nav(d: &D, r: usize, map: &[(usize, NodePtr)], steps: &mut u64) -> Result<(), String> {
    let ord = d.order(r);
    let mut last: Option<i64> = None;
    for &i in &ord {
        *steps += 1;
        let p = at(map, i);
        let n = &d.n[i];
        macro_rules! want { ($what:expr, $got:expr, $exp:expr) => {
            let (g, e) = ($got, $exp);
            if g != e { return Err(format!("{} of node #{} {:?} <{}>: expected {:?}, got {:?}", $what, i, n.k, n.name, e, g)); }
        } }
        want!("kind", kind_of(p), Some(n.k));
        want!("name", p.name(), n.name.clone());
        want!("value", p.value(), n.value.clone());
        want!("local_name", p.local_name(), d.local(i).to_string());
        want!("space_name", p.space_name(), d.prefix(i).to_string());
        want!("namespace_uri", p.namespace_uri(), d.ns_uri(i));
        want!("parent", p.parent().map(|q| id_of(map, &q)), n.parent.map(Some));
        want!("root", id_of(map, &p.root()), Some(r));
        let re = d.n[r].ch.iter().copied().find(|&c| d.n[c].k == K::El).unwrap_or(r);
        want!("root_element", id_of(map, &p.root_element()), Some(re));
        let ch: Vec<Option<usize>> = p.children().iter().map(|q| id_of(map, q)).collect();
        want!("children", ch, n.ch.iter().map(|&c| Some(c)).collect::<Vec<_>>());
        let at: Vec<Option<usize>> = p.attributes().iter().map(|q| id_of(map, q)).collect();
        want!("attributes", at, n.at.iter().map(|&c| Some(c)).collect::<Vec<_>>());
        want!("first_child", p.first_child().map(|q| id_of(map, &q)), n.ch.first().map(|&c| Some(c)));
        for k in 0..n.ch.len() + 2 {
            want!(format!("nth_child({})", k), p.nth_child(k).map(|q| id_of(map, &q)), n.ch.get(k).map(|&c| Some(c)));
        }
        for &a in &n.at {
            let nm = &d.n[a].name;
            want!(format!("attribute_value({})", nm), p.attribute_value(nm), d.attr_value(i, nm).map(|s| s.to_string()));
        }
        want!("attribute_value(absent)", p.attribute_value("nosuch"), None);
        want!("to_string", p.to_string(), d.xml(i));
        want!("inner_xml", p.inner_xml(), d.inner(i));
        if let K::Doc | K::El | K::Text | K::Attr = n.k {
            want!("display", format!("{}", p), d.show(i));
            want!("debug", format!("{:?}", p), d.show(i));
        }
        let o = p.document_order();
        if let Some(l) = last { if o <= l { return Err(format!("document_order of node #{} is {} after {}", i, o, l)); } }
        last = Some(o);
    }
    Ok(())
}
