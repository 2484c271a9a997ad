From 52d4a35f61b6a094785eec74e63c25eb067ac96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 01/95] fix: report EOF inside a start tag instead of looping
 forever

---
 src/sax.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..bf3b542 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -282,6 +282,8 @@ impl SaxDecoder {
                         } else {
                             return Err(xml_syntax_error!("illegal char after /"));
                         }
+                    } else if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag"));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 270aa7454976e0efeeb7f75ba45f3002c3138498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 02/95] fix: decode entity and character references in a single
 pass

---
 src/sax.rs | 66 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index bf3b542..06e4a7c 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -874,45 +874,47 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 //
 fn decode_entity(s: &String) -> String {
 
-    // -----------------------------------------------------------------
+    // 左から右へ一度だけ走査する。
+    // 復号した文字を再び参照の一部とみなしてはならない (&#38;lt; => &lt;)。
     //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
-            }
-
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
-            if w.len() != 2 {
-                break;
-            }
+    let entity_specs = [
+        ( "&gt;", '>' ),
+        ( "&lt;", '<' ),
+        ( "&quot;", '"' ),
+        ( "&apos;", '\'' ),
+        ( "&amp;", '&' ),
+    ];
 
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
+    let mut buf = String::new();
+    let mut rest = s.as_str();
+    while let Some(pos) = rest.find('&') {
+        buf.push_str(&rest[.. pos]);
+        rest = &rest[pos ..];
 
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
+        let mut decoded: Option<(char, usize)> = None;
+        for &(pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
+            if ! rest.starts_with(pattern) {
+                continue;
+            }
+            if let Some(end) = rest.find(';') {
+                let u = u32::from_str_radix(&rest[pattern.len() .. end],
+                                    radix).unwrap_or(0x3013);
                                                             // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
+                decoded = Some((char::from_u32(u).unwrap_or('〓'), end + 1));
+            }
+            break;
+        }
+        for &(pattern, ch) in entity_specs.iter() {
+            if rest.starts_with(pattern) {
+                decoded = Some((ch, pattern.len()));
+            }
         }
-    }
 
-    // -----------------------------------------------------------------
-    //
-    let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
-    ];
-    for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
+        let (ch, len) = decoded.unwrap_or(('&', 1));
+        buf.push(ch);
+        rest = &rest[len ..];
     }
+    buf.push_str(rest);
 
     return buf;
 }
-- 
2.43.0


From 291a6661475431b1c24d5c6d7733b9b731277a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 03/95] fix: normalize a lone carriage return to a newline
 instead of dropping it

---
 src/sax.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 06e4a7c..81b9dfa 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -151,7 +151,8 @@ impl SaxDecoder {
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
         return Ok(SaxDecoder{
-            char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
+            char_vec: xml_string.replace("\r\n", "\n").replace("\r", "\n")
+                                .chars().collect(),
                 // XML 1.0: 行末の処理
                 // 解析前に改行すべてを #x0A に標準化する。
             index: 0,
-- 
2.43.0


From 0d6097f5b0a836f83f13688c93dd833f0f92ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 04/95] fix: reject a document that ends with an element still
 open

---
 src/dom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..65d032f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -183,6 +183,11 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     loop {
         match dec.raw_token() {
             Ok(XmlToken::EOF) => {
+                if ! Rc::ptr_eq(&curr_node, &doc_root) {
+                    return Err(xml_syntax_error!(
+                        "Unexpected EOF: element {} is not closed",
+                        curr_node.name.as_str()));
+                }
                 break;
             },
             Ok(XmlToken::StartElement{name, attr}) => {
-- 
2.43.0


From 957d62027950302af5452504efbb422b5fa6dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 05/95] fix: escape carriage returns on output so that they
 survive reparsing

---
 src/dom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dom.rs b/src/dom.rs
index 65d032f..dd5f118 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1008,6 +1008,7 @@ fn encode_entity(s: &String) -> String {
         [ "<", "&lt;" ],
         [ "\"", "&quot;" ],
         [ "'", "&apos;" ],
+        [ "\r", "&#13;" ],
     ];
     let mut str = s.clone();
     for spec in specs.iter() {
-- 
2.43.0


From bae05f083d81272112311be17187fd0b441fcfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 06/95] fix: keep parent links consistent when the tree is
 modified

---
 src/dom.rs | 93 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index dd5f118..42656ac 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -119,7 +119,7 @@ struct Node {
     order: Cell<i64>,
     name: String,
     value: String,
-    parent: Option<RefCell<Weak<Node>>>,
+    parent: RefCell<Weak<Node>>,      // 親がなければ upgrade() は None
     children: RefCell<Vec<RcNode>>,
     attributes: RefCell<Vec<RcNode>>,
 }
@@ -135,10 +135,10 @@ fn make_new_rc_node(node_type: NodeType,
         order: Cell::new(0),
         name: String::from(name),
         value: String::from(value),
-        parent: match parent {
-            Some(p) => Some(RefCell::new(Rc::downgrade(p))),
-            None => None,
-        },
+        parent: RefCell::new(match parent {
+            Some(p) => Rc::downgrade(p),
+            None => Weak::new(),
+        }),
         children: RefCell::new(vec!{}),
         attributes: RefCell::new(vec!{}),
     });
@@ -208,8 +208,8 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                         "Element name mismatch: {} and {}",
                         curr_node.name.as_str(), name));
                 }
-                curr_node = match curr_node.parent {
-                    Some(ref p) => p.borrow().upgrade().unwrap(),
+                curr_node = match parent_rc_node(&curr_node) {
+                    Some(p) => p,
                     None => Rc::clone(&curr_node),
                 };
             },
@@ -245,14 +245,28 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
+// 親ノード。親がないか、すでに解放されている場合は None。
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
-    for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
-    }
+fn parent_rc_node(rc_node: &RcNode) -> Option<RcNode> {
+    return rc_node.parent.borrow().upgrade();
+}
+
+// ---------------------------------------------------------------------
+// source以下の部分木を複製する。
+// 複製したノードの親は、複製した部分木の中のノードである。
+//
+fn deep_copy_rc_node(source: &RcNode, parent: Option<&mut RcNode>) -> RcNode {
+    let mut copy = make_new_rc_node(source.node_type.clone(), parent,
+                                    &source.name, &source.value);
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let at_copy = deep_copy_rc_node(at, Some(&mut copy));
+        copy.attributes.borrow_mut().push(at_copy);
+    }
+    for ch in source.children.borrow().iter() {
+        let ch_copy = deep_copy_rc_node(ch, Some(&mut copy));
+        copy.children.borrow_mut().push(ch_copy);
     }
+    return copy;
 }
 
 // =====================================================================
@@ -445,8 +459,8 @@ impl NodePtr {
             if let Some(value) = val {
                 return value.clone();
             }
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return String::new(),
             };
         }
@@ -471,8 +485,8 @@ impl NodePtr {
     pub fn root(&self) -> NodePtr {
         let mut curr = self.unwrap_rc();
         loop {
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return wrap_rc_clone(&curr),
             };
         }
@@ -520,11 +534,8 @@ impl NodePtr {
     /// ```
     ///
     pub fn parent(&self) -> Option<NodePtr> {
-        match self.unwrap_rc().parent {
-            Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
-                return Some(wrap_rc_clone(&parent_node));
-            },
+        match parent_rc_node(&self.rc_node) {
+            Some(parent_node) => return Some(wrap_rc_clone(&parent_node)),
             None => return None,
         }
     }
@@ -617,9 +628,24 @@ impl NodePtr {
     /// ```
     ///
     pub fn append_child(&self, new_child: &NodePtr) {
+        // 自分自身や祖先を子にすると、木が循環してしまう。
+        let mut ancestor = Some(self.rc_clone());
+        while let Some(node) = ancestor {
+            if node == *new_child {
+                return;
+            }
+            ancestor = node.parent();
+        }
+
+        // 1個のノードが複数の親の子になることはない。
+        if let Some(old_parent) = new_child.parent() {
+            old_parent.delete_child(new_child);
+        }
+
         let rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
         rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
+        *rc_new_child.parent.borrow_mut() = Rc::downgrade(&rc_self);
         self.clear_document_order();
     }
 
@@ -654,15 +680,9 @@ impl NodePtr {
         let n = parent.find_child_index(self);
         if n != usize::MAX {
             let mut rc_parent = parent.unwrap_rc();
-            let rc_new_node = new_node.unwrap_rc();
-
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = deep_copy_rc_node(
+                &new_node.unwrap_rc(), Some(&mut rc_parent));
+            rc_parent.children.borrow_mut().insert(n, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -698,15 +718,9 @@ impl NodePtr {
         let n = parent.find_child_index(self);
         if n != usize::MAX {
             let mut rc_parent = parent.unwrap_rc();
-            let rc_new_node = new_node.unwrap_rc();
-
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = deep_copy_rc_node(
+                &new_node.unwrap_rc(), Some(&mut rc_parent));
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -737,6 +751,7 @@ impl NodePtr {
         if n != usize::MAX {
             let rc_node = self.unwrap_rc();
             (*rc_node).children.borrow_mut().remove(n);
+            *target.rc_node.parent.borrow_mut() = Weak::new();
         }
         self.clear_document_order();
     }
-- 
2.43.0


From 79f7061b5128d9f29840ab9f76193dfecee41761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 07/95] fix: do not apply the default namespace to attributes

---
 src/dom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 42656ac..a33d6cb 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -451,6 +451,8 @@ impl NodePtr {
         if space.as_str() != "" {
             xmlns_attr += &":";
             xmlns_attr += &space;
+        } else if self.node_type() == NodeType::Attribute {
+            return String::new();       // デフォルト名前空間は属性に及ばない
         }
 
         let mut curr = self.unwrap_rc();
-- 
2.43.0


From 794e3469d6be674d95ba7b2f3371bd6a2d1661cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 08/95] fix: get_nodeset returns nodes in document order
 without duplicates

---
 src/xpath.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xpath.rs b/src/xpath.rs
index f92c55c..a2b1634 100644
--- a/src/xpath.rs
+++ b/src/xpath.rs
@@ -192,7 +192,9 @@ impl NodePtr {
 
         let result = match_xpath(self, &xnode)?;
 
-        let nodeset = result.to_nodeset();
+        let mut nodeset = result.to_nodeset();
+        nodeset.sort_by_key(|node| node.document_order());
+        nodeset.dedup();
         return Ok(nodeset);
     }
 }
-- 
2.43.0


From 856ccdf7e0921c455aa203bfc221fde033282f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/95] fix: intersect and except return nodes in document
 order without duplicates

---
 src/xpath_impl/oper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..1b06e00 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -219,7 +219,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -227,11 +227,11 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -239,7 +239,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From 45186e50ef2138658534939c4cfdd4f103e9fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 10/95] fix: union, intersect and except reject operands that
 are not nodes

---
 src/xpath_impl/oper.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 1b06e00..b88bf43 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -9,6 +9,7 @@ use std::cmp::Ordering;
 use std::error::Error;
 
 use dom::*;
+use xmlerror::*;
 use xpath_impl::eval::*;
 use xpath_impl::xitem::*;
 use xpath_impl::xsequence::*;
@@ -207,7 +208,18 @@ pub fn op_concatenate(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 // Equals, Union, Intersection and Except
 //   (XPath 3.1 では演算子の項に載っていない)
 //
+fn check_nodes_only(op_name: &str, args: &Vec<XSequence>) -> Result<(), Box<Error>> {
+    for arg in args.iter() {
+        if ! arg.is_no_atom() {
+            return Err(type_error!("{}: operand must be nodes: {}",
+                        op_name, arg.to_string()));
+        }
+    }
+    return Ok(());
+}
+
 pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodes_only("union", args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     for n in args[0].to_nodeset().iter() {          // lhs
         node_array.push(n.rc_clone());
@@ -220,6 +232,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 }
 
 pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodes_only("intersect", args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -232,6 +245,7 @@ pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequen
 }
 
 pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodes_only("except", args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
-- 
2.43.0


From 4bc9be1d8fb0b999bcbf81fb8d569076f646490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 11/95] fix: reject tags with no name or with stray characters

---
 src/sax.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 81b9dfa..465a085 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -187,7 +187,10 @@ impl SaxDecoder {
             //
             } else if ch == '/' {              // End Element: </foo>
                 let name = self.get_name();
-                self.get_until_ch('>')?;
+                let rest = self.get_until_ch('>')?;
+                if name == "" || ! rest.chars().all(is_space) {
+                    return Err(xml_syntax_error!("Invalid end tag: </{}{}>", name, rest));
+                }
                 return Ok(XmlToken::EndElement{name});
 
             // ---------------------------------------------------------
@@ -247,6 +250,9 @@ impl SaxDecoder {
             } else {                    // Start Element
                 self.ungetchar();
                 let name = self.get_name();
+                if name == "" {
+                    return Err(xml_syntax_error!("No element name after <"));
+                }
                 let mut attr = vec!{};
                 loop {
                     self.skip_spaces();
@@ -285,6 +291,8 @@ impl SaxDecoder {
                         }
                     } else if ch == EOF {
                         return Err(xml_syntax_error!("Unexpected EOF in start tag"));
+                    } else if ! is_space(ch) {
+                        return Err(xml_syntax_error!("Illegal char in start tag: {}", ch));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 43a3ec8fdb05f89a59a8a1502e6c368149a8a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 12/95] fix: make no text node from an empty CDATA section

---
 src/dom.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index a33d6cb..6ec6cff 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -214,9 +214,11 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                 };
             },
             Ok(XmlToken::CharData{chardata}) => {
-                make_new_child_rc_node(NodeType::Text,
-                            &mut curr_node,
-                            "", chardata.as_str(), usize::MAX);
+                if chardata != "" {         // <![CDATA[]]>
+                    make_new_child_rc_node(NodeType::Text,
+                                &mut curr_node,
+                                "", chardata.as_str(), usize::MAX);
+                }
             },
             Ok(XmlToken::ProcInst{target, inst}) => {
                 if target == "xml" {
-- 
2.43.0


From 31e1a8231016ebe72ef38da496aeb152499e46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 13/95] fix: a removed attribute no longer has a parent

---
 src/dom.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6ec6cff..3c0108b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -858,7 +858,8 @@ impl NodePtr {
 
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let old_attr = (*rc_node).attributes.borrow_mut().remove(r_index);
+            *old_attr.parent.borrow_mut() = Weak::new();
             (*rc_node).attributes.borrow_mut().insert(r_index, Rc::clone(&attr_node));
         } else {
             (*rc_node).attributes.borrow_mut().push(Rc::clone(&attr_node));
@@ -885,7 +886,8 @@ impl NodePtr {
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let old_attr = (*rc_node).attributes.borrow_mut().remove(r_index);
+            *old_attr.parent.borrow_mut() = Weak::new();
         }
         self.clear_document_order();
     }
-- 
2.43.0


From ffc3b58e7518687cf81bf38bc4bb73bad81c4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 14/95] fix: renumber document order in a subtree that was
 changed and then detached

---
 src/dom.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 3c0108b..dd90d77 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -906,9 +906,14 @@ impl NodePtr {
 
     // -----------------------------------------------------------------
     //
+    // 後に部分木が切り離されても番号を付け直せるよう、祖先すべてを未設定とする。
+    //
     fn clear_document_order(&self) {
-        let root = self.root();
-        root.unwrap_rc().order.set(0);
+        let mut curr = Some(self.rc_clone());
+        while let Some(node) = curr {
+            node.rc_node.order.set(0);
+            curr = node.parent();
+        }
     }
 
     // =================================================================
-- 
2.43.0


From 1c27d7ecee8ff5dd62a7eb074ef0080624cf8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 15/95] fix: report a syntax error, not a panic, for a missing
 operand

---
 src/xpath_impl/eval.rs   | 14 ++++++++---
 src/xpath_impl/lexer.rs  |  2 +-
 src/xpath_impl/parser.rs | 52 ++++++++++++++++++++++++++++------------
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..38d8435 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -183,7 +183,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                     eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
     if is_nil_xnode(xnode) {
-        panic!("Can't occur: evaluate_xnode, xnode is nil");
+        return Err(cant_occur!("evaluate_xnode: xnode is nil"));
     }
 
     let xnode_type = get_xnode_type(&xnode);
@@ -1457,7 +1457,11 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     // -----------------------------------------------------------------
     // インライン函数を実行する。
     //
-    let value = evaluate_xnode(context_xseq, &func_body_xnode, eval_env)?;
+    let value = if is_nil_xnode(&func_body_xnode) {
+            new_xsequence()
+        } else {
+            evaluate_xnode(context_xseq, &func_body_xnode, eval_env)?
+        };
 
     // -----------------------------------------------------------------
     // 変数 (仮引数) を削除する。
@@ -2450,7 +2454,11 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
             // 配列の実体を取り出す。
             //
             let array_entry_xnode = get_left(&xnode);
-            let val_xseq = evaluate_xnode(context_xseq, &array_entry_xnode, eval_env)?;
+            let val_xseq = if is_nil_xnode(&array_entry_xnode) {
+                    new_xsequence()
+                } else {
+                    evaluate_xnode(context_xseq, &array_entry_xnode, eval_env)?
+                };
             let mut vec_item: Vec<XSequence> = vec!{};
             for item in val_xseq.iter() {
                 vec_item.push(new_singleton(item));
diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index c37ca3d..5cde5b7 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -488,7 +488,7 @@ impl Lexer {
             ( "cast",     "as", TType::CastAs ),
         ];
         let mut i = 1;
-        while self.tokens[i+1].t_type != TType::EOF {
+        while i + 1 < self.tokens.len() {
             if self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 71ad020..1edea94 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -293,6 +293,7 @@ pub fn compile_xpath(xpath: &String) -> Result<XNodePtr, Box<Error>> {
 //
 fn parse_main(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 式が必要。");
 
     error_if_not_ttype!(lex, TType::EOF, "{}: 余分な字句が継続。");
 
@@ -796,6 +797,7 @@ fn parse_predicate(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 述語には式が必要。");
 
     error_if_not_ttype!(lex, TType::RightBracket, "{}: 述語を閉じる「]」が必要。");
     lex.get_token();
@@ -864,9 +866,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = for_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_for_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -881,6 +881,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(for_expr_xnode);
@@ -917,9 +918,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = let_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_let_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -934,6 +933,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(let_expr_xnode);
@@ -964,6 +964,7 @@ fn parse_simple_let_binding(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(XNodeType::LetVarBind, &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1006,9 +1007,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = quantified_expr_xnode.clone();
     loop {
         let xnode_var_bind = parse_simple_binding(lex, &xnode_ttype)?;
-        if is_nil_xnode(&xnode_var_bind) {
-            break;
-        }
+        error_if_nil!(lex, xnode_var_bind, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &xnode_var_bind);
         curr_xnode = get_right(&curr_xnode);
 
@@ -1023,6 +1022,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(quantified_expr_xnode);
@@ -1054,6 +1054,7 @@ fn parse_simple_binding(lex: &mut Lexer, xnode_type: &XNodeType) -> Result<XNode
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(xnode_type.clone(), &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1245,6 +1246,7 @@ fn parse_instanceof_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_treat_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::InstanceOf {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺がない。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1268,6 +1270,7 @@ fn parse_treat_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_castable_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::TreatAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺がない。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1408,6 +1411,7 @@ pub fn parse_function_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let sequence_type_xnode = parse_sequence_type(lex)?;
+    error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
     let return_type_xnode = new_xnode(XNodeType::ReturnType, "");
     assign_as_left(&return_type_xnode, &sequence_type_xnode);
     assign_as_right(&return_type_xnode, &sequence_type_list_xnode);
@@ -1427,6 +1431,7 @@ fn parse_sequence_type_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
         let param_xnode = new_xnode(XNodeType::Param, "");
         assign_as_left(&param_xnode, &sequence_type_xnode);
         assign_as_right(&curr, &param_xnode);
@@ -1481,6 +1486,7 @@ fn parse_map_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
 
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
         assign_as_right(&xnode, &sequence_type_xnode);
 
     }
@@ -1519,6 +1525,7 @@ fn parse_array_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         assign_as_left(&sequence_type_xnode, &item_test_xnode);
     } else {
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
         assign_as_left(&xnode, &sequence_type_xnode);
     }
 
@@ -1536,6 +1543,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     lex.get_token();
 
     let xnode = parse_item_type(lex)?;
+    error_if_nil!(lex, xnode, "{}: 型の指定が必要。");
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
@@ -1558,6 +1566,7 @@ fn parse_castable_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_cast_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastableAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺がない。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1587,6 +1596,7 @@ fn parse_cast_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_arrow_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺がない。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1653,6 +1663,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_unary_expr(lex)?;
     let mut curr_xnode = xnode.clone();
     while lex.next_token().get_type() == TType::Arrow {
+        error_if_nil!(lex, curr_xnode, "{}: 演算子の左辺がない。");
         lex.get_token();
 
         let func_name = parse_static_func_name(lex)?;
@@ -1693,21 +1704,23 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
-// [ 23] UnaryExpr ::= ( "-" | "+" )? ValueExpr
+// [ 23] UnaryExpr ::= ( "-" | "+" )* ValueExpr
 //
 fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     match tok.get_type() {
         TType::Minus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 単項演算子の右辺がない。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
         },
         TType::Plus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 単項演算子の右辺がない。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1747,8 +1760,10 @@ fn parse_bin_op_sub(lex: &mut Lexer,
             Some(t) => t,
             None => break,
         };
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺がない。");
         lex.get_token();
         let next_node = sub_parser(lex)?;
+        error_if_nil!(lex, next_node, "{}: 演算子の右辺がない。");
 
         let xnode_op = new_xnode(n_type.clone(), tok.get_name());
         assign_as_left(&xnode_op, &xnode);
@@ -1807,9 +1822,8 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_left(&op_path_xnode_l, &ds_xnode);
 
             let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode_l, &rel_xnode);
-            }
+            error_if_nil!(lex, rel_xnode, "{}: // の後にはステップが必要。");
+            assign_as_right(&op_path_xnode_l, &rel_xnode);
             return Ok(op_path_xnode_u);
         },
         _ => {
@@ -1847,6 +1861,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Slash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後にはステップが必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
                 assign_as_left(&op_path_xnode, &step_expr_xnode);
                 assign_as_right(&curr_xnode, &op_path_xnode);
@@ -1855,6 +1870,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後にはステップが必要。");
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
@@ -2210,6 +2226,7 @@ fn parse_inline_function_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, xnode, "{}: 型の指定が必要。");
         assign_as_left(&return_type_xnode, &xnode);
     } else {        // 型の省略時は「item()*」
         assign_as_left(&return_type_xnode, &default_sequence_type());
@@ -2236,6 +2253,7 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
+        error_if_nil!(lex, param_xnode, "{}: カンマの後には仮引数が必要。");
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2261,6 +2279,7 @@ fn parse_param(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, seq_type_xnode, "{}: 型の指定が必要。");
         let param_xnode = new_xnode(XNodeType::Param, &param_name);
         assign_as_left(&param_xnode, &seq_type_xnode);
         return Ok(param_xnode);
@@ -2344,6 +2363,7 @@ fn parse_map_constructor_entries(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let entry_xnode = parse_map_constructor_entry(lex)?;
+        error_if_nil!(lex, entry_xnode, "{}: カンマの後にはマップの要素が必要。");
         let entry_list_xnode = new_xnode(XNodeType::MapConstruct, "");
         assign_as_left(&entry_list_xnode, &entry_xnode);
         assign_as_right(&curr_xnode, &entry_list_xnode);
@@ -2448,6 +2468,7 @@ fn parse_expr_in_array(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let expr_xnode = parse_expr_single(lex)?;
+        error_if_nil!(lex, expr_xnode, "{}: カンマの後には式が必要。");
         let entry_xnode = new_xnode(XNodeType::ArrayEntry, "");
         assign_as_left(&entry_xnode, &expr_xnode);
         assign_as_right(&curr_xnode, &entry_xnode);
@@ -2633,6 +2654,7 @@ fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let next_arg_xnode = parse_argument(lex)?;
+        error_if_nil!(lex, next_arg_xnode, "{}: カンマの後には引数が必要。");
         assign_as_right(&curr, &next_arg_xnode);
         curr = next_arg_xnode.clone();
     }
-- 
2.43.0


From aa38babf7eaaf9d3b9fd8190ff3bc120092d8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 16/95] fix: require the keyword itself where
 in/return/satisfies/then/else/as is expected

---
 src/xpath_impl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 1edea94..36692c4 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -224,7 +224,7 @@ macro_rules! error_if_not_ttype {
 //
 macro_rules! error_if_not_name {
     ( $lex: expr, $name: expr, $msg: expr ) => {
-        if $lex.next_token().get_type() != TType::Name &&
+        if $lex.next_token().get_type() != TType::Name ||
            $lex.next_token().get_name() != $name {
             return Err(xpath_syntax_error!($msg,
                 $lex.around_tokens().as_str()));
-- 
2.43.0


From 18ba69685445d782eb400a4dd1a00bc407b3d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 17/95] fix: accept predicates after the abbreviated step ..

---
 src/xpath_impl/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 36692c4..2671bec 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -377,7 +377,11 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-            return Ok(new_xnode(XNodeType::AxisParent, "node()"));
+            let axis_xnode = new_xnode(XNodeType::AxisParent, "node()");
+            let predicates_xnode = parse_predicate_list(
+                    lex, is_xnode_reverse_axis(&XNodeType::AxisParent))?;
+            assign_as_right(&axis_xnode, &predicates_xnode);
+            return Ok(axis_xnode);
         },
         _ => {  // 「空」は「child::」の省略形
             return parse_node_test(lex, &XNodeType::AxisChild);
-- 
2.43.0


From f312e3fe09953b12fd1e052446530a1ebd73db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 18/95] fix: tell operator words from names after a wildcard
 and after $ := => || ! {

---
 src/xpath_impl/lexer.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 5cde5b7..a4d68db 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -443,6 +443,14 @@ impl Lexer {
             TType::NodeAfter,       // (註2)
             TType::Asterisk,
             TType::Colon,           // (註1)
+            TType::Dollar,
+            TType::Bind,
+            TType::Arrow,
+            TType::OperatorConcat,
+            TType::OperatorMap,
+            TType::AsteriskColon,
+            TType::LeftCurly,
+            TType::Question,
         ];
 
         let operator_words: HashMap<&str, TType> = [
@@ -464,14 +472,22 @@ impl Lexer {
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
 
+        // 「*」は、乗算演算子でなくワイルドカードである場合、オペランドなので、
+        // 後に続く "except" などの名前は演算子である。
+        //
+        let mut expects_operand = true;
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
-            if ! prev_t_types.contains(&self.tokens[i-1].t_type) &&
+            if ! expects_operand &&
                self.tokens[i].t_type == TType::InnerName {
                 if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
                     self.tokens[i].t_type = op_type.clone();
                 }
             }
+            let is_wildcard = expects_operand &&
+                              self.tokens[i].t_type == TType::Asterisk;
+            expects_operand = ! is_wildcard &&
+                              prev_t_types.contains(&self.tokens[i].t_type);
             i += 1;
         }
     }
-- 
2.43.0


From 00d3b38e7e7a00eb31b96d845aab01314f35f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 19/95] fix: tell operator words from names after an occurrence
 indicator

---
 src/xpath_impl/lexer.rs  | 59 ++++++++++++++++++++++++++--------------
 src/xpath_impl/parser.rs |  2 ++
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index a4d68db..8928e35 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -226,6 +226,18 @@ impl Lexer {
         return s;
     }
 
+    // -----------------------------------------------------------------
+    // 型の出現標識「?」「*」「+」の直後にある名前は、演算子と見なす。
+    //
+    pub fn rewrite_after_occurrence_indicator(&mut self) {
+        let i = self.index;
+        if self.tokens[i].t_type == TType::Name {
+            if let Some(op_type) = operator_word_type(&self.tokens[i].name) {
+                self.tokens[i].t_type = op_type;
+            }
+        }
+    }
+
     // -----------------------------------------------------------------
     //
     fn push_token(&mut self, ttype: TType, name: &str) {
@@ -453,24 +465,6 @@ impl Lexer {
             TType::Question,
         ];
 
-        let operator_words: HashMap<&str, TType> = [
-            ( "and",       TType::And ),
-            ( "or",        TType::Or ),
-            ( "div",       TType::Div ),
-            ( "mod",       TType::Mod ),
-            ( "idiv",      TType::IDiv ),           // (註2)
-            ( "eq",        TType::ValueEQ ),        // (註2)
-            ( "ne",        TType::ValueNE ),        // (註2)
-            ( "lt",        TType::ValueLT ),        // (註2)
-            ( "le",        TType::ValueLE ),        // (註2)
-            ( "gt",        TType::ValueGT ),        // (註2)
-            ( "ge",        TType::ValueGE ),        // (註2)
-            ( "is",        TType::IsSameNode ),     // (註2)
-            ( "to",        TType::To ),             // (註2)
-            ( "union",     TType::Union ),          // (註2)
-            ( "intersect", TType::Intersect ),      // (註2)
-            ( "except",    TType::Except ),         // (註2)
-        ].iter().cloned().collect();
 
         // 「*」は、乗算演算子でなくワイルドカードである場合、オペランドなので、
         // 後に続く "except" などの名前は演算子である。
@@ -480,8 +474,8 @@ impl Lexer {
         while self.tokens[i].t_type != TType::EOF {
             if ! expects_operand &&
                self.tokens[i].t_type == TType::InnerName {
-                if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
-                    self.tokens[i].t_type = op_type.clone();
+                if let Some(op_type) = operator_word_type(&self.tokens[i].name) {
+                    self.tokens[i].t_type = op_type;
                 }
             }
             let is_wildcard = expects_operand &&
@@ -840,6 +834,31 @@ impl Lexer {
     }
 }
 
+// =====================================================================
+// 演算子を表す名前であれば、そのトークン種を返す。
+//
+fn operator_word_type(name: &str) -> Option<TType> {
+    let operator_words: HashMap<&str, TType> = [
+        ( "and",       TType::And ),
+        ( "or",        TType::Or ),
+        ( "div",       TType::Div ),
+        ( "mod",       TType::Mod ),
+        ( "idiv",      TType::IDiv ),           // (註2)
+        ( "eq",        TType::ValueEQ ),        // (註2)
+        ( "ne",        TType::ValueNE ),        // (註2)
+        ( "lt",        TType::ValueLT ),        // (註2)
+        ( "le",        TType::ValueLE ),        // (註2)
+        ( "gt",        TType::ValueGT ),        // (註2)
+        ( "ge",        TType::ValueGE ),        // (註2)
+        ( "is",        TType::IsSameNode ),     // (註2)
+        ( "to",        TType::To ),             // (註2)
+        ( "union",     TType::Union ),          // (註2)
+        ( "intersect", TType::Intersect ),      // (註2)
+        ( "except",    TType::Except ),         // (註2)
+    ].iter().cloned().collect();
+    return operator_words.get(name).cloned();
+}
+
 // =====================================================================
 // 空白
 //
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 2671bec..7f6a34d 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1320,6 +1320,7 @@ fn parse_sequence_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Question | TType::Asterisk | TType::Plus => {
                 lex.get_token();
                 occurence_indicator = tok.get_name();
+                lex.rewrite_after_occurrence_indicator();
             },
             _ => {},
         }
@@ -1629,6 +1630,7 @@ fn parse_single_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         if tok.get_type() == TType::Question {
             lex.get_token();
             eqname += tok.get_name();
+            lex.rewrite_after_occurrence_indicator();
         }
         let single_type_xnode = new_xnode(XNodeType::SingleType, "");
         let atomic_type_xnode = new_xnode(XNodeType::TypeName, &eqname);
-- 
2.43.0


From b3570d61e7f2705f3e13f51989d845ca0d9e476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 20/95] fix: reject a double literal without exponent digits

---
 src/xpath_impl/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 8928e35..52a5bde 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -647,8 +647,8 @@ impl Lexer {
                 numeric_literal.push_str(&self.fetch_numeric_after_period()?);
             } else {
                 self.unread_rune();
+                numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             }
-            numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             return Ok(numeric_literal);
         } else if ch1 == '.' {
             self.unread_rune();
@@ -695,7 +695,12 @@ impl Lexer {
                 return Err(xpath_syntax_error!(
                         "指数を表す [eE] の後には数字が必要。"));
             }
-            numeric_after_e.push_str(&self.fetch_digits());
+            let digits = self.fetch_digits();
+            if digits == "" {
+                return Err(xpath_syntax_error!(
+                        "指数を表す [eE] の後には数字が必要。"));
+            }
+            numeric_after_e.push_str(&digits);
         } else {
             self.unread_rune();
         }
-- 
2.43.0


From 34ef40ea141f359dc961a942257294503703861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 21/95] fix: the wildcard *:name matches by local name

---
 src/xpath_impl/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 38d8435..fb3dbce 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1084,7 +1084,7 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
     }
 
     // -------------------------------------------------------------
-    // 「na:*」との照合にもとづく判定
+    // 「na:*」または「*:na」との照合にもとづく判定
     //
     let v: Vec<&str> = name_test_pattern.splitn(2, ":").collect();
     if v.len() == 2 && v[1] == "*" {
@@ -1092,6 +1092,11 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
             return true;
         }
     }
+    if v.len() == 2 && v[0] == "*" {
+        if node.local_name() == v[1] {
+            return true;
+        }
+    }
 
     return false;
 }
-- 
2.43.0


From 9369ce6318c7acfffa1c1dac9a2422435956a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 22/95] fix: a variable of some/every goes out of scope when
 the quantifier is decided early

---
 src/xpath_impl/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index fb3dbce..1861295 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -593,10 +593,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == true {
                     return Ok(new_singleton_boolean(true));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(false));
         },
@@ -611,10 +611,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == false {
                     return Ok(new_singleton_boolean(false));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(true));
         },
-- 
2.43.0


From 6c0198a950069be50eb248696ba55a8d50503b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 23/95] fix: a reference to an undefined variable is an error

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 1861295..ef4acdf 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -750,7 +750,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             if let Some(xseq) = eval_env.get_var(var_name.as_str()) {
                 return Ok(xseq);
             } else {
-                return Ok(new_xsequence());
+                return Err(dynamic_error!("Variable ${} is not defined.", var_name));
             }
         },
 
-- 
2.43.0


From 0e48b1e12cfda545257d6a7cba51a228101d6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 24/95] fix: calling an inline function with the wrong number
 of arguments is a type error

---
 src/xpath_impl/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ef4acdf..8a462c5 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1450,6 +1450,11 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     // -----------------------------------------------------------------
     // 実引数の値を変数 (仮引数) に束縛する。
     //
+    if argument_xseq.len() != param_names.len() {
+        return Err(type_error!(
+                "インライン函数: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+    }
     for (i, val) in argument_xseq.iter().enumerate() {
         if match_sequence_type(&val, &sequence_types[i])? == false {
             return Err(type_error!(
-- 
2.43.0


From c46af49485b5eb16bdf461dea6159e663115343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 25/95] fix: calling a map or an array with other than one
 argument is a type error

---
 src/xpath_impl/eval.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 8a462c5..a4705b5 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1394,6 +1394,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // マップ
     //
     if let Ok(map_item) = curr_xseq.get_singleton_map() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!("マップ: 引数の個数が合致しない: {}。",
+                    argument_xseq.len()));
+        }
         let key = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
@@ -1407,6 +1411,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // 配列
     //
     if let Ok(array_item) = curr_xseq.get_singleton_array() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!("配列: 引数の個数が合致しない: {}。",
+                    argument_xseq.len()));
+        }
         let index_item = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = array_item.array_get(&index_item) {
             return Ok(v);
-- 
2.43.0


From e8c43989da9b5c1afbff6e9bf0dd77343b98b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 26/95] fix: named function references and partial calls can be
 called

---
 src/xpath_impl/eval.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a4705b5..89d5e93 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1378,16 +1378,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     }
 
     // -----------------------------------------------------------------
-    // インライン函数
+    // インライン函数、名前付き函数参照、部分函数
     //
-    if let Ok(inline_func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        match get_xnode_type(&inline_func_xnode) {
-            XNodeType::InlineFunction => {
-                return call_inline_func(&inline_func_xnode,
-                            argument_xseq, xseq, eval_env);
-            },
-            _ => {}
-        }
+    if let Ok(func_xnode) = curr_xseq.get_singleton_xnodeptr() {
+        return call_function(&func_xnode, argument_xseq, xseq, eval_env);
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 063b49acc941bce62e87354a12572c2cc06a5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 27/95] fix: too many arguments for a partial call are an error

---
 src/xpath_impl/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 89d5e93..301f93c 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1560,6 +1560,9 @@ fn call_partial_func(func_xnode: &XNodePtr,
         }
         curr_xnode = get_right(&curr_xnode);
     }
+    if i < argument_xseq.len() {
+        return Err(dynamic_error!("函数呼び出しの「?」に渡すべき引数が余る。"));
+    }
 
     return evaluate_function(&get_xnode_name(&func_xnode),
             &mut args_array, context_xseq, eval_env);
-- 
2.43.0


From aade664ba2059629c1d02aad41366aaa2cc08c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 28/95] fix: calling a map with a key it does not have gives
 the empty sequence, as map:get does

---
 src/xpath_impl/eval.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 301f93c..4cbec97 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1396,8 +1396,7 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
         } else {
-            return Err(dynamic_error!(
-                    "map_lookup: key = {}: 値が見つからない。", key));
+            return Ok(new_xsequence());
         }
     }
 
-- 
2.43.0


From 1b26d065e58ab4a38cc2310c9ae2f93ea5070283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 29/95] fix: a predicate keeps an item by its effective boolean
 value or by a number of any type

---
 src/xpath_impl/eval.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 4cbec97..7c0d785 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1310,19 +1310,14 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
-        match val.get_singleton_item() {
-            Ok(XItem::XIInteger{value}) => {
-                do_push = value == usize_to_i64(position);
-            },
-            Ok(XItem::XINode{value: _}) => {
-                do_push = true;
-            },
-            Ok(XItem::XIBoolean{value}) => {
-                do_push = value;
-            },
-            _ => {},
-        }
+        // 数値のシングルトンならば文脈位置と比較し、
+        // それ以外であれば実効ブール値による。
+        let do_push = match val.get_singleton_item() {
+            Ok(XItem::XIInteger{value}) => value == usize_to_i64(position),
+            Ok(XItem::XIDecimal{value}) |
+            Ok(XItem::XIDouble{value}) => value == position as f64,
+            _ => val.effective_boolean_value()?,
+        };
         if do_push {
             result.push(&xitem.clone());
         }
-- 
2.43.0


From 6ebdc5cdc6cf602483e6913e4375f1b5c8838511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 30/95] fix: evaluate path steps from left to right so that
 every step starts from ordered distinct nodes

---
 src/xpath_impl/eval.rs   | 16 ++++++++++++++++
 src/xpath_impl/parser.rs |  6 +++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7c0d785..530e9a9 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -190,6 +190,22 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
     match xnode_type {
 
         XNodeType::OperatorPath => {
+            // ---------------------------------------------------------
+            // (0) 構文木は a / (b / c) の形になっているが、
+            //     左結合であるから (a / b) / c として評価する。
+            //
+            let rest_xnode = get_right(xnode);
+            if ! is_nil_xnode(&rest_xnode) &&
+               get_xnode_type(&rest_xnode) == XNodeType::OperatorPath {
+                let lower_xnode = new_xnode(XNodeType::OperatorPath, "");
+                assign_as_left(&lower_xnode, &get_left(xnode));
+                assign_as_right(&lower_xnode, &get_left(&rest_xnode));
+                let upper_xnode = new_xnode(XNodeType::OperatorPath, "");
+                assign_as_left(&upper_xnode, &lower_xnode);
+                assign_as_right(&upper_xnode, &get_right(&rest_xnode));
+                return evaluate_xnode(xseq, &upper_xnode, eval_env);
+            }
+
             // ---------------------------------------------------------
             // (1) 左辺値を評価する。
             //     ノードのみのシーケンスでなければエラー (空シーケンスは可)。
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 7f6a34d..ec42c33 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2842,7 +2842,7 @@ fn parse_wildcard(lex: &mut Lexer) -> Result<String, Box<Error>> {
 
 // ---------------------------------------------------------------------
 //
-fn new_xnode(n_type: XNodeType, name: &str) -> XNodePtr {
+pub fn new_xnode(n_type: XNodeType, name: &str) -> XNodePtr {
     return XNodePtr{
         xnode_ptr: Rc::new(RefCell::new(XNode{
             n_type: n_type,
@@ -2861,7 +2861,7 @@ fn new_nil_xnode() -> XNodePtr {
 
 // ---------------------------------------------------------------------
 //
-fn assign_as_left(parent: &XNodePtr, left: &XNodePtr) {
+pub fn assign_as_left(parent: &XNodePtr, left: &XNodePtr) {
     if ! is_nil_xnode(left) {
         parent.xnode_ptr.borrow_mut().left =
                 Some(XNodePtr{xnode_ptr: Rc::clone(&left.xnode_ptr)});
@@ -2870,7 +2870,7 @@ fn assign_as_left(parent: &XNodePtr, left: &XNodePtr) {
 
 // ---------------------------------------------------------------------
 //
-fn assign_as_right(parent: &XNodePtr, right: &XNodePtr) {
+pub fn assign_as_right(parent: &XNodePtr, right: &XNodePtr) {
     if ! is_nil_xnode(right) {
         parent.xnode_ptr.borrow_mut().right =
                 Some(XNodePtr{xnode_ptr: Rc::clone(&right.xnode_ptr)});
-- 
2.43.0


From a762a48c3c01eafaa77a2e056a5b16de14adbe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 31/95] fix: position() and last() on the right of / and !
 refer to the items on the left

---
 src/xpath_impl/eval.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 530e9a9..b97cfaa 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -240,9 +240,13 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let mut atom_exists = false;
             let mut result_seq = new_xsequence();
 
-            for item in lhs.iter() {
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(lhs.len());
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
 
                 if val_seq.is_empty() {
                     continue;
@@ -305,9 +309,13 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             //     整列や重複排除はしない。
             //
             let mut result_seq = new_xsequence();
-            for item in lhs.iter() {
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(lhs.len());
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
                 result_seq.append(&val_seq);
             }
 
-- 
2.43.0


From 41e615e45f1c30b033df059921601f33034523ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 32/95] fix: a node comparison with an empty operand is empty

---
 src/xpath_impl/oper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index b88bf43..731b561 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -183,6 +183,9 @@ pub fn op_node_after(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSeque
 
 fn op_node_compare(args: &Vec<XSequence>, eval_env: &EvalEnv,
                     ordering: Ordering) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let node1 = args[0].get_singleton_node()?;
     let node2 = args[1].get_singleton_node()?;
     let result = eval_env.compare_by_doc_order(&node1, &node2);
-- 
2.43.0


From 5c703122f54b3a672d1578d2c7c2a76512837139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 33/95] fix: a range with an empty bound is empty

---
 src/xpath_impl/oper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 731b561..6ea744e 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -266,6 +266,9 @@ pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 //   (XPath 3.1 では演算子の項に載っていない)
 //
 pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let firstval = args[0].get_singleton_integer()?;
     let lastval = args[1].get_singleton_integer()?;
     let mut seq = new_xsequence();
-- 
2.43.0


From 5b23cb5fb7f32353efcdf740d7f2502d1153ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 34/95] fix: integer arithmetic that overflows is an error
 instead of wrapping or panicking

---
 src/xpath_impl/func.rs  | 16 ++++++++++------
 src/xpath_impl/xitem.rs | 28 +++++++++++++++++++---------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e7e956d..6bcc07d 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -436,7 +436,7 @@ fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a.abs() },
+                |a| { a.checked_abs() },
                 |a| { a.abs() },
                 |a| { a.abs() });
 }
@@ -448,7 +448,7 @@ fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.ceil() },
                 |a| { ceil_x(a) });
 }
@@ -460,7 +460,7 @@ fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.floor() },
                 |a| { floor_x(a) });
 }
@@ -472,7 +472,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { (a + 0.5).floor() },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
@@ -512,13 +512,17 @@ fn round_x(num: f64) -> f64 {
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XSequence, Box<Error>>
-        where FINT: FnMut(i64) -> i64,
+        where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
     if let Ok(arg) = args[0].get_singleton_item() {
         match arg {
             XItem::XIInteger{value: arg} => {
-                return Ok(new_singleton_integer(int_op(arg)));
+                match int_op(arg) {
+                    Some(n) => return Ok(new_singleton_integer(n)),
+                    None => return Err(dynamic_error!(
+                                "Numeric operation overflow/underflow.")),
+                }
             },
             XItem::XIDecimal{value: arg} => {
                 return Ok(new_singleton_decimal(dec_op(arg)));
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 573f0a8..4133e81 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -813,21 +813,21 @@ pub fn xitem_compare(lhs: &XItem, rhs: &XItem) -> Result<i64, Box<Error>> {
 //
 pub fn xitem_numeric_add(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a + b },
+                |a, b| { a.checked_add(b) },
                 |a, b| { a + b },
                 |a, b| { a + b });
 }
 
 pub fn xitem_numeric_subtract(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a - b },
+                |a, b| { a.checked_sub(b) },
                 |a, b| { a - b },
                 |a, b| { a - b });
 }
 
 pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a * b },
+                |a, b| { a.checked_mul(b) },
                 |a, b| { a * b },
                 |a, b| { a * b });
 }
@@ -853,7 +853,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
         _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
-                |a, b| { a / b },
+                |a, b| { a.checked_div(b) },
                 |a, b| { a / b },
                 |a, b| { a / b });
 }
@@ -894,7 +894,7 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => 0,
     };
     if rhs != 0 {
-        return Ok(new_xitem_integer(lhs / rhs));
+        return integer_result(lhs.checked_div(rhs));
     } else {
         return Err(dynamic_error!("Division by zero"));
     }
@@ -918,7 +918,7 @@ pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>>
     }
 
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a.rem(b) },
+                |a, b| { Some(a.wrapping_rem(b)) },
                 |a, b| { a.rem(b) },
                 |a, b| { a.rem(b) });
 }
@@ -938,7 +938,7 @@ pub fn xitem_numeric_unary_plus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
     match arg {
-        XItem::XIInteger{value} => return Ok(new_xitem_integer(value.neg())),
+        XItem::XIInteger{value} => return integer_result(value.checked_neg()),
         XItem::XIDecimal{value} => return Ok(new_xitem_decimal(value.neg())),
         XItem::XIDouble{value} => return Ok(new_xitem_double(value.neg())),
         _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
@@ -947,11 +947,21 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
                         // 負のゼロにならないことに註意。
 }
 
+// ---------------------------------------------------------------------
+// 整数演算の結果。i64の範囲に収まらなければ (None) エラーとする。
+//
+fn integer_result(value: Option<i64>) -> Result<XItem, Box<Error>> {
+    match value {
+        Some(n) => return Ok(new_xitem_integer(n)),
+        None => return Err(dynamic_error!("Numeric operation overflow/underflow.")),
+    }
+}
+
 // ---------------------------------------------------------------------
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XItem, Box<Error>>
-        where FINT: FnMut(i64, i64) -> i64,
+        where FINT: FnMut(i64, i64) -> Option<i64>,
               FDEC: FnMut(f64, f64) -> f64,
               FDBL: FnMut(f64, f64) -> f64 {
 
@@ -959,7 +969,7 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIInteger{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_integer(int_op(*lhs, *rhs)));
+                    return integer_result(int_op(*lhs, *rhs));
                 },
                 XItem::XIDecimal{value: rhs} => {
                     return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
-- 
2.43.0


From b9c6ec87455de13cc2d2e2cf0157ee544828497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 35/95] fix: round() of numbers next to a half or beyond 2^52

---
 src/xpath_impl/func.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 6bcc07d..0b4f6bc 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -473,7 +473,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
                 |a| { Some(a) },
-                |a| { (a + 0.5).floor() },
+                |a| { round_half_up(a) },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
                 |a| { round_x(a) });
@@ -504,10 +504,17 @@ fn round_x(num: f64) -> f64 {
        (-0.5 <= num && num < 0.0) {
         return 1.0 / f64::NEG_INFINITY;                 // 負のゼロ
     } else {
-        return (num + 0.5).floor();
+        return round_half_up(num);
     }
 }
 
+// num + 0.5 は、それ自体が丸められることがあるので使わない。
+//
+fn round_half_up(num: f64) -> f64 {
+    let floor = num.floor();
+    return if num - floor >= 0.5 { floor + 1.0 } else { floor };
+}
+
 // ---------------------------------------------------------------------
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
-- 
2.43.0


From 019f4ea76463368567145d7683195302d85adbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 36/95] fix: idiv divides first and truncates the quotient, and
 rejects operands that are not numbers

---
 src/xpath_impl/xitem.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 4133e81..607c5ce 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -881,23 +881,32 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => {},
     }
 
-    let lhs = match lhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    let rhs = match rhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    if rhs != 0 {
-        return integer_result(lhs.checked_div(rhs));
-    } else {
+    // 整数どうしでなければ、実数として割り算した商の小数部分を切り捨てる。
+    //
+    if let XItem::XIInteger{value: lhs} = lhs {
+        if let XItem::XIInteger{value: rhs} = rhs {
+            if *rhs != 0 {
+                return integer_result(lhs.checked_div(*rhs));
+            } else {
+                return Err(dynamic_error!("Division by zero"));
+            }
+        }
+    }
+
+    if ! lhs.is_numeric() || ! rhs.is_numeric() {
+        return Err(type_error!("xitem_numeric_integer_divide: Not numeric"));
+    }
+    let lhs = lhs.get_as_raw_double()?;
+    let rhs = rhs.get_as_raw_double()?;
+    if rhs == 0.0 {
         return Err(dynamic_error!("Division by zero"));
     }
+    let quotient = (lhs / rhs).trunc();
+    if -9223372036854775808.0 <= quotient && quotient < 9223372036854775808.0 {
+        return Ok(new_xitem_integer(f64_to_i64(quotient)));
+    } else {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From dca60efabe70b641f93e9b4994d9ddfd1050b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 37/95] fix: an integer literal out of range is an error
 instead of 0

---
 src/xpath_impl/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index b97cfaa..9d6bc3e 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -694,7 +694,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_string(&get_xnode_name(&xnode)));
         },
         XNodeType::IntegerLiteral => {
-            return Ok(new_singleton_integer(atoi(&get_xnode_name(&xnode))));
+            let literal = get_xnode_name(&xnode);
+            match i64::from_str(&literal) {
+                Ok(n) => return Ok(new_singleton_integer(n)),
+                Err(_) => return Err(dynamic_error!(
+                            "Integer literal out of range: {}", literal)),
+            }
         },
         XNodeType::DecimalLiteral => {
             return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
-- 
2.43.0


From dd23e04002a7969a4a1375a9d0f3cc2f8a6b4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 38/95] fix: arithmetic accepts empty operands and nodes

---
 src/xpath_impl/oper.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 6ea744e..8cbbc8c 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -51,13 +51,19 @@ pub fn op_numeric_mod(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 }
 
 pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].get_singleton_item()?;
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
+    let arg = numeric_operand(&args[0])?;
     let result = xitem_numeric_unary_plus(&arg)?;
     return Ok(new_singleton(&result));
 }
 
 pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].get_singleton_item()?;
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
+    let arg = numeric_operand(&args[0])?;
     let result = xitem_numeric_unary_minus(&arg)?;
     return Ok(new_singleton(&result));
 }
@@ -67,12 +73,29 @@ pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Er
 fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
     where F: FnMut(&XItem, &XItem) -> Result<XItem, Box<Error>> {
 
-    let lhs = args[0].get_singleton_item()?;
-    let rhs = args[1].get_singleton_item()?;
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
+    let lhs = numeric_operand(&args[0])?;
+    let rhs = numeric_operand(&args[1])?;
     let result = func_op(&lhs, &rhs)?;
     return Ok(new_singleton(&result));
 }
 
+// ---------------------------------------------------------------------
+// 算術演算のオペランド。
+// ノードは、原子化した値 (xs:untypedAtomic) をxs:doubleにキャストする。
+//
+fn numeric_operand(arg: &XSequence) -> Result<XItem, Box<Error>> {
+    let item = arg.get_singleton_item()?;
+    match item {
+        XItem::XINode{value: _} => {
+            return item.atomize().cast_as("xs:double");
+        },
+        _ => return Ok(item),
+    }
+}
+
 // ---------------------------------------------------------------------
 // 4.3 Comparison Operators on Numeric Values
 //
-- 
2.43.0


From 9697d48fded9f50d4271e0897afedf842f01f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 39/95] fix: casting to a numeric type rejects values that are
 not of that type

---
 src/xpath_impl/xitem.rs | 45 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 607c5ce..fd15290 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -545,6 +545,11 @@ impl XItem {
     //     考えなくてよい。
     //
     pub fn cast_as(&self, type_name: &str) -> Result<XItem, Box<Error>> {
+        if ! self.has_castable_value(type_name) {
+            return Err(type_error!("Item {}: can't cast to {}",
+                                self.to_string(), type_name));
+        }
+
         match type_name {
             "string" | "xs:string" => {
                 if let Ok(s) = self.get_as_raw_string() {
@@ -577,6 +582,46 @@ impl XItem {
                                 self.to_string(), type_name));
     }
 
+    // -----------------------------------------------------------------
+    // 数値型へのキャストについて、値 (文字列の書式や数値の範囲) が
+    // キャスト可能なものか否か。
+    //
+    fn has_castable_value(&self, type_name: &str) -> bool {
+        let s = match self {
+            XItem::XIString{value} => value.trim().to_string(),
+            XItem::XINode{value} => value.string_value().trim().to_string(),
+            XItem::XIDecimal{value} | XItem::XIDouble{value} => {
+                match type_name {
+                    "decimal" | "xs:decimal" => {
+                        return value.is_finite();
+                    },
+                    "integer" | "xs:integer" => {
+                        return -9223372036854775808.0 <= value.trunc() &&
+                               value.trunc() < 9223372036854775808.0;
+                    },
+                    _ => return true,
+                }
+            },
+            _ => return true,
+        };
+
+        let number_chars = |ch: char| {
+            return ch.is_ascii_digit() || ch == '.' || ch == '+' || ch == '-';
+        };
+        match type_name {
+            "double" | "xs:double" => {
+                return s == "INF" || s == "+INF" || s == "-INF" || s == "NaN" ||
+                       (s.chars().all(|ch| number_chars(ch) || ch == 'e' || ch == 'E') &&
+                        f64::from_str(&s).is_ok());
+            },
+            "decimal" | "xs:decimal" => {
+                return s.chars().all(number_chars) && f64::from_str(&s).is_ok();
+            },
+            "integer" | "xs:integer" => return i64::from_str(&s).is_ok(),
+            _ => return true,
+        }
+    }
+
     // -----------------------------------------------------------------
     //
     pub fn get_as_raw_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
-- 
2.43.0


From c3ed604ae55ffb397ccede1b826801e576cd9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 40/95] fix: value comparisons ne, le and ge with an empty
 operand are empty

---
 src/xpath_impl/xsequence.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4005ef6..be01463 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -382,6 +382,9 @@ pub fn value_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_ne(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_eq(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
@@ -394,6 +397,9 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_gt(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
@@ -406,6 +412,9 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_lt(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
-- 
2.43.0


From 934c1c15e4005ac28d9e44637d8a7cd8034b7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 41/95] fix: le and ge are false when an operand is NaN

---
 src/xpath_impl/oper.rs      | 24 ++++++++++++++++++++++++
 src/xpath_impl/xitem.rs     | 14 ++++++++++++++
 src/xpath_impl/xsequence.rs | 22 ++++++++++------------
 3 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 8cbbc8c..5bfef6f 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -113,6 +113,14 @@ pub fn op_numeric_greater_than(args: &Vec<&XSequence>) -> Result<XSequence, Box<
     return op_numeric_comparison(args, xitem_numeric_greater_than);
 }
 
+pub fn op_numeric_less_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    return op_numeric_comparison(args, xitem_numeric_less_equal);
+}
+
+pub fn op_numeric_greater_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    return op_numeric_comparison(args, xitem_numeric_greater_equal);
+}
+
 // ---------------------------------------------------------------------
 //
 fn op_numeric_comparison<F>(args: &Vec<&XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
@@ -156,6 +164,22 @@ pub fn op_boolean_greater_than(args: &Vec<&XSequence>) -> Result<XSequence, Box<
     return Ok(new_singleton_boolean(lhs > rhs));
 }
 
+// ---------------------------------------------------------------------
+//
+pub fn op_boolean_less_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    let lhs = args[0].get_singleton_boolean()?;
+    let rhs = args[1].get_singleton_boolean()?;
+    return Ok(new_singleton_boolean(lhs <= rhs));
+}
+
+// ---------------------------------------------------------------------
+//
+pub fn op_boolean_greater_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    let lhs = args[0].get_singleton_boolean()?;
+    let rhs = args[1].get_singleton_boolean()?;
+    return Ok(new_singleton_boolean(lhs >= rhs));
+}
+
 // ---------------------------------------------------------------------
 // 17.1 Functions that Operate on Maps
 //
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index fd15290..b7f2dd2 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -1090,6 +1090,20 @@ pub fn xitem_numeric_greater_than(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<
             |a, b| { a > b });
 }
 
+pub fn xitem_numeric_less_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
+    return xitem_numeric_comparison(lhs, rhs,
+            |a, b| { a <= b },
+            |a, b| { a <= b },
+            |a, b| { a <= b });
+}
+
+pub fn xitem_numeric_greater_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
+    return xitem_numeric_comparison(lhs, rhs,
+            |a, b| { a >= b },
+            |a, b| { a >= b },
+            |a, b| { a >= b });
+}
+
 // ---------------------------------------------------------------------
 // 数値と数値の比較: 必要に応じ、型を昇格する。
 //
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index be01463..14b37af 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -396,11 +396,10 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_gt(lhs, rhs)?;
-    if result.is_empty() {
-        return Ok(result);
-    }
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { op_numeric_less_equal(arg) },
+            |arg| { arg <= 0 },
+            |arg| { op_boolean_less_equal(arg) });
 }
 
 pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -411,11 +410,10 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_lt(lhs, rhs)?;
-    if result.is_empty() {
-        return Ok(result);
-    }
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { op_numeric_greater_equal(arg) },
+            |arg| { arg >= 0 },
+            |arg| { op_boolean_greater_equal(arg) });
 }
 
 // ---------------------------------------------------------------------
@@ -485,7 +483,7 @@ pub fn general_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_greater_than(s, t)?; return Ok(! b); },
+        |s, t| { xitem_numeric_less_equal(s, t) },
         |arg| { arg <= 0 },
         |s, t| { let b = xitem_boolean_greater_than(s, t)?; return Ok(! b); });
 }
@@ -499,7 +497,7 @@ pub fn general_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_less_than(s, t)?; return Ok(! b); },
+        |s, t| { xitem_numeric_greater_equal(s, t) },
         |arg| { arg >= 0 },
         |s, t| { let b = xitem_boolean_less_than(s, t)?; return Ok(! b); });
 }
-- 
2.43.0


From f4defaa3f71064f508e1ca10a627994f2b46dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 42/95] fix: translate() maps a repeated character by its first
 occurrence

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 0b4f6bc..b4ed206 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -889,6 +889,7 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         for (i, c) in from_runes.iter().enumerate() {
             if ch == c {
                 index = i;
+                break;
             }
         }
         if index != usize::MAX {
-- 
2.43.0


From f4995702df09eacd1f5e797ef0d252c99428e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 43/95] fix: lang() uses the nearest xml:lang, ignores case and
 accepts subtags

---
 src/xpath_impl/func.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index b4ed206..e0b03d8 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1167,22 +1167,24 @@ fn fn_lang_1(args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_lang(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
-        return Ok(new_singleton_string(&""));
+    let mut testlang = String::new();
+    if ! args[0].is_empty() {
+        testlang = args[0].get_singleton_string()?.to_lowercase();
     }
-    let testlang = args[0].get_singleton_string()?;
     let node = args[1].get_singleton_node()?;
 
-    let mut xmllang = String::new();
-    for n in array_ancestor_or_self(&node).iter() {
-                                // array_ancestor_or_self() !!!!!!!!!!!!
+    // 最も内側の要素にあるxml:lang属性を調べる。
+    // 文書順に並んでいるので、逆順に走査する。
+    //
+    let mut result = false;
+    for n in array_ancestor_or_self(&node).iter().rev() {
         if let Some(val) = n.attribute_value("xml:lang") {
-            xmllang = val.to_lowercase();
+            let xmllang = val.to_lowercase();
+            result = xmllang == testlang ||
+                     xmllang.starts_with(&format!("{}-", testlang));
             break;
         }
     }
-    let v: Vec<&str> = xmllang.splitn(2, "-").collect();
-    let result = v[0] == testlang;
 
     return Ok(new_singleton_boolean(result));
 }
-- 
2.43.0


From 455e2aab533b1560c34c8723b49b6e87d5c8a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 44/95] fix: index-of() skips items that cannot be compared

---
 src/xpath_impl/func.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e0b03d8..051a05e 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1365,10 +1365,14 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let seq_param = args[0];
     let srch_param = args[1];
+    srch_param.get_singleton_item()?;
     let mut result = new_xsequence();
     for (i, v) in seq_param.iter().enumerate() {
-        if value_compare_eq(&new_singleton(v), srch_param)?.get_singleton_boolean()? == true {
-            result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+        // 比較できないアイテムは、一致しないものとして扱う。
+        if let Ok(b) = value_compare_eq(&new_singleton(v), srch_param) {
+            if b.get_singleton_boolean()? == true {
+                result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+            }
         }
     }
     return Ok(result);
-- 
2.43.0


From 60f9bd124e6b2863acbbd8e24fa4955e9c0f726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 45/95] fix: codepoints-to-string() rejects code points that
 are not characters

---
 src/xpath_impl/func.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 051a05e..6edb5e9 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -578,6 +578,9 @@ fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Erro
     let mut v: Vec<u16> = vec!{};
     for item in args[0].iter() {
         let uni = item.get_as_raw_integer()? as u64;
+        if uni == 0 || (0xD800 <= uni && uni < 0xE000) || 0x110000 <= uni {
+            return Err(dynamic_error!("Code point not valid."));
+        }
         if 0x10000 <= uni {                             // 代用対
             let hi = (uni - 0x10000) / 0x0400 + 0xD800;
             let lo = (uni - 0x10000) % 0x0400 + 0xDC00;
-- 
2.43.0


From e5a635dbac54e8ab80e74a80bf9a9c8edd52e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 46/95] fix: number() of more than one item is an error

---
 src/xpath_impl/func.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 6edb5e9..d244eb2 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -557,10 +557,7 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let mut result = 0.0;
-    if let Ok(arg) = args[0].get_singleton_item() {
-        result = arg.get_as_raw_double()?;
-    }
+    let result = args[0].get_singleton_item()?.get_as_raw_double()?;
     return Ok(new_singleton_double(result));
 }
 
-- 
2.43.0


From 1f1ff019459446a804b24d36f49273480a8f34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 47/95] fix: abs, ceiling, floor and round accept nodes and
 reject other arguments that are not numbers

---
 src/xpath_impl/func.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index d244eb2..61aea2a 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -522,7 +522,11 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
-    if let Ok(arg) = args[0].get_singleton_item() {
+    if ! args[0].is_empty() {
+        let mut arg = args[0].get_singleton_item()?;
+        if let XItem::XINode{value: _} = arg {
+            arg = arg.atomize().cast_as("xs:double")?;
+        }
         match arg {
             XItem::XIInteger{value: arg} => {
                 match int_op(arg) {
@@ -537,7 +541,7 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
             XItem::XIDouble{value: arg} => {
                 return Ok(new_singleton_double(dbl_op(arg)));
             },
-            _ => {},
+            _ => return Err(type_error!("Item is not numeric: {}", arg.to_string())),
         }
     }
     return Ok(new_xsequence());
-- 
2.43.0


From 818e32baa1521b6596103ab023e83dfc8ababeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 48/95] fix: functions that take strings accept nodes

---
 src/xpath_impl/xsequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 14b37af..ee234de 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -166,9 +166,10 @@ impl XSequence {
 
     // -----------------------------------------------------------------
     // シングルトンかつ文字列であれば、その文字列を返す。
+    // ノードは原子化する。
     //
     pub fn get_singleton_string(&self) -> Result<String, Box<Error>> {
-        let item = self.get_singleton_item()?;
+        let item = self.get_singleton_item()?.atomize();
         match item {
             XItem::XIString{value} => return Ok(value),
             _ => {},
-- 
2.43.0


From 345e99fc3e2d99b18a55d131267c136dd8c64aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 49/95] fix: functions and operators that take integers accept
 nodes

---
 src/xpath_impl/xsequence.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index ee234de..96b1c8e 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -180,9 +180,13 @@ impl XSequence {
 
     // -----------------------------------------------------------------
     // シングルトンかつ整数であれば、その整数を返す。
+    // ノードは原子化した値を整数にキャストする。
     //
     pub fn get_singleton_integer(&self) -> Result<i64, Box<Error>> {
-        let item = self.get_singleton_item()?;
+        let mut item = self.get_singleton_item()?;
+        if let XItem::XINode{value: _} = item {
+            item = item.atomize().cast_as("xs:integer")?;
+        }
         match item {
             XItem::XIInteger{value} => return Ok(value),
             _ => {},
-- 
2.43.0


From 374a8a64db57cad86c500c0f9dfdb0b4ef3e97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 50/95] fix: max() and min() compare nodes as numbers and give
 NaN if there is one

---
 src/xpath_impl/func.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 61aea2a..bd271b2 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1462,10 +1462,11 @@ fn fn_max(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         return Ok(new_xsequence());
     }
 
-    let mut max_item = args[0].get_item(0).clone();
-    for item in args[0].iter() {
+    let items = max_min_operands(args[0])?;
+    let mut max_item = items.get_item(0).clone();
+    for item in items.iter() {
         let b = value_compare_lt(&new_singleton(&max_item), &new_singleton(item))?;
-        if b.effective_boolean_value()? == true {
+        if b.effective_boolean_value()? == true || is_nan_item(item) {
             max_item = item.clone();
         }
     }
@@ -1483,10 +1484,11 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         return Ok(new_xsequence());
     }
 
-    let mut max_item = args[0].get_item(0).clone();
-    for item in args[0].iter() {
+    let items = max_min_operands(args[0])?;
+    let mut max_item = items.get_item(0).clone();
+    for item in items.iter() {
         let b = value_compare_gt(&new_singleton(&max_item), &new_singleton(item))?;
-        if b.effective_boolean_value()? == true {
+        if b.effective_boolean_value()? == true || is_nan_item(item) {
             max_item = item.clone();
         }
     }
@@ -1494,6 +1496,34 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return Ok(new_singleton(&max_item));
 }
 
+// ---------------------------------------------------------------------
+// fn:max、fn:minの対象とする値。
+// ノードは、原子化した値 (xs:untypedAtomic) をxs:doubleにキャストする。
+//
+fn max_min_operands(arg: &XSequence) -> Result<XSequence, Box<Error>> {
+    let mut result = new_xsequence();
+    for item in arg.iter() {
+        match item {
+            XItem::XINode{value: _} => {
+                result.push(&item.atomize().cast_as("xs:double")?);
+            },
+            _ => {
+                result.push(item);
+            },
+        }
+    }
+    return Ok(result);
+}
+
+// NaNが含まれていれば、最大値・最小値はNaNである。
+//
+fn is_nan_item(item: &XItem) -> bool {
+    match item {
+        XItem::XIDouble{value} => return value.is_nan(),
+        _ => return false,
+    }
+}
+
 // ---------------------------------------------------------------------
 // 14.4.5 fn:sum
 // fn:sum($arg as xs:anyAtomicType*) as xs:anyAtomicType
-- 
2.43.0


From d0b08509a51a582615c58caacfa0cb59a8cbf43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 51/95] fix: a function is an item

---
 src/xpath_impl/xitem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index b7f2dd2..428c0e1 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -482,7 +482,7 @@ impl XItem {
     //
     pub fn is_item(&self) -> bool {
         match self {
-            XItem::XItemXNodePtr{value: _} => return false,
+            XItem::XItemXNodePtr{value: _} => return true,
             _ => return true,
         }
     }
-- 
2.43.0


From b824b5ae336981a4d6cfc4f5dfa6567cdaf61d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 52/95] fix: the string value of an element or document
 consists of its text only

---
 src/xpath_impl/xitem.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 428c0e1..27466f3 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -297,16 +297,19 @@ impl NodePtr {
             NodeType::DocumentRoot | NodeType::Element => {
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.string_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => {
+                            s += &ch.string_value();
+                        },
+                        _ => {},
+                    }
                 }
                 return s;
             },
-            NodeType::Text | NodeType::Attribute | NodeType::Comment => {
+            NodeType::Text | NodeType::Attribute |
+            NodeType::Comment | NodeType::Instruction => {
                 return format!("{}", self.value());
             },
-            NodeType::XMLDecl | NodeType::Instruction => {
-                return format!("{} {}", self.name(), self.value());
-            },
             _ => return String::new(),
         }
     }
@@ -343,7 +346,12 @@ impl NodePtr {
             NodeType::DocumentRoot => {             // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => {
+                            s += &ch.typed_value();
+                        },
+                        _ => {},
+                    }
                 }
                 return s;
             },
@@ -351,7 +359,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::Instruction => {              // xs:string
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             NodeType::Attribute => {                // xs:untypedAtomic
                 return format!("{}", self.value());
@@ -359,7 +367,12 @@ impl NodePtr {
             NodeType::Element => {                  // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => {
+                            s += &ch.typed_value();
+                        },
+                        _ => {},
+                    }
                 }
                 return s;
             },
-- 
2.43.0


From 3ee367cb19d861913ae7a71e4a584ec576bcf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 53/95] fix: positions far out of range do not overflow in
 substring, subsequence and insert-before

---
 src/xpath_impl/func.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index bd271b2..8c30c54 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1276,7 +1276,7 @@ fn fn_tail(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_insert_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let target = args[0];
-    let mut position = args[1].get_singleton_integer()? - 1;
+    let mut position = args[1].get_singleton_integer()?.saturating_sub(1);
     let inserts = args[2];
     if position <= 0 {
         position = 0;
@@ -1755,7 +1755,7 @@ fn subcollection_index_sub(source_length: usize,
         return (0, 0);
     }
     let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos - 1;                        // 0起点の値に補正
+    let mut b = beg_pos.saturating_sub(1);          // 0起点の値に補正
     if b < 0 {
         b = 0;
     }
@@ -1775,7 +1775,7 @@ fn subcollection_index_sub(source_length: usize,
             } else {
                 round_x(length) as i64                 // 非負の有限値
             };
-        e = beg_pos + len_str - 1;
+        e = beg_pos.saturating_add(len_str).saturating_sub(1);
         if e < b {
             e = b;
         }
-- 
2.43.0


From f7ed99be80ba84a297e4d694197182d091d7c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 54/95] fix: map keys are atomized

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 9d6bc3e..215a439 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2448,7 +2448,7 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 }
 
                 let map_key_xnode = get_left(&map_entry_xnode);
-                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?.atomize();
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
-- 
2.43.0


From 0de01c502c751c6a0812f193d8604a162a7b72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 55/95] fix: a duplicate key in a map constructor is an error

---
 src/xpath_impl/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 215a439..ae7aca0 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2452,6 +2452,9 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
+                if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
+                    return Err(dynamic_error!("map: duplicate key: {}", key));
+                }
                 vec_item.push((key, val));
 
                 curr = get_right(&curr);
-- 
2.43.0


From d3a009a99b3657355bad8a43b8f4fadf1270c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 56/95] fix: a path step yielding both nodes and non-nodes is
 an error

---
 src/xpath_impl/eval.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ae7aca0..94f59fc 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -257,10 +257,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 //       評価値がすべてノードのみのシーケンスか否かを
                 //       調べておく。
                 //
-                if val_seq.is_no_atom() {
-                    node_exists = true;
-                } else {
-                    atom_exists = true;
+                for val_item in val_seq.iter() {
+                    if val_item.as_nodeptr().is_some() {
+                        node_exists = true;
+                    } else {
+                        atom_exists = true;
+                    }
                 }
                 result_seq.append(&val_seq);
 
-- 
2.43.0


From e9dc2acf17cc08e930a1b22cffd019f5b81a3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 57/95] fix: an axis without a node test is a syntax error

---
 src/xpath_impl/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index ec42c33..dfcbd54 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -369,11 +369,15 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     "{}: namespace 軸は未実装。",
                     lex.around_tokens().as_str()));
             }
-            return parse_node_test(lex, axis);
+            let xnode = parse_node_test(lex, axis)?;
+            error_if_nil!(lex, xnode, "{}: :: の後にはノードテストが必要。");
+            return Ok(xnode);
         },
         TType::At => {  // 「@」は「attribute::」の省略形
             lex.get_token();
-            return parse_node_test(lex, &XNodeType::AxisAttribute);
+            let xnode = parse_node_test(lex, &XNodeType::AxisAttribute)?;
+            error_if_nil!(lex, xnode, "{}: @ の後にはノードテストが必要。");
+            return Ok(xnode);
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-- 
2.43.0


From ee2b64b98ed73f416d4c4afe8808e87513924ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 58/95] fix: white space inside a qualified name is not part of
 the name

---
 src/xpath_impl/lexer.rs  | 31 ++++++++++++++++++++++++++-----
 src/xpath_impl/parser.rs |  6 +++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 52a5bde..6688be0 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -127,12 +127,14 @@ pub enum TType {
 pub struct Token {
     t_type: TType,
     name: String,
+    adjacent: bool,             // 直前の字句との間に空白や註釈がない。
 }
 
 fn new_token(t_type: TType, name: &str) -> Token {
     return Token {
         t_type: t_type,
         name: String::from(name),
+        adjacent: false,
     };
 }
 
@@ -226,6 +228,24 @@ impl Lexer {
         return s;
     }
 
+    // -----------------------------------------------------------------
+    // 次に読み出す字句が、QNameの一部としてのコロンであるか否か。
+    // QNameの途中に空白や註釈は置けない。
+    //
+    pub fn next_is_qname_colon(&self) -> bool {
+        return self.tokens[self.index].t_type == TType::Colon &&
+               self.tokens[self.index].adjacent &&
+               self.tokens[self.index + 1].t_type == TType::Name &&
+               self.tokens[self.index + 1].adjacent;
+    }
+
+    // -----------------------------------------------------------------
+    // 次に読み出す字句が、直前の字句に隣接しているか否か。
+    //
+    pub fn next_is_adjacent(&self) -> bool {
+        return self.tokens[self.index].adjacent;
+    }
+
     // -----------------------------------------------------------------
     // 型の出現標識「?」「*」「+」の直後にある名前は、演算子と見なす。
     //
@@ -241,10 +261,7 @@ impl Lexer {
     // -----------------------------------------------------------------
     //
     fn push_token(&mut self, ttype: TType, name: &str) {
-        self.tokens.push(Token{
-            t_type: ttype,
-            name: String::from(name),
-        });
+        self.tokens.push(new_token(ttype, name));
     }
 
     // -----------------------------------------------------------------
@@ -264,15 +281,19 @@ impl Lexer {
         // 先頭と末尾に番兵としてEOFを入れておく。
         //
         lexer.push_token(TType::EOF, "");
+        let mut end_index = 0;      // 直前の字句の末尾
         loop {
             lexer.skip_spaces();
-            let tok = lexer.get_tok()?;
+            let start_index = lexer.ch_index;
+            let mut tok = lexer.get_tok()?;
             if tok.t_type == TType::EOF {
                 break;
             }
             if tok.t_type == TType::Nop {
                 continue;
             }
+            tok.adjacent = start_index == end_index;
+            end_index = lexer.ch_index;
             lexer.tokens.push(tok);
         }
         lexer.push_token(TType::EOF, "");
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index dfcbd54..afc8c22 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2764,7 +2764,7 @@ fn parse_qname(lex: &mut Lexer, default_prefix: &str) -> Result<String, Box<Erro
     lex.get_token();
 
     let tok = lex.next_token();
-    if tok.get_type() != TType::Colon {
+    if ! lex.next_is_qname_colon() {
         if default_prefix != "" {
             return Ok(String::from(default_prefix) + &":" + &qname);
         } else {
@@ -2802,7 +2802,7 @@ fn parse_wildcard(lex: &mut Lexer) -> Result<String, Box<Error>> {
         TType::Name => {
             qname += lex.get_token().get_name();
             match lex.next_token().get_type() {
-                TType::ColonAsterisk => {
+                TType::ColonAsterisk if lex.next_is_adjacent() => {
                     qname += lex.get_token().get_name();
                     return Ok(qname);
                 },
@@ -2814,7 +2814,7 @@ fn parse_wildcard(lex: &mut Lexer) -> Result<String, Box<Error>> {
         TType::AsteriskColon => {
             qname += lex.get_token().get_name();
             match lex.next_token().get_type() {
-                TType::Name => {
+                TType::Name if lex.next_is_adjacent() => {
                     qname += lex.get_token().get_name();
                     return Ok(qname);
                 },
-- 
2.43.0


From 751f8bca0a7149ea6a7d042d23c59e05b3ed3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 59/95] fix: a decimal has no negative zero

---
 src/xpath_impl/xitem.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 27466f3..b7a8845 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -274,7 +274,8 @@ pub fn new_xitem_integer(value: i64) -> XItem {
 }
 
 pub fn new_xitem_decimal(value: f64) -> XItem {
-    return XItem::XIDecimal{value};
+    // 十進数に負のゼロはない (-0.0 + 0.0 => 0.0)。
+    return XItem::XIDecimal{value: value + 0.0};
 }
 
 pub fn new_xitem_double(value: f64) -> XItem {
-- 
2.43.0


From 19a3ac8ec5dd5168091dd14d7031cfb25bfb1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 60/95] fix: substring and subsequence with positions beyond
 the integer range

---
 src/xpath_impl/func.rs | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 8c30c54..3aa0646 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1754,35 +1754,18 @@ fn subcollection_index_sub(source_length: usize,
     if starting_loc.is_nan() || starting_loc.is_infinite() {
         return (0, 0);
     }
-    let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos.saturating_sub(1);          // 0起点の値に補正
-    if b < 0 {
-        b = 0;
-    }
-    if source_length as i64 <= b {
-        b = source_length as i64;
-    }
-
-    let mut e: i64;
-    if length.is_infinite() && length.is_sign_positive() {
-        e = source_length as i64;
-    } else {
-        if length.is_nan() || length.is_sign_negative() {
-            return (0, 0);
-        }
-        let len_str = if length.is_infinite() {
-                source_length as i64
-            } else {
-                round_x(length) as i64                 // 非負の有限値
-            };
-        e = beg_pos.saturating_add(len_str).saturating_sub(1);
-        if e < b {
-            e = b;
-        }
-        if source_length as i64 <= e {
-            e = source_length as i64;
-        }
+    if length.is_nan() || length.is_sign_negative() {
+        return (0, 0);
     }
+    let max_index = source_length as f64;
+    let beg_pos = round_x(starting_loc) - 1.0;      // 0起点の値に補正
+    let end_pos = if length.is_infinite() {
+            max_index
+        } else {
+            beg_pos + round_x(length)
+        };
+    let b = beg_pos.max(0.0).min(max_index);
+    let e = end_pos.max(b).min(max_index);
 
     return (b as usize, e as usize);
 
-- 
2.43.0


From 6f082073bdcb989f62d6769cbd142a57d4b608a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 61/95] fix: for-each and filter accept maps and arrays as the
 function

---
 src/xpath_impl/eval.rs | 12 ++++++++++++
 src/xpath_impl/func.rs | 25 +++++++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 94f59fc..def98f7 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1403,6 +1403,18 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         curr_arg_top = get_right(&curr_arg_top);
     }
 
+    return apply_function(curr_xseq, argument_xseq, xseq, eval_env);
+}
+
+// ---------------------------------------------------------------------
+// 函数 (インライン函数、名前付き函数参照、部分函数、マップ、配列) に
+// 引数を渡して呼び出す。
+//
+pub fn apply_function(curr_xseq: &XSequence,
+                argument_xseq: Vec<XSequence>,
+                xseq: &XSequence,
+                eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+
     // -----------------------------------------------------------------
     // インライン函数、名前付き函数参照、部分函数
     //
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 3aa0646..fe06427 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1595,12 +1595,12 @@ fn fn_last(_args: &Vec<&XSequence>, _xseq: &XSequence,
 fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let action_xnode = args[1].get_singleton_xnodeptr()?;
+    check_function_item(args[1])?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
-        let result_xseq = call_function(
-                &action_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+        let result_xseq = apply_function(
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         result.append(&result_xseq);
     }
     return Ok(result);
@@ -1614,12 +1614,12 @@ fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
 fn fn_filter(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let func_xnode = args[1].get_singleton_xnodeptr()?;
+    check_function_item(args[1])?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
-        let result_xseq = call_function(
-                &func_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+        let result_xseq = apply_function(
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         if result_xseq.effective_boolean_value()? == true {
             result.push(&xitem);
         }
@@ -1737,6 +1737,19 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // =====================================================================
 // 補助函数
 //
+// ---------------------------------------------------------------------
+// 函数 (マップ、配列を含む) であるシングルトンか否かを検査する。
+//
+fn check_function_item(xseq: &XSequence) -> Result<(), Box<Error>> {
+    match xseq.get_singleton_item()? {
+        XItem::XItemXNodePtr{..} |
+        XItem::XIMap{..} |
+        XItem::XIArray{..} => return Ok(()),
+        item => return Err(type_error!(
+                "Item {}: not a function", item.to_string())),
+    }
+}
+
 // ---------------------------------------------------------------------
 // ある長さの順序つき集合 (C; 文字列、シーケンスなど) の部分集合を
 // 取得するために、開始位置 b と終了位置 e を求める。
-- 
2.43.0


From 1024ede2be88d7bc19144e11d6fc4805bfb540b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 62/95] fix: a cast to boolean ignores surrounding white space

---
 src/xpath_impl/xitem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index b7a8845..fd69892 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -806,7 +806,7 @@ impl XItem {
     pub fn get_as_raw_boolean(&self) -> Result<bool, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                match value.string_value().as_str() {
+                match value.string_value().trim() {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
@@ -814,7 +814,7 @@ impl XItem {
             },
             XItem::XIInteger{value} => return Ok(*value != 0),
             XItem::XIString{value} => {
-                match value.as_str() {
+                match value.trim() {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
-- 
2.43.0


From 808bcc395854d8b8487f7025b62b72eed2e3e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 63/95] fix: function items capture their variables and
 arguments when created

---
 src/xpath_impl/eval.rs      | 87 ++++++++++++++++++++++++++++---------
 src/xpath_impl/xitem.rs     | 16 ++++---
 src/xpath_impl/xsequence.rs | 13 +++---
 3 files changed, 85 insertions(+), 31 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index def98f7..4a7f962 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -142,6 +142,27 @@ impl EvalEnv {
         return None;
     }
 
+    // -----------------------------------------------------------------
+    // 変数表全体を取得する。
+    //
+    fn get_all_vars(&self) -> Vec<(String, XSequence)> {
+        return self.var_vec.iter()
+                    .map(|v| (v.name.clone(), v.value.clone()))
+                    .collect();
+    }
+
+    // -----------------------------------------------------------------
+    // 変数表全体を差し替え、旧い変数表を返す。
+    //
+    fn replace_all_vars(&mut self,
+                vars: &Vec<(String, XSequence)>) -> Vec<(String, XSequence)> {
+        let old_vars = self.get_all_vars();
+        self.var_vec = vars.iter()
+                    .map(|v| VarNameValue{ name: v.0.clone(), value: v.1.clone() })
+                    .collect();
+        return old_vars;
+    }
+
     // -----------------------------------------------------------------
     //
     fn set_position(&mut self, position: usize) -> usize {
@@ -710,12 +731,32 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_double(atof(&get_xnode_name(&xnode))));
         },
 
-        XNodeType::InlineFunction |
-        XNodeType::NamedFunctionRef |
-        XNodeType::PartialFunctionCall => {
-            // インライン函数 | 名前付き函数参照:
+        XNodeType::InlineFunction => {
+            // インライン函数:
+            // この時点では評価せず、有効な変数の値とともに
+            // シングルトンとして包んで返す。
+            return Ok(new_singleton_xnodeptr(&xnode, &eval_env.get_all_vars()));
+        },
+
+        XNodeType::NamedFunctionRef => {
+            // 名前付き函数参照:
             // この時点では評価せず、シングルトンとして包んで返す。
-            return Ok(new_singleton_xnodeptr(&xnode));
+            return Ok(new_singleton_xnodeptr(&xnode, &vec!{}));
+        },
+
+        XNodeType::PartialFunctionCall => {
+            // 部分函数呼び出し:
+            // 「?」以外の引数を評価し、シングルトンとして包んで返す。
+            let mut captured: Vec<(String, XSequence)> = vec!{};
+            let mut curr_xnode = get_right(&xnode);
+            while ! is_nil_xnode(&curr_xnode) {
+                if get_xnode_type(&curr_xnode) == XNodeType::ArgumentTop {
+                    let arg = evaluate_xnode(xseq, &get_left(&curr_xnode), eval_env)?;
+                    captured.push((String::new(), arg));
+                }
+                curr_xnode = get_right(&curr_xnode);
+            }
+            return Ok(new_singleton_xnodeptr(&xnode, &captured));
         },
 
         XNodeType::Map |
@@ -1418,8 +1459,8 @@ pub fn apply_function(curr_xseq: &XSequence,
     // -----------------------------------------------------------------
     // インライン函数、名前付き函数参照、部分函数
     //
-    if let Ok(func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        return call_function(&func_xnode, argument_xseq, xseq, eval_env);
+    if let Ok((func_xnode, captured)) = curr_xseq.get_singleton_xnodeptr() {
+        return call_function(&func_xnode, &captured, argument_xseq, xseq, eval_env);
     }
 
     // -----------------------------------------------------------------
@@ -1463,6 +1504,7 @@ pub fn apply_function(curr_xseq: &XSequence,
 // ---------------------------------------------------------------------
 //
 fn call_inline_func(inline_func_xnode: &XNodePtr,
+                captured: &Vec<(String, XSequence)>,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
@@ -1500,6 +1542,9 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
                     "インライン函数: 引数の型が合致していない: {}。",
                     val.to_string()));
         }
+    }
+    let old_vars = eval_env.replace_all_vars(captured);
+    for (i, val) in argument_xseq.iter().enumerate() {
         eval_env.set_var(&param_names[i], &val);
     }
 
@@ -1513,13 +1558,9 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
         };
 
     // -----------------------------------------------------------------
-    // 変数 (仮引数) を削除する。
+    // 呼び出し元の変数表に戻す。
     //
-    let mut i: i64 = (param_names.len() as i64) - 1;
-    while 0 <= i {
-        eval_env.remove_var(&param_names[i as usize]);
-        i -= 1;
-    }
+    eval_env.replace_all_vars(&old_vars);
 
     return Ok(value);
 }
@@ -1551,8 +1592,8 @@ fn call_named_func(func_xnode: &XNodePtr,
 // 静的函数の部分函数呼び出し。
 //
 // func_xnode: 部分函数呼び出しの構文木
-//             引数のうちArgumentTopは、普通の静的函数と同様、
-//             文脈ノードに対してleft以下を評価し、引数として函数に渡す。
+//             引数のうちArgumentTopについては、部分函数の生成時に
+//             評価した値 (captured) を、引数として函数に渡す。
 //             ArgumentPlaceholderである場合はargument_xseq[i]を
 //             引数として函数に渡す。
 //
@@ -1560,17 +1601,19 @@ fn call_named_func(func_xnode: &XNodePtr,
 //    (func_name)               |                  (第2引数)
 //                             ... (第1引数)
 //
+// captured: 長さはArgumentTopの個数と同じ。
+//
 // argument_xseq: 長さはArgumentPlaceholderの個数と同じ。
 //                argument_xseq[i]をArgumentPlaceholder部分の引数として
 //                函数に渡す。
 //
 // context_xseq: 文脈シーケンス。
-//               ArgumentTopである引数は、文脈シーケンスに対して評価する。
-//               関数の評価も文脈シーケンスに対しておこなう。
+//               関数の評価は文脈シーケンスに対しておこなう。
 //
 // eval_env: 評価環境 (変数の値など)。
 //
 fn call_partial_func(func_xnode: &XNodePtr,
+                captured: &Vec<(String, XSequence)>,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
@@ -1578,11 +1621,12 @@ fn call_partial_func(func_xnode: &XNodePtr,
     let mut args_array: Vec<XSequence> = vec!{};
     let mut curr_xnode = get_right(&func_xnode);
     let mut i = 0;
+    let mut j = 0;
     while ! is_nil_xnode(&curr_xnode) {
         match get_xnode_type(&curr_xnode) {
             XNodeType::ArgumentTop => {
-                let arg = evaluate_xnode(context_xseq, &get_left(&curr_xnode), eval_env)?;
-                args_array.push(arg);
+                args_array.push(captured[j].1.clone());
+                j += 1;
             },
             XNodeType::ArgumentPlaceholder => {
                 if i >= argument_xseq.len() {
@@ -1611,19 +1655,20 @@ fn call_partial_func(func_xnode: &XNodePtr,
 // インライン函数、名前付き函数参照、部分函数。
 //
 pub fn call_function(func_xnode: &XNodePtr,
+                captured: &Vec<(String, XSequence)>,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
     match get_xnode_type(&func_xnode) {
         XNodeType::InlineFunction => {
-            return call_inline_func(func_xnode, argument_xseq, context_xseq, eval_env);
+            return call_inline_func(func_xnode, captured, argument_xseq, context_xseq, eval_env);
         },
         XNodeType::NamedFunctionRef => {
             return call_named_func(func_xnode, argument_xseq, context_xseq, eval_env);
         },
         XNodeType::PartialFunctionCall => {
-            return call_partial_func(func_xnode, argument_xseq, context_xseq, eval_env);
+            return call_partial_func(func_xnode, captured, argument_xseq, context_xseq, eval_env);
         },
         _ => {
             return Err(cant_occur!("call_h_function: XNodeType = {:?}",
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index fd69892..9cc662a 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -59,6 +59,10 @@ pub enum XItem {
     XItemXNodePtr {
         value: XNodePtr,
             // (内部処理用) インライン函数をXItemとして扱う。
+        captured: Vec<(String, XSequence)>,
+            // 生成時に確定する値。
+            // インライン函数: その時点で有効な変数の名前と値。
+            // 部分函数: 「?」以外の引数の値 (名前は空文字列)。
     },
     XIMap {
         value: XSeqMap,
@@ -237,9 +241,11 @@ impl XSeqArray {
 
 // =====================================================================
 //
-pub fn new_xitem_xnodeptr(xnode: &XNodePtr) -> XItem {
+pub fn new_xitem_xnodeptr(xnode: &XNodePtr,
+                          captured: &Vec<(String, XSequence)>) -> XItem {
     return XItem::XItemXNodePtr {
         value: xnode.clone(),
+        captured: captured.clone(),
     }
 }
 
@@ -427,7 +433,7 @@ impl fmt::Display for XItem {
                     return write!(f, "false");
                 }
             },
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return write!(f, "{}", value);
             },
             XItem::XIMap{value} => {
@@ -448,7 +454,7 @@ impl XItem {
     //
     pub fn xs_type(&self) -> String {
         match self {
-            XItem::XItemXNodePtr{value: _} => return String::from("function(*)"),
+            XItem::XItemXNodePtr{..} => return String::from("function(*)"),
             XItem::XIMap{value: _} => return String::from("map(*)"),
             XItem::XIArray{value: _} => return String::from("array(*)"),
             XItem::XINode{value: _} => return String::from("node"),
@@ -496,7 +502,7 @@ impl XItem {
     //
     pub fn is_item(&self) -> bool {
         match self {
-            XItem::XItemXNodePtr{value: _} => return true,
+            XItem::XItemXNodePtr{..} => return true,
             _ => return true,
         }
     }
@@ -640,7 +646,7 @@ impl XItem {
     //
     pub fn get_as_raw_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
         match self {
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return Ok(value.clone());
             },
             _ => {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 96b1c8e..f089325 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -47,8 +47,9 @@ pub fn new_xsequence_from_node_array(node_array: &Vec<NodePtr>) -> XSequence {
     return xsequence;
 }
 
-pub fn new_singleton_xnodeptr(xnode: &XNodePtr) -> XSequence {
-    return new_singleton(&new_xitem_xnodeptr(xnode));
+pub fn new_singleton_xnodeptr(xnode: &XNodePtr,
+                              captured: &Vec<(String, XSequence)>) -> XSequence {
+    return new_singleton(&new_xitem_xnodeptr(xnode, captured));
 }
 
 pub fn new_singleton_node(node: &NodePtr) -> XSequence {
@@ -113,12 +114,14 @@ impl XSequence {
     }
 
     // -----------------------------------------------------------------
-    // シングルトンかつXNodePtrであれば、そのノードを返す。
+    // シングルトンかつXNodePtrであれば、そのノードと、
+    // 生成時に確定した値を返す。
     //
-    pub fn get_singleton_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
+    pub fn get_singleton_xnodeptr(&self)
+                -> Result<(XNodePtr, Vec<(String, XSequence)>), Box<Error>> {
         let item = self.get_singleton_item()?;
         match item {
-            XItem::XItemXNodePtr{value} => return Ok(value.clone()),
+            XItem::XItemXNodePtr{value, captured} => return Ok((value, captured)),
             _ => {},
         }
 
-- 
2.43.0


From 23d7f98ab2f08c90990d7f922f6d67d7bd08a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 64/95] fix: the key of a postfix lookup is evaluated in the
 outer context

---
 src/xpath_impl/eval.rs   | 71 ++++++++++++++++++++++++++--------------
 src/xpath_impl/parser.rs |  2 +-
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 4a7f962..71adba7 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -327,6 +327,20 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 return Ok(lhs);
             }
 
+            // ---------------------------------------------------------
+            // (1b) E?(expr) のexprは、Eの各アイテムでなく、
+            //      元の文脈に対して評価する。
+            //
+            if get_xnode_name(xnode) == "?" &&
+               get_xnode_type(&right_xnode) == XNodeType::UnaryLookupByExpr {
+                let keys = evaluate_xnode(xseq, &get_left(&right_xnode), eval_env)?;
+                let mut result_seq = new_xsequence();
+                for item in lhs.iter() {
+                    result_seq.append(&lookup_by_keys(&new_singleton(&item), &keys)?);
+                }
+                return Ok(result_seq);
+            }
+
             // ---------------------------------------------------------
             // (2) lhsの各ノードについて右辺値を評価し、順に合併していく。
             //     整列や重複排除はしない。
@@ -790,31 +804,8 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
-
-            if let Ok(xitem_map) = xseq.get_singleton_map() {
-                let mut result = new_xsequence();
-                for key in expr.iter() {
-                    if let Some(v) = xitem_map.map_get(key) {
-                        result.append(&v);
-                    } else {
-                    }
-                }
-                return Ok(result);
-
-            } else if let Ok(xitem_array) = xseq.get_singleton_array() {
-                let mut result = new_xsequence();
-                for index in expr.iter() {
-                    if let Some(v) = xitem_array.array_get(index) {
-                        result.append(&v);
-                    } else {
-                    }
-                }
-                return Ok(result);
-
-            } else {
-                return Err(type_error!("lookup: マップ/配列でない。"));
-            }
+            let keys = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            return lookup_by_keys(xseq, &keys);
         },
 
         XNodeType::VarRef => {
@@ -1447,6 +1438,36 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     return apply_function(curr_xseq, argument_xseq, xseq, eval_env);
 }
 
+// ---------------------------------------------------------------------
+// マップ/配列から、keysの各々に対応する値を取り出して合併する。
+//
+fn lookup_by_keys(xseq: &XSequence,
+                  keys: &XSequence) -> Result<XSequence, Box<Error>> {
+    if let Ok(xitem_map) = xseq.get_singleton_map() {
+        let mut result = new_xsequence();
+        for key in keys.iter() {
+            if let Some(v) = xitem_map.map_get(key) {
+                result.append(&v);
+            } else {
+            }
+        }
+        return Ok(result);
+
+    } else if let Ok(xitem_array) = xseq.get_singleton_array() {
+        let mut result = new_xsequence();
+        for index in keys.iter() {
+            if let Some(v) = xitem_array.array_get(index) {
+                result.append(&v);
+            } else {
+            }
+        }
+        return Ok(result);
+
+    } else {
+        return Err(type_error!("lookup: マップ/配列でない。"));
+    }
+}
+
 // ---------------------------------------------------------------------
 // 函数 (インライン函数、名前付き函数参照、部分函数、マップ、配列) に
 // 引数を渡して呼び出す。
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index afc8c22..1a44330 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1965,7 +1965,7 @@ fn parse_postfix_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     new_xnode(XNodeType::ApplyArgument, "")
                 },
                 _ => {
-                    new_xnode(XNodeType::OperatorMap, "")
+                    new_xnode(XNodeType::OperatorMap, "?")
                 },
             };
         assign_as_left(&apply_postfix_xnode, &curr_xnode);
-- 
2.43.0


From 183c8331d36f168dd64ad76e8a6f34e4db92b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 65/95] fix: signatures of normalize-space,
 string-to-codepoints, one-or-more, exactly-one

---
 src/xpath_impl/func.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index fe06427..f42fa64 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -42,7 +42,7 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:number#0", "function() as xs:double" ),
     ( "fn:number#1", "function(xs:anyAtomicType?) as xs:double" ),
     ( "fn:codepoints-to-string#1", "function(xs:integer*) as xs:string" ),
-    ( "fn:string-to-codepoints#1", "function(xs:string*) as xs:integer*" ),
+    ( "fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*" ),
     ( "fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?" ),
     ( "fn:compare#3", "function(xs:string?, xs:string?, xs:string) as xs:integer?" ),
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
@@ -54,8 +54,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
     ( "fn:string-length#1", "function(xs:string?) as xs:integer" ),
-    ( "fn:normalize-space#0", "function() as xs:integer" ),
-    ( "fn:normalize-space#1", "function(xs:string?) as xs:integer" ),
+    ( "fn:normalize-space#0", "function() as xs:string" ),
+    ( "fn:normalize-space#1", "function(xs:string?) as xs:string" ),
     ( "fn:upper-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:lower-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string" ),
@@ -95,8 +95,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*" ),
     ( "fn:index-of#3", "function(xs:anyAtomicType*, xs:anyAtomicType, xs:string) as xs:integer*" ),
     ( "fn:zero-or-one#1", "function(item()*) as item()?" ),
-    ( "fn:one-or-more#1", "function(item()*) as item()?" ),
-    ( "fn:exactly-one#1", "function(item()*) as item()?" ),
+    ( "fn:one-or-more#1", "function(item()*) as item()+" ),
+    ( "fn:exactly-one#1", "function(item()*) as item()" ),
     ( "fn:count#1", "function(item()*) as xs:integer" ),
     ( "fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
-- 
2.43.0


From 129968e2e1866378f8984ef85c4188fb5cfe068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 66/95] fix: a map key that is a function, a map or an array is
 an error

---
 src/xpath_impl/eval.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 71adba7..10925ae 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2530,6 +2530,15 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 let map_key_xnode = get_left(&map_entry_xnode);
                 let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?.atomize();
 
+                match key {
+                    XItem::XItemXNodePtr{..} |
+                    XItem::XIMap{..} |
+                    XItem::XIArray{..} => {
+                        return Err(type_error!("map: key is not atomic: {}", key));
+                    },
+                    _ => {},
+                }
+
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
                 if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
-- 
2.43.0


From a94b36397d20bf99abf5bd0988e3a2834e0b3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 67/95] fix: processing-instruction(N) in a function type keeps
 its name

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 10925ae..e5b9365 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2249,7 +2249,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                 }
             },
             XNodeType::PITest => {                          // 9. 10.
-                let pi_name = get_xnode_name(bi);
+                let pi_name = get_xnode_name(&get_left(bi));
                 if pi_name == "" {
                     if get_xnode_type(ai) == XNodeType::KindTest &&
                        get_xnode_type(&get_left(ai)) == XNodeType::PITest {
-- 
2.43.0


From cfe9d9f191354cce0e6a86b01de03a77c98a68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 68/95] fix: subtype judgement for element and attribute tests

---
 src/xpath_impl/eval.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index e5b9365..3bf2ba0 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2263,6 +2263,22 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     }
                 }
             },
+            XNodeType::ElementTest |                        // 13. - 18.
+            XNodeType::AttributeTest => {                   // 20. - 23.
+                let ai_test = get_left(ai);
+                let bi_test = get_left(bi);
+                let ai_type = get_xnode_name(&get_left(&ai_test));
+                let bi_type = get_xnode_name(&get_left(&bi_test));
+                if get_xnode_type(ai) == XNodeType::KindTest &&
+                   get_xnode_type(&ai_test) == get_xnode_type(&bi_test) &&
+                   (get_xnode_name(&bi_test) == "*" ||
+                    get_xnode_name(&bi_test) == get_xnode_name(&ai_test)) &&
+                   (bi_type.ends_with("?") || ! ai_type.ends_with("?")) &&
+                   derives_from(ai_type.trim_right_matches('?'),
+                                bi_type.trim_right_matches('?')) {
+                    return true;
+                }
+            },
             _ => {},
         }
     }
-- 
2.43.0


From 28285c058aaac6445808b749d14cdf5c878b6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 69/95] fix: only XML white space is ignored around the lexical
 form of a value

---
 src/xpath_impl/xitem.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 9cc662a..b7da31b 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -21,11 +21,18 @@ use xpath_impl::xsequence::*;
 // ---------------------------------------------------------------------
 //
 fn atof(s: &str) -> f64 {
-    return f64::from_str(s.trim()).unwrap_or(f64::NAN);
+    return f64::from_str(trim(s)).unwrap_or(f64::NAN);
 }
 
 fn atoi(s: &str) -> i64 {
-    return i64::from_str(s.trim()).unwrap_or(0);
+    return i64::from_str(trim(s)).unwrap_or(0);
+}
+
+// ---------------------------------------------------------------------
+// 前後の空白 (XMLの規格にある4文字に限る) を除く。
+//
+fn trim(s: &str) -> &str {
+    return s.trim_matches(|ch: char| [' ', '\t', '\r', '\n'].contains(&ch));
 }
 
 fn f64_to_i64(f: f64) -> i64 {
@@ -608,8 +615,8 @@ impl XItem {
     //
     fn has_castable_value(&self, type_name: &str) -> bool {
         let s = match self {
-            XItem::XIString{value} => value.trim().to_string(),
-            XItem::XINode{value} => value.string_value().trim().to_string(),
+            XItem::XIString{value} => trim(value).to_string(),
+            XItem::XINode{value} => trim(&value.string_value()).to_string(),
             XItem::XIDecimal{value} | XItem::XIDouble{value} => {
                 match type_name {
                     "decimal" | "xs:decimal" => {
@@ -812,7 +819,7 @@ impl XItem {
     pub fn get_as_raw_boolean(&self) -> Result<bool, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                match value.string_value().trim() {
+                match trim(&value.string_value()) {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
@@ -820,7 +827,7 @@ impl XItem {
             },
             XItem::XIInteger{value} => return Ok(*value != 0),
             XItem::XIString{value} => {
-                match value.trim() {
+                match trim(value) {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
-- 
2.43.0


From c9c70171ce85a1ac7007a26f396651abbaf57b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 70/95] fix: normalize-space leaves characters that are not XML
 white space

---
 src/xpath_impl/func.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index f42fa64..02df3cf 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -834,7 +834,8 @@ fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     }
 
     let arg = args[0].get_singleton_string()?;
-    let v: Vec<&str> = arg.split_whitespace().collect();
+    let is_space = |ch: char| [' ', '\t', '\r', '\n'].contains(&ch);
+    let v: Vec<&str> = arg.split(is_space).collect();
     let mut result = String::new();
     for t in v.iter() {
         result += t;
-- 
2.43.0


From 6b70f6daf83f4bb07c49fd151be74ebe7ee5c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 71/95] fix: processing-instruction('') matched every
 processing instruction

---
 src/xpath_impl/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 1a44330..b92abb7 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -696,10 +696,20 @@ fn parse_pi_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     let mut arg = "";
     match tok.get_type() {
-        TType::Name | TType::StringLiteral => {
+        TType::Name => {
             lex.get_token();
             arg = tok.get_name();
         },
+        TType::StringLiteral => {
+            // 引数なし (arg == "") と区別できるよう、空の名前は誤りとする。
+            lex.get_token();
+            arg = tok.get_name().trim_matches(
+                        |ch: char| [' ', '\t', '\r', '\n'].contains(&ch));
+            if arg == "" {
+                return Err(xpath_syntax_error!(
+                        "processing-instruction(): 名前が空である。"));
+            }
+        },
         TType::RightParen => {},
         _ => {
             return Err(xpath_syntax_error!(
-- 
2.43.0


From 028e79919100e956966e14b60d98c0ffaca5cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 72/95] fix: a U+0000 in the source was taken for the end of
 input, and reading went on after it

---
 src/sax.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 465a085..ad29387 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -150,6 +150,10 @@ impl SaxDecoder {
     /// Creates a new XML parser reading from String.
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
+        // U+0000はXMLの文字でなく、以下ではEOFの印として使う。
+        if xml_string.contains(EOF) {
+            return Err(xml_syntax_error!("Invalid character: U+0000"));
+        }
         return Ok(SaxDecoder{
             char_vec: xml_string.replace("\r\n", "\n").replace("\r", "\n")
                                 .chars().collect(),
-- 
2.43.0


From 3116ca463be06486a3b2ba802ecc44afd15b8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 73/95] fix: freeing a deeply nested document overflowed the
 stack

---
 src/dom.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index dd90d77..b19daf3 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -124,6 +124,20 @@ struct Node {
     attributes: RefCell<Vec<RcNode>>,
 }
 
+// ---------------------------------------------------------------------
+// 深い木でスタックがあふれないよう、再帰によらず解放する。
+//
+impl Drop for Node {
+    fn drop(&mut self) {
+        let mut garbage = self.children.replace(vec!{});
+        while let Some(rc_node) = garbage.pop() {
+            if let Ok(node) = Rc::try_unwrap(rc_node) {
+                garbage.append(&mut node.children.borrow_mut());
+            }
+        }
+    }
+}
+
 // ---------------------------------------------------------------------
 // RcNodeを生成する。親があるとは限らない。
 //
-- 
2.43.0


From 61437240e7b37e7f93c794431bb5d72de4228101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 74/95] fix: document_order() overflowed the stack in a deeply
 nested document

---
 src/dom.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index b19daf3..45692ba 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -944,23 +944,17 @@ impl NodePtr {
     // -----------------------------------------------------------------
     //
     fn setup_document_order(&self) {
-        self.setup_document_order_sub(1);
-    }
-
-    // -----------------------------------------------------------------
-    //
-    fn setup_document_order_sub(&self, order_beg: i64) -> i64 {
-        let mut order = order_beg;
-        self.unwrap_rc().order.set(order);
-        order += 1;
-        for at in self.attributes().iter() {
-            at.unwrap_rc().order.set(order);
+        let mut order = 1;
+        let mut node_stack = vec!{self.rc_clone()};
+        while let Some(node) = node_stack.pop() {
+            node.unwrap_rc().order.set(order);
             order += 1;
+            for at in node.attributes().iter() {
+                at.unwrap_rc().order.set(order);
+                order += 1;
+            }
+            node_stack.extend(node.children().into_iter().rev());
         }
-        for ch in self.children().iter() {
-            order = ch.setup_document_order_sub(order + 1);
-        }
-        return order;
     }
 
     // =================================================================
-- 
2.43.0


From 53bb7c8f697f8a5eb6eb6fee18bb5fcca8399524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 75/95] fix: copying a deeply nested subtree overflowed the
 stack

---
 src/dom.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 45692ba..2853158 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -272,16 +272,28 @@ fn parent_rc_node(rc_node: &RcNode) -> Option<RcNode> {
 // 複製したノードの親は、複製した部分木の中のノードである。
 //
 fn deep_copy_rc_node(source: &RcNode, parent: Option<&mut RcNode>) -> RcNode {
+    let copy_root = copy_rc_node(source, parent);
+    let mut pairs = vec!{(Rc::clone(source), Rc::clone(&copy_root))};
+    while let Some((node, mut copy)) = pairs.pop() {
+        for ch in node.children.borrow().iter() {
+            let ch_copy = copy_rc_node(ch, Some(&mut copy));
+            copy.children.borrow_mut().push(Rc::clone(&ch_copy));
+            pairs.push((Rc::clone(ch), ch_copy));
+        }
+    }
+    return copy_root;
+}
+
+// ---------------------------------------------------------------------
+// 子を除き、sourceとその属性を複製する。
+//
+fn copy_rc_node(source: &RcNode, parent: Option<&mut RcNode>) -> RcNode {
     let mut copy = make_new_rc_node(source.node_type.clone(), parent,
                                     &source.name, &source.value);
     for at in source.attributes.borrow().iter() {
-        let at_copy = deep_copy_rc_node(at, Some(&mut copy));
+        let at_copy = copy_rc_node(at, Some(&mut copy));
         copy.attributes.borrow_mut().push(at_copy);
     }
-    for ch in source.children.borrow().iter() {
-        let ch_copy = deep_copy_rc_node(ch, Some(&mut copy));
-        copy.children.borrow_mut().push(ch_copy);
-    }
     return copy;
 }
 
-- 
2.43.0


From 3594157dd0505ddcced61e5942385ce64b293efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 76/95] fix: refuse an XPath expression that contains U+0000

The lexer uses U+0000 for the end of its input, so an expression was cut
off (or a blank was read) where it has that character and the rest was
never looked at: "1\0)" was accepted as 1.
---
 src/xpath_impl/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 6688be0..18741d8 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -267,6 +267,10 @@ impl Lexer {
     // -----------------------------------------------------------------
     //
     pub fn new(xpath_string: &String) -> Result<Lexer, Box<Error>> {
+        // U+0000は字句の終わりを表すために使うので、式の中には認めない。
+        if xpath_string.contains('\0') {
+            return Err(xpath_syntax_error!("XPath式に使えない文字: U+0000"));
+        }
         let mut lexer = Lexer {
             char_vec: xpath_string.chars().collect(),
             ch_index: 0,
-- 
2.43.0


From 2a2e0db4e88526bc7dd5ae63def8fe4c41be3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 77/95] fix: give concat of three and more arguments a
 signature

The signature table knows concat#2 only, so concat#3 was no instance of any
typed function test.
---
 src/xpath_impl/func.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 02df3cf..8e1ea73 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -126,6 +126,15 @@ pub fn get_function_signature(func_name: &str) -> String {
             return String::from(*t_signature);
         }
     }
+
+    // concatの引数は2個以上 (シグニチャーを持つのは1000個まで)
+    if let Some(arity) = func_name.strip_prefix("fn:concat#") {
+        let arity = arity.parse::<usize>().unwrap_or(0);
+        if 2 <= arity && arity <= 1000 {
+            return format!("function({}) as xs:string",
+                    vec!{"xs:anyAtomicType?"; arity}.join(", "));
+        }
+    }
     return String::new();
 }
 
-- 
2.43.0


From 9cd56137fc6ab9928a60210d4d8466ac39ac9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 78/95] fix: judge a partial function application by the
 signature of its function

instance of function(...) read the argument list of the call as if it were
a list of types, so concat('a', ?) was no instance of
function(xs:integer) as xs:string.
---
 src/xpath_impl/eval.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3bf2ba0..8afb511 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1882,6 +1882,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
         if let Ok(xnode) = xitem.get_as_raw_xnodeptr() {
 
             let sig_xnode: XNodePtr;
+            let mut placeholder: Vec<bool> = vec!{};
 
             match get_xnode_type(&xnode) {
 
@@ -1907,8 +1908,25 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
                     sig_xnode = xnode.clone();
                 },
 
+                // -----------------------------------------------------
+                // (部分函数呼び出し)
+                // もとの函数のシグニチャーを構文木に変換する。
+                // 「?」の位置にある引数のみが残る。
+                //
                 XNodeType::PartialFunctionCall => {
-                    sig_xnode = xnode.clone();
+                    let mut curr = get_right(&xnode);
+                    while ! is_nil_xnode(&curr) {
+                        placeholder.push(get_xnode_type(&curr) == XNodeType::ArgumentPlaceholder);
+                        curr = get_right(&curr);
+                    }
+                    let func_name = format!("{}#{}",
+                            get_xnode_name(&xnode), placeholder.len());
+                    let signature = get_function_signature(func_name.as_str());
+                    if signature == "" {
+                        return Ok(false);
+                    }
+                    let mut lex = Lexer::new(&signature)?;
+                    sig_xnode = parse_function_test(&mut lex)?;
                 },
                 _ => {
                     return Ok(false);
@@ -1916,8 +1934,14 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
             }
 
             let mut i = 0;
+            let mut n = 0;                  // もとの函数での位置 (0は戻り値型)
             let mut curr = get_right(&sig_xnode);
             while ! is_nil_xnode(&curr) {
+                n += 1;
+                if 2 <= n && placeholder.get(n - 2) == Some(&false) {
+                    curr = get_right(&curr);    // 既に値を渡した引数
+                    continue;
+                }
                 if signature_xnode.len() <= i {     // 引数が多い。
                     return Ok(false);
                 }
-- 
2.43.0


From 653917cffdfc8580db48a188018a8b001bc8153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 79/95] fix: a sign is no part of a character reference
 (&#+65;)

---
 src/sax.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index ad29387..3b91ca7 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -910,9 +910,11 @@ fn decode_entity(s: &String) -> String {
                 continue;
             }
             if let Some(end) = rest.find(';') {
-                let u = u32::from_str_radix(&rest[pattern.len() .. end],
-                                    radix).unwrap_or(0x3013);
-                                                            // \u3013 = '〓'
+                let digits = &rest[pattern.len() .. end];
+                let u = match u32::from_str_radix(digits, radix) {
+                    Ok(u) if ! digits.starts_with('+') => u,
+                    _ => 0x3013,                            // \u3013 = '〓'
+                };
                 decoded = Some((char::from_u32(u).unwrap_or('〓'), end + 1));
             }
             break;
-- 
2.43.0


From 205fd7c21eb3502cac2330175c1e30c4ed17d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 80/95] fix: calling what is no function, and dividing by what
 is no number, are type errors

---
 src/xpath_impl/eval.rs  | 2 +-
 src/xpath_impl/xitem.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 8afb511..9343e8b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1517,7 +1517,7 @@ pub fn apply_function(curr_xseq: &XSequence,
         }
     }
 
-    return Err(cant_occur!(
+    return Err(type_error!(
                 "apply_argument: インライン函数/マップ/配列でない。"));
 
 }
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index b7da31b..b7a6a7b 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -922,7 +922,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
             new_xitem_decimal(*rhs)
         },
         XItem::XIDouble{value: rhs} => new_xitem_double(*rhs),
-        _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
+        _ => return Err(type_error!("xitem_numeric_divide: Not numeric")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
                 |a, b| { a.checked_div(b) },
-- 
2.43.0


From 05d535e0fd428f5bbf6c7b538be2d4c7e51e75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 81/95] fix: a call by => takes only functions that exist with
 that many arguments, and placeholders

---
 Cargo.lock               |  5 ++++-
 src/xpath_impl/parser.rs | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index e4e4c79..ccabd88 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,4 +1,7 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "amxml"
 version = "0.5.3"
-
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index b92abb7..9e068df 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1688,13 +1688,11 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
         let func_name = parse_static_func_name(lex)?;
         if func_name != "" {
-            let fcall_xnode = new_xnode(XNodeType::FunctionCall, &func_name);
             let arglist_xnode = parse_argument_list(lex)?;
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
-            assign_as_right(&fcall_xnode, &arg_top_xnode);
-            curr_xnode = fcall_xnode.clone();
+            curr_xnode = new_function_call_xnode(&func_name, &arg_top_xnode)?;
             continue;
         }
 
@@ -2603,6 +2601,15 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
     let arg_node = parse_argument_list(lex)?;       // 引数が0個ならばNil
 
+    return new_function_call_xnode(&func_name, &arg_node);
+}
+
+// ---------------------------------------------------------------------
+// 函数名と引数並びから、函数呼び出し (または部分函数呼び出し) の構文木を作る。
+//
+fn new_function_call_xnode(func_name: &str,
+                arg_node: &XNodePtr) -> Result<XNodePtr, Box<Error>> {
+
     // -------------------------------------------------------------
     // 引数の数を調べる。
     //
@@ -2620,7 +2627,7 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     // -------------------------------------------------------------
     // この時点で函数表と照合して、函数の存在や引数の数を検査する。
     //
-    if func::check_function_spec(&func_name, arity) == false {
+    if func::check_function_spec(func_name, arity) == false {
         return Err(xpath_syntax_error!(
             "{}: 函数が未実装、または引数の数 ({}) が不適切。",
             func_name, arity));
@@ -2634,7 +2641,7 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             } else {
                 XNodeType::FunctionCall
             },
-            &func_name);
+            func_name);
     assign_as_right(&func_node, &arg_node);
 
     return Ok(func_node);
-- 
2.43.0


From 0673e1c9f220028c03e53298c9f853aaf51a4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 82/95] fix: a name after $ or ? is a variable or a key,
 whatever follows it ($text(1), ?map(1))

---
 src/xpath_impl/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 18741d8..abade65 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -586,6 +586,12 @@ impl Lexer {
 
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
+            // 「$」や「?」に続く名前は、変数名やキーである。
+            if self.tokens[i].t_type == TType::InnerName &&
+               (self.tokens[i-1].t_type == TType::Dollar ||
+                self.tokens[i-1].t_type == TType::Question) {
+                self.tokens[i].t_type = TType::Name;
+            }
             if self.tokens[i].t_type == TType::InnerName {
                 for (name, next_t_type, new_t_type) in name_and_symbol_tbl.iter() {
                     if self.tokens[i].name.as_str() == *name &&
-- 
2.43.0


From a39334d5fbbdb88bd8fe14aa8b39e4a6c8c00a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:25 +0000
Subject: [PATCH 83/95] fix: treat as gives its operand when the type matches,
 and a type error otherwise

---
 src/xpath_impl/eval.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 9343e8b..74826a7 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -687,6 +687,16 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_boolean(b));
         },
 
+        XNodeType::OperatorTreatAs => {
+            let expr_xseq = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            let sequence_type_xnode = get_right(xnode);
+            if match_sequence_type(&expr_xseq, &sequence_type_xnode)? == false {
+                return Err(type_error!("treat as: 型が合致していない: {}。",
+                        expr_xseq.to_string()));
+            }
+            return Ok(expr_xseq);
+        },
+
         XNodeType::OperatorCastableAs => {
             let value = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
             let single_type_xnode = get_right(xnode);
-- 
2.43.0


From 5575362ec457b068195f0e862cac847589b8d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:07 +0000
Subject: [PATCH 84/95] fix: a placeholder given to a function item is reported
 as not implemented

---
 src/xpath_impl/parser.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 9e068df..69f4e09 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1703,7 +1703,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             let argument_top_xnode = new_xnode(XNodeType::ArgumentListTop, "");
             assign_as_right(&apply_argment_xnode, &argument_top_xnode);
 
-            let arglist_xnode = parse_argument_list(lex)?;
+            let arglist_xnode = parse_dynamic_argument_list(lex)?;
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
@@ -1996,7 +1996,7 @@ fn parse_postfix(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             return Ok(predicate_top_xnode);
         },
         TType::LeftParen => {
-            let xnode = parse_argument_list(lex)?;
+            let xnode = parse_dynamic_argument_list(lex)?;
             let argument_top_xnode = new_xnode(XNodeType::ArgumentListTop, "");
             assign_as_left(&argument_top_xnode, &xnode);
             return Ok(argument_top_xnode);
@@ -2673,6 +2673,23 @@ fn parse_argument_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     return Ok(xnode);
 }
 
+// ---------------------------------------------------------------------
+// 函数アイテムなどに渡す引数並び。部分適用 (「?」) は未実装。
+//
+fn parse_dynamic_argument_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
+    let xnode = parse_argument_list(lex)?;
+    let mut curr = xnode.clone();
+    while ! is_nil_xnode(&curr) {
+        if get_xnode_type(&curr) == XNodeType::ArgumentPlaceholder {
+            return Err(uninplemented!(
+                "{}: 函数アイテムの部分適用は未実装。",
+                lex.around_tokens().as_str()));
+        }
+        curr = get_right(&curr);
+    }
+    return Ok(xnode);
+}
+
 fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_argument(lex)?;
     return_if_nil!(xnode);
-- 
2.43.0


From d71dda33d525f85109a9d84f94b088bd88c90fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 85/95] fix: a parameter may be named cast, castable, treat or
 instance (function($cast as ...))

---
 src/xpath_impl/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index abade65..ea15105 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -524,7 +524,9 @@ impl Lexer {
         ];
         let mut i = 1;
         while i + 1 < self.tokens.len() {
-            if self.tokens[i].t_type == TType::InnerName &&
+            // 「$」に続く名前は変数名である: function($cast as xs:integer)
+            if self.tokens[i-1].t_type != TType::Dollar &&
+               self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
                     if self.tokens[i].name.as_str() == *str1 &&
-- 
2.43.0


From 93ca2d4bc12d9d165e071952a05d88db194dc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:03 +0000
Subject: [PATCH 86/95] fix: a reference to a function that does not exist is
 an error (abs#2)

---
 src/xpath_impl/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 69f4e09..f924957 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2207,6 +2207,16 @@ fn parse_named_function_ref(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let arity = tok.get_name();
     lex.get_token();
 
+    let exists = match arity.parse::<usize>() {
+        Ok(n) => func::check_function_spec(&func_name, n),
+        Err(_) => false,
+    };
+    if ! exists {
+        return Err(xpath_syntax_error!(
+            "{}#{}: 函数が未実装、または引数の数が不適切。",
+            func_name, arity));
+    }
+
     let xnode = new_xnode(XNodeType::NamedFunctionRef,
                     &(func_name + &"#" + &arity));
     return Ok(xnode);
-- 
2.43.0


From d66cc20ab75c73768dbd57266a0ff7134361057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 87/95] fix: documentation: treat as is implemented

---
 src/xpath.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/xpath.rs b/src/xpath.rs
index a2b1634..ffbd74e 100644
--- a/src/xpath.rs
+++ b/src/xpath.rs
@@ -57,7 +57,6 @@
 //!
 //! ### Features that are not implemented yet
 //!
-//! - treat as
 //! - KindTest: SchemaElementTest | SchemaAttributeTest | DocumentTest
 //! - Many built-in functions that are new in XPath 2.0 and above
 //! - Collation (in built-in functions: contains, starts-with, etc.)
-- 
2.43.0


From 04a6a07e2a7c3cbcc0a7ae929830566ed77784b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:55 +0000
Subject: [PATCH 88/95] fix: accept a parenthesized item type as the item type
 it contains

---
 src/xpath_impl/eval.rs   | 5 -----
 src/xpath_impl/parser.rs | 5 +----
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 74826a7..e731b42 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1783,11 +1783,6 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
             return Ok(match_sequence_atomic_or_union_type(xseq, &type_xnode));
         },
 
-        XNodeType::ParenthesizedItemType => {
-            // =====================================================
-            return Ok(false);
-        },
-
         _ => {
             return Err(cant_occur!(
                 "match_sequence_type: xnodeの左辺値のxnode_typeが想定外: {:?}",
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index f924957..8301b26 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -110,7 +110,6 @@ pub enum XNodeType {
     MapTest,
     ArrayTest,
     AtomicOrUnionType,
-    ParenthesizedItemType,
     SingleType,
     SequenceType,
     OperatorConcat,
@@ -1567,9 +1566,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
 
-    let paren_xnode = new_xnode(XNodeType::ParenthesizedItemType, "");
-    assign_as_left(&paren_xnode, &xnode);
-    return Ok(paren_xnode);
+    return Ok(xnode);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 81982162bcb2cd25548adfeab7f8acd29f7665cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:41 +0000
Subject: [PATCH 89/95] fix: a number, a string and a boolean are never the
 same map key

---
 src/xpath_impl/xitem.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index b7a6a7b..aef9998 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -541,6 +541,10 @@ impl XItem {
     //     fn:deep-equal($k1, $k2) で比較する。
     //
     pub fn op_same_key(&self, other: &XItem) -> bool {
+        if self.key_kind() != other.key_kind() {
+            return false;
+        }
+
         let k1 = self.get_as_raw_string();
         if let Err(_) = k1 {
             return false;
@@ -556,6 +560,18 @@ impl XItem {
         return k1 == k2;
     }
 
+    // キーとして比較しうる型の種別 (数値、真偽値、その他)
+    //
+    fn key_kind(&self) -> usize {
+        match self {
+            XItem::XIInteger{..} |
+            XItem::XIDecimal{..} |
+            XItem::XIDouble{..} => 1,
+            XItem::XIBoolean{..} => 2,
+            _ => 0,
+        }
+    }
+
     // -----------------------------------------------------------------
     // キャスト可能か否か。
     //
-- 
2.43.0


From 7a95b7e21c51abd2c99ac531abcb720137f89754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:52 +0000
Subject: [PATCH 90/95] fix: only INF is read as an infinite number

---
 src/xpath_impl/xitem.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index aef9998..7bb65ce 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -21,7 +21,12 @@ use xpath_impl::xsequence::*;
 // ---------------------------------------------------------------------
 //
 fn atof(s: &str) -> f64 {
-    return f64::from_str(trim(s)).unwrap_or(f64::NAN);
+    let s = trim(s);
+    if s.ends_with(|ch: char| ch.is_ascii_alphabetic()) &&
+       s != "INF" && s != "+INF" && s != "-INF" {
+        return f64::NAN;                    // "inf" や "Infinity" など
+    }
+    return f64::from_str(s).unwrap_or(f64::NAN);
 }
 
 fn atoi(s: &str) -> i64 {
-- 
2.43.0


From 69f281c5d7dbb499faf0bb955389a501627508bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:59 +0000
Subject: [PATCH 91/95] fix: array:get and lookup refuse an index outside of
 the array

---
 src/xpath_impl/eval.rs | 2 ++
 src/xpath_impl/func.rs | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index e731b42..0d5a995 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1469,6 +1469,8 @@ fn lookup_by_keys(xseq: &XSequence,
             if let Some(v) = xitem_array.array_get(index) {
                 result.append(&v);
             } else {
+                return Err(dynamic_error!(
+                    "Array index ({}) out of bounds.", index));
             }
         }
         return Ok(result);
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 8e1ea73..e5c510b 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1714,7 +1714,8 @@ fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let index = args[1].get_singleton_item()?;
     match xseq_array.array_get(&index) {
         Some(v) => return Ok(v),
-        None => return Ok(new_xsequence()),
+        None => return Err(dynamic_error!(
+                    "Array index ({}) out of bounds.", index)),
     }
 }
 
-- 
2.43.0


From d96c0a0359c82dd987466bd457dc8d0883658710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:34 +0000
Subject: [PATCH 92/95] fix: atomize an array as the items of its members

---
 src/xpath_impl/func.rs      |  4 ++--
 src/xpath_impl/xsequence.rs | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e5c510b..b6078c3 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1377,8 +1377,8 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //             $collation as xs:string) as xs:integer*
 //
 fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let seq_param = args[0];
-    let srch_param = args[1];
+    let seq_param = &args[0].atomize();
+    let srch_param = &args[1].atomize();
     srch_param.get_singleton_item()?;
     let mut result = new_xsequence();
     for (i, v) in seq_param.iter().enumerate() {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index f089325..a6f918d 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -250,7 +250,12 @@ impl XSequence {
     pub fn atomize(&self) -> XSequence {
         let mut seq = new_xsequence();
         for v in self.value.iter() {
-            seq.push(&v.atomize());
+            match v {
+                XItem::XIArray{value} => {          // 配列の要素を原子化する
+                    seq.append(&value.array_flatten().atomize());
+                },
+                _ => seq.push(&v.atomize()),
+            }
         }
         return seq;
     }
@@ -433,6 +438,8 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
+    let lhs = lhs.atomize();
+    let rhs = rhs.atomize();
     if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
@@ -441,8 +448,6 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
                     "value_compare: operand is not singleton: {} : {}",
                     lhs.to_string(), rhs.to_string()));
     }
-    let lhs = lhs.atomize();
-    let rhs = rhs.atomize();
     if let Ok(result) = num_op(&vec!{&lhs, &rhs}) {
         return Ok(result);
     }
-- 
2.43.0


From 64a969a02c9562fd77a932dfc9218390f8f15eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:45 +0000
Subject: [PATCH 93/95] fix: a negative zero is the same map key as zero

---
 src/xpath_impl/xitem.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 7bb65ce..2d2642f 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -549,6 +549,9 @@ impl XItem {
         if self.key_kind() != other.key_kind() {
             return false;
         }
+        if self.is_numeric_zero() && other.is_numeric_zero() {
+            return true;                        // -0 も 0 に等しい
+        }
 
         let k1 = self.get_as_raw_string();
         if let Err(_) = k1 {
@@ -565,6 +568,15 @@ impl XItem {
         return k1 == k2;
     }
 
+    fn is_numeric_zero(&self) -> bool {
+        match self {
+            XItem::XIInteger{value} => return *value == 0,
+            XItem::XIDecimal{value} | XItem::XIDouble{value} => return *value == 0.0,
+            _ => return false,
+        }
+    }
+
+    // -----------------------------------------------------------------
     // キーとして比較しうる型の種別 (数値、真偽値、その他)
     //
     fn key_kind(&self) -> usize {
-- 
2.43.0


From 0b4205193be3cad5370be80bd021c0a345e03116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:17 +0000
Subject: [PATCH 94/95] fix: dividing a double by an integer or decimal zero is
 division by the double zero

---
 src/xpath_impl/xitem.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 2d2642f..93a32c4 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -940,16 +940,19 @@ pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Err
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
+    // 左辺値がDoubleの場合、右辺値もDoubleに昇格するので、ゼロで除してもよい。
+    //
+    let lhs_is_double = if let XItem::XIDouble{value: _} = lhs { true } else { false };
     let rhs_a = match rhs {
         XItem::XIInteger{value: rhs} => {
-            if *rhs == 0 {
+            if *rhs == 0 && ! lhs_is_double {
                 return Err(dynamic_error!("Division by zero"));
             }
             new_xitem_decimal(i64_to_f64(*rhs))
                             // 例外: Integer div Integer => Decimal
         },
         XItem::XIDecimal{value: rhs} => {
-            if *rhs == 0.0 {
+            if *rhs == 0.0 && ! lhs_is_double {
                 return Err(dynamic_error!("Division by zero"));
             }
             new_xitem_decimal(*rhs)
@@ -1017,14 +1020,15 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
+    let lhs_is_double = if let XItem::XIDouble{value: _} = lhs { true } else { false };
     match rhs {
         XItem::XIInteger{value: rhs} => {
-            if *rhs == 0 {
+            if *rhs == 0 && ! lhs_is_double {
                 return Err(dynamic_error!("Division by zero"));
             }
         },
         XItem::XIDecimal{value: rhs} => {
-            if *rhs == 0.0 {
+            if *rhs == 0.0 && ! lhs_is_double {
                 return Err(dynamic_error!("Division by zero"));
             }
         },
-- 
2.43.0


From 66744565f24265e196086d4f718bd513781573b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:46 +0000
Subject: [PATCH 95/95] fix: a name after return, in, then, else or satisfies
 is an operand also when it spells an operator

---
 src/xpath_impl/lexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index ea15105..da9993e 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -494,18 +494,24 @@ impl Lexer {
         // 「*」は、乗算演算子でなくワイルドカードである場合、オペランドなので、
         // 後に続く "except" などの名前は演算子である。
         //
+        // オペランドの後の "in" "return" などはキーワードであり、
+        // その後にはオペランドが続く。
+        //
+        let keywords = ["in", "return", "satisfies", "then", "else"];
         let mut expects_operand = true;
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
+            let mut is_keyword = false;
             if ! expects_operand &&
                self.tokens[i].t_type == TType::InnerName {
                 if let Some(op_type) = operator_word_type(&self.tokens[i].name) {
                     self.tokens[i].t_type = op_type;
                 }
+                is_keyword = keywords.contains(&self.tokens[i].name.as_str());
             }
             let is_wildcard = expects_operand &&
                               self.tokens[i].t_type == TType::Asterisk;
-            expects_operand = ! is_wildcard &&
+            expects_operand = is_keyword || ! is_wildcard &&
                               prev_t_types.contains(&self.tokens[i].t_type);
             i += 1;
         }
-- 
2.43.0

