From 1c5e3df13c3c1da8901b31056eece7069946eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 01/48] fix: navigating from a node no longer panics once its
 document is dropped

---
 src/dom.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..36940d6 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -239,6 +239,16 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     return Ok(NodePtr{rc_node: doc_root});
 }
 
+// ---------------------------------------------------------------------
+// 親ノードを返す。親がない場合のほか、親が既に解放されている場合もNone。
+//
+fn parent_rc_node(rc_node: &RcNode) -> Option<RcNode> {
+    match rc_node.parent {
+        Some(ref p) => return p.borrow().upgrade(),
+        None => return None,
+    }
+}
+
 // ---------------------------------------------------------------------
 //
 fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
@@ -440,8 +450,8 @@ impl NodePtr {
             if let Some(value) = val {
                 return value.clone();
             }
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return String::new(),
             };
         }
@@ -466,8 +476,8 @@ impl NodePtr {
     pub fn root(&self) -> NodePtr {
         let mut curr = self.unwrap_rc();
         loop {
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match parent_rc_node(&curr) {
+                Some(p) => p,
                 None => return wrap_rc_clone(&curr),
             };
         }
@@ -515,9 +525,8 @@ impl NodePtr {
     /// ```
     ///
     pub fn parent(&self) -> Option<NodePtr> {
-        match self.unwrap_rc().parent {
-            Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
+        match parent_rc_node(&self.unwrap_rc()) {
+            Some(parent_node) => {
                 return Some(wrap_rc_clone(&parent_node));
             },
             None => return None,
-- 
2.43.0


From ef2f1e832777f671d1051c074fdbdf265362100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 02/48] fix: edits keep parent links in step with child lists

---
 src/dom.rs | 61 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 36940d6..b092a8d 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -250,14 +250,33 @@ fn parent_rc_node(rc_node: &RcNode) -> Option<RcNode> {
 }
 
 // ---------------------------------------------------------------------
+// 親ノードへの参照を張り替える。parentがNoneのときは、親から切り離す。
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
+fn set_parent_rc_node(rc_node: &RcNode, parent: Option<&RcNode>) {
+    if let Some(ref p) = rc_node.parent {
+        *p.borrow_mut() = match parent {
+            Some(rc_parent) => Rc::downgrade(rc_parent),
+            None => Weak::new(),
+        };
+    }
+}
+
+// ---------------------------------------------------------------------
+// sourceを頂点とする部分木の複製を、parentを親として生成する。
+// (parentのchildrenにはまだ登録しない。)
+//
+fn copy_rc_tree(source: &RcNode, parent: &mut RcNode) -> RcNode {
+    let mut target = make_new_rc_node(source.node_type.clone(),
+                Some(parent), &source.name, &source.value);
     for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
+        let ch_dup = copy_rc_tree(ch, &mut target);
+        target.children.borrow_mut().push(ch_dup);
     }
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let at_dup = copy_rc_tree(at, &mut target);
+        target.attributes.borrow_mut().push(at_dup);
     }
+    return target;
 }
 
 // =====================================================================
@@ -623,6 +642,17 @@ impl NodePtr {
     pub fn append_child(&self, new_child: &NodePtr) {
         let rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
+        let mut curr = Some(self.unwrap_rc());
+        while let Some(rc_node) = curr {
+            if Rc::ptr_eq(&rc_node, &rc_new_child) {
+                return;         // 自分自身またはその祖先は、子にできない。
+            }
+            curr = parent_rc_node(&rc_node);
+        }
+        if let Some(old_parent) = new_child.parent() {
+            old_parent.delete_child(new_child);
+        }
+        set_parent_rc_node(&rc_new_child, Some(&rc_self));
         rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
         self.clear_document_order();
     }
@@ -660,13 +690,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = copy_rc_tree(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -704,13 +729,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = copy_rc_tree(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -741,6 +761,7 @@ impl NodePtr {
         if n != usize::MAX {
             let rc_node = self.unwrap_rc();
             (*rc_node).children.borrow_mut().remove(n);
+            set_parent_rc_node(&target.unwrap_rc(), None);
         }
         self.clear_document_order();
     }
@@ -843,7 +864,8 @@ impl NodePtr {
 
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let rc_old = (*rc_node).attributes.borrow_mut().remove(r_index);
+            set_parent_rc_node(&rc_old, None);
             (*rc_node).attributes.borrow_mut().insert(r_index, Rc::clone(&attr_node));
         } else {
             (*rc_node).attributes.borrow_mut().push(Rc::clone(&attr_node));
@@ -870,7 +892,8 @@ impl NodePtr {
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let rc_old = (*rc_node).attributes.borrow_mut().remove(r_index);
+            set_parent_rc_node(&rc_old, None);
         }
         self.clear_document_order();
     }
-- 
2.43.0


From cb644adcd790b5928d8882fc202d3587f4164c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 03/48] fix: an edit invalidates the order of every enclosing
 subtree

---
 src/dom.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index b092a8d..6abd4c7 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -913,8 +913,11 @@ impl NodePtr {
     // -----------------------------------------------------------------
     //
     fn clear_document_order(&self) {
-        let root = self.root();
-        root.unwrap_rc().order.set(0);
+        let mut curr = Some(self.unwrap_rc());
+        while let Some(rc_node) = curr {
+            rc_node.order.set(0);
+            curr = parent_rc_node(&rc_node);
+        }
     }
 
     // =================================================================
-- 
2.43.0


From a478c192cf175201be74c148c41eb9f1ffdafe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 04/48] fix: a start tag cut off by the end of input is an
 error, not an endless loop

---
 src/sax.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..bf3b542 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -282,6 +282,8 @@ impl SaxDecoder {
                         } else {
                             return Err(xml_syntax_error!("illegal char after /"));
                         }
+                    } else if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag"));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 6d85b31d94ee0a0e20e9b08e1202be288fb4b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 05/48] fix: character and entity references are decoded
 exactly once

---
 src/sax.rs | 94 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 32 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index bf3b542..61708c6 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -873,48 +873,78 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 // [68] EntityRef ::= '&' Name ';'              // 実体参照
 //
 fn decode_entity(s: &String) -> String {
-
-    // -----------------------------------------------------------------
-    //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
+    let ch_vec: Vec<char> = s.chars().collect();
+    let mut buf = String::new();
+    let mut i: usize = 0;
+    while i < ch_vec.len() {
+        let mut ch = ch_vec[i];
+        i += 1;
+        if ch == '&' {
+            // ---------------------------------------------------------
+            // 「&」から「;」まで。復号した結果は、再度の復号の対象にしない。
+            //
+            let mut entity = String::new();
+            let mut end = i;
+            while end < ch_vec.len() && ch_vec[end] != ';' {
+                entity.push(ch_vec[end]);
+                end += 1;
             }
-
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
-            if w.len() != 2 {
-                break;
+            if end < ch_vec.len() {
+                if let Some(decoded) = decode_reference(entity.as_str()) {
+                    ch = decoded;
+                    i = end + 1;
+                }
             }
+        }
+        buf.push(ch);
+    }
+    return buf;
+}
 
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
-
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
-                                                            // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
+// ---------------------------------------------------------------------
+// 実体参照、キャラクター参照 (「&」と「;」の間の文字列) が表す文字。
+// 定義済み実体でもキャラクター参照でもないときはNone。
+//
+fn decode_reference(entity: &str) -> Option<char> {
+    let ch_vec: Vec<char> = entity.chars().collect();
+    if 0 < ch_vec.len() && ch_vec[0] == '#' {
+        let mut radix: u32 = 10;
+        let mut i: usize = 1;
+        if 1 < ch_vec.len() && ch_vec[1] == 'x' {
+            radix = 16;
+            i = 2;
+        }
+        if ch_vec.len() <= i {
+            return Some('〓');                      // \u3013
+        }
+        let mut code: u32 = 0;
+        while i < ch_vec.len() {
+            match ch_vec[i].to_digit(radix) {
+                Some(digit) => {
+                    if code < 0x110000 {            // 文字コードの上限
+                        code = code * radix + digit;
+                    }
+                },
+                None => return Some('〓'),
+            }
+            i += 1;
         }
+        return Some(char::from_u32(code).unwrap_or('〓'));
     }
 
-    // -----------------------------------------------------------------
-    //
     let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
+        ( "gt", '>' ),
+        ( "lt", '<' ),
+        ( "quot", '"' ),
+        ( "apos", '\'' ),
+        ( "amp", '&' ),
     ];
     for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
+        if entity == spec.0 {
+            return Some(spec.1);
+        }
     }
-
-    return buf;
+    return None;
 }
 
 
-- 
2.43.0


From b8cc4eda476dc1b45d082f157605c0ed47ee0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 06/48] fix: a carriage return survives serialisation

---
 src/dom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dom.rs b/src/dom.rs
index 6abd4c7..52bff65 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1038,6 +1038,7 @@ fn encode_entity(s: &String) -> String {
         [ "<", "&lt;" ],
         [ "\"", "&quot;" ],
         [ "'", "&apos;" ],
+        [ "\r", "&#13;" ],
     ];
     let mut str = s.clone();
     for spec in specs.iter() {
-- 
2.43.0


From b8a19622df7a8bba883cb6d1b52ed7e3caf821a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/48] fix: a blank XPath is an error, not a panic

---
 src/xpath_impl/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index c37ca3d..f48bef6 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -488,7 +488,8 @@ impl Lexer {
             ( "cast",     "as", TType::CastAs ),
         ];
         let mut i = 1;
-        while self.tokens[i+1].t_type != TType::EOF {
+        while self.tokens[i].t_type != TType::EOF &&
+              self.tokens[i+1].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
-- 
2.43.0


From 25604f5bf7cfbb5e19cfe132e664ee35be1ea2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 08/48] fix: integer arithmetic that leaves the 64-bit range is
 an error

---
 src/xpath_impl/func.rs  | 16 ++++++++++------
 src/xpath_impl/xitem.rs | 26 ++++++++++++++++++--------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e7e956d..34a4118 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -436,7 +436,7 @@ fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a.abs() },
+                |a| { a.checked_abs() },
                 |a| { a.abs() },
                 |a| { a.abs() });
 }
@@ -448,7 +448,7 @@ fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.ceil() },
                 |a| { ceil_x(a) });
 }
@@ -460,7 +460,7 @@ fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.floor() },
                 |a| { floor_x(a) });
 }
@@ -472,7 +472,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { (a + 0.5).floor() },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
@@ -512,13 +512,17 @@ fn round_x(num: f64) -> f64 {
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XSequence, Box<Error>>
-        where FINT: FnMut(i64) -> i64,
+        where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
     if let Ok(arg) = args[0].get_singleton_item() {
         match arg {
             XItem::XIInteger{value: arg} => {
-                return Ok(new_singleton_integer(int_op(arg)));
+                match int_op(arg) {
+                    Some(value) => return Ok(new_singleton_integer(value)),
+                    None => return Err(dynamic_error!(
+                        "Numeric operation overflow/underflow.")),
+                }
             },
             XItem::XIDecimal{value: arg} => {
                 return Ok(new_singleton_decimal(dec_op(arg)));
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 573f0a8..7554f2b 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -813,21 +813,21 @@ pub fn xitem_compare(lhs: &XItem, rhs: &XItem) -> Result<i64, Box<Error>> {
 //
 pub fn xitem_numeric_add(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a + b },
+                |a, b| { a.checked_add(b) },
                 |a, b| { a + b },
                 |a, b| { a + b });
 }
 
 pub fn xitem_numeric_subtract(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a - b },
+                |a, b| { a.checked_sub(b) },
                 |a, b| { a - b },
                 |a, b| { a - b });
 }
 
 pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a * b },
+                |a, b| { a.checked_mul(b) },
                 |a, b| { a * b },
                 |a, b| { a * b });
 }
@@ -853,7 +853,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
         _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
-                |a, b| { a / b },
+                |a, b| { a.checked_div(b) },
                 |a, b| { a / b },
                 |a, b| { a / b });
 }
@@ -918,7 +918,7 @@ pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>>
     }
 
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a.rem(b) },
+                |a, b| { if b == -1 { Some(0) } else { a.checked_rem(b) } },
                 |a, b| { a.rem(b) },
                 |a, b| { a.rem(b) });
 }
@@ -938,7 +938,13 @@ pub fn xitem_numeric_unary_plus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
     match arg {
-        XItem::XIInteger{value} => return Ok(new_xitem_integer(value.neg())),
+        XItem::XIInteger{value} => {
+            match value.checked_neg() {
+                Some(value) => return Ok(new_xitem_integer(value)),
+                None => return Err(dynamic_error!(
+                    "Numeric operation overflow/underflow.")),
+            }
+        },
         XItem::XIDecimal{value} => return Ok(new_xitem_decimal(value.neg())),
         XItem::XIDouble{value} => return Ok(new_xitem_double(value.neg())),
         _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
@@ -951,7 +957,7 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XItem, Box<Error>>
-        where FINT: FnMut(i64, i64) -> i64,
+        where FINT: FnMut(i64, i64) -> Option<i64>,
               FDEC: FnMut(f64, f64) -> f64,
               FDBL: FnMut(f64, f64) -> f64 {
 
@@ -959,7 +965,11 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIInteger{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_integer(int_op(*lhs, *rhs)));
+                    match int_op(*lhs, *rhs) {
+                        Some(value) => return Ok(new_xitem_integer(value)),
+                        None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+                    }
                 },
                 XItem::XIDecimal{value: rhs} => {
                     return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
-- 
2.43.0


From 24264db913355b0c1c12ab24e36790b993afefcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 09/48] fix: idiv truncates the quotient instead of the
 operands

---
 src/xpath_impl/xitem.rs | 48 +++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 7554f2b..5365a20 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -33,6 +33,16 @@ fn f64_to_i64(f: f64) -> i64 {
     return f as i64;
 }
 
+// 小数点以下を切り捨てた値がi64の範囲に収まらなければNoneを返す。
+//
+fn checked_f64_to_i64(f: f64) -> Option<i64> {
+    if -9223372036854775808.0 <= f && f < 9223372036854775808.0 {
+        return Some(f64_to_i64(f));
+    } else {
+        return None;
+    }
+}
+
 fn i64_to_f64(n: i64) -> f64 {
     return n as f64;
 }
@@ -881,23 +891,39 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => {},
     }
 
+    if let XItem::XIInteger{value: lhs} = lhs {
+        if let XItem::XIInteger{value: rhs} = rhs {
+            if *rhs == 0 {
+                return Err(dynamic_error!("Division by zero"));
+            }
+            match lhs.checked_div(*rhs) {
+                Some(value) => return Ok(new_xitem_integer(value)),
+                None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+            }
+        }
+    }
+
     let lhs = match lhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
+        XItem::XIInteger{value} => int_to_dec(*value),
+        XItem::XIDecimal{value} => *value,
+        XItem::XIDouble{value} => *value,
+        _ => return Err(type_error!("xitem_numeric_integer_divide: Not numeric")),
     };
     let rhs = match rhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
+        XItem::XIInteger{value} => int_to_dec(*value),
+        XItem::XIDecimal{value} => *value,
+        XItem::XIDouble{value} => *value,
+        _ => return Err(type_error!("xitem_numeric_integer_divide: Not numeric")),
     };
-    if rhs != 0 {
-        return Ok(new_xitem_integer(lhs / rhs));
-    } else {
+    if rhs == 0.0 {
         return Err(dynamic_error!("Division by zero"));
     }
+                        // 商を求めてから、小数点以下を切り捨てる。
+    return match checked_f64_to_i64(lhs / rhs) {
+        Some(value) => Ok(new_xitem_integer(value)),
+        None => Err(dynamic_error!("Numeric operation overflow/underflow.")),
+    };
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 6d1d1cb328e4525cad557ddfb42fe4b1630018f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 10/48] fix: an integer literal beyond 64 bits is an error, not
 zero

---
 src/xpath_impl/eval.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..b17a5c4 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -670,7 +670,11 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_string(&get_xnode_name(&xnode)));
         },
         XNodeType::IntegerLiteral => {
-            return Ok(new_singleton_integer(atoi(&get_xnode_name(&xnode))));
+            match i64::from_str(&get_xnode_name(&xnode)) {
+                Ok(value) => return Ok(new_singleton_integer(value)),
+                Err(_) => return Err(dynamic_error!(
+                    "Integer literal out of range: {}", get_xnode_name(&xnode))),
+            }
         },
         XNodeType::DecimalLiteral => {
             return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
-- 
2.43.0


From 7c9598ffd208ebea6911dd37a956e066e322f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 11/48] fix: ne, le and ge of an empty operand or NaN

---
 src/xpath_impl/xsequence.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4005ef6..a936a62 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -382,6 +382,9 @@ pub fn value_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_ne(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_eq(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
@@ -393,8 +396,11 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_gt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    let result = value_compare_lt(lhs, rhs)?;
+    if result.is_empty() || result.effective_boolean_value()? == true {
+        return Ok(result);
+    }
+    return value_compare_eq(lhs, rhs);
 }
 
 pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -405,8 +411,11 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_lt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    let result = value_compare_gt(lhs, rhs)?;
+    if result.is_empty() || result.effective_boolean_value()? == true {
+        return Ok(result);
+    }
+    return value_compare_eq(lhs, rhs);
 }
 
 // ---------------------------------------------------------------------
@@ -476,7 +485,7 @@ pub fn general_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_greater_than(s, t)?; return Ok(! b); },
+        |s, t| { return Ok(xitem_numeric_less_than(s, t)? || xitem_numeric_equal(s, t)?); },
         |arg| { arg <= 0 },
         |s, t| { let b = xitem_boolean_greater_than(s, t)?; return Ok(! b); });
 }
@@ -490,7 +499,7 @@ pub fn general_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_less_than(s, t)?; return Ok(! b); },
+        |s, t| { return Ok(xitem_numeric_greater_than(s, t)? || xitem_numeric_equal(s, t)?); },
         |arg| { arg >= 0 },
         |s, t| { let b = xitem_boolean_less_than(s, t)?; return Ok(! b); });
 }
-- 
2.43.0


From 1f06414e6d9de52617f9e1a53bf96c6b51d089bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 12/48] fix: intersect and except return each node once, in
 document order

---
 src/xpath_impl/oper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..1b06e00 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -219,7 +219,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -227,11 +227,11 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -239,7 +239,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From 75f9f5636dae04301e23a5422d8a1e54cccd0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 13/48] fix: a predicate that is not an integer is judged by
 its number or truth value

---
 src/xpath_impl/eval.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index b17a5c4..1fa4a76 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1309,19 +1309,12 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
-        match val.get_singleton_item() {
-            Ok(XItem::XIInteger{value}) => {
-                do_push = value == usize_to_i64(position);
-            },
-            Ok(XItem::XINode{value: _}) => {
-                do_push = true;
-            },
-            Ok(XItem::XIBoolean{value}) => {
-                do_push = value;
-            },
-            _ => {},
-        }
+        let do_push = match val.get_singleton_item() {
+            Ok(XItem::XIInteger{value}) => value == usize_to_i64(position),
+            Ok(XItem::XIDecimal{value}) => value == position as f64,
+            Ok(XItem::XIDouble{value}) => value == position as f64,
+            _ => val.effective_boolean_value()?,
+        };
         if do_push {
             result.push(&xitem.clone());
         }
-- 
2.43.0


From dd2fc54c0e6e0b0cf6462dafbb595e9f5cdb5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 14/48] fix: some and every remove their variable also when
 they stop early

---
 src/xpath_impl/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 1fa4a76..cec2960 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -593,10 +593,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == true {
                     return Ok(new_singleton_boolean(true));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(false));
         },
@@ -611,10 +611,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == false {
                     return Ok(new_singleton_boolean(false));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(true));
         },
-- 
2.43.0


From 0beae81d9e184897cb14f00458a251460298ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 15/48] fix: a call with the wrong number of arguments is an
 error

---
 src/xpath_impl/eval.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index cec2960..b4b564b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1386,6 +1386,11 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // マップ
     //
     if let Ok(map_item) = curr_xseq.get_singleton_map() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!(
+                    "map_lookup: 引数の個数が合致しない: {}。",
+                    argument_xseq.len()));
+        }
         let key = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
@@ -1399,6 +1404,11 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // 配列
     //
     if let Ok(array_item) = curr_xseq.get_singleton_array() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!(
+                    "array_lookup: 引数の個数が合致しない: {}。",
+                    argument_xseq.len()));
+        }
         let index_item = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = array_item.array_get(&index_item) {
             return Ok(v);
@@ -1439,6 +1449,12 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
         param_xnode = get_right(&param_xnode);
     }
 
+    if argument_xseq.len() != param_names.len() {
+        return Err(type_error!(
+                "インライン函数: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+    }
+
     // -----------------------------------------------------------------
     // 実引数の値を変数 (仮引数) に束縛する。
     //
-- 
2.43.0


From b9f98bd1a817223cfc8c0d8f5e0809522dea9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 16/48] fix: a path step that mixes nodes and other items is an
 error

---
 src/xpath_impl/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index b4b564b..855bd31 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -237,9 +237,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 //       評価値がすべてノードのみのシーケンスか否かを
                 //       調べておく。
                 //
-                if val_seq.is_no_atom() {
+                if ! val_seq.to_nodeset().is_empty() {
                     node_exists = true;
-                } else {
+                }
+                if ! val_seq.is_no_atom() {
                     atom_exists = true;
                 }
                 result_seq.append(&val_seq);
-- 
2.43.0


From 874341d9954100e375e145e9fe1c24b0a15fab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 17/48] fix: map keys are compared by value and kind, duplicate
 keys are an error

---
 src/xpath_impl/eval.rs  |  3 +++
 src/xpath_impl/xitem.rs | 40 +++++++++++++++++++++++++---------------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 855bd31..fae0455 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2421,6 +2421,9 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
 
                 let map_key_xnode = get_left(&map_entry_xnode);
                 let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
+                    return Err(dynamic_error!("map: duplicate key: {}", key));
+                }
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 5365a20..186d888 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -509,9 +509,6 @@ impl XItem {
     }
 
     // -----------------------------------------------------------------
-    // 若干厳密さに欠ける (例えば、"3" と3が同じになってしまう) が、
-    // 当面、raw_stringとして比較する。
-    //
     // (1) string (、anyURI、untypedAtomic) どうしの場合:
     //     fn:codepoint-equal($k1, $k2) で比較する。
     // (2) decimal、double (、float) どうしの場合:
@@ -524,19 +521,32 @@ impl XItem {
     //     fn:deep-equal($k1, $k2) で比較する。
     //
     pub fn op_same_key(&self, other: &XItem) -> bool {
-        let k1 = self.get_as_raw_string();
-        if let Err(_) = k1 {
-            return false;
-        }
-        let k1 = k1.unwrap();
-
-        let k2 = other.get_as_raw_string();
-        if let Err(_) = k2 {
-            return false;
+        match (self.atomize(), other.atomize()) {
+            (XItem::XIString{value: k1}, XItem::XIString{value: k2}) => {
+                return k1 == k2;
+            },
+            (XItem::XIBoolean{value: k1}, XItem::XIBoolean{value: k2}) => {
+                return k1 == k2;
+            },
+            (XItem::XIInteger{value: k1}, XItem::XIInteger{value: k2}) => {
+                return k1 == k2;
+            },
+            (XItem::XIInteger{value: k1}, XItem::XIDecimal{value: k2}) |
+            (XItem::XIInteger{value: k1}, XItem::XIDouble{value: k2}) |
+            (XItem::XIDecimal{value: k2}, XItem::XIInteger{value: k1}) |
+            (XItem::XIDouble{value: k2}, XItem::XIInteger{value: k1}) => {
+                return k2 == k2.trunc() && checked_f64_to_i64(k2) == Some(k1);
+            },
+            (XItem::XIDecimal{value: k1}, XItem::XIDecimal{value: k2}) |
+            (XItem::XIDecimal{value: k1}, XItem::XIDouble{value: k2}) |
+            (XItem::XIDouble{value: k1}, XItem::XIDecimal{value: k2}) |
+            (XItem::XIDouble{value: k1}, XItem::XIDouble{value: k2}) => {
+                return k1 == k2 || (k1.is_nan() && k2.is_nan());
+            },
+            _ => {
+                return false;
+            },
         }
-        let k2 = k2.unwrap();
-
-        return k1 == k2;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 286fb3ea97d5f2841be1619612a593befd056a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 18/48] fix: casts of texts and doubles that denote no value of
 the target type fail

---
 src/xpath_impl/xitem.rs | 58 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 186d888..a16e317 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -28,6 +28,26 @@ fn atoi(s: &str) -> i64 {
     return i64::from_str(s.trim()).unwrap_or(0);
 }
 
+// ---------------------------------------------------------------------
+// 文字列から数値へキャストできる字面か否か。
+//
+fn trim_xml_spaces(s: &str) -> &str {
+    return s.trim_matches(|c| c == ' ' || c == '\t' || c == '\r' || c == '\n');
+}
+
+fn is_decimal_literal(s: &str) -> bool {
+    let s = trim_xml_spaces(s);
+    return s.chars().any(|c| c.is_ascii_digit()) &&
+           s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '+' || c == '-') &&
+           f64::from_str(s).is_ok();
+}
+
+fn is_double_literal(s: &str) -> bool {
+    let s = trim_xml_spaces(s);
+    return s == "INF" || s == "-INF" || s == "NaN" ||
+           (s.chars().any(|c| c.is_ascii_digit()) && f64::from_str(s).is_ok());
+}
+
 fn f64_to_i64(f: f64) -> i64 {
     // return i64::from_str(&format!("{}", f)).unwrap_or(i64::MAX);
     return f as i64;
@@ -572,18 +592,44 @@ impl XItem {
                 }
             },
             "double" | "xs:double" => {
-                if let Ok(d) = self.get_as_raw_double() {
-                    return Ok(new_xitem_double(d));
+                match self.atomize() {
+                    XItem::XIString{ref value} if ! is_double_literal(value) => {},
+                    item => {
+                        if let Ok(d) = item.get_as_raw_double() {
+                            return Ok(new_xitem_double(d));
+                        }
+                    },
                 }
             },
             "decimal" | "xs:decimal" => {
-                if let Ok(d) = self.get_as_raw_decimal() {
-                    return Ok(new_xitem_decimal(d));
+                match self.atomize() {
+                    XItem::XIString{ref value} if ! is_decimal_literal(value) => {},
+                    item => {
+                        if let Ok(d) = item.get_as_raw_decimal() {
+                            if d.is_finite() {
+                                return Ok(new_xitem_decimal(d));
+                            }
+                        }
+                    },
                 }
             },
             "integer" | "xs:integer" => {
-                if let Ok(i) = self.get_as_raw_integer() {
-                    return Ok(new_xitem_integer(i));
+                match self.atomize() {
+                    XItem::XIString{ref value} => {
+                        if let Ok(i) = i64::from_str(trim_xml_spaces(value)) {
+                            return Ok(new_xitem_integer(i));
+                        }
+                    },
+                    XItem::XIDecimal{value} | XItem::XIDouble{value} => {
+                        if let Some(i) = checked_f64_to_i64(value) {
+                            return Ok(new_xitem_integer(i));
+                        }
+                    },
+                    item => {
+                        if let Ok(i) = item.get_as_raw_integer() {
+                            return Ok(new_xitem_integer(i));
+                        }
+                    },
                 }
             },
             "boolean" | "xs:boolean" => {
-- 
2.43.0


From be164db8a9d738b3f78e43a4e2407a1a599d9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 19/48] fix: translate maps by the first occurrence of a
 character

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 34a4118..2404bdc 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -882,6 +882,7 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         for (i, c) in from_runes.iter().enumerate() {
             if ch == c {
                 index = i;
+                break;
             }
         }
         if index != usize::MAX {
-- 
2.43.0


From e4640bd110aa8977598508fd92866f73f8f0e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 20/48] fix: codepoints-to-string rejects numbers that are no
 characters

---
 src/xpath_impl/func.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 2404bdc..a99d9b2 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -568,22 +568,18 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:codepoints-to-string($arg as xs:integer*) as xs:string
 //
 fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let mut v: Vec<u16> = vec!{};
+    let mut s = String::new();
     for item in args[0].iter() {
-        let uni = item.get_as_raw_integer()? as u64;
-        if 0x10000 <= uni {                             // 代用対
-            let hi = (uni - 0x10000) / 0x0400 + 0xD800;
-            let lo = (uni - 0x10000) % 0x0400 + 0xDC00;
-            v.push(hi as u16);
-            v.push(lo as u16);
-        } else {
-            v.push(uni as u16);
+        let uni = item.get_as_raw_integer()?;
+        if uni < 0 || 0x10FFFF < uni {
+            return Err(dynamic_error!("Code point not valid."));
+        }
+        match ::std::char::from_u32(uni as u32) {
+            Some(ch) => s.push(ch),
+            None => return Err(dynamic_error!("Code point not valid.")),
         }
     }
-    match String::from_utf16(&v) {
-        Ok(s) => return Ok(new_singleton_string(&s)),
-        Err(_) => return Err(dynamic_error!("Code point not valid.")),
-    }
+    return Ok(new_singleton_string(&s));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 7e366e4614926b48a13c2cbfb97c125330793139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 21/48] fix: round does not lose precision by adding one half

---
 src/xpath_impl/func.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index a99d9b2..c8c2cfa 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -473,7 +473,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
                 |a| { Some(a) },
-                |a| { (a + 0.5).floor() },
+                |a| { round_half_up(a) },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
                 |a| { round_x(a) });
@@ -504,7 +504,16 @@ fn round_x(num: f64) -> f64 {
        (-0.5 <= num && num < 0.0) {
         return 1.0 / f64::NEG_INFINITY;                 // 負のゼロ
     } else {
-        return (num + 0.5).floor();
+        return round_half_up(num);
+    }
+}
+
+fn round_half_up(num: f64) -> f64 {
+    let floor = num.floor();
+    if 0.5 <= num - floor {     // num + 0.5 を求めると丸め誤差が生じうる。
+        return floor + 1.0;
+    } else {
+        return floor;
     }
 }
 
-- 
2.43.0


From 6f350d3430b0dcd9d1876778fa9337561461b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 22/48] fix: substring, subsequence and insert-before accept
 positions of any magnitude

---
 src/xpath_impl/func.rs | 62 +++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index c8c2cfa..1d29177 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -778,9 +778,9 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(sv.len(), starting_loc, length);
 
@@ -1268,7 +1268,7 @@ fn fn_tail(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_insert_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let target = args[0];
-    let mut position = args[1].get_singleton_integer()? - 1;
+    let mut position = args[1].get_singleton_integer()?.saturating_sub(1);
     let inserts = args[2];
     if position <= 0 {
         position = 0;
@@ -1333,9 +1333,9 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(
                     source_sequence.len(), starting_loc, length);
@@ -1701,49 +1701,31 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // s (starting_loc、1起点の値) と l (length) はf64型で、NaNやInfにもなりうる。
 // Cの要素 (番号 i := [b, e)、0起点の値) から成る部分集合を
 // 取得すればよいよう、bとe (usize型) を求めて返す。
-// 空集合を取得するべき場合は、b = 0、e = 0 を返す。
+// 空集合を取得するべき場合は、b = e とする。
+// length: 長さの指定がなければNone。
 //
 //                  7.4.3 fn:substring
 //                  15.1.10 fn:subsequence
 //
 fn subcollection_index_sub(source_length: usize,
-                           starting_loc: f64, length: f64) -> (usize, usize) {
+                           starting_loc: f64, length: Option<f64>) -> (usize, usize) {
 
-    if starting_loc.is_nan() || starting_loc.is_infinite() {
-        return (0, 0);
-    }
-    let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos - 1;                        // 0起点の値に補正
-    if b < 0 {
-        b = 0;
-    }
-    if source_length as i64 <= b {
-        b = source_length as i64;
-    }
+    // 1起点の位置 p のうち、beg <= p かつ p < end であるものを選ぶ。
+    let beg = round_x(starting_loc);
+    let end = match length {
+        Some(length) => beg + round_x(length),
+        None => f64::INFINITY,
+    };
 
-    let mut e: i64;
-    if length.is_infinite() && length.is_sign_positive() {
-        e = source_length as i64;
-    } else {
-        if length.is_nan() || length.is_sign_negative() {
-            return (0, 0);
-        }
-        let len_str = if length.is_infinite() {
-                source_length as i64
-            } else {
-                round_x(length) as i64                 // 非負の有限値
-            };
-        e = beg_pos + len_str - 1;
-        if e < b {
-            e = b;
-        }
-        if source_length as i64 <= e {
-            e = source_length as i64;
-        }
+    let mut b = 0;
+    while b < source_length && ! (beg <= (b + 1) as f64) {
+        b += 1;
     }
-
-    return (b as usize, e as usize);
-
+    let mut e = b;
+    while e < source_length && ((e + 1) as f64) < end {
+        e += 1;
+    }
+    return (b, e);
 }
 
 // =====================================================================
-- 
2.43.0


From 9a33f8329d0548de1ac3490fd4b85728049d9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 23/48] fix: index-of skips items of other types instead of
 failing

---
 src/xpath_impl/func.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 1d29177..99c1997 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1360,11 +1360,14 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let seq_param = args[0];
-    let srch_param = args[1];
+    let srch_param = new_singleton(&args[1].get_singleton_item()?);
     let mut result = new_xsequence();
     for (i, v) in seq_param.iter().enumerate() {
-        if value_compare_eq(&new_singleton(v), srch_param)?.get_singleton_boolean()? == true {
-            result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+        // 比較できない型のアイテムは、等しくないものとして扱う。
+        if let Ok(b) = value_compare_eq(&new_singleton(v), &srch_param) {
+            if b.get_singleton_boolean()? == true {
+                result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+            }
         }
     }
     return Ok(result);
-- 
2.43.0


From 2a8d807862ea7c859b3a260901e1577b25c2ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 24/48] fix: string functions take a node argument by its
 string value

---
 src/xpath_impl/xsequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index a936a62..4121a10 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -166,10 +166,11 @@ impl XSequence {
 
     // -----------------------------------------------------------------
     // シングルトンかつ文字列であれば、その文字列を返す。
+    // ノードは原子化する。
     //
     pub fn get_singleton_string(&self) -> Result<String, Box<Error>> {
         let item = self.get_singleton_item()?;
-        match item {
+        match item.atomize() {
             XItem::XIString{value} => return Ok(value),
             _ => {},
         }
-- 
2.43.0


From 07cb6b19376147dc0cff9f626fa07c1df86b6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 25/48] fix: a required keyword such as return or then is
 checked by its text

---
 src/xpath_impl/lexer.rs  | 2 +-
 src/xpath_impl/parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index f48bef6..64b813e 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -217,7 +217,7 @@ impl Lexer {
 
         let mut s = String::new();
         for i in min_index .. max_index {
-            if i == self.index - 1 {
+            if i + 1 == self.index {
                 s += &format!("≪{}≫", self.tokens[i].name);
             } else {
                 s += &format!(" {} ", self.tokens[i].name);
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 71ad020..0c58ebe 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -224,7 +224,7 @@ macro_rules! error_if_not_ttype {
 //
 macro_rules! error_if_not_name {
     ( $lex: expr, $name: expr, $msg: expr ) => {
-        if $lex.next_token().get_type() != TType::Name &&
+        if $lex.next_token().get_type() != TType::Name ||
            $lex.next_token().get_name() != $name {
             return Err(xpath_syntax_error!($msg,
                 $lex.around_tokens().as_str()));
-- 
2.43.0


From a64b2dc641f9dceeab4151c005be834c133c3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 26/48] fix: a missing operand or type in an XPath is an error,
 not a panic

---
 src/xpath_impl/eval.rs   |  2 +-
 src/xpath_impl/parser.rs | 42 ++++++++++++++++++++++++++++------------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index fae0455..1287d9a 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -183,7 +183,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                     eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
     if is_nil_xnode(xnode) {
-        panic!("Can't occur: evaluate_xnode, xnode is nil");
+        return Err(xpath_syntax_error!("式が必要な箇所に式がない。"));
     }
 
     let xnode_type = get_xnode_type(&xnode);
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 0c58ebe..2818653 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -796,6 +796,7 @@ fn parse_predicate(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 述語に式が必要。");
 
     error_if_not_ttype!(lex, TType::RightBracket, "{}: 述語を閉じる「]」が必要。");
     lex.get_token();
@@ -864,9 +865,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = for_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_for_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -881,6 +880,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(for_expr_xnode);
@@ -917,9 +917,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = let_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_let_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -934,6 +932,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(let_expr_xnode);
@@ -964,6 +963,7 @@ fn parse_simple_let_binding(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(XNodeType::LetVarBind, &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1006,9 +1006,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = quantified_expr_xnode.clone();
     loop {
         let xnode_var_bind = parse_simple_binding(lex, &xnode_ttype)?;
-        if is_nil_xnode(&xnode_var_bind) {
-            break;
-        }
+        error_if_nil!(lex, xnode_var_bind, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &xnode_var_bind);
         curr_xnode = get_right(&curr_xnode);
 
@@ -1023,6 +1021,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(quantified_expr_xnode);
@@ -1054,6 +1053,7 @@ fn parse_simple_binding(lex: &mut Lexer, xnode_type: &XNodeType) -> Result<XNode
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(xnode_type.clone(), &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1246,6 +1246,7 @@ fn parse_instanceof_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     if tok.get_type() == TType::InstanceOf {
         lex.get_token();
+        error_if_nil!(lex, xnode, "{}: 「instance of」の前には式が必要。");
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
             return Err(xpath_syntax_error!(
@@ -1269,6 +1270,7 @@ fn parse_treat_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     if tok.get_type() == TType::TreatAs {
         lex.get_token();
+        error_if_nil!(lex, xnode, "{}: 「treat as」の前には式が必要。");
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
             return Err(xpath_syntax_error!(
@@ -1408,6 +1410,7 @@ pub fn parse_function_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let sequence_type_xnode = parse_sequence_type(lex)?;
+    error_if_nil!(lex, sequence_type_xnode, "{}: 戻り値の型が必要。");
     let return_type_xnode = new_xnode(XNodeType::ReturnType, "");
     assign_as_left(&return_type_xnode, &sequence_type_xnode);
     assign_as_right(&return_type_xnode, &sequence_type_list_xnode);
@@ -1427,6 +1430,7 @@ fn parse_sequence_type_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 引数の型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, "");
         assign_as_left(&param_xnode, &sequence_type_xnode);
         assign_as_right(&curr, &param_xnode);
@@ -1481,6 +1485,7 @@ fn parse_map_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
 
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 要素の型が必要。");
         assign_as_right(&xnode, &sequence_type_xnode);
 
     }
@@ -1519,6 +1524,7 @@ fn parse_array_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         assign_as_left(&sequence_type_xnode, &item_test_xnode);
     } else {
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 要素の型が必要。");
         assign_as_left(&xnode, &sequence_type_xnode);
     }
 
@@ -1536,6 +1542,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     lex.get_token();
 
     let xnode = parse_item_type(lex)?;
+    error_if_nil!(lex, xnode, "{}: 型が必要。");
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
@@ -1559,6 +1566,7 @@ fn parse_castable_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     if tok.get_type() == TType::CastableAs {
         lex.get_token();
+        error_if_nil!(lex, xnode, "{}: キャストする式が必要。");
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
             return Err(xpath_syntax_error!(
@@ -1588,6 +1596,7 @@ fn parse_cast_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     if tok.get_type() == TType::CastAs {
         lex.get_token();
+        error_if_nil!(lex, xnode, "{}: キャストする式が必要。");
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
             return Err(xpath_syntax_error!(
@@ -1654,6 +1663,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = xnode.clone();
     while lex.next_token().get_type() == TType::Arrow {
         lex.get_token();
+        error_if_nil!(lex, curr_xnode, "{}: アロー演算子の前には式が必要。");
 
         let func_name = parse_static_func_name(lex)?;
         if func_name != "" {
@@ -1701,6 +1711,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Minus => {
             lex.get_token();
             let next_node = parse_value_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 符号の後には式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1708,6 +1719,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Plus => {
             lex.get_token();
             let next_node = parse_value_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 符号の後には式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1748,7 +1760,9 @@ fn parse_bin_op_sub(lex: &mut Lexer,
             None => break,
         };
         lex.get_token();
+        error_if_nil!(lex, xnode, "{}: 演算子の左側に式が必要。");
         let next_node = sub_parser(lex)?;
+        error_if_nil!(lex, next_node, "{}: 演算子の右側に式が必要。");
 
         let xnode_op = new_xnode(n_type.clone(), tok.get_name());
         assign_as_left(&xnode_op, &xnode);
@@ -1807,9 +1821,8 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_left(&op_path_xnode_l, &ds_xnode);
 
             let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode_l, &rel_xnode);
-            }
+            error_if_nil!(lex, rel_xnode, "{}: // の後には経路が必要。");
+            assign_as_right(&op_path_xnode_l, &rel_xnode);
             return Ok(op_path_xnode_u);
         },
         _ => {
@@ -1847,6 +1860,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Slash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後には経路の要素が必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
                 assign_as_left(&op_path_xnode, &step_expr_xnode);
                 assign_as_right(&curr_xnode, &op_path_xnode);
@@ -1855,6 +1869,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後には経路の要素が必要。");
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
@@ -2210,6 +2225,7 @@ fn parse_inline_function_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, xnode, "{}: 戻り値の型が必要。");
         assign_as_left(&return_type_xnode, &xnode);
     } else {        // 型の省略時は「item()*」
         assign_as_left(&return_type_xnode, &default_sequence_type());
@@ -2236,6 +2252,7 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
+        error_if_nil!(lex, param_xnode, "{}: 引数名が必要。");
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2261,6 +2278,7 @@ fn parse_param(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, seq_type_xnode, "{}: 引数の型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, &param_name);
         assign_as_left(&param_xnode, &seq_type_xnode);
         return Ok(param_xnode);
-- 
2.43.0


From 7fa7b8acae6e9b6c9aeca90a6fe74892fce441df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 27/48] fix: instance of a parenthesized item type tests that
 type

---
 src/xpath_impl/eval.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 1287d9a..9971beb 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1615,7 +1615,10 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
                 get_xnode_type(xnode)));
     }
 
-    let type_xnode = get_left(xnode);
+    let mut type_xnode = get_left(xnode);
+    while get_xnode_type(&type_xnode) == XNodeType::ParenthesizedItemType {
+        type_xnode = get_left(&type_xnode);
+    }
 
     // -----------------------------------------------------------------
     // empty-sequence()
@@ -1665,11 +1668,6 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
             return Ok(match_sequence_atomic_or_union_type(xseq, &type_xnode));
         },
 
-        XNodeType::ParenthesizedItemType => {
-            // =====================================================
-            return Ok(false);
-        },
-
         _ => {
             return Err(cant_occur!(
                 "match_sequence_type: xnodeの左辺値のxnode_typeが想定外: {:?}",
-- 
2.43.0


From 310b4d2211fc4dce42989bf3a84bad1a5ff3733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 28/48] fix: every item, a function item too, is an item()

---
 src/xpath_impl/xitem.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index a16e317..b66fd9e 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -511,10 +511,7 @@ impl XItem {
     // An item is either an atomic value, a node, or a function.
     //
     pub fn is_item(&self) -> bool {
-        match self {
-            XItem::XItemXNodePtr{value: _} => return false,
-            _ => return true,
-        }
+        return true;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From f47804967dd9b2b2a409b32403dd76174e013714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 29/48] fix: each step of a path is applied to the sorted
 result of the step before

---
 src/xpath_impl/eval.rs | 126 ++++++++++++++++++++++++-----------------
 1 file changed, 75 insertions(+), 51 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 9971beb..d4f804b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -210,60 +210,20 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             }
 
             // ---------------------------------------------------------
-            // (1b) 左辺値がノードのみのシーケンスでなければ
-            //      エラー (空シーケンスは可)。
+            // (2) ステップごとに、前のステップの評価値に適用していく。
+            //     「A/B/C」の構文木は右に連なっているが、
+            //     意味は「(A/B)/C」である。
             //
-            if ! lhs.is_no_atom() {
-                return Err(type_error!("Path演算子: ノード以外のアイテムがある。"));
-            }
-
-            // ---------------------------------------------------------
-            // (2) lhsの各ノードについて、右辺値を評価する。
-            //
-            let mut node_exists = false;
-            let mut atom_exists = false;
-            let mut result_seq = new_xsequence();
-
-            for item in lhs.iter() {
-                let xseq = new_singleton(&item);
-                let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
-
-                if val_seq.is_empty() {
-                    continue;
-                }
-
-                // -----------------------------------------------------
-                // (2-1) ノードごとの評価値を合併していく。
-                //       評価値がすべてノードのみのシーケンスか否かを
-                //       調べておく。
-                //
-                if ! val_seq.to_nodeset().is_empty() {
-                    node_exists = true;
-                }
-                if ! val_seq.is_no_atom() {
-                    atom_exists = true;
-                }
-                result_seq.append(&val_seq);
-
-                // -----------------------------------------------------
-                // (2-3) ノードと非ノードが混在していればエラー。
-                //
-                if node_exists && atom_exists {
-                    return Err(type_error!("Path演算子: ノードと非ノードが混在している。"));
-                }
+            let mut curr_xseq = lhs;
+            let mut curr_xnode = right_xnode;
+            while get_xnode_type(&curr_xnode) == XNodeType::OperatorPath {
+                curr_xseq = evaluate_path_step(&curr_xseq, &get_left(&curr_xnode), eval_env)?;
+                curr_xnode = get_right(&curr_xnode);
             }
-
-            // ---------------------------------------------------------
-            // (3) 最後に、ノードのみのシーケンスであれば、整列、重複排除する。
-            //
-            if node_exists {
-                let mut nodeset = result_seq.to_nodeset();
-                eval_env.sort_by_doc_order(&mut nodeset);
-                let sorted_seq = new_xsequence_from_node_array(&nodeset);
-                return Ok(sorted_seq);
-            } else {
-                return Ok(result_seq);
+            if is_nil_xnode(&curr_xnode) {
+                return Ok(curr_xseq);
             }
+            return evaluate_path_step(&curr_xseq, &curr_xnode, eval_env);
         },
 
         XNodeType::OperatorMap => {
@@ -775,6 +735,70 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
     }
 }
 
+// ---------------------------------------------------------------------
+// Path演算子: 左辺値の各ノードについて、ステップ right_xnode を評価し、
+// 結果を合併する。
+//
+fn evaluate_path_step(lhs: &XSequence, right_xnode: &XNodePtr,
+                eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+
+    // ---------------------------------------------------------
+    // (1b) 左辺値がノードのみのシーケンスでなければ
+    //      エラー (空シーケンスは可)。
+    //
+    if ! lhs.is_no_atom() {
+        return Err(type_error!("Path演算子: ノード以外のアイテムがある。"));
+    }
+
+    // ---------------------------------------------------------
+    // (2) lhsの各ノードについて、右辺値を評価する。
+    //
+    let mut node_exists = false;
+    let mut atom_exists = false;
+    let mut result_seq = new_xsequence();
+
+    for item in lhs.iter() {
+        let xseq = new_singleton(&item);
+        let val_seq = evaluate_xnode(&xseq, right_xnode, eval_env)?;
+
+        if val_seq.is_empty() {
+            continue;
+        }
+
+        // -----------------------------------------------------
+        // (2-1) ノードごとの評価値を合併していく。
+        //       評価値がすべてノードのみのシーケンスか否かを
+        //       調べておく。
+        //
+        if ! val_seq.to_nodeset().is_empty() {
+            node_exists = true;
+        }
+        if ! val_seq.is_no_atom() {
+            atom_exists = true;
+        }
+        result_seq.append(&val_seq);
+
+        // -----------------------------------------------------
+        // (2-3) ノードと非ノードが混在していればエラー。
+        //
+        if node_exists && atom_exists {
+            return Err(type_error!("Path演算子: ノードと非ノードが混在している。"));
+        }
+    }
+
+    // ---------------------------------------------------------
+    // (3) 最後に、ノードのみのシーケンスであれば、整列、重複排除する。
+    //
+    if node_exists {
+        let mut nodeset = result_seq.to_nodeset();
+        eval_env.sort_by_doc_order(&mut nodeset);
+        let sorted_seq = new_xsequence_from_node_array(&nodeset);
+        return Ok(sorted_seq);
+    } else {
+        return Ok(result_seq);
+    }
+}
+
 // ---------------------------------------------------------------------
 // XSequence中の各ノードに対し、xnodeで示されるLocStepを適用して
 // 合致するノード集合を取得し、その合併をXSequenceとして返す。
-- 
2.43.0


From 3fb4c34aa8d143fb0f357ca09241ad254205ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 30/48] fix: the name test *:n selects by local name

---
 src/xpath_impl/eval.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index d4f804b..a7e861e 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1122,6 +1122,15 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
         }
     }
 
+    // -------------------------------------------------------------
+    // 「*:na」との照合にもとづく判定
+    //
+    if v.len() == 2 && v[0] == "*" {
+        if node.local_name() == v[1] {
+            return true;
+        }
+    }
+
     return false;
 }
 
-- 
2.43.0


From a612dc9c23dae91dc4099aa3ef807ae52ec9d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 31/48] fix: position() and last() in a path step and after !
 are those of the item

---
 src/xpath_impl/eval.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a7e861e..6d341da 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -250,9 +250,13 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             //     整列や重複排除はしない。
             //
             let mut result_seq = new_xsequence();
-            for item in lhs.iter() {
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(lhs.len());
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
                 result_seq.append(&val_seq);
             }
 
@@ -757,9 +761,13 @@ fn evaluate_path_step(lhs: &XSequence, right_xnode: &XNodePtr,
     let mut atom_exists = false;
     let mut result_seq = new_xsequence();
 
-    for item in lhs.iter() {
+    for (i, item) in lhs.iter().enumerate() {
         let xseq = new_singleton(&item);
+        let old_position = eval_env.set_position(i + 1);
+        let old_last = eval_env.set_last(lhs.len());
         let val_seq = evaluate_xnode(&xseq, right_xnode, eval_env)?;
+        eval_env.set_last(old_last);
+        eval_env.set_position(old_position);
 
         if val_seq.is_empty() {
             continue;
-- 
2.43.0


From d2f719440895626d114ec43525d31d2082fa364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 32/48] fix: several unary signs in a row are accepted

---
 src/xpath_impl/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 2818653..5131c7d 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1703,14 +1703,14 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
-// [ 23] UnaryExpr ::= ( "-" | "+" )? ValueExpr
+// [ 23] UnaryExpr ::= ( "-" | "+" )* ValueExpr
 //
 fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     match tok.get_type() {
         TType::Minus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             error_if_nil!(lex, next_node, "{}: 符号の後には式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
@@ -1718,7 +1718,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::Plus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             error_if_nil!(lex, next_node, "{}: 符号の後には式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
-- 
2.43.0


From e3314d4bfd1d5d7d598f7c2c79c8a7129e5f825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 33/48] fix: names and operators are told apart by whether an
 operand has ended

---
 src/xpath_impl/lexer.rs | 123 ++++++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 54 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 64b813e..9167907 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -393,58 +393,14 @@ impl Lexer {
 
     // -----------------------------------------------------------------
     // 特別なトークン規則 (1)
-    // 前にトークンがあり、そのトークンが
-    //      prev_t_types
-    // のいずれでもない場合、
+    // 直前のトークンで被演算子 (式) が終わっている場合、
     //      "and" "or" "div" "mod" その他の名前を演算子名とする。
-    // (註1) XPath 1.0 の規格には明示的に書いてない (字句構造規則なので) が、
-    //       prev_t_typesにはコロン (:) も加える必要がある。
-    // (註2) XPath 2.0 でさらにトークン種を追加した。
+    // 被演算子の直後には別の被演算子が現れることはないので、
+    // その位置にある名前は、演算子名または "then" "return" などの語であり、
+    // それ以外の位置にある名前は、要素名などである。
+    // (註2) XPath 2.0 でトークン種を追加した。
     //
     fn rewrite_operator_type(&mut self) {
-        let prev_t_types = [
-            TType::EOF,             // 前にトークンがない場合はこの状態
-            TType::At,
-            TType::ColonColon,
-            TType::LeftParen,
-            TType::LeftBracket,
-            TType::Comma,
-            TType::And,
-            TType::Or,
-            TType::Div,
-            TType::IDiv,            // (註2)
-            TType::Mod,
-            TType::Slash,
-            TType::SlashSlash,
-            TType::Union,
-            TType::Intersect,       // (註2)
-            TType::Except,          // (註2)
-            TType::InstanceOf,      // (註2)
-            TType::TreatAs,         // (註2)
-            TType::CastableAs,      // (註2)
-            TType::CastAs,          // (註2)
-            TType::Plus,
-            TType::Minus,
-            TType::ValueEQ,         // (註2)
-            TType::ValueNE,         // (註2)
-            TType::ValueGT,         // (註2)
-            TType::ValueGE,         // (註2)
-            TType::ValueLT,         // (註2)
-            TType::ValueLE,         // (註2)
-            TType::GeneralEQ,
-            TType::GeneralNE,
-            TType::GeneralGT,
-            TType::GeneralGE,
-            TType::GeneralLT,
-            TType::GeneralLE,
-            TType::IsSameNode,      // (註2)
-            TType::To,              // (註2)
-            TType::NodeBefore,      // (註2)
-            TType::NodeAfter,       // (註2)
-            TType::Asterisk,
-            TType::Colon,           // (註1)
-        ];
-
         let operator_words: HashMap<&str, TType> = [
             ( "and",       TType::And ),
             ( "or",        TType::Or ),
@@ -464,16 +420,75 @@ impl Lexer {
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
 
+        let mut after_operand = false;
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
-            if ! prev_t_types.contains(&self.tokens[i-1].t_type) &&
-               self.tokens[i].t_type == TType::InnerName {
-                if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
-                    self.tokens[i].t_type = op_type.clone();
+            after_operand = match self.tokens[i].t_type {
+                TType::InnerName => {
+                    if after_operand {
+                        if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
+                            self.tokens[i].t_type = op_type.clone();
+                        } else if self.is_pair_word(i) {
+                            i += 1;
+                        }
+                    }
+                    ! after_operand
+                },
+                TType::Asterisk => {    // ワイルドカード、乗算または出現標識
+                    ! after_operand || self.is_occurrence_indicator(i)
+                },
+                TType::Plus | TType::Question => {      // Questionはルックアップの場合もある
+                    after_operand && self.is_occurrence_indicator(i)
+                },
+                TType::StringLiteral | TType::IntegerLiteral |
+                TType::DecimalLiteral | TType::DoubleLiteral |
+                TType::Dot | TType::DotDot | TType::ColonAsterisk |
+                TType::RightParen | TType::RightBracket | TType::RightCurly => true,
+                _ => false,
+            };
+            i += 1;
+        }
+    }
+
+    // -----------------------------------------------------------------
+    // i番めから、"instance of" など、2語から成る演算子が始まるか。
+    //
+    fn is_pair_word(&self, i: usize) -> bool {
+        let next = if self.tokens[i].name == "instance" { "of" } else { "as" };
+        return ["instance", "treat", "castable", "cast"].contains(&self.tokens[i].name.as_str()) &&
+               self.tokens[i+1].t_type == TType::InnerName &&
+               self.tokens[i+1].name == next;
+    }
+
+    // -----------------------------------------------------------------
+    // i番めの "?"、"*" または "+" が、"instance of" などの
+    // 型に続く出現標識か。
+    //
+    fn is_occurrence_indicator(&self, i: usize) -> bool {
+        // 型の先頭の位置を求める。
+        let mut top = i - 1;
+        if self.tokens[top].t_type == TType::RightParen {
+            let mut level = 1;
+            while 0 < level && 0 < top {
+                top -= 1;
+                match self.tokens[top].t_type {
+                    TType::RightParen => level += 1,
+                    TType::LeftParen => level -= 1,
+                    _ => {},
                 }
             }
-            i += 1;
+            if 1 < top && self.tokens[top - 1].t_type == TType::InnerName &&
+               ! self.is_pair_word(top - 2) {
+                top -= 1;
+            }
+        }
+        if 2 < top && self.tokens[top - 1].t_type == TType::Colon {
+            top -= 2;
         }
+        return 2 < top && self.is_pair_word(top - 2) &&
+               (self.tokens[i].t_type == TType::Question ||
+                self.tokens[top - 2].name == "instance" ||
+                self.tokens[top - 2].name == "treat");
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 9e9dc7f5bce396e75b49f144d4a9381611ce97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 34/48] fix: the string value of an element is its text,
 without comments and instructions

---
 src/xpath_impl/xitem.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index b66fd9e..e21f7bd 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -319,6 +319,17 @@ pub fn new_xitem_boolean(value: bool) -> XItem {
 //
 impl NodePtr {
 
+    // =================================================================
+    // 要素やルートの文字列値の一部になるノードか否か。
+    // 註釈や処理命令は含まれない。
+    //
+    fn is_text_container(&self) -> bool {
+        match self.node_type() {
+            NodeType::Element | NodeType::Text => return true,
+            _ => return false,
+        }
+    }
+
     // =================================================================
     // Returns the string value of DOM node.
     //
@@ -327,7 +338,9 @@ impl NodePtr {
             NodeType::DocumentRoot | NodeType::Element => {
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.string_value();
+                    if ch.is_text_container() {
+                        s += &ch.string_value();
+                    }
                 }
                 return s;
             },
@@ -335,7 +348,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::XMLDecl | NodeType::Instruction => {
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             _ => return String::new(),
         }
@@ -373,7 +386,9 @@ impl NodePtr {
             NodeType::DocumentRoot => {             // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    if ch.is_text_container() {
+                        s += &ch.typed_value();
+                    }
                 }
                 return s;
             },
@@ -381,7 +396,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::Instruction => {              // xs:string
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             NodeType::Attribute => {                // xs:untypedAtomic
                 return format!("{}", self.value());
@@ -389,7 +404,9 @@ impl NodePtr {
             NodeType::Element => {                  // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    if ch.is_text_container() {
+                        s += &ch.typed_value();
+                    }
                 }
                 return s;
             },
-- 
2.43.0


From 5481071e14dd402ae2ce245c283ec10fc4a679fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 35/48] fix: an exponent sign without digits is an error, not
 NaN

---
 src/xpath_impl/lexer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 9167907..b377327 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -695,12 +695,13 @@ impl Lexer {
             ch1 = self.read_rune();
             if ch1 == '+' || ch1 == '-' {
                 numeric_after_e.push(ch1);
-            } else if is_digit(ch1) {
-                self.unread_rune();
-            } else {
+                ch1 = self.read_rune();
+            }
+            if ! is_digit(ch1) {
                 return Err(xpath_syntax_error!(
                         "指数を表す [eE] の後には数字が必要。"));
             }
+            self.unread_rune();
             numeric_after_e.push_str(&self.fetch_digits());
         } else {
             self.unread_rune();
-- 
2.43.0


From 361219619afa6b235dce271f448798899b5c4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 36/48] fix: array { } is the empty array

---
 src/xpath_impl/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 6d341da..ae6c7c0 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2506,6 +2506,9 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
             // 配列の実体を取り出す。
             //
             let array_entry_xnode = get_left(&xnode);
+            if is_nil_xnode(&array_entry_xnode) {       // array { }
+                return Ok(new_xitem_array(&vec!{}));
+            }
             let val_xseq = evaluate_xnode(context_xseq, &array_entry_xnode, eval_env)?;
             let mut vec_item: Vec<XSequence> = vec!{};
             for item in val_xseq.iter() {
-- 
2.43.0


From 06ca26414a1ecb677c89afd39e86c1dd1858e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 37/48] fix: a reference to an undefined function or arity is
 an error

---
 src/xpath_impl/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 5131c7d..10e9bf1 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2188,6 +2188,16 @@ fn parse_named_function_ref(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let arity = tok.get_name();
     lex.get_token();
 
+    let is_defined = match arity.parse::<usize>() {
+        Ok(n) => func::check_function_spec(&func_name, n),
+        Err(_) => false,
+    };
+    if ! is_defined {
+        return Err(xpath_syntax_error!(
+            "{}#{}: 函数が未実装、または引数の数が不適切。",
+            func_name, arity));
+    }
+
     let xnode = new_xnode(XNodeType::NamedFunctionRef,
                     &(func_name + &"#" + &arity));
     return Ok(xnode);
-- 
2.43.0


From 3c5da6f32b48c6f06074c650d6f2e75ba3739705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 38/48] fix: a function, map or array is no map key

---
 src/xpath_impl/eval.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ae6c7c0..352817e 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2460,6 +2460,14 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
 
                 let map_key_xnode = get_left(&map_entry_xnode);
                 let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                match key {
+                    XItem::XItemXNodePtr{..} |
+                    XItem::XIMap{..} |
+                    XItem::XIArray{..} => {
+                        return Err(type_error!("map: key is a function: {}", key));
+                    },
+                    _ => {},
+                }
                 if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
                     return Err(dynamic_error!("map: duplicate key: {}", key));
                 }
-- 
2.43.0


From b6914cd01972511cb0f97ac9c34328c024e44bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 39/48] fix: a processing-instruction type with another name is
 no subtype

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 352817e..a9b6a3e 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2180,7 +2180,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                 }
             },
             XNodeType::PITest => {                          // 9. 10.
-                let pi_name = get_xnode_name(bi);
+                let pi_name = get_xnode_name(&get_left(bi));
                 if pi_name == "" {
                     if get_xnode_type(ai) == XNodeType::KindTest &&
                        get_xnode_type(&get_left(ai)) == XNodeType::PITest {
-- 
2.43.0


From 752aa5a52db3752d6e31222efa56e3c7a715cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 40/48] fix: parentheses around an item type do not change the
 type of a function

---
 src/xpath_impl/eval.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a9b6a3e..a423be7 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1656,10 +1656,7 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
                 get_xnode_type(xnode)));
     }
 
-    let mut type_xnode = get_left(xnode);
-    while get_xnode_type(&type_xnode) == XNodeType::ParenthesizedItemType {
-        type_xnode = get_left(&type_xnode);
-    }
+    let type_xnode = get_item_type(xnode);
 
     // -----------------------------------------------------------------
     // empty-sequence()
@@ -1717,6 +1714,17 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
     }
 }
 
+// ---------------------------------------------------------------------
+// SequenceTypeであるxnodeから、括弧をはずしたItemTypeを取り出す。
+//
+fn get_item_type(xnode: &XNodePtr) -> XNodePtr {
+    let mut type_xnode = get_left(xnode);
+    while get_xnode_type(&type_xnode) == XNodeType::ParenthesizedItemType {
+        type_xnode = get_left(&type_xnode);
+    }
+    return type_xnode;
+}
+
 // ---------------------------------------------------------------------
 // シーケンス xseq の型を、シーケンス型の定義 type_xnode と照合する。
 // type_xnode が XNodeType::KindTest である場合。
@@ -1882,7 +1890,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
             if signature_xnode.len() != 2 {
                 return Ok(false);
             }
-            let key_type = get_xnode_name(&get_left(&signature_xnode[1]));
+            let key_type = get_xnode_name(&get_item_type(&signature_xnode[1]));
             if ! match_map_sequence_type(&xseq_map, &key_type, &signature_xnode[0])? {
                 return Ok(false);
             }
@@ -2056,14 +2064,14 @@ fn subtype(a: &XNodePtr, b: &XNodePtr) -> bool {
     match SUBTYPE_TBL[subtype_entry(a)][subtype_entry(b)] {
         0 => return false,
         1 => return true,
-        _ => return subtype_itemtype(&get_left(a), &get_left(b)),
+        _ => return subtype_itemtype(&get_item_type(a), &get_item_type(b)),
     }
 }
 
 fn subtype_entry(xnode: &XNodePtr) -> usize {
     // assert: get_xnode_type(xnode) == XNodeType::SequenceType
 
-    let type_xnode = get_left(xnode);
+    let type_xnode = get_item_type(xnode);
     if get_xnode_type(&type_xnode) == XNodeType::EmptySequenceTest {
         return S_EMPTY_SEQ;
     }
@@ -2321,7 +2329,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let bi_val = get_left(&ret_xnode);          // SequenceType
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
-        let bi_key = get_left(&seq_xnode);          // AtomicOrUnionType
+        let bi_key = get_item_type(&seq_xnode);     // AtomicOrUnionType
         if subtype_itemtype(&ai_key, &bi_key) &&
            subtype(&ai_val, &bi_val) {
             return true;
@@ -2378,7 +2386,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let bi_elem = get_left(&ret_xnode);         // SequenceType
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
-        let bi_arg = get_left(&seq_xnode);          // AtomicOrUnitonType
+        let bi_arg = get_item_type(&seq_xnode);     // AtomicOrUnitonType
         if derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
            subtype(&ai_elem, &bi_elem) {
             return true;
-- 
2.43.0


From 4a9d46af1aee59a09004fc74ebe96a10829e67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 41/48] fix: document-node() selects the document node

---
 src/xpath_impl/eval.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a423be7..3e2acb3 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1186,7 +1186,26 @@ fn match_kind_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
     let test_xnode = get_left(xnode);
     match get_xnode_type(&test_xnode) {
         XNodeType::DocumentTest => {
-            // DocumentTestは未実装。
+            if node_type != NodeType::DocumentRoot {
+                return false;
+            }
+
+            if is_nil_xnode(&get_left(&test_xnode)) {
+                return true;
+            }
+
+            // document-node(E): 要素が1個だけあって、Eに合致すること。
+            //
+            let mut matched = false;
+            for child in node.children().iter() {
+                if child.node_type() == NodeType::Element {
+                    if matched || ! match_kind_test(child, &test_xnode) {
+                        return false;
+                    }
+                    matched = true;
+                }
+            }
+            return matched;
         },
 
         XNodeType::ElementTest => {
-- 
2.43.0


From de31005ffb7c92d59bac373c27cd4aaf61f039d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 42/48] fix: element, attribute and document types compare in
 types of functions

---
 src/xpath_impl/eval.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3e2acb3..00ea009 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2221,6 +2221,27 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     }
                 }
             },
+            XNodeType::DocumentTest => {                    // 11. 12.
+                if get_xnode_type(ai) == XNodeType::KindTest &&
+                   get_xnode_type(&get_left(ai)) == XNodeType::DocumentTest {
+                    let be = get_left(&get_left(bi));
+                    let ae = get_left(&get_left(ai));
+                    if is_nil_xnode(&be) {
+                        return true;
+                    }
+                    if ! is_nil_xnode(&ae) && subtype_element(&ae, &be) {
+                        return true;
+                    }
+                }
+            },
+            XNodeType::ElementTest |                        // 13. - 18.
+            XNodeType::AttributeTest => {                   // 20. - 23.
+                if get_xnode_type(ai) == XNodeType::KindTest &&
+                   get_xnode_type(&get_left(ai)) == get_xnode_type(&get_left(bi)) &&
+                   subtype_element(&get_left(ai), &get_left(bi)) {
+                    return true;
+                }
+            },
             _ => {},
         }
     }
@@ -2418,6 +2439,27 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
     return false;
 }
 
+// ---------------------------------------------------------------------
+// element(N, T) または attribute(N, T) であるxnodeどうしの、名前と型を較べる。
+// Nの既定値は *、Tの既定値は xs:anyType? または xs:anyType である。
+//
+fn subtype_element(a: &XNodePtr, b: &XNodePtr) -> bool {
+    let b_name = get_xnode_name(b);
+    if b_name != "*" && b_name != get_xnode_name(a) {
+        return false;
+    }
+
+    let a_type = get_xnode_name(&get_left(a));
+    let b_type = get_xnode_name(&get_left(b));
+    if a_type.ends_with("?") && ! b_type.ends_with("?") {
+        return false;
+    }
+    let a_type_name = a_type.trim_right_matches('?');
+    let b_type_name = b_type.trim_right_matches('?');
+    return b_type_name == "xs:anyType" ||
+           derives_from(a_type_name, b_type_name);
+}
+
 // ---------------------------------------------------------------------
 //
 fn derives_from(ai: &str, bi: &str) -> bool {
-- 
2.43.0


From ada8c4da7adf35c4a2fb4aa7a38fa2224702f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 43/48] fix: appending an attribute or a document node, or to
 an attribute, is refused

---
 src/dom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 52bff65..97173d9 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -649,6 +649,11 @@ impl NodePtr {
             }
             curr = parent_rc_node(&rc_node);
         }
+        if rc_self.node_type == NodeType::Attribute
+        || rc_new_child.node_type == NodeType::Attribute
+        || rc_new_child.node_type == NodeType::DocumentRoot {
+            return;             // 属性や文書ノードは、子になれない。
+        }
         if let Some(old_parent) = new_child.parent() {
             old_parent.delete_child(new_child);
         }
-- 
2.43.0


From 3dcc950e1be6f73f7992b097892c3f28bf2934b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 44/48] fix: a missing argument, entry or node test in an XPath
 is an error

---
 src/xpath_impl/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 10e9bf1..25fb2ff 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -368,11 +368,15 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     "{}: namespace 軸は未実装。",
                     lex.around_tokens().as_str()));
             }
-            return parse_node_test(lex, axis);
+            let xnode = parse_node_test(lex, axis)?;
+            error_if_nil!(lex, xnode, "{}: 軸の後にノードテストが必要。");
+            return Ok(xnode);
         },
         TType::At => {  // 「@」は「attribute::」の省略形
             lex.get_token();
-            return parse_node_test(lex, &XNodeType::AxisAttribute);
+            let xnode = parse_node_test(lex, &XNodeType::AxisAttribute)?;
+            error_if_nil!(lex, xnode, "{}: @ の後にノードテストが必要。");
+            return Ok(xnode);
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
@@ -2372,6 +2376,7 @@ fn parse_map_constructor_entries(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let entry_xnode = parse_map_constructor_entry(lex)?;
+        error_if_nil!(lex, entry_xnode, "{}: カンマの後に項目が必要。");
         let entry_list_xnode = new_xnode(XNodeType::MapConstruct, "");
         assign_as_left(&entry_list_xnode, &entry_xnode);
         assign_as_right(&curr_xnode, &entry_list_xnode);
@@ -2476,6 +2481,7 @@ fn parse_expr_in_array(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let expr_xnode = parse_expr_single(lex)?;
+        error_if_nil!(lex, expr_xnode, "{}: カンマの後に式が必要。");
         let entry_xnode = new_xnode(XNodeType::ArrayEntry, "");
         assign_as_left(&entry_xnode, &expr_xnode);
         assign_as_right(&curr_xnode, &entry_xnode);
@@ -2661,6 +2667,7 @@ fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let next_arg_xnode = parse_argument(lex)?;
+        error_if_nil!(lex, next_arg_xnode, "{}: カンマの後に引数が必要。");
         assign_as_right(&curr, &next_arg_xnode);
         curr = next_arg_xnode.clone();
     }
-- 
2.43.0


From 9fb3c2ac79996a361b6832d49481f120b7b6285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 45/48] fix: a numeric literal has one exponent

---
 src/xpath_impl/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index b377327..3f353dd 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -653,8 +653,8 @@ impl Lexer {
                 numeric_literal.push_str(&self.fetch_numeric_after_period()?);
             } else {
                 self.unread_rune();
+                numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             }
-            numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             return Ok(numeric_literal);
         } else if ch1 == '.' {
             self.unread_rune();
-- 
2.43.0


From baf2a2874ab4661276f5d4c858538b393dadd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 46/48] fix: normalize-space trims XML white space, not every
 Unicode space

---
 src/xpath_impl/func.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 99c1997..1365d17 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -828,7 +828,7 @@ fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     }
 
     let arg = args[0].get_singleton_string()?;
-    let v: Vec<&str> = arg.split_whitespace().collect();
+    let v: Vec<&str> = arg.split(|ch: char| ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n').collect();
     let mut result = String::new();
     for t in v.iter() {
         result += t;
-- 
2.43.0


From 62c9b1bf9462e8ae0f30dc8ff654580a0d363c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 47/48] fix: an empty CDATA section is no text node

<a><![CDATA[]]></a> was read with an empty text node, written as <a></a>,
and that read again and written as <a/>.
---
 src/dom.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 97173d9..f0bf253 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -209,9 +209,12 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                 };
             },
             Ok(XmlToken::CharData{chardata}) => {
-                make_new_child_rc_node(NodeType::Text,
-                            &mut curr_node,
-                            "", chardata.as_str(), usize::MAX);
+                // an empty CDATA section is no text node
+                if chardata != "" {
+                    make_new_child_rc_node(NodeType::Text,
+                                &mut curr_node,
+                                "", chardata.as_str(), usize::MAX);
+                }
             },
             Ok(XmlToken::ProcInst{target, inst}) => {
                 if target == "xml" {
-- 
2.43.0


From 2d3441d1a6fe68febc77253689b3c546f4429a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 48/48] fix: signatures of normalize-space,
 string-to-codepoints, one-or-more, exactly-one and sum

---
 Cargo.lock             |  5 ++++-
 src/xpath_impl/func.rs | 12 ++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index e4e4c79..ccabd88 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,4 +1,7 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "amxml"
 version = "0.5.3"
-
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 1365d17..f18e529 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -42,7 +42,7 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:number#0", "function() as xs:double" ),
     ( "fn:number#1", "function(xs:anyAtomicType?) as xs:double" ),
     ( "fn:codepoints-to-string#1", "function(xs:integer*) as xs:string" ),
-    ( "fn:string-to-codepoints#1", "function(xs:string*) as xs:integer*" ),
+    ( "fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*" ),
     ( "fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?" ),
     ( "fn:compare#3", "function(xs:string?, xs:string?, xs:string) as xs:integer?" ),
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
@@ -54,8 +54,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
     ( "fn:string-length#1", "function(xs:string?) as xs:integer" ),
-    ( "fn:normalize-space#0", "function() as xs:integer" ),
-    ( "fn:normalize-space#1", "function(xs:string?) as xs:integer" ),
+    ( "fn:normalize-space#0", "function() as xs:string" ),
+    ( "fn:normalize-space#1", "function(xs:string?) as xs:string" ),
     ( "fn:upper-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:lower-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string" ),
@@ -95,15 +95,15 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*" ),
     ( "fn:index-of#3", "function(xs:anyAtomicType*, xs:anyAtomicType, xs:string) as xs:integer*" ),
     ( "fn:zero-or-one#1", "function(item()*) as item()?" ),
-    ( "fn:one-or-more#1", "function(item()*) as item()?" ),
-    ( "fn:exactly-one#1", "function(item()*) as item()?" ),
+    ( "fn:one-or-more#1", "function(item()*) as item()+" ),
+    ( "fn:exactly-one#1", "function(item()*) as item()" ),
     ( "fn:count#1", "function(item()*) as xs:integer" ),
     ( "fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?" ),
     ( "fn:min#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:min#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?"  ),
-    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
+    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType" ),
     ( "fn:sum#2", "function(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?" ),
     ( "fn:position#0", "function() as xs:integer" ),
     ( "fn:last#0", "function() as xs:integer" ),
-- 
2.43.0

