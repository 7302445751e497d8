// ---- nodes of the tree and function items: opaque handles; equality is identity (NodePtr == is Rc::ptr_eq)
#[verifier::external_body]
struct NodePtr { x: u8 }
#[verifier::external_body]
struct XNodePtr { x: u8 }
/// position in document order, string value and typed value of a node
uninterp spec fn ord(n: NodePtr) -> int;
#[verifier::opaque]
spec fn node_text(n: NodePtr) -> String { stext(text_of(n)) }
#[verifier::opaque]
spec fn node_typed(n: NodePtr) -> String { stext(typed_of(n)) }
/// a String is its text (trusted: std's Strings of equal text are told apart by nothing in safe code but their capacity)
uninterp spec fn stext(t: Seq<char>) -> String;
#[verifier::external_body]
proof fn ax_stext() ensures forall|s: String| stext(#[trigger] s@) == s { }
#[verifier::external_body]
proof fn ax_stext_of(t: Seq<char>) ensures stext(t)@ == t { }
impl Clone for NodePtr { #[verifier::external_body] fn clone(&self) -> (r: NodePtr) ensures r == *self { unimplemented!() } }
impl Clone for XNodePtr { #[verifier::external_body] fn clone(&self) -> (r: XNodePtr) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for NodePtr { 
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &NodePtr) -> bool { *self == *o } }
impl PartialEq for NodePtr { #[verifier::external_body] fn eq(&self, o: &NodePtr) -> (r: bool) { unimplemented!() } }
impl NodePtr {
    #[verifier::external_body] fn rc_clone(&self) -> (r: NodePtr) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn document_order(&self) -> (r: i64) ensures r == ord(*self) { unimplemented!() }
}
// ---- the tree of nodes (its invariants are C06's subject)
impl Clone for NodeType { #[verifier::external_body] fn clone(&self) -> (r: NodeType) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for NodeType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &NodeType) -> bool { *self == *o } }
impl PartialEq for NodeType { #[verifier::external_body] fn eq(&self, o: &NodeType) -> (r: bool) { unimplemented!() } }
uninterp spec fn ntype(n: NodePtr) -> NodeType;
uninterp spec fn nname(n: NodePtr) -> Seq<char>;
uninterp spec fn nspace(n: NodePtr) -> Seq<char>;
uninterp spec fn nlocal(n: NodePtr) -> Seq<char>;
uninterp spec fn nval(n: NodePtr) -> Seq<char>;
uninterp spec fn nattr(n: NodePtr, a: Seq<char>) -> Option<Seq<char>>;
uninterp spec fn kids(n: NodePtr) -> Seq<NodePtr>;
uninterp spec fn attrs(n: NodePtr) -> Seq<NodePtr>;
uninterp spec fn par(n: NodePtr) -> Option<NodePtr>;
uninterp spec fn rootn(n: NodePtr) -> NodePtr;
uninterp spec fn depth(n: NodePtr) -> nat;
uninterp spec fn height(n: NodePtr) -> nat;
/// the tree is finite, children and parents agree, siblings are different nodes, and the root is where the parents end
#[verifier::external_body]
proof fn ax_up(n: NodePtr) ensures match par(n) { Some(p) => depth(n) == depth(p) + 1 && rootn(n) == rootn(p), None => depth(n) == 0 && rootn(n) == n } { }
#[verifier::external_body]
proof fn ax_down(n: NodePtr, i: int) ensures 0 <= i < kids(n).len() ==> height(kids(n)[i]) < height(n) && par(kids(n)[i]) == Some(n) && !(ntype(kids(n)[i]) is Attribute) { }
#[verifier::external_body]
proof fn ax_sib(n: NodePtr, i: int, j: int) ensures 0 <= i < j < kids(n).len() ==> kids(n)[i] != kids(n)[j] { }
#[verifier::external_body]
proof fn ax_kid(n: NodePtr) ensures match par(n) { Some(p) => !(ntype(p) is Attribute) && (!(ntype(n) is Attribute) ==> kids(p).contains(n)), None => true } { }

/// the string value of a node: the texts inside, in order, for a document and an element; its own text otherwise (C22)
spec fn text_of(n: NodePtr) -> Seq<char> decreases height(n), kids(n).len() + 2
{ match ntype(n) { NodeType::DocumentRoot | NodeType::Element => texts_in(n, kids(n).len()),
    NodeType::Text | NodeType::Attribute | NodeType::Comment | NodeType::Instruction | NodeType::XMLDecl => nval(n), _ => Seq::empty() } }
/// the texts in the first i children: comments and instructions do not count
spec fn texts_in(n: NodePtr, i: nat) -> Seq<char> decreases height(n), i + 1 via texts_dec
{ if i == 0 || i > kids(n).len() { Seq::empty() } else { let c = kids(n)[i - 1]; texts_in(n, (i - 1) as nat) + (if ntype(c) is Element || ntype(c) is Text { text_of(c) } else { Seq::empty() }) } }
#[via_fn] proof fn texts_dec(n: NodePtr, i: nat) { ax_down(n, i - 1); }
spec fn typed_of(n: NodePtr) -> Seq<char> { if ntype(n) is XMLDecl { Seq::empty() } else { text_of(n) } }
// ---- derived Clone gives an equal value (trusted)
impl Clone for XItem { #[verifier::external_body] fn clone(&self) -> (r: XItem) ensures r == *self { unimplemented!() } }
impl Clone for XSeqMap { #[verifier::external_body] fn clone(&self) -> (r: XSeqMap) ensures r == *self { unimplemented!() } }
impl Clone for XSeqArray { #[verifier::external_body] fn clone(&self) -> (r: XSeqArray) ensures r == *self { unimplemented!() } }
impl Clone for XSequence { #[verifier::external_body] fn clone(&self) -> (r: XSequence) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
fn vclone<T: Clone>(v: &T) -> (r: T) ensures r == *v { v.clone() }

// ---- texts: order by code points (trusted: str's Ord compares UTF-8 bytes, which is the same order)
spec fn text_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len()
{ if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) } else { text_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) } }
#[verifier::external_body]
fn vtextlt(a: &String, b: &String) -> (r: bool) ensures r == text_lt(a@, b@) { a < b }
#[verifier::external_body]
fn vtexteq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// numbers written as text, and read from text
uninterp spec fn dbl_text(x: f64) -> Seq<char>;
uninterp spec fn f_to_int(x: f64) -> i64;
impl VDisp for i64 { 
    spec fn vtext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body] fn vdisp(&self) -> (r: String) { self.to_string() } }
impl VDisp for f64 { 
    spec fn vtext(&self) -> Seq<char> { dbl_text(*self) }
    #[verifier::external_body] fn vdisp(&self) -> (r: String) { self.to_string() } }
#[verifier::external_body]
fn vas_f64(n: i64) -> (r: f64) ensures r == f_of_int(n as int) { n as f64 }
#[verifier::external_body]
fn vas_i64(x: f64) -> (r: i64) ensures r == f_to_int(x) { x as i64 }
#[verifier::external_body]
fn vends_with(s: &str, t: &str) -> (r: bool) ensures t@.len() == 1 ==> r == (s@.len() > 0 && s@[s@.len() - 1] == t@[0]) { s.ends_with(t) }
#[verifier::external_body]
fn vtrim_marks(s: &str) -> (r: &str) ensures r@ == no_mark(s@) { s.trim_right_matches('?') }
