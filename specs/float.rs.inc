// ---- floating point: the operations are deterministic functions of their operands (trusted); nothing else
// is known about them, except the few IEEE 754 facts stated here as axioms.
pub  mod fl { use super::*;
pub  uninterp spec fn f_add(a: f64, b: f64) -> f64;
pub  uninterp spec fn f_sub(a: f64, b: f64) -> f64;
pub  uninterp spec fn f_mul(a: f64, b: f64) -> f64;
pub  uninterp spec fn f_div(a: f64, b: f64) -> f64;
pub  uninterp spec fn f_rem(a: f64, b: f64) -> f64;
pub  uninterp spec fn f_neg(a: f64) -> f64;
pub  uninterp spec fn f_eq(a: f64, b: f64) -> bool;
pub  uninterp spec fn f_lt(a: f64, b: f64) -> bool;
pub  uninterp spec fn f_nan(a: f64) -> bool;
pub  uninterp spec fn f_inf(a: f64) -> bool;
pub  uninterp spec fn f_finite(a: f64) -> bool;
pub  uninterp spec fn f_trunc(a: f64) -> f64;
pub  uninterp spec fn f_signum(a: f64) -> f64;
pub  uninterp spec fn f_of_int(n: int) -> f64;
pub  broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub  broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub  broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub  broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub  broadcast axiom fn ax_neg_req(a: f64) ensures #[trigger] a.neg_req();
pub  broadcast axiom fn ax_add(a: f64, b: f64, r: f64) ensures #[trigger] add_ensures::<f64>(a, b, r) ==> r == f_add(a, b);
pub  broadcast axiom fn ax_sub(a: f64, b: f64, r: f64) ensures #[trigger] sub_ensures::<f64>(a, b, r) ==> r == f_sub(a, b);
pub  broadcast axiom fn ax_mul(a: f64, b: f64, r: f64) ensures #[trigger] mul_ensures::<f64>(a, b, r) ==> r == f_mul(a, b);
pub  broadcast axiom fn ax_div(a: f64, b: f64, r: f64) ensures #[trigger] div_ensures::<f64>(a, b, r) ==> r == f_div(a, b);
pub  broadcast axiom fn ax_neg(a: f64, r: f64) ensures #[trigger] neg_ensures::<f64>(a, r) ==> r == f_neg(a);
pub  broadcast axiom fn ax_eq(a: f64, b: f64, r: bool) ensures #[trigger] eq_ensures::<f64>(a, b, r) ==> r == f_eq(a, b);
pub  broadcast axiom fn ax_ne(a: f64, b: f64, r: bool) ensures #[trigger] ne_ensures::<f64>(a, b, r) ==> r == !f_eq(a, b);
pub  broadcast axiom fn ax_lt(a: f64, b: f64, r: bool) ensures #[trigger] lt_ensures::<f64>(a, b, r) ==> r == f_lt(a, b);
pub  broadcast axiom fn ax_gt(a: f64, b: f64, r: bool) ensures #[trigger] gt_ensures::<f64>(a, b, r) ==> r == f_lt(b, a);
pub  broadcast axiom fn ax_le(a: f64, b: f64, r: bool) ensures #[trigger] le_ensures::<f64>(a, b, r) ==> r == (f_lt(a, b) || f_eq(a, b));
pub  broadcast axiom fn ax_ge(a: f64, b: f64, r: bool) ensures #[trigger] ge_ensures::<f64>(a, b, r) ==> r == (f_lt(b, a) || f_eq(a, b));
pub  broadcast axiom fn ax_eq_sym(a: f64, b: f64) ensures #[trigger] f_eq(a, b) == f_eq(b, a);
pub  broadcast group floats { ax_eq_sym, ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, ax_neg_req, ax_add, ax_sub, ax_mul, ax_div, ax_neg, ax_eq, ax_ne, ax_lt, ax_gt, ax_le, ax_ge }
}
use fl::*;
broadcast use fl::floats;
pub  assume_specification [f64::is_nan] (a: f64) -> (r: bool) ensures r == f_nan(a);
pub  assume_specification [f64::is_infinite] (a: f64) -> (r: bool) ensures r == f_inf(a);
pub  assume_specification [f64::is_finite] (a: f64) -> (r: bool) ensures r == f_finite(a);
pub  assume_specification [f64::signum] (a: f64) -> (r: f64) ensures r == f_signum(a);
pub  assume_specification [f64::trunc] (a: f64) -> (r: f64) ensures r == f_trunc(a);
#[verifier::external_body]
fn vrem(a: &f64, b: f64) -> (r: f64) ensures r == f_rem(*a, b) { *a % b }
#[verifier::external_body]
fn vneg(a: &f64) -> (r: f64) ensures r == f_neg(*a) { -*a }
