// ---------------------------------------------------------------------------------------------
// Primitives the extracted text is written in, with the contracts that are ASSUMED for them.
// Everything marked external_body / axiom / assume_specification here is part of the trusted base
// (listed by the driver in every evidence file).
// ---------------------------------------------------------------------------------------------
pub mod prelude {
use super::*;

// ---- f64 as real numbers plus infinity (machine rounding and overflow are NOT modelled) ----
pub uninterp spec fn rv(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
pub uninterp spec fn pinf(x: f64) -> bool;
/// neither NaN nor minus infinity
pub open spec fn num(x: f64) -> bool { fin(x) || pinf(x) }
/// a <= b on finite numbers and plus infinity
pub open spec fn xle(a: f64, b: f64) -> bool { pinf(b) || (fin(a) && fin(b) && rv(a) <= rv(b)) }
pub open spec fn xlt(a: f64, b: f64) -> bool { fin(a) && (pinf(b) || (fin(b) && rv(a) < rv(b))) }
/// r <= b
pub open spec fn rle(r: real, b: f64) -> bool { pinf(b) || (fin(b) && r <= rv(b)) }
/// a <= r
pub open spec fn ler(a: f64, r: real) -> bool { fin(a) && rv(a) <= r }

pub broadcast axiom fn ax_excl(a: f64) ensures #[trigger] fin(a) ==> !pinf(a);
pub broadcast axiom fn ax_excl2(a: f64) ensures #[trigger] pinf(a) ==> !fin(a);
pub broadcast axiom fn ax_inf_eq(a: f64, b: f64) requires #[trigger] pinf(a), #[trigger] pinf(b) ensures a == b;
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] AddSpec::add_req(a, b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] MulSpec::mul_req(a, b);
pub broadcast axiom fn ax_add(a: f64, b: f64, o: f64) requires #[trigger] add_ensures::<f64>(a, b, o)
    ensures fin(a) && fin(b) ==> fin(o) && rv(o) == rv(a) + rv(b), num(a) && num(b) && (pinf(a) || pinf(b)) ==> pinf(o);
pub broadcast axiom fn ax_sub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures::<f64>(a, b, o)
    ensures fin(a) && fin(b) ==> fin(o) && rv(o) == rv(a) - rv(b), pinf(a) && fin(b) ==> pinf(o);
pub broadcast axiom fn ax_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures::<f64>(a, b, o)
    ensures fin(a) && fin(b) ==> fin(o) && rv(o) == rv(a) * rv(b);
pub broadcast axiom fn ax_lt(a: f64, b: f64, o: bool) requires #[trigger] lt_ensures::<f64>(a, b, o), num(a), num(b) ensures o == xlt(a, b);
pub broadcast axiom fn ax_gt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures::<f64>(a, b, o), num(a), num(b) ensures o == xlt(b, a);
pub broadcast axiom fn ax_le(a: f64, b: f64, o: bool) requires #[trigger] le_ensures::<f64>(a, b, o), num(a), num(b) ensures o == xle(a, b);
pub broadcast axiom fn ax_ge(a: f64, b: f64, o: bool) requires #[trigger] ge_ensures::<f64>(a, b, o), num(a), num(b) ensures o == xle(b, a);
pub open spec fn xeq(a: f64, b: f64) -> bool { (pinf(a) && pinf(b)) || (fin(a) && fin(b) && rv(a) == rv(b)) }
pub broadcast axiom fn ax_eq(a: f64, b: f64, o: bool) requires #[trigger] eq_ensures::<f64>(a, b, o), num(a), num(b) ensures o == xeq(a, b);
pub broadcast axiom fn ax_ne(a: f64, b: f64, o: bool) requires #[trigger] ne_ensures::<f64>(a, b, o), num(a), num(b) ensures o == !xeq(a, b);
// equality of vectors
pub broadcast axiom fn ax_vec_eq(a: Vec<usize>, b: Vec<usize>) ensures #[trigger] <Vec<usize> as PartialEqSpec<Vec<usize>>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_vec_obeys() ensures #[trigger] <Vec<usize> as PartialEqSpec<Vec<usize>>>::obeys_eq_spec();
pub broadcast group f64_model { ax_vec_eq, ax_vec_obeys, ax_excl, ax_excl2, ax_inf_eq, ax_add_req, ax_sub_req, ax_mul_req, ax_add, ax_sub, ax_mul, ax_lt, ax_gt, ax_le, ax_ge, ax_eq, ax_ne }

#[verifier::external_body] pub fn f64_infinity() -> (r: f64) ensures pinf(r) { f64::INFINITY }
#[verifier::external_body] pub fn f64_zero() -> (r: f64) ensures fin(r), rv(r) == 0real { 0.0 }
#[verifier::external_body] pub fn f64_one() -> (r: f64) ensures fin(r), rv(r) == 1real { 1.0 }
#[verifier::external_body] pub fn f64_two() -> (r: f64) ensures fin(r), rv(r) == 2real { 2.0 }
#[verifier::external_body] pub fn f64_half() -> (r: f64) ensures fin(r), 2real * rv(r) == 1real { 0.5 }
pub uninterp spec fn tol() -> real;
pub broadcast axiom fn ax_tol() ensures #[trigger] tol() * 10000000000real == 1real;
#[verifier::external_body] pub fn f64_lit_1em10() -> (r: f64) ensures fin(r), rv(r) == tol() { 1e-10 }
pub uninterp spec fn spow(x: real, n: int) -> real;
pub uninterp spec fn ssqrt(x: real) -> real;
pub broadcast axiom fn ax_spow2(x: real) ensures #[trigger] spow(x, 2) == x * x;
pub broadcast axiom fn ax_ssqrt(x: real) requires x >= 0real ensures #[trigger] ssqrt(x) >= 0real, ssqrt(x) * ssqrt(x) == x;
pub broadcast axiom fn ax_ssqrt0(x: real) requires x == 0real ensures #[trigger] ssqrt(x) == 0real;
#[verifier::external_body] pub fn f64_powi(x: f64, n: i32) -> (r: f64) ensures fin(x) ==> fin(r) && rv(r) == spow(rv(x), n as int) { x.powi(n) }
#[verifier::external_body] pub fn f64_sqrt(x: f64) -> (r: f64) ensures fin(x) && rv(x) >= 0real ==> fin(r) && rv(r) == ssqrt(rv(x)) { x.sqrt() }
#[verifier::external_body] pub fn f64_abs(x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && rv(r) == if rv(x) >= 0real { rv(x) } else { -rv(x) } { x.abs() }
#[verifier::external_body] pub fn f64_hypot(x: f64, y: f64) -> (r: f64) ensures fin(x) && fin(y) ==> fin(r) && rv(r) == ssqrt(rv(x) * rv(x) + rv(y) * rv(y)) { x.hypot(y) }

#[verifier::external_body] pub fn f64_partial_cmp(x: &f64, y: &f64) -> (r: Option<Ordering>)
    ensures num(*x) && num(*y) ==> r == Some(if xlt(*x, *y) { Ordering::Less } else if xlt(*y, *x) { Ordering::Greater } else { Ordering::Equal }) { x.partial_cmp(y) }
#[verifier::external_body] pub fn f64_total_cmp(x: &f64, y: &f64) -> (r: Ordering)
    ensures num(*x) && num(*y) ==> (xlt(*x, *y) ==> r == Ordering::Less) && (xlt(*y, *x) ==> r == Ordering::Greater) { x.total_cmp(y) }

// ---- ordered_float::OrderedFloat, std::cmp::Reverse ----
pub struct OrderedFloat<T>(pub T);
pub struct Reverse<T>(pub T);
impl OrderedFloat<f64> {
    #[verifier::external_body] pub fn cmp(&self, o: &OrderedFloat<f64>) -> (r: Ordering)
        ensures num(self.0) && num(o.0) ==> r == if xlt(self.0, o.0) { Ordering::Less } else if xlt(o.0, self.0) { Ordering::Greater } else { Ordering::Equal } { unimplemented!() }
}
pub fn ord_is_gt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { match o { Ordering::Greater => true, _ => false } }
pub fn ord_is_lt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less) { match o { Ordering::Less => true, _ => false } }
pub fn ord_is_le(o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater) { match o { Ordering::Greater => false, _ => true } }
pub fn ord_is_ge(o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less) { match o { Ordering::Less => false, _ => true } }
pub trait Key: Sized { spec fn klt(a: Self, b: Self) -> bool; spec fn kok(a: Self) -> bool; fn key_less(a: Self, b: Self) -> (r: bool) ensures Self::kok(a) && Self::kok(b) ==> r == Self::klt(a, b); }
impl Key for OrderedFloat<f64> { open spec fn klt(a: Self, b: Self) -> bool { xlt(a.0, b.0) } open spec fn kok(a: Self) -> bool { num(a.0) } #[verifier::external_body] fn key_less(a: Self, b: Self) -> bool { a.0 < b.0 } }
impl Key for &usize { open spec fn klt(a: Self, b: Self) -> bool { *a < *b } open spec fn kok(a: Self) -> bool { true } fn key_less(a: Self, b: Self) -> bool { *a < *b } }
impl Key for usize { open spec fn klt(a: Self, b: Self) -> bool { a < b } open spec fn kok(a: Self) -> bool { true } fn key_less(a: Self, b: Self) -> bool { a < b } }
pub fn key_lt<K: Key>(a: K, b: K) -> (r: bool) ensures K::kok(a) && K::kok(b) ==> r == K::klt(a, b) { K::key_less(a, b) }

// ---- integers ----
pub trait MinMax: Sized { spec fn s_min(a: Self, b: Self) -> Self; spec fn s_max(a: Self, b: Self) -> Self; spec fn s_ok(a: Self) -> bool; fn e_min(a: Self, b: Self) -> (r: Self) ensures Self::s_ok(a) && Self::s_ok(b) ==> r == Self::s_min(a, b); fn e_max(a: Self, b: Self) -> (r: Self) ensures Self::s_ok(a) && Self::s_ok(b) ==> r == Self::s_max(a, b); }
impl MinMax for usize { open spec fn s_min(a: usize, b: usize) -> usize { if a < b { a } else { b } } open spec fn s_max(a: usize, b: usize) -> usize { if a < b { b } else { a } } open spec fn s_ok(a: usize) -> bool { true } fn e_min(a: usize, b: usize) -> usize { if a < b { a } else { b } } fn e_max(a: usize, b: usize) -> usize { if a < b { b } else { a } } }
impl MinMax for f64 { open spec fn s_min(a: f64, b: f64) -> f64 { if xlt(b, a) { b } else { a } } open spec fn s_max(a: f64, b: f64) -> f64 { if xlt(a, b) { b } else { a } } open spec fn s_ok(a: f64) -> bool { num(a) } #[verifier::external_body] fn e_min(a: f64, b: f64) -> f64 { a.min(b) } #[verifier::external_body] fn e_max(a: f64, b: f64) -> f64 { a.max(b) } }
pub fn min_of<T: MinMax>(a: T, b: T) -> (r: T) ensures T::s_ok(a) && T::s_ok(b) ==> r == T::s_min(a, b) { T::e_min(a, b) }
pub fn max_of<T: MinMax>(a: T, b: T) -> (r: T) ensures T::s_ok(a) && T::s_ok(b) ==> r == T::s_max(a, b) { T::e_max(a, b) }
pub fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub open spec fn npow(b: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { b * npow(b, (e - 1) as nat) } }
#[verifier::external_body] pub fn usize_pow(b: usize, e: u32) -> (r: usize) requires npow(b as nat, e as nat) <= usize::MAX ensures r == npow(b as nat, e as nat) { b.pow(e) }
pub trait Summable: Sized { spec fn is_zero(a: Self) -> bool; spec fn add_req(a: Self, b: Self) -> bool; spec fn is_sum(a: Self, b: Self, r: Self) -> bool; fn z() -> (r: Self) ensures Self::is_zero(r); fn plus(a: Self, b: Self) -> (r: Self) requires Self::add_req(a, b) ensures Self::is_sum(a, b, r); }
impl Summable for usize { open spec fn is_zero(a: usize) -> bool { a == 0 } open spec fn add_req(a: usize, b: usize) -> bool { a + b <= usize::MAX } open spec fn is_sum(a: usize, b: usize, r: usize) -> bool { r == a + b } fn z() -> usize { 0 } fn plus(a: usize, b: usize) -> usize { a + b } }
impl Summable for f64 { open spec fn is_zero(a: f64) -> bool { fin(a) && rv(a) == 0real } open spec fn add_req(a: f64, b: f64) -> bool { true } open spec fn is_sum(a: f64, b: f64, r: f64) -> bool { (fin(a) && fin(b) ==> fin(r) && rv(r) == rv(a) + rv(b)) && (num(a) && num(b) && (pinf(a) || pinf(b)) ==> pinf(r)) } #[verifier::external_body] fn z() -> f64 { 0.0 } #[verifier::external_body] fn plus(a: f64, b: f64) -> f64 { a + b } }
pub fn sum_zero<T: Summable>() -> (r: T) ensures T::is_zero(r) { T::z() }
pub fn sum_add<T: Summable>(a: T, b: T) -> (r: T) requires T::add_req(a, b) ensures T::is_sum(a, b, r) { T::plus(a, b) }

// ---- panics: a reachable panic is a failed obligation ----
pub fn runtime_check(c: bool) requires c {}
#[verifier::external_body] pub fn unreachable_panic() -> ! requires false { panic!() }
/// o itself; ties the element type of o to the type of x
pub fn opt_like<'a, T>(o: &'a Option<T>, x: &T) -> (r: &'a Option<T>) ensures r == o { o }
/// assert! that is allowed to abort
#[verifier::external_body] pub fn abort_unless(c: bool) ensures c { assert!(c) }

// ---- sequences ----
pub trait ItSeq {
    type Item;
    spec fn its(&self) -> Seq<Self::Item>;
    fn it_len(&self) -> (r: usize) ensures r == self.its().len();
    fn it_at(&self, k: usize) -> (r: &Self::Item) requires k < self.its().len() ensures *r == self.its()[k as int];
    fn it_take(&mut self, k: usize) -> (r: Self::Item) requires k < old(self).its().len() ensures r == old(self).its()[k as int], final(self).its() == old(self).its();
}
impl<T> ItSeq for Vec<T> { type Item = T; open spec fn its(&self) -> Seq<T> { self@ } fn it_len(&self) -> usize { self.len() } fn it_at(&self, k: usize) -> &T { &self[k] } #[verifier::external_body] fn it_take(&mut self, k: usize) -> T { unimplemented!() } }
impl<T> ItSeq for [T] { type Item = T; open spec fn its(&self) -> Seq<T> { self@ } fn it_len(&self) -> usize { self.len() } fn it_at(&self, k: usize) -> &T { &self[k] } #[verifier::external_body] fn it_take(&mut self, k: usize) -> T { unimplemented!() } }
impl<T, const N: usize> ItSeq for [T; N] { type Item = T; open spec fn its(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it_len(&self) -> usize { N } #[verifier::external_body] fn it_at(&self, k: usize) -> &T { &self[k] } #[verifier::external_body] fn it_take(&mut self, k: usize) -> T { unimplemented!() } }

pub trait SeqOps<T> {
    spec fn sq(&self) -> Seq<T>;
    fn n_windows(&self, n: usize) -> (r: usize) requires n > 0 ensures r == if self.sq().len() >= n { self.sq().len() - n + 1 } else { 0 };
    fn window_at(&self, k: usize, n: usize) -> (r: &[T]) requires n > 0, k + n <= self.sq().len() ensures r@ == self.sq().subrange(k as int, k + n), r@.len() == n;
    fn n_chunks(&self, n: usize) -> (r: usize) requires n > 0 ensures r == self.sq().len() / (n as nat);
    fn chunk_at(&self, k: usize, n: usize) -> (r: &[T]) requires n > 0, k < self.sq().len() / (n as nat) ensures r@ == self.sq().subrange(k * n, k * n + n), r@.len() == n;
    fn chunk_at_mut(&mut self, k: usize, n: usize) -> (r: &mut [T]) requires n > 0, k < old(self).sq().len() / (n as nat)
        ensures r@ == old(self).sq().subrange(k * n, k * n + n), r@.len() == n, final(r)@.len() == n, final(self).sq().len() == old(self).sq().len(),
            forall|i: int| 0 <= i < old(self).sq().len() ==> #[trigger] final(self).sq()[i] == if k * n <= i < k * n + n { final(r)@[i - k * n] } else { old(self).sq()[i] };
    fn ptr_mut(&mut self, k: usize) -> (r: &mut T) requires k < old(self).sq().len() ensures *r == old(self).sq()[k as int], final(self).sq() == old(self).sq().update(k as int, *final(r));
    fn ptr_read(&self, k: usize) -> (r: T) requires k < self.sq().len() ensures r == self.sq()[k as int];
    fn mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).sq(), final(self).sq() == final(r)@;
}
impl<T> SeqOps<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn n_windows(&self, n: usize) -> usize { unimplemented!() }
    #[verifier::external_body] fn window_at(&self, k: usize, n: usize) -> &[T] { unimplemented!() }
    #[verifier::external_body] fn n_chunks(&self, n: usize) -> usize { unimplemented!() }
    #[verifier::external_body] fn chunk_at(&self, k: usize, n: usize) -> &[T] { unimplemented!() }
    #[verifier::external_body] fn chunk_at_mut(&mut self, k: usize, n: usize) -> &mut [T] { unimplemented!() }
    #[verifier::external_body] fn ptr_mut(&mut self, k: usize) -> &mut T { unimplemented!() }
    #[verifier::external_body] fn ptr_read(&self, k: usize) -> T { unimplemented!() }
    fn mut_slice(&mut self) -> &mut [T] { self.as_mut_slice() } }
impl<T> SeqOps<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn n_windows(&self, n: usize) -> usize { unimplemented!() }
    #[verifier::external_body] fn window_at(&self, k: usize, n: usize) -> &[T] { unimplemented!() }
    #[verifier::external_body] fn n_chunks(&self, n: usize) -> usize { unimplemented!() }
    #[verifier::external_body] fn chunk_at(&self, k: usize, n: usize) -> &[T] { unimplemented!() }
    #[verifier::external_body] fn chunk_at_mut(&mut self, k: usize, n: usize) -> &mut [T] { unimplemented!() }
    #[verifier::external_body] fn ptr_mut(&mut self, k: usize) -> &mut T { unimplemented!() }
    #[verifier::external_body] fn ptr_read(&self, k: usize) -> T { unimplemented!() }
    fn mut_slice(&mut self) -> &mut [T] { self } }
/// which iteration of a parallel loop has touched a cell through a raw pointer
pub struct Owners { pub m: Ghost<Map<int, int>> }
impl Owners { pub fn new() -> (r: Owners) ensures r.m@ == Map::<int, int>::empty() { Owners { m: Ghost(Map::empty()) } } }
/// iterations of a parallel loop touch different cells
pub fn own_cell(w: &mut Owners, cell: usize, it: usize) requires old(w).m@.dom().contains(cell as int) ==> old(w).m@[cell as int] == it ensures final(w).m@ == old(w).m@.insert(cell as int, it as int)
{ let ghost n = w.m@.insert(cell as int, it as int); w.m = Ghost(n); }
#[verifier::external_body] pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
#[verifier::external_body] pub fn mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn slice_two_mut<T>(s: &mut [T], i: usize, j: usize) -> (r: (&mut T, &mut T)) requires i < old(s)@.len(), j < old(s)@.len(), i != j
    ensures *r.0 == old(s)@[i as int], *r.1 == old(s)@[j as int], final(s)@ == old(s)@.update(i as int, *final(r.0)).update(j as int, *final(r.1)) { unimplemented!() }
#[verifier::external_body] pub fn shuffle_any<S: ItSeq + ?Sized>(x: &mut S) ensures final(x).its().len() == old(x).its().len(), final(x).its().to_multiset() == old(x).its().to_multiset() { unimplemented!() }
#[verifier::external_body] pub fn vec_from_elem<T>(e: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == e { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VIter<T> { p: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(), old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int) { unimplemented!() }
}
pub trait VecOps<T> { spec fn vq(&self) -> Seq<T>; fn vec_assign(&mut self, v: Vec<T>) ensures final(self).vq() == v@; fn into_viter(self) -> (r: VIter<T>) ensures r.rest() == self.vq(); }
impl<T> VecOps<T> for Vec<T> { open spec fn vq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vec_assign(&mut self, v: Vec<T>) { unimplemented!() } #[verifier::external_body] fn into_viter(self) -> VIter<T> { unimplemented!() } }

pub assume_specification<T> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) where T: std::cmp::PartialEq, ensures r == s@.contains(*x);
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) where T: std::clone::Clone ensures r@ == s@;
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();

/// std::thread::available_parallelism, assumed to succeed
#[verifier::external_body] pub fn available_parallelism() -> (r: usize) ensures r >= 1 { unimplemented!() }
// ---- hash containers ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HSet<T> { p: Vec<T> }
impl<T> HSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    pub uninterp spec fn order(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: HSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (b: bool) ensures final(self)@ == old(self)@.insert(x), b == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (b: bool) ensures b == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (n: bool) ensures n == (self@ == Set::<T>::empty()) { unimplemented!() }
    pub axiom fn ax_order(&self) ensures self.order().len() == self@.len(), self.order().no_duplicates(), self.order().to_set() == self@;
}
impl<T> ItSeq for HSet<T> { type Item = T; open spec fn its(&self) -> Seq<T> { self.order() } #[verifier::external_body] fn it_len(&self) -> usize { unimplemented!() } #[verifier::external_body] fn it_at(&self, k: usize) -> &T { unimplemented!() } #[verifier::external_body] fn it_take(&mut self, k: usize) -> T { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HMap<K, V> { p: Vec<(K, V)> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: HMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == if old(self)@.dom().contains(k) { old(self)@[k] } else { v }, final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None } { unimplemented!() }
}
/// the number behind a value or a reference
pub trait F64Val { spec fn fv(&self) -> f64; }
impl F64Val for f64 { open spec fn fv(&self) -> f64 { *self } }
impl F64Val for &f64 { open spec fn fv(&self) -> f64 { **self } }
impl F64Val for &mut f64 { open spec fn fv(&self) -> f64 { **self } }

/// rustc_hash::FxHasher: fx is the hash of the sequence of vectors that were fed to it (nothing is assumed about fx)
pub uninterp spec fn fx(fed: Seq<Seq<usize>>) -> u64;
#[verifier::external_body] pub struct FxHasher { p: u64 }
impl FxHasher {
    pub uninterp spec fn fed(&self) -> Seq<Seq<usize>>;
    #[verifier::external_body] pub fn default() -> (r: FxHasher) ensures r.fed() == Seq::<Seq<usize>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == fx(self.fed()) { unimplemented!() }
}
pub trait HashInto { spec fn hashed(&self) -> Seq<usize>; fn hash(&self, h: &mut FxHasher) ensures final(h).fed() == old(h).fed().push(self.hashed()); }
impl HashInto for Vec<usize> { open spec fn hashed(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn hash(&self, h: &mut FxHasher) { unimplemented!() } }
/// priority_queue::PriorityQueue
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct PriorityQueue<K, V> { p: Vec<(K, V)> }
pub type Pr = Reverse<OrderedFloat<f64>>;
/// priority of a is higher than that of b: Reverse of the cost
pub open spec fn pr_higher(a: Pr, b: Pr) -> bool { xlt(a.0.0, b.0.0) }
pub open spec fn pr_nums(m: Map<usize, Pr>) -> bool { forall|k: usize| #[trigger] m.dom().contains(k) ==> num(m[k].0.0) }
pub open spec fn key_listed(v: Seq<(usize, Pr)>, k: usize) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == k }
impl PriorityQueue<usize, Pr> {
    pub uninterp spec fn view(&self) -> Map<usize, Pr>;
    #[verifier::external_body] pub fn from(v: Vec<(usize, Pr)>) -> (r: PriorityQueue<usize, Pr>) requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i]).0 != (#[trigger] v@[j]).0
        ensures forall|k: usize| #[trigger] r@.dom().contains(k) <==> key_listed(v@, k), forall|k: usize| #![trigger r@.dom().contains(k)] #![trigger r@[k]] r@.dom().contains(k) ==> exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == (k, r@[k]) { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<(&usize, &Pr)>)
        ensures r is None ==> forall|k: usize| !#[trigger] self@.dom().contains(k),
            r is Some ==> self@.dom().contains(*r.unwrap().0) && self@[*r.unwrap().0] == *r.unwrap().1 && (pr_nums(self@) ==> forall|k: usize| #[trigger] self@.dom().contains(k) ==> !pr_higher(self@[k], *r.unwrap().1)) { unimplemented!() }
    /// raises the priority of k (inserting it if missing); returns the old priority if it was lower, the argument otherwise
    #[verifier::external_body] pub fn push_increase(&mut self, k: usize, p: Pr) -> (r: Option<Pr>)
        ensures !old(self)@.dom().contains(k) ==> r is None && final(self)@ == old(self)@.insert(k, p),
            old(self)@.dom().contains(k) && num(p.0.0) && num(old(self)@[k].0.0) && pr_higher(p, old(self)@[k]) ==> r == Some(old(self)@[k]) && final(self)@ == old(self)@.insert(k, p),
            old(self)@.dom().contains(k) && num(p.0.0) && num(old(self)@[k].0.0) && !pr_higher(p, old(self)@[k]) ==> r == Some(p) && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn push_decrease(&mut self, k: usize, p: Pr) -> (r: Option<Pr>)
        ensures !old(self)@.dom().contains(k) ==> r is None && final(self)@ == old(self)@.insert(k, p),
            old(self)@.dom().contains(k) && num(p.0.0) && num(old(self)@[k].0.0) && pr_higher(old(self)@[k], p) ==> r == Some(old(self)@[k]) && final(self)@ == old(self)@.insert(k, p),
            old(self)@.dom().contains(k) && num(p.0.0) && num(old(self)@[k].0.0) && !pr_higher(old(self)@[k], p) ==> r == Some(p) && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, k: usize, p: Pr) -> (r: Option<Pr>)
        ensures final(self)@ == old(self)@.insert(k, p), r == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None } { unimplemented!() }
    #[verifier::external_body] pub fn change_priority(&mut self, k: &usize, p: Pr) -> (r: Option<Pr>)
        ensures r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }, final(self)@ == if old(self)@.dom().contains(*k) { old(self)@.insert(*k, p) } else { old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<(usize, Pr)>)
        ensures r == if old(self)@.dom().contains(*k) { Some((*k, old(self)@[*k])) } else { None }, final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get_priority(&self, k: &usize) -> (r: Option<&Pr>)
        ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r.unwrap() == self@[*k] { unimplemented!() }
}

// ---- nalgebra matrices (column major) ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DMatrix<T> { p: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DVector<T> { p: Vec<T> }
impl<T> DVector<T> { pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn repeat(n: usize, x: T) -> (r: DVector<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() } }
impl<T> DMatrix<T> {
    pub uninterp spec fn nr(&self) -> nat;
    pub uninterp spec fn nc(&self) -> nat;
    pub uninterp spec fn e(&self, i: int, j: int) -> T;
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self.nr() { unimplemented!() }
    #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self.nc() { unimplemented!() }
    #[verifier::external_body] pub fn shape(&self) -> (r: (usize, usize)) ensures r.0 == self.nr(), r.1 == self.nc() { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize, j: usize) -> (r: T) requires i < self.nr(), j < self.nc() ensures r == self.e(i as int, j as int) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, i: usize, j: usize, v: T) requires i < old(self).nr(), j < old(self).nc()
        ensures final(self).nr() == old(self).nr(), final(self).nc() == old(self).nc(), forall|a: int, b: int| #[trigger] final(self).e(a, b) == if a == i && b == j { v } else { old(self).e(a, b) } { unimplemented!() }
    #[verifier::external_body] pub fn at_mut(&mut self, i: usize, j: usize) -> (r: &mut T) requires i < old(self).nr(), j < old(self).nc()
        ensures *r == old(self).e(i as int, j as int), final(self).nr() == old(self).nr(), final(self).nc() == old(self).nc(), forall|a: int, b: int| #[trigger] final(self).e(a, b) == if a == i && b == j { *final(r) } else { old(self).e(a, b) } { unimplemented!() }
    /// pointer arithmetic on the column-major storage: element k is (k mod rows, k div rows)
    #[verifier::external_body] pub fn ptr_mut(&mut self, k: usize) -> (r: &mut T) requires k < old(self).nr() * old(self).nc()
        ensures *r == old(self).e(k as int % old(self).nr() as int, k as int / old(self).nr() as int), final(self).nr() == old(self).nr(), final(self).nc() == old(self).nc(),
            forall|a: int, b: int| #[trigger] final(self).e(a, b) == if a == k as int % old(self).nr() as int && b == k as int / old(self).nr() as int { *final(r) } else { old(self).e(a, b) } { unimplemented!() }
    #[verifier::external_body] pub fn with_shape(r: usize, c: usize) -> (m: DMatrix<T>) ensures m.nr() == r, m.nc() == c { unimplemented!() }
    #[verifier::external_body] pub fn from_element(r: usize, c: usize, x: T) -> (m: DMatrix<T>) ensures m.nr() == r, m.nc() == c, forall|a: int, b: int| 0 <= a < r && 0 <= b < c ==> #[trigger] m.e(a, b) == x { unimplemented!() }
    #[verifier::external_body] pub fn set_diagonal(&mut self, d: &DVector<T>) requires d@.len() == old(self).nr(), d@.len() == old(self).nc()
        ensures final(self).nr() == old(self).nr(), final(self).nc() == old(self).nc(), forall|a: int, b: int| 0 <= a < old(self).nr() && 0 <= b < old(self).nc() ==> #[trigger] final(self).e(a, b) == if a == b { d@[a] } else { old(self).e(a, b) } { unimplemented!() }
}
/// view of one row of a matrix; its storage is strided by the number of rows of the matrix
#[verifier::external_body] pub struct RowView { p: Vec<f64> }
impl RowView {
    pub uninterp spec fn view(&self) -> Seq<f64>;
    /// number of rows of the matrix the row belongs to (stride of the storage)
    pub uninterp spec fn stride(&self) -> nat;
    /// the matrix is held in memory, so its number of elements is a usize
    #[verifier::external_body] pub fn shape(&self) -> (r: (usize, usize)) ensures r.0 == 1, r.1 == self@.len(), self.stride() * self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize, j: usize) -> (r: f64) requires i == 0, j < self@.len() ensures r == self@[j as int] { unimplemented!() }
    /// read through a raw pointer at an offset from the first element of the row
    #[verifier::external_body] pub fn ptr_read(&self, k: usize) -> (r: f64) requires self.stride() > 0, k as int % self.stride() as int == 0, k as int / (self.stride() as int) < self@.len()
        ensures r == self@[k as int / self.stride() as int] { unimplemented!() }
}
impl ItSeq for RowView { type Item = f64; open spec fn its(&self) -> Seq<f64> { self@ } #[verifier::external_body] fn it_len(&self) -> usize { unimplemented!() } #[verifier::external_body] fn it_at(&self, k: usize) -> &f64 { unimplemented!() } #[verifier::external_body] fn it_take(&mut self, k: usize) -> f64 { unimplemented!() } }
impl DMatrix<f64> {
    #[verifier::external_body] pub fn row(&self, i: usize) -> (r: RowView) requires i < self.nr() ensures r@.len() == self.nc(), r.stride() == self.nr(), forall|j: int| 0 <= j < self.nc() ==> #[trigger] r@[j] == self.e(i as int, j) { unimplemented!() }
}

// ---- types of /repo (compared with the sources on every run) ----
#[derive(Clone, Copy)] pub struct Edge { pub to: usize, pub cost: f64 }
pub struct Vertex { pub edges: Vec<Edge> }
impl ItSeq for Vertex { type Item = Edge; open spec fn its(&self) -> Seq<Edge> { self.edges@ } fn it_len(&self) -> usize { self.edges.len() } fn it_at(&self, k: usize) -> &Edge { &self.edges[k] } #[verifier::external_body] fn it_take(&mut self, k: usize) -> Edge { unimplemented!() } }
pub struct Graph { pub vertices: Vec<Vertex> }
pub type Path = Vec<usize>;
pub type Solution = (f64, Path);
pub struct NAMatrix(pub DMatrix<f64>);
pub struct VecMatrix(pub Vec<Vec<f64>>);
pub struct VerticesInPriorityQueue { pub cost_queue: PriorityQueue<usize, Reverse<OrderedFloat<f64>>>, pub connection_to_mst: Vec<usize>, pub used: Vec<bool> }
pub struct MultiThreadedVecWrapper(pub Vec<(Edge, bool)>);
/// Deref of NAMatrix to the wrapped DMatrix
impl NAMatrix {
    pub fn nrows(&self) -> (r: usize) ensures r == self.0.nr() { self.0.nrows() }
    pub fn ncols(&self) -> (r: usize) ensures r == self.0.nc() { self.0.ncols() }
    pub fn shape(&self) -> (r: (usize, usize)) ensures r.0 == self.0.nr(), r.1 == self.0.nc() { self.0.shape() }
    pub fn at(&self, i: usize, j: usize) -> (r: f64) requires i < self.0.nr(), j < self.0.nc() ensures r == self.0.e(i as int, j as int) { self.0.at(i, j) }
    pub fn put(&mut self, i: usize, j: usize, v: f64) requires i < old(self).0.nr(), j < old(self).0.nc()
        ensures final(self).0.nr() == old(self).0.nr(), final(self).0.nc() == old(self).0.nc(), forall|a: int, b: int| #[trigger] final(self).0.e(a, b) == if a == i && b == j { v } else { old(self).0.e(a, b) } { self.0.put(i, j, v) }
    pub fn at_mut(&mut self, i: usize, j: usize) -> (r: &mut f64) requires i < old(self).0.nr(), j < old(self).0.nc()
        ensures *r == old(self).0.e(i as int, j as int), final(self).0.nr() == old(self).0.nr(), final(self).0.nc() == old(self).0.nc(), forall|a: int, b: int| #[trigger] final(self).0.e(a, b) == if a == i && b == j { *final(r) } else { old(self).0.e(a, b) } { self.0.at_mut(i, j) }
    pub fn row(&self, i: usize) -> (r: RowView) requires i < self.0.nr() ensures r@.len() == self.0.nc(), r.stride() == self.0.nr(), forall|j: int| 0 <= j < self.0.nc() ==> #[trigger] r@[j] == self.0.e(i as int, j) { self.0.row(i) }
}
/// the From conversions between the crate's own types
// `&x[..]`
pub trait FullSlice { type S: ?Sized; spec fn fs_ok(&self, r: &Self::S) -> bool; fn full(&self) -> (r: &Self::S) ensures self.fs_ok(r); }
impl<T> FullSlice for Vec<T> { type S = [T]; open spec fn fs_ok(&self, r: &[T]) -> bool { r@ == self@ } fn full(&self) -> (r: &[T]) { self.as_slice() } }
pub fn full_slice<X: FullSlice>(x: &X) -> (r: &X::S) ensures x.fs_ok(r) { x.full() }
pub trait ConvFrom<A>: Sized { spec fn cf_req(a: A) -> bool; spec fn cf_ens(a: A, r: Self) -> bool; fn conv_from(a: A) -> (r: Self) requires Self::cf_req(a) ensures Self::cf_ens(a, r); }
pub fn conv_into<A, B: ConvFrom<A>>(a: A) -> (r: B) requires B::cf_req(a) ensures B::cf_ens(a, r) { B::conv_from(a) }
pub const SEQ_COMPUTATION: usize = 0;
pub const PAR_COMPUTATION: usize = 1;
} // mod prelude
pub use prelude::*;
broadcast use prelude::f64_model;
