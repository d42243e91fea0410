//! Executable counterparts of contracts/prelude.rs: every name the extraction introduces, with its meaning as ordinary Rust.
#![allow(dead_code)]
pub use std::cmp::{Ordering, Reverse};
pub use nalgebra::{DMatrix, DVector};
pub use ordered_float::OrderedFloat;
pub use priority_queue::PriorityQueue;
pub use rustc_hash::FxHasher;
pub use std::hash::Hasher;
use rand::seq::SliceRandom;
use std::collections::{HashMap, HashSet};

pub type Path = Vec<usize>;
pub type Solution = (f64, Path);
pub const SEQ_COMPUTATION: usize = 0;
pub const PAR_COMPUTATION: usize = 1;
#[derive(Clone, Copy, Debug, PartialEq)] pub struct Edge { pub to: usize, pub cost: f64 }
#[derive(Clone, Debug, PartialEq)] pub struct Vertex { pub edges: Vec<Edge> }
#[derive(Clone, Debug, PartialEq)] pub struct Graph { pub vertices: Vec<Vertex> }
pub struct TravellingSalesmanProblemInstance { pub graph: Graph }
impl std::ops::Deref for TravellingSalesmanProblemInstance { type Target = Graph; fn deref(&self) -> &Graph { &self.graph } }
#[derive(Clone, Debug, PartialEq)] pub struct NAMatrix(pub DMatrix<f64>);
impl std::ops::Deref for NAMatrix { type Target = DMatrix<f64>; fn deref(&self) -> &DMatrix<f64> { &self.0 } }
impl std::ops::DerefMut for NAMatrix { fn deref_mut(&mut self) -> &mut DMatrix<f64> { &mut self.0 } }
#[derive(Clone, Debug, PartialEq)] pub struct VecMatrix(pub Vec<Vec<f64>>);
pub struct MultiThreadedVecWrapper(pub Vec<(Edge, bool)>);
pub struct VerticesInPriorityQueue { pub cost_queue: PriorityQueue<usize, Reverse<OrderedFloat<f64>>>, pub connection_to_mst: Vec<usize>, pub used: Vec<bool> }
pub struct RowView(pub Vec<f64>, pub usize);
pub type NAMatrixRowView = RowView;
impl RowView {
    pub fn shape(&self) -> (usize, usize) { (1, self.0.len()) }
    pub fn ncols(&self) -> usize { self.0.len() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn at(&self, i: usize, j: usize) -> f64 { assert!(i == 0); self.0[j] }
    pub fn ptr_read(&self, k: usize) -> f64 { assert!(k % self.1 == 0); self.0[k / self.1] }
}
pub trait ConvFrom<A>: Sized { fn conv_from(a: A) -> Self; }
pub fn conv_into<A, B: ConvFrom<A>>(a: A) -> B { B::conv_from(a) }

pub fn f64_infinity() -> f64 { f64::INFINITY }
pub fn f64_zero() -> f64 { 0.0 }
pub fn f64_one() -> f64 { 1.0 }
pub fn f64_two() -> f64 { 2.0 }
pub fn f64_half() -> f64 { 0.5 }
pub fn f64_lit_1em10() -> f64 { 1e-10 }
pub fn f64_powi(x: f64, n: i32) -> f64 { x.powi(n) }
pub fn f64_sqrt(x: f64) -> f64 { x.sqrt() }
pub fn f64_abs(x: f64) -> f64 { x.abs() }
pub fn f64_hypot(x: f64, y: f64) -> f64 { x.hypot(y) }
pub fn f64_partial_cmp(x: &f64, y: &f64) -> Option<Ordering> { x.partial_cmp(y) }
pub fn f64_total_cmp(x: &f64, y: &f64) -> Ordering { x.total_cmp(y) }
pub fn ord_is_gt(o: Ordering) -> bool { o == Ordering::Greater }
pub fn ord_is_ge(o: Ordering) -> bool { o != Ordering::Less }
pub fn ord_is_lt(o: Ordering) -> bool { o == Ordering::Less }
pub fn ord_is_le(o: Ordering) -> bool { o != Ordering::Greater }
pub fn key_lt<K: PartialOrd>(a: K, b: K) -> bool { a < b }
pub trait MinMax { fn lo(a: Self, b: Self) -> Self; fn hi(a: Self, b: Self) -> Self; }
impl MinMax for usize { fn lo(a: usize, b: usize) -> usize { std::cmp::min(a, b) } fn hi(a: usize, b: usize) -> usize { std::cmp::max(a, b) } }
impl MinMax for f64 { fn lo(a: f64, b: f64) -> f64 { a.min(b) } fn hi(a: f64, b: f64) -> f64 { a.max(b) } }
pub fn min_of<T: MinMax>(a: T, b: T) -> T { T::lo(a, b) }
pub fn max_of<T: MinMax>(a: T, b: T) -> T { T::hi(a, b) }
pub fn sat_sub(a: usize, b: usize) -> usize { a.saturating_sub(b) }
pub fn usize_pow(b: usize, e: u32) -> usize { b.pow(e) }
pub trait Summable { fn z() -> Self; fn plus(a: Self, b: Self) -> Self; }
impl Summable for usize { fn z() -> usize { 0 } fn plus(a: usize, b: usize) -> usize { a + b } }
impl Summable for f64 { fn z() -> f64 { 0.0 } fn plus(a: f64, b: f64) -> f64 { a + b } }
pub fn sum_zero<T: Summable>() -> T { T::z() }
pub fn sum_add<T: Summable>(a: T, b: T) -> T { T::plus(a, b) }
pub fn runtime_check(c: bool) { assert!(c) }
pub fn unreachable_panic() -> ! { panic!() }
pub fn opt_like<'a, T>(o: &'a Option<T>, _: &T) -> &'a Option<T> { o }
pub fn abort_unless(c: bool) { assert!(c) }

pub trait ItSeq { type Item; fn it_len(&self) -> usize; fn it_at(&self, k: usize) -> &Self::Item; fn it_take(&mut self, k: usize) -> Self::Item where Self::Item: Clone { self.it_at(k).clone() } }
impl<T> ItSeq for Vec<T> { type Item = T; fn it_len(&self) -> usize { self.len() } fn it_at(&self, k: usize) -> &T { &self[k] } }
impl<T> ItSeq for [T] { type Item = T; fn it_len(&self) -> usize { self.len() } fn it_at(&self, k: usize) -> &T { &self[k] } }
impl<T, const N: usize> ItSeq for [T; N] { type Item = T; fn it_len(&self) -> usize { N } fn it_at(&self, k: usize) -> &T { &self[k] } }
impl ItSeq for RowView { type Item = f64; fn it_len(&self) -> usize { self.0.len() } fn it_at(&self, k: usize) -> &f64 { &self.0[k] } }
impl ItSeq for Vertex { type Item = Edge; fn it_len(&self) -> usize { self.edges.len() } fn it_at(&self, k: usize) -> &Edge { &self.edges[k] } }
pub trait SeqOps<T> {
    fn s(&self) -> &[T]; fn m(&mut self) -> &mut [T];
    fn n_windows(&self, n: usize) -> usize { self.s().windows(n).count() }
    fn window_at<'a>(&'a self, k: usize, n: usize) -> &'a [T] where T: 'a { &self.s()[k..k + n] }
    fn n_chunks(&self, n: usize) -> usize { self.s().chunks_exact(n).count() }
    fn chunk_at<'a>(&'a self, k: usize, n: usize) -> &'a [T] where T: 'a { assert!(k < self.s().len() / n); &self.s()[k * n..k * n + n] }
    fn chunk_at_mut<'a>(&'a mut self, k: usize, n: usize) -> &'a mut [T] where T: 'a { assert!(k < self.s().len() / n); &mut self.m()[k * n..k * n + n] }
    fn ptr_mut<'a>(&'a mut self, k: usize) -> &'a mut T where T: 'a { &mut self.m()[k] }
    fn ptr_read(&self, k: usize) -> T where T: Clone { self.s()[k].clone() }
    fn mut_slice<'a>(&'a mut self) -> &'a mut [T] where T: 'a { self.m() }
}
impl<T> SeqOps<T> for Vec<T> { fn s(&self) -> &[T] { self } fn m(&mut self) -> &mut [T] { self } }
impl<T> SeqOps<T> for [T] { fn s(&self) -> &[T] { self } fn m(&mut self) -> &mut [T] { self } }
pub fn slice_two_mut<T>(s: &mut [T], i: usize, j: usize) -> (&mut T, &mut T) {
    assert!(i != j);
    if i < j { let (a, b) = s.split_at_mut(j); (&mut a[i], &mut b[0]) } else { let (a, b) = s.split_at_mut(i); (&mut b[0], &mut a[j]) }
}
pub fn full_slice<T>(s: &[T]) -> &[T] { s }
pub trait Shuffle { fn sh(&mut self); }
impl<T> Shuffle for [T] { fn sh(&mut self) { self.shuffle(&mut rand::thread_rng()) } }
impl<T> Shuffle for Vec<T> { fn sh(&mut self) { self.shuffle(&mut rand::thread_rng()) } }
pub fn shuffle_any<S: Shuffle + ?Sized>(x: &mut S) { x.sh() }
pub fn vec_from_elem<T: Clone>(e: T, n: usize) -> Vec<T> { vec![e; n] }
pub trait VecOps<T> { fn vec_assign(&mut self, v: Vec<T>); fn into_viter(self) -> std::vec::IntoIter<T>; }
impl<T> VecOps<T> for Vec<T> { fn vec_assign(&mut self, v: Vec<T>) { *self = v; } fn into_viter(self) -> std::vec::IntoIter<T> { self.into_iter() } }
pub fn available_parallelism() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) }
pub struct HSet<T>(HashSet<T>);
impl<T: Eq + std::hash::Hash> HSet<T> {
    pub fn new() -> HSet<T> { HSet(HashSet::new()) }
    pub fn insert(&mut self, x: T) -> bool { self.0.insert(x) }
    pub fn contains(&self, x: &T) -> bool { self.0.contains(x) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl<T: Eq + std::hash::Hash> ItSeq for HSet<T> { type Item = T; fn it_len(&self) -> usize { self.0.len() } fn it_at(&self, k: usize) -> &T { self.0.iter().nth(k).unwrap() } }
pub struct HMap<K, V>(HashMap<K, V>);
impl<K: Eq + std::hash::Hash, V> HMap<K, V> { pub fn new() -> HMap<K, V> { HMap(HashMap::new()) } pub fn entry_or_insert(&mut self, k: K, v: V) -> &mut V { self.0.entry(k).or_insert(v) } pub fn get(&self, k: &K) -> Option<&V> { self.0.get(k) } pub fn contains_key(&self, k: &K) -> bool { self.0.contains_key(k) } pub fn insert(&mut self, k: K, v: V) -> Option<V> { self.0.insert(k, v) } }
pub trait Hashed { fn hash(&self, h: &mut FxHasher); }
impl Hashed for Vec<usize> { fn hash(&self, h: &mut FxHasher) { std::hash::Hash::hash(self, h) } }
pub trait MatOps<T> { fn at(&self, i: usize, j: usize) -> T; fn put(&mut self, i: usize, j: usize, v: T); fn at_mut(&mut self, i: usize, j: usize) -> &mut T; fn ptr_mut(&mut self, k: usize) -> &mut T; fn with_shape(r: usize, c: usize) -> Self; }
impl<T: nalgebra::Scalar + Default> MatOps<T> for DMatrix<T> {
    fn at(&self, i: usize, j: usize) -> T { self[(i, j)].clone() }
    fn put(&mut self, i: usize, j: usize, v: T) { self[(i, j)] = v; }
    fn at_mut(&mut self, i: usize, j: usize) -> &mut T { &mut self[(i, j)] }
    fn ptr_mut(&mut self, k: usize) -> &mut T { &mut self.as_mut_slice()[k] }
    fn with_shape(r: usize, c: usize) -> Self { DMatrix::from_element(r, c, T::default()) }
}
pub trait RowOps { fn row(&self, i: usize) -> RowView; }
impl RowOps for NAMatrix { fn row(&self, i: usize) -> RowView { RowView(self.0.row(i).iter().copied().collect(), self.0.nrows()) } }
pub fn new_shared<T>(x: T) -> T { x }
pub fn lock_shared(x: &mut (f64, Vec<usize>)) -> &mut (f64, Vec<usize>) { x }
pub fn unlock_shared(x: (f64, Vec<usize>)) -> (f64, Vec<usize>) { x }

pub struct Owners(std::collections::HashMap<usize, usize>);
impl Owners { pub fn new() -> Self { Owners(Default::default()) } }
pub fn own_cell(w: &mut Owners, cell: usize, it: usize) { assert!(*w.0.entry(cell).or_insert(it) == it, "two iterations touch one cell"); }
pub fn mem_replace<T>(a: &mut T, b: T) -> T { std::mem::replace(a, b) }
pub fn mem_swap<T>(a: &mut T, b: &mut T) { std::mem::swap(a, b) }
