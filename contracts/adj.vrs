//# theory mat
//# include adjhead
//# fn datastructures::AdjacencyMatrix::evaluate_path
fn evaluate_path(&self, path: &Path) -> (ret: f64)
@ requires all_num(self.mv()), in_range(path@, self.mv().n)
@ ensures path_fin(self.mv(), path@) ==> fin(ret) && rv(ret) == path_cost(wf(self.mv()), path@),
@     !path_fin(self.mv(), path@) ==> pinf(ret)
{
    let n = path.len();
    if n <= 1 {
        return f64_zero();
    }
    let mut acc = f64_zero();
@ proof { assert(path@.subrange(0, 1).len() == 1); }
    let _e1: usize = n - 1;
    let mut from: usize = 0;
    while from < _e1
@ invariant from <= _e1, _e1 == path@.len() - 1, all_num(self.mv()), in_range(path@, self.mv().n),
@     path_fin(self.mv(), path@.subrange(0, from + 1)) ==> fin(acc) && rv(acc) == path_cost(wf(self.mv()), path@.subrange(0, from + 1)),
@     !path_fin(self.mv(), path@.subrange(0, from + 1)) ==> pinf(acc)
@ decreases _e1 - from
    {
        let to = from + 1;
        let cost = self.get(path[from], path[to]);
@ proof {
@     let a = path@.subrange(0, from + 1); let b = path@.subrange(0, from + 2);
@     path_cost_step(wf(self.mv()), path@, from + 1);
@     assert(b[from as int] == path@[from as int] && b[from + 1] == path@[from + 1]);
@     assert forall|k: int| 0 <= k < a.len() - 1 implies #[trigger] a[k] == b[k] && a[k + 1] == b[k + 1] by {}
@     if path_fin(self.mv(), a) && fin(self.mv().w(path@[from as int] as int, path@[from + 1] as int)) { assert forall|k: int| 0 <= k < b.len() - 1 implies fin(self.mv().w(#[trigger] b[k] as int, b[k + 1] as int)) by { if k < from { assert(a[k] == b[k]); } } }
@     if !path_fin(self.mv(), a) { let k = choose|k: int| 0 <= k < a.len() - 1 && !fin(self.mv().w(#[trigger] a[k] as int, a[k + 1] as int)); assert(!fin(self.mv().w(b[k] as int, b[k + 1] as int))); }
@     if !fin(self.mv().w(path@[from as int] as int, path@[from + 1] as int)) { assert(!fin(self.mv().w(b[from as int] as int, b[from + 1] as int))); }
@     assert(num(self.mv().w(path@[from as int] as int, path@[from + 1] as int)));
@ }
        acc = acc + cost;
        from = from + 1;
    }
@ proof { assert(path@.subrange(0, path@.len() as int) =~= path@); }
    acc
}
//# end
//# fn datastructures::AdjacencyMatrix::evaluate_circle
fn evaluate_circle(&self, path: &Path) -> (ret: f64)
@ requires all_num(self.mv()), in_range(path@, self.mv().n)
@ ensures circle_fin(self.mv(), path@) ==> fin(ret) && rv(ret) == cyc_cost(wf(self.mv()), path@),
@     !circle_fin(self.mv(), path@) ==> pinf(ret)
{
    if path.len() <= 1 {
        return f64_zero();
    }
    let last_edge = self.get(*path.last().unwrap(), *path.first().unwrap());
    let path_cost = self.evaluate_path(path);
@ assert(num(self.mv().w(path@[path@.len() - 1] as int, path@[0] as int)));
    path_cost + last_edge
}
//# end
//# fn datastructures::AdjacencyMatrix::is_metric
fn is_metric(&self) -> (ret: bool)
@ requires all_fin(self.mv()), forall|i: int, j: int| 0 <= i < self.mv().n && 0 <= j < self.mv().n ==> rv(#[trigger] self.mv().w(i, j)) == rv(self.mv().w(j, i))
@ ensures ret == metric(self.mv())
{
@ let ghost w = wf(self.mv()); let ghost N = self.mv().n as int;
    let dim = self.dim();
    let mut i: usize = 0;
    while i < dim
@ invariant i <= dim, dim == N, N == self.mv().n, w == wf(self.mv()), all_fin(self.mv()),
@     forall|a: int, b: int, c: int| 0 <= a < i && a <= b < N && 0 <= c < N ==> #[trigger] tri(w, a, b, c)
@ decreases dim - i
    {
        let mut j: usize = i;
        while j < dim
@ invariant i <= j <= dim, i < dim, dim == N, N == self.mv().n, w == wf(self.mv()), all_fin(self.mv()),
@     forall|a: int, b: int, c: int| 0 <= a < i && a <= b < N && 0 <= c < N ==> #[trigger] tri(w, a, b, c),
@     forall|b: int, c: int| i <= b < j && 0 <= c < N ==> #[trigger] tri(w, i as int, b, c)
@ decreases dim - j
        {
            let direct_cost = self.get(i, j);
            let mut k: usize = 0;
            while k < dim
@ invariant k <= dim, i <= j < dim, i < dim, dim == N, N == self.mv().n, w == wf(self.mv()), all_fin(self.mv()), direct_cost == self.mv().w(i as int, j as int),
@     forall|a: int, b: int, c: int| 0 <= a < i && a <= b < N && 0 <= c < N ==> #[trigger] tri(w, a, b, c),
@     forall|b: int, c: int| i <= b < j && 0 <= c < N ==> #[trigger] tri(w, i as int, b, c),
@     forall|c: int| 0 <= c < k ==> #[trigger] tri(w, i as int, j as int, c)
@ decreases dim - k
            {
                let indirect_cost = self.get(i, k) + self.get(k, j);
@ proof { assert(fin(self.mv().w(i as int, k as int)) && fin(self.mv().w(k as int, j as int)) && fin(self.mv().w(i as int, j as int))); }
                if direct_cost > indirect_cost + f64_lit_1em10() {
@ proof { assert(!tri(w, i as int, j as int, k as int)); }
                    return false;
                }
                k = k + 1;
            }
            j = j + 1;
        }
        i = i + 1;
    }
@ proof {
@     assert forall|a: int, b: int, c: int| 0 <= a < N && 0 <= b < N && 0 <= c < N implies #[trigger] tri(w, a, b, c) by {
@         if b < a { assert(tri(w, b, a, c)); assert(rv(self.mv().w(a, b)) == rv(self.mv().w(b, a))); assert(rv(self.mv().w(a, c)) == rv(self.mv().w(c, a))); assert(rv(self.mv().w(c, b)) == rv(self.mv().w(b, c))); }
@     }
@ }
    true
}
//# end
}
