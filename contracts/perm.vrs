//# theory perm
//# fn exact::next_permutation
fn next_permutation<T: Ord>(array: &mut [T]) -> (ret: bool)
@ requires total_order::<T>()
@ ensures ret ==> is_successor(old(array)@, final(array)@),
@   !ret ==> final(array)@ == old(array)@ && is_greatest(old(array)@)
{
    if array.is_empty() {
        return false;
    }
    let mut i: usize = array.len() - 1;
@ let ghost a = array@; let ghost n = a.len() as int;
    while i > 0 && array[i - 1] >= array[i]
@ invariant array@ == a, n == a.len(), 0 <= i < n, total_order::<T>(), noninc(a, i as int)
@ ensures array@ == a, n == a.len(), 0 <= i < n, noninc(a, i as int), i > 0 ==> lt(a[i - 1], a[i as int])
@ decreases i
    {
@ assert(le(a[i as int], a[i - 1]));
@ assert forall|x: int, y: int| i - 1 <= x < y < n implies le(#[trigger] a[y], #[trigger] a[x]) by { if x == i - 1 && y > i { assert(le(a[y], a[i as int])); } }
        i = i - 1;
    }
    if i == 0 {
@ assert forall|s: Seq<T>| #[trigger] rearranged(a, s) implies !lex_lt(a, s) by { if lex_lt(a, s) { let k = choose|k: int| lex_lt_at(a, s, k); tail_max(a, s, 0, k); } }
        return false;
    }
    let mut j: usize = array.len() - 1;
    while array[j] <= array[i - 1]
@ invariant array@ == a, n == a.len(), 0 < i <= j < n, total_order::<T>(), lt(a[i - 1], a[i as int]), forall|m: int| j < m < n ==> le(#[trigger] a[m], a[i - 1])
@ ensures array@ == a, n == a.len(), 0 < i <= j < n, lt(a[i - 1], a[j as int]), forall|m: int| j < m < n ==> le(#[trigger] a[m], a[i - 1])
@ decreases j
    {
        j = j - 1;
    }
    array.swap(i - 1, j);
@ let ghost t = array@;
    array[i..].reverse();
@ assert forall|m: int| i - 1 < m < n implies #[trigger] array@[m] == t[n + i - 1 - m] by {}
@ proof { successor_of(a, array@, i - 1, j as int); }
    true
}
//# end
