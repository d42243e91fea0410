//# theory digits
//# fn exact::convert_to_b_ary_digits
fn convert_to_b_ary_digits(value: usize, basis: usize, number_digits: usize) -> (ret: Vec<usize>)
@ requires basis >= 1
@ ensures ret@.len() == number_digits, digits_ok(basis as int, ret@), dval(basis as int, ret@) == value as int % ipow(basis as int, number_digits as nat)
{
    let mut digits = Vec::with_capacity(number_digits);
    let mut remainder = value;
    let mut _k1: usize = 0;
@ let ghost b = basis as int;
    while _k1 < number_digits
@ invariant little(digits, b), _k1 <= number_digits, digits@.len() == _k1, basis == b, b >= 1, value == lval(b, digits@) + remainder * ipow(b, _k1 as nat)
@ decreases number_digits - _k1
    {
@ let ghost d0 = digits@; let ghost r0 = remainder as int;
        digits.push(remainder % basis);
        remainder = remainder / basis;
@ proof { lval_push(b, d0, (r0 % b) as usize); let q = r0 / b; let m = r0 % b; let p = ipow(b, _k1 as nat);
@   assert(0 <= m < b && r0 == q * b + m) by (nonlinear_arith) requires b >= 1, q == r0 / b, m == r0 % b, r0 >= 0;
@   assert(r0 * p == m * p + q * (b * p)) by (nonlinear_arith) requires r0 == q * b + m; 
@ }
        _k1 = _k1 + 1;
    }
@ let ghost s = digits@;
    digits.reverse();
@ proof { lval_reverse(b, s);
@   assert forall|i: int| 0 <= i < digits@.len() implies (#[trigger] digits@[i]) < b by { assert(digits@[i] == s[s.len() - 1 - i]); }
@   assert(digits@ == s.reverse());
@   dval_bounds(b, digits@); ipow_pos(b, number_digits as nat);
@   let x = dval(b, digits@); let p = ipow(b, number_digits as nat); let q = remainder as int;
@   vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(value as int, p, q, x);
@ }
    digits
}
//# end
//# fn exact::get_next_value
fn get_next_value(current_digits: &mut [usize], basis: usize) -> (ret: Option<Vec<usize>>)
@ requires basis >= 1, digits_ok(basis as int, old(current_digits)@)
@ ensures final(current_digits)@.len() == old(current_digits)@.len(), digits_ok(basis as int, final(current_digits)@),
@   ret is Some ==> ret.unwrap()@ == final(current_digits)@ && dval(basis as int, final(current_digits)@) == dval(basis as int, old(current_digits)@) + 1,
@   ret is None <==> dval(basis as int, old(current_digits)@) == ipow(basis as int, old(current_digits)@.len()) - 1,
@   ret is None ==> forall|i: int| 0 <= i < old(current_digits)@.len() ==> (#[trigger] old(current_digits)@[i]) == basis - 1
{
    let mut carry = 1;
@ let ghost o = current_digits@; let ghost b = basis as int;
    let mut _k1: usize = current_digits.it_len();
    while _k1 > 0
@ invariant carry == 1usize, b == basis, b >= 1, _k1 <= o.len(), current_digits@.len() == o.len(), digits_ok(b, o), o == old(current_digits)@,
@   forall|i: int| 0 <= i < _k1 ==> (#[trigger] current_digits@[i]) == o[i], forall|i: int| _k1 <= i < o.len() ==> (#[trigger] current_digits@[i]) == 0 && o[i] == b - 1, forall|i: int| _k1 <= i < o.len() ==> (#[trigger] o[i]) == b - 1
@ decreases _k1
    {
        _k1 = _k1 - 1;
@ let ghost v = current_digits@[_k1 as int] as int; assert(o[_k1 as int] < b); let ghost c0 = current_digits@;
        let digit = &mut current_digits[_k1];
        *digit = *digit + carry;
        carry = *digit / basis;
        *digit = *digit % basis;
@ proof {
@   if v + 1 < b { assert((v + 1) / b == 0 && (v + 1) % b == v + 1) by (nonlinear_arith) requires 0 <= v, v + 1 < b; }
@   else { assert((v + 1) / b == 1 && (v + 1) % b == 0) by (nonlinear_arith) requires v + 1 == b, b >= 1; }
@   if carry == 0 { dval_succ(b, o, current_digits@, _k1 as int); assert(digits_ok(b, current_digits@)); dval_bounds(b, current_digits@); }
@ }
        if carry == 0 {
            return Some(current_digits.to_vec());
        }
    }
@ proof { dval_all_max(b, o); }
    None
}
//# end
pub open spec fn little(d: Vec<usize>, b: int) -> bool { digits_ok(b, d@) }
//# fn exact::split_up_b_ary_number_into_n_chunks [chosen=1]
fn split_up_b_ary_number_into_n_chunks(number_digits: usize, basis: usize, n: usize, k: usize) -> (ret: (Vec<usize>, Vec<usize>))
@ requires basis >= 1, number_digits <= u32::MAX, ipow(basis as int, number_digits as nat) <= usize::MAX, 1 <= n, k < n, ipow(basis as int, number_digits as nat) > n
@ ensures digits_ok(basis as int, ret.0@), digits_ok(basis as int, ret.1@), ret.0@.len() == number_digits, ret.1@.len() == number_digits,
@   dval(basis as int, ret.0@) == cut(ipow(basis as int, number_digits as nat), n as int, k as int),
@   k < n - 1 ==> dval(basis as int, ret.1@) == cut(ipow(basis as int, number_digits as nat), n as int, k + 1),
@   k == n - 1 ==> forall|i: int| 0 <= i < number_digits ==> (#[trigger] ret.1@[i]) == 0
{
@ proof { npow_ipow(basis as nat, number_digits as nat); ipow_pos(basis as int, number_digits as nat); }
    let total_values = usize_pow(basis, number_digits as u32);
    runtime_check(total_values > n);
    let chunk_size = total_values / n;
@ let ghost tt = total_values as int; let ghost c = chunk_size as int;
@ proof { cuts_ordered(tt, n as int, k as int, k + 1); cuts_ordered(tt, n as int, k as int, k as int);
@   assert(n * c <= tt && c >= 1) by (nonlinear_arith) requires c == tt / (n as int), n >= 1, tt > n;
@   assert(k * c + c == (k + 1) * c) by (nonlinear_arith); assert((k + 1) * c <= n * c) by (nonlinear_arith) requires k + 1 <= n, c >= 0; assert(0 <= k * c) by (nonlinear_arith) requires c >= 0, k >= 0;
@   assert(k * c < tt) by (nonlinear_arith) requires k < n, n * c <= tt, c >= 1;
@   if k + 1 < n { assert((k + 1) * c < tt) by (nonlinear_arith) requires k + 1 < n, n * c <= tt, c >= 1; } }
    let min_value = k * chunk_size;
    let max_value = if k == n - 1 {
        total_values
    } else {
        min_value + chunk_size
    };
    let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
    let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@ proof { vstd::arithmetic::div_mod::lemma_small_mod(min_value as nat, tt as nat);
@   if k < n - 1 { vstd::arithmetic::div_mod::lemma_small_mod(max_value as nat, tt as nat); }
@   else { assert(tt % tt == 0) by (nonlinear_arith) requires tt >= 1; assert forall|i: int| 0 <= i < number_digits implies (#[trigger] max_digits@[i]) == 0 by { let z = Seq::new(number_digits as nat, |i: int| 0usize); dval_zero(basis as int, z); dval_inj(basis as int, z, max_digits@); assert(z[i] == 0); } } }
    (min_digits, max_digits)
}
//# end
