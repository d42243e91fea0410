//# fn computation_mode::panic_on_invaid_mode
fn panic_on_invaid_mode<const MODE: usize>() -> !
@ requires false,
{
unreachable_panic()
}
//# end
