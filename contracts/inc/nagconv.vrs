    open spec fn cf_req(g: &Graph) -> bool { targets_ok(*g) && simple(*g) }
    open spec fn cf_ens(g: &Graph, r: NAMatrix) -> bool { conv_ok(*g, na_mat(r)) && (forall|i: int| 0 <= i < gn(*g) && no_self(*g, i) ==> fin(na_mat(r).w(i, i)) && rv(#[trigger] na_mat(r).w(i, i)) == 0real) }
