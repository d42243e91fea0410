    open spec fn cf_req(v: Vec<Vec<Edge>>) -> bool { true }
    open spec fn cf_ens(v: Vec<Vec<Edge>>, r: Graph) -> bool { gn(r) == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] adj(r, i) == v@[i]@ }
