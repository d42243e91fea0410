/// what the construction needs from the structure that keeps the cheapest connection of every vertex
pub trait FindMinCostEdge: Sized {
    spec fn ok(&self) -> bool;
    spec fn sz(&self) -> nat;
    /// cost of connecting vertex i, and where to
    spec fn dc(&self, i: int) -> f64;
    spec fn dt(&self, i: int) -> usize;
    spec fn du(&self, i: int) -> bool;
    fn from_default_value(default_val: Edge, size: usize) -> (ret: Self) requires num(default_val.cost)
        ensures ret.ok(), ret.sz() == size, forall|i: int| 0 <= i < size ==> !(#[trigger] ret.du(i)) && ret.dc(i) == default_val.cost && ret.dt(i) == default_val.to;
    fn find_edge_with_minimal_cost(&self) -> (ret: (usize, Edge)) requires self.ok(), exists|i: int| 0 <= i < self.sz() && !(#[trigger] self.du(i))
        ensures ret.0 < self.sz(), !self.du(ret.0 as int), ret.1.cost == self.dc(ret.0 as int), ret.1.to == self.dt(ret.0 as int), forall|i: int| 0 <= i < self.sz() && !(#[trigger] self.du(i)) ==> xle(ret.1.cost, self.dc(i));
    fn update_minimal_cost(&mut self, from: usize, new_neighbours: RowView) requires old(self).ok(), new_neighbours@.len() <= old(self).sz(), new_neighbours.stride() == new_neighbours@.len(), forall|i: int| 0 <= i < new_neighbours@.len() ==> num(#[trigger] new_neighbours@[i])
        ensures final(self).ok(), final(self).sz() == old(self).sz(), forall|i: int| 0 <= i < old(self).sz() ==> #[trigger] final(self).du(i) == old(self).du(i),
            forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) ==> #[trigger] final(self).dc(i) == if i < new_neighbours@.len() && xlt(new_neighbours@[i], old(self).dc(i)) { new_neighbours@[i] } else { old(self).dc(i) },
            forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) ==> #[trigger] final(self).dt(i) == if i < new_neighbours@.len() && xlt(new_neighbours@[i], old(self).dc(i)) { from } else { old(self).dt(i) };
    fn set_cost(&mut self, from: usize, edge_to: Edge) requires old(self).ok(), from < old(self).sz(), !old(self).du(from as int), num(edge_to.cost)
        ensures final(self).ok(), final(self).sz() == old(self).sz(), forall|i: int| 0 <= i < old(self).sz() ==> #[trigger] final(self).du(i) == old(self).du(i),
            forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) ==> #[trigger] final(self).dc(i) == if i == from { edge_to.cost } else { old(self).dc(i) },
            forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) ==> #[trigger] final(self).dt(i) == if i == from { edge_to.to } else { old(self).dt(i) };
    fn set_excluded_vertex(&mut self, excluded_vertex: usize) requires old(self).ok(), excluded_vertex < old(self).sz()
        ensures final(self).ok(), final(self).sz() == old(self).sz(), forall|i: int| 0 <= i < old(self).sz() ==> #[trigger] final(self).du(i) == (old(self).du(i) || i == excluded_vertex),
            forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) && i != excluded_vertex ==> #[trigger] final(self).dc(i) == old(self).dc(i), forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) && i != excluded_vertex ==> #[trigger] final(self).dt(i) == old(self).dt(i);
    fn mark_vertex_as_used(&mut self, used_vertex: usize) requires old(self).ok(), used_vertex < old(self).sz()
        ensures final(self).ok(), final(self).sz() == old(self).sz(), forall|i: int| 0 <= i < old(self).sz() ==> #[trigger] final(self).du(i) == (old(self).du(i) || i == used_vertex),
            forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) && i != used_vertex ==> #[trigger] final(self).dc(i) == old(self).dc(i), forall|i: int| 0 <= i < old(self).sz() && !old(self).du(i) && i != used_vertex ==> #[trigger] final(self).dt(i) == old(self).dt(i);
}
