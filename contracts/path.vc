%% meta parameters, per-path rescaling factors and key managers
%mod meta src/meta.rs
%types MutationParams CrossoverParams
%raw
/// sanitized meta-parameters (C14, C15)
pub open spec fn mp_ok(m: MutationParams) -> bool { is_prob(m.mutation_prob) && fpos(m.mutation_scale) }
pub open spec fn cp_ok(c: CrossoverParams) -> bool { is_prob(c.crossover_prob) && is_prob(c.selection_pressure) }

%mod rescaling src/rescaling.rs
%types CrossoverRescaling MutationRescaling Rescaling RescalingContext
%raw
pub open spec fn neutral(r: Rescaling) -> bool {
    fone(r.crossover_rescaling.crossover_prob_factor) && fone(r.crossover_rescaling.selection_pressure_factor)
        && fone(r.mutation_rescaling.mutation_prob_factor) && fone(r.mutation_rescaling.mutation_scale_factor)
}
%% what `Default` yields; the two hand-written impls are verified to yield it
impl VxDefault for CrossoverRescaling { open spec fn vx_is_default(v: Self) -> bool { fone(v.crossover_prob_factor) && fone(v.selection_pressure_factor) } }
impl VxDefault for MutationRescaling { open spec fn vx_is_default(v: Self) -> bool { fone(v.mutation_prob_factor) && fone(v.mutation_scale_factor) } }
%fn CrossoverRescaling::default
    ensures CrossoverRescaling::vx_is_default(r),
%fn MutationRescaling::default
    ensures MutationRescaling::vx_is_default(r),
%fn Rescaling::rescale_crossover(a_pre)
    requires neutral(*self), crate::meta::cp_ok(*a_pre),
    ensures r == *a_pre,
%at start
    proof {
        ax_mul(a_pre.crossover_prob, self.crossover_rescaling.crossover_prob_factor); ax_mul(a_pre.crossover_prob, self.crossover_rescaling.selection_pressure_factor);
        ax_mul(a_pre.selection_pressure, self.crossover_rescaling.crossover_prob_factor); ax_mul(a_pre.selection_pressure, self.crossover_rescaling.selection_pressure_factor);
    }
%fn Rescaling::rescale_mutation(a_pre)
    requires neutral(*self), crate::meta::mp_ok(*a_pre),
    ensures r == *a_pre,
%at start
    proof {
        ax_mul(a_pre.mutation_prob, self.mutation_rescaling.mutation_prob_factor); ax_mul(a_pre.mutation_prob, self.mutation_rescaling.mutation_scale_factor);
        ax_mul(a_pre.mutation_scale, self.mutation_rescaling.mutation_prob_factor); ax_mul(a_pre.mutation_scale, self.mutation_rescaling.mutation_scale_factor);
    }

%mod path src/path.rs
%types PathContext PathNodeContext KeyManager
%raw
/// every node's rescaling factors are neutral
pub open spec fn pwf(p: PathNodeContext) -> bool
    decreases p
{
    crate::rescaling::neutral(p.rescaling_ctx.current_rescaling)
        && forall|k: Seq<char>| #[trigger] p.child_nodes@.dom().contains(k) ==> pwf(*p.child_nodes@[k])
}
%fn KeyManager::next_key
    ensures r == old(self).next_key, final(self).next_key == (if r == usize::MAX { 0 } else { (r + 1) as usize }),
%fn KeyManager::on_key_seen(a_key)
    ensures final(self).next_key >= old(self).next_key, final(self).next_key > a_key || a_key == usize::MAX && final(self).next_key == usize::MAX,
%fn PathNodeContext::next_key
    ensures r == old(self).key_mgr.next_key, final(self).key_mgr.next_key == (if r == usize::MAX { 0 } else { (r + 1) as usize }),
        final(self).child_nodes == old(self).child_nodes, final(self).rescaling_ctx == old(self).rescaling_ctx,
%fn PathNodeContext::get_or_create_child_mut(a_key)
    requires pwf(*old(self)),
    ensures pwf(*r), pwf(*final(r)) ==> pwf(*final(self)), final(self).key_mgr == old(self).key_mgr,
%fn PathContext::add_nodes_for(a_v)
    requires pwf(old(self).0),
    ensures pwf(final(self).0),
%fn PathNodeContext::add_nodes_for(a_v)
    requires pwf(*old(self)),
    ensures pwf(*final(self)),
    decreases a_v,
%loop 0
    pwf(*self), a_v is Sub, enumerates($all, a_v->Sub_0@),
%at loopstart 0
    proof { assert(a_v->Sub_0@.dom().contains($all[$pos].0@)); }
%loop 1
    pwf(*self), a_v is Array, seq_refs($all, a_v->Array_0@),
%loop 2
    pwf(*self), a_v is AnonMap, enumerates($all, a_v->AnonMap_0@),
%at loopstart 2
    proof { assert(a_v->AnonMap_0@.dom().contains($all[$pos].0@)); }
