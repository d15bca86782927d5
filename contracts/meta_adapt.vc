%% C14, C15: adaptive parameters stay in range
%mod meta_adapt src/meta_adapt.rs
%use crate::meta::{mp_ok, cp_ok}
%fn rescale(a_v, a_rng)
    requires isfin(a_v), fval(a_v) >= 0,
    ensures !isnan(r), fval(r) >= 0,
%fn rescale_prob(a_v, a_rng)
    requires is_prob(a_v),
    ensures is_prob(r),
%fn rescale_scale(a_v, a_rng)
    requires fpos(a_v),
    ensures fpos(r),
%fn create_exploratory(a_rng)
    ensures cp_ok(r.0), mp_ok(r.1),
%fn mutate(a_cp, a_mp, a_rng)
    requires cp_ok(a_cp), mp_ok(a_mp),
    ensures cp_ok(r.0), mp_ok(r.1),
