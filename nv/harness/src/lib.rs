use nvrt::*;
pub mod common;
pub mod mini;
pub mod h_prop;
pub mod h_rk;
pub mod h_err;
pub mod h_event;
pub mod h_tgt;
pub mod h_blse;
pub mod h_mc;
pub mod h_traj;
pub mod h_state;
pub mod h_dyn;
pub mod h_guid;
pub mod h_kf;
pub mod h_msr;
pub mod h_pnt;
pub mod h_arc;
pub mod h_sim;
pub mod h_sol;
pub mod h_od;
pub mod h_lambert;
pub mod h_bplane;
pub mod h_est;
pub mod h_seq;
pub mod h_misc;
pub mod h_io;
pub mod h_cfg;
pub fn harnesses() -> Vec<Harness> {
    let mut v = vec![];
    v.extend(h_state::list());
    v.extend(h_dyn::list());
    v.extend(h_guid::list());
    v.extend(h_kf::list());
    v.extend(h_od::list());
    v.extend(h_msr::list());
    v.extend(h_pnt::list());
    v.extend(h_arc::list());
    v.extend(h_sol::list());
    v.extend(h_sim::list());
    v.extend(h_tgt::list());
    v.extend(h_blse::list());
    v.extend(h_lambert::list());
    v.extend(h_bplane::list());
    v.extend(h_est::list());
    v.extend(h_seq::list());
    v.extend(h_misc::list());
    v.extend(h_io::list());
    v.extend(h_cfg::list());
    v.extend(h_mc::list());
    v.extend(h_prop::list());
    v.extend(h_traj::list());
    v.extend(h_event::list());
    v.extend(h_err::list());
    v.extend(h_rk::list());
    v
}
