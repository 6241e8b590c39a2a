#![allow(clippy::all)]
mod file;
mod gen;
mod h_att;
mod h_attcomb;
mod h_bad;
mod h_blob;
mod h_comb;
mod h_deep;
mod h_format;
mod h_map;
mod h_query;
mod h_store;
mod h_thr;
mod h_misc;
mod h_more;
mod h_storefault;
mod h_version;
mod model;
#[cfg(feature = "native")]
mod native;
mod stores;
mod sym;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*];
    };
}
table!(
    h_map::h_map_ops,
    h_map::h_map_step,
    h_comb::h_outer,
    h_comb::h_inner,
    h_comb::h_left,
    h_comb::h_pred,
    h_comb::h_by_prefixes,
    h_misc::h_eq,
    h_misc::h_eq_ops,
    h_deep::h_deep_many,
    h_more::h_any_wide,
    h_more::h_any_comb_wide,
    h_misc::h_group,
    h_misc::h_snap,
    h_att::h_attach,
    h_att::h_attach_wide,
    h_more::h_list,
    h_more::h_comb_wide,
    h_more::h_att_snap,
    h_att::h_att_wide,
    h_att::h_att_query,
    h_att::h_att_change,
    h_attcomb::h_att_comb,
    h_attcomb::h_att_by_prefixes,
    h_format::h_written,
    h_format::h_written_wide,
    h_format::h_examples,
    h_format::h_foreign,
    h_version::h_versions,
    h_bad::h_bad,
    h_bad::h_bad_id,
    h_bad::h_bad_wide,
    h_bad::h_cycle,
    h_storefault::h_fault_query,
    h_storefault::h_fault_persist,
    h_storefault::h_fault_change,
    h_storefault::h_fault_comb,
    h_storefault::h_fault_detached,
    h_blob::h_blob,
    h_blob::h_blob_large,
    h_blob::h_blob_ref,
    h_blob::h_blob_cmp,
    h_blob::h_blob_key,
    h_store::h_paged,
    h_store::h_crash,
    h_store::h_power,
    h_store::h_mem_many,
    h_store::h_sync,
    h_store::h_fault,
    h_store::h_mem,
    h_store::h_ids,
    h_store::h_page_sizes,
    h_store::h_many,
    h_thr::h_thr_tree,
    h_thr::h_thr_att,
    h_thr::h_thr_store,
    h_query::h_order,
    h_query::h_wide,
    h_query::h_prefix,
    h_query::h_remove_prefix,
);

#[cfg(feature = "native")]
fn main() {
    native::main(TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {
    // keeps every entry point in the module
    for (n, f) in TABLE {
        if std::hint::black_box(n).len() == 1 {
            std::hint::black_box(f)();
        }
    }
}
