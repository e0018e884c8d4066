//! Harnesses: one exported function per property (h_*), executed symbolically
//! by symx and, with the `replay` feature, natively on recorded inputs.
pub mod gen;
pub mod h_bundle;
pub mod h_dag;
pub mod h_facade;
pub mod h_misc;
pub mod h_text;
pub mod h_val;
pub mod memo;
pub mod sym;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
entries! {
    h_bundle::h_faithful,
    h_bundle::h_override,
    h_bundle::h_determ,
    h_bundle::h_valid,
    h_bundle::h_json,
    h_bundle::h_from,
    h_bundle::h_ast,
    h_bundle::h_print,
    h_bundle::h_print_bundle,
    h_bundle::h_cmdjson,
    h_dag::h_steps,
    h_dag::h_records,
    h_dag::h_versions,
    h_dag::h_graph,
    h_dag::h_store,
    h_facade::h_history,
    h_facade::h_relations,
    h_facade::h_refs,
    h_facade::h_deps,
    h_facade::h_failed,
    h_facade::h_listing,
    h_facade::h_search,
    h_facade::h_query,
    h_misc::h_precompiler,
    h_misc::h_transform,
    h_misc::h_transform_any,
    h_text::h_crash,
    h_text::h_print_any,
    h_text::h_spelling,
    h_val::h_names,
    h_val::h_rules,
    h_val::h_condition,
    h_val::h_positions,
    h_val::h_eval,
    h_val::h_translations,
    h_val::h_tamper,
    h_val::h_swap,
    h_val::h_malformed,
    h_val::h_jsonbytes,
}
