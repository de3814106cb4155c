//! Symbolic harnesses for sparsey. Every `h_*` function is an entry point of the engine.
#![no_std]
#![allow(clippy::all, unexpected_cfgs, dead_code, unused)]
// With `--cfg pick`, only the entries named by further cfgs are compiled.
extern crate alloc;
pub mod h_comp;
pub mod h_entity;
#[macro_use]
pub mod h_query;
pub mod h_arity;
pub mod h_big;
pub mod h_borrow;
pub mod h_drop;
pub mod h_layout;
pub mod h_mem;
pub mod h_odd;
pub mod h_pure;
pub mod h_view;
pub mod h_wide;
pub mod h_world;
pub mod model;
pub mod rt;

macro_rules! entries {
    ($($m:ident: $($f:ident)*;)*) => {
        pub fn entry(name: &str) -> Option<extern "C-unwind" fn()> {
            match name {
                $($(#[cfg(any(not(pick), $f))] stringify!($f) => Some($m::$f),)*)*
                _ => None,
            }
        }
    };
}
entries! {
    h_entity: h_c01_hist h_c02_hist h_c22_reuse;
    h_comp: h_c04_hist h_c04_any;
    h_query: h_c06_iter h_c06_mut h_c06_bare h_c07_one h_c07_opt h_c07_mut h_c08_slice h_c08_mut;
    h_world: h_c05_diff h_c15_extend h_c10_layout h_c10_twice h_c10_register h_c14_clear h_c14_reset;
    h_layout: h_c09_family h_c09_typed h_c09_arity h_c09_count h_c10_limit h_c10_builder h_c23_info h_c23_many;
    h_arity: h_c04_arity h_c06_arity h_c07_arity h_c08_arity;
    h_big: h_c01_big h_c02_big h_c04_big h_c05_big h_c06_big h_c07_big h_c08_big h_c10_big h_c11_big h_c14_big h_c15_big h_c21_big h_c22_big;
    h_borrow: h_c13_seq h_c13_self;
    h_drop: h_c11_hist h_c11_grow h_c20_drop h_c20_call;
    h_mem: h_c12_grow h_c12_sparse h_c12_odd;
    h_odd: h_c04_dup h_c06_odd h_c08_odd;
    h_view: h_c21_view;
    h_wide: h_c05_wide h_c08_wide;
    h_pure: h_c16_entity h_c16_version h_c17_hist h_c17_grow;
}
