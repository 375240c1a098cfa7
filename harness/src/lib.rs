#![allow(clippy::all)]
pub mod sym;
pub mod tree;
#[cfg(feature = "native")]
pub mod native;

#[global_allocator]
static A: sym::SymAlloc = sym::SymAlloc;

macro_rules! entries {
    ($($name:ident = $f:path;)*) => {
        $(
            #[cfg(not(feature = "native"))]
            #[unsafe(no_mangle)]
            #[inline(never)]
            pub extern "C" fn $name() {
                $f()
            }
        )*
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f as fn()),)*];
    };
}

mod astn;
mod build;
mod find;
mod green;
mod misc;
mod mutate;
mod nav;
mod replace;
mod scale;
mod text;
mod threads;
mod walk;

entries! {
    hx_build = build::build;
    hx_checkpoints = build::checkpoints;
    hx_build_long = build::long;
    hx_cache = build::cache;
    hx_cache_kinds = build::cache_kinds;
    hx_cache_grow = build::cache_grow;
    hx_green_eq = green::eq;
    hx_green_update = green::update;
    hx_green_iter = green::iter;
    hx_green_lying = green::lying_iter;
    hx_green_text = green::same_tree;
    hx_text_ops = text::ops;
    hx_text_utf8 = text::utf8;
    hx_text_slice = text::slice;
    hx_text_eq = text::eq;
    hx_mut_ops = mutate::ops;
    hx_mut_isolation = mutate::isolation;
    hx_mut_detach_iter = mutate::detach_iter;
    hx_mut_move_all = mutate::move_all;
    hx_mut_misuse = mutate::misuse;
    hx_mut_callbacks = mutate::callbacks;
    hx_mut_walk_edit = mutate::walk_edit;
    hx_mut_walks = mutate::walks;
    hx_wide = scale::wide;
    hx_deep = scale::deep;
    hx_deep_print = scale::deep_print;
    hx_many_handles = scale::many_handles;
    hx_long_tokens = scale::long_tokens;
    hx_long_pairs = scale::long_pairs;
    hx_replace = replace::replace;
    hx_ast = astn::helpers;
    hx_serde = misc::serde;
    hx_debug = misc::debug;
    hx_debug_long = misc::debug_long;
    hx_fmt_errors = misc::fmt_errors;
    hx_utility = misc::utility;
    hx_nav_step = nav::step;
    hx_nav_iters = nav::iters;
    hx_nav_by_kind = nav::by_kind;
    hx_nav_in_place = nav::in_place;
    hx_walk = walk::walk;
    hx_tokens = walk::tokens;
    hx_ranges = walk::ranges;
    hx_at_offset = find::at_offset;
    hx_covering = find::covering;
    hx_child_at_range = find::child_at_range;
    hx_ptr_self = find::ptr_self;
    hx_ptr_other = find::ptr_other;
    hx_ptr_typed = find::ptr_typed;
    hx_ptr_mutable = find::ptr_mutable;
    hx_identity = find::identity;
    hx_identity_shared = find::identity_shared;
    hx_threads = threads::threads;
    hx_thread_cursors = threads::cursors;
}
