#![allow(dead_code)]
pub mod util;
mod web;
macro_rules! harnesses {
    ($($id:ident: $m:ident :: { $($(#[$b:meta])* $h:ident),* $(,)? })*) => {
        /// (property, harness, function)
        pub const TABLE: &[(&str, &str, fn())] = &[$($((stringify!($id), stringify!($h), $m::$h as fn()),)*)*];
    };
}
pub mod mix;
pub mod sig;
pub mod delay;
pub mod ops;
pub mod osc;
pub mod filt;
pub mod fx;
pub mod env;
pub mod seq;
pub mod pts;
pub mod smp;
pub mod sched;
pub mod prog;
pub mod rnd;
pub mod comp;
pub mod ctx;
pub mod expr;
harnesses! {
    C01: sched::{
        #[bound("all graphs of up to 3 nodes")] sched3,
        #[bound("graphs of 2 and 3 nodes without self-loops, changed between two blocks")] sched3_change,
        #[bound("all graphs of 4 nodes without self-loops")] sched4,
    }
    C02: mix::{pass, pass_no_input, sum, sum2}
    C03: ops::{mul_number, add_number, mul_signal, add_signal, ops_frame}
    C04: osc::{sin_free, saw_free, squ_free, tri_free, sin_fm, saw_fm, squ_fm, tri_fm}
    C05: osc::{sin_range, saw_range, squ_range, tri_range}
    C06: sig::{imp, constsig, constsig_pattern, noise_same_seed, #[bound("40 seeds")] noise_reseed}
    C07: delay::{
        #[bound("lines of 1 to 6 samples")] delayn, delayn_zero, #[bound("lines of 1 to 6 samples")] delayms, delayms_zero,
        #[bound("lines of 1 to 4 samples")] delayms_mod, delay_no_input,
    }
    C08: env::{envperc, adsr, env_no_input}
    C09: fx::{pan_fixed, pan_moving, pan_no_input, balance, balance_same}
    C10: filt::{
        onepole, onepole_moving, lpf, hpf, lpf_moving, hpf_moving, lpf_pattern, #[bound("lines of 1 to 4 samples")] allpass,
        #[bound("lines of 1 to 4 samples")] allpass_moving,
    }
    C11: seq::{#[bound("up to 3 notes")] seq_plain, #[bound("up to 2 notes")] seq_wired, speed}
    C12: seq::{#[bound("up to 4 entries")] pick, #[bound("4 seeds, 120 blocks")] pick_all, #[bound("up to 3 parts")] arrange}
    C13: smp::{
        #[bound("5 blocks, 6 trigger plans")] sampler, #[bound("8 blocks, 4 patterns")] psampler, #[bound("9 blocks, 3 patterns")] pattern_synth,
        #[bound("9 blocks, 5 scores")] msg_synth,
    }
    C14: pts::{#[bound("up to 3 points")] points_once, #[bound("up to 3 points")] points_looping}
    C15: ctx::{
        #[bound("3 nodes, 2 operations")] ctx_connect, #[bound("3 to 5 nodes, 3 operations")] ctx_chain,
        #[bound("4 to 5 nodes, 5 operations")] ctx_remove,
    }
    C16: prog::{#[bound("10 programs")] prog_small, #[bound("10 programs")] prog_large}
    C16: rnd::{#[bound("10 programs, random ones natively")] prog_more}
    C17: prog::{
        #[bound("3 programs, 4 texts")] fail_syntax, #[bound("3 programs, 4 texts")] fail_reference, #[bound("3 programs, 6 texts")] fail_other,
        #[bound("1 text")] fail_notes, #[bound("1 text")] fail_short_notes, #[bound("1 text")] fail_event_cutoff, #[bound("1 text")] fail_event_sampler, #[bound("1 text")] fail_reverb, #[bound("1 text")] fail_expr, #[bound("1 text")] fail_adc,
    }
    C18: prog::{#[bound("8 edits and back")] edit_nodes, #[bound("11 edits and back")] edit_chains}
    C17: rnd::{#[bound("11 faulty changes, random ones natively")] fail_more}
    C18: rnd::{#[bound("8 edits and back, random ones natively")] edit_more}
    C20: rnd::{#[bound("9 messages, random ones natively")] message_more}
    C21: rnd::{#[bound("3 changes, random ones natively")] settings_more}
    C22: rnd::{#[bound("5 programs before and after, random ones natively")] fresh_more}
    C19: rnd::{#[bound("14 nodes, random ones natively")] node_more}
    C23: rnd::{#[bound("5 programs, random ones natively")] size_more}
    C25: rnd::{#[bound("4 layouts, random ones natively")] layout_more}
    C19: prog::{
        #[bound("10 nodes")] node_gen, #[bound("6 nodes")] node_seq, #[bound("5 nodes")] node_points, #[bound("10 nodes")] node_ref,
        #[bound("23 nodes")] node_proc, #[bound("6 nodes")] node_voice, #[bound("8 nodes, 5 blocks")] node_long,
    }
    C20: prog::{#[bound("12 messages")] messages}
    C21: prog::{#[bound("3 settings, 5 nodes")] settings, #[bound("8 changes")] settings_live}
    C22: prog::{#[bound("6 programs before, 5 after")] fresh}
    C23: prog::{#[bound("10 nodes, blocks of 2 and 4")] size_gen, #[bound("10 nodes, blocks of 2 and 4")] size_gen_more, #[bound("21 nodes, blocks of 2 and 4")] size_proc, #[bound("9 programs, blocks of 2 and 4")] size_prog}
    C26: prog::{#[bound("4 programs, 12 blocks")] recordings}
    C27: expr::{#[bound("7 texts, 4 blocks")] eval, script}
    C28: web::{#[bound("5 programs, 3 blocks")] web_play, #[bound("8 faulty programs")] web_errors, #[bound("1 program")] web_samples}
    C24: comp::{drums, little_synths, #[bound("2 blocks of 8 samples, 90 of 64 natively")] plate_mix}
    C25: prog::{#[bound("12 layouts")] spell_layout, #[bound("25 numbers in 4 places")] spell_numbers}
}
