//! Deterministic-simulation runtime.  This crate is the only one that is
//! compiled *without* memory-access instrumentation; it provides the runtime
//! the instrumentation calls, the scheduler, the allocator, the happens-before
//! clocks and the interposed libc entry points.
#![feature(thread_local)]
#![allow(static_mut_refs)]
#![allow(non_camel_case_types, deprecated, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

pub mod mem;
pub mod raw;
pub mod rng;
pub mod rt;
pub mod sys;
pub mod tsan;
pub mod vfs;
pub mod run;
