//! Runs one harness entry natively with recorded inputs: `vfr ENTRY INPUTS`, where INPUTS holds one
//! line `tag hex` per symbolic input in order of creation. Prints the notes taken and how the run
//! ended; exit 0 when it ran through, 10 on a failed check, 12 on a panic, 77 when an assumption
//! does not hold (the inputs do not describe this run). Memory errors surface as signals: every heap
//! block lives on pages of its own that become inaccessible when freed.
#![allow(static_mut_refs, dead_code, unused_imports, unused_macros, clippy::all)]
extern crate alloc;

#[macro_use]
#[path = "../../harness/src/vf.rs"]
pub mod vf;
mod native;
include!("../../harness/src/mods.rs");

fn main() {
    native::main()
}
