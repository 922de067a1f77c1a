//! Records exchanged between the generator/judge (native) and the programs Miri interprets. Byte order is the target's.
pub const SEQ: u8 = 0;
pub const SC: u8 = 1;
pub const COH: u8 = 2;
pub const PASS: u8 = 3;
/// Generators only: shapes for SC.
pub const LIT: u8 = 4;
pub const KINDS: [&str; 5] = ["seq", "sc", "coh", "pass", "lit"];
pub const MAXT: usize = 4;

/// Start of a case; `n[t]` operations of thread t follow.
#[derive(Clone, Copy, Default)]
#[repr(C, align(16))]
pub struct Head {
    pub kind: u8,
    pub nv: u8,
    pub nt: u8,
    /// PASS: bit 0 fences, bit 1 a relay thread
    pub flags: u8,
    pub ty: [u8; 4],
    /// size of the memory and place of each variable in it (one allocation if `one`)
    pub off: [u8; 4],
    pub room: [u8; 4],
    pub n: [u8; MAXT],
    pub one: u8,
    /// how often the threads do the same again, on fresh variables
    pub rounds: u8,
    pub pad: [u8; 2],
    pub index: u64,
    pub init: [u128; 4],
}
#[derive(Clone, Copy, Default)]
#[repr(C, align(16))]
pub struct OpR {
    pub a: u128,
    pub b: u128,
    pub var: u8,
    pub k: u8,
    pub o: u8,
    pub f: u8,
    pub pad: [u8; 12],
}
pub const START: u8 = 0xf0;
pub const BAD: u8 = 0xf1;
pub const FINAL: u8 = 0xf2;
pub const END: u8 = 0xf3;
#[derive(Clone, Copy, Default)]
#[repr(C, align(16))]
pub struct ResR {
    pub v: u128,
    pub now: u128,
    /// result kind (`Rk`), or one of the marks above
    pub k: u8,
    pub thread: u8,
    pub pad: [u8; 14],
}
