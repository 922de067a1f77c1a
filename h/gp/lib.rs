// Runs generated programs on the atomics and on plain memory. Included by gph and gpx.
#[path = "mods.rs"]
mod mods;
use core::fmt::Write;
use mods::{plain, real};
use vcore::gpin::{fill, inputs};

#[repr(C, align(16))]
struct Room([u8; 1024]);

/// Runs program `k` on input `j`. Err: what differs.
pub fn one(seed: u64, k: usize, j: u64, out: &mut dyn Write) -> bool {
    let (a, m0, mut r) = inputs(seed, k, j);
    let (mut x, mut y) = (Room([0; 1024]), Room([0; 1024]));
    let sz = real::SIZE;
    if sz != plain::SIZE || real::ALIGN != plain::ALIGN || real::FIELDS != plain::FIELDS || sz > 1024 - 64 {
        let _ = write!(out, "FAIL prog={} input={} ## layout: size {} align {} fields {:?}, of plain values: size {} align {} fields {:?}\n", k, j, real::SIZE, real::ALIGN, real::FIELDS, plain::SIZE, plain::ALIGN, plain::FIELDS);
        return false;
    }
    fill(&mut x.0[32..32 + sz], real::FIELDS, &mut r);
    for (i, b) in x.0.iter_mut().enumerate() {
        if i < 32 || i >= 32 + sz {
            *b = i as u8 ^ 0xa5;
        }
    }
    y.0 = x.0;
    let (mut mx, mut my) = (m0, m0);
    let (mut tx, mut ty) = ([0u128; real::NT], [0u128; real::NT]);
    // the placement in memory alternates, so that neither depends on it
    unsafe {
        real::PROGS[k](&mut *(x.0.as_mut_ptr().add(32) as *mut real::S), &a, &mut mx, &mut tx);
        plain::PROGS[k](&mut *(y.0.as_mut_ptr().add(32) as *mut plain::S), &a, &mut my, &mut ty);
    }
    let bad = |out: &mut dyn Write, what: core::fmt::Arguments<'_>, g: u128, e: u128| {
        let _ = write!(out, "FAIL prog={} input={} ## {} is {:#x}, on plain memory {:#x}\n", k, j, what, g, e);
        false
    };
    for i in 0..real::NT {
        if tx[i] != ty[i] {
            return bad(out, format_args!("{}", real::NAMES[k].get(i).unwrap_or(&"?")), tx[i], ty[i]);
        }
    }
    for i in 0..8 {
        if mx[i] != my[i] {
            return bad(out, format_args!("m[{}]", i), mx[i] as u128, my[i] as u128);
        }
    }
    for i in 0..1024 {
        if x.0[i] != y.0[i] {
            let f = real::FIELDS.iter().position(|f| i >= 32 + f.0 && i < 32 + f.0 + f.1);
            return match f {
                Some(f) => bad(out, format_args!("byte {} of {}", i - 32 - real::FIELDS[f].0, real::FNAMES[f]), x.0[i] as u128, y.0[i] as u128),
                None => bad(out, format_args!("byte {} next to the structure", i as i64 - 32), x.0[i] as u128, y.0[i] as u128),
            };
        }
    }
    true
}

/// Returns false at the first difference.
pub fn drive(seed: u64, from: u64, count: u64, first: usize, progs: usize, loud: bool, out: &mut dyn Write, at: &mut dyn FnMut(&mut dyn Write)) -> bool {
    let (mut cases, mut changed) = (0u64, 0u64);
    let _ = &mut changed;
    for k in first..(first + progs).min(real::PROGS.len()) {
        for j in from..from + count {
            if loud {
                let _ = write!(out, "AT prog={} input={}\n", k, j);
                at(out);
            }
            cases += 1;
            if !one(seed, k, j, out) {
                return false;
            }
        }
    }
    let _ = write!(out, "STAT cases={} programs={} atomic_calls={}\n", cases, real::PROGS.len(), real::CALLS);
    true
}
