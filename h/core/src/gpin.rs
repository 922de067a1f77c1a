//! Inputs of generated programs.
/// Input `j` of program `k`, and what is in memory at the start.
pub fn inputs(seed: u64, k: usize, j: u64) -> ([u64; 8], [u64; 8], crate::rng::Rng) {
    let mut r = crate::rng::Rng::new(seed, 8000 + k as u64, j);
    let g = |r: &mut crate::rng::Rng| match r.below(8) {
        0 => r.below(4),
        1 => 0u64.wrapping_sub(r.below(4)),
        2 => 1u64 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        4 => (r.below(256) as u64) * 0x0101_0101_0101_0101,
        _ => r.u64(),
    };
    let (mut a, mut m) = ([0; 8], [0; 8]);
    for x in a.iter_mut().chain(m.iter_mut()) {
        *x = g(&mut r);
    }
    // values that meet
    for i in 0..8 {
        if r.chance(1, 4) {
            a[i] = a[r.below(8) as usize];
        }
    }
    (a, m, r)
}

/// Kinds of fields: 0 any bytes, 1 bool, 2 f32, 3 f64.
pub fn fill(p: &mut [u8], fields: &[(usize, usize, u8)], r: &mut crate::rng::Rng) {
    for &(o, n, k) in fields {
        let b = &mut p[o..o + n];
        let w = match r.below(4) {
            0 => 0u64,
            1 => !0,
            _ => r.u64(),
        };
        match k {
            1 => b[0] = w as u8 & 1,
            2 => b.copy_from_slice(&((w as i16) as f32).to_ne_bytes()),
            3 => b.copy_from_slice(&((w as i16) as f64).to_ne_bytes()),
            _ => {
                for (i, x) in b.iter_mut().enumerate() {
                    *x = (w.rotate_left(i as u32 * 8 % 64) ^ (w >> 60) * i as u64) as u8;
                }
            }
        }
    }
}

