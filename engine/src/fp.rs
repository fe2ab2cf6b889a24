//! Floating-point helpers on bit patterns.
pub fn f16_to_f32(h: u16) -> f32 {
    let s = ((h >> 15) as u32) << 31;
    let e = ((h >> 10) & 31) as u32;
    let m = (h & 0x3ff) as u32;
    let bits = if e == 31 {
        s | 0x7f80_0000 | (m << 13)
    } else if e == 0 {
        if m == 0 {
            s
        } else {
            let f = m as f32 * 2f32.powi(-24);
            s | f.to_bits()
        }
    } else {
        s | ((e + 112) << 23) | (m << 13)
    };
    f32::from_bits(bits)
}
pub fn f32_to_f16(f: f32) -> u16 {
    let b = f.to_bits();
    let s = ((b >> 16) & 0x8000) as u16;
    let a = b & 0x7fff_ffff;
    if a > 0x7f80_0000 {
        return s | 0x7c00 | ((a >> 13) & 0x3ff) as u16 | 0x200;
    }
    if a >= 0x4780_0000 {
        return s | 0x7c00;
    }
    if a < 0x3880_0000 {
        // subnormal: round to nearest even of value * 2^24
        let v = f32::from_bits(a) as f64 * 16777216.0;
        let r = v.round_ties_even() as u32;
        return s | r as u16;
    }
    let base = a - 0x3800_0000;
    let r = (base >> 13) as u16;
    let rem = base & 0x1fff;
    let up = rem > 0x1000 || (rem == 0x1000 && (r & 1) == 1);
    s | (r + up as u16)
}
pub fn f64_to_f128(d: f64) -> u128 {
    let b = d.to_bits();
    let s = ((b >> 63) as u128) << 127;
    let e = ((b >> 52) & 0x7ff) as u128;
    let m = (b & ((1 << 52) - 1)) as u128;
    if e == 0x7ff {
        s | (0x7fffu128 << 112) | (m << 60)
    } else if e == 0 {
        if m == 0 {
            s
        } else {
            let lz = (m as u64).leading_zeros() - 11;
            s | ((15361 - lz as u128) << 112) | (((m << lz) & ((1 << 52) - 1)) << 60)
        }
    } else {
        s | ((e + 15360) << 112) | (m << 60)
    }
}

/// maximumNumber / minimumNumber of IEEE 754-2019 on f64 values.
pub fn maxnum(a: f64, b: f64) -> f64 {
    if a.is_nan() {
        return b;
    }
    if b.is_nan() {
        return a;
    }
    if a == b {
        if a.is_sign_positive() {
            a
        } else {
            b
        }
    } else if a > b {
        a
    } else {
        b
    }
}
pub fn minnum(a: f64, b: f64) -> f64 {
    if a.is_nan() {
        return b;
    }
    if b.is_nan() {
        return a;
    }
    if a == b {
        if a.is_sign_negative() {
            a
        } else {
            b
        }
    } else if a < b {
        a
    } else {
        b
    }
}

/// Evaluate a binary float operation on bit patterns of width `w`.
pub fn fbin(op: FOp, a: u128, b: u128, w: u32) -> Result<u128, String> {
    Ok(match w {
        32 => {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            (match op {
                FOp::Add => x + y,
                FOp::Sub => x - y,
                FOp::Mul => x * y,
                FOp::Div => x / y,
                FOp::Rem => x % y,
                FOp::Max => return Ok(mm32(x, y, true)),
                FOp::Min => return Ok(mm32(x, y, false)),
            })
            .to_bits() as u128
        }
        64 => {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            (match op {
                FOp::Add => x + y,
                FOp::Sub => x - y,
                FOp::Mul => x * y,
                FOp::Div => x / y,
                FOp::Rem => x % y,
                FOp::Max => maxnum(x, y),
                FOp::Min => minnum(x, y),
            })
            .to_bits() as u128
        }
        16 => {
            let (x, y) = (f16_to_f32(a as u16), f16_to_f32(b as u16));
            if matches!(op, FOp::Max | FOp::Min) {
                return Ok(f32_to_f16(f32::from_bits(mm32(x, y, op == FOp::Max) as u32)) as u128);
            }
            f32_to_f16(match op {
                FOp::Add => x + y,
                FOp::Sub => x - y,
                FOp::Mul => x * y,
                FOp::Div => x / y,
                _ => x % y,
            }) as u128
        }
        _ => return Err(format!("float arithmetic of width {w}")),
    })
}
fn mm32(x: f32, y: f32, max: bool) -> u128 {
    let r = if x.is_nan() {
        y
    } else if y.is_nan() {
        x
    } else if max {
        maxnum(x as f64, y as f64) as f32
    } else {
        minnum(x as f64, y as f64) as f32
    };
    r.to_bits() as u128
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Max,
    Min,
}
