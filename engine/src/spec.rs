//! What each operation is documented to do, as a function from the contents to (new contents, result).
use crate::fp;
use crate::ir::{mask, sext};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Bool,
    Int(u32, bool),
    Ptr(u32),
    Float(u32),
    None,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Entry {
    pub name: String,
    pub ty: String,
    pub t: T,
    pub bits: u32,
    pub op: String,
    pub func: u32,
}

pub fn parse_entry(name: &str, func: u32, ptr_bits: u32) -> Option<Entry> {
    let r = name.strip_prefix("h_").or_else(|| name.strip_prefix("v_"))?;
    if matches!(r, "fence" | "compiler_fence" | "spin_loop") {
        return Some(Entry { name: name.into(), ty: String::new(), t: T::None, bits: 8, op: r.into(), func });
    }
    let (ty, op) = r.split_once('_')?;
    let (t, bits) = match ty {
        "bool" => (T::Bool, 8),
        "usize" => (T::Int(ptr_bits, false), ptr_bits),
        "isize" => (T::Int(ptr_bits, true), ptr_bits),
        _ => {
            if let Some(s) = ty.strip_prefix("ptr") {
                (T::Ptr(s.parse().ok()?), ptr_bits)
            } else {
                let n: u32 = ty[1..].parse().ok()?;
                match &ty[..1] {
                    "u" => (T::Int(n, false), n),
                    "i" => (T::Int(n, true), n),
                    "f" => (T::Float(n), n),
                    _ => return None,
                }
            }
        }
    };
    Some(Entry { name: name.into(), ty: ty.into(), t, bits, op: op.into(), func })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Res {
    pub flag: u32,
    pub val: Option<u128>,
    pub val2: Option<u128>,
}

pub const RMW_OPS: &[&str] = &["swap", "fetch_add", "fetch_sub", "fetch_and", "fetch_nand", "fetch_or", "fetch_xor", "fetch_not", "fetch_neg", "fetch_max", "fetch_min"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Load,
    Store,
    Rmw,
    Cas,
    Update,
    Query,
    Fence,
}
pub fn kind(op: &str) -> Kind {
    match op {
        "load" | "into_inner" | "second" => Kind::Load,
        "new" | "from" | "default" | "const" | "const_inner" | "static" | "layout" => Kind::Store,
        "store" => Kind::Store,
        "cas" | "casw" => Kind::Cas,
        "fetch_update" => Kind::Update,
        "is_lock_free" | "is_always_lock_free" => Kind::Query,
        "fence" | "compiler_fence" | "spin_loop" => Kind::Fence,
        _ => Kind::Rmw,
    }
}
/// valid (o1, o2) pairs
pub fn orderings(op: &str) -> Vec<(u32, u32)> {
    match kind(op) {
        Kind::Load => vec![(0, 0), (2, 0), (4, 0)],
        Kind::Store => vec![(0, 0), (1, 0), (4, 0)],
        Kind::Rmw => (0..5).map(|o| (o, 0)).collect(),
        Kind::Cas | Kind::Update => (0..5).flat_map(|s| [(s, 0), (s, 2), (s, 4)]).collect(),
        Kind::Query => vec![(0, 0)],
        Kind::Fence => match op {
            "spin_loop" => vec![(0, 0)],
            _ => (1..5).map(|o| (o, 0)).collect(),
        },
    }
}
pub fn ord_name(o: u32) -> &'static str {
    ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"][o.min(4) as usize]
}

/// What the closure of the harness's `fetch_update` does.
pub fn closure(e: &Entry, x: u128, a: u128, b: u128) -> Result<Option<u128>, String> {
    let w = e.bits;
    if mask(x, w) == mask(b, w) {
        return Ok(None);
    }
    Ok(Some(match e.t {
        T::Bool => (x ^ a) & 1,
        T::Float(_) => fp::fbin(fp::FOp::Add, x, a, w)?,
        _ => mask(x.wrapping_mul(3).wrapping_add(a), w),
    }))
}

/// New value of an unconditional read-modify-write, without its "fetch_" prefix.
pub fn rmw_new(e: &Entry, op: &str, x: u128, a: u128) -> Result<u128, String> {
    let w = e.bits;
    let (x, a) = (mask(x, w), mask(a, w));
    let f = matches!(e.t, T::Float(_));
    let r = match op {
        "swap" => a,
        "add" if f => fp::fbin(fp::FOp::Add, x, a, w)?,
        "sub" if f => fp::fbin(fp::FOp::Sub, x, a, w)?,
        "max" if f => fp::fbin(fp::FOp::Max, x, a, w)?,
        "min" if f => fp::fbin(fp::FOp::Min, x, a, w)?,
        "neg" if f => x ^ (1 << (w - 1)),
        "abs" => x & !(1u128 << (w - 1)),
        "add" => x.wrapping_add(a),
        "sub" => x.wrapping_sub(a),
        "and" => x & a,
        "nand" if e.t == T::Bool => (x & a & 1) ^ 1,
        "nand" => !(x & a),
        "or" => x | a,
        "xor" => x ^ a,
        "not" if e.t == T::Bool => x ^ 1,
        "not" => !x,
        "neg" => 0u128.wrapping_sub(x),
        "max" | "min" => {
            let less = match e.t {
                T::Int(_, true) => sext(x, w) < sext(a, w),
                _ => x < a,
            };
            if less == (op == "max") { a } else { x }
        }
        "ptr_add" | "ptr_sub" => {
            let T::Ptr(s) = e.t else { return Err("ptr op".into()) };
            let d = a.wrapping_mul(s as u128);
            if op == "ptr_add" { x.wrapping_add(d) } else { x.wrapping_sub(d) }
        }
        "byte_add" => x.wrapping_add(a),
        "byte_sub" => x.wrapping_sub(a),
        _ => return Err(format!("operation {op}")),
    };
    Ok(mask(r, w))
}

/// The constant that the harness's constants and statics are made of.
pub fn constant(e: &Entry) -> u128 {
    match e.t {
        T::Bool | T::Ptr(_) => 1,
        T::Float(w) => crate::scen::fval(w, 1.0),
        _ => mask(0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF01, e.bits),
    }
}
/// All (new contents, result) an operation may produce on contents `x`.
pub fn spec(e: &Entry, x: u128, a: u128, b: u128) -> Result<Vec<(u128, Res)>, String> {
    let w = e.bits;
    let x = mask(x, w);
    let (a, b) = (mask(a, w), mask(b, w));
    let op = e.op.as_str();
    let val = |n: u128, v: u128| vec![(n, Res { flag: 1, val: Some(v), val2: None })];
    Ok(match op {
        "load" | "into_inner" | "second" => val(x, x),
        "get_mut" | "as_ptr" | "from_ptr" | "as_bits" => val(a, x),
        "new" | "from" => vec![(a, Res { flag: 1, val: None, val2: None })],
        "default" => vec![(0, Res { flag: 1, val: None, val2: None })],
        "const" | "const_inner" | "static" => vec![(constant(e), Res { flag: 1, val: None, val2: None })],
        "layout" => vec![(x, Res { flag: (w / 8) * 0x101, val: None, val2: None })],
        "store" => vec![(a, Res { flag: 1, val: None, val2: None })],
        "cas" | "casw" => {
            let mut o = vec![];
            if x == a {
                o.push((b, Res { flag: 1, val: Some(x), val2: None }));
            }
            if x != a || op == "casw" {
                o.push((x, Res { flag: 0, val: Some(x), val2: None }));
            }
            o
        }
        "fetch_update" => match closure(e, x, a, b)? {
            Some(n) => vec![(n, Res { flag: 1, val: Some(x), val2: Some(x) })],
            None => vec![(x, Res { flag: 0, val: Some(x), val2: Some(x) })],
        },
        "is_lock_free" | "is_always_lock_free" | "fence" | "compiler_fence" | "spin_loop" => {
            (0..2).map(|f| (x, Res { flag: f, val: None, val2: None })).collect()
        }
        "bit_set" | "bit_clear" | "bit_toggle" => {
            let m = 1u128 << (mask(a, 32) % w as u128);
            let n = match op {
                "bit_set" => x | m,
                "bit_clear" => x & !m,
                _ => x ^ m,
            };
            vec![(n, Res { flag: (x & m != 0) as u32, val: None, val2: None })]
        }
        _ => {
            if let Some(r) = op.strip_prefix("fetch_") {
                val(rmw_new(e, r, x, a)?, x)
            } else if op == "swap" {
                val(a, x)
            } else {
                vec![(rmw_new(e, op, x, a)?, Res { flag: 1, val: None, val2: None })]
            }
        }
    })
}
/// Result reported by an operation; what it did not report is dropped.
pub fn observed(e: &Entry, flag: u32, val: u128, val2: u128) -> Res {
    let w = e.bits;
    match kind(&e.op) {
        Kind::Store | Kind::Fence => Res { flag, val: None, val2: None },
        Kind::Query => Res { flag, val: None, val2: None },
        Kind::Update => Res { flag, val: Some(mask(val, w)), val2: Some(mask(val2, w)) },
        Kind::Load | Kind::Cas => Res { flag, val: Some(mask(val, w)), val2: None },
        Kind::Rmw => {
            if e.op.starts_with("fetch_") || matches!(e.op.as_str(), "swap" | "get_mut" | "as_ptr" | "from_ptr" | "as_bits") {
                Res { flag, val: Some(mask(val, w)), val2: None }
            } else {
                Res { flag, val: None, val2: None }
            }
        }
    }
}
