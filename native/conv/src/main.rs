//! Formats, serialises, deserialises and converts every atomic type and the plain type side by side, over all flag
//! combinations, token shapes and value alphabets, and compares. Prints `BAD <type> <what>` for each difference (the
//! first few of each kind) and `TOTAL <comparisons> <mutations> <types>` at the end.
#![allow(unexpected_cfgs)]
#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]
mod tokens;
mod formats {
    include!(concat!(env!("OUT_DIR"), "/formats.rs"));
}
use portable_atomic as pa;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::{Debug, Pointer, Write};
use std::sync::atomic::Ordering::*;
use tokens::*;

thread_local! {
    static BAD: RefCell<BTreeMap<String, u32>> = const { RefCell::new(BTreeMap::new()) };
    static N: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}
fn bad(ty: &str, kind: &str, what: String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        let n = b.entry(format!("{ty} {kind}")).or_default();
        *n += 1;
        if *n <= 2 {
            println!("BAD {ty} {kind}: {what}");
        }
    });
}
fn count(m: bool) {
    N.with(|n| if m { n.borrow_mut().1 += 1 } else { n.borrow_mut().0 += 1 });
}
struct Out<'a> {
    s: String,
    k: usize,
    at: usize,
    f: &'a dyn Fn(),
}
impl Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.k == self.at {
            (self.f)();
        }
        self.k += 1;
        self.s.push_str(s);
        Ok(())
    }
}
struct Refuse(usize);
impl Write for Refuse {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
fn text<T: ?Sized>(f: fn(&mut dyn Write, &T) -> std::fmt::Result, x: &T) -> String {
    let mut s = String::new();
    let r = f(&mut s, x);
    if r.is_err() {
        s.push_str("<error>");
    }
    s
}
#[derive(Debug, Serialize, Deserialize)]
#[serde(rename = "S")]
struct S<A> {
    x: A,
    y: (u8, Option<A>),
    z: Vec<A>,
}
const TOKENS: &[Tok] = &[
    Tok::Bool(false), Tok::Bool(true), Tok::Unit, Tok::None, Tok::Fail, Tok::Char('1'), Tok::Char('x'), Tok::Str("1"), Tok::Str("true"), Tok::Str(""), Tok::String("7"), Tok::String("inf"), Tok::Bytes(b"1"), Tok::Bytes(b""),
    Tok::Some(0), Tok::Some(1), Tok::Some(255), Tok::Newtype(1), Tok::Seq(1), Tok::Map(1),
    Tok::F32(0.0), Tok::F32(-0.0), Tok::F32(1.0), Tok::F32(1.5), Tok::F32(f32::NAN), Tok::F32(f32::INFINITY), Tok::F32(3e38), Tok::F32(1e-45),
    Tok::F64(0.0), Tok::F64(-0.0), Tok::F64(1.0), Tok::F64(2.5), Tok::F64(f64::NAN), Tok::F64(f64::NEG_INFINITY), Tok::F64(1e300), Tok::F64(1e39), Tok::F64(5e-324), Tok::F64(0.1),
];
fn tokens() -> Vec<Tok> {
    let mut v = TOKENS.to_vec();
    for i in 0..=255u8 {
        v.push(Tok::U8(i));
        v.push(Tok::I8(i as i8));
    }
    let mut w: Vec<i128> = vec![0, 1, -1, 2, 100, -100];
    for b in [7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127] {
        let p = 1i128.wrapping_shl(b);
        for d in -1..=1 {
            w.push(p.wrapping_add(d));
            w.push(p.wrapping_neg().wrapping_add(d));
        }
    }
    w.sort();
    w.dedup();
    for x in w {
        macro_rules! t { ($($k:ident $t:ty),*) => { $(if let Ok(y) = <$t>::try_from(x) { v.push(Tok::$k(y)); })* }; }
        t!(I16 i16, I32 i32, I64 i64, I128 i128, U16 u16, U32 u32, U64 u64, U128 u128);
        v.push(Tok::U128(x as u128));
    }
    v
}
const JSON: &[&str] = &[
    "0", "1", "-0", "-1", "255", "256", "-128", "-129", "127", "128", "65535", "65536", "-32768", "-32769", "4294967295", "4294967296", "-2147483648", "-2147483649", "18446744073709551615", "18446744073709551616",
    "-9223372036854775808", "-9223372036854775809", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "1.0", "1.5", "-2.5e3", "1e400", "1e-400", "3.4028236e38", "0.1", "5e-324", "true", "false", "null", "\"1\"", "\"true\"", "\"NaN\"", "\"\"", "[]", "[1]", "[1,2]", "{}", "{\"x\":1}", "", " ", "-", "+1", "01", "1 ", " 1", "1 2", "1,", "tru", "nul", "NaN", "Infinity", "0x10", "1_000", "[", "{", "\"", "1e", "1.", ".5", "9007199254740993",
];

macro_rules! check {
    ($name:expr, $at:ty, $pt:ty, $vals:expr, $eq:expr, $serde:tt) => {{
        let name: &str = $name;
        let vals: Vec<$pt> = $vals;
        let eq: fn($pt, $pt) -> bool = $eq;
        let full = vals.len() > 300;
        // default
        let d = <$at>::default();
        if !eq(d.load(SeqCst), <$pt>::default()) {
            bad(name, "default", format!("{:?}", d.load(SeqCst)));
        }
        let other = vals[vals.len() / 2];
        let obj = <$at>::new(vals[0]);
        for (vi, &v) in vals.iter().enumerate() {
            count(false);
            if !eq(<$at>::from(v).into_inner(), v) {
                bad(name, "from", format!("{v:?} becomes {:?}", <$at>::from(v).into_inner()));
            }
            let it: $at = v.into();
            if !eq(it.load(Relaxed), v) {
                bad(name, "into", format!("{v:?} becomes {:?}", it.load(SeqCst)));
            }
            obj.store(v, SeqCst);
            // (all flags on every value, except that the many 16-bit values take turns)
            for (fi, (flags, f)) in formats::DEBUG.iter().enumerate() {
                if full && (fi + vi) % 61 != 0 {
                    continue;
                }
                count(false);
                let (a, p) = (text(*f, &obj as &dyn Debug), text(*f, &v as &dyn Debug));
                if a != p {
                    bad(name, "format", format!("{flags} of {v:?} prints {a:?} instead of {p:?}"));
                }
                if !eq(obj.load(SeqCst), v) {
                    bad(name, "format changes", format!("{flags} of {v:?} leaves {:?}", obj.load(SeqCst)));
                    obj.store(v, SeqCst);
                }
            }
            if full && vi % 97 != 0 {
                continue;
            }
            // another value is stored while the text is being written: the text is that of one of the two
            for (flags, f) in formats::DEBUG.iter().step_by(7) {
                let (p, q) = (text(*f, &v as &dyn Debug), text(*f, &other as &dyn Debug));
                for at in 0..8 {
                    count(true);
                    obj.store(v, SeqCst);
                    let g = || obj.store(other, SeqCst);
                    let mut o = Out { s: String::new(), k: 0, at, f: &g };
                    let _ = f(&mut o, &obj as &dyn Debug);
                    let k = o.k;
                    if o.s != p && o.s != q {
                        bad(name, "format mixes", format!("{flags} of {v:?}, with {other:?} stored at write {at}, prints {:?}", o.s));
                    }
                    if k <= at {
                        break;
                    }
                }
            }
            obj.store(v, SeqCst);
            // errors of the sink come through
            for room in 0..4 {
                for (flags, f) in formats::DEBUG.iter().step_by(61) {
                    count(false);
                    let (a, p) = (f(&mut Refuse(room), &obj as &dyn Debug).is_err(), f(&mut Refuse(room), &v as &dyn Debug).is_err());
                    if a != p {
                        bad(name, "format error", format!("{flags} of {v:?}, {room} bytes: error {a} instead of {p}"));
                    }
                }
            }
            // nested
            let (a, p) = (S { x: <$at>::new(v), y: (1, Some(<$at>::new(v))), z: vec![<$at>::new(v), <$at>::new(other)] }, S { x: v, y: (1, Some(v)), z: vec![v, other] });
            for (flags, f) in formats::DEBUG.iter().step_by(5) {
                count(false);
                let (s, t) = (text(*f, &a as &dyn Debug), text(*f, &p as &dyn Debug));
                if s != t {
                    bad(name, "nested format", format!("{flags} prints {s:?} instead of {t:?}"));
                }
            }
            check!(@$serde name, $at, $pt, obj, v, other, eq, a, p);
        }
        check!(@de $serde name, $at, $pt, eq);
    }};
    (@serde $name:ident, $at:ty, $pt:ty, $obj:ident, $v:ident, $other:ident, $eq:ident, $a:ident, $p:ident) => {{
        for human in [false, true] {
            for fail in [false, true] {
                count(false);
                let (la, lp) = (RefCell::new(vec![]), RefCell::new(vec![]));
                let ra = $obj.serialize(Rec { log: &la, human, fail });
                let rp = $v.serialize(Rec { log: &lp, human, fail });
                if ra != rp || la != lp {
                    bad($name, "serialize", format!("{:?} becomes {ra:?} {la:?} instead of {rp:?} {lp:?}", $v));
                }
                if !$eq($obj.load(SeqCst), $v) {
                    bad($name, "serialize changes", format!("{:?} to {:?}", $v, $obj.load(SeqCst)));
                    $obj.store($v, SeqCst);
                }
            }
        }
        count(false);
        let (ja, jp) = (serde_json::to_string(&$obj).map_err(|e| e.to_string()), serde_json::to_string(&$v).map_err(|e| e.to_string()));
        if ja != jp {
            bad($name, "json", format!("{:?} becomes {ja:?} instead of {jp:?}", $v));
        }
        if serde_json::to_string(&$a).map_err(|e| e.to_string()) != serde_json::to_string(&$p).map_err(|e| e.to_string()) {
            bad($name, "nested json", format!("{:?}", $v));
        }
        if let Ok(j) = serde_json::to_string(&$p) {
            let (x, y) = (serde_json::from_str::<S<$at>>(&j), serde_json::from_str::<S<$pt>>(&j));
            match (x, y) {
                (Ok(x), Ok(y)) if $eq(x.x.load(SeqCst), y.x) && x.z.len() == y.z.len() && $eq(x.z[1].load(SeqCst), y.z[1]) && x.y.1.as_ref().map(|q| $eq(q.load(SeqCst), y.y.1.unwrap())).unwrap_or(y.y.1.is_none()) => {}
                (Err(x), Err(y)) if x.to_string() == y.to_string() => {}
                (x, y) => bad($name, "nested json back", format!("{j}: {:?} instead of {:?}", x.map(|_| ()), y.map(|_| ()))),
            }
        }
        // a serialiser reads once: what is stored meanwhile does not mix in
        let _ = $other;
    }};
    (@plain $($t:tt)*) => {};
    (@de serde $name:ident, $at:ty, $pt:ty, $eq:ident) => {{
        for tok in tokens() {
            for human in [false, true] {
                count(false);
                let (la, lp) = (RefCell::new(vec![]), RefCell::new(vec![]));
                let ra = <$at>::deserialize(Give { tok, log: &la, human });
                let rp = <$pt>::deserialize(Give { tok, log: &lp, human });
                let same = match (&ra, &rp) {
                    (Ok(a), Ok(p)) => $eq(a.load(SeqCst), *p),
                    (Err(a), Err(p)) => a == p,
                    _ => false,
                };
                if !same || la != lp {
                    bad($name, "deserialize", format!("{tok:?} gives {ra:?} {la:?} instead of {rp:?} {lp:?}"));
                }
                count(false);
                let mut a = <$at>::new(<$pt>::default());
                let mut p = <$pt>::default();
                let (la, lp) = (RefCell::new(vec![]), RefCell::new(vec![]));
                let ra = Deserialize::deserialize_in_place(Give { tok, log: &la, human }, &mut a);
                let rp = Deserialize::deserialize_in_place(Give { tok, log: &lp, human }, &mut p);
                if ra != rp || la != lp || !$eq(*a.get_mut(), p) {
                    bad($name, "deserialize in place", format!("{tok:?} gives {ra:?} {:?} instead of {rp:?} {p:?}", a.get_mut()));
                }
            }
        }
        for j in JSON {
            count(false);
            let (ra, rp) = (serde_json::from_str::<$at>(j), serde_json::from_str::<$pt>(j));
            let same = match (&ra, &rp) {
                (Ok(a), Ok(p)) => $eq(a.load(SeqCst), *p),
                (Err(a), Err(p)) => a.to_string() == p.to_string(),
                _ => false,
            };
            if !same {
                bad($name, "from json", format!("{j:?} gives {ra:?} instead of {rp:?}"));
            }
        }
    }};
    (@de plain $($t:tt)*) => {};
}
fn ints(bits: u32) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, -1, 2, 0x55, 0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF01];
    for b in 0..bits {
        for d in -1..=1 {
            v.push(1i128.wrapping_shl(b).wrapping_add(d));
            v.push(1i128.wrapping_shl(b).wrapping_neg().wrapping_add(d));
        }
    }
    let mut t = 1i128;
    for _ in 0..38 {
        for d in -1..=1 {
            v.push(t + d);
            v.push(-t + d);
        }
        t = t.wrapping_mul(10);
    }
    v.push(i128::MAX);
    v.push(i128::MIN);
    let m = if bits == 128 { !0u128 } else { (1u128 << bits) - 1 };
    for x in &mut v {
        *x = (*x as u128 & m) as i128;
    }
    v.sort();
    v.dedup();
    if bits == 8 {
        v = (0..256).collect();
    }
    v
}
fn main() {
    let thorough = std::env::args().any(|a| a == "thorough");
    let mut types = 0;
    macro_rules! int {
        ($($n:literal $at:ident $pt:ty, $b:expr);*) => {
            $({
                let v: Vec<$pt> = if $b == 16 && thorough { (0..=0xffffu32).map(|x| x as $pt).collect() } else { ints($b).into_iter().map(|x| x as $pt).collect() };
                types += 1;
                check!($n, pa::$at, $pt, v, |a, b| a == b, serde);
            })*
        };
    }
    check!("bool", pa::AtomicBool, bool, vec![false, true], |a, b| a == b, serde);
    int!("u8" AtomicU8 u8, 8; "i8" AtomicI8 i8, 8; "u16" AtomicU16 u16, 16; "i16" AtomicI16 i16, 16; "u32" AtomicU32 u32, 32; "i32" AtomicI32 i32, 32);
    int!("u64" AtomicU64 u64, 64; "i64" AtomicI64 i64, 64; "u128" AtomicU128 u128, 128; "i128" AtomicI128 i128, 128; "usize" AtomicUsize usize, usize::BITS; "isize" AtomicIsize isize, usize::BITS);
    macro_rules! float {
        ($($n:literal $at:ident $pt:ty, $u:ty, $man:expr, $serde:tt);*) => {
            $({
                let bits = <$u>::BITS;
                let s: $u = 1 << (bits - 1);
                let exp: $u = ((1 << (bits - 1 - $man)) - 1) << $man;
                let bias: $u = exp >> 1 & exp;
                let mut v: Vec<$u> = vec![0, 1, (1 << $man) - 1, 1 << $man, bias, bias + 1, bias - 1, exp - 1, exp, exp | 1 << ($man - 1), exp | 5, exp | 1 << ($man - 1) | 5];
                for d in [0.1f64, 0.5, 1.5, 2.5, 3.0, 10.0, 100.0, 123456.0, 1e7, 1e16, 1e17, 1e-5, 1e-7, 0.3] {
                    v.push((d as $pt).to_bits());
                }
                for k in 0..(bits - 1 - $man) {
                    v.push(1 << ($man + k));
                    v.push(exp ^ (1 << ($man + k)));
                }
                let v: Vec<$pt> = v.iter().flat_map(|x| [*x, *x | s]).map(<$pt>::from_bits).collect();
                types += 1;
                check!($n, pa::$at, $pt, v, |a, b| a.to_bits() == b.to_bits(), $serde);
            })*
        };
    }
    float!("f32" AtomicF32 f32, u32, 23, serde; "f64" AtomicF64 f64, u64, 52, serde);
    #[cfg(portable_atomic_unstable_f16)]
    {
        check!("f16", pa::AtomicF16, f16, (0..2000u32).map(|x| f16::from_bits((x * 33) as u16)).take(290).chain([0u16, 0x8000, 0x7c00, 0xfc00, 0x7e05, 0x3c00].map(f16::from_bits)).collect(), |a, b| a.to_bits() == b.to_bits(), plain);
        types += 1;
    }
    #[cfg(portable_atomic_unstable_f128)]
    {
        check!("f128", pa::AtomicF128, f128, [0.0f64, -0.0, 1.0, -2.5, 1e300, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 0.1].iter().map(|x| *x as f128).chain([1u128, 1 << 127 | 1, 0x7fff_8000_0000_0000_0000_0000_0000_0005, 0x7ffe_ffff_ffff_ffff_ffff_ffff_ffff_ffff].map(f128::from_bits)).collect(), |a, b| a.to_bits() == b.to_bits(), plain);
        types += 1;
    }
    // pointers
    macro_rules! ptr {
        ($n:literal, $t:ty) => {{
            types += 1;
            let vals: Vec<usize> = ints(usize::BITS).into_iter().map(|x| x as usize).collect();
            let obj = pa::AtomicPtr::<$t>::default();
            if !obj.load(SeqCst).is_null() {
                bad($n, "default", format!("{:?}", obj.load(SeqCst)));
            }
            for a in vals {
                let v = a as *mut $t;
                obj.store(v, SeqCst);
                count(false);
                if pa::AtomicPtr::from(v).into_inner() != v {
                    bad($n, "from", format!("{v:?}"));
                }
                for (flags, f) in formats::DEBUG {
                    count(false);
                    let (s, t) = (text(*f, &obj as &dyn Debug), text(*f, &v as &dyn Debug));
                    if s != t || obj.load(SeqCst) != v {
                        bad($n, "format", format!("{flags} of {v:?} prints {s:?} instead of {t:?}"));
                    }
                }
                for (flags, f) in formats::POINTER {
                    count(false);
                    let (s, t) = (text(*f, &obj as &dyn Pointer), text(*f, &v as &dyn Pointer));
                    if s != t || obj.load(SeqCst) != v {
                        bad($n, "format", format!("{flags} of {v:?} prints {s:?} instead of {t:?}"));
                    }
                }
            }
        }};
    }
    ptr!("*mut u8", u8);
    ptr!("*mut [u64; 3]", [u64; 3]);
    ptr!("*mut ()", ());
    // cross-type views
    macro_rules! bits {
        ($n:literal, $at:ident, $pt:ty, $u:ty) => {{
            for x in ints(<$u>::BITS) {
                count(false);
                let x = x as $u;
                let f = pa::$at::new(<$pt>::from_bits(x));
                let y = f.as_bits().load(SeqCst);
                f.as_bits().store(!x, SeqCst);
                let z = f.load(SeqCst).to_bits();
                if y != x || z != !x || f.as_ptr() as usize != f.as_bits().as_ptr() as usize {
                    bad($n, "bits", format!("{x:#x}: {y:#x}, {z:#x}"));
                }
            }
        }};
    }
    bits!("f32", AtomicF32, f32, u32);
    bits!("f64", AtomicF64, f64, u64);
    let n = N.with(|n| *n.borrow());
    let k: u32 = BAD.with(|b| b.borrow().values().sum());
    println!("TOTAL {} {} {} {k}", n.0, n.1, types + 1);
}
