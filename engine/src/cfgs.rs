//! The builds of the crate that are examined, and the machines each of them is run on.
use crate::asm::*;
use crate::ir;
use crate::sc::World;
use crate::spec::{parse_entry, Entry};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Excl {
    /// several cores, atomic instructions
    Smp,
    /// one core, interrupts masked around operations
    Irq,
    /// critical-section implementation supplied by the user
    Cs,
}
pub struct Cfg {
    pub name: &'static str,
    pub target: &'static str,
    pub nightly: bool,
    pub feats: &'static str,
    pub flags: &'static str,
    pub excl: Excl,
    /// widest width the instruction set handles natively
    pub native: u32,
    /// width (above `native`) that instructions may provide on suitable machines
    pub dw: u32,
    pub cpus: fn() -> Vec<CpuModel>,
}

fn cpu(name: &str, feats: &[&str]) -> CpuModel {
    CpuModel { name: name.into(), feats: feats.iter().map(|s| s.to_string()).collect(), kuser_version: 5, ..Default::default() }
}
fn plain() -> Vec<CpuModel> {
    vec![cpu("base", &[])]
}
fn x86_cpu(name: &str, vendor: &[u8; 12], cx16: bool, avx: bool, osavx: bool, atomic16: bool) -> CpuModel {
    let mut f = vec![];
    if cx16 {
        f.push("cmpxchg16b");
    }
    if avx && osavx {
        f.push("avx");
    }
    if atomic16 {
        f.push("avx16atomic");
    }
    let mut c = cpu(name, &f);
    let w = |i: usize| u32::from_le_bytes(vendor[i..i + 4].try_into().unwrap());
    c.cpuid.insert((0, 0), [0xd, w(0), w(8), w(4)]);
    let mut ecx = 1 << 26;
    if osavx {
        ecx |= 1 << 27;
    }
    if cx16 {
        ecx |= 1 << 13;
    }
    if avx {
        ecx |= 1 << 28;
    }
    c.cpuid.insert((1, 0), [0x000306a9, 0x00100800, ecx, 0x178bfbff]);
    c.xcr0 = if osavx { 7 } else { 0 };
    c
}
/// A machine for a build in which the compiler was told that CMPXCHG16B exists.
fn x86_cx16() -> Vec<CpuModel> {
    let mut v = vec![
        x86_cpu("intel-avx", b"GenuineIntel", true, true, true, true),
        x86_cpu("amd-noavx", b"AuthenticAMD", true, false, false, false),
    ];
    v.push(x86_cpu("intel-avx-os-off", b"GenuineIntel", true, true, false, true));
    v
}
fn x86_all() -> Vec<CpuModel> {
    let mut v = x86_cx16();
    v.push(x86_cpu("old-nocx16", b"AuthenticAMD", false, false, false, false));
    v.push(x86_cpu("hv-nocx16-avx", b"GenuineIntel", false, true, true, true));
    // XSAVE enabled by the OS, but not the AVX state
    let mut c = x86_cpu("intel-avx-xcr0-sse", b"GenuineIntel", true, true, true, true);
    c.feats.remove("avx");
    c.xcr0 = 3;
    v.push(c);
    // AVX state bit without SSE state bit, and a CPU without AVX under an OS that enabled XSAVE
    let mut c = x86_cpu("intel-xsave-noavx", b"GenuineIntel", true, false, true, false);
    c.xcr0 = 3;
    v.push(c);
    v.push(x86_cpu("amd-avx", b"AuthenticAMD", true, true, true, true));
    v
}
pub const AT_HWCAP: u64 = 16;
pub const AT_HWCAP2: u64 = 26;
const HW_BASE: u64 = (1 << 0) | (1 << 1);
fn a64_cpu(name: &str, lse: bool, lse2: bool, lse128: bool, rcpc3: bool, auxv: bool) -> CpuModel {
    let mut f = vec![];
    let (mut h1, mut h2) = (HW_BASE, 0u64);
    if lse {
        f.push("lse");
        h1 |= 1 << 8;
    }
    if lse2 {
        f.push("lse2");
        h1 |= 1 << 25;
    }
    if lse128 {
        f.push("lse128");
        h2 |= 1 << 47;
    }
    if rcpc3 {
        f.push("rcpc3");
        f.push("rcpc");
        h1 |= (1 << 15) | (1 << 26);
        h2 |= 1 << 46;
    }
    let mut c = cpu(name, &f);
    if auxv {
        c.auxv.insert(AT_HWCAP, h1);
        c.auxv.insert(AT_HWCAP2, h2);
    }
    c.dl.insert("getauxval".into());
    c
}
fn a64_all() -> Vec<CpuModel> {
    vec![
        a64_cpu("v8.0", false, false, false, false, true),
        a64_cpu("lse", true, false, false, false, true),
        a64_cpu("lse-lse2", true, true, false, false, true),
        a64_cpu("v9.4", true, true, true, true, true),
        a64_cpu("lse2-only", false, true, false, false, true),
        a64_cpu("lse2-rcpc3", true, true, false, true, true),
        a64_cpu("lse128-norcpc3", true, true, true, false, true),
        a64_cpu("v9.4-noauxv", true, true, true, true, false),
    ]
}
fn a64_musl() -> Vec<CpuModel> {
    let mut v = a64_all();
    let mut c = a64_cpu("v9.4-nodlsym", true, true, true, true, true);
    c.dl.clear();
    v.push(c);
    v
}
fn a64_min(f: &[&str]) -> Vec<CpuModel> {
    let h = |s: &str| f.contains(&s);
    let mut v = vec![a64_cpu("min", h("lse"), h("lse2"), h("lse128"), h("rcpc3"), true)];
    let full = a64_cpu("v9.4", true, true, true, true, true);
    v.push(full);
    if !h("lse2") {
        v.push(a64_cpu("min+lse2", h("lse"), true, h("lse128"), false, true));
    }
    v
}
fn a64_noout() -> Vec<CpuModel> {
    a64_min(&[])
}
fn a64_lse() -> Vec<CpuModel> {
    a64_min(&["lse"])
}
fn a64_lse2() -> Vec<CpuModel> {
    a64_min(&["lse2"])
}
fn a64_lselse2() -> Vec<CpuModel> {
    a64_min(&["lse", "lse2"])
}
fn a64_full() -> Vec<CpuModel> {
    a64_min(&["lse", "lse2", "lse128", "rcpc3"])
}
fn with_lsfe(mut v: Vec<CpuModel>) -> Vec<CpuModel> {
    for c in &mut v {
        c.feats.insert("lsfe".into());
    }
    v
}
fn a64_lsfe() -> Vec<CpuModel> {
    with_lsfe(a64_lse())
}
fn a64_lsfe_full() -> Vec<CpuModel> {
    with_lsfe(a64_full())
}
fn a64_apple() -> Vec<CpuModel> {
    // every Apple AArch64 Mac has LSE and LSE2
    let mut v = vec![a64_cpu("m1", true, true, false, false, false), a64_cpu("m-next", true, true, true, true, false), a64_cpu("m-nosysctl", true, true, false, false, false)];
    for (i, c) in v.iter_mut().enumerate() {
        let n = (i == 1) as u32;
        if i < 2 {
            for k in ["hw.optional.arm.FEAT_LSE", "hw.optional.armv8_1_atomics", "hw.optional.arm.FEAT_LSE2"] {
                c.sysctl.insert(k.into(), 1);
            }
            for k in ["hw.optional.arm.FEAT_LSE128", "hw.optional.arm.FEAT_LRCPC3"] {
                c.sysctl.insert(k.into(), n);
            }
        }
    }
    v
}
/// An AArch64 machine with these extensions as the given system reports it.
pub fn a64_os(os: &str, f: [bool; 4], noise: bool, answers: bool) -> CpuModel {
    let [lse, lse2, lse128, rcpc3] = f;
    let mut c = a64_cpu(&format!("{os} lse={lse} lse2={lse2} lse128={lse128} rcpc3={rcpc3} otherbits={noise} answers={answers}"), lse, lse2, lse128, rcpc3, false);
    c.dl.clear();
    let fill = |known: u64| if noise { !known } else { 0 };
    let b = |x: bool| x as u64;
    let h1 = b(lse) << 8 | b(lse2) << 25 | fill(1 << 8 | 1 << 25);
    let h2 = b(lse128) << 47 | b(rcpc3) << 46 | fill(1 << 47 | 1 << 46);
    let isar0 = (if lse128 { 3 } else { 2 * b(lse) }) << 20 | fill(15 << 20);
    let isar1 = (if rcpc3 { 3 } else { 2 * b(noise) }) << 20 | fill(15 << 20);
    let mmfr2 = b(lse2) << 32 | fill(15 << 32);
    if !answers {
        return c;
    }
    match os {
        "android" => {
            c.auxv.insert(16, h1);
            c.auxv.insert(26, h2);
            c.dl.insert("getauxval".into());
            for k in [0u64, 3, 15, 24, 25, 27, 28, 29, 30, 31, 38, 39] {
                c.auxv.insert(k, !0);
            }
        }
        "freebsd" => {
            c.auxv.insert(25, h1);
            c.auxv.insert(26, h2);
            c.dl.insert("elf_aux_info".into());
            for k in [0u64, 3, 15, 16, 24, 27, 28, 29, 30, 31, 38, 39] {
                c.auxv.insert(k, !0);
            }
        }
        "openbsd" => {
            for k in 0..16 {
                let v = match k {
                    2 => isar0,
                    3 => isar1,
                    7 => mmfr2,
                    _ => !0,
                };
                c.answers.insert(format!("mib:7.{k}"), v.to_le_bytes().to_vec());
            }
        }
        "netbsd" => {
            let mut r = vec![if noise { !0u64 } else { 0 }; 17];
            r[5] = isar0;
            r[6] = isar1;
            r[9] = mmfr2;
            c.answers.insert("machdep.cpu0.cpu_id".into(), r.iter().flat_map(|x| x.to_le_bytes()).collect());
        }
        "illumos" => {
            let v1 = (lse as u32) << 15 | fill(1 << 15) as u32;
            let v2 = (lse2 as u32) << 2 | fill(1 << 2) as u32;
            c.answers.insert("isax".into(), [v1, v2].iter().flat_map(|x| x.to_le_bytes()).collect());
        }
        "fuchsia" => {
            let v = (lse as u32) << 8 | fill(1 << 8) as u32;
            c.answers.insert("kind:0".into(), v.to_le_bytes().to_vec());
            for k in 1..4 {
                c.answers.insert(format!("kind:{k}"), vec![255; 4]);
            }
        }
        "windows" => {
            for k in 0..96 {
                let on = match k {
                    34 => lse,
                    62 => lse2,
                    _ => noise,
                };
                if on {
                    c.answers.insert(format!("pf:{k}"), vec![1]);
                }
            }
        }
        _ => {}
    }
    c
}
pub fn a64_all_os(os: &str) -> Vec<CpuModel> {
    let mut v = vec![];
    for bits in (0..32u32).rev() {
        let (lse, lse2, lse128, rcpc3, noise) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0);
        if lse128 && !lse || rcpc3 && !lse2 {
            // the architecture requires the base feature
            continue;
        }
        for answers in [true, false] {
            let c = a64_os(os, [lse, lse2, lse128, rcpc3], noise, answers);
            if os == "android" && answers {
                // a machine some of whose cores lack what the kernel reports
                for (prop, bad) in [("exynos9810", true), ("exynos9810xyz", true), ("exynos9820", false), ("exynos981", false), ("", false)] {
                    let mut c = c.clone();
                    c.answers.insert("prop:ro.arch".into(), prop.as_bytes().to_vec());
                    c.name = format!("{} ro.arch={prop}", c.name);
                    if bad {
                        if !lse || lse2 {
                            continue;
                        }
                        for f in ["lse", "lse128"] {
                            c.feats.remove(f);
                        }
                    }
                    v.push(c);
                }
            }
            v.push(c);
        }
    }
    v
}
fn few(os: &str) -> Vec<CpuModel> {
    let mut v = vec![a64_os(os, [true; 4], false, true), a64_os(os, [true, true, false, false], false, true), a64_os(os, [true, false, false, false], false, true), a64_os(os, [false; 4], false, true)];
    v[0].name = format!("{os}-v9.4");
    v[1].name = format!("{os}-lse2");
    v[2].name = format!("{os}-lse");
    v[3].name = format!("{os}-v8.0");
    v
}
fn a64_windows() -> Vec<CpuModel> {
    few("windows")
}
fn a64_android() -> Vec<CpuModel> {
    few("android")
}
fn a64_freebsd() -> Vec<CpuModel> {
    few("freebsd")
}
fn a64_netbsd() -> Vec<CpuModel> {
    few("netbsd")
}
fn a64_openbsd() -> Vec<CpuModel> {
    few("openbsd")
}
fn a64_illumos() -> Vec<CpuModel> {
    few("illumos")
}
fn a64_fuchsia() -> Vec<CpuModel> {
    few("fuchsia")
}
fn ppc_bsd() -> Vec<CpuModel> {
    let mut v = ppc_all();
    for c in &mut v {
        let h = c.auxv.remove(&AT_HWCAP).unwrap_or(0);
        c.auxv.insert(25, h);
        c.dl = ["elf_aux_info".to_string()].into_iter().collect();
    }
    v
}
fn ppc_aix() -> Vec<CpuModel> {
    let mut v = vec![];
    for (n, x, q) in [("power8", 0x1_0000u64, true), ("power9", 0x2_0000, true), ("power10", 0x4_0000, true), ("power7", 0x8000, false), ("older", 0x7fff, false), ("unknown", !0, false)] {
        let mut c = cpu(n, if q { &["quadword-atomics"] } else { &[] });
        c.answers.insert("syscfg:2".into(), x.to_le_bytes().to_vec());
        for k in [0, 1, 3, 4, 5] {
            c.answers.insert(format!("syscfg:{k}"), 0xffff_ffffu64.to_le_bytes().to_vec());
        }
        v.push(c);
    }
    v
}
fn rv_cpu(name: &str, feats: &[&str], probe: Option<&[(i64, u64)]>) -> CpuModel {
    let mut c = cpu(name, feats);
    c.hwprobe = probe.map(|p| p.iter().copied().collect());
    c
}
fn rv64_all() -> Vec<CpuModel> {
    vec![
        rv_cpu("zacas", &["a", "zacas"], Some(&[(3, 1), (4, 1 << 34)])),
        rv_cpu("nozacas", &["a"], Some(&[(3, 1), (4, 3)])),
        rv_cpu("old-kernel", &["a", "zacas"], None),
        rv_cpu("no-ext-key", &["a"], Some(&[(3, 1)])),
        rv_cpu("not-ima", &["a"], Some(&[(3, 0), (4, 1 << 34)])),
        rv_cpu("zabha-only", &["a", "zabha"], Some(&[(3, 1), (4, 1 << 58)])),
    ]
}
fn rv_none() -> Vec<CpuModel> {
    vec![rv_cpu("base", &[], None)]
}
fn rv_a() -> Vec<CpuModel> {
    vec![rv_cpu("a", &["a"], None)]
}
fn rv_zacas() -> Vec<CpuModel> {
    vec![rv_cpu("zacas", &["a", "zacas"], Some(&[(3, 1), (4, 1 << 34)]))]
}
fn rv_zabha() -> Vec<CpuModel> {
    vec![rv_cpu("zabha", &["a", "zabha"], None)]
}
fn rv_zacas_zabha() -> Vec<CpuModel> {
    vec![rv_cpu("zacas-zabha", &["a", "zacas", "zabha"], Some(&[(3, 1), (4, (1 << 34) | (1 << 58))]))]
}
fn rv_m() -> Vec<CpuModel> {
    vec![rv_cpu("m-mode", &[], None)]
}
fn x86_avx_static() -> Vec<CpuModel> {
    vec![x86_cpu("intel-avx", b"GenuineIntel", true, true, true, true)]
}
fn x86_avx_only() -> Vec<CpuModel> {
    vec![x86_cpu("intel-avx", b"GenuineIntel", true, true, true, true), x86_cpu("hv-nocx16-avx", b"GenuineIntel", false, true, true, true)]
}
fn a64_lse128() -> Vec<CpuModel> {
    a64_min(&["lse", "lse128"])
}
fn a64_rcpc3() -> Vec<CpuModel> {
    a64_min(&["lse2", "rcpc3"])
}
fn s390_z14() -> Vec<CpuModel> {
    vec![cpu("z14", &["distinct-ops", "load-store-on-cond", "fast-serialization"])]
}
fn s390_z15() -> Vec<CpuModel> {
    vec![cpu("z15", &["distinct-ops", "load-store-on-cond", "fast-serialization", "miscellaneous-extensions-3"])]
}
fn rv_s() -> Vec<CpuModel> {
    vec![rv_cpu("s-mode", &["smode"], None)]
}
fn rv_m_a() -> Vec<CpuModel> {
    vec![rv_cpu("m-mode-a", &["a"], None)]
}
fn ppc_q() -> Vec<CpuModel> {
    vec![ppc_cpu("power8", true, 0, 0x8000_0000), ppc_cpu("power10", true, 0, 0x8084_0000)]
}
fn ppc_cpu(name: &str, q: bool, h1: u64, h2: u64) -> CpuModel {
    let mut c = cpu(name, if q { &["quadword-atomics"] } else { &[] });
    c.auxv.insert(AT_HWCAP, h1);
    c.auxv.insert(AT_HWCAP2, h2);
    c.dl.insert("getauxval".into());
    c
}
fn ppc_all() -> Vec<CpuModel> {
    vec![
        ppc_cpu("power8", true, 0xdc00_0000, 0x8000_0000),
        ppc_cpu("power7", false, 0xdc00_0000, 0),
        ppc_cpu("power9-only3_00", true, 0xdc00_0000, 0x0080_0000),
        ppc_cpu("power10-only3_1", true, 0xdc00_0000, 0x0004_0000),
        ppc_cpu("power7-otherbits", false, 0xdc00_0000, 0x4000_0000 | 0x2000_0000 | 0x0800_0000),
        ppc_cpu("booke", false, 0x0000_8000, 0x8000_0000),
    ]
}
fn arm_kuser() -> Vec<CpuModel> {
    let mut v = vec![];
    for (n, k) in [("kuser5", 5), ("kuser3", 3), ("kuser4", 4), ("kuser6", 6)] {
        let mut c = cpu(n, &[]);
        c.kuser_version = k;
        v.push(c);
    }
    v
}
fn mclass() -> Vec<CpuModel> {
    vec![cpu("mclass", &["mclass"])]
}
fn avr_rmw() -> Vec<CpuModel> {
    vec![cpu("xmega", &["rmw"])]
}
fn avr_plain() -> Vec<CpuModel> {
    vec![cpu("base", &[])]
}

const FF: &str = "fallback,float";
const PRIV: &str = "fallback,float,unsafe-assume-privileged";
const SC: &str = "fallback,float,unsafe-assume-single-core";
/// What build.rs sets for old compilers (all of it that this compiler can build).
macro_rules! old {
    () => {
        "--cfg=portable_atomic_no_atomic_min_max --cfg=portable_atomic_no_track_caller --cfg=portable_atomic_no_core_unwind_safe --cfg=portable_atomic_no_stronger_failure_ordering --cfg=portable_atomic_no_asm_maybe_uninit --cfg=portable_atomic_no_diagnostic_namespace --cfg=portable_atomic_no_strict_provenance --cfg=portable_atomic_no_strict_provenance_atomic_ptr --cfg=portable_atomic_pre_llvm_20 --cfg=portable_atomic_pre_llvm_18 --cfg=portable_atomic_pre_llvm_16"
    };
}
pub const CFGS: &[Cfg] = &[
    Cfg { name: "x64", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_all },
    Cfg { name: "x64cx16", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: "-Ctarget-feature=+cmpxchg16b", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_cx16 },
    Cfg { name: "x64noout", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: "--cfg=portable_atomic_no_outline_atomics", excl: Excl::Smp, native: 64, dw: 0, cpus: x86_all },
    Cfg { name: "x64detfalse", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: "--cfg=portable_atomic_test_detect_false", excl: Excl::Smp, native: 64, dw: 0, cpus: x86_all },
    Cfg { name: "i686", target: "i686-unknown-linux-gnu", nightly: false, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "a64", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_all },
    Cfg { name: "a64musl", target: "aarch64-unknown-linux-musl", nightly: false, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_musl },
    Cfg { name: "a64noout", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "--cfg=portable_atomic_no_outline_atomics", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_noout },
    Cfg { name: "a64lse", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "-Ctarget-feature=+lse", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lse },
    Cfg { name: "a64lse2", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "-Ctarget-feature=+lse2", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lse2 },
    Cfg { name: "a64lselse2", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "-Ctarget-feature=+lse,+lse2", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lselse2 },
    Cfg { name: "a64full", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "-Ctarget-feature=+lse,+lse2,+lse128,+rcpc3", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_full },
    Cfg { name: "a64apple", target: "aarch64-apple-darwin", nightly: false, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_apple },
    Cfg { name: "wasm", target: "wasm32-unknown-unknown", nightly: false, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "rv64", target: "riscv64gc-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: rv64_all },
    Cfg { name: "rv64noout", target: "riscv64gc-unknown-linux-gnu", nightly: true, feats: FF, flags: "--cfg=portable_atomic_no_outline_atomics", excl: Excl::Smp, native: 64, dw: 0, cpus: rv64_all },
    Cfg { name: "rv64zacas", target: "riscv64gc-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+zacas", excl: Excl::Smp, native: 64, dw: 128, cpus: rv_zacas },
    Cfg { name: "rv64zabha", target: "riscv64gc-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+zacas,+zabha", excl: Excl::Smp, native: 64, dw: 128, cpus: rv_zacas_zabha },
    Cfg { name: "rv32imac", target: "riscv32imac-unknown-none-elf", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: rv_a },
    Cfg { name: "rv32zacas", target: "riscv32imac-unknown-none-elf", nightly: true, feats: FF, flags: "-Ctarget-feature=+zacas", excl: Excl::Smp, native: 32, dw: 64, cpus: rv_zacas },
    Cfg { name: "rv32zabha", target: "riscv32imac-unknown-none-elf", nightly: true, feats: FF, flags: "-Ctarget-feature=+zabha", excl: Excl::Smp, native: 32, dw: 0, cpus: rv_zabha },
    Cfg { name: "ppc64le", target: "powerpc64le-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: ppc_q },
    Cfg { name: "ppc64", target: "powerpc64-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: ppc_all },
    Cfg { name: "s390x", target: "s390x-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: plain },
    Cfg { name: "armv5linux", target: "armv5te-unknown-linux-gnueabi", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 64, cpus: arm_kuser },
    Cfg { name: "rv32i-sc", target: "riscv32i-unknown-none-elf", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_m },
    Cfg { name: "rv32i-sc-s", target: "riscv32i-unknown-none-elf", nightly: true, feats: "fallback,float,unsafe-assume-single-core,s-mode", flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_s },
    Cfg { name: "rv32i-sc-amo", target: "riscv32i-unknown-none-elf", nightly: true, feats: "fallback,float,unsafe-assume-single-core,force-amo", flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_m_a },
    Cfg { name: "thumbv6m-sc", target: "thumbv6m-none-eabi", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: mclass },
    Cfg { name: "thumbv6m-cs", target: "thumbv6m-none-eabi", nightly: true, feats: "fallback,float,critical-section", flags: "", excl: Excl::Cs, native: 32, dw: 0, cpus: mclass },
    Cfg { name: "armv4t-sc", target: "armv4t-none-eabi", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: plain },
    Cfg { name: "armv4t-fiq", target: "armv4t-none-eabi", nightly: true, feats: "fallback,float,unsafe-assume-single-core,disable-fiq", flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: plain },
    Cfg { name: "msp430", target: "msp430-none-elf", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 16, dw: 0, cpus: plain },
    Cfg { name: "avr", target: "avr-none", nightly: true, feats: SC, flags: "-Ctarget-cpu=atmega328p", excl: Excl::Irq, native: 8, dw: 0, cpus: avr_plain },
    Cfg { name: "avr-rmw", target: "avr-none", nightly: true, feats: SC, flags: "-Ctarget-cpu=atxmega16a4u -Cunsafe-allow-abi-mismatch=target-cpu", excl: Excl::Irq, native: 8, dw: 0, cpus: avr_rmw },
    Cfg { name: "a64be", target: "aarch64_be-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_all },
    Cfg { name: "a64belse", target: "aarch64_be-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+lse,+lse2", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lselse2 },
    Cfg { name: "x32", target: "x86_64-unknown-linux-gnux32", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_all },
    Cfg { name: "rv32imac-sc", target: "riscv32imac-unknown-none-elf", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_m_a },
    Cfg { name: "rv32imac-priv", target: "riscv32imac-unknown-none-elf", nightly: true, feats: PRIV, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_m_a },
    Cfg { name: "rv32imac-priv-smp", target: "riscv32imac-unknown-none-elf", nightly: true, feats: PRIV, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: rv_m_a },
    Cfg { name: "thumbv7m-priv", target: "thumbv7m-none-eabi", nightly: true, feats: PRIV, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: mclass },
    Cfg { name: "thumbv7m-sc", target: "thumbv7m-none-eabi", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 32, dw: 0, cpus: mclass },
    Cfg { name: "a64win", target: "aarch64-pc-windows-msvc", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_windows },
    Cfg { name: "a64android", target: "aarch64-linux-android", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_android },
    Cfg { name: "a64freebsd", target: "aarch64-unknown-freebsd", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_freebsd },
    Cfg { name: "a64netbsd", target: "aarch64-unknown-netbsd", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_netbsd },
    Cfg { name: "a64openbsd", target: "aarch64-unknown-openbsd", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_openbsd },
    Cfg { name: "a64illumos", target: "aarch64-unknown-illumos", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_illumos },
    Cfg { name: "a64fuchsia", target: "aarch64-unknown-fuchsia", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_fuchsia },
    Cfg { name: "ppc64freebsd", target: "powerpc64-unknown-freebsd", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: ppc_bsd },
    Cfg { name: "ppc64openbsd", target: "powerpc64-unknown-openbsd", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: ppc_bsd },
    Cfg { name: "ppc64aix", target: "powerpc64-ibm-aix", nightly: true, feats: FF, flags: "--cfg=portable_atomic_outline_atomics", excl: Excl::Smp, native: 64, dw: 128, cpus: ppc_aix },
    Cfg { name: "x64tsan", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: "--cfg=portable_atomic_sanitize_thread", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_all },
    Cfg { name: "x64miri", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: "--cfg=miri --cfg=portable_atomic_no_strict_provenance --cfg=portable_atomic_no_strict_provenance_atomic_ptr -Aexplicit_builtin_cfgs_in_flags -Ctarget-feature=+cmpxchg16b", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_cx16 },
    Cfg { name: "x64old", target: "x86_64-unknown-linux-gnu", nightly: false, feats: FF, flags: concat!(old!()), excl: Excl::Smp, native: 64, dw: 128, cpus: x86_all },
    Cfg { name: "i686old", target: "i686-unknown-linux-gnu", nightly: false, feats: FF, flags: concat!(old!()), excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "a64old", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: concat!(old!()), excl: Excl::Smp, native: 64, dw: 128, cpus: a64_all },
    Cfg { name: "a64oldfull", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: concat!(old!(), " -Ctarget-feature=+lse,+lse2,+lse128,+rcpc3,+lsfe"), excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lsfe_full },
    Cfg { name: "a64lsfe", target: "aarch64-unknown-linux-gnu", nightly: false, feats: FF, flags: "-Ctarget-feature=+lse,+lsfe", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lsfe },
    Cfg { name: "rv64old", target: "riscv64gc-unknown-linux-gnu", nightly: true, feats: FF, flags: concat!(old!()), excl: Excl::Smp, native: 64, dw: 128, cpus: rv64_all },
    Cfg { name: "thumbv6m-old", target: "thumbv6m-none-eabi", nightly: true, feats: SC, flags: old!(), excl: Excl::Irq, native: 32, dw: 0, cpus: mclass },
    Cfg { name: "rv32i-old", target: "riscv32i-unknown-none-elf", nightly: true, feats: SC, flags: old!(), excl: Excl::Irq, native: 32, dw: 0, cpus: rv_m },
    Cfg { name: "msp430-old", target: "msp430-none-elf", nightly: true, feats: SC, flags: old!(), excl: Excl::Irq, native: 16, dw: 0, cpus: plain },
    Cfg { name: "rv32old", target: "riscv32imac-unknown-none-elf", nightly: true, feats: FF, flags: concat!(old!(), " -Ctarget-feature=+zacas"), excl: Excl::Smp, native: 32, dw: 64, cpus: rv_zacas },
    Cfg { name: "s390x-z14", target: "s390x-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-cpu=z14", excl: Excl::Smp, native: 64, dw: 128, cpus: s390_z14 },
    Cfg { name: "s390x-z15", target: "s390x-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-cpu=z15", excl: Excl::Smp, native: 64, dw: 128, cpus: s390_z15 },
    Cfg { name: "x64avx", target: "x86_64-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+avx,+cmpxchg16b", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_avx_static },
    Cfg { name: "x64avxonly", target: "x86_64-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+avx", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_avx_only },
    Cfg { name: "x64apple", target: "x86_64-apple-darwin", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 128, cpus: x86_cx16 },
    Cfg { name: "a64lse128", target: "aarch64-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+lse,+lse128", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_lse128 },
    Cfg { name: "a64rcpc3", target: "aarch64-unknown-linux-gnu", nightly: true, feats: FF, flags: "-Ctarget-feature=+lse2,+rcpc3", excl: Excl::Smp, native: 64, dw: 128, cpus: a64_rcpc3 },
    Cfg { name: "armv7linux", target: "armv7-unknown-linux-gnueabihf", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "armv6linux", target: "arm-unknown-linux-gnueabihf", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "thumbv8base", target: "thumbv8m.base-none-eabi", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: plain },
    Cfg { name: "armv7r", target: "armv7r-none-eabi", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "mips", target: "mips-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: plain },
    Cfg { name: "ppc32", target: "powerpc-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: plain },
    Cfg { name: "loong64", target: "loongarch64-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "sparc64", target: "sparc64-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 64, dw: 0, cpus: plain },
    Cfg { name: "m68k", target: "m68k-unknown-linux-gnu", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: plain },
    Cfg { name: "rv32i-zaamo", target: "riscv32i-unknown-none-elf", nightly: true, feats: SC, flags: "-Ctarget-feature=+zaamo", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_m_a },
    Cfg { name: "rv32i-zabha", target: "riscv32i-unknown-none-elf", nightly: true, feats: SC, flags: "-Ctarget-feature=+zaamo,+zabha", excl: Excl::Irq, native: 32, dw: 0, cpus: rv_zabha },
    Cfg { name: "rv32i-smp", target: "riscv32i-unknown-none-elf", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: rv_none },
    Cfg { name: "rv32i-zaamo-smp", target: "riscv32i-unknown-none-elf", nightly: true, feats: FF, flags: "-Ctarget-feature=+zaamo --cfg=vamo", excl: Excl::Smp, native: 32, dw: 0, cpus: rv_a },
    Cfg { name: "rv32i-zabha-smp", target: "riscv32i-unknown-none-elf", nightly: true, feats: FF, flags: "-Ctarget-feature=+zaamo,+zabha --cfg=vamo --cfg=vamo8", excl: Excl::Smp, native: 32, dw: 0, cpus: rv_zabha },
    Cfg { name: "rv64im-zaamo-smp", target: "riscv64im-unknown-none-elf", nightly: true, feats: FF, flags: "-Ctarget-feature=+zaamo --cfg=vamo", excl: Excl::Smp, native: 64, dw: 0, cpus: rv_a },
    Cfg { name: "rv64im-sc", target: "riscv64im-unknown-none-elf", nightly: true, feats: SC, flags: "", excl: Excl::Irq, native: 64, dw: 0, cpus: rv_m },
    Cfg { name: "rv64im-zaamo", target: "riscv64im-unknown-none-elf", nightly: true, feats: SC, flags: "-Ctarget-feature=+zaamo", excl: Excl::Irq, native: 64, dw: 0, cpus: rv_m_a },
    Cfg { name: "rv32i-cs", target: "riscv32i-unknown-none-elf", nightly: true, feats: "fallback,float,critical-section", flags: "", excl: Excl::Cs, native: 32, dw: 0, cpus: rv_none },
    Cfg { name: "thumbv6m-nocas", target: "thumbv6m-none-eabi", nightly: true, feats: FF, flags: "", excl: Excl::Smp, native: 32, dw: 0, cpus: mclass },
    Cfg { name: "ppc64old", target: "powerpc64le-unknown-linux-gnu", nightly: true, feats: FF, flags: concat!(old!()), excl: Excl::Smp, native: 64, dw: 128, cpus: ppc_q },
];
pub fn cfg(name: &str) -> &'static Cfg {
    CFGS.iter().find(|c| c.name == name).unwrap_or_else(|| panic!("no configuration {name}"))
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| {
        let e = std::env::current_exe().unwrap();
        let mut p: &Path = &e;
        while let Some(q) = p.parent() {
            if q.join("harness/Cargo.toml").exists() {
                return q.to_path_buf();
            }
            p = q;
        }
        PathBuf::from("/verif")
    })
}

fn find_ll(dir: &Path, out: &mut Vec<(std::time::SystemTime, PathBuf)>) {
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() {
                find_ll(&p, out);
            } else if p.extension().map(|x| x == "ll").unwrap_or(false) {
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                if n.starts_with("portable_atomic-") || n.starts_with("pa_harness-") {
                    out.push((e.metadata().and_then(|m| m.modified()).unwrap_or(std::time::UNIX_EPOCH), p));
                }
            }
        }
    }
}

/// A system root with the metadata of core, for a target that has none installed.
fn sysroot(c: &Cfg) -> Result<PathBuf, String> {
    static DONE: std::sync::OnceLock<std::sync::Mutex<HashMap<String, Arc<std::sync::OnceLock<Result<PathBuf, String>>>>>> = std::sync::OnceLock::new();
    let one = DONE.get_or_init(Default::default).lock().unwrap().entry(c.target.to_string()).or_default().clone();
    one.get_or_init(|| {
        let root = verif_root();
        let dir = root.join("build/core").join(c.target);
        let mut cmd = Command::new("cargo");
        cmd.args(["+nightly", "--offline", "build", "--release", "--quiet", "-Zbuild-std=core", "--target", c.target]).current_dir(root.join("harness/core"));
        // (avr has no CPU to start from)
        cmd.env("RUSTFLAGS", if c.target.starts_with("avr") { "-Ctarget-cpu=atmega328p" } else { "" });
        env(&mut cmd, &root, &dir);
        let o = cmd.output().map_err(|e| format!("cargo: {e}"))?;
        if !o.status.success() {
            return Err(format!("build of core for {} failed:\n{}", c.target, String::from_utf8_lossy(&o.stderr)));
        }
        let sys = root.join("build/sysroot").join(c.target);
        let lib = sys.join("lib/rustlib").join(c.target).join("lib");
        let _ = std::fs::remove_dir_all(&sys);
        std::fs::create_dir_all(&lib).map_err(|e| e.to_string())?;
        let mut n = 0;
        let mut dirs = vec![dir.join(c.target).join("release")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| e.to_string())?.flatten() {
                let (p, f) = (e.path(), e.file_name().to_string_lossy().to_string());
                if p.is_dir() {
                    dirs.push(p);
                } else if (f.starts_with("libcore-") || f.starts_with("libcompiler_builtins-")) && f.ends_with(".rmeta") {
                    std::fs::copy(&p, lib.join(&f)).map_err(|e| e.to_string())?;
                    n += 1;
                }
            }
        }
        if n != 2 {
            return Err(format!("{n} crates in the system root for {}", c.target));
        }
        Ok(sys)
    })
    .clone()
}
fn env(cmd: &mut Command, root: &Path, dir: &Path) {
    cmd.env("RUSTC_WRAPPER", root.join("tools/rustc-ll.sh"))
        .env("CARGO_TARGET_DIR", dir)
        .env("CARGO_INCREMENTAL", "0")
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .env_remove("CARGO_BUILD_TARGET");
}
/// Compiles the crate for one configuration and returns the IR of crate and harness.
pub fn build(c: &Cfg) -> Result<Vec<String>, String> {
    let root = verif_root();
    let dir = root.join("build/ir").join(c.name);
    let rel = dir.join(c.target).join("release");
    let _ = std::fs::remove_dir_all(&rel);
    let mut flags = c.flags.to_string();
    if c.nightly {
        flags.push_str(&format!(" --sysroot={}", sysroot(c)?.display()));
    }
    let mut cmd = Command::new("cargo");
    cmd.arg(if c.nightly { "+nightly" } else { "+1.99.1" })
        .args(["--offline", "build", "--release", "--quiet", "--target", c.target, "--no-default-features", "--features", c.feats])
        .current_dir(root.join("harness"))
        .env("RUSTFLAGS", flags);
    env(&mut cmd, &root, &dir);
    let o = cmd.output().map_err(|e| format!("cargo: {e}"))?;
    if !o.status.success() {
        return Err(format!("build of {} failed:\n{}", c.name, String::from_utf8_lossy(&o.stderr)));
    }
    let mut ll = vec![];
    find_ll(&rel, &mut ll);
    let mut texts = vec![];
    for pre in ["pa_harness-", "portable_atomic-"] {
        let best = ll.iter().filter(|(_, p)| p.file_name().unwrap().to_string_lossy().starts_with(pre)).max_by_key(|x| x.0);
        let Some((_, p)) = best else { return Err(format!("{}: no IR for {pre}", c.name)) };
        texts.push(std::fs::read_to_string(p).map_err(|e| e.to_string())?);
    }
    Ok(texts)
}

pub struct Loaded {
    pub cfg: &'static Cfg,
    pub world: World,
    pub entries: BTreeMap<String, Entry>,
    /// construction, in-place views, layout
    pub views: BTreeMap<String, Entry>,
}
impl Loaded {
    pub fn fork(&self, cpu: &CpuModel) -> Loaded {
        let mut w = self.world.fork();
        w.cpu = cpu.clone();
        w.name = format!("{}/{}", self.cfg.name, cpu.name);
        Loaded { cfg: self.cfg, world: w, entries: self.entries.clone(), views: self.views.clone() }
    }
    pub fn any(&self, name: &str) -> Option<&Entry> {
        self.entries.get(name).or_else(|| self.views.get(name))
    }
    pub fn e(&self, ty: &str, op: &str) -> Option<&Entry> {
        self.entries.get(&format!("h_{ty}_{op}"))
    }
    pub fn types(&self) -> Vec<(String, u32)> {
        let mut m = HashMap::new();
        for e in self.entries.values() {
            if !e.ty.is_empty() {
                m.insert(e.ty.clone(), e.bits);
            }
        }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort();
        v
    }
    pub fn ops(&self, ty: &str) -> Vec<&Entry> {
        self.entries.values().filter(|e| e.ty == ty).collect()
    }
}

pub fn load(c: &'static Cfg, texts: &[String]) -> Result<Loaded, String> {
    let prog = ir::load_modules(texts).map_err(|e| format!("{}: {e}", c.name))?;
    let pb = prog.layout.ptr_bits;
    let mut entries = BTreeMap::new();
    let mut views = BTreeMap::new();
    for (i, f) in prog.funcs.iter().enumerate() {
        if let Some(e) = parse_entry(&f.name, i as u32, pb) {
            if f.blocks.is_empty() {
                continue;
            }
            if f.name.starts_with("v_") { &mut views } else { &mut entries }.insert(f.name.clone(), e);
        }
    }
    if entries.len() < 50 {
        return Err(format!("{}: only {} entry points", c.name, entries.len()));
    }
    let arch = Arch::of_triple(c.target);
    let world = World::new(c.name, Arc::new(prog), arch, (c.cpus)()[0].clone());
    Ok(Loaded { cfg: c, world, entries, views })
}

/// Builds and loads several configurations side by side.
/// (A build that needs the nightly toolchain may be missing from the result.)
pub fn load_all(names: &[&str]) -> Result<(Vec<Loaded>, Vec<String>), String> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<(usize, Result<Loaded, String>)>> = Default::default();
    // core first, for the targets that need it; then what needs no core; then the rest
    let mut jobs: Vec<(usize, bool)> = vec![];
    for (i, n) in names.iter().enumerate() {
        if cfg(n).nightly && !names[..i].iter().any(|m| cfg(m).target == cfg(n).target && cfg(m).nightly) {
            jobs.push((i, true));
        }
    }
    for nightly in [false, true] {
        jobs.extend((0..names.len()).filter(|i| cfg(names[*i]).nightly == nightly).map(|i| (i, false)));
    }
    std::thread::scope(|s| {
        for _ in 0..8.min(names.len()) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(&(i, core)) = jobs.get(k) else { break };
                let c = cfg(names[i]);
                if core {
                    let _ = sysroot(c);
                } else {
                    let r = build(c).and_then(|t| load(c, &t));
                    out.lock().unwrap().push((i, r));
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let (mut ok, mut notes) = (vec![], vec![]);
    for (i, r) in v {
        match r {
            Ok(l) => ok.push(l),
            Err(e) if cfg(names[i]).nightly => {
                eprintln!("not examined: {e}");
                notes.push(format!("configuration {} was not examined: {}", names[i], e.chars().take(300).collect::<String>()));
            }
            Err(e) => return Err(e),
        }
    }
    Ok((ok, notes))
}
