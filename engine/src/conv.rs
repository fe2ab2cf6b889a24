//! Conversions, formatting and serialisation: a native program (native/conv) built against the working tree enumerates
//! the formatting flags, token shapes, values and the moments at which another thread changes the object, on each of the
//! builds below; this module builds and runs it and collects what it reports.
use crate::cfgs::verif_root;
use crate::check::{Args, Found, Tally};
use std::process::Command;
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Build {
    name: &'static str,
    toolchain: &'static str,
    target: &'static str,
    flags: &'static str,
    linker: &'static str,
    runner: &'static [&'static str],
    quick: bool,
    /// a build that only some toolchains support: its failure is a note
    optional: bool,
}
const X: &str = "x86_64-unknown-linux-gnu";
const BUILDS: &[Build] = &[
    Build { name: "x64", toolchain: "stable", target: X, flags: "", linker: "", runner: &[], quick: true, optional: false },
    Build { name: "x64 with f16 and f128", toolchain: "nightly", target: X, flags: "--cfg portable_atomic_unstable_f16 --cfg portable_atomic_unstable_f128", linker: "", runner: &[], quick: true, optional: true },
    Build { name: "x64 without run-time detection", toolchain: "stable", target: X, flags: "--cfg portable_atomic_no_outline_atomics", linker: "", runner: &[], quick: false, optional: false },
    Build { name: "i686", toolchain: "stable", target: "i686-unknown-linux-gnu", flags: "", linker: "i686-linux-gnu-gcc", runner: &["qemu-i386", "-L", "/usr/i686-linux-gnu"], quick: false, optional: true },
    Build { name: "a64", toolchain: "stable", target: "aarch64-unknown-linux-gnu", flags: "", linker: "aarch64-linux-gnu-gcc", runner: &["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"], quick: false, optional: true },
];

fn run_build(b: &Build, thorough: bool) -> Result<String, String> {
    let dir = verif_root().join("native/conv");
    let out = verif_root().join("build/conv").join(b.name.replace(' ', "-"));
    let mut c = Command::new("cargo");
    c.arg(format!("+{}", b.toolchain)).args(["build", "--release", "--offline", "--locked", "--target", b.target]).current_dir(&dir);
    c.env("CARGO_TARGET_DIR", &out).env("RUSTFLAGS", format!("-Awarnings {}", b.flags)).env_remove("CARGO_ENCODED_RUSTFLAGS");
    if !b.linker.is_empty() {
        c.env(format!("CARGO_TARGET_{}_LINKER", b.target.to_uppercase().replace('-', "_")), b.linker);
    }
    let o = c.output().map_err(|e| format!("cargo: {e}"))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        return Err(format!("build of {} failed: {}", b.name, e.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ")));
    }
    let exe = out.join(b.target).join("release/pa_conv");
    let mut c = match b.runner.split_first() {
        Some((r, a)) => {
            let mut c = Command::new(r);
            c.args(a).arg(&exe);
            c
        }
        None => Command::new(&exe),
    };
    if thorough && b.runner.is_empty() {
        c.arg("thorough");
    }
    let log = out.join("out.txt");
    let f = std::fs::File::create(&log).map_err(|e| e.to_string())?;
    let e = f.try_clone().map_err(|e| e.to_string())?;
    let mut p = c.stdout(f).stderr(e).stdin(std::process::Stdio::null()).spawn().map_err(|e| format!("{}: {e}", b.name))?;
    let until = Instant::now() + Duration::from_secs(if thorough { 3600 } else { 300 });
    let st = loop {
        if let Some(s) = p.try_wait().map_err(|e| e.to_string())? {
            break Some(s);
        }
        if Instant::now() > until {
            let _ = p.kill();
            let _ = p.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut s = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).to_string();
    match st {
        None => s.push_str("\nENDS hangs: does not finish within its time limit\n"),
        Some(st) if !st.success() => s.push_str(&format!("\nENDS stops: the program ends with {st}\n")),
        _ => {}
    }
    Ok(s)
}

/// Err: a build that must work does not.
pub fn run(a: &Args, t: &Mutex<Tally>) -> Result<(), String> {
    let bs: Vec<&Build> = BUILDS.iter().filter(|b| (a.thorough || b.quick) && a.only.as_ref().map(|o| o.0 == b.name).unwrap_or(true)).collect();
    let rs: Vec<Result<String, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = bs.iter().map(|b| s.spawn(|| run_build(b, a.thorough))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut t = t.lock().unwrap();
    for (b, r) in bs.iter().zip(rs) {
        let s = match r {
            Ok(s) => s,
            Err(e) if b.optional => {
                t.notes.push(e);
                continue;
            }
            Err(e) => return Err(e),
        };
        let mut total = false;
        let tail: Vec<String> = s.lines().rev().take(6).map(|x| x.to_string()).collect();
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("BAD ").or(l.strip_prefix("ENDS ")) {
                if t.found.len() >= 40 {
                    continue;
                }
                let (scen, msg) = x.split_once(": ").unwrap_or((x, ""));
                let (scen, msg) = (scen.to_string(), msg.to_string());
                let trace = if l.starts_with("ENDS") { tail.clone() } else { vec![] };
                t.found.push(Found { unit: b.name.into(), scen, why: "differs".into(), msg, trace, describe: vec![] });
            } else if let Some(x) = l.strip_prefix("TOTAL ") {
                let v: Vec<u64> = x.split(' ').filter_map(|x| x.parse().ok()).collect();
                if v.len() < 4 {
                    continue;
                }
                total = true;
                t.scenarios += v[0] + v[1];
                t.states += v[0] + v[1];
                t.transitions += v[0] + 2 * v[1];
                t.finals += v[0] + v[1];
                t.impl_traces += v[0] + v[1];
                t.per.insert(b.name.into(), (v[0] + v[1], v[0] + v[1], v[0] + 2 * v[1]));
                *t.extra.entry("types".into()).or_default() += v[2];
                *t.extra.entry("comparisons".into()).or_default() += v[0];
                *t.extra.entry("concurrent_change_schedules".into()).or_default() += v[1];
                t.samples.push(format!("{}: {} comparisons, {} schedules of a change during formatting or serialising, {} types", b.name, v[0], v[1], v[2]));
            }
        }
        if !total && !s.contains("ENDS ") {
            return Err(format!("{}: no result: {}", b.name, tail.join(" / ")));
        }
    }
    Ok(())
}
