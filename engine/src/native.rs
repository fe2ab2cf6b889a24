//! Binds the interpreter and the reference functions to real executions: builds the harness into a freestanding program,
//! runs call sequences on the machine itself or under qemu-user, and compares every answer and every byte left behind.
use crate::cfgs::*;
use crate::check::*;
use crate::interp::Why;
use crate::plan::Unit;
use crate::sc::*;
use crate::seqc::same;
use crate::spec::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Machine {
    pub cfg: &'static str,
    pub name: &'static str,
    pub run: &'static [&'static str],
    /// part of the quick tier
    pub quick: bool,
    /// machine of the model that takes the same paths
    pub cpu: &'static str,
}
const fn m(cfg: &'static str, name: &'static str, run: &'static [&'static str], quick: bool, cpu: &'static str) -> Machine {
    Machine { cfg, name, run, quick, cpu }
}
pub const MACHINES: &[Machine] = &[
    m("x64", "this machine", &[], true, "intel-avx"),
    m("x64", "qemu without cmpxchg16b", &["qemu-x86_64", "-cpu", "max,-cx16"], true, "old-nocx16"),
    m("x64", "qemu without avx", &["qemu-x86_64", "-cpu", "Nehalem"], false, "amd-noavx"),
    m("x64cx16", "this machine", &[], false, "intel-avx"),
    m("x64noout", "this machine", &[], false, "intel-avx"),
    m("x64detfalse", "this machine", &[], false, "intel-avx"),
    m("i686", "qemu", &["qemu-i386"], true, "base"),
    m("a64", "qemu cortex-a53", &["qemu-aarch64", "-cpu", "cortex-a53"], true, "v8.0"),
    m("a64", "qemu neoverse-n1", &["qemu-aarch64", "-cpu", "neoverse-n1"], false, "lse"),
    m("a64", "qemu max", &["qemu-aarch64", "-cpu", "max"], true, "lse-lse2"),
    m("a64musl", "qemu max", &["qemu-aarch64", "-cpu", "max"], false, "lse-lse2"),
    m("a64noout", "qemu cortex-a53", &["qemu-aarch64", "-cpu", "cortex-a53"], false, "min"),
    m("a64lse", "qemu neoverse-n1", &["qemu-aarch64", "-cpu", "neoverse-n1"], false, "min"),
    m("a64lse2", "qemu max", &["qemu-aarch64", "-cpu", "max"], false, "min"),
    m("a64lselse2", "qemu max", &["qemu-aarch64", "-cpu", "max"], false, "min"),
    m("a64be", "qemu cortex-a53", &["qemu-aarch64_be", "-cpu", "cortex-a53"], false, "v8.0"),
    m("a64be", "qemu max", &["qemu-aarch64_be", "-cpu", "max"], false, "lse-lse2"),
    m("rv64", "qemu rv64", &["qemu-riscv64", "-cpu", "rv64"], false, "nozacas"),
    m("rv64noout", "qemu rv64", &["qemu-riscv64", "-cpu", "rv64"], false, "nozacas"),
    m("rv32imac", "qemu rv32", &["qemu-riscv32", "-cpu", "rv32"], false, "a"),
    m("ppc64le", "qemu power10", &["qemu-ppc64le", "-cpu", "power10"], false, "power10"),
    m("s390x", "qemu max", &["qemu-s390x", "-cpu", "max"], false, "base"),
    m("armv5linux", "qemu", &["qemu-arm"], false, "kuser5"),
    m("armv4t-sc", "qemu", &["qemu-arm"], false, "base"),
    m("armv4t-fiq", "qemu", &["qemu-arm"], false, "base"),
    m("thumbv6m-cs", "qemu", &["qemu-arm", "-cpu", "cortex-m3"], false, "mclass"),
];

/// Builds the driver for one configuration.
pub fn build_driver(l: &Loaded, names: &[&String]) -> Result<PathBuf, String> {
    let c = l.cfg;
    let root = verif_root();
    let dir = root.join("build/native").join(c.name);
    let io = |e: std::io::Error| format!("{}: {e}", dir.display());
    std::fs::create_dir_all(dir.join("src")).map_err(io)?;
    let mut t = String::from("extern \"C\" {\n");
    for n in names {
        let _ = writeln!(t, "    fn {n}(p: *const u8, a: *const u8, b: *const u8, o1: u32, o2: u32, out: *mut u8) -> u32;");
    }
    let _ = writeln!(t, "}}\nstatic TABLE: [F; {}] = [", names.len());
    for n in names {
        let _ = writeln!(t, "    {n},");
    }
    t.push_str("];\n");
    std::fs::write(dir.join("src/table.rs"), t).map_err(io)?;
    std::fs::copy(root.join("native/driver.rs"), dir.join("src/main.rs")).map_err(io)?;
    let feats: Vec<String> = c.feats.split(',').map(json_str).collect();
    std::fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"pa_native\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\npa_harness = {{ path = {}, default-features = false, features = [{}] }}\n[profile.release]\nopt-level = 1\npanic = \"abort\"\ncodegen-units = 1\n[workspace]\n",
            json_str(&root.join("harness").display().to_string()),
            feats.join(", ")
        ),
    )
    .map_err(io)?;
    let tc = if c.nightly { "+nightly" } else { "+1.99.1" };
    let sys = Command::new("rustc").arg(tc).args(["--print", "sysroot"]).env_remove("RUSTUP_TOOLCHAIN").output().map_err(io)?;
    let lld = format!("{}/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld", String::from_utf8_lossy(&sys.stdout).trim());
    let flags = format!("{} -Clinker={lld} -Clinker-flavor=ld.lld -Crelocation-model=static -Clink-arg=-static {}{}", c.flags, if c.target.contains("musl") { "-Clink-self-contained=no " } else { "" }, if c.nightly { "--cfg nightly" } else { "" });
    let target = dir.join("target");
    let mut cmd = Command::new("cargo");
    cmd.arg(tc)
        .args(["--offline", "build", "--release", "--quiet", "--target", c.target])
        .current_dir(&dir)
        .env("RUSTFLAGS", flags)
        .env("RUSTC_WRAPPER", "")
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_INCREMENTAL", "0")
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .env_remove("CARGO_BUILD_TARGET");
    if c.nightly {
        cmd.args(["-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem"]);
    }
    let o = cmd.output().map_err(io)?;
    if !o.status.success() {
        return Err(format!("driver for {}: {}", c.name, String::from_utf8_lossy(&o.stderr).chars().take(3000).collect::<String>()));
    }
    Ok(target.join(c.target).join("release/pa_native"))
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Call {
    pub name: String,
    pub a: u128,
    pub b: u128,
    pub o1: u32,
    pub o2: u32,
}
#[derive(Clone)]
pub struct Case {
    pub e: Entry,
    pub init: u128,
    pub calls: Vec<Call>,
    pub from: String,
}
pub struct Answer {
    pub status: u8,
    pub flag: u32,
    pub out: [u8; 32],
    pub obj: [u8; 16],
}

/// Runs cases; the answers stop early if the program does.
pub fn run_cases(mc: &Machine, exe: &PathBuf, l: &Loaded, names: &[&String], cases: &[Case], secs: u64) -> Result<(Vec<Vec<Answer>>, String), String> {
    let ix: BTreeMap<&str, u16> = names.iter().enumerate().map(|(i, n)| (n.as_str(), i as u16)).collect();
    let mut inp = vec![];
    for c in cases {
        let n = c.e.bits / 8;
        inp.extend([c.calls.len() as u8, n as u8]);
        let mut v = l.world.bytes(c.init, n);
        v.resize(16, 0);
        inp.extend(v);
        for k in &c.calls {
            inp.extend(ix[k.name.as_str()].to_le_bytes());
            inp.extend([k.o1 as u8, k.o2 as u8]);
            for x in [k.a, k.b] {
                let mut v = l.world.bytes(x, n);
                v.resize(16, 0);
                inp.extend(v);
            }
        }
    }
    let mut cmd = if mc.run.is_empty() {
        Command::new(exe)
    } else {
        let mut c = Command::new(mc.run[0]);
        c.args(&mc.run[1..]).arg(exe);
        c
    };
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {e}", mc.name))?;
    let mut si = ch.stdin.take().unwrap();
    let mut so = ch.stdout.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&inp);
    });
    let pid = ch.id();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let watch = std::thread::spawn(move || {
        if rx.recv_timeout(Duration::from_secs(secs)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
            let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
            return true;
        }
        false
    });
    let mut out = vec![];
    let _ = so.read_to_end(&mut out);
    let _ = tx.send(());
    let late = watch.join().unwrap_or(false);
    let st = ch.wait().map_err(|e| e.to_string())?;
    let _ = w.join();
    let mut v = vec![];
    let mut p = 0;
    'c: for c in cases {
        let mut a = vec![];
        for _ in &c.calls {
            if p + 53 > out.len() {
                v.push(a);
                break 'c;
            }
            let b = &out[p..p + 53];
            a.push(Answer { status: b[0], flag: u32::from_le_bytes(b[1..5].try_into().unwrap()), out: b[5..37].try_into().unwrap(), obj: b[37..53].try_into().unwrap() });
            p += 53;
        }
        v.push(a);
    }
    let how = if late { "does not finish".to_string() } else if st.success() { String::new() } else { format!("ends with {st}") };
    Ok((v, how))
}

/// Calls of all threads of a scenario one thread after the other, one case for each object.
fn serial(s: &Scen, unit: &str) -> Vec<Case> {
    let mut out = vec![];
    for (k, o) in s.objs.iter().enumerate() {
        let mut calls = vec![];
        for a in s.threads.iter().chain([&s.tail]).flatten() {
            if let Act::Op(x) = a {
                if x.obj == k && x.e.bits == o.e.bits {
                    calls.push(Call { name: x.e.name.clone(), a: x.a, b: x.b, o1: x.o1, o2: x.o2 });
                }
            }
        }
        if !calls.is_empty() && calls.len() < 200 {
            out.push(Case { e: o.e.clone(), init: o.init, calls, from: format!("{unit}: {}", s.name) });
        }
    }
    out
}

/// Runs the cases on the model and on the machine.
pub fn compare(mc: &Machine, l: &Loaded, exe: &PathBuf, names: &[&String], cases: &[Case], model: bool, tally: &Mutex<Tally>) {
    let g = crate::scen::G::new(l);
    let unit = format!("{} on {}", l.cfg.name, mc.name);
    let (mut ans, mut how) = match run_cases(mc, exe, l, names, cases, 120) {
        Ok(x) => x,
        Err(e) => {
            tally.lock().unwrap().notes.push(format!("no native run: {e}"));
            return;
        }
    };
    if !how.is_empty() {
        if let Ok(x) = run_cases(mc, exe, l, names, cases, 120) {
            (ans, how) = x;
        }
    }
    let mut n = 0;
    let mut calls = 0;
    let mut found: Vec<Found> = vec![];
    let mut differ: Option<String> = None;
    for (c, a) in cases.iter().zip(&ans) {
        if found.len() > 4 {
            break;
        }
        let bytes = (c.e.bits / 8) as usize;
        let mut objs = vec![g.obj(&c.e, g.addr(), c.init)];
        let mut x = c.init;
        let mut ok = true;
        for (i, k) in c.calls.iter().enumerate() {
            let Some(e) = l.any(&k.name) else { continue };
            let say = format!("{} on {x:#x} with {:#x}, {:#x} and {}/{} (call {i} of {})", k.name, k.a, k.b, ord_name(k.o1), ord_name(k.o2), c.from);
            let mut bad = |why: &str, msg: String| found.push(Found { unit: unit.clone(), scen: c.from.clone(), why: why.into(), msg, trace: vec![], describe: vec![] });
            let want = if orderings(&e.op).contains(&(k.o1, k.o2)) { spec(e, x, k.a, k.b).ok() } else { None };
            let Some(r) = a.get(i) else {
                if !how.is_empty() {
                    bad("crash", format!("the program {how} in {say}"));
                }
                ok = false;
                break;
            };
            let got = observed(e, r.flag, l.world.value(&r.out[..bytes]), l.world.value(&r.out[bytes..2 * bytes]));
            let left = l.world.value(&r.obj[..bytes]);
            if r.status & 6 != 0 {
                bad("guard", format!("{say} writes outside of its object"));
            }
            match &want {
                _ if r.status & 1 != 0 => {
                    if want.is_some() {
                        bad("panic", format!("{say} panics"));
                    } else if left != x {
                        bad("panic", format!("{say} panics and leaves {left:#x}"));
                    }
                }
                None => {
                    if kind(&e.op) != Kind::Query && matches!(kind(&e.op), Kind::Load | Kind::Store | Kind::Cas | Kind::Update | Kind::Fence) {
                        bad("panic", format!("{say} accepts its ordering"));
                    }
                }
                Some(w) => {
                    if !w.iter().any(|(nv, res)| same(e, *nv, left) && res.flag == got.flag && res.val == got.val && res.val2 == got.val2) {
                        bad("result", format!("{say} reports {got:x?} and leaves {left:#x}; documented: {}", w.iter().map(|(n, r)| format!("{r:x?} leaving {n:#x}")).collect::<Vec<_>>().join(" or ")));
                        ok = false;
                    }
                }
            }
            calls += 1;
            if model && ok {
                objs[0].init = x;
                let m = run_seq(&l.world, &objs, &[], &[g.op(e, 0, (k.a, k.b), (k.o1, k.o2))]);
                let d = match m {
                    Ok(m) => {
                        let (f, v, v2) = m.res.first().copied().unwrap_or((0, 0, 0));
                        let mo = observed(e, f, v, v2);
                        let b0 = l.world.bytes(x, bytes as u32);
                        let b: Vec<u8> = (0..bytes as u64).map(|i| m.mem.get(&(g.addr() + i)).copied().unwrap_or(b0[i as usize])).collect();
                        let ml = l.world.value(&b);
                        let query = matches!(kind(&e.op), Kind::Query);
                        if r.status & 1 != 0 || !query && mo != got && !(e.op == "casw") || !same(e, ml, left) && e.op != "casw" { Some(format!("{say}: model {mo:x?} {ml:#x}, machine {got:x?} {left:#x}, panicked {}", r.status & 1)) } else { None }
                    }
                    Err((Why::Panic, _)) if r.status & 1 != 0 => None,
                    Err((Why::Unsupported, _)) => None,
                    Err((w, m)) => Some(format!("{say}: model stops ({w:?} {m}), machine does not")),
                };
                if differ.is_none() {
                    differ = d;
                }
            }
            x = left;
            if !ok {
                break;
            }
        }
        if ok {
            n += 1;
        }
    }
    let mut t = tally.lock().unwrap();
    t.impl_traces += n;
    *t.extra.entry("calls_executed_on_machines".into()).or_default() += calls;
    *t.machines.entry(unit.clone()).or_default() += n;
    if let Some(d) = differ {
        t.inconclusive.entry("model and machine differ".into()).or_insert((0, d)).0 += 1;
    }
    t.found.extend(found);
}

/// All machines of the loaded builds: `cases(l)` says what to run on one.
pub fn on_machines(loaded: &[Loaded], pick: &dyn Fn(&Machine) -> bool, model: bool, cases: &(dyn Fn(&Loaded) -> Vec<Case> + Sync), tally: &Mutex<Tally>) {
    if std::env::var_os("PAMC_NONATIVE").is_some() {
        return;
    }
    let ms: Vec<&Machine> = MACHINES.iter().filter(|m| pick(m) && loaded.iter().any(|l| l.cfg.name == m.cfg)).collect();
    let cfgs: Vec<&str> = ms.iter().map(|m| m.cfg).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..4.min(cfgs.len()) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(c) = cfgs.get(k) else { break };
                let l = loaded.iter().find(|l| l.cfg.name == *c).unwrap();
                let names: Vec<&String> = l.entries.keys().chain(l.views.keys()).collect();
                let t0 = Instant::now();
                let exe = match build_driver(l, &names) {
                    Ok(e) => e,
                    Err(e) => {
                        eprintln!("{e}");
                        tally.lock().unwrap().notes.push(format!("no native run: {}", e.chars().take(300).collect::<String>()));
                        continue;
                    }
                };
                let tb = t0.elapsed();
                for m in ms.iter().filter(|m| m.cfg == *c) {
                    let mut cpu = (l.cfg.cpus)().into_iter().find(|x| x.name == m.cpu);
                    let w = l.fork(&cpu.take().unwrap_or_else(|| (l.cfg.cpus)()[0].clone()));
                    let mut cs = cases(&w);
                    // (LLVM's Armv5 code passes 8- and 16-bit values with garbage above them to __sync_val_compare_and_swap_*,
                    // which then overwrites the neighbouring bytes: a defect of that toolchain, below the level of this crate)
                    cs.retain(|c| m.cfg != "armv5linux" || c.e.bits >= 32);
                    compare(m, &w, &exe, &names, &cs, model, tally);
                    if std::env::var_os("PAMC_TIMES").is_some() {
                        eprintln!("native {} {}: {} cases, driver {:.1} s, all {:.1} s", m.cfg, m.name, cs.len(), tb.as_secs_f64(), t0.elapsed().as_secs_f64());
                    }
                }
            });
        }
    });
}
/// The scenarios of a check, their threads one after the other.
pub fn of_units(loaded: &[Loaded], units: &[Unit], thorough: bool, pick: &dyn Fn(&Machine) -> bool, tally: &Mutex<Tally>) {
    let cap = if thorough { 20_000 } else { 1500 };
    let cases = |l: &Loaded| {
        let mut seen = HashSet::new();
        let mut all: Vec<Case> = vec![];
        let of: Vec<(&Unit, &Scen)> = units.iter().filter(|u| u.cfg == l.cfg.name).flat_map(|u| u.scens.iter().map(move |s| (u, s))).collect();
        let step = of.len() / cap + 1;
        for (u, s) in of.into_iter().step_by(step) {
            for c in serial(s, &u.name) {
                if seen.insert((c.e.name.clone(), c.init, c.calls.clone())) {
                    all.push(c);
                }
            }
        }
        all
    };
    on_machines(loaded, pick, true, &cases, tally);
}
