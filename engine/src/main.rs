#![allow(dead_code, unused_imports, unused_mut)]
mod overlap;
mod asm;
mod asm_a64;
mod asm_misc;
mod asm_rv;
mod asm_x86;
mod auto;
mod cfgs;
mod conv;
mod check;
mod fp;
mod interp;
mod ir;
mod lin;
mod litmus;
mod c11;
mod native;
mod plan;
mod sc;
mod scen;
mod seqc;
mod spec;
mod weak;

fn dev(a: &[String]) {
    if a[0] == "native" {
        let names: Vec<&str> = if a[1] == "all" { native::MACHINES.iter().map(|m| m.cfg).collect::<std::collections::BTreeSet<_>>().into_iter().collect() } else { vec![a[1].as_str()] };
        let (l, n) = cfgs::load_all(&names).unwrap_or_else(|e| panic!("{e}"));
        for n in n {
            println!("{n}");
        }
        let t: std::sync::Mutex<check::Tally> = Default::default();
        let cases = |l: &cfgs::Loaded| seqc::native_cases(l, true, &|_| true);
        native::on_machines(&l, &|_| true, a.iter().any(|x| x == "model"), &cases, &t);
        let t = t.into_inner().unwrap();
        println!("{:#?}\n{:#?}\n{:#?}", t.machines, t.notes, t.inconclusive);
        for f in t.found.iter().take(20) {
            println!("{} {} {}", f.unit, f.why, f.msg);
        }
        return;
    }
    let c = cfgs::cfg(&a[0]);
    let t = std::time::Instant::now();
    let texts = if a.iter().any(|x| x == "nobuild") {
        let mut v = vec![];
        for pre in ["pa_harness-", "portable_atomic-"] {
            let o = std::process::Command::new("sh").arg("-c").arg(format!("ls -t $(find /verif/build/ir/{}/{}/release -name '{pre}*.ll') | head -1", c.name, c.target)).output().unwrap();
            v.push(std::fs::read_to_string(String::from_utf8_lossy(&o.stdout).trim()).unwrap());
        }
        Ok(v)
    } else {
        cfgs::build(c)
    };
    let l = match texts.and_then(|x| cfgs::load(c, &x)) {
        Ok(l) => l,
        Err(e) => return println!("{e}"),
    };
    println!("{} entries, {:?}", l.entries.len(), t.elapsed());
    let ty = a[1].as_str();
    for cpu in (c.cpus)() {
        let l = l.fork(&cpu);
        let mut g = scen::G::new(&l);
        let ops: Vec<String> = l.ops(ty).iter().map(|e| e.op.clone()).collect();
        let ops: Vec<&str> = ops.iter().map(|s| s.as_str()).collect();
        match a[2].as_str() {
            "single" => g.singles(ty, &[0, 1], true),
            "pairs" => g.pairs(ty, &ops, &ops, &[0, 1], &[0, 2]),
            "triples" => g.triples(ty, scen::REP, &[0], &[2]),
            _ => {}
        }
        let mut l = l.fork(&cpu);
        let axi = a[2].starts_with("litmus");
        if axi {
            let other = l.types().into_iter().find(|x| x.1 == l.world.prog.layout.ptr_bits && x.0.starts_with('u')).unwrap().0;
            for sh in litmus::ALL {
                if a.get(3).map(|x| x == sh.name || x == "all").unwrap_or(false) {
                    litmus::family(&mut g, sh, ty, &other, &[0, 1, 2], false, &[0], false);
                    if sh.objs > 1 {
                        litmus::family(&mut g, sh, ty, &other, &[1], false, &[0], false);
                    }
                }
            }
            l.world.deps = a[2] == "litmus";
        }
        if std::env::var("PAMC_CPU").map(|x| x != l.world.cpu.name).unwrap_or(false) {
            continue;
        }
        let t = std::time::Instant::now();
        let (mut st, mut tr, mut v, mut inc, mut big) = (0, 0, 0, std::collections::BTreeMap::new(), (0, String::new()));
        for s in &g.out {
            let t1 = std::time::Instant::now();
            let o = match a[2].as_str() {
                "litmus" => weak::explore_axiomatic(&l.world, s),
                "litmusop" => c11::explore_c11(&l.world, s),
                _ => sc::explore(&l.world, s),
            };
            if t1.elapsed().as_secs_f64() > 1.0 {
                println!("slow {:?} {} {} {}", t1.elapsed(), s.name, o.states, o.transitions);
            }
            st += o.states;
            tr += o.transitions;
            if o.states > big.0 {
                big = (o.states, s.name.clone());
            }
            if let Some(x) = o.violation {
                v += 1;
                if v < 4 {
                    println!("VIOL {} {}: {} {}", l.world.name, s.name, x.why, x.msg);
                    for t in x.trace {
                        println!("     {t}");
                    }
                }
            }
            if let Some(x) = o.inconclusive {
                let e = inc.entry(x).or_insert((0, s.name.clone()));
                e.0 += 1;
            }
        }
        println!("{}: {} scenarios {st} states {tr} transitions {v} violations, biggest {big:?}, {:?}", l.world.name, g.out.len(), t.elapsed());
        for (k, (n, s)) in inc {
            println!("   INCONCLUSIVE {n}x {k} e.g. {s}");
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("dev") => dev(&a[1..]),
        Some("check") if a.len() >= 2 => {
            let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
            let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let c = check::run(&check::Args { prop: a[1].clone(), thorough: tier == "thorough", seed, only: None });
            std::process::exit(c);
        }
        Some("replay") if a.len() >= 2 => std::process::exit(check::replay(&a[1])),
        Some("build") => {}
        _ => eprintln!("usage"),
    }
}
