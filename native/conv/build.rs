//! One function for every combination of formatting flags.
use std::fmt::Write;
fn main() {
    let mut o = String::from("use std::fmt::{Debug, Pointer, Result, Write};\n");
    let kinds: [(&str, &str, &[&str], &[&str], &[&str]); 2] =
        [("DEBUG", "Debug", &["?", "x?", "X?"], &["", "1", "45"], &["", ".0", ".3", ".20"]), ("POINTER", "Pointer", &["p"], &["", "1", "30"], &[""])];
    for (stat, tr, types, widths, precs) in kinds {
        let p = &stat.to_lowercase()[..1];
        let mut v = vec![];
        for align in ["", "<", "^", ">", "*<", "*^", "~>"] {
            for sign in ["", "+"] {
                for alt in ["", "#"] {
                    for zero in ["", "0"] {
                        for w in widths {
                            for c in precs {
                                for t in types {
                                    v.push(format!("{align}{sign}{alt}{zero}{w}{c}{t}"));
                                }
                            }
                        }
                    }
                }
            }
        }
        for (i, f) in v.iter().enumerate() {
            let arg = if tr == "Debug" { "x" } else { "P(x)" };
            let _ = writeln!(o, "fn {p}{i}(w: &mut dyn Write, x: &dyn {tr}) -> Result {{ write!(w, \"{{:{f}}}\", {arg}) }}");
        }
        let _ = writeln!(o, "pub static {stat}: &[(&str, fn(&mut dyn Write, &dyn {tr}) -> Result)] = &[");
        for (i, f) in v.iter().enumerate() {
            let _ = writeln!(o, "    (\"{{:{f}}}\", {p}{i}),");
        }
        o.push_str("];\n");
    }
    o.push_str("struct P<'a>(&'a dyn Pointer);\nimpl Pointer for P<'_> {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> Result {\n        self.0.fmt(f)\n    }\n}\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("formats.rs"), o).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo::rustc-check-cfg=cfg(portable_atomic_unstable_f16,portable_atomic_unstable_f128)");
}
