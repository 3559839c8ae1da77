use mc::util::*;
use mc::{mem, misc, par, tok::What, tokc};
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let id = a.first().map(|s| s.as_str()).unwrap_or("");
    match id {
        "emit" => {
            misc::emit(&a[1], a.get(2).map(|s| s == "thorough").unwrap_or(false));
            return;
        }
        "fresh" => {
            let i: usize = a[2].parse().expect("index");
            println!("{}", if a[1] == "C07" { tokc::fresh(i) } else { par::fresh(i) });
            return;
        }
        "macro-failure" => {
            // a crate of macro invocations does not compile although the macro crate does
            init(&a[1], &a[2]);
            let mut run = Run::new(&a[1], &a[2]);
            let log = std::fs::read_to_string(&a[3]).unwrap_or_default();
            let msg: Vec<&str> = log.lines().skip_while(|l| !l.starts_with("error")).take(30).collect();
            run.violation = Some(Violation { order: 0, why: format!("valid macro invocations do not compile: {}", msg.first().unwrap_or(&"?")), case: serde_json::json!({"compiler_output": msg}) });
            run.finish("model_checking");
        }
        "crash" => {
            init(&a[1], &a[2]);
            let mut run = Run::new(&a[1], &a[2]);
            let log = a.get(4).and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
            let msg: Vec<&str> = log.lines().skip_while(|l| !l.contains("ERROR: AddressSanitizer")).take(40).collect();
            let why = match msg.first() {
                Some(m) => format!("invalid memory access: {m}"),
                None => format!("the code under test brought the process down (exit status {})", a[3]),
            };
            run.violation = Some(Violation { order: 0, why, case: serde_json::json!({"report": msg}) });
            run.finish("model_checking");
        }
        "sanitized" => {
            let tier = a[2].clone();
            init(&a[1], &tier);
            let mut run = Run::new(&a[1], &tier);
            mem::c25(&mut run, true);
            if run.violation.is_some() {
                run.finish("model_checking");
            }
            let n: serde_json::Map<String, serde_json::Value> = run.stats.n.iter().map(|(k, v)| (k.to_string(), serde_json::json!(v))).collect();
            std::fs::write(format!("{}/target/asan.json", verif_dir()), serde_json::to_string(&n).unwrap()).expect("write");
            return;
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("read")).expect("json");
            let p = v["property"].as_str().unwrap_or("").to_string();
            init(&p, "replay");
            println!("{}: {}", p, v["why"].as_str().unwrap_or(""));
            let c = if v["case"]["group"].is_object() {
                let mut c = v["case"]["group"].clone();
                c["input"] = v["case"]["input"].clone();
                c
            } else {
                v["case"].clone()
            };
            if c["patterns"].is_array() {
                tokc::replay(&c)
            } else if c["grammar"].is_object() {
                par::replay(&c)
            } else {
                println!("case: {}", serde_json::to_string_pretty(&c).unwrap());
            }
            return;
        }
        _ => {}
    }
    let tier = a.get(1).cloned().unwrap_or_else(|| "quick".into());
    init(id, &tier);
    let mut run = Run::new(id, &tier);
    // the reference regular-expression model is checked against denotational semantics first
    if let Err(e) = mc::rx::self_test() {
        eprintln!("reference model self-test failed: {e}");
        std::process::exit(3);
    }
    let r = &mut run;
    match id {
        "C01" => tokc::streams(r, What::Tokens),
        "C02" => tokc::c02(r),
        "C03" => tokc::streams(r, What::Conserve),
        "C04" => tokc::streams(r, What::Lookahead),
        "C05" => tokc::c05(r),
        "C06" => tokc::c06(r),
        "C07" => tokc::c07(r),
        "C09" => par::c09(r),
        "C10" => par::c10(r),
        "C11" => par::c11(r),
        "C12" => par::c12(r),
        "C13" => par::c13(r),
        "C14" => par::c14(r),
        "C15" => par::c15(r),
        "C16" => par::c16(r),
        "C17" => par::c17(r),
        "C18" => par::c18(r),
        "C20" => par::c20(r),
        "C21" => misc::c21(r, a.get(2).expect("path of the example binary")),
        "C22" => par::c22(r),
        "C23" => misc::c23(r),
        "C24" => misc::c24(r),
        "C25" => mem::c25(r, false),
        "C26" => mem::c26(r),
        "C27" => mc::gen::c27(r, &a[2..]),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    run.finish("model_checking");
}
