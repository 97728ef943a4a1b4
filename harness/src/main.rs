//! Bounded checks of the listed properties against the real crate: they replay failures found by the verifier and stand
//! in, labelled bounded, where no contract is within reach.
mod gen;
mod hist;
mod num;
mod rk;
mod run;
mod util;
use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = get("--replay").and_then(|s| {
        let (a, b) = s.split_once(':')?;
        Some((a.to_string(), b.parse().ok()?))
    });
    let scratch = std::path::PathBuf::from(get("--scratch").unwrap_or_else(|| std::env::temp_dir().join(format!("corries-harness-{}", std::process::id())).to_str().unwrap().to_string()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { prop: prop.clone(), seed, scale, only, evals: 0, nontrivial: 0, viols: vec![], samples: vec![], per: Default::default(), scratch };
    let f: fn(&mut Ctx) = match prop.as_str() {
        "C01" => num::c01,
        "C02" => num::c02,
        "C03" => num::c03,
        "C04" => num::c04,
        "C05" => num::c05,
        "C06" => num::c06,
        "C07" => num::c07,
        "C08" => num::c08,
        "C09" => num::c09,
        "C10" => rk::c10,
        "C11" => rk::c11,
        "C12" => rk::c12,
        "C13" => rk::c13,
        "C14" => run::c14,
        "C15" => run::c15,
        "C16" => run::c16,
        "C17" => run::c17,
        "C18" => run::c18,
        "C19" => num::c19,
        "C20" => run::c20,
        "C21" => run::c21,
        "C22" => num::c22,
        "C23" => run::c23,
        "C24" => num::c24,
        "C25" => num::c25,
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        },
    };
    f(&mut c);
    hist::all(&mut c, match prop.as_str() {
        "C01" | "C02" | "C03" | "C19" => &["functions"],
        "C05" => &["boundaries"],
        "C06" => &["hll"],
        "C07" | "C08" => &["kt"],
        "C09" | "C25" => &["rhs"],
        "C11" | "C13" => &["steps"],
        "C24" => &["steps", "functions"],
        _ => &[],
    });
    let _ = std::fs::remove_dir_all(&c.scratch);
    let viols: Vec<String> = c
        .viols
        .iter()
        .map(|v| format!("{{\"oracle\":{},\"case\":{},\"detail\":{}}}", jstr(&v.oracle), v.case, jstr(&v.detail)))
        .collect();
    let samples: Vec<String> = c.samples.iter().map(|s| jstr(&s.chars().take(600).collect::<String>())).collect();
    let per: Vec<String> = c.per.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    println!(
        "RESULT {{\"property\":{},\"seed\":{},\"scale\":{},\"evaluations\":{},\"nontrivial\":{},\"per_oracle\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
        jstr(&c.prop), c.seed, c.scale, c.evals, c.nontrivial, per.join(","), samples.join(","), viols.join(",")
    );
    std::process::exit(if c.viols.is_empty() { 0 } else { 1 });
}
