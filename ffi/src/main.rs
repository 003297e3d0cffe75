#[path = "../../harness/src/core.rs"]
mod core;
#[allow(dead_code)]
#[path = "../../harness/src/foreign.rs"]
mod foreign;
#[allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../harness/src/refm.rs"]
mod refm;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[allow(dead_code)]
#[path = "../../harness/src/special.rs"]
mod special;

mod api;
mod c13;
mod c14;
mod model;

#[global_allocator]
static A: crate::core::Mon = crate::core::Mon;

fn usage() -> ! {
    eprintln!("usage: vf check <ID> | vf worker ... | vf replay <file.json> | vf case <ID> <seed> <quick|thorough> <idx>");
    std::process::exit(64)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        usage();
    }
    let find = |id: &str| [c13::prop(), c14::prop()].into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    match a[1].as_str() {
        "check" => {
            let p = find(&a[2]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            std::process::exit(crate::core::drive(&p, seed, thorough));
        }
        "worker" => {
            let p = find(&a[2]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            crate::core::worker(&p, n(3), a[4] == "thorough", n(5), n(6), n(7), a[8].as_ref(), a[9].as_ref());
        }
        "tsan" => c14::tsan_child(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].as_ref()),
        "case" | "replay" => {
            let (id, seed, thorough, idx) = if a[1] == "case" {
                (a[2].clone(), a[3].parse().unwrap(), a[4] == "thorough", a[5].parse().unwrap())
            } else {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
                (v["property"].as_str().unwrap().to_string(), v["seed"].as_u64().unwrap(), v["tier"] == "thorough", v["idx"].as_u64().unwrap())
            };
            crate::core::install_panic_hook();
            let p = find(&id);
            let scratch = std::path::PathBuf::from(format!("/tmp/vh-case-{}", std::process::id()));
            std::fs::create_dir_all(&scratch).unwrap();
            std::env::set_current_dir(&scratch).unwrap();
            let (ctx, ok) = crate::core::run_case(&p, seed, thorough, idx, &scratch, true);
            let _ = std::fs::remove_dir_all(&scratch);
            println!("counters: {:?}", ctx.counters);
            if let Some(s) = &ctx.sample {
                println!("sample: {s}");
            }
            for v in &ctx.viols {
                println!("VIOLATION property={id} {}: {}", v.key, v.detail);
            }
            if !ok {
                println!("HARNESS-ERROR {}", crate::core::last_panic());
                std::process::exit(2);
            }
            std::process::exit(if ctx.viols.is_empty() { 0 } else { 1 });
        }
        _ => usage(),
    }
}
