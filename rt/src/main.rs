//! rt run <property> <seed> <cases-per-weight> <out.json>   |   rt replay <file>
mod alloc;
mod arrays;
mod engine;
mod items;
mod model;
mod tests;

use engine::Stats;
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub fn scratch() -> std::path::PathBuf {
    let base = std::env::var("RT_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let d = std::path::PathBuf::from(base).join(format!("rt-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn main() {
    if std::env::var("RT_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => {
            let (prop, seed, cases) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u32>().unwrap());
            let mut stats = Stats::default();
            let mut failures = vec![];
            for t in tests::tests_of(prop) {
                let n = if t.weight() == 0 { 1 } else { cases * t.weight() };
                if let Err(f) = t.run(seed, n, &mut stats) {
                    failures.push(serde_json::json!({"test": f.test, "message": f.message, "value": f.value}));
                }
            }
            let out = serde_json::json!({
                "evaluations": stats.evaluations, "nontrivial": stats.nontrivial.len(),
                "labels": stats.labels, "samples": stats.samples, "failures": failures,
            });
            std::fs::write(&a[5], serde_json::to_string(&out).unwrap()).unwrap();
        }
        "replay" => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let (prop, test) = (v["property"].as_str().unwrap(), v["test"].as_str().unwrap());
            let t = tests::tests_of(prop).into_iter().find(|t| t.name() == test).expect("no such test");
            match t.replay(&v["value"]) {
                Ok(_) => println!("PASS"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => panic!("usage"),
    }
    let _ = std::fs::remove_dir_all(scratch());
}
