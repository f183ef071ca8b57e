//! schemac <list>: each line of <list> is "<schema dir>\t<output dir>\t<root>"; generates Rust code for every
//! schema, printing "OK <line number>" or "PANIC <line number> <message>".
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use zserio_rs_build::{generate_model, Model};

fn work(line: &str) -> Result<(), String> {
    let f: Vec<&str> = line.split('\t').collect();
    catch_unwind(AssertUnwindSafe(|| {
        let mut m = Model::from_filesystem(Path::new(f[0]));
        m.evaluate();
        generate_model(&mut m, Path::new(f[1]), f[2]);
    }))
    .map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }
    })
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("panic at {loc}");
    }));
    let list = std::env::args().nth(1).unwrap();
    let lines: Vec<String> = std::fs::read_to_string(list).unwrap().lines().map(|s| s.to_string()).collect();
    let n = std::env::args().nth(2).map(|s| s.parse().unwrap()).unwrap_or(8usize);
    let lines = Arc::new(lines);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::io::stdout()));
    let mut ts = vec![];
    for _ in 0..n {
        let (lines, next, out) = (lines.clone(), next.clone(), out.clone());
        // a small, fixed stack: run-away recursion in the generator ends the process, which the caller notices
        ts.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= lines.len() {
                break;
            }
            {
                let mut o = out.lock().unwrap();
                writeln!(o, "START {i}").unwrap();
                o.flush().unwrap();
            }
            let r = work(&lines[i]);
            let mut o = out.lock().unwrap();
            match r {
                Ok(()) => writeln!(o, "OK {i}").unwrap(),
                Err(m) => writeln!(o, "PANIC {i} {}", m.replace('\n', " | ")).unwrap(),
            }
            o.flush().unwrap();
        }).unwrap());
    }
    for t in ts {
        t.join().unwrap();
    }
}
