//! Executes the cases of a case file (one JSON object per line) on the real code of /repo and
//! writes one trace line per case: {"in":<the case>,"outcome":"ok"|"panic","out":{...}}.
//! Values are projected to the abstract state of the specification (lattice integers, fixed
//! point); all judgement is left to TLC.
#[cfg(feature = "hooks")]
mod calls;
#[cfg(feature = "hooks")]
mod colors;
#[cfg(feature = "hooks")]
mod edges;
mod image;
mod json;
#[cfg(feature = "hooks")]
mod spaces;
mod util;

use json::Json;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn run(case: &Json) -> String {
    match case.get("op").str() {
        #[cfg(feature = "hooks")]
        "nn" | "dbscan" | "kmeans" | "core" | "points" => spaces::run(case),
        #[cfg(feature = "hooks")]
        "mst" | "hier" => spaces::run_graph(case),
        #[cfg(feature = "hooks")]
        "uf" => spaces::run_union_find(case),
        #[cfg(feature = "hooks")]
        "color" | "slab" | "lab" | "labslab" | "limits" => colors::run(case),
        #[cfg(feature = "hooks")]
        "edges" => edges::run(case),
        #[cfg(feature = "hooks")]
        "calls" => calls::run(case),
        "extract" | "swatches" | "session" => image::run(case),
        op => panic!("unknown op {op}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::File::open(&args[1]).expect("case file");
    let skip: usize = args.get(2).map_or(0, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|info| {
        let text: String = info
            .to_string()
            .chars()
            .map(|c| if c == '"' || c == '\\' || c < ' ' { ' ' } else { c })
            .take(300)
            .collect();
        // A panic of the case runner itself (not of /repo) is reported with its location as well.
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = text;
    }));
    let stdout = std::io::stdout();
    for line in std::io::BufReader::new(input).lines().skip(skip) {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let case = Json::parse(&line);
        let result = catch_unwind(AssertUnwindSafe(|| run(&case)));
        let mut out = stdout.lock();
        match result {
            Ok(text) => writeln!(out, "{{\"in\":{line},\"outcome\":\"ok\",\"out\":{text}}}"),
            Err(_) => {
                let msg = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if msg.contains("case: ") || msg.contains("panicked at src/") {
                    eprintln!("harness error: {msg}");
                    std::process::exit(3);
                }
                writeln!(out, "{{\"in\":{line},\"outcome\":\"panic\",\"msg\":\"{msg}\"}}")
            }
        }
        .expect("write");
        out.flush().expect("flush");
    }
}
