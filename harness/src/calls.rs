//! Histories of calls of the algorithms, possibly from several threads. Every call is logged
//! twice, before it is made and after it has returned, in one global order which is consistent
//! with real time. Results are logged as text and numbered by the caller.
use crate::json::Json;
use crate::util::list;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Barrier, Mutex};

/// The complete result of a request as text: floating point numbers are printed exactly.
fn answer(request: &Json) -> String {
    match request.get("op").str() {
        "mst" | "hier" => crate::spaces::exact_graph(request),
        "uf" => crate::spaces::run_union_find(request),
        "color" => crate::colors::exact(request),
        _ => crate::spaces::exact(request),
    }
}

/// A short name of a text (two independent hashes).
fn digest(text: &str) -> String {
    let (mut a, mut b) = (0xcbf2_9ce4_8422_2325u64, 0x9e37_79b9_7f4a_7c15u64);
    for c in text.bytes() {
        a = (a ^ c as u64).wrapping_mul(0x0100_0000_01b3);
        b = (b.rotate_left(7) ^ c as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
    }
    format!("{a:x}-{b:x}-{}", text.len())
}

pub fn run(case: &Json) -> String {
    let requests = case.get("requests").arr();
    let threads: Vec<Vec<usize>> = case
        .get("threads")
        .points()
        .iter()
        .map(|t| t.iter().map(|i| (*i - 1) as usize).collect())
        .collect();
    let log: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let barrier = Barrier::new(threads.len());
    std::thread::scope(|scope| {
        for (t, calls) in threads.iter().enumerate() {
            let (log, barrier) = (&log, &barrier);
            scope.spawn(move || {
                barrier.wait();
                for i in calls {
                    let write = |e: &str, r: &str| {
                        let line = format!("{{\"e\":\"{e}\",\"t\":{},\"i\":{},\"r\":\"{r}\"}}", t + 1, i + 1);
                        log.lock().unwrap_or_else(|e| e.into_inner()).push(line);
                    };
                    write("call", "");
                    let result = catch_unwind(AssertUnwindSafe(|| digest(&answer(&requests[*i]))));
                    write("return", &result.unwrap_or_else(|_| "panic".to_string()));
                }
            });
        }
    });
    let log = log.lock().unwrap_or_else(|e| e.into_inner());
    list(log.iter())
}
