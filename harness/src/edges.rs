//! Cases about weighted edges: comparisons, and histories of a queue of edges.
use crate::json::Json;
use crate::spaces::f64_of;
use crate::util::list;
use auto_palette::verif::*;
use std::cmp::Ordering;
use std::collections::BinaryHeap;

/// Stands for an infinite weight.
const INF: i64 = 2_000_000_000;

pub fn run(case: &Json) -> String {
    match case.get("prec").str() {
        "f32" => run_in::<f32>(case),
        _ => run_in::<f64>(case),
    }
}

fn run_in<F: Float>(case: &Json) -> String {
    let scale = case.get("S").int() as f64 * 2.0f64.powi(-(case.get("exp").int() as i32));
    let base = match case.get("base").int() {
        0 => 0.0,
        e => 2.0f64.powi(e as i32),
    };
    let weight = |w: i64| -> F {
        F::from_f64(match w {
            INF => f64::INFINITY,
            w if w == -INF => f64::NEG_INFINITY,
            w => (w as f64 + base) / scale,
        })
    };
    let back = |f: F| -> i64 {
        let x = f64_of(f);
        if x.is_infinite() {
            return if x > 0.0 { INF } else { -INF };
        }
        let w = x * scale - base;
        if w == w.round() && w.abs() < 1.0e9 {
            w as i64
        } else {
            1_900_000_000
        }
    };
    let nz = case.get("nz").bool();
    let edges: Vec<WeightedEdge<F>> = case
        .get("edges")
        .points()
        .iter()
        .enumerate()
        .map(|(i, e)| {
            // every second zero is the negative zero if the case asks for it
            let w = weight(e[2]);
            let w = if nz && i % 2 == 1 && w == F::zero() { F::zero() * F::from_f64(-1.0) } else { w };
            WeightedEdge::new(e[0] as usize, e[1] as usize, w)
        })
        .collect();
    let text = |e: &WeightedEdge<F>| format!("[{},{},{}]", e.u(), e.v(), back(e.weight()));
    let code = |o: Ordering| match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    };
    let cmp = list(edges.iter().map(|a| list(edges.iter().map(|b| code(a.cmp(b))))));
    let partial = list(
        edges
            .iter()
            .map(|a| list(edges.iter().map(|b| a.partial_cmp(b).map_or(9, code)))),
    );
    let eq = list(edges.iter().map(|a| list(edges.iter().map(|b| (a == b) as i32))));
    let mut sorted = edges.clone();
    sorted.sort();
    let max = edges.iter().max().map_or("[]".to_string(), text);
    let mut heap = BinaryHeap::new();
    let hist: Vec<String> = case
        .get("ops")
        .ints()
        .iter()
        .map(|op| {
            if *op > 0 {
                heap.push(edges[*op as usize - 1].clone());
                "[]".to_string()
            } else {
                heap.pop().map_or("[]".to_string(), |e| text(&e))
            }
        })
        .collect();
    format!(
        "{{\"get\":{},\"cmp\":{cmp},\"partial\":{partial},\"eq\":{eq},\"sorted\":{},\"max\":{max},\"hist\":{}}}",
        list(edges.iter().map(text)),
        list(sorted.iter().map(text)),
        list(hist)
    )
}
