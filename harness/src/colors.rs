//! Cases about colour conversions.
use crate::json::Json;
use crate::spaces::f64_of;
use crate::util::{fixed, list};
use auto_palette::verif::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

/// Fixed point scales of the logged values.
const XYZ_FP: f64 = 1.0e7;
const LAB_FP: f64 = 1.0e5;

fn forward<F: Float>(c: &Rgba) -> (XYZ<F, D65>, Lab<F, D65>) {
    let xyz: XYZ<F, D65> = XYZ::from(c);
    let lab = Lab::from(&xyz);
    (xyz, lab)
}

fn backward<F: Float>(lab: &Lab<F, D65>) -> Rgba {
    let xyz: XYZ<F, D65> = XYZ::from(lab);
    Rgba::from(&xyz)
}

fn lab_ints<F: Float>(lab: &Lab<F, D65>) -> [i64; 3] {
    [lab.l, lab.a, lab.b].map(|v| fixed(f64_of(v) * LAB_FP))
}

/// The functions of the specification (written by GenColor.tla), as numbers. They only guide the
/// search for the largest deviation; what is found is judged by the specification itself.
struct Tables {
    half: Vec<f64>,
    forward: Vec<f64>,
    inverse: Vec<f64>,
    steps: f64,
    to: [[f64; 3]; 3],
    from: [[f64; 3]; 3],
    max: [f64; 3],
    white: [f64; 3],
    back: [f64; 3],
}

impl Tables {
    fn of(case: &Json) -> &'static Tables {
        static TABLES: OnceLock<Tables> = OnceLock::new();
        TABLES.get_or_init(|| {
            let text = std::fs::read_to_string(case.get("tables").str()).expect("tables");
            let t = Json::parse(text.trim());
            let row = |v: &Json, unit: f64| -> Vec<f64> { v.ints().iter().map(|x| *x as f64 / unit).collect() };
            let three = |v: &Json, unit: f64| -> [f64; 3] { row(v, unit).try_into().unwrap() };
            let matrix = |v: &Json| -> [[f64; 3]; 3] {
                let rows = v.arr();
                [three(&rows[0], 1.0e6), three(&rows[1], 1.0e6), three(&rows[2], 1.0e6)]
            };
            Tables {
                half: row(t.get("half"), XYZ_FP),
                forward: row(t.get("forward"), XYZ_FP),
                inverse: row(t.get("inverse"), XYZ_FP),
                steps: t.get("steps").int() as f64,
                to: matrix(t.get("to")),
                from: matrix(t.get("from")),
                max: three(t.get("max"), XYZ_FP),
                white: three(t.get("white"), 1.0e6),
                back: three(t.get("back"), 1.0e6),
            }
        })
    }
    fn at(&self, table: &[f64], x: f64) -> f64 {
        let p = (x * self.steps).clamp(0.0, (table.len() - 2) as f64);
        let j = p as usize;
        table[j] + (table[j + 1] - table[j]) * (p - j as f64)
    }
    fn xyz(&self, c: &Rgba) -> [f64; 3] {
        let light = [c.r, c.g, c.b].map(|v| self.half[2 * v as usize]);
        let m = product(&self.to, light);
        [0, 1, 2].map(|i| m[i].clamp(0.0, self.max[i]))
    }
    fn lab(&self, xyz: [f64; 3]) -> [f64; 3] {
        let f = [0, 1, 2].map(|i| self.at(&self.forward, xyz[i] * self.back[i]));
        [
            (116.0 * f[1] - 16.0).clamp(0.0, 100.0),
            (500.0 * (f[0] - f[1])).clamp(-128.0, 127.0),
            (200.0 * (f[1] - f[2])).clamp(-128.0, 127.0),
        ]
    }
    /// How far the light of a L*a*b* value is outside of what the colour stands for.
    fn outside(&self, lab: [f64; 3], c: &Rgba) -> f64 {
        let y = (lab[0] + 16.0) / 116.0;
        let f = [y + lab[1] / 500.0, y, y - lab[2] / 200.0];
        let xyz = [0, 1, 2].map(|i| {
            (self.white[i] * self.at(&self.inverse, f[i].max(0.0))).clamp(0.0, self.max[i])
        });
        let light = product(&self.from, xyz);
        let mut worst = 0.0f64;
        for (i, k) in [c.r, c.g, c.b].into_iter().enumerate() {
            if k > 0 {
                worst = worst.max(self.half[2 * k as usize - 1] - light[i]);
            }
            if k < 255 {
                worst = worst.max(light[i] - self.half[2 * k as usize + 1]);
            }
        }
        worst
    }
}

fn product(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2])
}

/// The largest difference; what is not a number differs most.
fn apart(v: [f64; 3], w: [f64; 3]) -> f64 {
    (0..3).fold(0.0, |most: f64, i| {
        let d = (v[i] - w[i]).abs();
        if d.is_nan() { f64::INFINITY } else { most.max(d) }
    })
}

/// One judged colour, as in the case "color".
fn colour_json<F: Float>(c: &Rgba, xyz: &XYZ<F, D65>, lab: &Lab<F, D65>) -> String {
    let x = [xyz.x, xyz.y, xyz.z].map(|v| fixed(f64_of(v) * XYZ_FP));
    format!("{{\"c\":{},\"xyz\":{},\"lab\":{}}}", list([c.r, c.g, c.b]), list(x), list(lab_ints(lab)))
}

pub fn run(case: &Json) -> String {
    match case.get("prec").str() {
        "f32" => run_in::<f32>(case),
        _ => run_in::<f64>(case),
    }
}

fn run_in<F: Float>(case: &Json) -> String {
    match case.get("op").str() {
        // One colour: XYZ, Lab and the colour after a round trip.
        "color" => {
            let c = case.get("c").ints();
            let rgba = Rgba::new(c[0] as u8, c[1] as u8, c[2] as u8, c[3] as u8);
            let (xyz, lab) = forward::<F>(&rgba);
            let back = backward(&lab);
            let x = [xyz.x, xyz.y, xyz.z].map(|v| fixed(f64_of(v) * XYZ_FP));
            format!(
                "{{\"xyz\":{},\"lab\":{},\"back\":{}}}",
                list(x),
                list(lab_ints(&lab)),
                list([back.r, back.g, back.b, back.a])
            )
        }
        // One L*a*b* value (given in units of 1/1000).
        "lab" => {
            let v: Vec<F> = case
                .get("v")
                .ints()
                .iter()
                .map(|x| F::from_f64(*x as f64 / 1000.0))
                .collect();
            let lab: Lab<F, D65> = Lab::new(v[0], v[1], v[2]);
            let c = backward(&lab);
            format!(
                "{{\"lab\":{},\"rgba\":{}}}",
                list(lab_ints(&lab)),
                list([c.r, c.g, c.b, c.a])
            )
        }
        "limits" => limits::<F>(case),
        "slab" => slab::<F>(case.get("r").int() as u8, Tables::of(case)),
        "labslab" => lab_slab::<F>(case.get("l").int(), case.get("step").int(), Tables::of(case)),
        op => panic!("case: {op}"),
    }
}

/// All 65536 colours with the given red: what the specification says about every one of them.
fn slab<F: Float>(r: u8, tables: &Tables) -> String {
    let mut n = 0u64;
    let mut worst = [-1.0f64; 2]; // the largest deviations of XYZ and L*a*b* from the specification
    let mut at = [String::new(), String::new()];
    let mut trip: Vec<String> = Vec::new(); // colours that do not survive the round trip
    let mut falls: Vec<String> = Vec::new(); // colours whose lightness falls with a channel
    let mut lo = [f64::MAX; 3];
    let mut hi = [f64::MIN; 3];
    let mut defect = 0.0f64; // worst deviation from additivity of XYZ in the channels
    let mut alpha = 0u64; // colours whose conversion depends on alpha
    let mut previous = vec![f64::MIN; 256];
    let parts = |c: Rgba| {
        let x: XYZ<F, D65> = XYZ::from(&c);
        [x.x, x.y, x.z].map(f64_of)
    };
    let red = parts(Rgba::new(r, 0, 0, 255));
    let greens: Vec<[f64; 3]> = (0..=255u8).map(|g| parts(Rgba::new(0, g, 0, 255))).collect();
    let blues: Vec<[f64; 3]> = (0..=255u8).map(|b| parts(Rgba::new(0, 0, b, 255))).collect();
    for g in 0..=255u8 {
        let mut before = f64::MIN;
        for b in 0..=255u8 {
            let c = Rgba::new(r, g, b, 255);
            let (xyz, lab) = forward::<F>(&c);
            n += 1;
            let x = [xyz.x, xyz.y, xyz.z].map(f64_of);
            for i in 0..3 {
                let sum = red[i] + greens[g as usize][i] + blues[b as usize][i];
                let max = [0.950456, 1.0, 1.088644][i]; // the documented limits of XYZ
                defect = defect.max((sum.min(max) - x[i]).abs());
            }
            let v = [lab.l, lab.a, lab.b].map(f64_of);
            let expected = tables.xyz(&c);
            for (k, far) in [apart(x, expected), apart(v, tables.lab(expected))].into_iter().enumerate() {
                if far > worst[k] {
                    worst[k] = far;
                    at[k] = colour_json(&c, &xyz, &lab);
                }
            }
            for i in 0..3 {
                lo[i] = if v[i] >= lo[i] { lo[i] } else { v[i] };
                hi[i] = if v[i] <= hi[i] { hi[i] } else { v[i] };
            }
            let slack = 1.0e-4;
            if !(v[0] >= before - slack && v[0] >= previous[b as usize] - slack) && falls.len() < 3 {
                falls.push(list([r, g, b]));
            }
            before = v[0];
            previous[b as usize] = v[0];
            let other = forward::<F>(&Rgba::new(r, g, b, b.wrapping_mul(37) ^ g)).1;
            if other != lab {
                alpha += 1;
            }
            let ok = catch_unwind(AssertUnwindSafe(|| backward(&lab) == c)).unwrap_or(false);
            if !ok && trip.len() < 3 {
                trip.push(list([r, g, b]));
            }
        }
    }
    // Lightness must not fall from the previous red either.
    if r > 0 {
        for g in 0..=255u8 {
            for b in 0..=255u8 {
                let now = f64_of(forward::<F>(&Rgba::new(r, g, b, 255)).1.l);
                let was = f64_of(forward::<F>(&Rgba::new(r - 1, g, b, 255)).1.l);
                if !(now >= was - 1.0e-4) && falls.len() < 3 {
                    falls.push(list([r, g, b]));
                }
            }
        }
    }
    format!(
        "{{\"n\":{n},\"trip\":{},\"falls\":{},\"lo\":{},\"hi\":{},\"defect\":{},\"alpha\":{alpha},\"worst\":[{},{}]}}",
        list(trip),
        list(falls),
        list(lo.map(|v| fixed(v * LAB_FP))),
        list(hi.map(|v| fixed(v * LAB_FP))),
        fixed(defect * XYZ_FP),
        at[0],
        at[1]
    )
}

/// All L*a*b* values of a lattice plane: conversion must be total and opaque; the number of
/// values, and the first failures.
fn lab_slab<F: Float>(l: i64, step: i64, tables: &Tables) -> String {
    let mut n = 0u64;
    let mut bad: Vec<String> = Vec::new();
    let mut worst = (-1.0f64, String::new()); // where the colour is furthest from the specification
    let f = |x: i64| F::from_f64(x as f64 / 1000.0);
    let mut a = -128_000i64;
    while a <= 127_000 {
        let mut b = -128_000i64;
        while b <= 127_000 {
            n += 1;
            let lab = Lab::<F, D65>::new(f(l), f(a), f(b));
            let c = catch_unwind(AssertUnwindSafe(|| backward(&lab))).ok();
            match c {
                Some(c) if c.a == 255 => {
                    let far = tables.outside([lab.l, lab.a, lab.b].map(f64_of), &c);
                    if far > worst.0 {
                        let rgba = list([c.r, c.g, c.b, c.a]);
                        worst = (far, format!("{{\"lab\":{},\"rgba\":{rgba}}}", list(lab_ints(&lab))));
                    }
                }
                _ if bad.len() < 3 => bad.push(list([l, a, b])),
                _ => {}
            }
            b += step;
        }
        a += step;
    }
    format!("{{\"n\":{n},\"bad\":{},\"worst\":[{}]}}", list(bad), worst.1)
}

/// Colours made of arbitrary numbers: is each component the given number, and is it a limit?
fn limits<F: Float>(case: &Json) -> String {
    let lab = case.get("space").str() == "lab";
    let ranges = if lab {
        [[0, 100_000_000], [-128_000_000, 127_000_000], [-128_000_000, 127_000_000]]
    } else {
        [[0, 950_456], [0, 1_000_000], [0, 1_088_644]]
    };
    list(case.get("vs").arr().iter().map(|v| {
        let given: Vec<F> = v.points().iter().map(|n| number(n[0], n[1])).collect();
        let made = if lab {
            let c: Lab<F, D65> = Lab::new(given[0], given[1], given[2]);
            [c.l, c.a, c.b]
        } else {
            let c: XYZ<F, D65> = XYZ::new(given[0], given[1], given[2]);
            [c.x, c.y, c.z]
        };
        list((0..3).map(|i| {
            let limit = |k: usize| number::<F>(ranges[i][k], 0);
            let at = (made[i] == limit(1)) as i32 - (made[i] == limit(0)) as i32;
            format!("[{},{}]", (made[i] == given[i]) as i32, at)
        }))
    }))
}

/// The number which is some representable numbers away from units / 10^6.
fn number<F: Float>(units: i64, steps: i64) -> F {
    if units.abs() == 2_000_000_000 {
        return F::from_f64(f64::INFINITY * units.signum() as f64);
    }
    let mut x = units as f64 / 1.0e6;
    if std::mem::size_of::<F>() == 4 {
        let mut y = x as f32;
        for _ in 0..steps.abs() {
            y = if steps > 0 { y.next_up() } else { y.next_down() };
        }
        return F::from_f32(y);
    }
    for _ in 0..steps.abs() {
        x = if steps > 0 { x.next_up() } else { x.next_down() };
    }
    F::from_f64(x)
}

/// All values of the conversions of a colour, as exact text.
pub fn exact(case: &Json) -> String {
    fn go<F: Float>(c: &Rgba) -> String {
        let (xyz, lab) = forward::<F>(c);
        format!("{:?}{:?}{:?}", (xyz.x, xyz.y, xyz.z), (lab.l, lab.a, lab.b), backward(&lab))
    }
    let c = case.get("c").ints();
    let c = Rgba::new(c[0] as u8, c[1] as u8, c[2] as u8, c[3] as u8);
    match case.get("prec").str() {
        "f32" => go::<f32>(&c),
        _ => go::<f64>(&c),
    }
}
