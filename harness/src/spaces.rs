//! Cases about points: neighbor searches, clusterings, arithmetic; graphs; union-find.
use crate::json::Json;
use crate::util::{fixed, list};
use auto_palette::verif::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::fmt::Display;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Fixed point scale of logged centroids (per lattice unit).
const FP: f64 = 1024.0;
const NOT_INT: i64 = -1_000_001;
/// Radii from here on are infinite.
const HUGE: i64 = 2_000_000_000;

/// Points that can be made of lattice coordinates.
pub trait Mk<F: Float>: Point<F> {
    fn mk(c: &[F]) -> Self;
}
impl<F: Float> Mk<F> for Point2<F> {
    fn mk(c: &[F]) -> Self {
        Point2::new(c[0], c[1])
    }
}
impl<F: Float> Mk<F> for Point3<F> {
    fn mk(c: &[F]) -> Self {
        Point3::new(c[0], c[1], c[2])
    }
}
impl<F: Float> Mk<F> for Point5<F> {
    fn mk(c: &[F]) -> Self {
        Point5::new(c[0], c[1], c[2], c[3], c[4])
    }
}

pub fn f64_of<F: Float>(x: F) -> f64 {
    x.to_f64().unwrap_or(f64::NAN)
}

/// Nearest integer of x if x is within tol of it and of moderate size.
fn int_of(x: f64, tol: f64) -> i64 {
    let r = x.round();
    if x.is_finite() && r.abs() < 1.0e9 && (x - r).abs() <= tol {
        r as i64
    } else {
        NOT_INT
    }
}

struct Ctx {
    scale: f64,
    single: bool,
    metric: DistanceMetric,
    /// A translation by lattice units, the same for all points of the case.
    off: Vec<i64>,
    /// Zero coordinates are negative zeros.
    neg: bool,
    /// Logged coordinates are in units of 1 / fp of the lattice.
    fp: f64,
}

/// Lattice units per unit of the coordinates (or weights): S / 2^exp.
fn scale_of(case: &Json) -> f64 {
    case.get("S").int() as f64 * 2.0f64.powi(-(case.int_or("exp", 0) as i32))
}

impl Ctx {
    fn of(case: &Json) -> Ctx {
        Ctx {
            scale: scale_of(case),
            off: match case.get("off") {
                Json::Arr(_) => case.get("off").ints(),
                _ => Vec::new(),
            },
            single: case.get("prec").str() == "f32",
            neg: matches!(case.get("neg"), Json::Bool(true)),
            fp: case.int_or("fp", FP as i64) as f64,
            metric: match case.get("metric") {
                Json::Str(s) if s == "E" => DistanceMetric::Euclidean,
                _ => DistanceMetric::SquaredEuclidean,
            },
        }
    }
    fn shift(&self, axis: usize) -> i64 {
        self.off.get(axis).copied().unwrap_or(0)
    }
    fn with(&self, metric: DistanceMetric, scale: f64, off: &[i64]) -> Ctx {
        Ctx {
            scale,
            single: self.single,
            metric,
            off: off.to_vec(),
            neg: self.neg,
            fp: self.fp,
        }
    }
    fn real(&self, x: i64) -> f64 {
        if x == 0 && self.neg {
            -0.0
        } else {
            x as f64
        }
    }
    fn point<F: Float, P: Mk<F>>(&self, c: &[i64]) -> P {
        let c: Vec<F> = c
            .iter()
            .enumerate()
            .map(|(i, x)| F::from_f64(self.real(*x + self.shift(i)) / self.scale))
            .collect();
        P::mk(&c)
    }
    fn dataset<F: Float, P: Mk<F>>(&self, case: &Json) -> Vec<P> {
        case.get("pts").points().iter().map(|c| self.point(c)).collect()
    }
    /// A radius which separates the squared lattice distances up to r2 from those above. It is
    /// a distance between lattice points only where that distance is exact (no rounding).
    fn radius<F: Float>(&self, r2: i64) -> F {
        if r2 >= HUGE {
            return F::from_f64(f64::INFINITY);
        }
        let root = (r2.max(0) as f64).sqrt().round() as i64;
        let exact = matches!(self.metric, DistanceMetric::SquaredEuclidean) || root * root == r2;
        let r2 = r2 as f64 + if exact { 0.0 } else { 0.5 };
        let real = match self.metric {
            DistanceMetric::Euclidean => r2.abs().sqrt() * r2.signum() / self.scale,
            DistanceMetric::SquaredEuclidean => r2 / (self.scale * self.scale),
        };
        F::from_f64(real)
    }
    /// The squared lattice distance of a distance.
    fn d2<F: Float>(&self, d: F) -> i64 {
        let d = f64_of(d);
        if !(d >= 0.0) {
            return NOT_INT;
        }
        let v = match self.metric {
            DistanceMetric::Euclidean => (d * self.scale).powi(2),
            DistanceMetric::SquaredEuclidean => d * self.scale * self.scale,
        };
        let rel = if self.single { 1.0e-6 } else { 1.0e-12 };
        int_of(v, (v * rel).max(1.0e-6).min(0.4))
    }
    fn coords<F: Float, P: Mk<F>>(&self, p: &P) -> String {
        let lattice = |(i, c): (usize, &F)| fixed((f64_of(*c) * self.scale - self.shift(i) as f64) * self.fp);
        list(p.to_vec().iter().enumerate().map(lattice))
    }
}

fn neighbors<F: Float>(ctx: &Ctx, found: &[(usize, F)]) -> String {
    list(found.iter().map(|(i, d)| format!("[{},{}]", i + 1, ctx.d2(*d))))
}

fn clusters<F: Float, P: Mk<F>>(ctx: &Ctx, c: &Clusters<P>) -> String {
    format!(
        "{{\"cents\":{},\"counts\":{},\"members\":{},\"outliers\":{}}}",
        list(c.centroids.iter().map(|p| ctx.coords(p))),
        list(c.counts.iter()),
        list(c.members.iter().map(|m| list(m.iter().map(|i| i + 1)))),
        list(c.outliers.iter().map(|i| i + 1)),
    )
}

macro_rules! in_space {
    ($go:ident, $case:expr) => {
        match ($case.get("prec").str(), $case.get("dim").int()) {
            ("f32", 2) => $go::<f32, Point2<f32>>($case),
            ("f32", 3) => $go::<f32, Point3<f32>>($case),
            ("f32", 5) => $go::<f32, Point5<f32>>($case),
            ("f64", 2) => $go::<f64, Point2<f64>>($case),
            ("f64", 3) => $go::<f64, Point3<f64>>($case),
            ("f64", 5) => $go::<f64, Point5<f64>>($case),
            other => panic!("case: {other:?}"),
        }
    };
}

pub fn run(case: &Json) -> String {
    in_space!(run_in, case)
}

/// The complete result as text: floating point numbers are printed exactly.
pub fn exact(case: &Json) -> String {
    in_space!(exact_in, case)
}

fn run_in<F: Float + Display, P: Mk<F>>(case: &Json) -> String {
    let ctx = Ctx::of(case);
    match case.get("op").str() {
        "nn" => {
            let data: Vec<P> = ctx.dataset(case);
            let queries: Vec<Query<F, P>> = queries(&ctx, case);
            let linear = case.get("backend").str() == "linear";
            let found = neighbor_queries(linear, &data, ctx.metric, &queries);
            list(found.iter().map(|f| neighbors(&ctx, f)))
        }
        "dbscan" => {
            let data: Vec<P> = ctx.dataset(case);
            let eps: F = ctx.radius(case.get("r2").int());
            let result = dbscan(&data, case.get("minpts").usize(), eps, ctx.metric);
            clusters(&ctx, &result)
        }
        "core" => {
            let data: Vec<P> = ctx.dataset(case);
            let d = core_distances(&data, case.get("m").usize(), ctx.metric);
            list(d.iter().map(|x| ctx.d2(*x)))
        }
        "kmeans" => kmeans_case::<F, P>(&ctx, case),
        "points" => points_case::<F, P>(&ctx, case),
        op => panic!("case: {op}"),
    }
}

fn queries<F: Float, P: Mk<F>>(ctx: &Ctx, case: &Json) -> Vec<Query<F, P>> {
    let query = |q: &Json| {
        let point: P = ctx.point(&q.get("q").ints());
        match q.get("t").str() {
            "knn" => Query::Knn(point, q.get("k").usize()),
            "near" => Query::Nearest(point),
            "rad" => Query::Radius(point, ctx.radius(q.get("r2").int())),
            t => panic!("case: {t}"),
        }
    };
    case.get("qs").arr().iter().map(query).collect()
}

fn exact_in<F: Float + Display, P: Mk<F>>(case: &Json) -> String {
    let ctx = Ctx::of(case);
    let data: Vec<P> = ctx.dataset(case);
    let vectors = |points: &[P]| points.iter().map(|p| p.to_vec()).collect::<Vec<_>>();
    let text = |c: &Clusters<P>| format!("{:?}{:?}{:?}{:?}", vectors(&c.centroids), c.counts, c.members, c.outliers);
    match case.get("op").str() {
        "nn" => {
            let linear = case.get("backend").str() == "linear";
            format!("{:?}", neighbor_queries(linear, &data, ctx.metric, &queries(&ctx, case)))
        }
        "dbscan" => {
            let eps: F = ctx.radius(case.get("r2").int());
            text(&dbscan(&data, case.get("minpts").usize(), eps, ctx.metric))
        }
        "core" => format!("{:?}", core_distances(&data, case.get("m").usize(), ctx.metric)),
        "kmeans" => {
            let (k, pp) = (case.get("k").usize(), case.get("pp").bool());
            let rng = StdRng::seed_from_u64(case.get("seed").int() as u64);
            let seeds = kmeans_initialize(&data, k, ctx.metric, pp, rng.clone());
            let tolerance: F = F::from_f64(case.get("t").int() as f64 / 1024.0 / ctx.scale);
            let result = kmeans(&data, k, ctx.metric, pp, rng, case.get("iters").usize(), tolerance);
            format!("{:?}{}", vectors(&seeds), text(&result))
        }
        op => panic!("case: {op}"),
    }
}

pub fn exact_graph(case: &Json) -> String {
    fn go<F: Float>(case: &Json) -> String {
        let w: Vec<Vec<i64>> = case.get("w").points();
        let scale = scale_of(case);
        let vertices: Vec<usize> = (0..w.len()).collect();
        let weight = |u: usize, v: usize| F::from_f64(w[u][v] as f64 / scale);
        if case.get("op").str() == "mst" {
            let tree = MinimumSpanningTree::build(&vertices, weight);
            return format!("{:?}{:?}", tree.edges(), tree.weight());
        }
        let fitted = HierarchicalClustering::fit(&vertices, weight);
        let parts: Vec<_> = (0..w.len() + 1).map(|k| fitted.partition(k)).collect();
        format!("{:?}{:?}", fitted.verif_hierarchy(), parts)
    }
    match case.get("prec").str() {
        "f32" => go::<f32>(case),
        _ => go::<f64>(case),
    }
}

fn kmeans_case<F: Float, P: Mk<F>>(ctx: &Ctx, case: &Json) -> String {
    let data: Vec<P> = ctx.dataset(case);
    let k = case.get("k").usize();
    let pp = case.get("pp").bool();
    let rng = StdRng::seed_from_u64(case.get("seed").int() as u64);
    let seeds: Vec<P> = kmeans_initialize(&data, k, ctx.metric, pp, rng.clone());
    // The states after 0, 1, 2, ... iterations: a tolerance of 0 never stops the loop.
    let states: Vec<String> = (0..=case.get("iters").usize())
        .map(|m| {
            let r = kmeans(&data, k, ctx.metric, pp, rng.clone(), m, F::zero());
            clusters(ctx, &r)
        })
        .collect();
    // Runs with a tolerance, as the square of a lattice distance num/den, and a limit.
    let runs: Vec<String> = case
        .get("runs")
        .arr()
        .iter()
        .map(|r| {
            let (num, den) = (r.get("num").int() as f64, r.get("den").int() as f64);
            let t2 = num / den / (ctx.scale * ctx.scale);
            let tolerance = F::from_f64(match ctx.metric {
                DistanceMetric::Euclidean => t2.sqrt(),
                DistanceMetric::SquaredEuclidean => t2,
            });
            let max = r.get("max").usize();
            let r = kmeans(&data, k, ctx.metric, pp, rng.clone(), max, tolerance);
            clusters(ctx, &r)
        })
        .collect();
    format!(
        "{{\"seeds\":{},\"states\":{},\"runs\":{}}}",
        list(seeds.iter().map(|p| ctx.coords(p))),
        list(states),
        list(runs)
    )
}

fn points_case<F: Float + Display, P: Mk<F>>(whole: &Ctx, case: &Json) -> String {
    // The translation is applied to the distances only.
    let ctx = &whole.with(whole.metric, whole.scale, &[]);
    let a: P = ctx.point(&case.get("a").ints());
    let b: P = ctx.point(&case.get("b").ints());
    let unit = 2.0f64.powi(case.int_or("sexp", 0) as i32);
    let s = F::from_f64(ctx.real(case.get("num").int()) / case.get("den").int() as f64 * unit);
    let product = ctx.with(ctx.metric, ctx.scale / unit, &[]);
    let quotient = ctx.with(ctx.metric, ctx.scale * unit, &[]);
    let mul: P = {
        let mut x = a;
        x.mul_assign(s);
        x
    };
    let div = catch_unwind(AssertUnwindSafe(|| {
        let mut x = a;
        x.div_assign(s);
        quotient.coords(&x)
    }));
    let mut add = a;
    add.add_assign(b);
    let mut sub = a;
    sub.sub_assign(b);
    let mut zeroed = a;
    zeroed.set_zero();
    let euclid = DistanceMetric::Euclidean;
    let squared = DistanceMetric::SquaredEuclidean;
    let e = whole.with(euclid, whole.scale, &whole.off);
    let q = whole.with(squared, whole.scale, &whole.off);
    let ao: P = whole.point(&case.get("a").ints());
    let bo: P = whole.point(&case.get("b").ints());
    format!(
        concat!(
            "{{\"vec\":{},\"idx\":{},\"dim\":{},\"add\":{},\"adda\":{},\"sub\":{},\"suba\":{},\"mula\":{},",
            "\"muldiv\":{},\"diva\":{},\"isz\":{},\"zero\":{},\"setz\":{},\"e\":{},\"er\":{},\"s\":{},\"sr\":{}}}"
        ),
        ctx.coords(&a),
        list((0..a.dim()).map(|i| fixed(f64_of(a[i]) * ctx.scale * FP))),
        a.dim(),
        ctx.coords(&(a + b)),
        ctx.coords(&add),
        ctx.coords(&(a - b)),
        ctx.coords(&sub),
        product.coords(&mul),
        plain_mul_div(ctx, &product, &quotient, case),
        div.unwrap_or_else(|_| "[]".to_string()),
        a.is_zero(),
        ctx.coords(&P::zero()),
        ctx.coords(&zeroed),
        e.d2(euclid.measure(&ao, &bo)),
        e.d2(euclid.measure(&bo, &ao)),
        q.d2(squared.measure(&ao, &bo)),
        q.d2(squared.measure(&bo, &ao)),
    )
}

/// The by-value operators `point * scalar` and `point / scalar` of the concrete types.
fn plain_mul_div(ctx: &Ctx, product: &Ctx, quotient: &Ctx, case: &Json) -> String {
    let unit = 2.0f64.powi(case.int_or("sexp", 0) as i32);
    macro_rules! go {
        ($P:ident, $f:ty) => {{
            let a: $P<$f> = ctx.point(&case.get("a").ints());
            let s = (ctx.real(case.get("num").int()) / case.get("den").int() as f64 * unit) as $f;
            let m = product.coords(&(a * s));
            let d = catch_unwind(AssertUnwindSafe(|| quotient.coords(&(a / s))));
            format!("[{},{}]", m, d.unwrap_or_else(|_| "[]".to_string()))
        }};
    }
    match (ctx.single, case.get("dim").int()) {
        (true, 2) => go!(Point2, f32),
        (true, 3) => go!(Point3, f32),
        (true, _) => go!(Point5, f32),
        (false, 2) => go!(Point2, f64),
        (false, 3) => go!(Point3, f64),
        (false, _) => go!(Point5, f64),
    }
}

pub fn run_graph(case: &Json) -> String {
    match case.get("prec").str() {
        "f32" => graph::<f32>(case),
        _ => graph::<f64>(case),
    }
}

fn graph<F: Float>(case: &Json) -> String {
    let w: Vec<Vec<i64>> = case.get("w").points();
    let scale = scale_of(case);
    let vertices: Vec<usize> = (0..w.len()).collect();
    let weight = |u: usize, v: usize| F::from_f64(w[u][v] as f64 / scale);
    let back = |x: F| int_of(f64_of(x) * scale, 1.0e-3);
    if case.get("op").str() == "mst" {
        let tree = MinimumSpanningTree::build(&vertices, weight);
        let edges = tree
            .edges()
            .iter()
            .map(|e| format!("[{},{},{}]", e.u() + 1, e.v() + 1, back(e.weight())));
        return format!("{{\"edges\":{},\"total\":{}}}", list(edges), back(tree.weight()));
    }
    let fitted = HierarchicalClustering::fit(&vertices, weight);
    let merges: Vec<String> = fitted
        .verif_hierarchy()
        .iter()
        .map(|(l, r, w, s)| format!("[{},{},{},{}]", l + 1, r + 1, back(*w), s))
        .collect();
    // Only the property that is about partitions takes any.
    let ks = if case.get("judge").str() == "P18" { 0..w.len() + 1 } else { 0..0 };
    let parts = ks.map(|k| list(fitted.partition(k).iter()));
    format!("{{\"merges\":{},\"parts\":{}}}", list(merges), list(parts))
}

pub fn run_union_find(case: &Json) -> String {
    let mut uf = UnionFind::new(case.get("n").usize());
    let mut next = case.get("n").usize();
    let results = case.get("ops").arr().iter().map(|op| {
        let a = op.ints();
        match a.len() {
            1 => (uf.find((a[0] - 1) as usize) as i64 + 1).to_string(),
            2 => {
                next += 1;
                uf.union((a[0] - 1) as usize, (a[1] - 1) as usize).to_string()
            }
            _ => {
                // a block: every element is joined with the result so far, alternately on either side
                let mut top = (a[1] - 1) as usize;
                list(a[2..].iter().map(|x| {
                    let x = (*x - 1) as usize;
                    let size = if x % 2 == 0 { uf.union(top, x) } else { uf.union(x, top) };
                    top = next;
                    next += 1;
                    size
                }))
            }
        }
    });
    list(results.collect::<Vec<String>>())
}
