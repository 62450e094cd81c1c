//! Cases about the public API: extraction of palettes, swatches, histories of calls.
use crate::json::Json;
use crate::util::{fixed, list};
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
use std::cmp::Ordering;
use std::sync::{Arc, Barrier, Mutex};

/// Build the RGBA buffer of an image: colours, and the colour number of every pixel.
pub fn buffer(image: &Json) -> Vec<u8> {
    let colors = image.get("colors").points();
    let alpha = image.get("alpha").int();
    let pixels = match image.get("blocks") {
        Json::Arr(_) => blocks(image),
        _ => image.get("px").ints(),
    };
    let mut data = Vec::with_capacity(4 * pixels.len());
    for (i, k) in pixels.into_iter().enumerate() {
        let c = &colors[(k - 1) as usize];
        let i = i as i64;
        // alpha: 0..255 is constant, 256 and above is a pattern
        let a = if alpha < 256 {
            alpha
        } else {
            (i * alpha + i / 7) % 256
        };
        data.extend([c[0] as u8, c[1] as u8, c[2] as u8, a as u8]);
    }
    data
}

/// The colour numbers of an image of blocks and noise (see Blocks.tla).
fn blocks(image: &Json) -> Vec<i64> {
    let (w, h) = (image.get("w").int(), image.get("h").int());
    let (noise, slope) = (image.get("noise").ints(), image.get("slope").int());
    let mut pixels = Vec::with_capacity((w * h) as usize);
    for y in 0..h {
        for x in 0..w {
            pixels.push(match noise.len() {
                0 => 0,
                k => noise[((x + slope * y) % k as i64) as usize],
            });
        }
    }
    for b in image.get("blocks").points() {
        for y in b[1]..b[1] + b[3] {
            for x in b[0]..b[0] + b[2] {
                pixels[(y * w + x) as usize] = b[4];
            }
        }
    }
    pixels
}

fn swatch(color: (u8, u8, u8), position: (u32, u32), share: f64, n: usize, tol: f64) -> String {
    let count = share * n as f64;
    let count = if (count - count.round()).abs() <= tol {
        fixed(count)
    } else {
        -1
    };
    format!(
        "{{\"c\":[{},{},{}],\"p\":[{},{}],\"cnt\":{count},\"ppb\":{}}}",
        color.0,
        color.1,
        color.2,
        position.0.min(1_999_999_999),
        position.1.min(1_999_999_999),
        fixed(share * 1.0e9)
    )
}

fn extract(image: &Json, single: bool) -> String {
    let data = buffer(image);
    let (w, h) = (image.get("w").int() as u32, image.get("h").int() as u32);
    let n = data.len() / 4;
    let image = ImageData::new(&data, w, h);
    if single {
        list(
            image
                .extract::<f32>()
                .iter()
                .map(|s| swatch(s.color, s.position, s.percentage as f64, n, 0.02)),
        )
    } else {
        list(
            image
                .extract::<f64>()
                .iter()
                .map(|s| swatch(s.color, s.position, s.percentage, n, 1.0e-6)),
        )
    }
}

/// The complete value of a palette as text (bit patterns of the percentages).
fn fingerprint(image: &ImageData, single: bool) -> String {
    if single {
        let palette = image.extract::<f32>();
        list(
            palette
                .iter()
                .map(|s| format!("{:?}{:?}{:x}", s.color, s.position, s.percentage.to_bits())),
        )
    } else {
        let palette = image.extract::<f64>();
        list(
            palette
                .iter()
                .map(|s| format!("{:?}{:?}{:x}", s.color, s.position, s.percentage.to_bits())),
        )
    }
}

pub fn run(case: &Json) -> String {
    match case.get("op").str() {
        "extract" => extract(case, case.get("prec").str() == "f32"),
        "swatches" => match case.get("prec").str() {
            "f32" => order32(case),
            _ => order64(case),
        },
        "session" => session(case),
        op => panic!("case: {op}"),
    }
}

/// Comparisons and sorts of swatches; percentages are given as integers of a scale.
macro_rules! order {
($name:ident, $float:ty) => {
fn $name(case: &Json) -> String {
    // with a base, percentages are neighbouring numbers next to a half
    let (scale, base) = match case.get("base").int() {
        0 => (case.get("S").int() as f64, 0.0),
        e => (2.0f64.powi(e as i32 + 1), 2.0f64.powi(e as i32)),
    };
    let items: Vec<Swatch<$float>> = case
        .get("sw")
        .points()
        .iter()
        .map(|s| Swatch {
            percentage: ((s[0] as f64 + base) / scale) as $float,
            color: (s[1] as u8, s[2] as u8, s[3] as u8),
            position: (s[4] as u32, s[5] as u32),
        })
        .collect();
    let pct = |s: &Swatch<$float>| fixed(s.percentage as f64 * scale - base);
    let code = |o: Ordering| match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    };
    let cmp = list(items.iter().map(|a| list(items.iter().map(|b| code(a.cmp(b))))));
    let partial = list(items.iter().map(|a| list(items.iter().map(|b| a.partial_cmp(b).map_or(9, code)))));
    let less = list(items.iter().map(|a| list(items.iter().map(|b| (a < b) as i32 + 2 * (a <= b) as i32))));
    let mut sorted = items.clone();
    sorted.sort();
    let mut unstable = items.clone();
    unstable.sort_unstable();
    let mut heap: std::collections::BinaryHeap<Swatch<$float>> = items.iter().cloned().collect();
    let mut popped = Vec::new();
    while let Some(s) = heap.pop() {
        popped.push(s);
    }
    let max = items.iter().max().map_or(-1, pct);
    let min = items.iter().min().map_or(-1, pct);
    format!(
        "{{\"cmp\":{cmp},\"partial\":{partial},\"less\":{less},\"sorted\":{},\"unstable\":{},\"popped\":{},\"max\":{max},\"min\":{min}}}",
        list(sorted.iter().map(pct)),
        list(unstable.iter().map(pct)),
        list(popped.iter().map(pct))
    )
}
};
}
order!(order32, f32);
order!(order64, f64);

/// A history of calls, possibly from several threads. Every call is logged twice, before it is
/// made and after it has returned, in one global order which is consistent with real time.
/// Results are logged as text and numbered by the caller.
fn session(case: &Json) -> String {
    let images: Vec<(Vec<u8>, u32, u32)> = case
        .get("images")
        .arr()
        .iter()
        .map(|i| (buffer(i), i.get("w").int() as u32, i.get("h").int() as u32))
        .collect();
    let reuse = case.get("reuse").bool();
    let images = Arc::new(images);
    let log: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let threads: Vec<Vec<(usize, bool)>> = case
        .get("threads")
        .arr()
        .iter()
        .map(|t| {
            t.arr()
                .iter()
                .map(|c| {
                    let c = c.ints();
                    ((c[0] - 1) as usize, c[1] == 32)
                })
                .collect()
        })
        .collect();
    let barrier = Arc::new(Barrier::new(threads.len()));
    let handles: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(t, calls)| {
            let (images, log, barrier) = (images.clone(), log.clone(), barrier.clone());
            std::thread::spawn(move || {
                // Every thread keeps one object per image for all of its calls.
                let objects: Vec<ImageData> = images
                    .iter()
                    .map(|(data, w, h)| ImageData::new(data, *w, *h))
                    .collect();
                // Or one buffer, which is filled again for every call.
                let most = images.iter().map(|(data, _, _)| data.len()).max().unwrap_or(0);
                let mut shared: Vec<u8> = vec![0; if reuse { most } else { 0 }];
                barrier.wait();
                for (i, single) in calls {
                    let prec = if single { 32 } else { 64 };
                    let write = |e: &str, r: &str| {
                        let line = format!(
                            "{{\"e\":\"{e}\",\"t\":{},\"i\":{},\"p\":{prec},\"r\":\"{r}\"}}",
                            t + 1,
                            i + 1
                        );
                        log.lock().unwrap_or_else(|e| e.into_inner()).push(line);
                    };
                    write("call", "");
                    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if reuse {
                            let (data, w, h) = &images[i];
                            shared[..data.len()].copy_from_slice(data);
                            fingerprint(&ImageData::new(&shared[..data.len()], *w, *h), single)
                        } else {
                            fingerprint(&objects[i], single)
                        }
                    }))
                    .unwrap_or_else(|_| "panic".to_string());
                    write("return", &result);
                }
            })
        })
        .collect();
    for handle in handles {
        handle.join().expect("case: thread");
    }
    let log = log.lock().unwrap_or_else(|e| e.into_inner());
    list(log.iter())
}
