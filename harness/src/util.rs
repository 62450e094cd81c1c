use std::fmt::Display;

pub fn list<T: Display>(v: impl IntoIterator<Item = T>) -> String {
    let parts: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", parts.join(","))
}

/// Nearest integer of x, saturated to the range of the specification's integers.
pub fn fixed(x: f64) -> i64 {
    if x.is_nan() {
        -2_000_000_000
    } else {
        x.round().clamp(-1_999_999_999.0, 1_999_999_999.0) as i64
    }
}
