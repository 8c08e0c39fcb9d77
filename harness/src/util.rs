//! Helpers shared by the reference models.
use serde::Serialize;
use serde_json::{json, Value};

pub fn js<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or_else(|e| json!({"serialisation failed": e.to_string()}))
}

/// Structural comparison with a tolerance on numbers; returns the path of the first difference.
pub fn diff(a: &Value, b: &Value, tol: f64) -> Option<String> {
    fn go(a: &Value, b: &Value, tol: f64, path: &mut String) -> Option<String> {
        let fail = |p: &str| Some(format!("at {}: library {a} / model {b}", if p.is_empty() { "." } else { p }));
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys()) {
                    match (x.get(k), y.get(k)) {
                        (Some(p), Some(q)) => {
                            let l = path.len();
                            path.push('.');
                            path.push_str(k);
                            let r = go(p, q, tol, path);
                            if r.is_some() {
                                return r;
                            }
                            path.truncate(l);
                        }
                        (p, q) => return Some(format!("at {path}.{k}: library {p:?} / model {q:?}")),
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return fail(path);
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    let r = go(p, q, tol, path);
                    if r.is_some() {
                        return r;
                    }
                    path.truncate(l);
                }
                None
            }
            (Value::Number(x), Value::Number(y)) => {
                let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                if (x - y).abs() <= tol {
                    None
                } else {
                    fail(path)
                }
            }
            _ if a == b => None,
            _ => fail(path),
        }
    }
    go(a, b, tol, &mut String::new())
}

/// The same, as a check result.
pub fn same(what: &str, lib: &Value, model: &Value, tol: f64) -> Result<(), String> {
    match diff(lib, model, tol) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {}", crate::core::clip(&d, 1500))),
    }
}

/// A coordinate on one axis, in thousandths of an arc second.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ms(pub i64);

impl Ms {
    pub const fn new(sign: i64, d: i64, m: i64, ms: i64) -> Self {
        Ms(sign * (d * 3_600_000 + m * 60_000 + ms))
    }
    pub fn deg(self) -> f64 {
        self.0 as f64 / 3_600_000.0
    }
    pub fn text(self, lat: bool) -> String {
        let h = match (lat, self.0 < 0) {
            (true, false) => 'N',
            (true, true) => 'S',
            (false, false) => 'E',
            (false, true) => 'W',
        };
        let a = self.0.abs();
        format!("{h}{:03}.{:02}.{:02}.{:03}", a / 3_600_000, a / 60_000 % 60, a / 1000 % 60, a % 1000)
    }
}

/// A position (latitude, longitude).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Pos(pub Ms, pub Ms);

impl Pos {
    pub const fn new(lat: (i64, i64, i64, i64), lng: (i64, i64, i64, i64)) -> Self {
        Pos(Ms::new(lat.0, lat.1, lat.2, lat.3), Ms::new(lng.0, lng.1, lng.2, lng.3))
    }
    /// grid position in whole minutes around 48N 11E
    pub const fn grid(x: i64, y: i64) -> Self {
        Pos(Ms::new(1, 48, y, 0), Ms::new(1, 11, x, 0))
    }
    pub fn text(self) -> String {
        format!("{} {}", self.0.text(true), self.1.text(false))
    }
    pub fn colon(self) -> String {
        format!("{}:{}", self.0.text(true), self.1.text(false))
    }
    /// x, y in degrees
    pub fn xy(self) -> (f64, f64) {
        (self.1.deg(), self.0.deg())
    }
    pub fn point(self) -> geo::Point {
        geo::Point::new(self.1.deg(), self.0.deg())
    }
    pub fn coord(self) -> geo::Coord {
        geo::Coord { x: self.1.deg(), y: self.0.deg() }
    }
}
