//! Comparison of the specification's expected value with the observed projection.
use crate::{enc, proj};
use serde_json::Value;

fn f32_of(v: &Value) -> f32 {
    let mut b = [0u8; 4];
    for (i, x) in v.as_array().map(|x| &x[..]).unwrap_or(&[]).iter().take(4).enumerate() {
        b[i] = x.as_u64().unwrap_or(0) as u8;
    }
    f32::from_le_bytes(b)
}
fn u64_of(v: &Value) -> u64 {
    let mut b = [0u8; 8];
    for (i, x) in v.as_array().map(|x| &x[..]).unwrap_or(&[]).iter().take(8).enumerate() {
        b[i] = x.as_u64().unwrap_or(0) as u8;
    }
    u64::from_le_bytes(b)
}
fn bytes(x: f32) -> Value {
    Value::Array(x.to_bits().to_le_bytes().iter().map(|b| Value::from(*b)).collect())
}
fn is_nan(v: &Value) -> bool {
    v.as_array().map(|a| a.len() == 4 && a.iter().all(|x| x.as_u64().map(|x| x < 256).unwrap_or(false))).unwrap_or(false) && f32_of(v).is_nan()
}
/// Replace symbolic values of the specification by concrete ones.
pub fn norm(v: &Value, blobs: &Value) -> Value {
    match v {
        Value::Object(m) => {
            if let Some(b) = m.get("$blob") {
                let data = match b {
                    Value::String(n) => blobs.get(n).map(enc::blob_bytes).unwrap_or_default(),
                    Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
                    o => enc::blob_bytes(o),
                };
                return proj::digest(&data);
            }
            if let Some(a) = m.get("$mul").and_then(|x| x.as_array()) {
                // scale option, sign, magnitude
                let sc = a[0].as_array().and_then(|x| x.first()).map(f32_of).unwrap_or(1.0);
                let mag = u64_of(&a[2]) as i64;
                let v = if a[1].as_bool().unwrap_or(false) { -mag } else { mag };
                return bytes(sc * v as f32);
            }
            if let Some(a) = m.get("$sub").and_then(|x| x.as_array()) {
                // (hi - lo) * scale, unsigned 32-bit operands
                let sc = a[0].as_array().and_then(|x| x.first()).map(f32_of).unwrap_or(1.0);
                let hi = u64_of(&a[1]) as u32 as f32;
                let lo = u64_of(&a[2]) as u32 as f32;
                return bytes((hi - lo) * sc);
            }
            Value::Object(m.iter().map(|(k, x)| (k.clone(), norm(x, blobs))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| norm(x, blobs)).collect()),
        x => x.clone(),
    }
}
fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 160 {
        let mut e = 157;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
/// First difference between expected and observed, as "path: expected .. got ..".
pub fn diff(e: &Value, g: &Value, path: &str) -> Option<String> {
    let bad = || Some(format!("{}: expected {} got {}", if path.is_empty() { "." } else { path }, short(e), short(g)));
    match (e, g) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, x) in a {
                match b.get(k) {
                    Some(y) => {
                        if let Some(d) = diff(x, y, &format!("{path}.{k}")) {
                            return Some(d);
                        }
                    }
                    None => return Some(format!("{path}.{k}: expected {} got nothing", short(x))),
                }
            }
            for (k, y) in b {
                if !a.contains_key(k) {
                    return Some(format!("{path}.{k}: expected nothing got {}", short(y)));
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            if is_nan(e) && is_nan(g) {
                return None;
            }
            if a.len() != b.len() {
                return bad();
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = diff(x, y, &format!("{path}[{i}]")) {
                    // report short arrays of numbers whole
                    if a.len() <= 16 && x.is_number() {
                        return bad();
                    }
                    return Some(d);
                }
            }
            None
        }
        (x, y) if x == y => None,
        _ => bad(),
    }
}
