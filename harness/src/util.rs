//! Small helpers shared by the replayers.
use serde_json::Value;

pub fn str_of(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}

pub fn int(v: &Value) -> i64 {
    v.as_i64()
        .unwrap_or_else(|| panic!("harness: not an integer: {v}"))
}

pub fn arr(v: &Value) -> &[Value] {
    // The Json module writes an empty TLA+ sequence as [] and an empty function as {}.
    match v {
        Value::Array(a) => a,
        Value::Object(o) if o.is_empty() => &[],
        _ => panic!("harness: not an array: {v}"),
    }
}

/// Bytes, or a file and the places where the bytes differ from it.
pub fn bytes(v: &Value) -> Vec<u8> {
    if let Some(f) = v.get("file") {
        let mut b = std::fs::read(str_of(f)).unwrap_or_else(|x| panic!("harness: {f}: {x}"));
        for p in arr(&v["patch"]) {
            let (at, q) = (int(&p[0]) as usize, bytes(&p[1]));
            b[at..at + q.len()].copy_from_slice(&q);
        }
        return b;
    }
    arr(v).iter().map(|b| int(b) as u8).collect()
}

pub fn ints(v: &Value) -> Vec<i64> {
    arr(v).iter().map(int).collect()
}

/// A sequence of code points. Unpaired surrogates cannot occur in a Rust string.
pub fn text(v: &Value) -> String {
    arr(v)
        .iter()
        .map(|c| {
            char::from_u32(int(c) as u32).unwrap_or_else(|| panic!("harness: bad code point {c}"))
        })
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn diff_bytes(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got
        .iter()
        .zip(want)
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{what}: bytes differ at offset {at} (length {} instead of {}): got {} want {}",
        got.len(),
        want.len(),
        hex(&got[at.saturating_sub(4)..(at + 24).min(got.len())]),
        hex(&want[at.saturating_sub(4).min(want.len())..(at + 24).min(want.len())])
    ))
}

/// A directory that is removed when this value goes away.
pub struct Scratch(pub std::path::PathBuf);

impl Scratch {
    pub fn new() -> Result<Self, String> {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let p =
            std::env::temp_dir().join(format!("rekordcrate-harness-{}-{n}", std::process::id()));
        std::fs::create_dir(&p)
            .map_err(|e| format!("harness: cannot create {}: {e}", p.display()))?;
        Ok(Scratch(p))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
