//! The masking stream, driven by histories from the specification.
use crate::codec::Chunked;
use crate::util::*;
use crate::Res;
use rekordcrate::xor::XorStream;
use serde_json::Value;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub fn replay(v: &Value) -> Res {
    let piece = int(&v["piece"]) as usize;
    let mut inner = Cursor::new(bytes(&v["data"]));
    inner.set_position(int(&v["start"]) as u64);
    let mut c = Chunked::new(inner, if piece == 0 { vec![] } else { vec![piece] });
    {
        let mut x = XorStream::with_key(&mut c, bytes(&v["key"]));
        for (i, op) in arr(&v["ops"]).iter().enumerate() {
            let n = int(&op["n"]);
            let name = str_of(&op["op"]);
            match name {
                "read" => {
                    let mut buf = vec![0u8; n as usize];
                    let m = x.read(&mut buf).map_err(|e| format!("op {i}: {e}"))?;
                    diff_bytes(&format!("op {i}: read"), &buf[..m], &bytes(&op["r"]))?;
                }
                "write" => {
                    let m = x
                        .write(&bytes(&op["b"]))
                        .map_err(|e| format!("op {i}: {e}"))?;
                    if m as i64 != n {
                        return Err(format!("op {i}: wrote {m} bytes instead of {n}"));
                    }
                }
                _ => {
                    let to = match name {
                        "seek_start" => SeekFrom::Start(n as u64),
                        "seek_current" => SeekFrom::Current(n),
                        _ => SeekFrom::End(n),
                    };
                    let want = ints(&op["r"]);
                    match (x.seek(to), want[0]) {
                        (Err(_), 0) => (),
                        (Ok(p), 1) if p as i64 == want[1] => (),
                        (r, _) => {
                            return Err(format!("op {i}: seek gives {r:?}, expected {want:?}"))
                        }
                    }
                }
            }
        }
    }
    diff_bytes("stream", c.inner.get_ref(), &bytes(&v["final"]))?;
    if c.inner.position() as i64 != int(&v["pos"]) {
        return Err(format!(
            "position {} instead of {}",
            c.inner.position(),
            v["pos"]
        ));
    }
    Ok(())
}
