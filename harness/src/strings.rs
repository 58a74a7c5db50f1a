//! DeviceSQL strings (property C09).
use crate::util::*;
use crate::Res;
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::string::DeviceSQLString;
use serde_json::Value;
use std::io::Cursor;

fn write(s: &DeviceSQLString) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(Vec::new());
    s.write(&mut c).map_err(|e| format!("write failed: {e}"))?;
    Ok(c.into_inner())
}

pub fn replay(v: &Value) -> Res {
    match str_of(&v["op"]) {
        // text -> string -> bytes -> string -> text
        op @ ("new" | "isrc") => {
            let t = text(&v["text"]);
            let made = if op == "new" {
                DeviceSQLString::new(&t)
            } else {
                DeviceSQLString::new_isrc(t.clone())
            };
            let ok = v["ok"] == true;
            let s = match made {
                Err(_) if !ok => return Ok(()),
                Err(e) => return Err(format!("creating the string failed: {e}")),
                Ok(_) if !ok => {
                    return Err("creating the string succeeded, but it must be rejected".into())
                }
                Ok(s) => s,
            };
            if op == "new" && t.parse::<DeviceSQLString>().ok().as_ref() != Some(&s) {
                return Err("parse() differs from new()".into());
            }
            if s.to_string() != t {
                return Err(format!("display gives {:?}", s.to_string()));
            }
            if s.clone().into_string().ok().as_deref() != Some(&t) {
                return Err("into_string differs".into());
            }
            let b = write(&s)?;
            let want = bytes(&v["bytes"]);
            diff_bytes("written string", &b, &want)?;
            let mut long = b.clone();
            long.extend([0xAA, 0x00, 0x03, 0x41]);
            let mut c = Cursor::new(&long);
            let back =
                DeviceSQLString::read(&mut c).map_err(|e| format!("reading back failed: {e}"))?;
            if c.position() != b.len() as u64 {
                return Err(format!(
                    "reading back consumed {} of {} bytes",
                    c.position(),
                    b.len()
                ));
            }
            if back != s {
                return Err(format!(
                    "reading back gives another string: {:?}",
                    back.to_string()
                ));
            }
            if back.clone().into_string().ok().as_deref() != Some(&t) || back.to_string() != t {
                return Err(format!("reading back gives {:?}", back.to_string()));
            }
            diff_bytes("rewritten string", &write(&back)?, &want)
        }
        // bytes -> string -> (text, consumed) or error
        "dec" => {
            let b = bytes(&v["bytes"]);
            let mut c = Cursor::new(&b);
            let got = DeviceSQLString::read(&mut c);
            let s = match (got, v["ok"] == true) {
                (Err(_), false) => return Ok(()),
                (Err(e), true) => return Err(format!("reading failed: {e}")),
                (Ok(s), false) => {
                    return Err(format!("reading succeeded with {:?}", s.to_string()))
                }
                (Ok(s), true) => s,
            };
            if c.position() as i64 != int(&v["used"]) {
                return Err(format!("consumed {} bytes", c.position()));
            }
            let shown = s.to_string();
            let _ = format!("{s:?}");
            if v["valid"] == true {
                let t = text(&v["text"]);
                if shown != t {
                    return Err(format!("display gives {shown:?} instead of {t:?}"));
                }
                match s.clone().into_string() {
                    Ok(x) if x == t => {}
                    x => return Err(format!("into_string gives {x:?} instead of {t:?}")),
                }
            } else if let Ok(x) = s.clone().into_string() {
                return Err(format!("into_string accepts undecodable content as {x:?}"));
            }
            // Writing gives the bytes that were read.
            diff_bytes(
                "rewritten string",
                &write(&s)?,
                &b[..int(&v["used"]) as usize],
            )
        }
        op => Err(format!("unknown op {op}")),
    }
}
