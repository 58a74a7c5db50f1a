//! Files and structures as bytes: replays decode behaviours (bytes -> value or error -> bytes).
use crate::util::*;
use crate::{dbg, Res};
use binrw::{BinRead, BinWrite, Endian};
use serde_json::Value;
use std::fmt::Debug;
use std::io::{Cursor, Read, Seek, Write};

/// Reader/writer that completes at most `n` bytes at a time, and interrupts now and then.
pub struct Chunked<T> {
    pub inner: T,
    pub sizes: Vec<usize>,
    pub at: usize,
}

impl<T> Chunked<T> {
    pub fn new(inner: T, sizes: Vec<usize>) -> Self {
        Chunked {
            inner,
            sizes,
            at: 0,
        }
    }
    fn next(&mut self, len: usize) -> std::io::Result<usize> {
        if self.sizes.is_empty() {
            return Ok(len);
        }
        let n = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        if n == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        Ok(n.min(len))
    }
}

impl<T: Read> Read for Chunked<T> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.next(buf.len())?;
        self.inner.read(&mut buf[..n])
    }
}

impl<T: Write> Write for Chunked<T> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.next(buf.len())?;
        self.inner.write(&buf[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}

impl<T: Seek> Seek for Chunked<T> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}

pub fn chunks(v: &Value) -> Vec<usize> {
    match v.get("chunks") {
        Some(c) => ints(c).into_iter().map(|x| x as usize).collect(),
        None => vec![],
    }
}

/// The common part: read, compare, write back.
/// Record: bytes, ok, tree (expected value), used (bytes consumed), out (bytes written, default: those
/// consumed), chunks (sizes of partial reads and writes).
pub fn roundtrip<T: Debug + PartialEq>(
    v: &Value,
    read: impl Fn(&mut Chunked<Cursor<&[u8]>>) -> Result<T, String>,
    write: impl Fn(&T, &mut Chunked<Cursor<Vec<u8>>>) -> Result<(), String>,
) -> Result<Option<T>, String> {
    let b = bytes(&v["bytes"]);
    let mut c = Chunked::new(Cursor::new(&b[..]), chunks(v));
    let got = read(&mut c);
    if b.len() <= 1500 {
        // However the bytes arrive, the result is the same.
        for sizes in [vec![1], vec![0, 3, 2, 7]] {
            let mut d = Chunked::new(Cursor::new(&b[..]), sizes.clone());
            match (&got, read(&mut d)) {
                (Err(_), Err(_)) => {}
                (Ok(x), Ok(y)) => {
                    if *x != y || c.inner.position() != d.inner.position() {
                        return Err(format!(
                            "reading in pieces of {sizes:?} bytes gives something else"
                        ));
                    }
                    let mut w = Chunked::new(Cursor::new(Vec::new()), vec![]);
                    let one = write(x, &mut w).is_ok();
                    let mut p = Chunked::new(Cursor::new(Vec::new()), sizes.clone());
                    if one != write(x, &mut p).is_ok() || w.inner.get_ref() != p.inner.get_ref() {
                        return Err(format!(
                            "writing in pieces of {sizes:?} bytes gives something else"
                        ));
                    }
                }
                (_, Err(e)) => {
                    return Err(format!("reading in pieces of {sizes:?} bytes failed: {e}"))
                }
                (Err(e), _) => {
                    return Err(format!(
                        "reading succeeds only in pieces of {sizes:?} bytes: {e}"
                    ))
                }
            }
        }
    }
    let x = match (got, v["ok"] == true) {
        (Err(_), false) => return Ok(None),
        (Err(e), true) => return Err(format!("reading failed: {e}")),
        (Ok(x), false) => {
            return Err(format!(
                "reading succeeded, but it must fail: {:.600}",
                format!("{x:?}")
            ))
        }
        (Ok(x), true) => x,
    };
    if let Some(u) = v.get("used") {
        if c.inner.position() as i64 != int(u) {
            return Err(format!(
                "consumed {} bytes instead of {u}",
                c.inner.position()
            ));
        }
    }
    let debug = format!("{x:?}");
    let _ = format!("{x:#?}");
    if let Some(t) = v.get("tree") {
        dbg::check("value", &debug, t)?;
    }
    let want = match v.get("out") {
        Some(o) => bytes(o),
        None => match v.get("used") {
            Some(u) => b[..int(u) as usize].to_vec(),
            None => b.clone(),
        },
    };
    let mut w = Chunked::new(Cursor::new(Vec::new()), chunks(v));
    write(&x, &mut w).map_err(|e| format!("writing failed: {e}"))?;
    diff_bytes("written", w.inner.get_ref(), &want)?;
    Ok(Some(x))
}

pub fn e<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

pub fn plain<T: Debug + PartialEq>(v: &Value) -> Res
where
    T: for<'a> BinRead<Args<'a> = ()> + for<'a> BinWrite<Args<'a> = ()>,
{
    roundtrip::<T>(
        v,
        |c| T::read_options(c, Endian::Big, ()).map_err(e),
        |x, w| x.write_options(w, Endian::Big, ()).map_err(e),
    )
    .map(|_| ())
}

pub fn replay(v: &Value) -> Res {
    match str_of(&v["type"]) {
        "anlz" => anlz(v),
        "setting" => crate::setting::codec(v),
        t => Err(format!("unknown type {t:?}")),
    }
}

fn anlz(v: &Value) -> Res {
    use rekordcrate::anlz::{Content, ANLZ};
    let edits: Vec<Value> = v.get("edits").map(|e| arr(e).to_vec()).unwrap_or_default();
    let read = |c: &mut Chunked<Cursor<&[u8]>>| ANLZ::read(c).map_err(e);
    let write = |x: &ANLZ, w: &mut Chunked<Cursor<Vec<u8>>>| x.write(w).map_err(e);
    if edits.is_empty() {
        return roundtrip(v, read, write).map(|_| ());
    }
    let many = edits.iter().find_map(|x| x.get("n").map(int));
    let list_len = many.unwrap_or(0) as usize;
    fn list_op<T>(l: &mut Vec<T>, op: &str, n: usize, again: impl Fn(&T) -> T) {
        match op {
            "fill" => {
                l.truncate(1);
                while l.len() < n {
                    l.push(again(&l[0]));
                }
            }
            "pop" => drop(l.pop()),
            "dup" => l.push(again(&l[0])),
            "rev" => l.reverse(),
            "clear" => l.clear(),
            _ => panic!("harness: unknown edit {op}"),
        }
    }
    // Elements without Clone are copied through their encoding.
    fn copy<T: for<'a> BinRead<Args<'a> = ()> + for<'a> BinWrite<Args<'a> = ()>>(x: &T) -> T {
        let mut c = Cursor::new(Vec::new());
        x.write_options(&mut c, Endian::Big, ()).expect("copy");
        c.set_position(0);
        T::read_options(&mut c, Endian::Big, ()).expect("copy")
    }
    let b = bytes(&v["bytes"]);
    let mut x = ANLZ::read(&mut Cursor::new(&b[..])).map_err(e)?;
    for ed in &edits {
        let op = str_of(&ed["op"]);
        if op == "rotate" {
            x.sections.rotate_left(1);
            continue;
        }
        let s = &mut x.sections[int(&ed["sec"]) as usize - 1];
        match &mut s.content {
            Content::BeatGrid(c) => list_op(&mut c.beats, op, list_len, copy),
            Content::CueList(c) => list_op(&mut c.cues, op, list_len, copy),
            Content::ExtendedCueList(c) => list_op(&mut c.cues, op, list_len, copy),
            Content::Path(c) => c.path = text(&ed["text"]).as_str().into(),
            Content::WaveformPreview(c) => list_op(&mut c.data, op, list_len, copy),
            Content::TinyWaveformPreview(c) => list_op(&mut c.data, op, list_len, copy),
            Content::WaveformDetail(c) => list_op(&mut c.data, op, list_len, copy),
            Content::WaveformColorPreview(c) => list_op(&mut c.data, op, list_len, copy),
            Content::WaveformColorDetail(c) => list_op(&mut c.data, op, list_len, copy),
            Content::Waveform3BandPreview(c) => list_op(&mut c.data, op, list_len, copy),
            Content::Waveform3BandDetail(c) => list_op(&mut c.data, op, list_len, copy),
            _ => return Err("harness: section cannot be edited".into()),
        }
    }
    if many.is_some() {
        let mut w = Chunked::new(Cursor::new(Vec::new()), vec![]);
        return match (write(&x, &mut w), v["ok"] == true) {
            (Ok(()), true) => {
                let (mut like, at, count) = (bytes(&v["like"]), int(&v["at"]), bytes(&v["count"]));
                like[at as usize..][..count.len()].copy_from_slice(&count);
                let out = w.inner.get_ref();
                if out.len() as i64 != int(&v["len"]) {
                    return Err(format!("{} bytes written instead of {}", out.len(), v["len"]));
                }
                diff_bytes("written", &out[..like.len()], &like)
            }
            (Err(_), false) => Ok(()),
            (Ok(()), false) => Err("a list that is too long for its count was written".into()),
            (Err(e), true) => Err(format!("a list could not be written: {e}")),
        };
    }
    dbg::check("edited value", &format!("{x:?}"), &v["tree"])?;
    let mut w = Chunked::new(Cursor::new(Vec::new()), chunks(v));
    write(&x, &mut w)?;
    diff_bytes("written", w.inner.get_ref(), &bytes(&v["out"]))
}
