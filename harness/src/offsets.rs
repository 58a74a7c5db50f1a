//! Offset arrays of any number of items of several kinds.
use crate::util::*;
use crate::Res;
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::offset_array::*;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::util::MaybeCalculated;
use serde_json::Value;
use std::fmt::Debug;
use std::io::Cursor;

#[derive(Debug, PartialEq, Clone)]
struct Items<T, const N: usize>([T; N]);

impl<T, const N: usize> OffsetArrayItems<N> for Items<T, N> {
    type Item = T;
    fn as_items(&self) -> [&T; N] {
        self.0.each_ref()
    }
    fn from_items(items: [T; N]) -> Self {
        Items(items)
    }
}

fn size(n: i64) -> OffsetSize {
    if n == 1 {
        OffsetSize::U8
    } else {
        OffsetSize::U16
    }
}

fn run<T, const N: usize>(v: &Value) -> Res
where
    T: Debug
        + PartialEq
        + Clone
        + for<'a> BinRead<Args<'a> = ()>
        + for<'a> BinWrite<Args<'a> = ()>
        + OffsetArrayItemAlignment,
{
    let b = bytes(&v["bytes"]);
    let (at, back) = (int(&v["at"]) as u64, int(&v["back"]) as u64);
    let read = |b: &[u8], w: i64| {
        let mut c = Cursor::new(b);
        c.set_position(at);
        OffsetArrayContainer::<Items<T, N>, N>::read_options(
            &mut c,
            Endian::Little,
            (back, size(w), ()),
        )
    };
    let mut x = match (read(&b, int(&v["w"])), v["ok"] == true) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("reading failed: {e}")),
        (Ok(x), false) => return Err(format!("reading succeeded, but it must fail: {x:?}")),
        (Ok(x), true) => x,
    };
    let offs = ints(&v["offs"]);
    let expected = if v["w"] == 1 {
        OffsetArray::<N>::U8(std::array::from_fn(|i| offs[i] as u8))
    } else {
        OffsetArray::<N>::U16(std::array::from_fn(|i| offs[i] as u16))
    };
    if x.offsets != MaybeCalculated::Provided(expected.clone()) {
        return Err(format!("offsets {:?} instead of {offs:?}", x.offsets));
    }
    let items = arr(&v["items"]);
    for i in 0..N {
        let mut c = Cursor::new(Vec::new());
        x.inner.0[i]
            .write_options(&mut c, Endian::Little, ())
            .map_err(|e| e.to_string())?;
        diff_bytes(&format!("item {i}"), c.get_ref(), &bytes(&items[i]))?;
    }
    if v["how"] == "fresh" {
        x.offsets = MaybeCalculated::Calculated;
    }
    let mut c = Cursor::new(bytes(&v["over"]));
    c.set_position(at);
    match (
        x.write_options(&mut c, Endian::Little, (back, size(int(&v["ww"])), ())),
        v["wok"] == true,
    ) {
        (Err(_), false) => Ok(()),
        (Ok(()), false) => Err("writing succeeded, but it must fail".into()),
        (Err(e), true) => Err(format!("writing failed: {e}")),
        (Ok(()), true) => {
            diff_bytes("written", c.get_ref(), &bytes(&v["out"]))?;
            if v["how"] == "fresh" {
                let again = read(c.get_ref(), int(&v["ww"]))
                    .map_err(|e| format!("reading again failed: {e}"))?;
                if again.inner != x.inner {
                    return Err(format!(
                        "read back {:?} instead of {:?}",
                        again.inner, x.inner
                    ));
                }
            }
            Ok(())
        }
    }
}

fn count<T>(v: &Value) -> Res
where
    T: Debug
        + PartialEq
        + Clone
        + for<'a> BinRead<Args<'a> = ()>
        + for<'a> BinWrite<Args<'a> = ()>
        + OffsetArrayItemAlignment,
{
    match int(&v["n"]) {
        0 => run::<T, 0>(v),
        1 => run::<T, 1>(v),
        2 => run::<T, 2>(v),
        _ => run::<T, 3>(v),
    }
}

pub fn replay(v: &Value) -> Res {
    match str_of(&v["kind"]) {
        "u8" => count::<u8>(v),
        "u16" => count::<u16>(v),
        "u32" => count::<u32>(v),
        "raw3" => count::<[u8; 3]>(v),
        "sql" => count::<DeviceSQLString>(v),
        k => Err(format!("harness: item kind {k}")),
    }
}
