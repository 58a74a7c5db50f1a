//! Pages and database headers with all their fields: bytes -> value -> bytes.
use crate::util::*;
use crate::{dbg, pdb::page_index, rows, Res};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use serde_json::Value;
use std::io::Cursor;

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |n, &x| n << 8 | x as u64)
}

pub fn db_type(v: &Value) -> DatabaseType {
    if v == "Ext" {
        DatabaseType::Ext
    } else {
        DatabaseType::Plain
    }
}

/// A page index with any number, also one that the public constructor refuses.
fn any_index(n: u32) -> Result<PageIndex, String> {
    PageIndex::read_le(&mut Cursor::new(n.to_le_bytes())).map_err(|e| e.to_string())
}

fn accessors(p: &mut Page) -> Res {
    let index = p.header.page_flags.is_index_page();
    let c = &mut p.content;
    if c.as_data().is_some() == index
        || c.as_data_mut().is_some() == index
        || c.as_index().is_some() != index
        || c.as_index_mut().is_some() != index
        || c.clone().into_data().is_some() == index
        || c.clone().into_index().is_some() != index
    {
        return Err("content accessors disagree with the page flags".into());
    }
    if let Some(x) = c.as_index() {
        for e in &x.entries {
            let mut w = Cursor::new(vec![]);
            e.write_le(&mut w).map_err(|e| e.to_string())?;
            let n = le(w.get_ref()) as u32;
            want("entry empty", e.is_empty(), n == 0x1FFF_FFF8)?;
            want("entry flags", e.index_flags() as u32, n & 7)?;
            match (e.page_index(), n >> 3 < 0x03FF_FFFF) {
                (Ok(i), true) => {
                    want("entry page", i, page_index((n >> 3) as i64))?;
                    want(
                        "entry made again",
                        IndexEntry::try_from((i, (n & 7) as u8)).ok(),
                        Some(*e),
                    )?;
                }
                (Err(_), false) => (),
                (r, _) => return Err(format!("page index of entry {n:#x}: {r:?}")),
            }
        }
        want("empty entry", IndexEntry::empty().is_empty(), true)?;
    }
    Ok(())
}

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Res {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {exp:?}"))
    }
}

fn edit(p: &mut Page, e: &Value) -> Res {
    let b = bytes(&e["v"]);
    let n = le(&b);
    let i = int(&e["i"]) as usize;
    let h = &mut p.header;
    match str_of(&e["n"]) {
        "np" => h.next_page = any_index(n as u32)?,
        "pi" => h.page_index = any_index(n as u32)?,
        "u1" => h.unknown1 = n as u32,
        "u2" => h.unknown2 = n as u32,
        "free" => h.free_size = n as u16,
        "used" => h.used_size = n as u16,
        "nr" => h.packed_row_counts.set_num_rows(n as u16),
        "nv" => h.packed_row_counts.set_num_rows_valid(n as u16),
        "flag" => {
            let v = n == 1;
            match i {
                0 => h.page_flags.set_unknown0(v),
                1 => h.page_flags.set_unknown1(v),
                2 => h.page_flags.set_unknown2(v),
                3 => h.page_flags.set_unknown3(v),
                4 => h.page_flags.set_contains_deleted(v),
                5 => h.page_flags.set_unknown5(v),
                _ => h.page_flags.set_unknown7(v),
            }
        }
        "dh" => {
            let d = &mut p.content.as_data_mut().ok_or("no data page")?.header;
            match i {
                1 => d.unknown5 = n as u16,
                2 => d.unknown_not_num_rows_large = n as u16,
                3 => d.unknown6 = n as u16,
                _ => d.unknown7 = n as u16,
            }
        }
        "gunk" => {
            p.content.as_data_mut().ok_or("no data page")?.row_groups[i - 1].unknown = n as u16
        }
        k => {
            let x = p.content.as_index_mut().ok_or("no index page")?;
            match k {
                "ipi" => x.header.page_index = any_index(n as u32)?,
                "inp" => x.header.next_page = any_index(n as u32)?,
                "ua" => x.header.unknown_a = n as u16,
                "ub" => x.header.unknown_b = n as u16,
                "no" => x.header.next_offset = n as u16,
                "fe" => x.header.first_empty = n as u16,
                "push" => {
                    let i = PageIndex::try_from(n as u32).map_err(|e| e.to_string())?;
                    x.entries.push(
                        IndexEntry::try_from((i, int(&e["i"]) as u8)).map_err(|e| e.to_string())?,
                    );
                    x.header.num_entries += 1;
                }
                k => return Err(format!("harness: no edit {k}")),
            }
        }
    }
    Ok(())
}

pub fn replay(v: &Value) -> Res {
    let ps = int(&v["ps"]) as u32;
    let lead = int(&v["lead"]) as usize;
    for l in if lead > 0 { vec![0, lead] } else { vec![0] } {
        one(v, ps, l).map_err(|e| format!("page at {l}: {e}"))?;
    }
    Ok(())
}

fn one(v: &Value, ps: u32, lead: usize) -> Res {
    let shift = |b: Vec<u8>| [vec![0xA5; lead], b].concat();
    let b = shift(bytes(&v["bytes"]));
    let mut c = Cursor::new(&b[..]);
    c.set_position(lead as u64);
    let db = db_type(&v["kind"]);
    let mut p = match (
        Page::read_options(&mut c, Endian::Little, (ps, db)),
        v["ok"] == true,
    ) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("reading failed: {e}")),
        (Ok(p), false) => {
            return Err(format!(
                "reading succeeded, but it must fail: {:.600}",
                format!("{p:?}")
            ))
        }
        (Ok(p), true) => p,
    };
    let t = p.header.page_type;
    accessors(&mut p)?;
    if let (Some(d), false) = (p.content.as_data_mut(), matches!(t, PageType::Unknown(_))) {
        for r in d.rows.values_mut() {
            rows::variants(r, t)?;
        }
    }
    let debug = format!("{p:?}");
    let _ = format!("{p:#?}");
    if let Some(t) = v.get("tree") {
        dbg::check("page", &debug, t)?;
    }
    let orig = p.clone();
    c.set_position(lead as u64);
    let twin = Page::read_options(&mut c, Endian::Little, (ps, db))
        .map_err(|e| format!("reading again failed: {e}"))?;
    want("the page equals itself, read once more", twin == orig, true)?;
    for e in arr(&v["edits"]) {
        edit(&mut p, e)?;
    }
    want(
        "the page equals the page that was read",
        p == orig,
        v["same"] == true,
    )?;
    let mut w = Cursor::new(shift(bytes(&v["over"])));
    w.set_position(lead as u64);
    p.write_options(&mut w, Endian::Little, (ps,))
        .map_err(|e| format!("writing failed: {e}"))?;
    diff_bytes("written", w.get_ref(), &shift(bytes(&v["out"])))
}

// ------------------------------------------------------------------ header
fn type_of(n: u32, db: DatabaseType) -> Result<PageType, String> {
    PageType::read_options(&mut Cursor::new(n.to_le_bytes()), Endian::Little, (db,))
        .map_err(|e| e.to_string())
}

pub fn header(v: &Value) -> Res {
    let db = db_type(&v["kind"]);
    let b = bytes(&v["bytes"]);
    let mut c = Cursor::new(&b[..]);
    let mut h = match (
        Header::read_options(&mut c, Endian::Little, (db,)),
        v["ok"] == true,
    ) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("reading failed: {e}")),
        (Ok(h), false) => return Err(format!("reading succeeded, but it must fail: {h:?}")),
        (Ok(h), true) => h,
    };
    want("bytes consumed", c.position(), int(&v["used"]) as u64)?;
    dbg::check("header", &format!("{h:?}"), &v["tree"])?;
    for f in arr(&v["find"]) {
        let (n, at) = (le(&bytes(&f[0])) as u32, int(&f[1]));
        let t = type_of(n, db)?;
        let exp = (at >= 0).then(|| TableIndex::from(at as usize));
        match (h.find_table(t), exp) {
            (None, None) => (),
            (Some((i, table)), Some(e))
                if i == e && *table == h.tables[at as usize] && table.page_type == t =>
            {
                ()
            }
            (g, e) => return Err(format!("find_table({t:?}): {g:?} instead of {e:?}")),
        }
        let before = h.clone();
        match (h.find_table_mut(t), exp) {
            (None, None) => (),
            (Some((i, table)), Some(e)) if i == e && *table == before.tables[at as usize] => (),
            (g, e) => return Err(format!("find_table_mut({t:?}): {g:?} instead of {e:?}")),
        }
    }
    through_database(v, db, &b, &h)?;
    edit_header(&mut h, v, db)?;
    let mut w = Cursor::new(bytes(&v["over"]));
    h.write_options(&mut w, Endian::Little, (db,))
        .map_err(|e| format!("writing failed: {e}"))?;
    diff_bytes("written", w.get_ref(), &bytes(&v["out"]))
}

/// The same through a database on a storage of two pages.
fn through_database(v: &Value, db: DatabaseType, b: &[u8], h: &Header) -> Res {
    if h.page_size > 65536 || b.len() > h.page_size as usize {
        return Ok(());
    }
    let mut data = b.to_vec();
    // A flush writes the header page as a whole, with zeros behind the tables.
    data.truncate(int(&v["used"]) as usize);
    data.resize(h.page_size as usize, 0);
    data.resize(2 * h.page_size as usize, 0xEE);
    let mut want_data = data.clone();
    let len = int(&v["used"]) as usize;
    want_data[..len].copy_from_slice(&bytes(&v["out"])[..len]);
    let mut c = Cursor::new(&mut data);
    let mut d =
        Database::open(&mut c, db).map_err(|e| format!("opening the database failed: {e}"))?;
    want("header of the database", d.get_header(), h)?;
    edit_header(d.get_header_mut(), v, db)?;
    d.close()
        .map_err(|e| format!("closing the database failed: {e}"))?;
    diff_bytes("closed database", &data, &want_data)
}

fn edit_header(h: &mut Header, v: &Value, db: DatabaseType) -> Res {
    for e in arr(&v["edits"]) {
        let n = le(&bytes(&e["v"])) as u32;
        match str_of(&e["n"]) {
            "nu" => h.next_unused_page = any_index(n)?,
            "unk" => h.unknown = n,
            "seq" => h.sequence = n,
            "first" | "last" => {
                let t = type_of(le(&bytes(&e["t"])) as u32, db)?;
                let (_, table) = h.find_table_mut(t).ok_or("no such table")?;
                if e["n"] == "first" {
                    table.first_page = any_index(n)?;
                } else {
                    table.last_page = any_index(n)?;
                }
            }
            k => return Err(format!("harness: no edit {k}")),
        }
    }
    Ok(())
}

/// What new pages start with, and rounding up to multiples.
pub fn made(v: &Value) -> Res {
    let raw = |f: &dyn Fn(&mut Cursor<Vec<u8>>) -> binrw::BinResult<()>| {
        let mut w = Cursor::new(vec![]);
        f(&mut w)
            .map(|()| w.into_inner())
            .map_err(|e| e.to_string())
    };
    let flags = |x: bitfields::PageFlags| raw(&|w| x.write_le(w));
    let counts = |x: bitfields::PackedRowCounts| raw(&|w| x.write_le(w));
    let n = le(&bytes(&v["n"]));
    match str_of(&v["what"]) {
        "flags" => want(
            "page flags",
            [
                flags(bitfields::PageFlags::default())?,
                flags(bitfields::PageFlags::new_data_page())?,
                flags(bitfields::PageFlags::new_index_page())?,
            ]
            .concat(),
            bytes(&v["out"]),
        ),
        "counts" => {
            want(
                "no rows",
                counts(bitfields::PackedRowCounts::default())?,
                vec![0, 0, 0],
            )?;
            want(
                "counts of rows",
                counts(bitfields::PackedRowCounts::from_all_valid(n as usize))?,
                bytes(&v["out"]),
            )
        }
        "align" => want(
            "rounded up",
            rekordcrate::util::align_by(int(&v["by"]) as u64, n),
            le(&bytes(&v["out"])),
        ),
        k => Err(format!("harness: no {k}")),
    }
}

/// Small numbers: page indices, index entries, and offsets of pages.
pub fn numbers(v: &Value) -> Res {
    let n = le(&bytes(&v["n"])) as u32;
    let i = PageIndex::try_from(n);
    want("page index accepted", i.is_ok(), v["ok"] == true)?;
    let i = match i {
        Ok(i) => i,
        Err(_) => any_index(n)?,
    };
    let ps = le(&bytes(&v["ps"])) as u32;
    want(
        "offset of the page",
        i.offset(ps).to_be_bytes().to_vec(),
        bytes(&v["offset"]),
    )?;
    let f = int(&v["flags"]) as u8;
    match (
        IndexEntry::try_from((i, f)),
        v["entry"].as_object().is_none(),
    ) {
        (Ok(_), false) => Err(format!("entry with flags {f} was made")),
        (Err(e), true) => Err(format!("entry with flags {f}: {e}")),
        (Err(_), false) => Ok(()),
        (Ok(e), true) => {
            let mut w = Cursor::new(vec![]);
            e.write_le(&mut w).map_err(|e| e.to_string())?;
            diff_bytes("entry", w.get_ref(), &bytes(&v["entry"]))?;
            want("flags", e.index_flags(), f)
        }
    }
}
