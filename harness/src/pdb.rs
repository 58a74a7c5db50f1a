//! Databases: replays call sequences of PdbDb.tla (properties C01 to C06).
use crate::store::{Kind, Store};
use crate::util::*;
use crate::Res;
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::{
    DatabaseType, Menu, Page, PageContent, PageIndex, PageType, PlainPageType, PlainRow,
    PlaylistEntry, Row,
};
use rekordcrate::util::{RekordcrateError, TableIndex};
use serde_json::Value;
use std::io::Cursor;

// Where there is a gap in the numbers of pages: pages from the first number on have numbers greater by the second.
thread_local!(static GAP: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((i64::MAX, 0)) });
fn number(n: i64) -> i64 {
    let (first, more) = GAP.get();
    if n < first {
        n
    } else {
        n + more
    }
}
/// Renumbers what the page with this number (0: the header) says about pages.
fn renumber(p: usize, page: &mut [u8]) {
    let mut at = |i: usize| {
        if let Some(w) = page.get_mut(i..i + 4) {
            let n = u32::from_le_bytes(w.try_into().unwrap());
            w.copy_from_slice(&(number(n as i64) as u32).to_le_bytes());
        }
    };
    if p > 0 {
        at(4);
        at(12);
        return;
    }
    at(12);
    let tables = u32::from_le_bytes(page[8..12].try_into().unwrap());
    for t in 0..tables as usize {
        for field in [8, 12] {
            let i = 28 + 16 * t + field;
            if let Some(w) = page.get_mut(i..i + 4) {
                let n = u32::from_le_bytes(w.try_into().unwrap());
                w.copy_from_slice(&(number(n as i64) as u32).to_le_bytes());
            }
        }
    }
}

pub fn page_index(n: i64) -> PageIndex {
    raw_index(number(n))
}

fn raw_index(n: i64) -> PageIndex {
    match PageIndex::try_from(n as u32) {
        Ok(p) => p,
        // Beyond the constructor's range: read it.
        Err(_) => {
            PageIndex::read_le(&mut Cursor::new((n as u32).to_le_bytes())).expect("page index")
        }
    }
}

pub fn plain_type(n: i64) -> PageType {
    use PlainPageType::*;
    PageType::Plain(match n {
        0 => Tracks,
        1 => Genres,
        2 => Artists,
        3 => Albums,
        4 => Labels,
        5 => Keys,
        6 => Colors,
        7 => PlaylistTree,
        8 => PlaylistEntries,
        11 => HistoryPlaylists,
        12 => HistoryEntries,
        13 => Artwork,
        16 => Columns,
        17 => Menu,
        19 => History,
        n => return PageType::Unknown(n as u32),
    })
}

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Res {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, want {exp:?}"))
    }
}

pub fn row_bytes(r: &Row) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(Vec::new());
    r.write_options(&mut c, Endian::Little, ())
        .map_err(|e| format!("cannot write a row: {e}"))?;
    Ok(c.into_inner())
}

/// Compares a page with its record.
pub fn check_page(what: &str, pg: &Page, v: &Value) -> Res {
    let h = &pg.header;
    want(
        &format!("{what} page_index"),
        h.page_index,
        page_index(int(&v["idx"])),
    )?;
    want(
        &format!("{what} page_type"),
        h.page_type,
        plain_type(int(&v["type"])),
    )?;
    want(
        &format!("{what} next_page"),
        h.next_page,
        page_index(int(&v["next"])),
    )?;
    want(
        &format!("{what} unknown1"),
        h.unknown1 as i64,
        int(&v["u1"]),
    )?;
    want(
        &format!("{what} unknown2"),
        h.unknown2 as i64,
        int(&v["u2"]),
    )?;
    want(
        &format!("{what} num_rows"),
        h.packed_row_counts.num_rows() as i64,
        int(&v["nr"]),
    )?;
    want(
        &format!("{what} num_rows_valid"),
        h.packed_row_counts.num_rows_valid() as i64,
        int(&v["nv"]),
    )?;
    want(
        &format!("{what} page_flags"),
        h.page_flags.into_bytes()[0] as i64,
        int(&v["flags"]),
    )?;
    want(
        &format!("{what} free_size"),
        h.free_size as i64,
        int(&v["free"]),
    )?;
    want(
        &format!("{what} used_size"),
        h.used_size as i64,
        int(&v["used"]),
    )?;
    match (&pg.content, str_of(&v["kind"])) {
        (PageContent::Data(d), "data") => {
            let dh = [
                d.header.unknown5,
                d.header.unknown_not_num_rows_large,
                d.header.unknown6,
                d.header.unknown7,
            ];
            want(
                &format!("{what} data header"),
                dh.map(|x| x as i64).to_vec(),
                ints(&v["dh"]),
            )?;
            let gs = arr(&v["groups"]);
            want(
                &format!("{what} number of row groups"),
                d.row_groups.len(),
                gs.len(),
            )?;
            for (i, (g, e)) in d.row_groups.iter().zip(gs).enumerate() {
                want(
                    &format!("{what} group {i} presence"),
                    g.row_presence_flags as i64,
                    int(&e["pres"]),
                )?;
                want(
                    &format!("{what} group {i} unknown"),
                    g.unknown as i64,
                    int(&e["unk"]),
                )?;
                let offs: Vec<i64> = (0..16)
                    .filter(|s| g.row_presence_flags & (1 << s) != 0)
                    .map(|s| g.row_offsets[15 - s] as i64)
                    .collect();
                want(&format!("{what} group {i} offsets"), offs, ints(&e["offs"]))?;
            }
            let rows = arr(&v["rows"]);
            let got: Vec<i64> = d.rows.keys().map(|k| *k as i64).collect();
            want(
                &format!("{what} row offsets"),
                got,
                rows.iter().map(|r| int(&r[0])).collect(),
            )?;
            for ((o, r), e) in d.rows.iter().zip(rows) {
                diff_bytes(&format!("{what} row at {o}"), &row_bytes(r)?, &bytes(&e[1]))?;
            }
            Ok(())
        }
        (PageContent::Index(x), "index") => {
            let ih = &v["ih"];
            want(
                &format!("{what} index unknown_a"),
                x.header.unknown_a as i64,
                int(&ih["ua"]),
            )?;
            want(
                &format!("{what} index unknown_b"),
                x.header.unknown_b as i64,
                int(&ih["ub"]),
            )?;
            want(
                &format!("{what} index next_offset"),
                x.header.next_offset as i64,
                int(&ih["no"]),
            )?;
            want(
                &format!("{what} index page_index"),
                x.header.page_index,
                raw_index(int(&ih["pi"])),
            )?;
            want(
                &format!("{what} index next_page"),
                x.header.next_page,
                raw_index(int(&ih["np"])),
            )?;
            want(
                &format!("{what} index first_empty"),
                x.header.first_empty as i64,
                int(&ih["fe"]),
            )?;
            let e = ints(&v["ents"]);
            want(
                &format!("{what} index num_entries"),
                x.header.num_entries as usize,
                e.len(),
            )?;
            want(&format!("{what} index entries"), x.entries.len(), e.len())?;
            for (g, e) in x.entries.iter().zip(e) {
                let (p, f) = (e >> 3, e & 7);
                want(
                    &format!("{what} index entry flags"),
                    g.index_flags() as i64,
                    f,
                )?;
                want(
                    &format!("{what} index entry empty"),
                    g.is_empty(),
                    e == 0x1FFF_FFF8,
                )?;
                if p < 0x03FF_FFFF {
                    want(
                        &format!("{what} index entry page"),
                        g.page_index().ok(),
                        Some(raw_index(p)),
                    )?;
                } else if g.page_index().is_ok() {
                    return Err(format!("{what} index entry: page number {p} accepted"));
                }
            }
            Ok(())
        }
        (_, k) => Err(format!("{what}: want a {k} page")),
    }
}

fn set_first_field(r: &mut Row, v: i64) -> Res {
    match r {
        Row::Plain(PlainRow::PlaylistEntry(e)) => e.entry_index = v as u32,
        Row::Plain(PlainRow::Menu(m)) => m.category_id = v as u16,
        r => return Err(format!("unexpected row variant {r:?}")),
    }
    Ok(())
}

/// An error that ends a traversal.
thread_local!(static SAW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// Take note of errors of the database.
fn saw<T, E>(r: Result<T, E>) -> Result<T, E> {
    if r.is_err() {
        SAW.set(true);
    }
    r
}

pub fn check_end(e: &RekordcrateError, kind: &str, at: i64) -> Res {
    let named = match e {
        RekordcrateError::PageOrderViolation(p) | RekordcrateError::PageNotPresent(p) => Some(*p),
        _ => None,
    };
    match kind {
        "order" | "absent" => match named {
            Some(p) if p == page_index(at) => Ok(()),
            _ => Err(format!(
                "the traversal ended with {e:?}, but the error must name page {at}"
            )),
        },
        "io" => Ok(()),
        "type" if matches!(e, RekordcrateError::IntegrityError(_)) => Ok(()),
        k => Err(format!("unexpected error {e:?} (want {k})")),
    }
}

fn rows_of<T: rekordcrate::pdb::RowVariant + BinWrite + 'static>(
    db: &mut Database<Store>,
    o: &Value,
    set: impl Fn(&mut T, i64),
) -> Res
where
    for<'a> <T as BinWrite>::Args<'a>: Default,
    T: binrw::meta::WriteEndian,
{
    let it = saw(db.iter_rows::<T>());
    let mut it = match (it, o["ok"] == true) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("row iteration failed to start: {e}")),
        (Ok(_), false) => {
            return Err("row iteration started, but the database has no such table".into())
        }
        (Ok(it), true) => it,
    };
    let mut got = Vec::new();
    let mut refs: Vec<&mut T> = Vec::new();
    let end = loop {
        match saw(it.next()) {
            Ok(Some(r)) => {
                let mut c = Cursor::new(Vec::new());
                r.write_options(&mut c, Endian::Little, Default::default())
                    .map_err(|e| e.to_string())?;
                got.push(c.into_inner());
                refs.push(r);
            }
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
        if got.len() > 5000 {
            return Err("row iteration does not end".into());
        }
    };
    if end.is_none() && !matches!(it.next(), Ok(None)) {
        return Err("a finished row iteration continues".into());
    }
    let exp: Vec<Vec<u8>> = arr(&o["rows"]).iter().map(bytes).collect();
    want("rows", got, exp)?;
    match (&end, str_of(&o["end"])) {
        (None, "end") => {}
        (None, k) => {
            return Err(format!(
                "the iteration ended normally, want {k} at {}",
                o["at"]
            ))
        }
        (Some(e), "end") => return Err(format!("the iteration failed: {e:?}")),
        (Some(e), k) => check_end(e, k, int(&o["at"]))?,
    }
    let m = int(&o["mod"]);
    if m > 0 {
        set(refs[m as usize - 1], int(&o["v"]));
    }
    Ok(())
}

pub fn check_header(db: &Database<Store>, v: &Value) -> Res {
    let h = db.get_header();
    want("header page_size", h.page_size as i64, int(&v["ps"]))?;
    want(
        "header next_unused_page",
        h.next_unused_page,
        page_index(int(&v["nu"])),
    )?;
    want("header unknown", h.unknown as i64, int(&v["unk"]))?;
    want("header sequence", h.sequence as i64, int(&v["seq"]))?;
    let t = arr(&v["tables"]);
    want("header num_tables", h.num_tables as usize, t.len())?;
    want("header tables", h.tables.len(), t.len())?;
    for (g, e) in h.tables.iter().zip(t) {
        want("table type", g.page_type, plain_type(int(&e["type"])))?;
        want(
            "table first page",
            g.first_page,
            page_index(int(&e["first"])),
        )?;
        want("table last page", g.last_page, page_index(int(&e["last"])))?;
    }
    Ok(())
}

fn make_row(t: i64, b: &[u8]) -> Result<Row, String> {
    let mut c = Cursor::new(b);
    match t {
        8 => PlaylistEntry::read(&mut c).map(|r| Row::Plain(PlainRow::PlaylistEntry(r))),
        17 => Menu::read(&mut c).map(|r| Row::Plain(PlainRow::Menu(r))),
        _ => return Err("harness: no such row".into()),
    }
    .map_err(|e| e.to_string())
}

fn step(db: &mut Option<Database<Store>>, st: &Store, o: &Value) -> Res {
    let ok = o["ok"] == true;
    let op = str_of(&o["op"]);
    match op {
        "open" => {
            let np = o["np"] == true;
            st.i.borrow_mut().read_only = np;
            let r = if np {
                saw(Database::open_non_persistent(
                    st.again(),
                    DatabaseType::Plain,
                ))
            } else {
                saw(Database::open(st.again(), DatabaseType::Plain))
            };
            match (r, ok) {
                (Ok(d), true) => {
                    let mut hdr = o["hdr"].clone();
                    let real = st.i.borrow().real;
                    if real > 0 {
                        hdr["ps"] = real.into();
                    }
                    check_header(&d, &hdr)?;
                    *db = Some(d);
                    Ok(())
                }
                (Err(_), false) => Ok(()),
                (Ok(_), false) => Err("open succeeded although the storage failed".into()),
                (Err(e), true) => Err(format!("open failed: {e}")),
            }
        }
        "drop" => {
            *db = None;
            Ok(())
        }
        "fault" => {
            let mut i = st.i.borrow_mut();
            i.kind = match str_of(&o["kind"]) {
                "r" => Kind::Read,
                "w" => Kind::Write,
                "s" => Kind::Sync,
                _ => Kind::All,
            };
            i.fault_page = number(int(&o["p"])) as u64;
            i.fault_at = int(&o["at"]);
            i.once = o["once"] == true;
            Ok(())
        }
        "heal" => {
            st.i.borrow_mut().kind = Kind::None;
            Ok(())
        }
        "close" => {
            let d = db.take().unwrap();
            match (saw(d.close()), ok) {
                (Ok(()), true) | (Err(_), false) => Ok(()),
                (Ok(()), false) => Err("close reported success although the storage failed".into()),
                (Err(e), true) => Err(format!("close failed: {e}")),
            }
        }
        _ => {
            let d = db.as_mut().expect("open database");
            match op {
                "load" => {
                    let p = int(&o["p"]);
                    match (saw(d.load_page(page_index(p))), ok) {
                        (Ok(pg), true) => check_page("loaded", pg, &o["page"]),
                        (Err(e), false) => match str_of(&o["e"]) {
                            "absent" => check_end(&e, "absent", p),
                            _ => Ok(()),
                        },
                        (Ok(_), false) => Err("load_page succeeded".into()),
                        (Err(e), true) => Err(format!("load_page failed: {e}")),
                    }
                }
                "pages" => {
                    let t = int(&o["t"]);
                    let it = if o["by"] == "index" {
                        saw(d.iter_pages_for_table(TableIndex::from(t as usize)))
                    } else {
                        saw(d.iter_pages(plain_type(t)))
                    };
                    let mut it = match (it, ok) {
                        (Err(e), false) => {
                            return match (&e, str_of(&o["by"])) {
                                (RekordcrateError::TableNotPresent(_), "index")
                                | (RekordcrateError::TableTypeNotPresent(_), "type") => Ok(()),
                                _ => Err(format!("missing table reported as {e:?}")),
                            }
                        }
                        (Err(e), true) => return Err(format!("traversal failed to start: {e}")),
                        (Ok(_), false) => return Err("traversal of a missing table started".into()),
                        (Ok(it), true) => it,
                    };
                    let n = int(&o["n"]);
                    let mut pages = Vec::new();
                    let end = loop {
                        if pages.len() as i64 >= n {
                            break Ok("stop");
                        }
                        if pages.len() > 5000 {
                            return Err("traversal does not end".into());
                        }
                        match saw(it.next()) {
                            Ok(Some(p)) => pages.push(p),
                            Ok(None) => break Ok("end"),
                            Err(e) => break Err(e),
                        }
                    };
                    // A traversal that ended stays ended.
                    if let Ok("end") = end {
                        if !matches!(it.next(), Ok(None)) {
                            return Err("a finished traversal continues".into());
                        }
                    }
                    // So does one that met a link it cannot follow.
                    if end.is_err()
                        && (o["end"] == "order" || o["end"] == "absent")
                        && (0..3).any(|_| matches!(it.next(), Ok(Some(_))))
                    {
                        return Err(
                            "a traversal continues behind the link that it cannot follow".into(),
                        );
                    }
                    let exp = arr(&o["pages"]);
                    let got: Vec<_> = pages.iter().map(|p| p.header.page_index).collect();
                    let exp_idx: Vec<_> = exp.iter().map(|p| page_index(int(&p["idx"]))).collect();
                    want("pages of the traversal", got, exp_idx)?;
                    for (p, e) in pages.iter().zip(exp) {
                        check_page("traversed", p, e)?;
                    }
                    let kind = str_of(&o["end"]);
                    match end {
                        // the last page asked for was also the last of the table
                        Ok("stop") if kind == "stop" || kind == "end" => {}
                        Ok(k) if k == kind => {}
                        Ok(k) => {
                            return Err(format!("traversal: got {k}, want {kind} at {}", o["at"]))
                        }
                        Err(e) => check_end(&e, kind, int(&o["at"]))?,
                    }
                    let set = int(&o["set"]);
                    if set >= 0 {
                        if let Some(p) = pages.last_mut() {
                            p.header.unknown1 = set as u32;
                        }
                    }
                    Ok(())
                }
                "rows" => match int(&o["t"]) {
                    8 => rows_of::<PlaylistEntry>(d, o, |r, v| r.entry_index = v as u32),
                    17 => rows_of::<Menu>(d, o, |r, v| r.category_id = v as u16),
                    3 => rows_of::<rekordcrate::pdb::Album>(d, o, |_, _| ()),
                    _ => Err("harness: row type".into()),
                },
                "setpage" => {
                    let pg =
                        saw(d.load_page(page_index(int(&o["p"])))).map_err(|e| e.to_string())?;
                    pg.header.unknown1 = int(&o["v"]) as u32;
                    Ok(())
                }
                "setrow" => {
                    let pg =
                        saw(d.load_page(page_index(int(&o["p"])))).map_err(|e| e.to_string())?;
                    let off = int(&o["off"]) as u16;
                    let row = pg
                        .content
                        .as_data_mut()
                        .and_then(|c| c.rows.get_mut(&off))
                        .ok_or("no such row in memory")?;
                    set_first_field(row, int(&o["v"]))
                }
                "alloc" => {
                    let pg =
                        saw(d.load_page(page_index(int(&o["p"])))).map_err(|e| e.to_string())?;
                    let row = bytes(&o["row"]);
                    let got = match pg.allocate_row(int(&o["n"]) as u16) {
                        None => false,
                        Some(fill) => {
                            if !row.is_empty() {
                                fill(make_row(int(&o["t"]), &row)?);
                            }
                            true
                        }
                    };
                    want("allocation granted", got, o["got"] == true)?;
                    check_page("allocated", pg, &o["after"])
                }
                "settab" => {
                    let t = &mut d.get_header_mut().tables[int(&o["t"]) as usize];
                    t.first_page = page_index(int(&o["first"]));
                    t.last_page = page_index(int(&o["last"]));
                    Ok(())
                }
                "sethdr" => {
                    let h = d.get_header_mut();
                    let v = int(&o["v"]);
                    match str_of(&o["f"]) {
                        "seq" => h.sequence = v as u32,
                        "nu" => h.next_unused_page = page_index(v),
                        "unk" => h.unknown = v as u32,
                        "add" => {
                            let mut t = h.tables[0].clone();
                            t.page_type = plain_type(v);
                            h.tables.push(t);
                            h.num_tables += 1;
                        }
                        "cut" => {
                            h.tables.pop();
                            h.num_tables -= 1;
                        }
                        f => return Err(format!("harness: unknown field {f}")),
                    }
                    Ok(())
                }
                "flush" => match (saw(d.flush()), ok) {
                    (Ok(()), true) | (Err(_), false) => Ok(()),
                    (Ok(()), false) => {
                        Err("flush reported success although the storage failed".into())
                    }
                    (Err(e), true) => Err(format!("flush failed: {e}")),
                },
                op => Err(format!("harness: unknown op {op}")),
            }
        }
    }
}

/// A step during which a use of the storage may fail: it then ends with an error, and can be done once more.
fn attempt(db: &mut Option<Database<Store>>, st: &Store, o: &Value) -> Result<bool, String> {
    let fired = st.i.borrow().fired;
    SAW.set(false);
    let r = step(db, st, o);
    let (now, once) = (st.i.borrow().fired && !fired, st.i.borrow().once);
    if !now {
        return r.map(|()| true);
    }
    if !SAW.get() {
        return if once {
            r.map(|()| true)
        } else {
            Err("success although the storage failed".into())
        };
    }
    st.i.borrow_mut().fail_use = u64::MAX;
    if o["op"] == "close" {
        return Ok(false); // nothing is left to close
    }
    step(db, st, o)
        .map(|()| true)
        .map_err(|e| format!("tried again with the storage working: {e}"))
}

pub fn replay(v: &Value) -> Res {
    let uses = run(v, None)?;
    if v["st"] == "uses" {
        let n = 40.min(uses);
        for i in 0..n {
            // spread over the history, at another place within each part in every history
            let at = i * uses / n + (uses * 7 + i * 13) % (uses / n);
            let once = i % 2 == 1;
            run(v, Some((at, once))).map_err(|e| {
                format!(
                    "use {} of the storage fails{}: {e}",
                    at + 1,
                    if once { " once" } else { "" }
                )
            })?;
        }
    }
    Ok(())
}

/// Replays the history, with a use of the storage failing. The number of uses.
fn run(v: &Value, fail: Option<(u64, bool)>) -> Result<u64, String> {
    let gap = ints(&v["gap"]);
    GAP.set(if gap.len() == 2 {
        (gap[0], gap[1])
    } else {
        (i64::MAX, 0)
    });
    let mut pages: Vec<Vec<u8>> = arr(&v["file"]).iter().map(bytes).collect();
    for (p, b) in pages.iter_mut().enumerate() {
        renumber(p, b);
    }
    let ps = pages[0].len();
    let mut base: Vec<u8> = pages.concat();
    // Pages of 16 MiB: positions beyond 32 bits from page 256 on.
    let real: u64 = if v["st"] == "stretch" { 1 << 24 } else { 0 };
    let resize = |b: &mut Vec<u8>| {
        if real > 0 {
            b[4..8].copy_from_slice(&(real as u32).to_le_bytes());
        }
    };
    resize(&mut base);
    let st = Store::new(base.clone(), ps as u64, v["st"] == "bits");
    {
        let mut i = st.i.borrow_mut();
        i.real = real;
        i.gap = (gap.len() == 2).then(|| (gap[0] as u64, gap[1] as u64));
        if let Some((at, once)) = fail {
            i.fail_use = at;
            i.once = once;
        }
    }
    let mut db: Option<Database<Store>> = None;
    let mut now = base.clone();
    for (i, o) in arr(&v["ops"]).iter().enumerate() {
        let writes = st.i.borrow().writes;
        if !attempt(&mut db, &st, o).map_err(|e| format!("step {} ({}): {e}", i + 1, o["op"]))? {
            break;
        }
        let inner = st.i.borrow();
        if inner.held && o["ok"] == true && (o["op"] == "flush" || o["op"] == "close") {
            return Err(format!(
                "step {} ({}): the storage may still hold back what was written",
                i + 1,
                o["op"]
            ));
        }
        if inner.spoiled {
            return Err(format!(
                "step {} ({}): wrote to unused space of a page",
                i + 1,
                o["op"]
            ));
        }
        if inner.violated {
            return Err(format!(
                "step {} ({}): a non-persistent database wrote to its storage",
                i + 1,
                o["op"]
            ));
        }
        let is_flush = o["op"] == "flush" || o["op"] == "close";
        if is_flush {
            if o["ok"] == true {
                let mut e = base.clone();
                for d in arr(&o["disk"]) {
                    let (p, mut b) = (int(&d[0]) as usize, bytes(&d[1]));
                    renumber(p, &mut b);
                    e[p * ps..(p + 1) * ps].copy_from_slice(&b);
                }
                resize(&mut e);
                diff_bytes(
                    &format!("step {}: storage after {}", i + 1, o["op"]),
                    &inner.data,
                    &e,
                )?;
            }
            now = inner.data.clone();
        } else {
            if inner.writes != writes {
                return Err(format!(
                    "step {} ({}): wrote to the storage",
                    i + 1,
                    o["op"]
                ));
            }
            diff_bytes(
                &format!("step {} ({}): storage", i + 1, o["op"]),
                &inner.data,
                &now,
            )?;
        }
    }
    let uses = st.i.borrow().uses;
    Ok(uses)
}
