//! Tables of every type: replays MCKinds.tla.
use crate::pages::db_type;
use crate::pdb::page_index;
use crate::rows::page_type;
use crate::store::Store;
use crate::util::*;
use crate::{dbg, Res};
use binrw::{BinRead, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::RekordcrateError;
use serde_json::Value;
use std::fmt::Debug;
use std::io::{Cursor, Read, Seek};

/// What the messages of operations that ended with an error start with.
const FAILED: &str = "ended with an error: ";

fn iterate<R: Read + Seek, T: RowVariant + Debug>(db: &mut Database<R>, o: &Value) -> Res {
    let mut it = match (db.iter_rows::<T>(), o["ok"] == true) {
        (Ok(it), true) => it,
        (Err(RekordcrateError::TableTypeNotPresent(t)), false) if t == T::PAGE_TYPE => {
            return Ok(())
        }
        (Err(e), false) => return Err(format!("wrong error {e}")),
        (Ok(_), false) => return Err("rows of a type that has no table were iterated".into()),
        (Err(e), true) => return Err(format!("{FAILED}{e}")),
    };
    let mut rows: Vec<&mut T> = vec![];
    let end = loop {
        match it.next() {
            Ok(Some(r)) => rows.push(r),
            Ok(None) => break None,
            Err(e) => break Some(e),
        }
    };
    if let Some(e) = end
        .as_ref()
        .filter(|e| !matches!(e, RekordcrateError::IntegrityError(_)))
    {
        return Err(format!("{FAILED}{e}"));
    }
    let exp = arr(&o["rows"]);
    if rows.len() != exp.len() {
        return Err(format!("{} rows instead of {}", rows.len(), exp.len()));
    }
    for (r, e) in rows.iter().zip(exp) {
        dbg::check("row", &format!("{r:?}"), e)?;
    }
    match (end, o["all"] == true) {
        (None, true) => (),
        (Some(RekordcrateError::IntegrityError(_)), false) => (),
        (Some(e), _) => return Err(format!("{FAILED}{e}")),
        (None, false) => return Err("rows of another type were passed over".into()),
    }
    if let [a, b] = ints(&o["swap"])[..] {
        let (l, r) = rows.split_at_mut(b as usize - 1);
        std::mem::swap(&mut *l[a as usize - 1], &mut *r[0]);
    }
    Ok(())
}

fn step<R: Read + Seek>(db: &mut Database<R>, kind: DatabaseType, o: &Value) -> Res {
    match str_of(&o["op"]) {
        "rows" => match str_of(&o["t"]) {
            "Tracks" => iterate::<R, Track>(db, o),
            "Genres" => iterate::<R, Genre>(db, o),
            "Artists" => iterate::<R, Artist>(db, o),
            "Albums" => iterate::<R, Album>(db, o),
            "Labels" => iterate::<R, Label>(db, o),
            "Keys" => iterate::<R, Key>(db, o),
            "Colors" => iterate::<R, Color>(db, o),
            "PlaylistTree" => iterate::<R, PlaylistTreeNode>(db, o),
            "PlaylistEntries" => iterate::<R, PlaylistEntry>(db, o),
            "HistoryPlaylists" => iterate::<R, HistoryPlaylist>(db, o),
            "HistoryEntries" => iterate::<R, HistoryEntry>(db, o),
            "Artwork" => iterate::<R, Artwork>(db, o),
            "Columns" => iterate::<R, ColumnEntry>(db, o),
            "Menu" => iterate::<R, Menu>(db, o),
            "History" => iterate::<R, History>(db, o),
            t => Err(format!("harness: no rows of {t}")),
        },
        "pages" => {
            let ty = |w: &Value| {
                PageType::read_options(&mut Cursor::new(bytes(w)), Endian::Little, (kind,))
                    .map_err(|e| e.to_string())
            };
            let t = ty(&o["w"])?;
            let it = match (db.iter_pages(t), o["ok"] == true) {
                (Ok(it), true) => it,
                (Err(RekordcrateError::TableTypeNotPresent(x)), false) if x == t => return Ok(()),
                (Err(e), _) => return Err(format!("{FAILED}{e}")),
                (Ok(_), false) => return Err("pages of a type that has no table".into()),
            };
            let pages: Vec<&mut Page> = it.collect().map_err(|e| format!("{FAILED}{e}"))?;
            let exp = arr(&o["got"]);
            if pages.len() != exp.len() {
                return Err(format!("{} pages instead of {}", pages.len(), exp.len()));
            }
            for (p, e) in pages.into_iter().zip(exp) {
                if p.header.page_index != page_index(int(&e["pi"]))
                    || p.header.page_type != ty(&e["pt"])?
                {
                    return Err(format!(
                        "page {:?} of {:?} instead of {}",
                        p.header.page_index, p.header.page_type, e["pi"]
                    ));
                }
                let rows = arr(&e["rows"]);
                match (p.content.as_data(), e["index"] == true) {
                    (None, true) => (),
                    (Some(d), false) => {
                        let offs: Vec<i64> = d.rows.keys().map(|&k| k.into()).collect();
                        let want: Vec<i64> = rows.iter().map(|r| int(&r["off"])).collect();
                        if offs != want {
                            return Err(format!(
                                "page {}: rows at {offs:?} instead of {want:?}",
                                e["pi"]
                            ));
                        }
                        for (r, e) in d.rows.values().zip(rows) {
                            dbg::check("row", &format!("{r:?}"), &e["tree"])?;
                        }
                    }
                    _ => {
                        return Err(format!(
                            "page {}: data instead of index or the other way round",
                            e["pi"]
                        ))
                    }
                }
            }
            Ok(())
        }
        "swap" => {
            let page = db
                .load_page(page_index(int(&o["p"])))
                .map_err(|e| format!("{FAILED}{e}"))?;
            let rows = &mut page.content.as_data_mut().ok_or("no data page")?.rows;
            let (a, b) = (int(&o["a"]) as u16, int(&o["b"]) as u16);
            let x = rows.get(&a).ok_or("no row at the first offset")?.clone();
            let y = rows.insert(b, x).ok_or("no row at the second offset")?;
            rows.insert(a, y);
            Ok(())
        }
        "end" => Ok(()),
        x => Err(format!("harness: no operation {x}")),
    }
}

fn all<R: Read + Seek>(db: &mut Database<R>, v: &Value) -> Res {
    for (i, o) in arr(&v["ops"]).iter().enumerate() {
        step(db, db_type(&v["db"]), o)
            .map_err(|e| format!("step {} ({} {}{}): {e}", i + 1, o["op"], o["t"], o["w"]))?;
    }
    Ok(())
}

/// Run something once more if it fails the way it may while the storage fails.
fn attempt<T>(
    store: &Store,
    what: &str,
    mut f: impl FnMut() -> Result<T, String>,
) -> Result<T, String> {
    let (fired, lasting) = {
        let i = store.i.borrow();
        (i.fired, !i.once)
    };
    let first = f();
    let mut i = store.i.borrow_mut();
    let now = i.fired && !fired;
    match first {
        Ok(_) if now && lasting => Err(format!("{what}: success although the storage failed")),
        Err(e) if now && e.starts_with(FAILED) => {
            i.fail_use = u64::MAX;
            drop(i);
            f().map_err(|e| format!("{what}, tried again with the storage working: {e}"))
        }
        r => r.map_err(|e| format!("{what}: {e}")),
    }
}

/// The whole history with the `n`-th use of the storage failing. The number of uses there were.
fn failing(
    v: &Value,
    data: &[u8],
    want: &[u8],
    n: u64,
    once: bool,
    bits: bool,
) -> Result<u64, String> {
    let kind = db_type(&v["db"]);
    let store = Store::new(data.to_vec(), int(&v["ps"]) as u64, bits);
    {
        let mut i = store.i.borrow_mut();
        i.fail_use = n;
        i.once = once;
    }
    let mut db = attempt(&store, "opening", || {
        Database::open(store.again(), kind).map_err(|e| format!("{FAILED}{e}"))
    })?;
    for (i, o) in arr(&v["ops"]).iter().enumerate() {
        attempt(&store, &format!("step {}", i + 1), || {
            step(&mut db, kind, o)
        })?;
    }
    attempt(&store, "flushing", || {
        db.flush().map_err(|e| format!("{FAILED}{e}"))
    })?;
    let uses = {
        let i = store.i.borrow();
        diff_bytes("storage after flushing", &i.data, want)?;
        i.uses
    };
    attempt(&store, "closing", || {
        db.flush().map_err(|e| format!("{FAILED}{e}"))
    })?;
    diff_bytes("storage after closing", &store.i.borrow().data, want)?;
    Ok(uses)
}

pub fn replay(v: &Value) -> Res {
    let mut data = bytes(&v["file"]);
    let kind = db_type(&v["db"]);
    let ps = int(&v["ps"]) as usize;
    let mut want = data.clone();
    for d in arr(&v["out"]) {
        let p = int(&d[0]) as usize;
        want[p * ps..(p + 1) * ps].copy_from_slice(&bytes(&d[1]));
    }
    if v["faults"] == true {
        let uses = failing(v, &data, &want, u64::MAX, false, false)?;
        failing(v, &data, &want, u64::MAX, false, true)
            .map_err(|e| format!("transfers in bits: {e}"))?;
        for n in 0..uses {
            for once in [false, true] {
                failing(v, &data, &want, n, once, false).map_err(|e| {
                    format!(
                        "use {} of the storage fails{}: {e}",
                        n + 1,
                        if once { " once" } else { "" }
                    )
                })?;
            }
        }
    }
    // The same without ever writing ...
    let mut copy = data.clone();
    let mut db = Database::open_non_persistent(Cursor::new(&mut copy), kind)
        .map_err(|e| format!("opening failed: {e}"))?;
    all(&mut db, v)?;
    drop(db);
    diff_bytes("storage of the non-persistent database", &copy, &data)?;
    // ... and with a flush at the end.
    let mut db =
        Database::open(Cursor::new(&mut data), kind).map_err(|e| format!("opening failed: {e}"))?;
    all(&mut db, v)?;
    db.close().map_err(|e| format!("closing failed: {e}"))?;
    diff_bytes("storage after closing", &data, &want)
}
