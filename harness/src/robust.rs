//! Damaged files and unusual calls: everything is answered by a value or an error. A panic, an abort,
//! endless work or excessive memory brings the record down, and nothing else counts here.
use crate::util::*;
use crate::{pdb, Res};
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::anlz::{LenPrefixedWideString, ANLZ};
use rekordcrate::device::get_playlists;
use rekordcrate::pdb::ext::ExtPageType;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::setting::{Setting, SettingType};
use rekordcrate::util::TableIndex;
use rekordcrate::xml::Document;
use serde_json::Value;
use std::fmt::{Debug, Display, Write};
use std::io::Cursor;

/// Takes text and counts it.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
fn show(x: &impl Debug) {
    let _ = write!(Sink(0), "{x:?}");
    let _ = write!(Sink(0), "{x:#?}");
}
fn say(x: &impl Display) {
    let _ = write!(Sink(0), "{x}");
}
fn seen<T: Debug, E: Debug + Display>(r: &Result<T, E>) {
    match r {
        Ok(x) => show(x),
        Err(e) => {
            show(e);
            say(e);
        }
    }
}

fn content(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.clone().into_bytes(),
        v => bytes(v),
    }
}

fn damage(v: &Value) -> Vec<u8> {
    let mut b = content(&v["base"]);
    for o in arr(&v["ops"]) {
        let at = (int(&o["at"]) as usize).min(b.len());
        let del = (int(&o["del"]) as usize).min(b.len() - at);
        let ins = content(&o["ins"]).repeat(int(&o["rep"]) as usize);
        b.splice(at..at + del, ins);
    }
    b
}

fn use_page(p: &mut Page) {
    show(p);
    match &p.content {
        PageContent::Data(d) => {
            let mut w = Cursor::new(Vec::new());
            for r in d.rows.values() {
                seen(&r.write_options(&mut w, Endian::Little, ()));
            }
        }
        PageContent::Index(x) => {
            for e in &x.entries {
                seen(&e.page_index());
                say(&e.index_flags());
                say(&e.is_empty());
            }
        }
    }
}

fn fill_page(p: &mut Page) {
    let row = PlainRow::PlaylistEntry(PlaylistEntry {
        entry_index: 1,
        track_id: TrackId(2),
        playlist_id: PlaylistTreeNodeId(3),
    });
    for n in [0, 1, 12, 65532, u16::MAX, 12, 12, 12] {
        if let Some(put) = p.allocate_row(n) {
            put(Row::Plain(row.clone()));
        }
    }
    // Space that was asked for, but not used.
    let _ = p.allocate_row(8).is_some();
    if let Some(put) = p.allocate_row(12) {
        put(Row::Plain(row.clone()));
    }
}

const SIZE: usize = 20_000;

fn use_db(b: &[u8], db_type: DatabaseType) {
    let mut db = match Database::open_non_persistent(Cursor::new(b), db_type) {
        Ok(db) => db,
        Err(e) => {
            show(&e);
            return say(&e);
        }
    };
    show(&db);
    show(db.get_header());
    let tables = db.get_header().tables.len();
    let types: Vec<PageType> = db.get_header().tables.iter().map(|t| t.page_type).collect();
    let limit = b.len() / 8 + 10;
    for t in 0..tables + 2 {
        let mut n = 0;
        let r = db.iter_pages_for_table(TableIndex::from(t)).and_then(|it| {
            it.take(limit + 1).for_each(|p| {
                n += 1;
                if n < 300 {
                    use_page(p);
                }
                Ok(())
            })
        });
        seen(&r);
        assert!(n <= limit, "a table of {n} pages and more");
    }
    for t in types.into_iter().chain([
        PageType::Plain(PlainPageType::Tracks),
        PageType::Ext(ExtPageType::Tag),
        PageType::Unknown(77),
    ]) {
        seen(&db.iter_pages(t).and_then(|it| it.take(limit).count()));
        say(&db.get_header().find_table(t).is_some());
    }
    macro_rules! rows {
        ($($t:ty),*) => {$(
            let r = db.iter_rows::<$t>().and_then(|it| it.for_each(|r| { show(r); Ok(()) }));
            seen(&r);
        )*};
    }
    rows!(
        Album,
        Artist,
        Artwork,
        Color,
        Genre,
        HistoryPlaylist,
        HistoryEntry,
        History,
        Key,
        Label,
        PlaylistTreeNode,
        PlaylistEntry,
        ColumnEntry,
        Menu,
        Track
    );
    seen(&get_playlists(&mut db));
    for i in (0..20).chain([0x03FF_FFFE, 0x03FF_FFFF, u32::MAX as i64]) {
        match db.load_page(pdb::page_index(i)) {
            Ok(p) => {
                let mut q = p.clone();
                fill_page(&mut q);
                show(&q);
            }
            e => seen(&e),
        }
    }
    show(&db);
    // Written back, unchanged and with new rows. The header page is written as a whole, however large it is.
    if db.get_header().page_size > 1 << 20 {
        return;
    }
    for fill in [false, true] {
        let mut db = match Database::open(Cursor::new(b.to_vec()), db_type) {
            Ok(db) => db,
            Err(e) => return say(&e),
        };
        for i in 0..12 {
            if let Ok(p) = db.load_page(pdb::page_index(i)) {
                if fill {
                    fill_page(p);
                }
            }
        }
        seen(&db.flush());
        seen(&db.close());
    }
}

fn anlz(b: &[u8]) {
    let r = ANLZ::read(&mut Cursor::new(b));
    seen(&r);
    if let Ok(x) = r {
        seen(&x.write(&mut Cursor::new(Vec::new())));
    }
}

fn setting(b: &[u8]) {
    for t in [
        SettingType::DevSetting,
        SettingType::DJMMySetting,
        SettingType::MySetting,
        SettingType::MySetting2,
    ] {
        let r = Setting::read_args(&mut Cursor::new(b), (t,));
        seen(&r);
        if let Ok(x) = r {
            seen(&x.write(&mut Cursor::new(Vec::new())));
        }
    }
}

fn xml(b: &[u8]) {
    let r = quick_xml::de::from_reader::<_, Document>(std::io::BufReader::with_capacity(100, b));
    seen(&r);
    let s = String::from_utf8_lossy(b);
    let r = quick_xml::de::from_str::<Document>(&s);
    seen(&r);
    if let Ok(x) = r {
        say(&(x == x.clone()));
        seen(&quick_xml::se::to_string(&x));
    }
}

fn tool(fmt: &str, name: &str, b: &[u8]) -> Res {
    let check = |file: &str, args: &[&str]| -> Res {
        let r = crate::device::with_file(file, b, args)?;
        match r.rc {
            Some(0 | 1) if !r.err.contains("panicked") => Ok(()),
            Some(2) => Err(format!(
                "harness: {args:?} is no call of the tool: {:.300}",
                r.err
            )),
            rc => Err(format!("{args:?} ends with {rc:?}: {:.500}", r.err)),
        }
    };
    match fmt {
        "pdb" => {
            check(
                "x.pdb",
                &[
                    "dump-pdb",
                    "--db-type",
                    if name == "ext" { "ext" } else { "plain" },
                    "@",
                ],
            )?;
            check("x.pdb", &["list-playlists", "@"])?;
            check(
                "PIONEER/rekordbox/export.pdb",
                &["export-playlists", ".", "out"],
            )?;
            check("export.pdb", &["dump-pdb", "@"])
        }
        "anlz" => check("ANLZ0000.DAT", &["dump-anlz", "@"]),
        "setting" => {
            let n = match name {
                "DevSetting" => "DEVSETTING.DAT",
                "DJMMySetting" => "DJMMYSETTING.DAT",
                "MySetting" => "MYSETTING.DAT",
                _ => "MYSETTING2.DAT",
            };
            check(n, &["dump-setting", "@"])?;
            check(&format!("PIONEER/{n}"), &["list-settings", "."])
        }
        _ => check("rekordbox.xml", &["dump-xml", "@"]),
    }
}

fn data_page(size: u32) -> Page {
    // An empty page, as the reader sees it.
    let mut b = vec![0; size as usize];
    b[4] = 1;
    b[8] = 8;
    b[12] = 2;
    b[27] = 0x24;
    b[28..30].copy_from_slice(&((size - 40) as u16).to_le_bytes());
    Page::read_options(
        &mut Cursor::new(b),
        Endian::Little,
        (size, DatabaseType::Plain),
    )
    .expect("harness: an empty page")
}

fn call(name: &str, n: &str) -> Res {
    let n: u128 = n.parse().expect("harness: a number");
    let (n32, n64) = (n as u32, n as u64);
    let len = (n as usize).min(200_000);
    let small = len.min(70_000);
    match name {
        "load_page" | "table" => {
            let mut b = vec![0; 4096];
            b[4..8].copy_from_slice(&4096u32.to_le_bytes());
            b[12] = 1;
            let mut db = Database::open(Cursor::new(b), DatabaseType::Plain)
                .map_err(|e| format!("harness: {e}"))?;
            if name == "load_page" {
                seen(&db.load_page(pdb::page_index(n32 as i64)));
                seen(&PageIndex::try_from(n32));
            } else {
                let r = db
                    .iter_pages_for_table(TableIndex::from(n64 as usize))
                    .and_then(|p| p.count());
                seen(&r);
                seen(
                    &db.iter_pages(PageType::Unknown(n32))
                        .and_then(|p| p.count()),
                );
            }
            seen(&db.flush());
        }
        "allocate" => {
            for size in [1024, 4096, 65536 - 4096] {
                let mut p = data_page(size);
                let r = p.allocate_row(n as u16).is_some();
                say(&r);
                show(&p);
                seen(&p.write_options(&mut Cursor::new(Vec::new()), Endian::Little, (size,)));
            }
        }
        "repeat_allocate" => {
            let mut p = data_page(4096);
            for _ in 0..small.min(5000) {
                if let Some(put) = p.allocate_row(12) {
                    put(Row::Plain(PlainRow::PlaylistEntry(PlaylistEntry {
                        entry_index: 1,
                        track_id: TrackId(2),
                        playlist_id: PlaylistTreeNodeId(3),
                    })));
                }
            }
            show(&p);
            seen(&p.write_options(&mut Cursor::new(Vec::new()), Endian::Little, (4096,)));
        }
        "page_offset" => {
            if let Ok(p) = PageIndex::try_from(n32) {
                [0, 1, 4096, n32, u32::MAX]
                    .iter()
                    .for_each(|s| say(&p.offset(*s)));
            }
        }
        "index_entry" => {
            let e = IndexEntry::read_le(&mut Cursor::new(n32.to_le_bytes()))
                .map_err(|e| e.to_string())?;
            show(&e);
            seen(&e.page_index());
            say(&e.index_flags());
            if let Ok(p) = PageIndex::try_from(n32) {
                for f in [0, 7, 8, n as u8] {
                    seen(&IndexEntry::try_from((p, f)));
                }
            }
        }
        "text_ascii" | "text_wide" => {
            let t = if name == "text_ascii" { "a" } else { "\u{e9}" }.repeat(len);
            let s = DeviceSQLString::new(&t);
            seen(&s);
            if let Ok(s) = s {
                say(&s);
                seen(&s.write(&mut Cursor::new(Vec::new())));
                seen(&s.into_string());
            }
        }
        "isrc" => {
            for t in ["A".repeat(small), "\u{e9}".repeat(small)] {
                let s = DeviceSQLString::new_isrc(t);
                seen(&s);
                if let Ok(s) = s {
                    seen(&s.write(&mut Cursor::new(Vec::new())));
                }
            }
        }
        "setting_text" => {
            let mut s = Setting::default_devsetting();
            for t in ["a".repeat(len), "\0".repeat(small), "\u{e9}".repeat(small)] {
                s.brand = binrw::NullString(t.into_bytes());
                show(&s);
                seen(&s.write(&mut Cursor::new(Vec::new())));
            }
        }
        "path_text" | "comment_text" => {
            let t = if name == "path_text" {
                "/"
            } else {
                "\u{1f600}"
            }
            .repeat(len);
            let t = LenPrefixedWideString(t);
            say(&t.byte_len());
            let mut w = Cursor::new(Vec::new());
            seen(&t.write_options(&mut w, Endian::Big, ()));
        }
        _ => return Err(format!("harness: no call {name}")),
    }
    Ok(())
}

pub fn replay(v: &Value) -> Res {
    let (fmt, name) = (str_of(&v["fmt"]), str_of(&v["name"]));
    if fmt == "call" {
        return call(name, str_of(&v["n"]));
    }
    let b = damage(v);
    match fmt {
        "pdb" => {
            use_db(&b[..b.len().min(SIZE)], DatabaseType::Plain);
            use_db(&b[..b.len().min(SIZE)], DatabaseType::Ext);
        }
        "anlz" => anlz(&b),
        "setting" => setting(&b),
        "xml" => xml(&b),
        _ => return Err(format!("harness: no format {fmt}")),
    }
    if v["tool"] == true {
        tool(fmt, name, &b)?;
    }
    Ok(())
}
