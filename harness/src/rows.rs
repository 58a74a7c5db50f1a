//! Rows of databases: bytes in place -> row -> bytes in place, and rows laid out anew.
use crate::util::*;
use crate::{dbg, Res};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::ext::{ExtPageType, ExtRow};
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::util::MaybeCalculated;
use serde_json::Value;
use std::io::Cursor;

pub fn page_type(name: &str) -> Result<PageType, String> {
    use PlainPageType as P;
    Ok(PageType::Plain(match name {
        "Tracks" => P::Tracks,
        "Genres" => P::Genres,
        "Artists" => P::Artists,
        "Albums" => P::Albums,
        "Labels" => P::Labels,
        "Keys" => P::Keys,
        "Colors" => P::Colors,
        "PlaylistTree" => P::PlaylistTree,
        "PlaylistEntries" => P::PlaylistEntries,
        "HistoryPlaylists" => P::HistoryPlaylists,
        "HistoryEntries" => P::HistoryEntries,
        "Artwork" => P::Artwork,
        "Columns" => P::Columns,
        "Menu" => P::Menu,
        "History" => P::History,
        "Tag" => return Ok(PageType::Ext(ExtPageType::Tag)),
        "TrackTag" => return Ok(PageType::Ext(ExtPageType::TrackTag)),
        _ => return Err(format!("harness: no page type {name}")),
    }))
}

fn variant<T: RowVariant>(row: &mut Row, t: PageType, name: &str) -> Res {
    let want = T::PAGE_TYPE == t;
    if row.as_variant::<T>().is_some() != want || row.as_variant_mut::<T>().is_some() != want {
        return Err(format!("a row of {t:?} taken as {name}: {}", !want));
    }
    Ok(())
}

/// A row is one of its own variant and no other.
pub fn variants(row: &mut Row, t: PageType) -> Res {
    variant::<Album>(row, t, "Album")?;
    variant::<Artist>(row, t, "Artist")?;
    variant::<Artwork>(row, t, "Artwork")?;
    variant::<Color>(row, t, "Color")?;
    variant::<ColumnEntry>(row, t, "ColumnEntry")?;
    variant::<Genre>(row, t, "Genre")?;
    variant::<History>(row, t, "History")?;
    variant::<HistoryEntry>(row, t, "HistoryEntry")?;
    variant::<HistoryPlaylist>(row, t, "HistoryPlaylist")?;
    variant::<Key>(row, t, "Key")?;
    variant::<Label>(row, t, "Label")?;
    variant::<Menu>(row, t, "Menu")?;
    variant::<PlaylistEntry>(row, t, "PlaylistEntry")?;
    variant::<PlaylistTreeNode>(row, t, "PlaylistTreeNode")?;
    variant::<Track>(row, t, "Track")?;
    // The type constants themselves.
    let all = [
        (Album::PAGE_TYPE, "Albums"),
        (Artist::PAGE_TYPE, "Artists"),
        (Artwork::PAGE_TYPE, "Artwork"),
        (Color::PAGE_TYPE, "Colors"),
        (ColumnEntry::PAGE_TYPE, "Columns"),
        (Genre::PAGE_TYPE, "Genres"),
        (History::PAGE_TYPE, "History"),
        (HistoryEntry::PAGE_TYPE, "HistoryEntries"),
        (HistoryPlaylist::PAGE_TYPE, "HistoryPlaylists"),
        (Key::PAGE_TYPE, "Keys"),
        (Label::PAGE_TYPE, "Labels"),
        (Menu::PAGE_TYPE, "Menu"),
        (PlaylistEntry::PAGE_TYPE, "PlaylistEntries"),
        (PlaylistTreeNode::PAGE_TYPE, "PlaylistTree"),
        (Track::PAGE_TYPE, "Tracks"),
    ];
    for (c, n) in all {
        if c != page_type(n)? {
            return Err(format!("row type of {n} is {c:?}"));
        }
    }
    Ok(())
}

fn edit(row: &mut Row, ts: &[Value]) -> Res {
    let mut new = ts
        .iter()
        .map(|t| DeviceSQLString::new(&text(t)).map_err(|e| format!("text: {e}")));
    let mut next = || new.next().unwrap();
    match row {
        Row::Plain(PlainRow::Artist(r)) => {
            r.offsets.offsets = MaybeCalculated::Calculated;
            r.offsets.inner.name = next()?;
        }
        Row::Plain(PlainRow::Track(r)) => {
            r.offsets.offsets = MaybeCalculated::Calculated;
            r.offsets.inner.title = next()?;
            r.offsets.inner.file_path = next()?;
        }
        Row::Ext(ExtRow::Tag(r)) => {
            r.offsets.offsets = MaybeCalculated::Calculated;
            r.offsets.inner.name = next()?;
            r.offsets.inner.unknown = next()?;
        }
        r => return Err(format!("harness: cannot edit {r:?}")),
    }
    Ok(())
}

pub fn replay(v: &Value) -> Res {
    let t = page_type(str_of(&v["type"]))?;
    let b = bytes(&v["bytes"]);
    let at = int(&v["at"]) as u64;
    let read = |b: &[u8]| {
        let mut c = Cursor::new(b);
        c.set_position(at);
        Row::read_options(&mut c, Endian::Little, (t,))
    };
    let mut row = match (read(&b), v["ok"] == true) {
        (Err(_), false) => return Ok(()),
        (Err(e), true) => return Err(format!("reading failed: {e}")),
        (Ok(r), false) => {
            return Err(format!(
                "reading succeeded, but it must fail: {:.600}",
                format!("{r:?}")
            ))
        }
        (Ok(r), true) => r,
    };
    variants(&mut row, t)?;
    let debug = format!("{row:?}");
    let _ = format!("{row:#?}");
    let write = |r: &Row| {
        let mut c = Cursor::new(bytes(&v["over"]));
        c.set_position(at);
        r.write_options(&mut c, Endian::Little, ())
            .map(|()| c.into_inner())
    };
    let Some(ts) = v.get("edit") else {
        if let Some(t) = v.get("tree") {
            dbg::check("row", &debug, t)?;
        }
        let w = write(&row).map_err(|e| format!("writing failed: {e}"))?;
        return diff_bytes("written", &w, &bytes(&v["out"]));
    };
    edit(&mut row, arr(ts))?;
    match (write(&row), v["fits"] == true) {
        (Err(_), false) => Ok(()),
        (Ok(_), false) => Err("writing succeeded although the offsets do not fit".into()),
        (Err(e), true) => Err(format!("writing failed: {e}")),
        (Ok(w), true) => {
            diff_bytes("written anew", &w, &bytes(&v["out"]))?;
            let again = read(&w).map_err(|e| format!("reading the new row failed: {e}"))?;
            dbg::check("new row", &format!("{again:?}"), &v["tree"])
        }
    }
}
