// Helpers of the demonstrations.
#![allow(dead_code, unused_imports)]
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use std::cell::{Cell, RefCell};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const PS: usize = 256;
pub fn le(n: u32) -> Vec<u8> {
    n.to_le_bytes().to_vec()
}
pub fn short(s: &str) -> Vec<u8> {
    let mut v = vec![(((s.len() + 1) << 1) | 1) as u8];
    v.extend(s.as_bytes());
    v
}
/// tables: (type, first page, last page)
pub fn header(ps: usize, pages: u32, tables: &[(u32, u32, u32)]) -> Vec<u8> {
    let mut v = [le(0), le(ps as u32), le(tables.len() as u32), le(pages), le(5), le(1), le(0)].concat();
    for (t, f, l) in tables {
        v.extend([le(*t), le(0), le(*f), le(*l)].concat());
    }
    v.resize(ps, 0);
    v
}
/// rows: bytes and whether the row is present; rows are stored one behind the other at multiples of 4.
pub fn data(ps: usize, idx: u32, typ: u32, next: u32, rows: &[(Vec<u8>, bool)]) -> Vec<u8> {
    let nv = rows.iter().filter(|r| r.1).count() as u32;
    let rc = rows.len() as u32 | nv << 13;
    let mut heap = vec![];
    let mut offs = vec![];
    for (r, _) in rows {
        offs.push(heap.len() as u16);
        heap.extend(r);
        heap.resize(heap.len().next_multiple_of(4), 0);
    }
    let groups = rows.len().div_ceil(16);
    let used = heap.len();
    let free = ps - 40 - used - 4 * groups - 2 * rows.len();
    let mut v = [le(0), le(idx), le(typ), le(next), le(7), le(0)].concat();
    v.extend(&rc.to_le_bytes()[..3]);
    v.push(0x24);
    v.extend((free as u16).to_le_bytes());
    v.extend((used as u16).to_le_bytes());
    v.extend([1, 0, 0, 0, 0, 0, 0, 0]);
    v.extend(heap);
    assert!(v.len() <= ps - 4 * groups - 2 * rows.len());
    v.resize(ps, 0);
    for g in 0..groups {
        let end = ps - 36 * g;
        let mut flags = 0u16;
        for s in 0..16.min(rows.len() - 16 * g) {
            if rows[16 * g + s].1 {
                flags |= 1 << s;
            }
            v[end - 6 - 2 * s..end - 4 - 2 * s].copy_from_slice(&offs[16 * g + s].to_le_bytes());
        }
        v[end - 4..end - 2].copy_from_slice(&flags.to_le_bytes());
    }
    v
}
pub fn index(ps: usize, idx: u32, typ: u32, next: u32, ents: &[u32]) -> Vec<u8> {
    let mut v = [le(0), le(idx), le(typ), le(next), le(7), le(0)].concat();
    v.extend([0, 0, 0, 0x64, 0, 0, 0, 0]);
    v.extend([0xff, 0x1f, 0xff, 0x1f, 0xec, 0x03, 1, 0]);
    v.extend([le(idx), le(next)].concat());
    v.extend([0xff, 0xff, 0xff, 0x03, 0, 0, 0, 0]);
    v.extend((ents.len() as u16).to_le_bytes());
    v.extend([0xff, 0x1f]);
    for e in ents {
        v.extend(le(*e));
    }
    while v.len() + 4 <= ps - 20 {
        v.extend(le(0x1FFF_FFF8));
    }
    v.resize(ps, 0);
    v
}
/// Row of PlaylistEntries
pub fn entry(index: u32, track: u32, playlist: u32) -> Vec<u8> {
    [le(index), le(track), le(playlist)].concat()
}
/// Row of PlaylistTree
pub fn node(parent: u32, id: u32, folder: u32, name: &str) -> Vec<u8> {
    [le(parent), le(0), le(0), le(id), le(folder), short(name)].concat()
}
pub fn artist(id: u32, name: &str) -> Vec<u8> {
    [vec![0x60, 0, 0, 0], le(id), vec![3, 10], short(name)].concat()
}
pub fn track(id: u32, artist: u32, title: &str, path: &str) -> Vec<u8> {
    let mut v = vec![0x24, 0, 0, 0];
    v.resize(68, 0);
    v.extend(le(artist));
    v.extend(le(id));
    v.resize(94, 0);
    // magic, 21 offsets; the strings follow
    v[92..94].copy_from_slice(&[3, 0]);
    let base = 94 + 42;
    let mut offs = vec![];
    let mut tail = vec![];
    for i in 0..21 {
        offs.push((base + tail.len()) as u16);
        tail.extend(short(match i {
            17 => title,
            20 => path,
            _ => "",
        }));
    }
    for o in offs {
        v.extend(o.to_le_bytes());
    }
    v.extend(tail);
    v
}
pub const TRACKS: u32 = 0;
pub const ARTISTS: u32 = 2;
pub const TREE: u32 = 7;
pub const ENTRIES: u32 = 8;
pub fn open(b: &[u8]) -> Database<Cursor<Vec<u8>>> {
    Database::open(Cursor::new(b.to_vec()), DatabaseType::Plain).expect("open")
}
/// Storage that remains accessible, and whose calls can be made to fail.
#[derive(Clone)]
pub struct Store {
    pub data: Rc<RefCell<Cursor<Vec<u8>>>>,
    pub fail_read: Rc<Cell<bool>>,
    pub fail_write: Rc<Cell<bool>>,
    pub fail_seek: Rc<Cell<bool>>,
}
impl Store {
    pub fn new(b: Vec<u8>) -> Self {
        Store { data: Rc::new(RefCell::new(Cursor::new(b))), fail_read: Default::default(), fail_write: Default::default(), fail_seek: Default::default() }
    }
    pub fn content(&self) -> Vec<u8> {
        self.data.borrow().get_ref().clone()
    }
}
fn fail<T>(c: &Cell<bool>) -> std::io::Result<T> {
    let _ = c;
    Err(std::io::Error::other("injected"))
}
impl Read for Store {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.fail_read.get() {
            return fail(&self.fail_read);
        }
        self.data.borrow_mut().read(b)
    }
}
impl Write for Store {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.fail_write.get() {
            return fail(&self.fail_write);
        }
        self.data.borrow_mut().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Store {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.fail_seek.get() {
            return fail(&self.fail_seek);
        }
        self.data.borrow_mut().seek(p)
    }
}
/// A scratch directory.
pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new() -> Self {
        let p = std::env::temp_dir().join(format!("demo-{}-{:?}", std::process::id(), std::time::SystemTime::now()).replace([' ', '{', '}', ':'], ""));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Runs the command-line tool: exit status, output, error output.
pub fn tool(args: &[&str]) -> (Option<i32>, String, String) {
    let o = std::process::Command::new(std::env::var("TOOL").expect("TOOL")).args(args).output().expect("tool");
    (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}
/// A device: PIONEER/rekordbox/export.pdb with these tables, one page each.
pub fn device(dir: &Dir, ps: usize, nodes: &[Vec<u8>], entries: &[Vec<u8>], tracks: &[Vec<u8>], artists: &[Vec<u8>]) -> (std::path::PathBuf, Vec<u8>) {
    let p = |r: &[Vec<u8>]| r.iter().map(|x| (x.clone(), true)).collect::<Vec<_>>();
    let b = [
        header(ps, 5, &[(TREE, 1, 1), (ENTRIES, 2, 2), (TRACKS, 3, 3), (ARTISTS, 4, 4)]),
        data(ps, 1, TREE, 9, &p(nodes)),
        data(ps, 2, ENTRIES, 9, &p(entries)),
        data(ps, 3, TRACKS, 9, &p(tracks)),
        data(ps, 4, ARTISTS, 9, &p(artists)),
    ]
    .concat();
    let d = dir.0.join("dev");
    std::fs::create_dir_all(d.join("PIONEER/rekordbox")).unwrap();
    std::fs::write(d.join("PIONEER/rekordbox/export.pdb"), &b).unwrap();
    (d, b)
}
