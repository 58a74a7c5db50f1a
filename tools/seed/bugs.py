"""Changes that break a property: id, property, edits (file, old, new), what they need, what they break, demonstration (body of main)."""
IO, MOD, DEV, ANLZ, SET, XML, OFF, STR, BITS, UTIL, MAIN = ("src/pdb/io.rs", "src/pdb/mod.rs", "src/device.rs", "src/anlz.rs", "src/setting.rs", "src/xml.rs",
    "src/pdb/offset_array.rs", "src/pdb/string.rs", "src/pdb/bitfields.rs", "src/util.rs", "src/main.rs")
B = []


def bug(id, prop, edits, needs, breaks, demo):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-back-link", "C01", [(IO, """                    .checked_sub(self.db_pages_offset)
                    .ok_or(RekordcrateError::PageOrderViolation(page_index))?;""", """                    .saturating_sub(self.db_pages_offset);""")],
    "a page whose next-page link leads to itself or to a lower page number",
    "the traversal goes on with whatever page follows instead of reporting the violated order",
    """
    let b = [header(PS, 4, &[(ENTRIES, 1, 3)]), data(PS, 1, ENTRIES, 2, &[(entry(1, 1, 1), true)]), data(PS, 2, ENTRIES, 1, &[(entry(2, 2, 1), true)]), data(PS, 3, TRACKS, 9, &[])].concat();
    let mut db = open(&b);
    let mut it = db.iter_pages_for_table(0.into()).unwrap();
    it.next().unwrap().unwrap();
    it.next().unwrap().unwrap();
    assert!(it.next().is_err());
    """)
bug("c01-past-last", "C01", [(IO, "if page_index == self.last_page {", "if page_index >= self.last_page {")],
    "a chain that jumps over the last page of its table",
    "the traversal ends as if the table was complete instead of reporting that the chain does not reach its last page",
    """
    let b = [header(PS, 4, &[(ENTRIES, 1, 2)]), data(PS, 1, ENTRIES, 3, &[(entry(1, 1, 1), true)]), data(PS, 2, ENTRIES, 9, &[(entry(2, 2, 1), true)]), data(PS, 3, ENTRIES, 9, &[(entry(3, 2, 1), true)])].concat();
    let mut db = open(&b);
    let mut it = db.iter_pages_for_table(0.into()).unwrap();
    it.next().unwrap().unwrap();
    let r = it.next().and_then(|_| it.next());
    assert!(r.is_err(), "the chain never reached page 2");
    """)
bug("c02-reload-index", "C02", [(IO, """                if let LazyPage::NotLoaded = page_entry {
                    let page = read_page(self.db_io, page_index, self.db_page_size, self.db_type)?;""",
    """                // Index pages are cheap to parse, so only data pages are kept in memory.
                if !matches!(page_entry, LazyPage::Loaded(page) if page.content.as_data().is_some()) {
                    let page = read_page(self.db_io, page_index, self.db_page_size, self.db_type)?;""")],
    "an index page that is changed in memory and then traversed again before the flush",
    "the traversal reads the index page again, the change is lost",
    """
    let b = [header(PS, 3, &[(ENTRIES, 1, 2)]), index(PS, 1, ENTRIES, 2, &[16]), data(PS, 2, ENTRIES, 9, &[(entry(1, 1, 1), true)])].concat();
    let mut db = open(&b);
    db.load_page(1.try_into().unwrap()).unwrap().header.unknown1 = 77;
    let n = db.iter_rows::<PlaylistEntry>().unwrap().count().unwrap();
    assert_eq!(n, 1);
    assert_eq!(db.load_page(1.try_into().unwrap()).unwrap().header.unknown1, 77);
    """)
bug("c02-reload-moved", "C02", [(IO, "        if let LazyPage::NotLoaded = page_entry {\n            let page = read_page(\n                &mut self.io,",
    "        if !matches!(page_entry, LazyPage::Loaded(page) if page.header.page_index == index) {\n            let page = read_page(\n                &mut self.io,")],
    "a page whose stored page index differs from its position, changed in memory and loaded again",
    "load_page reads such a page from the storage every time, so that changes are lost",
    """
    let b = [header(PS, 3, &[(ENTRIES, 1, 2)]), data(PS, 1, ENTRIES, 2, &[]), data(PS, 9, ENTRIES, 9, &[(entry(1, 1, 1), true)])].concat();
    let mut db = open(&b);
    db.load_page(2.try_into().unwrap()).unwrap().header.unknown1 = 77;
    assert_eq!(db.load_page(2.try_into().unwrap()).unwrap().header.unknown1, 77);
    """)
bug("c03-close-clean", "C03", [(IO, """        self.flush()?;
        Ok(())
    }
}""", """        // There is nothing to write if no page was loaded.
        if self.content.pages.contains(&LazyPage::NotLoaded) && !self.content.pages.iter().any(|page| matches!(page, LazyPage::Loaded(_))) {
            return Ok(());
        }
        self.flush()?;
        Ok(())
    }
}""")],
    "a change to the header only, without any page loaded, followed by close",
    "closing the database loses the changed header",
    """
    let s = Store::new([header(PS, 2, &[(ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[])].concat());
    let mut db = Database::open(s.clone(), DatabaseType::Plain).unwrap();
    db.get_header_mut().sequence = 500;
    db.close().unwrap();
    assert_eq!(open(&s.content()).get_header().sequence, 500);
    """)
bug("c03-stored-index", "C03", [(IO, "            LazyPage::Loaded(page) => page.write_options(writer, endian, (page_size,)),",
    """            LazyPage::Loaded(page) => {
                let end = writer.stream_position()? + u64::from(page_size);
                writer.seek(SeekFrom::Start(page.header.page_index.offset(page_size)))?;
                page.write_options(writer, endian, (page_size,))?;
                writer.seek(SeekFrom::Start(end))?;
                Ok(())
            }""")],
    "a loaded page whose stored page index is not its position in the file",
    "flushing writes the page over another one",
    """
    let s = Store::new([header(PS, 4, &[(ENTRIES, 1, 3)]), data(PS, 1, ENTRIES, 2, &[(entry(1, 1, 1), true)]), data(PS, 1, ENTRIES, 3, &[(entry(2, 2, 2), true)]), data(PS, 3, ENTRIES, 9, &[])].concat());
    let before = s.content();
    let mut db = Database::open(s.clone(), DatabaseType::Plain).unwrap();
    db.load_page(2.try_into().unwrap()).unwrap();
    db.close().unwrap();
    assert_eq!(s.content(), before);
    """)
bug("c04-seek-error", "C04", [(IO, "        self.io.seek(SeekFrom::Start(0))?;\n", "        let _ = self.io.rewind();\n")],
    "a seek that fails at the start of a flush while later ones succeed",
    "the header is written to the middle of the file and success is reported",
    """
    struct Once(Store, bool);
    impl Read for Once { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
    impl Write for Once { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    impl Seek for Once {
        fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
            if self.0.fail_seek.get() { self.0.fail_seek.set(false); return Err(std::io::Error::other("injected")); }
            self.0.seek(p)
        }
    }
    let s = Store::new([header(PS, 2, &[(ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[])].concat());
    let mut db = Database::open(Once(s.clone(), false), DatabaseType::Plain).unwrap();
    db.load_page(1.try_into().unwrap()).unwrap();
    s.fail_seek.set(true);
    assert!(db.flush().is_err());
    """)
bug("c04-failed-flush", "C04", [(IO, "        self.content.write_options(&mut self.io, endian, ())?;\n        Ok(())",
    """        let result = self.content.write_options(&mut self.io, endian, ());
        // Everything is stored now, release the memory.
        self.content.pages.fill(LazyPage::NotLoaded);
        result?;
        Ok(())""")],
    "a flush that fails because the storage reports an error, followed by another attempt",
    "the changes in memory are gone after the failed flush",
    """
    let s = Store::new([header(PS, 2, &[(ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[(entry(1, 1, 1), true)])].concat());
    let mut db = Database::open(s.clone(), DatabaseType::Plain).unwrap();
    db.iter_rows::<PlaylistEntry>().unwrap().for_each(|e| { e.entry_index = 9; Ok(()) }).unwrap();
    s.fail_write.set(true);
    assert!(db.flush().is_err());
    s.fail_write.set(false);
    db.close().unwrap();
    assert_eq!(open(&s.content()).iter_rows::<PlaylistEntry>().unwrap().next().unwrap().unwrap().entry_index, 9);
    """)
bug("c05-stop-at-empty", "C05", [(IO, "            .filter_map(|page| Ok(page.content.as_data_mut()))\n",
    """            // Pages without rows can only follow the ones that are in use.
            .take_while(|page| Ok(page.content.as_data().is_none_or(|dpc| !dpc.rows.is_empty())))
            .filter_map(|page| Ok(page.content.as_data_mut()))
""")],
    "a table with a page in the middle from which all rows were deleted",
    "the rows of the pages behind it are not listed",
    """
    let b = [header(PS, 4, &[(ENTRIES, 1, 3)]), data(PS, 1, ENTRIES, 2, &[(entry(1, 1, 1), true)]), data(PS, 2, ENTRIES, 3, &[(entry(2, 2, 1), false)]), data(PS, 3, ENTRIES, 9, &[(entry(3, 3, 1), true)])].concat();
    assert_eq!(open(&b).iter_rows::<PlaylistEntry>().unwrap().count().unwrap(), 2);
    """)
bug("c05-single-slot", "C05", [(MOD, "(self.row_presence_flags & (1 << i) != 0).then_some(*row_offset)",
    "(self.row_presence_flags & (1 << i) != 0 && (i == 0 || *row_offset != 0)).then_some(*row_offset)")],
    "a page whose row at heap offset 0 has not the first slot of its group",
    "that row is not read, the page is rejected",
    """
    // Slot 0 is deleted, and slot 1 is the row at offset 0.
    let mut p = data(PS, 1, ENTRIES, 9, &[(entry(1, 1, 1), false), (entry(2, 2, 2), true)]);
    p[PS - 6..PS - 4].copy_from_slice(&[12, 0]);
    p[PS - 8..PS - 6].copy_from_slice(&[0, 0]);
    let b = [header(PS, 2, &[(ENTRIES, 1, 1)]), p].concat();
    assert_eq!(open(&b).iter_rows::<PlaylistEntry>().unwrap().count().unwrap(), 1);
    """)
bug("c06-first-group", "C06", [(MOD, "                    self.header.free_size -= RowGroup::HEADER_SIZE;\n",
    "                    if row_group_index > 0 {\n                        self.header.free_size -= RowGroup::HEADER_SIZE;\n                    }\n")],
    "an allocation in a page that never had a row",
    "the header of the first row group is not taken from the free space",
    """
    let b = [header(PS, 2, &[(ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[])].concat();
    let mut db = open(&b);
    let p = db.load_page(1.try_into().unwrap()).unwrap();
    let free = p.header.free_size;
    drop(p.allocate_row(12).unwrap());
    assert_eq!(p.header.free_size, free - 12 - 2 - 4);
    """)
bug("c06-dropped-insert", "C06", [(MOD, "                let rows = &mut dpc.rows;\n\n", "                let rows = &mut dpc.rows;\n                row_counts.increment_num_rows_valid();\n\n"),
    (MOD, "                    row_counts.increment_num_rows_valid();\n                })", "                })")],
    "space that is allocated for a row which is then not inserted",
    "the page claims one more valid row than it has, and cannot be read again",
    """
    let b = [header(PS, 2, &[(ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[(entry(1, 1, 1), true)])].concat();
    let s = Store::new(b);
    let mut db = Database::open(s.clone(), DatabaseType::Plain).unwrap();
    drop(db.load_page(1.try_into().unwrap()).unwrap().allocate_row(12).unwrap());
    db.close().unwrap();
    assert_eq!(open(&s.content()).iter_rows::<PlaylistEntry>().unwrap().count().unwrap(), 1);
    """)
bug("c07-holes", "C07", [(MOD, "        let skip = row_presence_flags.leading_zeros();", "        let skip = Self::MAX_ROW_COUNT as u32 - row_presence_flags.count_ones();")],
    "a row group with deleted slots below its last present one, in storage that does not hold the same offsets already",
    "writing leaves out offsets of rows that are present",
    """
    let b = data(PS, 1, ENTRIES, 9, &[(entry(1, 1, 1), false), (entry(2, 2, 2), true), (entry(3, 3, 3), false), (entry(4, 4, 4), true)]);
    let args = (PS as u32, DatabaseType::Plain);
    let p = Page::read_options(&mut Cursor::new(&b), Endian::Little, args).unwrap();
    let mut w = Cursor::new(vec![0; PS]);
    p.write_options(&mut w, Endian::Little, (PS as u32,)).unwrap();
    assert_eq!(Page::read_options(&mut Cursor::new(w.get_ref()), Endian::Little, args).unwrap(), p);
    """)
bug("c07-empty-entry", "C07", [(MOD, "        self.0 == 0x1FFF_FFF8\n", "        self.0 >> 3 == 0x03FF_FFFF\n")],
    "an index entry of the last page number with flags",
    "the entry counts as empty although it is not stored as an empty one",
    """
    let b = index(PS, 1, ENTRIES, 9, &[0x1FFF_FFFB]);
    let p = Page::read_options(&mut Cursor::new(&b), Endian::Little, (PS as u32, DatabaseType::Plain)).unwrap();
    assert!(!p.content.as_index().unwrap().entries[0].is_empty());
    """)
bug("c08-offset-size", "C08", [(MOD, "        if self.0 & 0x04 == 0 {", "        if self.0 & 0x0F != 0x04 {")],
    "a row whose subtype has other low bits set besides the one for wide offsets",
    "its offsets are taken for narrow ones",
    """
    let mut r = track(1, 1, "T", "/p");
    r[0] = 0x2C;
    let b = [header(4096, 2, &[(TRACKS, 1, 1)]), data(4096, 1, TRACKS, 9, &[(r, true)])].concat();
    assert_eq!(open(&b).iter_rows::<Track>().unwrap().count().unwrap(), 1);
    """)
bug("c08-file-type", "C08", [(UTIL, "    /// Unknown file type.\n    #[brw(magic = 0x0u16)]\n    Unknown,", "    /// Unknown file type.\n    #[br(magic = 0x0u16)]\n    #[bw(magic = 0xFFFFu16)]\n    Unknown,")],
    "a track of unknown file type, read and written", "another file type is stored", """
    let r = track(1, 1, "T", "/p");
    let s = Store::new([header(4096, 2, &[(TRACKS, 1, 1)]), data(4096, 1, TRACKS, 9, &[(r, true)])].concat());
    let before = s.content();
    let mut db = Database::open(s.clone(), DatabaseType::Plain).unwrap();
    assert_eq!(db.iter_rows::<Track>().unwrap().count().unwrap(), 1);
    db.close().unwrap();
    assert!(s.content() == before);
    """)
bug("c09-lossy", "C09", [(STR, "            } => String::from_utf16(&vec).map_err(|_| StringError::Encoding),", "            } => Ok(String::from_utf16_lossy(&vec)),")],
    "a stored UTF-16 text with half of a surrogate pair", "the text is silently replaced by another one instead of an error", """
    let mut c = Cursor::new([0x90u8, 8, 0, 0, 0x41, 0, 0x00, 0xd8]);
    let s = rekordcrate::pdb::string::DeviceSQLString::read(&mut c).unwrap();
    assert!(s.into_string().is_err());
    """)
bug("c09-long-ascii", "C09", [(STR, "            } => f.write_str(&String::from_utf16_lossy(vec)),", "            } => f.write_str(String::from_utf16_lossy(vec).trim_end_matches('\\0')),")],
    "a UTF-16 text that ends with NUL characters", "displaying the text loses them", """
    let s = rekordcrate::pdb::string::DeviceSQLString::new("\\u{20ac}\\0").unwrap();
    assert_eq!(s.to_string(), "\\u{20ac}\\0");
    """)
bug("c10-skip-align", "C10", [(OFF, "                        Self::aligned_offset(current_offset, v.required_alignment());",
    "                        Self::aligned_offset(current_offset, v.required_alignment().min(2 * offset_size.bytes() as u16));")],
    "narrow offsets, calculated, with a UTF-16 string that follows another item", "the string is not aligned to four bytes", """
    use rekordcrate::pdb::offset_array::OffsetArrayContainer;
    use rekordcrate::pdb::string::DeviceSQLString;
    use rekordcrate::pdb::ext::*;
    use rekordcrate::pdb::offset_array::OffsetSize;
    use rekordcrate::util::MaybeCalculated;
    let c = OffsetArrayContainer { offsets: MaybeCalculated::Calculated, inner: TagOrCategoryStrings { name: DeviceSQLString::new("a").unwrap(), unknown: DeviceSQLString::new("\\u{20ac}").unwrap() } };
    let mut w = Cursor::new(Vec::new());
    c.write_options(&mut w, Endian::Little, (0, OffsetSize::U8, ())).unwrap();
    assert_eq!(w.get_ref()[2] % 4, 0);
    """)
bug("c10-wide-wrap", "C10", [(OFF, "OffsetSize::U8 => OffsetArray::U8(offsets.try_map_polyfill(|o| o.try_into())?),",
    "OffsetSize::U8 => OffsetArray::U8(offsets.try_map_polyfill(|o| u16::try_from(o).map(|o| o as u8))?),")],
    "calculated narrow offsets of items that lie more than 255 bytes behind the start of the row", "a wrong offset is written instead of an error", """
    use rekordcrate::pdb::offset_array::OffsetArrayContainer;
    use rekordcrate::pdb::string::DeviceSQLString;
    use rekordcrate::pdb::ext::*;
    use rekordcrate::pdb::offset_array::OffsetSize;
    use rekordcrate::util::MaybeCalculated;
    let c = OffsetArrayContainer { offsets: MaybeCalculated::Calculated, inner: TagOrCategoryStrings { name: DeviceSQLString::new(&"a".repeat(300)).unwrap(), unknown: DeviceSQLString::new("b").unwrap() } };
    let mut w = Cursor::new(Vec::new());
    assert!(c.write_options(&mut w, Endian::Little, (0, OffsetSize::U8, ())).is_err());
    """)
bug("c11-last-table", "C11", [(MOD, """            .iter_mut()
            .enumerate()
            .find(|(_, table)|""", """            .iter_mut()
            .enumerate()
            .rfind(|(_, table)|""")],
    "a directory with two tables of the same type", "looking a table up for changing it gives another one than looking it up for reading", """
    let b = [header(PS, 3, &[(ENTRIES, 1, 1), (ENTRIES, 2, 2)]), data(PS, 1, ENTRIES, 9, &[]), data(PS, 2, ENTRIES, 9, &[])].concat();
    let mut db = open(&b);
    let t = PageType::Plain(PlainPageType::PlaylistEntries);
    let a = db.get_header().find_table(t).unwrap().0;
    assert_eq!(a, db.get_header_mut().find_table_mut(t).unwrap().0);
    """)
bug("c11-index-bound", "C11", [(MOD, "        if value < 0x03FF_FFFF {", "        if value <= 0x03FF_FFFF {")],
    "the page number that stands for an empty index entry", "it is accepted as the number of a page", """
    assert!(PageIndex::try_from(0x03FF_FFFFu32).is_err());
    """)
bug("c12-flag-bit", "C12", [(MOD, "        self.node_is_folder > 0\n", "        self.node_is_folder as u8 > 0\n")],
    "a node whose folder field is not zero, but has a zero in its lowest byte", "the folder is taken for a playlist, its children disappear", """
    let d = Dir::new();
    let (_, b) = device(&d, 512, &[node(0, 1, 0x100, "F"), node(1, 2, 0, "P")], &[], &[], &[]);
    let t = rekordcrate::device::get_playlists(&mut open(&b)).unwrap();
    assert!(matches!(&t[0], rekordcrate::device::PlaylistNode::Folder(f) if f.children.len() == 1));
    """)
bug("c12-empty-name", "C12", [(DEV, """                let child_node = if node.is_folder() {""", """                let child_node = if node.is_folder() && node.id != id {""")],
    "a folder that has the same id as its parent", "it is listed as a playlist", """
    let d = Dir::new();
    let (_, b) = device(&d, 512, &[node(0, 0, 1, "F"), node(0, 2, 0, "P")], &[], &[], &[]);
    let t = rekordcrate::device::get_playlists(&mut open(&b)).unwrap();
    assert!(matches!(&t[0], rekordcrate::device::PlaylistNode::Folder(_)));
    """)
bug("c13-empty-folder", "C13", [(MAIN, "            std::fs::create_dir_all(path)?;", "            if playlist_entries.contains_key(&playlist.id) {\n                std::fs::create_dir_all(path)?;\n            }")],
    "a folder whose first playlist has no entries", "the export fails, and the playlists behind it are missing", """
    let d = Dir::new();
    let (dev, _) = device(&d, 1024, &[node(0, 1, 1, "F"), node(1, 2, 0, "P")], &[], &[track(1, 1, "A", "/a")], &[]);
    let out = d.0.join("out");
    let (rc, _, err) = tool(&["export-playlists", dev.to_str().unwrap(), out.to_str().unwrap()]);
    assert_eq!(rc, Some(0), "{err}");
    assert_eq!(std::fs::read_to_string(out.join("F/P.m3u")).unwrap(), "");
    """)
bug("c13-append", "C13", [(MAIN, "            let mut file = File::create(playlist_path)?;", "            let mut file = File::options().create(true).truncate(false).write(true).open(playlist_path)?;")],
    "an export into a directory with longer playlists of an earlier one", "the rest of the old playlist stays in the file", """
    let d = Dir::new();
    let (dev, _) = device(&d, 1024, &[node(0, 1, 0, "P")], &[entry(1, 1, 1)], &[track(1, 1, "A", "/a")], &[]);
    let out = d.0.join("out");
    std::fs::create_dir(&out).unwrap();
    std::fs::write(out.join("P.m3u"), "x\\n".repeat(500)).unwrap();
    let (rc, _, err) = tool(&["export-playlists", dev.to_str().unwrap(), out.to_str().unwrap()]);
    assert_eq!(rc, Some(0), "{err}");
    assert_eq!(std::fs::read_to_string(out.join("P.m3u")).unwrap().lines().count(), 1);
    """)
bug("c14-path-len", "C14", [(ANLZ, "    #[bw(calc = ((path.len() as u32) + 1) * 2)]", "    #[bw(calc = ((path.to_string().chars().count() as u32) + 1) * 2)]")],
    "a path with a character outside the basic multilingual plane", "the length that is written does not cover the path", """
    let mut s = vec![];
    let text: Vec<u8> = "/a\\u{1F600}".encode_utf16().chain([0]).flat_map(|c| c.to_be_bytes()).collect();
    s.extend(b"PPTH");
    for n in [16, 16 + text.len() as u32, text.len() as u32] { s.extend(n.to_be_bytes()); }
    s.extend(text);
    let mut b = b"PMAI".to_vec();
    for n in [28, 28 + s.len() as u32, 1, 0, 0, 0] { b.extend((n as u32).to_be_bytes()); }
    b.extend(s);
    let x = rekordcrate::anlz::ANLZ::read(&mut Cursor::new(&b)).unwrap();
    let mut w = Cursor::new(vec![]);
    x.write(&mut w).unwrap();
    assert_eq!(w.into_inner(), b);
    """)
ANLZ_KIT = """
    fn file(s: &[u8]) -> Vec<u8> {
        let mut b = b"PMAI".to_vec();
        for n in [28, 28 + s.len() as u32, 1, 0, 0, 0] { b.extend((n as u32).to_be_bytes()); }
        b.extend(s);
        b
    }
    fn same(b: &[u8]) {
        let x = rekordcrate::anlz::ANLZ::read(&mut Cursor::new(b)).unwrap();
        let mut w = Cursor::new(vec![]);
        x.write(&mut w).unwrap();
        assert_eq!(w.into_inner(), b);
    }
"""
bug("c14-unknown-header", "C14", [(ANLZ, "        self.size - 12\n", "        (self.size - 12).min(64)\n")],
    "an unknown section with a header of more than 76 bytes", "the rest of its header is dropped", ANLZ_KIT + """
    let mut s = b"PXYZ".to_vec();
    for n in [96u32, 96].into_iter().chain(0..21) { s.extend(n.to_be_bytes()); }
    same(&file(&s));
    """)
bug("c15-comment", "C15", [(ANLZ, "            (self.0.encode_utf16().count() as u32 + 1) * 2", "            (self.0.chars().count() as u32 + 1) * 2")],
    "a cue comment with a character outside the basic multilingual plane", "the length of the comment is wrong", """
    use rekordcrate::anlz::LenPrefixedWideString;
    let s = LenPrefixedWideString::from("a\\u{1F600}");
    let mut w = Cursor::new(vec![]);
    s.write_options(&mut w, Endian::Big, ()).unwrap();
    w.set_position(0);
    assert_eq!(LenPrefixedWideString::read_options(&mut w, Endian::Big, ()).unwrap(), s);
    """)
bug("c15-color-unused", "C15", [(ANLZ, "    #[allow(dead_code)]\n    unknown: B2,\n", "    #[skip]\n    unknown: B2,\n")],
    "columns of a colour waveform whose two lowest bits are set, and a change to another field", "n/a", "")
bug("c16-no-phrases", "C16", [(ANLZ, "    fn check_if_encrypted(raw_mood: [u8; 2], len_entries: u16) -> bool {\n", "    fn check_if_encrypted(raw_mood: [u8; 2], len_entries: u16) -> bool {\n        // Without phrases, there is nothing to mask.\n        if len_entries == 0 {\n            return false;\n        }\n")],
    "a masked song structure without phrases", "it is taken for a plain one and cannot be read", ANLZ_KIT + """
    let key: [u8; 19] = [0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1];
    let mut s = b"PSSI".to_vec();
    for n in [32u32, 32, 24] { s.extend(n.to_be_bytes()); }
    s.extend([0, 0]);
    let plain = [0, 1, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 1, 0];
    s.extend(plain.iter().zip(key).map(|(a, b)| a ^ b));
    same(&file(&s));
    """)
bug("c16-key-overflow", "C16", [(ANLZ, "            (value % 256) as u8\n", "            (value % 0x1FF) as u8\n")],
    "a masked song structure with more than about 260 phrases", "the key is wrong", ANLZ_KIT + """
    let key: [u8; 19] = [0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1];
    let n = 400u16;
    let mut plain = vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 1, 0];
    plain.extend(vec![1; 24 * n as usize]);
    let mut s = b"PSSI".to_vec();
    for x in [32u32, 32 + 24 * n as u32, 24] { s.extend(x.to_be_bytes()); }
    s.extend(n.to_be_bytes());
    s.extend(plain.iter().enumerate().map(|(i, a)| a ^ (key[i % 19] as u16 + n) as u8));
    same(&file(&s));
    """)
bug("c17-checksum-start", "C17", [(SET, "        let end = data.len() - 4;\n", "        let end = data.iter().rposition(|&b| b != 0).map_or(0, |i| (i + 1).max(start)).max(data.len() - 5);\n")],
    "n/a", "n/a", "")
bug("c17-brand-checksum", "C17", [(SET, "            SettingData::DJMMySetting(_) => 0,", "            SettingData::DJMMySetting(_) if self.brand.len() > 0 => 0,")],
    "a mixer setting without a brand name", "its checksum covers the data section only", """
    use rekordcrate::setting::*;
    let mut s = Setting::default_djmmysetting();
    s.brand = "".into();
    let mut w = Cursor::new(vec![]);
    s.write(&mut w).unwrap();
    let b = w.into_inner();
    let mut crc = 0u16;
    for x in &b[..b.len() - 4] {
        crc ^= (*x as u16) << 8;
        for _ in 0..8 { crc = if crc & 0x8000 != 0 { crc << 1 ^ 0x1021 } else { crc << 1 }; }
    }
    assert_eq!(b[b.len() - 4..b.len() - 2], crc.to_le_bytes());
    """)
bug("c18-nested-load", "C18", [(DEV, """            settings.set_mysetting(mysetting.data.as_my_setting().unwrap());
        }
""", """            settings.set_mysetting(mysetting.data.as_my_setting().unwrap());
            // Only newer players have a second settings file.
"""), (DEV, """            settings.set_mysetting2(mysetting2.data.as_my_setting2().unwrap());
        }
""", """            settings.set_mysetting2(mysetting2.data.as_my_setting2().unwrap());
        }
        }
""")], "a device with MYSETTING2.DAT, whose MYSETTING.DAT is missing or damaged", "the options of MYSETTING2.DAT stay unset", """
    let d = Dir::new();
    std::fs::create_dir(d.0.join("PIONEER")).unwrap();
    let mut w = Cursor::new(vec![]);
    rekordcrate::setting::Setting::default_mysetting2().write(&mut w).unwrap();
    std::fs::write(d.0.join("PIONEER/MYSETTING2.DAT"), w.into_inner()).unwrap();
    let s = rekordcrate::DeviceExportLoader::new(d.0.clone()).load_settings();
    assert!(s.waveform.is_some());
    """)
bug("c19-empty-attr", "C19", [(XML, "    #[serde(rename = \"@Remixer\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]", "    #[serde(rename = \"@Remixer\")]\n    #[serde(skip_serializing_if = \"no_text\")]"),
    (XML, "impl<'de> Deserialize<'de> for PlaylistGenericNode {", "fn no_text(text: &Option<String>) -> bool {\n    text.as_deref().unwrap_or_default().is_empty()\n}\n\nimpl<'de> Deserialize<'de> for PlaylistGenericNode {")],
    "a track with an empty remixer", "the remixer is missing after writing and reading", """
    use rekordcrate::xml::*;
    let x = r#"<DJ_PLAYLISTS Version="1"><PRODUCT Name="" Version="" Company=""/><COLLECTION Entries="1"><TRACK TrackID="1" Remixer="" Location="x"/></COLLECTION><PLAYLISTS><NODE Type="0" Name="ROOT" Count="0"></NODE></PLAYLISTS></DJ_PLAYLISTS>"#;
    let d: Document = quick_xml::de::from_str(x).unwrap();
    let e: Document = quick_xml::de::from_str(&quick_xml::se::to_string(&d).unwrap()).unwrap();
    assert_eq!(d, e);
    """)
bug("c19-end-zero", "C19", [(XML, "    #[serde(rename = \"@End\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]", "    #[serde(rename = \"@End\")]\n    #[serde(skip_serializing_if = \"no_end\")]"),
    (XML, "impl<'de> Deserialize<'de> for PlaylistGenericNode {", "fn no_end(end: &Option<f64>) -> bool {\n    end.is_none_or(|end| end <= 0.0)\n}\n\nimpl<'de> Deserialize<'de> for PlaylistGenericNode {")],
    "a position mark that ends at zero", "the end is missing after writing and reading", """
    use rekordcrate::xml::*;
    let x = r#"<DJ_PLAYLISTS Version="1"><PRODUCT Name="" Version="" Company=""/><COLLECTION Entries="1"><TRACK TrackID="1" Location="x"><POSITION_MARK Name="" Type="4" Start="0" End="0" Num="-1"/></TRACK></COLLECTION><PLAYLISTS><NODE Type="0" Name="ROOT" Count="0"></NODE></PLAYLISTS></DJ_PLAYLISTS>"#;
    let d: Document = quick_xml::de::from_str(x).unwrap();
    let e: Document = quick_xml::de::from_str(&quick_xml::se::to_string(&d).unwrap()).unwrap();
    assert_eq!(d, e);
    """)
bug("c20-entry-page", "C20", [(BITS, "        self.num_rows().div_ceil(RowGroup::MAX_ROW_COUNT as u16)", "        self.num_rows().max(self.num_rows_valid()).div_ceil(RowGroup::MAX_ROW_COUNT as u16)")],
    "n/a", "n/a", "")
bug("c21-table-error", "C21", [(MAIN, """        if let Err(e) = dump_table(&mut db, id) {
            eprintln!("Error dumping table {:?}: {e}", id);
        }
""", """        if let Err(e) = dump_table(&mut db, id) {
            eprintln!("Error dumping table {:?}: {e}", id);
            break;
        }
""")], "a database with a damaged table that is not the last one", "the tables behind it are not shown", """
    let d = Dir::new();
    let b = [header(PS, 3, &[(ENTRIES, 77, 77), (ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[(entry(1, 1, 1), true)])].concat();
    let p = d.0.join("export.pdb");
    std::fs::write(&p, b).unwrap();
    let (rc, out, _) = tool(&["dump-pdb", p.to_str().unwrap()]);
    assert_eq!(rc, Some(0));
    assert!(out.contains("PlaylistEntry {"));
    """)
bug("c21-flag-order", "C21", [(MAIN, """            eprintln!("Warning: passed {db_type_cli:?}, but found {db_type_file:?} from file name, using {db_type_cli:?}!");
            db_type_cli""", """            eprintln!("Warning: passed {db_type_cli:?}, but found {db_type_file:?} from file name, using {db_type_cli:?}!");
            if path.is_file() { db_type_file } else { db_type_cli }""")],
    "a --db-type that contradicts the name of the file", "the name decides, although the warning says otherwise", """
    let d = Dir::new();
    let b = [header(PS, 2, &[(ENTRIES, 1, 1)]), data(PS, 1, ENTRIES, 9, &[(entry(1, 1, 1), true)])].concat();
    let p = d.0.join("exportExt.pdb");
    std::fs::write(&p, b).unwrap();
    let (rc, out, _) = tool(&["dump-pdb", "--db-type", "plain", p.to_str().unwrap()]);
    assert_eq!(rc, Some(0));
    assert!(out.contains("PlaylistEntry {"));
    """)
bug("c21-list-entries", "C21", [(MAIN, """                .entry(entry.entry_index)
                .or_default()
                .push(entry.track_id);""", """                .entry(entry.entry_index.max(1))
                .or_default()
                .insert(0, entry.track_id);""")], "n/a", "n/a", "")
bug("c20-far-link", "C20", [(IO, """                let (_, pages): (_, &'db mut [LazyPage]) = db_pages
                    .split_at_mut_checked(slice_index)
                    .ok_or(RekordcrateError::PageNotPresent(page_index))?;""", """                let (_, pages): (_, &'db mut [LazyPage]) = db_pages.split_at_mut(slice_index);""")],
    "a next-page link that leads more than one page behind the last page of the file",
    "the traversal panics instead of reporting the missing page", """
    let b = [header(PS, 3, &[(ENTRIES, 1, 9)]), data(PS, 1, ENTRIES, 2, &[(entry(1, 1, 1), true)]), data(PS, 2, ENTRIES, 7, &[(entry(2, 2, 1), true)])].concat();
    let mut db = open(&b);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| db.iter_rows::<PlaylistEntry>().and_then(|rows| rows.count()).is_err()));
    assert!(matches!(r, Ok(true)));
    """)
bug("c20-lone-surrogate", "C20", [(STR, "            } => f.write_str(&String::from_utf16_lossy(vec)),", "            } => f.write_str(&String::from_utf16(vec).map_err(|_| fmt::Error)?),")],
    "a UTF-16 text with an unpaired surrogate that is displayed", "displaying the row panics", """
    let r = std::panic::catch_unwind(|| {
        let b = [0x90u8, 8, 0, 0, b'a', 0, 0, 0xd8];
        let s = rekordcrate::pdb::string::DeviceSQLString::read(&mut Cursor::new(b)).unwrap();
        (format!("{s}"), format!("{s:?}"))
    });
    assert!(r.is_ok());
    """)
bug("c20-path-text", "C20", [(MAIN, "track.offsets.file_path.clone().into_string()?)))", "track.offsets.file_path.clone().into_string().unwrap())))")],
    "a playlist export of a database with a track whose path is not valid text", "the tool panics instead of reporting the error", """
    let d = Dir::new();
    let mut t = track(1, 1, "t", "/abcd");
    let n = t.len();
    t[n - 1] = 0xff;
    let (dev, _) = device(&d, 512, &[node(0, 1, 0, "p")], &[entry(1, 1, 1)], &[t], &[artist(1, "a")]);
    let (rc, _, err) = tool(&["export-playlists", dev.to_str().unwrap(), d.0.join("out").to_str().unwrap()]);
    assert!(!err.contains("panicked"));
    assert_eq!(rc, Some(1));
    """)
bug("c04-padding", "C04", [(MOD, """            EMPTY.write_options(writer, endian, ())?;
""", """            // The readers do not look at the unused entries.
            if EMPTY.write_options(writer, endian, ()).is_err() {
                break;
            }
""")], "a flush whose storage fails once while the unused entries of an index page are written", "the flush reports success, and what follows is written to the wrong place", """
    struct Once(Cursor<Vec<u8>>, u32);
    impl Read for Once { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
    impl Seek for Once { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
    impl Write for Once {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if b == 0x1FFF_FFF8u32.to_le_bytes() {
                self.1 += 1;
                if self.1 == 3 { return Err(std::io::Error::other("injected")); }
            }
            self.0.write(b)
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let b = [header(PS, 2, &[(ENTRIES, 1, 1)]), index(PS, 1, ENTRIES, 9, &[16])].concat();
    let mut db = Database::open(Once(Cursor::new(b), 0), DatabaseType::Plain).unwrap();
    db.load_page(1.try_into().unwrap()).unwrap();
    assert!(db.flush().is_err());
    """)
bug("c13-trim", "C13", [(MAIN, "track.offsets.file_path.clone().into_string()?)))", "track.offsets.file_path.clone().into_string()?.trim_end().to_owned())))")],
    "a track whose file name ends with a blank", "the playlist names a file that does not exist", """
    let d = Dir::new();
    let (dev, _) = device(&d, 512, &[node(0, 1, 0, "p")], &[entry(1, 1, 1)], &[track(1, 1, "t", "/a/b.mp3 ")], &[artist(1, "a")]);
    let out = d.0.join("out");
    let (rc, _, _) = tool(&["export-playlists", dev.to_str().unwrap(), out.to_str().unwrap()]);
    assert_eq!(rc, Some(0));
    assert!(std::fs::read_to_string(out.join("p.m3u")).unwrap().ends_with("/a/b.mp3 \\n"));
    """)
bug("c01-offset-wrap", "C01", [(MOD, "        u64::from(self.0) * u64::from(page_size)\n", "        u64::from(self.0.wrapping_mul(page_size))\n")],
    "a page that starts 4 GiB or more behind the start of the file", "another page is read in its place", """
    struct Big(u64);
    const BIG: u64 = 1 << 20;
    fn page(i: u64) -> Vec<u8> {
        match i {
            0 => header(BIG as usize, 5000, &[(ENTRIES, 4000, 4100)])[..256].to_vec(),
            4100 => data(256, 4100, ENTRIES, 4999, &[]),
            i => data(256, i as u32, ENTRIES, 4100, &[]),
        }
    }
    impl Read for Big {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let p = page(self.0 / BIG);
            for x in b.iter_mut() {
                *x = p.get((self.0 % BIG) as usize).copied().unwrap_or(0);
                self.0 += 1;
                if self.0 % BIG == 0 { break; }
            }
            Ok(b.len())
        }
    }
    impl Seek for Big {
        fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
            self.0 = match p { SeekFrom::Start(n) => n, SeekFrom::Current(n) => (self.0 as i64 + n) as u64, SeekFrom::End(n) => (5000 * BIG as i64 + n) as u64 };
            Ok(self.0)
        }
    }
    let mut db = Database::open_non_persistent(Big(0), DatabaseType::Plain).unwrap();
    let pages: Vec<_> = db.iter_pages_for_table(0.into()).unwrap().map(|p| Ok(p.header.page_index)).collect().unwrap();
    assert_eq!(pages, vec![PageIndex::try_from(4000).unwrap(), PageIndex::try_from(4100).unwrap()]);
    """)
bug("c05-foreign-page", "C05", [(IO, "            .filter_map(|page| Ok(page.content.as_data_mut()))\n", "            .take_while(|page| Ok(page.header.page_type == RowT::PAGE_TYPE))\n            .filter_map(|page| Ok(page.content.as_data_mut()))\n")],
    "a chain that runs into a page of another type", "the rows end there without an error, as if the table was complete", """
    let b = [header(PS, 4, &[(ENTRIES, 1, 3)]), data(PS, 1, ENTRIES, 2, &[(entry(1, 1, 1), true)]), data(PS, 2, TREE, 3, &[(node(0, 1, 0, "x"), true)]), data(PS, 3, ENTRIES, 9, &[(entry(3, 2, 1), true)])].concat();
    let mut db = open(&b);
    assert!(db.iter_rows::<PlaylistEntry>().unwrap().count().is_err());
    """)
bug("c21-no-artist", "C21", [(MAIN, "        let artist = match artists.get(&track.artist_id) {\n            Some(artist) => artist,", "        let artist = match artists.get(&track.artist_id) {\n            Some(artist) if artist.offsets.name == Default::default() => {\n                println!(\"{}\", track.offsets.title);\n                return;\n            }\n            Some(artist) => artist,")],
    "a playlist with a track whose artist has an empty name", "the line of the track has another form", """
    let d = Dir::new();
    let (dev, _) = device(&d, 512, &[node(0, 1, 0, "p")], &[entry(1, 1, 1)], &[track(1, 1, "t", "/a")], &[artist(1, "")]);
    let (rc, out, _) = tool(&["list-playlists", dev.join("PIONEER/rekordbox/export.pdb").to_str().unwrap()]);
    assert_eq!(rc, Some(0));
    assert!(out.contains("1:  - t\\n"), "{out}");
    """)
B = [b for b in B if b["demo"]]
