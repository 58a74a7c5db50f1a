#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IO = "src/pdb/io.rs"; MOD = "src/pdb/mod.rs"; STR = "src/pdb/string.rs"; OA = "src/pdb/offset_array.rs"
EXT = "src/pdb/ext.rs"; BF = "src/pdb/bitfields.rs"; UT = "src/util.rs"; DEV = "src/device.rs"
ANLZ = "src/anlz.rs"; XOR = "src/xor.rs"; SET = "src/setting.rs"; XML = "src/xml.rs"; MAIN = "src/main.rs"

p("C01", "Table traversal follows the page chain exactly and always terminates",
  "Iterating the pages of a table (by table index or by page type) yields exactly the pages of its linked list, from the table's first page along the next-page links up to and including its last page, each once and in chain order, then ends. A link that does not lead to a higher page number, or that leads to a page the database does not have, ends the traversal with an error naming that page, so traversal terminates whatever the links say; a table index or page type the database does not have is reported as an error. Pages yielded before an error stay valid and the database can be used again afterwards.",
  ["inputs", "histories"],
  "For every table directory and every assignment of next-page links (including cycles, self links, backward links and dangling links), every page count, and every sequence of traversals over the same open database.",
  "The tests walk the well-formed chains of a handful of recorded exports; cycles, backward or dangling links and interleaved traversals do not occur in them.",
  [IO], [("Database::iter_pages, iter_pages_for_table", IO), ("PageIterator::next splits the page slice so that indices must increase", IO)],
  ["Database::iter_pages / iter_pages_for_table results", "dump-pdb"],
  [("next_page/last_page", "chain cursor and its end", IO)])

p("C02", "Lazy loading is transparent and memory is written back only by a flush",
  "However pages are reached (by page number, by table or page-type traversal, or by row iteration), every access to the same page sees one shared in-memory copy: a change made through one access is seen by all later ones until the database is dropped, and a page not accessed before shows the content currently stored. Nothing is written to the underlying storage before an explicit flush or close, and reading never changes the storage; a database opened as non-persistent never writes to its storage at all.",
  ["histories", "inputs"],
  "For every sequence of open, page load, traversal, row iteration, modification and drop operations over every small database.",
  "The tests perform one fixed modification sequence on one file; they do not mix access paths or check that storage stays untouched in between.",
  [IO], [("LazyPage cache shared by load_page and PageIterator", IO), ("open_non_persistent never needs Write", IO)],
  ["bytes of the underlying storage after each call", "page and row contents returned by each access path"],
  [("LazyDatabase.pages", "per-page NotLoaded/Loaded cache", IO)])

p("C03", "Flushing makes storage equal to memory and touches nothing else",
  "After a successful flush or close, reopening the storage shows exactly the header, pages and rows that were in memory. Pages that were never loaded keep every byte, pages that were loaded but not modified keep every byte a reader can interpret, and no byte outside the header page and the loaded pages changes. Flushing again without further changes leaves the storage byte-for-byte the same, and the database stays usable after a flush. (In-memory rows are expected to fit the place of the row they replace.)",
  ["histories", "inputs"],
  "For every sequence of loads, header and row modifications, row allocations, flushes, close and reopen over every small database, and for every recorded real database.",
  "The tests flush a few modifications of one recorded file; which pages are loaded when the flush happens, repeated flushes and flush-modify-flush histories are not covered.",
  [IO, MOD], [("LazyDatabase BinWrite: seek over pages that are not loaded", IO), ("Database::flush / close", IO)],
  ["bytes of the underlying storage after flush/close", "contents after reopen"])

p("C04", "Storage errors are reported and leave the database usable",
  "When reading, seeking or writing the underlying storage fails, the operation in progress returns an error instead of panicking or reporting success, no page is remembered with content that was not read successfully, and in-memory modifications made earlier are kept. Once the storage works again the same operation succeeds, and a later successful flush leaves the storage exactly as if the failure had never happened. Reads and writes that the storage completes only partially at a time give the same result as complete ones.",
  ["fault_sequences", "histories"],
  "For every operation and every page at which a read or write fails, permanently or once, at every point of a history, and for every chunking of reads and writes.",
  "No test injects an I/O error or a short read.",
  [IO, MOD], [("read_page result is cached only on success", IO), ("errors propagate with ?", IO)],
  ["results of load_page, iteration, flush and open under a fault-injecting storage", "storage bytes after recovery"])

p("C05", "Row iteration yields every live row of the type exactly once and nothing else",
  "Iterating the rows of a type yields exactly the rows whose presence bit is set in the row groups of the data pages of that type's table, each once, page by page in chain order and by ascending position within the page; deleted or never-inserted row slots, index pages and other tables contribute nothing. Modifying a row through the iteration changes that row only and keeps its position. A page whose declared type disagrees with its table is reported as an error, not silently skipped or misread.",
  ["inputs", "histories"],
  "For every arrangement of row groups, presence bits, row offsets and page kinds along a table's chain, and every row type.",
  "The tests read recorded pages whose presence patterns are fixed; arbitrary deletion patterns, offsets out of order and multiple row groups are not enumerated.",
  [IO, MOD], [("RowGroup::present_rows_offsets", MOD), ("Database::iter_rows", IO), ("parse_at_offsets", UT)],
  ["Database::iter_rows results", "DataPageContent::rows"])

p("C06", "Row allocation never overlaps, overfills or loses space in a page",
  "Allocating space for a row succeeds exactly when the page is a data page whose free space covers the row size rounded up to a multiple of four plus six bytes; a refused allocation changes nothing. Requests that can never be stored (zero bytes, sizes the page header cannot represent, or more rows than it can count) and pages whose recorded used space ends before rows that are stored there are refused as well. A successful one places the row at the old end of the used space, takes the next row slot (starting a new row group of sixteen when the last is full), and keeps free plus used plus row-slot bytes equal to the page's capacity, so no two rows, and no row and the row slots at the page end, ever overlap. The row becomes visible and counted as valid only when it is inserted; an allocation that is never filled stays invisible, and the page written out and read back equals the page in memory.",
  ["histories", "inputs"],
  "For every sequence of allocations, insertions and abandoned allocations with every row size, on every starting page fill level and page size.",
  "The tests append a few rows to one recorded page; exhaustion of a page, group boundaries, abandoned allocations and odd sizes are barely sampled.",
  [MOD, BF], [("Page::allocate_row", MOD), ("PackedRowCounts::last_row_index", BF), ("RowGroup::insert_offset / mark_offset_present", MOD)],
  ["Page header and row groups after each call", "page bytes after writing"],
  [("free_size/used_size", "heap accounting of the page", MOD), ("row_groups", "row slots at the page end", MOD)])

p("C07", "Pages survive reading and writing with the documented layout",
  "A page is stored as its 32-byte header (with 13-bit slot and 11-bit valid-row counts and one flag bit deciding between index and data page), its content header, rows at their heap offsets and row groups growing backwards from the page end, or for an index page its entries followed by empty-entry padding and twenty zero bytes. Reading such a page gives exactly those values and writing it gives exactly the stored bytes back, leaving bytes that belong to no row or used row slot untouched. A page whose valid-row count disagrees with its presence bits, or whose fixed markers are wrong, is rejected with an error.",
  ["inputs"],
  "For every header value, slot count, presence pattern, unknown value, flag byte, index entry and page size.",
  "The tests round-trip about thirty recorded pages of one page size, so most counts, patterns and flag combinations never occur.",
  [MOD, BF], [("Page, PageHeader, DataPageContent, RowGroup, IndexPageContent binrw definitions", MOD), ("PackedRowCounts, PageFlags", BF)],
  ["Page::read / Page::write"])

p("C08", "Every row type is decoded field by field and written back unchanged",
  "For every table type of standard and extended databases, a row's fields are read from and written to their documented positions with their documented width and little-endian order, and writing a row that was read gives back exactly the same bytes at the same place. Enumerated fields keep values that have no name where the format allows them and reject them otherwise, and fixed markers inside rows are enforced. A row written with freshly calculated string offsets reads back with equal field values.",
  ["inputs"],
  "For every row type, every field set to boundary values independently, both string-offset widths, and every string form in every string field.",
  "The tests contain between one and ten recorded rows per type, in which many fields are always zero and hence could be swapped or misread unnoticed.",
  [MOD, EXT, UT], [("binrw definitions of the row structs and PlainRow/ExtRow/Row dispatch on page type", MOD), ("TagOrCategory, TrackTag", EXT)],
  ["Row read / write and the debug dump of rows", "iter_rows"])

p("C09", "DeviceSQL strings are encoded and decoded losslessly or rejected",
  "Creating a database string from text, writing it and reading it back gives the same text (except a text whose stored form would be byte for byte that of an ISRC), and the bytes follow the format: ASCII of up to 126 characters uses the one-byte header form, longer ASCII the long form, any other text the UTF-16 long form, and an ISRC its own form of exactly twelve ASCII characters (empty allowed). Text too long for the format is rejected when the string is created, never later or by corrupting data. Reading never consumes more or fewer bytes than the encoded length says, and displaying or converting undecodable content yields an error or replacement characters, never a panic.",
  ["inputs"],
  "For every text (all lengths around the limits, all Unicode planes, every leading code unit) and every encoded byte sequence.",
  "The tests check seven strings.",
  [STR], [("DeviceSQLString::new, new_isrc, into_string, Display", STR), ("DeviceSQLStringImpl / LongBody binrw definitions", STR)],
  ["DeviceSQLString constructors, read, write, Display, into_string"])

p("C10", "Offset arrays place and find every item exactly where the offsets say",
  "Reading a row's offset array reads each item at row start plus its own offset, in item order, whatever the order, overlap or gaps of the offsets; writing with given offsets puts each item exactly there. Writing with calculated offsets packs the items in order directly behind the array, with UTF-16 strings aligned to four bytes from the row start, without overlap, and reading the result gives the same items; offsets that do not fit the offset width, an offset width that contradicts the given offsets, or a wrong marker is an error.",
  ["inputs"],
  "For every number of items, offset width, row start, array position, item length and string form, and every offset assignment.",
  "The tests check a handful of one-item and two-item arrays.",
  [OA], [("OffsetArrayContainer BinRead / BinWrite", OA), ("required_alignment", STR)],
  ["OffsetArrayContainer read / write"])

p("C11", "The database header and table directory are read and written faithfully",
  "Opening a database reads page size, page count, sequence and the table directory from their documented positions, and writing the header back gives the same bytes. Table types map to the documented numbers for standard and for extended databases, and a number without a meaning in the database's kind is kept unchanged as unknown, so its table can still be listed and rewritten. Looking up a table by type returns the first table of that type and its index, or nothing.",
  ["inputs"],
  "For every header field value, every table count, every table type number and both database kinds.",
  "The tests open recorded headers in which every table type is known and every table is in its usual place.",
  [MOD, EXT, IO], [("Header, Table, PageType, PlainPageType, ExtPageType", MOD), ("Header::find_table, find_table_mut", MOD)],
  ["Database::get_header, Header read / write, find_table"])

p("C12", "The playlist tree lists every reachable node once, in its place",
  "The playlist tree returned for a database has at the top exactly the nodes whose parent is the root, below each folder exactly the nodes naming it as parent, in the order the rows are stored, with the stored id, name and kind, for every nesting depth; playlists have no children. Nodes that cannot be reached from the root are left out, and parent links that form a cycle or duplicate identifiers never make the operation crash or run forever; each node is listed once. Folders may be nested 100 deep; deeper nesting may be reported as an error. A name that cannot be decoded is reported as an error. So is a table of playlists of which a page is missing or cannot be read: it is never silently shortened.",
  ["inputs"],
  "For every set of nodes with every assignment of ids, parents, kinds and storage orders.",
  "The tests look at one recorded database with a fixed small tree.",
  [DEV], [("get_playlists", DEV)], ["get_playlists result", "list-playlists, export-playlists"])

p("C13", "Exported playlists list the right tracks in order and stay in the output folder",
  "Exporting playlists writes, for each playlist of the tree, one M3U file in the folder path given by its parent folders, listing the absolute path on the device of each of its tracks that exists, ordered by entry position, one per line, and nothing else; entries with equal positions are all kept, and a playlist without tracks gives an empty file. Whatever the names stored in the database, every file and folder created lies inside the chosen output folder. Playlists that share a folder and a name do not silently replace one another but get files of their own, and names that cannot be used as they are (separators, dots, empty) become a single harmless path component. A table of playlists, entries or tracks that cannot be read completely, and a file that cannot be written completely (as on a full storage), ends the export with an error rather than with success.",
  ["inputs"],
  "For every playlist tree, entry order, missing track, track path and playlist or folder name (including separators, dots, and empty names).",
  "No test runs the export at all.",
  [MAIN, DEV], [("export_playlists, walk_tree", MAIN)], ["files written by export-playlists"])

p("C14", "Analysis files keep every section, known or not, when read and written",
  "Reading an analysis file splits it into its sections in file order, decodes each known section kind and keeps the header and content bytes of unknown kinds, and writing the result gives exactly the original bytes. Element counts and sizes that a section stores redundantly are derived from its actual content when written. A section whose stored sizes or fixed markers contradict its content is rejected with an error.",
  ["inputs"],
  "For every sequence of section kinds, every element count, header size and unknown content.",
  "The tests read a few recorded files; several section kinds, unknown kinds between known ones and edited sections never occur.",
  [ANLZ], [("ANLZ, Section, Content dispatch on header kind", ANLZ), ("Unknown keeps header_data and content_data", ANLZ)],
  ["ANLZ read / write"])

p("C15", "Analysis section fields decode to their documented values",
  "Beats, cues, extended cues with comments and colours, paths, waveform columns of every kind, and song-structure phrases are decoded from their documented big-endian positions and bit ranges and encoded back to them; setting a field and writing changes exactly the bytes or bits of that field. Comments are length-prefixed UTF-16 with one terminator, empty when the length is zero, rejected when stored in any other form, and extra bytes at the end of an entry are kept.",
  ["inputs"],
  "For every field set to boundary values independently, every value of every bit field, and every comment text.",
  "Recorded files leave many fields constant, so swapped or shifted fields can pass unnoticed.",
  [ANLZ], [("binrw and bitfield definitions of Beat, Cue, ExtendedCue, Waveform*Column, Phrase", ANLZ), ("LenPrefixedWideString", ANLZ)],
  ["ANLZ section structs, read / write"])

p("C16", "Song-structure masking is undone and redone exactly, however data arrives",
  "A masked song structure is recognised and unmasked to the same content as its plain form, and writing it masks it again to exactly the original bytes, for every number of phrases; a plain one stays plain. The result does not depend on how the reader or writer splits the data into chunks or on seeking back and forth in between.",
  ["inputs", "schedules"],
  "For every phrase count and content, both forms, and every chunking of reads and writes.",
  "The tests use one masked and one plain recorded file, read from memory in one piece.",
  [XOR, ANLZ], [("XorStream Read / Write / Seek", XOR), ("SongStructureData::read_encrypted / write_encrypted / get_key / check_if_encrypted", ANLZ)],
  ["ANLZ read / write of song structures through chunking readers and writers"])

p("C17", "Setting files decode every option value and are written with a valid checksum",
  "For each of the four setting files, every option byte maps to its documented value and back, values without a meaning are rejected with an error, and writing a setting that was read gives back the original bytes. The written checksum is the CRC-16/XMODEM of the data section, or of everything before it for the mixer settings, for every combination of values and header texts. Wrong lengths or fixed markers, or header texts that do not fit, are errors (a wrong stored checksum is not), and the default settings are the documented ones.",
  ["inputs"],
  "For every file kind, every option, all 256 byte values of each option byte, and all header texts.",
  "The tests round-trip a few recorded files with mostly default values.",
  [SET], [("Setting, SettingData and option enums", SET), ("Setting::calculate_checksum", SET)],
  ["Setting read / write, option values", "dump-setting"])

p("C18", "Device settings load file by file and display every value",
  "Loading the settings of a device fills in exactly the options of those setting files that are present and readable and leaves the options of missing or unreadable ones unset, independently of the state of the other files, and never fails as a whole. Every option carries the value stored in its own file, and the settings listing shows each option once under its own label with the display name of its value, or as missing.",
  ["configurations", "inputs"],
  "For every combination of each of the four files being valid, missing, unreadable (cut, wrong markers or lengths, invalid values, a directory) or of another kind, and every value of every option.",
  "The tests load directories in which all files exist and are valid.",
  [DEV, SET, MAIN], [("DeviceExportLoader::load_settings, Settings::set_*", DEV), ("Display for Settings and option enums", DEV)],
  ["load_settings result, Settings display, list-settings output"])

p("C19", "Rekordbox XML documents survive being written and read back",
  "Writing any document as XML and reading it back gives an equal document: track attributes present or absent, tempo and position marks, and playlist folders and playlists of every nesting, including empty folders, empty playlists and an empty collection, with any text including characters special to XML (line breaks and tabs in attributes may come back as spaces). The stored child and entry counts equal the actual numbers, and reading does not depend on the order of attributes; a missing mandatory attribute or an unknown node kind is an error.",
  ["inputs"],
  "For every document: every subset of optional attributes, every tree shape, every attribute order and special character.",
  "The tests read one recorded document and write one hand-made document without empty nodes or absent attributes.",
  [XML], [("Document and its parts, serde derive", XML), ("PlaylistGenericNode visitor", XML)],
  ["XML serialisation and deserialisation", "dump-xml"])

p("C20", "Damaged input produces an error, never a crash or endless work",
  "Opening and fully reading any file as a database, analysis file, setting file or XML document, and displaying and rewriting whatever was read, either succeeds or reports an error; it never panics, overflows the stack, or fails to terminate, whatever lengths, counts, offsets, indices, flags or text the file contains and wherever it is cut off. The library calls a user makes with caller-chosen values (page numbers, table indices, row sizes, text) behave likewise.",
  ["inputs", "fault_sequences"],
  "For every single-field corruption to boundary values and every truncation of every structure, and every boundary value of caller-supplied arguments.",
  "The tests read only intact recorded files.",
  [IO, MOD, STR, OA, ANLZ, SET, XML, DEV, MAIN], [("checked arithmetic, binrw assertions and error returns across the parsers", "src/")],
  ["results of all readers, Display and Debug output, exit of the command-line tool"])

p("C21", "The command-line tool picks the right format and shows everything it can",
  "An explicit type option decides how a file is interpreted, otherwise its file name does, with a warning when they disagree and a message and no dump when neither is known. Listing playlists shows each reachable folder and playlist once, indented by depth, with its tracks in entry order as artist and title, marking references to tracks or artists that are missing. A table needed for that listing that cannot be read completely ends it with an error. Dumping a database shows its header and every page and row of every table, skips tables of unknown type unless asked to parse them, and reports a table that cannot be read without losing the tables after it. Listing settings names each file that could not be loaded.",
  ["inputs", "configurations"],
  "For every combination of type option and file name, every small playlist database, and every position of a damaged or unknown table.",
  "The tests only check the tool's usage text, if anything.",
  [MAIN], [("guess_db_type, guess_setting_type", MAIN), ("list_playlists", MAIN), ("dump_pdb", MAIN)],
  ["standard output, standard error and exit status of the tool"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
