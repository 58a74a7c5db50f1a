------------------------------ MODULE PageCodec ------------------------------
(* Pages and the header of databases with all their fields: bytes -> value tree -> bytes.
   kind: "Plain" (export.pdb) or "Ext" (exportExt.pdb). A page is at the start of its bytes. *)
EXTENDS Rows

PlainTypes == <<<<0, "Tracks">>, <<1, "Genres">>, <<2, "Artists">>, <<3, "Albums">>, <<4, "Labels">>, <<5, "Keys">>, <<6, "Colors">>, <<7, "PlaylistTree">>,
  <<8, "PlaylistEntries">>, <<11, "HistoryPlaylists">>, <<12, "HistoryEntries">>, <<13, "Artwork">>, <<16, "Columns">>, <<17, "Menu">>, <<19, "History">>>>
ExtTypes == <<<<3, "Tag">>, <<4, "TrackTag">>>>
Types(kind) == IF kind = "Plain" THEN PlainTypes ELSE ExtTypes
(* Name of the type that the little-endian word w stands for, or "" *)
TypeName(kind, w) == LET i == Find(Types(kind), BigInt(Rev(w))) IN IF i = 0 THEN "" ELSE Types(kind)[i][2]
TypeWord(kind, name) == LET i == CHOOSE i \in 1..Len(Types(kind)) : Types(kind)[i][2] = name IN LE32(Types(kind)[i][1])
TypeTree(kind, w) == IF TypeName(kind, w) = "" THEN [s |-> "Unknown", f |-> <<<<"", [n |-> Rev(w)]>>>>]
                     ELSE [s |-> kind, f |-> <<<<"", [e |-> TypeName(kind, w)]>>>>]
N(w) == [n |-> Rev(w)]
Bool(b) == [e |-> IF b THEN "true" ELSE "false"]
BitOf(x, i) == (x \div (2 ^ i)) % 2

(* Header of a page *)
HdrLen == 32
DataStart == 40
NumRows(h) == (h.rc[1] + 256 * h.rc[2]) % 8192
NumValid(h) == (h.rc[1] + 256 * h.rc[2] + 65536 * h.rc[3]) \div 8192
IsIndex(h) == BitOf(h.fl, 6) = 1
RowCounts(nr, nv) == LET v == nr + 8192 * nv IN <<v % 256, (v \div 256) % 256, v \div 65536>>
DecPageHdr(b) ==
  IF ~Fits(b, 0, HdrLen) THEN No ELSE
  IF At(b, 0, 4) # Zeros(4) THEN No ELSE
  [ok |-> TRUE, pi |-> At(b, 4, 4), pt |-> At(b, 8, 4), np |-> At(b, 12, 4), u1 |-> At(b, 16, 4), u2 |-> At(b, 20, 4), rc |-> At(b, 24, 3), fl |-> b[28],
   free |-> At(b, 28, 2), used |-> At(b, 30, 2)]
EncPageHdr(h) == Zeros(4) \o h.pi \o h.pt \o h.np \o h.u1 \o h.u2 \o h.rc \o <<h.fl>> \o h.free \o h.used
FlagNames == <<"unknown0", "unknown1", "unknown2", "unknown3", "contains_deleted", "unknown5", "is_index_page", "unknown7">>
PageHdrTree(kind, h) == [s |-> "PageHeader", f |-> <<
  <<"page_index", N(h.pi)>>, <<"page_type", TypeTree(kind, h.pt)>>, <<"next_page", N(h.np)>>, <<"unknown1", N(h.u1)>>, <<"unknown2", N(h.u2)>>,
  <<"packed_row_counts", [s |-> "PackedRowCounts", f |-> <<<<"num_rows", NumRows(h)>>, <<"num_rows_valid", NumValid(h)>>>>]>>,
  <<"page_flags", [s |-> "PageFlags", f |-> [i \in 1..8 |-> <<FlagNames[i], Bool(BitOf(h.fl, i - 1) = 1)>>]]>>,
  <<"free_size", N(h.free)>>, <<"used_size", N(h.used)>>>>]

(* Data pages. Slot s of a group is its s-th row, counted from 0; slots are stored backwards. *)
Groups(h) == CeilDiv(NumRows(h), 16)
DecGroup(b, ps, k) == LET e == ps - 36 * (k - 1) IN
  [offs |-> [s \in 1..16 |-> At(b, e - 4 - 2 * s, 2)], pres |-> At(b, e - 4, 2), unk |-> At(b, e - 2, 2)]
Pres(g, s) == BitOf(UnLE16(g.pres), s - 1) = 1                   \* s: 1..16
TopSlot(g) == IF UnLE16(g.pres) = 0 THEN 0 ELSE CHOOSE s \in 1..16 : Pres(g, s) /\ \A t \in (s + 1)..16 : ~Pres(g, t)
EncGroup(g) == Cat([i \in 1..TopSlot(g) |-> g.offs[TopSlot(g) + 1 - i]]) \o g.pres \o g.unk
GroupPatch(g, ps, k) == <<ps - 36 * (k - 1) - 4 - 2 * TopSlot(g), EncGroup(g)>>
GroupTree(g) == [s |-> "RowGroup", f |-> <<<<"row_offsets", [i \in 1..16 |-> IF Pres(g, 17 - i) THEN N(g.offs[17 - i]) ELSE [raw |-> <<>>]]>>,
                                            <<"row_presence_flags", N(g.pres)>>, <<"unknown", N(g.unk)>>>>]
SE == INSTANCE SequencesExt
SortedSet(S) == SE!SetToSortSeq(S, <)
DecData(kind, h, b, ps) ==
  IF ~Fits(b, 0, DataStart) \/ 36 * Groups(h) > ps \/ (Groups(h) > 0 /\ Len(b) < ps) THEN No ELSE
  LET gs == TLCEval([k \in 1..Groups(h) |-> DecGroup(b, ps, k)])
      offs == TLCEval(SortedSet(UNION {{UnLE16(gs[k].offs[s]) : s \in {t \in 1..16 : Pres(gs[k], t)}} : k \in 1..Len(gs)}))
      rows == TLCEval([i \in 1..Len(offs) |-> IF TypeName(kind, h.pt) # "" /\ DataStart + offs[i] > Len(b) THEN No ELSE DecRow(TypeName(kind, h.pt), b, DataStart + offs[i])])
  IN IF (\E i \in 1..Len(rows) : ~rows[i].ok) \/ Len(offs) # NumValid(h) THEN No ELSE
     [ok |-> TRUE, odd |-> \E i \in 1..Len(rows) : rows[i].odd, dh |-> [i \in 1..4 |-> At(b, HdrLen + 2 * (i - 1), 2)], groups |-> gs, offs |-> offs, rows |-> rows]
DataTree(d) == [s |-> "Data", f |-> <<<<"", [s |-> "DataPageContent", f |-> <<
  <<"header", [s |-> "DataPageHeader", f |-> <<<<"unknown5", N(d.dh[1])>>, <<"unknown_not_num_rows_large", N(d.dh[2])>>, <<"unknown6", N(d.dh[3])>>, <<"unknown7", N(d.dh[4])>>>>]>>,
  <<"row_groups", [k \in 1..Len(d.groups) |-> GroupTree(d.groups[k])]>>,
  <<"rows", [i \in 1..Len(d.offs) |-> [s |-> "", f |-> <<<<"", d.offs[i]>>, <<"", d.rows[i].t>>>>]]>>>>]>>>>]
DataPatches(kind, h, d, ps) ==
  <<<<0, EncPageHdr(h) \o Cat(d.dh)>>>> \o [k \in 1..Len(d.groups) |-> GroupPatch(d.groups[k], ps, k)]
  \o (IF TypeName(kind, h.pt) = "" THEN <<>> ELSE Cat([i \in 1..Len(d.offs) |-> EncRow(TypeName(kind, h.pt), d.rows[i].f, DataStart + d.offs[i])]))

(* Index pages *)
IndexStart == 60
Slots(ps) == (ps - IndexStart - 20) \div 4
EmptyEntry == <<248, 255, 255, 31>>
DecIndex(b, ps) ==
  IF ~Fits(b, 0, IndexStart) THEN No ELSE
  LET n == UnLE16(At(b, 56, 2)) IN
  IF At(b, 36, 2) # <<236, 3>> \/ At(b, 48, 8) # <<255, 255, 255, 3, 0, 0, 0, 0>> \/ n > Slots(ps) \/ ~Fits(b, IndexStart, 4 * n) THEN No ELSE
  [ok |-> TRUE, odd |-> FALSE, ua |-> At(b, 32, 2), ub |-> At(b, 34, 2), no |-> At(b, 38, 2), pi |-> At(b, 40, 4), np |-> At(b, 44, 4), fe |-> At(b, 58, 2),
   ents |-> [i \in 1..n |-> At(b, IndexStart + 4 * (i - 1), 4)]]
Shift3(w) == LET m == Rev(w) IN [i \in 1..4 |-> (m[i] \div 8) + (IF i = 1 THEN 0 ELSE (m[i - 1] % 8) * 32)]      \* most significant first
EntryTree(w) == IF w = EmptyEntry THEN [s |-> "IndexEntry", f |-> <<<<"is_empty", Bool(TRUE)>>>>]
                ELSE [s |-> "IndexEntry", f |-> <<<<"is_empty", Bool(FALSE)>>, <<"page_index", [n |-> Shift3(w)]>>, <<"index_flags", w[1] % 8>>>>]
IndexTree(x) == [s |-> "Index", f |-> <<<<"", [s |-> "IndexPageContent", f |-> <<
  <<"header", [s |-> "IndexPageHeader", f |-> <<<<"unknown_a", N(x.ua)>>, <<"unknown_b", N(x.ub)>>, <<"next_offset", N(x.no)>>, <<"page_index", N(x.pi)>>, <<"next_page", N(x.np)>>,
                                                <<"num_entries", Len(x.ents)>>, <<"first_empty", N(x.fe)>>>>]>>,
  <<"entries", [i \in 1..Len(x.ents) |-> EntryTree(x.ents[i])]>>>>]>>>>]
IndexBytes(x, ps) == x.ua \o x.ub \o <<236, 3>> \o x.no \o x.pi \o x.np \o <<255, 255, 255, 3, 0, 0, 0, 0>> \o LE16(Len(x.ents)) \o x.fe
  \o Cat([i \in 1..Slots(ps) |-> IF i <= Len(x.ents) THEN x.ents[i] ELSE EmptyEntry]) \o Zeros(20)

DecPage(kind, b, ps) ==
  LET h == DecPageHdr(b) IN
  IF ~h.ok THEN No ELSE
  LET c == IF IsIndex(h) THEN DecIndex(b, ps) ELSE DecData(kind, h, b, ps) IN
  IF ~c.ok THEN No ELSE [ok |-> TRUE, odd |-> c.odd, h |-> h, c |-> c]
PageTree(kind, p) == [s |-> "Page", f |-> <<<<"header", PageHdrTree(kind, p.h)>>, <<"content", IF IsIndex(p.h) THEN IndexTree(p.c) ELSE DataTree(p.c)>>>>]
PagePatches(kind, p, ps) == IF IsIndex(p.h) THEN <<<<0, EncPageHdr(p.h) \o IndexBytes(p.c, ps)>>>> ELSE DataPatches(kind, p.h, p.c, ps)

(* The header of a database *)
MinPage == 80
DecTable(kind, b, p) == [pt |-> At(b, p, 4), ec |-> At(b, p + 4, 4), first |-> At(b, p + 8, 4), last |-> At(b, p + 12, 4)]
DecHeader(b) ==
  IF ~Fits(b, 0, 28) THEN No ELSE
  IF At(b, 0, 4) # Zeros(4) \/ At(b, 24, 4) # Zeros(4) THEN No ELSE
  LET ps == BigInt(Rev(At(b, 4, 4)))  n == BigInt(Rev(At(b, 8, 4))) IN      \* both are only compared with small numbers
  IF ps < MinPage \/ (ps < Huge /\ n > (ps - 28) \div 16) \/ n > (Len(b) - 28) \div 16 THEN No ELSE
  [ok |-> TRUE, ps |-> At(b, 4, 4), nu |-> At(b, 12, 4), unk |-> At(b, 16, 4), seq |-> At(b, 20, 4), tables |-> [i \in 1..n |-> DecTable("", b, 28 + 16 * (i - 1))]]
HeaderTree(kind, h) == [s |-> "Header", f |-> <<<<"page_size", N(h.ps)>>, <<"num_tables", Len(h.tables)>>, <<"next_unused_page", N(h.nu)>>, <<"unknown", N(h.unk)>>, <<"sequence", N(h.seq)>>,
  <<"tables", [i \in 1..Len(h.tables) |-> LET t == h.tables[i] IN [s |-> "Table", f |-> <<<<"page_type", TypeTree(kind, t.pt)>>, <<"empty_candidate", N(t.ec)>>, <<"first_page", N(t.first)>>, <<"last_page", N(t.last)>>>>]]>>>>]
EncHeader(h) == Zeros(4) \o h.ps \o LE32(Len(h.tables)) \o h.nu \o h.unk \o h.seq \o Zeros(4) \o Cat([i \in 1..Len(h.tables) |-> LET t == h.tables[i] IN t.pt \o t.ec \o t.first \o t.last])
(* Index (from 0) of the first table of the type, or -1 *)
FindTable(h, w) == LET I == {i \in 1..Len(h.tables) : h.tables[i].pt = w} IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
=============================================================================
