-------------------------------- MODULE Pdb --------------------------------
(* The DeviceSQL database file: header with table directory, index pages and data pages, as bytes and
   as records. 32-bit fields are integers here (below 2^31); full-width values are covered by the
   codec modules. Offsets are zero-based, as in the file.

   data page   [kind "data",  idx, type, next, u1, u2, nr, nv, flags, free, used, dh, groups, rows]
   index page  [kind "index", idx, type, next, u1, u2, nr, nv, flags, free, used, ih, ents]
     group     [offs: 16 offsets by slot, pres: presence flags, unk]
     row       [off, b]                                                       rows ascending by off *)
EXTENDS Bytes

Pow2(i) == 2^i
Bit(x, i) == (x \div Pow2(i)) % 2
BitsBelow(x, n) == {i \in 0..(n - 1) : Bit(x, i) = 1}
PopCount(x) == Cardinality(BitsBelow(x, 16))
TopBit(x) == IF x = 0 THEN 0 ELSE 1 + CHOOSE i \in 0..15 : Bit(x, i) = 1 /\ x < Pow2(i + 1)
IndexFlag == 6

PageHdrLen == 32
DataHdrLen == 8
HeapStart == PageHdrLen + DataHdrLen
IndexHdrLen == 28
GroupLen == 36
GroupCount(n) == CeilDiv(n, 16)
HeapLen(ps) == ps - HeapStart
IndexSlots(ps) == (ps - PageHdrLen - IndexHdrLen - 20) \div 4

(* rows *)
PlaylistEntries == 8
MenuType == 17
RowLen(type) == CASE type = PlaylistEntries -> 12 [] type = MenuType -> 8 [] OTHER -> 0

(* set of slots in ascending order *)
SE == INSTANCE SequencesExt
Sorted(S) == SE!SetToSortSeq(S, <)

LE24(n) == <<n % 256, (n \div 256) % 256, n \div 65536>>
UnLE24(b) == b[1] + 256 * b[2] + 65536 * b[3]
U16At(b, o) == b[o + 1] + 256 * b[o + 2]
Small(b, o) == b[o + 4] < 128                     \* the word fits a TLC integer
U32At(b, o) == b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]
At(b, o, n) == SubSeq(b, o + 1, o + n)

--------------------------------------------------------------------------
(* Writing a page: what goes where. Everything else in the page keeps its bytes. *)
PageHdrBytes(pg) == Zeros(4) \o LE32(pg.idx) \o LE32(pg.type) \o LE32(pg.next) \o LE32(pg.u1) \o LE32(pg.u2)
                    \o LE24(pg.nr + 8192 * pg.nv) \o <<pg.flags>> \o LE16(pg.free) \o LE16(pg.used)
\* slots up to the last present one are stored, from the end of the group towards its start
GroupBytes(g) == LET n == TopBit(g.pres) IN
    Cat([i \in 1..n |-> LE16(g.offs[n + 1 - i])]) \o LE16(g.pres) \o LE16(g.unk)
GroupAt(ps, k, g) == ps - GroupLen * (k - 1) - 4 - 2 * TopBit(g.pres)
IndexMark == <<236, 3>>
IndexMark2 == <<255, 255, 255, 3, 0, 0, 0, 0>>
EmptyEntry == <<248, 255, 255, 31>>
IndexBytes(pg, ps) ==
    LE16(pg.ih.ua) \o LE16(pg.ih.ub) \o IndexMark \o LE16(pg.ih.no) \o LE32(pg.ih.pi) \o LE32(pg.ih.np) \o IndexMark2
    \o LE16(Len(pg.ents)) \o LE16(pg.ih.fe)
    \o Cat([i \in 1..IndexSlots(ps) |-> IF i <= Len(pg.ents) THEN LE32(pg.ents[i]) ELSE EmptyEntry]) \o Zeros(20)
PagePatches(pg, ps) ==
    IF pg.kind = "index" THEN <<<<0, PageHdrBytes(pg) \o IndexBytes(pg, ps)>>>>
    ELSE <<<<0, PageHdrBytes(pg) \o Cat([i \in 1..4 |-> LE16(pg.dh[i])])>>>>
         \o [k \in 1..Len(pg.groups) |-> <<GroupAt(ps, k, pg.groups[k]), GroupBytes(pg.groups[k])>>]
         \o [i \in 1..Len(pg.rows) |-> <<HeapStart + pg.rows[i].off, pg.rows[i].b>>]
Overlay(old, pg, ps) == PatchAll(old, PagePatches(pg, ps))

--------------------------------------------------------------------------
(* Reading a page. *)
NoPage == [kind |-> "bad"]
PresentOffs(groups) == Cat([k \in 1..Len(groups) |-> LET g == groups[k] IN
    [i \in 1..PopCount(g.pres) |-> g.offs[1 + Sorted(BitsBelow(g.pres, 16))[i]]]])
ReadGroup(b, ps, k) == LET e == ps - GroupLen * (k - 1) IN
    [offs |-> [s \in 1..16 |-> U16At(b, e - 4 - 2 * s)], pres |-> U16At(b, e - 4), unk |-> U16At(b, e - 2)]
\* b holds at least the page; rows are inside the page.
ReadData(h, b, ps) ==
    LET n == GroupCount(h.nr) IN
    IF GroupLen * n > ps THEN NoPage ELSE
    LET groups == [k \in 1..n |-> ReadGroup(b, ps, k)]
        offs == PresentOffs(groups)
        set == Range(offs)
        row(o) == [off |-> o, b |-> At(b, HeapStart + o, RowLen(h.type))]
    IN IF Cardinality(set) # h.nv THEN NoPage ELSE
       LET so == Sorted(set) IN
       h @@ [kind |-> "data", dh |-> [i \in 1..4 |-> U16At(b, PageHdrLen + 2 * (i - 1))], groups |-> groups,
             rows |-> [i \in 1..Len(so) |-> row(so[i])]]
ReadIndex(h, b, ps) ==
    LET n == U16At(b, PageHdrLen + 24) IN
    IF At(b, PageHdrLen + 4, 2) # IndexMark \/ At(b, PageHdrLen + 16, 8) # IndexMark2 \/ n > IndexSlots(ps) THEN NoPage
    ELSE h @@ [kind |-> "index",
          ih |-> [ua |-> U16At(b, PageHdrLen), ub |-> U16At(b, PageHdrLen + 2), no |-> U16At(b, PageHdrLen + 6),
                  pi |-> U32At(b, PageHdrLen + 8), np |-> U32At(b, PageHdrLen + 12), fe |-> U16At(b, PageHdrLen + 26)],
          ents |-> [i \in 1..n |-> U32At(b, PageHdrLen + IndexHdrLen + 4 * (i - 1))]]
ReadPage(b, ps) ==
    IF At(b, 0, 4) # Zeros(4) THEN NoPage ELSE
    LET rc == UnLE24(At(b, 24, 3))
        h == [idx |-> U32At(b, 4), type |-> U32At(b, 8), next |-> U32At(b, 12), u1 |-> U32At(b, 16), u2 |-> U32At(b, 20),
              nr |-> rc % 8192, nv |-> rc \div 8192, flags |-> b[28], free |-> U16At(b, 28), used |-> U16At(b, 30)]
    IN IF Bit(h.flags, IndexFlag) = 1 THEN ReadIndex(h, b, ps) ELSE ReadData(h, b, ps)

(* What a reader can see of a page: stored offsets of slots that are not present do not count. *)
View(pg) == IF pg.kind # "data" THEN pg
            ELSE [pg EXCEPT !.groups = [k \in 1..Len(pg.groups) |->
                    [pres |-> pg.groups[k].pres, unk |-> pg.groups[k].unk, offs |-> PresentOffs(<<pg.groups[k]>>)]]]

--------------------------------------------------------------------------
(* Header page *)
TableBytes(t) == LE32(t.type) \o LE32(t.ec) \o LE32(t.first) \o LE32(t.last)
HdrBytes(h) == Zeros(4) \o LE32(h.ps) \o LE32(Len(h.tables)) \o LE32(h.nu) \o LE32(h.unk) \o LE32(h.seq) \o Zeros(4)
               \o Cat([i \in 1..Len(h.tables) |-> TableBytes(h.tables[i])])
HdrPage(h) == LET b == HdrBytes(h) IN b \o Zeros(h.ps - Len(b))
ReadHdr(b) == [ps |-> U32At(b, 4), nu |-> U32At(b, 12), unk |-> U32At(b, 16), seq |-> U32At(b, 20),
               tables |-> [i \in 1..U32At(b, 8) |-> LET o == 28 + 16 * (i - 1) IN
                  [type |-> U32At(b, o), ec |-> U32At(b, o + 4), first |-> U32At(b, o + 8), last |-> U32At(b, o + 12)]]]

--------------------------------------------------------------------------
(* Allocating space for a row *)
AllocNeeds(n) == AlignUp(n, 4) + 6
\* What starts at or behind the used part is in the way.
CanAlloc(pg, n) == pg.kind = "data" /\ n > 0 /\ pg.nr < 8191 /\ pg.nv < 2047 /\ pg.used + AlignUp(n, 4) <= 65535 /\ pg.free >= AllocNeeds(n) /\ (\A i \in 1..Len(pg.rows) : pg.rows[i].off < pg.used)
EmptyGroup == [offs |-> Zeros(16), pres |-> 0, unk |-> 0]
AllocSlot(pg) == pg.nr % 16                      \* slot within its group
AllocGroup(pg) == pg.nr \div 16 + 1
Alloc(pg, n) ==
    LET k == AllocGroup(pg)
        gs == IF k > Len(pg.groups) THEN Append(pg.groups, EmptyGroup) ELSE pg.groups
    IN [pg EXCEPT !.used = @ + AlignUp(n, 4), !.nr = @ + 1,
                  !.free = @ - AlignUp(n, 4) - 2 - (IF k > Len(pg.groups) THEN 4 ELSE 0),
                  !.groups = [gs EXCEPT ![k].offs[AllocSlot(pg) + 1] = pg.used]]
InsertRow(rows, r) == SelectSeq(rows, LAMBDA x : x.off < r.off) \o <<r>> \o SelectSeq(rows, LAMBDA x : x.off > r.off)
\* Filling the space of the last allocation, which took slot AllocSlot(old) of page `old`.
Fill(pg, old, b) == [pg EXCEPT !.nv = @ + 1, !.rows = InsertRow(@, [off |-> old.used, b |-> b]),
                               !.groups[AllocGroup(old)].pres = @ + Pow2(AllocSlot(old))]

Capacity(ps) == HeapLen(ps)
BalanceOf(pg) == pg.free + pg.used + 4 * Len(pg.groups) + 2 * pg.nr
Balanced(pg, ps) == pg.kind = "data" => BalanceOf(pg) = Capacity(ps)
\* Bytes taken by row slots at the end of the page.
TailLen(pg) == IF pg.nr = 0 THEN 0 ELSE GroupLen * (Len(pg.groups) - 1) + 4 + 2 * (pg.nr - 16 * (Len(pg.groups) - 1))
NoOverlap(pg, ps) == pg.kind = "data" =>
    /\ \A i \in 1..(Len(pg.rows) - 1) : pg.rows[i].off + Len(pg.rows[i].b) <= pg.rows[i + 1].off
    /\ pg.rows # <<>> => LET r == pg.rows[Len(pg.rows)] IN r.off + Len(r.b) + TailLen(pg) <= HeapLen(ps)
=============================================================================
