------------------------------ MODULE PageBuild ------------------------------
(* Bytes of pages made from rows, and of whole databases made from pages. *)
EXTENDS RowSamples, PageCodec

FillB == 238
W(a) == <<a, a + 1, a + 2, a + 3>>
Header(pi, pt, np, nr, nv, fl, free, used) ==
  [pi |-> pi, pt |-> pt, np |-> np, u1 |-> W(101), u2 |-> W(151), rc |-> RowCounts(nr, nv), fl |-> fl, free |-> free, used |-> used]
Hdr(pt, nr, nv, fl) == Header(W(1), pt, W(11), nr, nv, fl, <<21, 22>>, <<31, 32>>)
DataHdr == <<41, 42, 43, 44, 45, 46, 47, 48>>
(* rows: sequence of <<offset, bytes>>; groups: sequence of [offs, pres, unk], all 16 slots of each written *)
TopBit16(x) == IF x = 0 THEN 0 ELSE 1 + CHOOSE i \in 0..15 : BitOf(x, i) = 1 /\ x < 2 ^ (i + 1)
WholeGroup(g) == Cat([i \in 1..16 |-> LE16(g.offs[17 - i])]) \o LE16(g.pres) \o LE16(g.unk)
DataPage(size, h, groups, rows) ==
  PatchAll(Rep(FillB, size), <<<<0, EncPageHdr(h) \o DataHdr>>>>
     \o [k \in 1..Len(groups) |-> LET g == groups[k]     \* slots up to the last present one only: those in front of it may belong to rows
           top == TopBit16(g.pres) IN <<size - 36 * (k - 1) - 4 - 2 * top, Drop(WholeGroup(g), 32 - 2 * top)>>]
     \o [i \in 1..Len(rows) |-> <<DataStart + rows[i][1], rows[i][2]>>])
Grp(offs, pres, unk) == [offs |-> [s \in 1..16 |-> IF s <= Len(offs) THEN offs[s] ELSE 48879], pres |-> pres, unk |-> unk]
RECURSIVE Layed(_, _)
Layed(rs, o) == IF rs = <<>> THEN <<>> ELSE <<<<o, Head(rs)>>>> \o Layed(Tail(rs), o + AlignUp(Len(Head(rs)), 4))

(* Index pages *)
IndexPage(size, n, ents, fe) ==
  PatchAll(Rep(FillB, size), <<<<0, EncPageHdr(Hdr(LE32(1), 0, 0, 100)) \o <<51, 52, 53, 54, 236, 3, 57, 58>> \o W(61) \o W(71) \o <<255, 255, 255, 3, 0, 0, 0, 0>> \o LE16(n) \o fe \o Cat(ents)>>>>)

(* Whole databases. A page: [rows: sequence of row bytes in slot order, dead: slots that are deleted, rev: BOOLEAN, last slot stored first] or
   [ents: entries of an index page], or [b: any bytes]. *)
DPage(rows) == [rows |-> rows, dead |-> {}, rev |-> FALSE]
Descriptor(p) == IF "rows" \in DOMAIN p THEN "rows" ELSE IF "ents" \in DOMAIN p THEN "ents" ELSE "b"
RowPage(size, pi, pt, np, p) ==
  LET n == Len(p.rows)
      lay == TLCEval(IF p.rev THEN Rev(Layed(Rev(p.rows), 0)) ELSE Layed(p.rows, 0))
      ng == CeilDiv(n, 16)
      group(g) == LET m == Min2(16, n - 16 * (g - 1)) IN
        Grp([s \in 1..m |-> lay[16 * (g - 1) + s][1]], SumSeq([s \in 1..m |-> IF 16 * (g - 1) + s \in p.dead THEN 0 ELSE 2 ^ (s - 1)]), g)
  IN DataPage(size, Header(LE32(pi), pt, LE32(np), n, n - Cardinality(p.dead), 36, <<21, 22>>, <<31, 32>>), [g \in 1..ng |-> group(g)], lay)
IdxPage(size, pi, pt, np, ents) ==
  PatchAll(Rep(FillB, size), <<<<0, EncPageHdr(Header(LE32(pi), pt, LE32(np), 0, 0, 100, <<0, 0>>, <<0, 0>>)) \o <<51, 52, 53, 54, 236, 3, 57, 58>> \o LE32(pi) \o LE32(np)
     \o <<255, 255, 255, 3, 0, 0, 0, 0>> \o LE16(Len(ents)) \o <<81, 82>> \o Cat(ents)>>>>)
PageOf(size, pi, pt, np, p) == CASE Descriptor(p) = "rows" -> RowPage(size, pi, pt, np, p) [] Descriptor(p) = "ents" -> IdxPage(size, pi, pt, np, p.ents) [] OTHER -> p.b
(* tables: sequence of [pt: type word, pages: sequence of pages, not empty]; the pages of a table follow one another. *)
RECURSIVE Firsts(_, _)
Firsts(ts, at) == IF ts = <<>> THEN <<>> ELSE <<at>> \o Firsts(Tail(ts), at + Len(Head(ts).pages))
DbHeader(size, ts) == LET f == Firsts(ts, 1) IN
  [ok |-> TRUE, ps |-> LE32(size), nu |-> LE32(99), unk |-> LE32(5), seq |-> LE32(44),
   tables |-> [i \in 1..Len(ts) |-> [pt |-> ts[i].pt, ec |-> LE32(98), first |-> LE32(f[i]), last |-> LE32(f[i] + Len(ts[i].pages) - 1)]]]
DbFile(size, ts) ==
  LET f == Firsts(ts, 1)
      h == EncHeader(DbHeader(size, ts))
  IN h \o Zeros(size - Len(h)) \o Cat([i \in 1..Len(ts) |-> Cat([j \in 1..Len(ts[i].pages) |->
        PageOf(size, f[i] + j - 1, ts[i].pt, IF j = Len(ts[i].pages) THEN 90 ELSE f[i] + j, ts[i].pages[j])])])
PTable(name, pages) == [pt |-> TypeWord("Plain", name), pages |-> pages]
=============================================================================
