------------------------------- MODULE MCPage -------------------------------
(* Life of a page: stored, read, perhaps changed through its public fields, and written over something. *)
EXTENDS PageBuild

CONSTANTS Family, Deep

VARIABLES stage, kind, ps, file, pg, how, edits
vars == <<stage, kind, ps, file, pg, how, edits>>

(* Pages of every type. Slot 2 is deleted; the rows are stored in descending order of slots. *)
TypedPage(k, ty, a, b, size) ==
  LET rows == Layed(<<b, a>>, 0) IN
  DataPage(size, Hdr(TypeWord(k, ty), 3, 2, 52), <<Grp(<<rows[2][1], 4, rows[1][1]>>, 5, 4)>>, rows)
UnknownWords(k) == {LE32(n) : n \in {0, 1, 2, 3, 4, 5, 9, 10, 14, 15, 18, 20, 256, 65536, 16777216} \ {Types(k)[i][1] : i \in 1..Len(Types(k))}} \cup {<<3, 0, 0, 128>>, <<255, 255, 255, 255>>}
TypePages ==
  UNION {{[k |-> k, size |-> 1024, b |-> TypedPage(k, ty, a, Row0(ty), 1024)] : a \in {Row0(ty)} \cup (IF Deep THEN Rows1(ty) ELSE IF HasOffs(ty) THEN {Spreads(ty, 1, 3, TRUE), Backwards(ty, TRUE)} ELSE {})} :
         k \in {"Plain"}, ty \in {PlainTypes[i][2] : i \in 1..Len(PlainTypes)}}
  \cup UNION {{[k |-> "Ext", size |-> 512, b |-> TypedPage("Ext", ty, a, Row0(ty), 512)] : a \in Rows1(ty)} : ty \in {"Tag", "TrackTag"}}
  \cup UNION {{[k |-> k, size |-> 256, b |-> DataPage(256, Hdr(w, 3, 2, 52), <<Grp(<<60, 4, 8>>, 5, 4)>>, <<>>)] : w \in UnknownWords(k)} : k \in {"Plain", "Ext"}}
  \cup {[k |-> "Plain", size |-> 256, b |-> DataPage(256, Hdr(LE32(9), 3, 3, 52), <<Grp(<<60, 65535, 300>>, 7, 4)>>, <<>>)]}   \* rows of unknown types may be anywhere

(* Row groups: how many rows, which are present, where. *)
Entry(i) == [j \in 1..12 |-> (17 * i + j) % 256]
Masks(n) == IF n = 0 THEN {0} ELSE {0, 1, 2 ^ (n - 1), (2 ^ n) - 1, ((2 ^ n) - 1) - (2 ^ (n \div 2))} \cup (IF n < 16 THEN {32768, 2 ^ n} ELSE {})
            \cup (IF Deep THEN {2 ^ i : i \in 0..15} \cup {21845, 43690, 255, 65280} ELSE {})
OffsetFor(i, order) == CASE order = "up" -> 12 * (i - 1) [] order = "down" -> 792 - 12 * i [] order = "same" -> 24 [] OTHER -> 12 * (i - 1) + 1
GroupPage(nr, mask, order, delta) ==      \* mask: presence in the last group; others are full
  LET n == CeilDiv(nr, 16)
      pres(g) == IF g = n THEN mask ELSE 65535
      groups == [g \in 1..n |-> Grp([s \in 1..16 |-> OffsetFor(16 * (g - 1) + s, order)], pres(g), 7 * g)]
      present == UNION {{16 * (g - 1) + s : s \in {t \in 1..16 : BitOf(pres(g), t - 1) = 1}} : g \in 1..n}
      used == {OffsetFor(i, order) : i \in present}
      rows == SetSeq({<<OffsetFor(i, order), Entry(IF order = "same" THEN 1 ELSE i)>> : i \in present})
  IN DataPage(1024, Hdr(TypeWord("Plain", "PlaylistEntries"), nr, (Cardinality(used) + delta) % 2048, 36), groups, rows)
GroupPages ==
  UNION {{[k |-> "Plain", size |-> 1024, b |-> GroupPage(nr, m, o, 0)] : m \in Masks(((nr + 15) % 16) + 1), o \in {"up", "down", "same", "odd"}} :
         nr \in {1, 2, 3, 15, 16, 17, 18, 31, 32, 33} \cup (IF Deep THEN {4, 5, 7, 8, 14, 34, 47, 48, 49} ELSE {})}
BadCounts == {[k |-> "Plain", size |-> 1024, b |-> GroupPage(nr, 1, o, d)] : nr \in {1, 17}, o \in {"up", "same"}, d \in {1, -1 + 2048, 2, 1024}}
  \cup {[k |-> "Plain", size |-> s, b |-> DataPage(s, Hdr(LE32(8), nr, 0, 36), <<>>, <<>>)] : nr \in {0, 1, 16, 17, 32, 33, 8191, 8176, 4096}, s \in {80, 108, 109, 128, 144}}
  \cup {[k |-> "Plain", size |-> 128, b |-> DataPage(128, Hdr(LE32(8), 0, nv, 36), <<>>, <<>>)] : nv \in {0, 1, 2, 1024, 2047}}
  \cup {[k |-> "Plain", size |-> 128, b |-> DataPage(128, Hdr(LE32(8), 1, 1, 36), <<Grp(<<o>>, 1, 0)>>, <<>>)] : o \in {0, 60, 76, 77, 88, 100, 65535}}

(* Index pages *)
EntryWords == {EmptyEntry, <<0, 0, 0, 0>>, <<8, 0, 0, 0>>, <<15, 1, 2, 3>>, <<249, 255, 255, 31>>, <<240, 255, 255, 31>>, <<255, 255, 255, 255>>, <<0, 0, 0, 32>>, <<1, 2, 3, 4>>}
IndexPages == UNION {{[k |-> "Plain", size |-> s, b |-> Take(IndexPage(s, n, [i \in 1..n |-> IF i % 2 = j THEN w ELSE LE32(8 * i + j)], <<81, 82>>), s)] : w \in EntryWords, n \in 0..(Slots(s) + 1), j \in {0, 1}} :
                     s \in {80, 84, 85, 92, 100}}
  \cup {[k |-> "Ext", size |-> 80, b |-> IndexPage(80, n, <<>>, <<81, 82>>)] : n \in {0, 1, 8000, 65535}}

(* Damage *)
Small1 == DataPage(112, Hdr(LE32(8), 2, 2, 36), <<Grp(<<0, 12>>, 3, 2)>>, <<<<0, Entry(1)>>, <<12, Entry(2)>>>>)
Small2 == TypedPage("Plain", "Artists", Spreads("Artists", 1, 3, TRUE), Row0("Artists"), 128)
Small3 == IndexPage(92, 2, <<<<8, 0, 0, 0>>, EmptyEntry>>, <<81, 82>>)
Small4 == TypedPage("Ext", "Tag", Row0("Tag"), Row0("Tag"), 160)
OtherB(x) == {0, 1, 255, (x + 1) % 256, x ^^ 64} \cup (IF Deep THEN {x ^^ (2 ^ i) : i \in 0..7} \cup {2, 3, 4, 7, 8, 12, 16, 127, 128} ELSE {})
Hurt(k, b) == {[k |-> k, size |-> Len(b), b |-> c] : c \in UNION {{[b EXCEPT ![i] = v] : v \in OtherB(b[i])} : i \in 1..Len(b)} \cup Overlays(b, 0) \cup {Take(b, n) : n \in 0..(Len(b) - 1)}}

(* What looks like an index page, or like a data page, or like both, with every flag *)
Both(nr, nv, ents) ==       \* entries of an index page over a data page with the group of its rows at its end
  LET x == IndexPage(156, Len(ents), ents, <<81, 82>>)
      h == EncPageHdr(Hdr(LE32(8), nr, nv, 100)) IN
  PatchAll(x, <<<<0, h>>, <<100, Rep(9, 20)>>, <<120, WholeGroup(Grp(<<0, 12>>, 2 ^ nr - 1, 2))>>>>)
FlagPages == {[k |-> "Plain", size |-> Len(b), b |-> [b EXCEPT ![28] = f]] : f \in 0..255, b \in {Small1, Both(0, 0, <<>>), Both(1, 1, <<>>), Both(1, 0, <<EmptyEntry>>), Both(2, 2, <<<<8, 0, 0, 0>>>>)}}
  \cup {[k |-> "Plain", size |-> 92, b |-> PatchAll(Small3, <<<<24, RowCounts(c[1], c[2]) \o <<f>>>>>>)] : f \in {0, 36, 100, 64, 52, 255, 191}, c \in {<<0, 1>>, <<1, 1>>, <<1, 0>>, <<2, 3>>, <<16, 1>>, <<17, 0>>, <<33, 0>>}}

(* Large pages: many rows, offsets up to the limits *)
BigPage(size, nr, live, off(_)) ==     \* live: row slots (from 1) that are present
  LET n == CeilDiv(nr, 16)
      groups == [g \in 1..n |-> Grp([s \in 1..16 |-> off(16 * (g - 1) + s)], SumSeq([s \in 1..16 |-> IF 16 * (g - 1) + s \in live THEN 2 ^ (s - 1) ELSE 0]), 3 * g)]
      order == SetSeq(live)
  IN DataPage(size, Hdr(TypeWord("Plain", "PlaylistEntries"), nr, Cardinality(live), 36), groups, [i \in 1..Len(order) |-> <<off(order[i]), Entry(order[i])>>])
BigPages ==
  LET B(size, nr, live, off(_)) == [k |-> "Plain", size |-> size, b |-> BigPage(size, nr, live, off)]
      up(i) == 12 * (i - 1)
  IN {B(4096, nr, {1, nr, nr - 1, 16} \cup 20..40, up) : nr \in {127, 128, 129, 255, 256, 257}}
     \cup {B(8192, 257, 1..257, LAMBDA i : 12 * (257 - i)), B(16384, 512, {i \in 1..512 : i % 3 = 0}, up), B(65536, 2047, 1..2047, up), B(65536, 2049, 3..2049, up),
           B(65536, 3, 1..3, LAMBDA i : 32756 * (i - 1)), B(65536, 17, {1, 17}, LAMBDA i : 65400 - (65300 \div i)), B(65616, 3, 1..3, LAMBDA i : IF i = 3 THEN 65535 ELSE 256 * i)}
     \cup (IF ~Deep THEN {} ELSE {B(65536, 2000, {i \in 1..2000 : i % m # 1}, up) : m \in {2, 5, 16, 17}} \cup {B(131072, 8191, {1, 8191, 4096, 8176}, LAMBDA i : i)})
Recorded == IF Family = "recorded" THEN JsonDeserialize("input.json") ELSE <<>>
Init == /\ pg = No /\ edits = <<>> /\ stage = "stored"
        /\ LET P == CASE Family = "types" -> TypePages [] Family = "groups" -> GroupPages [] Family = "counts" -> BadCounts [] Family = "flags" -> FlagPages
                      [] Family = "big" -> BigPages [] Family = "recorded" -> {[k |-> r.k, size |-> r.size, b |-> r.b] : r \in Range(Recorded)}
                      [] Family = "index" -> IndexPages [] Family = "damage" -> Hurt("Plain", Small1) \cup Hurt("Plain", Small2) \cup Hurt("Plain", Small3) \cup Hurt("Ext", Small4)
                      [] Family = "edit" -> {[k |-> "Plain", size |-> Len(b), b |-> b] : b \in {Small1, Small2, Small3}} \cup {[k |-> "Ext", size |-> 160, b |-> Small4]}
           IN \E p \in P : kind = p.k /\ ps = p.size /\ file = p.b
        /\ how = IF Family \in {"types", "groups", "edit", "big", "recorded"} THEN "ok" ELSE "bad"

Over == Rep(FillB - 1, ps)
Base(ok) == [k |-> "page", kind |-> kind, ps |-> ps, bytes |-> file, ok |-> ok, lead |-> IF how = "ok" THEN ps ELSE 0]
Read == /\ stage = "stored"
        /\ pg' = DecPage(kind, file, ps)
        /\ stage' = IF pg'.ok THEN "read" ELSE "failed"
        /\ IF pg'.ok THEN TRUE ELSE Emit(Base(FALSE))
        /\ UNCHANGED <<kind, ps, file, how, edits>>
Change(name, i, v, p) == edits' = Append(edits, [n |-> name, i |-> i, v |-> v]) /\ pg' = p
Half == {<<0, 0>>, <<1, 2>>, <<255, 255>>}
Word == {<<0, 0, 0, 0>>, <<5, 6, 7, 8>>, <<254, 255, 255, 3>>}
Edit == /\ stage = "read" /\ Family = "edit" /\ Len(edits) < 2
        /\ stage' = "read"
        /\ \/ \E v \in Word : \/ Change("np", 0, v, [pg EXCEPT !.h.np = v])
                              \/ Change("pi", 0, v, [pg EXCEPT !.h.pi = v])
                              \/ Change("u1", 0, v, [pg EXCEPT !.h.u1 = v])
                              \/ Change("u2", 0, v, [pg EXCEPT !.h.u2 = v])
                              \/ IsIndex(pg.h) /\ Change("ipi", 0, v, [pg EXCEPT !.c.pi = v])
                              \/ IsIndex(pg.h) /\ Change("inp", 0, v, [pg EXCEPT !.c.np = v])
           \/ \E v \in Half : \/ Change("free", 0, v, [pg EXCEPT !.h.free = v])
                              \/ Change("used", 0, v, [pg EXCEPT !.h.used = v])
                              \/ IsIndex(pg.h) /\ Change("ua", 0, v, [pg EXCEPT !.c.ua = v])
                              \/ IsIndex(pg.h) /\ Change("ub", 0, v, [pg EXCEPT !.c.ub = v])
                              \/ IsIndex(pg.h) /\ Change("no", 0, v, [pg EXCEPT !.c.no = v])
                              \/ IsIndex(pg.h) /\ Change("fe", 0, v, [pg EXCEPT !.c.fe = v])
                              \/ ~IsIndex(pg.h) /\ \E i \in 1..4 : Change("dh", i, v, [pg EXCEPT !.c.dh[i] = v])
                              \/ ~IsIndex(pg.h) /\ Change("gunk", 1, v, [pg EXCEPT !.c.groups[1].unk = v])
           \/ \E n \in {0, 1, 8191} : Change("nr", 0, LE16(n), [pg EXCEPT !.h.rc = RowCounts(n, NumValid(pg.h))])
           \/ \E n \in {0, 1, 2047} : Change("nv", 0, LE16(n), [pg EXCEPT !.h.rc = RowCounts(NumRows(pg.h), n)])
           \/ \E i \in 0..7 \ {6} : Change("flag", i, <<1 - BitOf(pg.h.fl, i)>>, [pg EXCEPT !.h.fl = @ ^^ (2 ^ i)])
           \/ IsIndex(pg.h) /\ Len(pg.c.ents) < Slots(ps) /\ \E f \in 0..7, v \in {0, 1, 258, 67108862} :      \* a new entry
                LET e == LET m == 8 * (v % 33554432) + f IN IF v < 33554432 THEN LE32(m) ELSE [LE32(m) EXCEPT ![4] = @ + 16] IN
                Change("push", f, LE32(v), [pg EXCEPT !.c.ents = Append(@, e)])
        /\ UNCHANGED <<kind, ps, file, how>>
Write == /\ stage = "read"
         /\ stage' = "written"
         /\ LET r == [over |-> Over, edits |-> edits, same |-> pg = DecPage(kind, file, ps), out |-> PatchAll(Over, PagePatches(kind, pg, ps))] @@ Base(TRUE)
            IN Emit(IF pg.odd \/ edits # <<>> THEN r ELSE [tree |-> PageTree(kind, pg)] @@ r)
         /\ UNCHANGED <<kind, ps, file, pg, how, edits>>
Next == Read \/ Edit \/ Write
Spec == Init /\ [][Next]_vars

WellFormed == how = "ok" => stage # "failed"
(* An unchanged page written over its own file changes no byte that a reader can see. *)
Again == PatchAll(file, PagePatches(kind, pg, ps))
Unchanged == stage = "written" /\ edits = <<>> /\ Len(file) >= ps => IF IsIndex(pg.h) THEN Take(Again, IndexStart + 4 * Len(pg.c.ents)) = Take(file, IndexStart + 4 * Len(pg.c.ents))
                                                                     ELSE Again = file
SameAgain == stage = "written" /\ edits = <<>> /\ how = "ok" => PageTree(kind, DecPage(kind, PatchAll(Over, PagePatches(kind, pg, ps)), ps)) = PageTree(kind, pg)
=============================================================================
