----------------------------- MODULE MCRecorded -----------------------------
(* What a user gets from a database that a real device export left behind: its library is read off its pages, and
   MCDevice's meaning of a library is applied to it. Variants lack some of the rows. *)
EXTENDS MCDevice

CONSTANT Variants
Input(z) == JsonDeserialize("input.json")
VARIABLES rec, variant
rvars == <<lib, how, asked, rec, variant>>

W32(w) == BigInt(Rev(w))
HeadOf(r) == DecHeader(r.head)
TableOf(r, ty) == LET h == HeadOf(r) IN h.tables[FindTable(h, TypeWord("Plain", ty)) + 1]
PgOf(r, n) == r.pages[n]
RECURSIVE Pages1(_, _, _)
Pages1(r, n, last) == IF n = last THEN <<n>> ELSE <<n>> \o Pages1(r, W32(DecPageHdr(PgOf(r, n)).np), last)
ChainOf(r, ty) == LET t == TableOf(r, ty) IN Pages1(r, W32(t.first), W32(t.last))

(* Variant v > 0 lacks the rows of every seventh slot *)
Kept(v, n, k, s) == v = 0 \/ (n + 3 * k + s) % 7 # v
OffsOf(b, v, n) ==
  LET h == DecPageHdr(b) IN
  IF IsIndex(h) THEN <<>> ELSE
  LET gs == TLCEval([k \in 1..Groups(h) |-> DecGroup(b, Len(b), k)]) IN
  SortedSet(UNION {{UnLE16(gs[k].offs[s]) : s \in {t \in 1..16 : Pres(gs[k], t) /\ Kept(v, n, k, t)}} : k \in 1..Len(gs)})
(* What changes in the storage for a variant: presence bits and the number of present rows *)
Mask(g, v, n, k) == SumSeq([s \in 1..16 |-> IF Pres(g, s) /\ Kept(v, n, k, s) THEN 2 ^ (s - 1) ELSE 0])
PatchesOf(b, v, n) ==
  LET h == DecPageHdr(b) ps == Len(b) IN
  IF IsIndex(h) \/ v = 0 THEN <<>> ELSE
  <<<<ps * n + 24, RowCounts(NumRows(h), Len(OffsOf(b, v, n)))>>>>
  \o [k \in 1..Groups(h) |-> <<ps * n + ps - 36 * (k - 1) - 4, LE16(Mask(DecGroup(b, ps, k), v, n, k))>>]

StrAt(b, p) == At(b, p, Sql!Dec(Drop(b, p)).used)
NodeAt(b, p) == [parent |-> At(b, p, 4), id |-> At(b, p + 12, 4), folder |-> At(b, p + 16, 4), z |-> StrAt(b, p + 20)]
EntryAt(b, p) == [index |-> At(b, p, 4), track |-> At(b, p + 4, 4), pl |-> At(b, p + 8, 4)]
Far(b, p, base, i) == LET w == WidthOf(UnLE16(At(b, p, 2))) IN StrAt(b, p + BigInt(Rev(At(b, p + base + w * i, w))))
TrackAt(b, p) == [artist |-> At(b, p + 68, 4), id |-> At(b, p + 72, 4), title |-> Far(b, p, 92, 18), path |-> Far(b, p, 92, 21)]
ArtistAt(b, p) == [id |-> At(b, p + 4, 4), name |-> Far(b, p, 8, 1)]
RowsIn(ty, b, v, n) == LET os == OffsOf(b, v, n) IN TLCEval([i \in 1..Len(os) |-> LET p == DataStart + os[i] IN
  CASE ty = "PlaylistTree" -> NodeAt(b, p) [] ty = "PlaylistEntries" -> EntryAt(b, p) [] ty = "Tracks" -> TrackAt(b, p) [] OTHER -> ArtistAt(b, p)])
RowsOf(r, ty, v) == LET c == TLCEval(ChainOf(r, ty)) IN Cat(TLCEval([i \in 1..Len(c) |-> RowsIn(ty, PgOf(r, c[i]), IF ty = "PlaylistTree" /\ v = 2 THEN 0 ELSE v, c[i])]))
LibOf(r, v) == [nodes |-> RowsOf(r, "PlaylistTree", v), entries |-> IF Kind = "tree" THEN <<>> ELSE RowsOf(r, "PlaylistEntries", v),
                tracks |-> IF Kind = "tree" THEN <<>> ELSE RowsOf(r, "Tracks", v), artists |-> IF Kind = "list" THEN RowsOf(r, "Artists", v) ELSE <<>>]
Needed1 == CASE Kind = "tree" -> <<"PlaylistTree">> [] Kind = "list" -> <<"PlaylistTree", "PlaylistEntries", "Tracks", "Artists">> [] OTHER -> <<"PlaylistTree", "PlaylistEntries", "Tracks">>
PatchOf(r, v) == Cat([t \in 1..Len(Needed1) |-> LET c == ChainOf(r, Needed1[t]) IN
  Cat([i \in 1..Len(c) |-> PatchesOf(PgOf(r, c[i]), IF Needed1[t] = "PlaylistTree" /\ v = 2 THEN 0 ELSE v, c[i])])])

RInit == /\ rec \in Range(Input(0)) /\ variant \in 0..Variants /\ lib = LibOf(rec, variant) /\ how = "" /\ asked = FALSE
RNext == /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<lib, how, rec, variant>>
         /\ Emit(Rec(lib, [file |-> rec.path, patch |-> PatchOf(rec, variant)], TRUE))
(* Nothing on the pages is left out: without a variant there are as many rows as the pages count. *)
AllRows == LET c(ty) == ChainOf(rec, ty) IN
  variant = 0 => Len(lib.nodes) = SumSeq([i \in 1..Len(c("PlaylistTree")) |-> LET h == DecPageHdr(PgOf(rec, c("PlaylistTree")[i])) IN IF IsIndex(h) THEN 0 ELSE NumValid(h)])
=============================================================================
