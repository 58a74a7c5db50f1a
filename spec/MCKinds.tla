------------------------------- MODULE MCKinds -------------------------------
(* Tables of every type: what iterating the rows of a type yields, what changing rows that were yielded changes, and where the
   iteration ends because a page holds rows of another type than its table. Rows are seen as values (trees), storages as bytes.

   A page in memory: [pi: its number, ty: type of its rows ("": a type the kind of database does not know), index: BOOLEAN,
   live: present rows in the order of their offsets, <<offset, bytes>>]. *)
EXTENDS PageBuild
CONSTANTS Family, Deep, MaxOps

VARIABLES db, mem, seen, hist
vars == <<db, mem, seen, hist>>

RowKinds == {PlainTypes[i][2] : i \in 1..Len(PlainTypes)}
(* The k-th row of a type: all of them as long as each other, so that they may take each other's place *)
KRow(t, k) ==
  LET a == 33 + 16 * k IN
  IF HasOffs(t) THEN
    LET n == Len(Names(t))  zs == [i \in 1..n |-> IF (i + k) % 3 = 0 THEN S(<<65 + k, 97 + (i % 26)>>) ELSE IF n > 2 THEN S(<<48 + k>>) ELSE S(<<48 + k, 97>>)]
    IN PatchAll(FixedPart(Layout(t), a, FALSE), <<<<BaseOf(t), ArrayBytes(1, Spread(zs, Behind(t, FALSE), 0))>>>> \o ItemPatches(0, Spread(zs, Behind(t, FALSE), 0), zs))
  ELSE InPlace(Layout(t), a, [i \in 1..SqlCount(t) |-> S(<<65 + k, 97 + i>>)])
Stride(t) == AlignUp(Len(KRow(t, 0)), 4)
SizeFor(ts) == IF "Tracks" \in ts THEN 1024 ELSE 256
TypeOf(kind, pt) == TypeName(kind, pt)

(* Databases: [kind, name of the export, tables: sequence of [pt, pages]] as of PageBuild *)
Rows3(t, k) == [rows |-> [i \in 1..3 |-> KRow(t, k + i - 1)], dead |-> {}, rev |-> FALSE]
Rev3(t, k) == [Rows3(t, k) EXCEPT !.rev = TRUE]
Dead3(t, k, d) == [Rows3(t, k) EXCEPT !.dead = d]
Idx == [ents |-> <<LE32(16), EmptyEntry>>]
Tbl(w, pages) == [pt |-> w, pages |-> pages]
PT(t, pages) == Tbl(TypeWord("Plain", t), pages)
Seq17 == [i \in 1..Len(PlainTypes) |-> PlainTypes[i][2]]
Next1(t) == LET i == CHOOSE i \in 1..Len(Seq17) : Seq17[i] = t IN Seq17[(i % Len(Seq17)) + 1]
(* [kind, size, tables, own: where a page's own type word differs from that of its table: page number -> word] *)
D(name, kind, size, tables) == [name |-> name, kind |-> kind, size |-> size, tables |-> tables, own |-> <<>>]
OneKind(t) == D("one_" \o t, "Plain", SizeFor({t}), <<PT(t, <<Idx, Dead3(t, 0, {2}), Rev3(t, 3)>>)>>)
(* A table of type t with pages of rows of u behind one of its own *)
MixedDb(t, w, u) == [D("mix_" \o t \o "_" \o u, "Plain", SizeFor({t, u}), <<PT(t, <<DPage(<<KRow(t, 0)>>), IF u = "" THEN DPage(<<KRow("Menu", 1)>>) ELSE DPage(<<KRow(u, 1)>>), DPage(<<KRow(t, 2)>>)>>)>>)
                   EXCEPT !.own = <<<<2, w>>>>]
(* ... or with pages of the other type that hold no rows *)
HollowDb(t, u) == [D("hollow_" \o t \o "_" \o u, "Plain", SizeFor({t, u}), <<PT(t, <<DPage(<<KRow(t, 0)>>), [rows |-> <<KRow(u, 1)>>, dead |-> {1}, rev |-> FALSE], DPage(<<KRow(t, 2)>>)>>)>>)
                   EXCEPT !.own = <<<<2, TypeWord("Plain", u)>>>>]
(* A small one, for storage that fails at any of its uses *)
FaultDb(t) == D("fault_" \o t, "Plain", IF t = "Tracks" THEN 1024 ELSE 256, <<PT(t, <<Idx, Dead3(t, 0, {2})>>)>>)
AllDb(z) == D("all", "Plain", 1024, [i \in 1..Len(Seq17) |-> PT(Seq17[i], <<Rows3(Seq17[i], i % 3)>>)])
(* The same type twice: the first table is the one *)
TwiceDb(z) == D("twice", "Plain", 256, <<PT("Menu", <<Rows3("Menu", 0)>>), PT("Keys", <<Rows3("Keys", 0)>>), PT("Menu", <<Rows3("Menu", 3)>>), PT("Keys", <<Rows3("Keys", 3)>>)>>)
ExtDb(z) == D("ext", "Ext", 256, <<Tbl(TypeWord("Ext", "Tag"), <<Idx, Rows3("Tag", 0), Dead3("Tag", 3, {1})>>), Tbl(TypeWord("Ext", "TrackTag"), <<Rev3("TrackTag", 0)>>), Tbl(LE32(0), <<Rows3("Menu", 0)>>), Tbl(LE32(17), <<Rows3("Menu", 3)>>), Tbl(<<0, 0, 0, 255>>, <<Idx>>)>>)
(* Read as a database of the other kind *)
OddDb(kind) == D("odd_" \o kind, kind, 256, <<Tbl(LE32(8), <<Rows3("PlaylistEntries", 0)>>), Tbl(LE32(17), <<Rows3("Menu", 1)>>), Tbl(LE32(200), <<Rows3("Menu", 3), Idx>>)>>)
Words(d) == {d.tables[i].pt : i \in 1..Len(d.tables)}
Dbs == CASE Family = "one" -> {OneKind(t) : t \in RowKinds} \cup {TwiceDb(0), ExtDb(0), OddDb("Plain"), OddDb("Ext")}
         [] Family = "mixed" -> {MixedDb(t, TypeWord("Plain", u), u) : t \in RowKinds, u \in RowKinds} \cup {MixedDb(t, w, "") : t \in RowKinds, w \in {LE32(9), <<0, 0, 0, 1>>}}
                                \cup {HollowDb(t, Next1(t)) : t \in RowKinds}
         [] Family = "faults" -> {FaultDb(t) : t \in RowKinds} \cup {ExtDb(0)}
         [] OTHER -> {AllDb(0)}

(* Bytes of all of it; pages with a type word of their own are patched. *)
FirstPages(d) == Firsts(d.tables, 1)
OwnWord(d, p, w) == LET I == {i \in 1..Len(d.own) : d.own[i][1] = p} IN IF I = {} THEN w ELSE d.own[CHOOSE i \in I : TRUE][2]
(* Rows are spread evenly. *)
PlacesOf(p) == LET n == Len(p.rows)  st == AlignUp(Len(p.rows[1]), 4) IN [i \in 1..n |-> (IF p.rev THEN n - i ELSE i - 1) * st]
PageAt(d, i, j) == LET p == d.tables[i].pages[j]  n == FirstPages(d)[i] + j - 1
                       b == PageOf(d.size, n, OwnWord(d, n, d.tables[i].pt), IF j = Len(d.tables[i].pages) THEN 90 ELSE n + 1, p) IN
   IF Descriptor(p) = "ents" THEN PatchAll(b, PagePatches(d.kind, DecPage(d.kind, b, d.size), d.size)) ELSE b      \* index pages as they are written
HeaderBytes(d) == EncHeader([DbHeader(d.size, d.tables) EXCEPT !.nu = LE32(1 + SumSeq([i \in 1..Len(d.tables) |-> Len(d.tables[i].pages)]))])
Bytes(d) == HeaderBytes(d) \o Zeros(d.size - Len(HeaderBytes(d))) \o Cat([i \in 1..Len(d.tables) |-> Cat([j \in 1..Len(d.tables[i].pages) |-> PageAt(d, i, j)])])
(* What its pages hold *)
LiveOf(d, i, j) ==
  LET p == d.tables[i].pages[j]  n == FirstPages(d)[i] + j - 1 IN
  [pi |-> n, pt |-> OwnWord(d, n, d.tables[i].pt), ty |-> TypeOf(d.kind, OwnWord(d, n, d.tables[i].pt)), index |-> Descriptor(p) = "ents",
   live |-> IF Descriptor(p) = "ents" THEN <<>> ELSE
            LET o == PlacesOf(p)  keep == {s \in 1..Len(p.rows) : s \notin p.dead}
                ord == SortedSet({o[s] : s \in keep})
            IN [x \in 1..Len(ord) |-> <<ord[x], p.rows[CHOOSE s \in keep : o[s] = ord[x]]>>]]
MemOf(d) == TLCEval(Cat([i \in 1..Len(d.tables) |-> [j \in 1..Len(d.tables[i].pages) |-> LiveOf(d, i, j)]]))
TableOf(d, w) == LET I == {i \in 1..Len(d.tables) : d.tables[i].pt = w} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
PagesOf(d, i) == [j \in 1..Len(d.tables[i].pages) |-> FirstPages(d)[i] + j - 1]

--------------------------------------------------------------------------
RowTree(ty, b) == DecRow(ty, b, 0).t
(* The value itself, without what wraps it in a row *)
InnerTree(ty, b) == [s |-> StructName(ty), f |-> DecRow(ty, b, 0).f]
(* Rows of type t in the table at i: <<page, position>>, up to the first page with rows of another type *)
Found(d, m, i, t) ==
  LET ps == PagesOf(d, i)
      wrong == {k \in 1..Len(ps) : m[ps[k]].live # <<>> /\ m[ps[k]].ty # t}
      n == IF wrong = {} THEN Len(ps) ELSE (CHOOSE k \in wrong : \A l \in wrong : k <= l) - 1
  IN [all |-> wrong = {}, asked |-> IF wrong = {} THEN n ELSE n + 1,
      rows |-> Cat([k \in 1..n |-> [x \in 1..Len(m[ps[k]].live) |-> <<ps[k], x>>]])]
Log(rec) == hist' = Append(hist, rec)
Can == Len(hist) < MaxOps
(* Iterate; swap = <<i, j>>: exchange the values of the i-th and j-th row that were yielded *)
Iterate(t, swap) ==
  /\ Can
  /\ LET i == TableOf(db, TypeWord("Plain", t)) IN
     IF db.kind # "Plain" \/ i = 0 THEN Log([op |-> "rows", t |-> t, ok |-> FALSE]) /\ UNCHANGED <<mem, seen>>
     ELSE LET F == TLCEval(Found(db, mem, i, t))
              can == swap # <<>> /\ swap[2] <= Len(F.rows)
              val(x) == mem[F.rows[x][1]].live[F.rows[x][2]][2]
              m2 == IF ~can THEN mem ELSE LET a == F.rows[swap[1]] b == F.rows[swap[2]] IN
                    [[mem EXCEPT ![a[1]].live[a[2]][2] = val(swap[2])] EXCEPT ![b[1]].live[b[2]][2] = val(swap[1])]
          IN /\ swap # <<>> => can
             /\ mem' = m2
             /\ seen' = seen \cup {PagesOf(db, i)[k] : k \in 1..F.asked}
             /\ Log([op |-> "rows", t |-> t, ok |-> TRUE, all |-> F.all, swap |-> swap, rows |-> TLCEval([x \in 1..Len(F.rows) |-> InnerTree(t, val(x))])])
  /\ UNCHANGED db
(* Pages of a type, whatever kind of type it is *)
Traverse(w) ==
  /\ Can
  /\ LET i == TableOf(db, w) IN
     IF i = 0 THEN Log([op |-> "pages", w |-> w, ok |-> FALSE]) /\ UNCHANGED seen
     ELSE /\ seen' = seen \cup Range(PagesOf(db, i))
          /\ Log([op |-> "pages", w |-> w, ok |-> TRUE,
                  got |-> TLCEval([k \in 1..Len(PagesOf(db, i)) |-> LET p == mem[PagesOf(db, i)[k]] IN
                          [pi |-> p.pi, pt |-> p.pt, index |-> p.index, rows |-> [x \in 1..Len(p.live) |-> [off |-> p.live[x][1], tree |-> RowTree(p.ty, p.live[x][2])]]]])])
  /\ UNCHANGED <<db, mem>>
(* Exchange two rows of one page. *)
SwapOn(p, a, b) ==
  /\ Can /\ a < b /\ b <= Len(mem[p].live)
  /\ mem' = [mem EXCEPT ![p].live[a][2] = mem[p].live[b][2], ![p].live[b][2] = mem[p].live[a][2]]
  /\ seen' = seen \cup {p}
  /\ Log([op |-> "swap", p |-> p, a |-> mem[p].live[a][1], b |-> mem[p].live[b][1], ok |-> TRUE])
  /\ UNCHANGED db
(* Rows are written as values: from what their bytes mean. *)
Storage(d, m, sn) ==
  LET touched == SortedSet({p \in sn : ~m[p].index /\ m[p].ty # "" /\ m[p].live # MemOf(d)[p].live})
      b == Bytes(d)
  IN IF touched = <<>> THEN b
     ELSE PatchAll(b, Cat([k \in 1..Len(touched) |-> LET q == m[touched[k]] IN
            Cat([x \in 1..Len(q.live) |-> EncRow(q.ty, DecRow(q.ty, q.live[x][2], 0).f, touched[k] * d.size + DataStart + q.live[x][1])])]))
Known(d) == Family = "all"
FileRef(d) == IF Known(d) THEN "@all" ELSE Bytes(d)
Diff(d, new) == LET n == Len(new) \div d.size  old == Bytes(d) IN
   LET C == TLCEval({p \in 0..(n - 1) : At(new, p * d.size, d.size) # At(old, p * d.size, d.size)}) s == SortedSet(C) IN [i \in 1..Len(s) |-> <<s[i], At(new, s[i] * d.size, d.size)>>]
(* The storage fails at any use of it while something is tried: an error, nothing has changed, and it can be tried again (C04).
   An attempt is a step that leaves all as it is; histories for which they are to be inserted everywhere are marked. *)
Attempt == Family = "faults" /\ UNCHANGED vars
Ready == hist # <<>> /\ hist[Len(hist)].op # "end"
Finish == /\ Ready
          /\ hist' = Append(hist, [op |-> "end"])
          /\ Emit([k |-> "kinds", faults |-> Family = "faults", name |-> db.name, db |-> db.kind, ps |-> db.size, file |-> FileRef(db), ops |-> hist, out |-> Diff(db, Storage(db, mem, seen))])
          /\ UNCHANGED <<db, mem, seen>>
MyTypes == CASE Family \in {"mixed", "faults"} /\ db.kind = "Plain" -> {TypeOf("Plain", db.tables[1].pt)}
             [] OTHER -> RowKinds
SwapsOf == IF Family = "all" THEN {<<1, 3>>} ELSE {<<1, 2>>, <<1, 3>>, <<2, 4>>, <<1, 5>>}
Init == /\ db \in Dbs
        /\ (Known(db) => Emit([k |-> "def", name |-> "all", value |-> Bytes(db)]))
        /\ mem = MemOf(db) /\ seen = {} /\ hist = <<>>
Busy == {t \in MyTypes : TableOf(db, TypeWord("Plain", t)) # 0}
Idle == MyTypes \ Busy
Next == \/ /\ hist = <<>> \/ Ready
           /\ \/ \E t \in Busy : Iterate(t, <<>>)
              \/ hist = <<>> /\ \E t \in Idle : Iterate(t, <<>>)
              \/ \E t \in Busy, s \in SwapsOf : Iterate(t, s)
              \/ Family \notin {"all", "faults"} /\ \E w \in Words(db) \cup {LE32(10)} : Traverse(w)
              \/ (Family = "one" \/ (Family = "faults" /\ db.kind = "Ext")) /\ \E p \in 1..Len(mem) : \E a \in 1..3, b \in 1..3 : mem[p].ty # "" /\ SwapOn(p, a, b)
        \/ Finish \/ Attempt
Spec == Init /\ [][Next]_vars
View2 == <<db.name, mem, seen, hist>>

--------------------------------------------------------------------------
Last == hist[Len(hist)]
WellFormed == \A p \in 1..Len(mem) : mem[p].ty # "" => \A x \in 1..Len(mem[p].live) :
    LET r == DecRow(mem[p].ty, mem[p].live[x][2], 0) IN r.ok /\ ~r.odd
(* What is iterated are the rows that the pages in the file hold (C05): read them off the bytes. *)
FromBytes == hist # <<>> /\ Last.op = "rows" /\ Last.ok /\ Last.all /\ Family # "all" =>
    LET b == Storage(db, mem, seen)
        ps == PagesOf(db, TableOf(db, TypeWord("Plain", Last.t)))
        trees == Cat([k \in 1..Len(ps) |-> LET pg == DecPage(db.kind, At(b, ps[k] * db.size, db.size), db.size) IN
                        IF IsIndex(pg.h) THEN <<>> ELSE [x \in 1..Len(pg.c.rows) |-> pg.c.rows[x].t.f[1][2].f[1][2]]])
    IN Last.swap = <<>> => trees = Last.rows
(* Changing rows changes no other page. *)
OthersStay == LET b == Storage(db, mem, seen) IN \A p \in 1..Len(mem) : p \notin seen => At(b, p * db.size, db.size) = At(Bytes(db), p * db.size, db.size)
=============================================================================
