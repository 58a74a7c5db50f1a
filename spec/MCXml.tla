-------------------------------- MODULE MCXml --------------------------------
(* Life of an XML document: element tree, rendered in some style, read, written, read again. *)
EXTENDS Xml

CONSTANTS Tool,     \* TRUE: also what dump-xml shows
          Family, MaxNodes, Deep

VARIABLES stage, el, style, val, out
vars == <<stage, el, style, val, out>>

N(s) == Num(s, s)
CountN(s) == [i |-> s, ok |-> TRUE, d |-> s, count |-> TRUE]
NegCount == [i |-> "-1", ok |-> TRUE, d |-> "-1", count |-> FALSE]
Ints == {N("0"), N("-1"), N("2147483647"), N("-2147483648"), N("7")}
Longs == Ints \cup {N("9223372036854775807"), N("-9223372036854775808"), N("4294967296")}
Fracs == {Num("0", "0.0"), Num("5", "5.0"), Num("0.00", "0.0"), Num("-0.25", "-0.25"), Num("128.04", "128.04"), Num("1e3", "1000.0"), Num("44100", "44100.0"), Num("0.001", "0.001"),
          \* as exact as 64 bits allow, and beyond any fixed number of digits
          Num("0.30000000000000004", "0.30000000000000004"), Num("123456789.12345679", "123456789.12345679"), Num("16777217", "16777217.0"), Num("9007199254740993", "9007199254740992.0"),
          Num("100000000000000000000000", "1e23"), Num("1.7976931348623157e308", "1.7976931348623157e308"), Num("5e-324", "5e-324"), Num("0.0000001", "1e-7"), Num("-0", "-0.0"),
          Num("1e999", "inf"), Num("-inf", "-inf")}
BadInts == {BadNum("2147483648"), BadNum(""), BadNum("x"), BadNum("1.5"), BadNum("0x10"), BadNum("-2147483649")}
BadLongs == {BadNum("9223372036854775808"), BadNum(""), BadNum("1.5")}
BadFracs == {BadNum(""), BadNum("x"), BadNum("1,5")}
Texts == {T(t) : t \in {<<>>, <<65>>, <<60>>, <<62>>, <<38>>, <<34>>, <<39>>, <<60, 62, 38, 34, 39>>, <<93, 93, 62>>, <<38, 97, 109, 112, 59>>, <<38, 35, 54, 53, 59>>,
                        <<228>>, <<8364>>, <<128512>>, <<32>>, <<32, 65, 32>>, <<65, 32, 32, 66>>, <<48>>, <<45, 49>>, <<116, 114, 117, 101>>, <<47, 62>>, <<37, 50, 48>>,
                        <<65, 10, 66>>, <<9, 65>>, <<65, 13>>, <<13, 10>>, <<65279, 65>>, <<60, 33, 45, 45>>, <<160>>, <<123, 125>>, [i \in 1..300 |-> 64 + (i % 26)], [i \in 1..130 |-> IF i % 2 = 0 THEN 38 ELSE 8364]}}
Sample(ty) == CASE ty = "x" -> Texts [] ty = "i" -> Ints [] ty = "l" -> Longs [] ty = "f" -> Fracs
Wrong(ty) == CASE ty = "x" -> {} [] ty = "i" -> BadInts [] ty = "l" -> BadLongs [] ty = "f" -> BadFracs
One(ty, i) == CASE ty = "x" -> T(<<65 + i, 38, 66>>) [] ty \in {"i", "l"} -> N(ToString(i + 1)) [] ty = "f" -> Num(ToString(i) \o ".5", ToString(i) \o ".5")

Full(A) == [i \in 1..Len(A) |-> <<A[i][2], One(A[i][3], i)>>]
Need(A) == SelectSeq(Full(A), LAMBDA a : \E i \in 1..Len(A) : A[i][2] = a[1] /\ A[i][4])
With(attrs, name, v) == [i \in 1..Len(attrs) |-> IF attrs[i][1] = name THEN <<name, v>> ELSE attrs[i]]
Without(attrs, name) == SelectSeq(attrs, LAMBDA a : a[1] # name)
Only(A, names) == SelectSeq(Full(A), LAMBDA a : a[1] \in names)

Track0 == El("TRACK", Need(TrackA), <<>>)
TempoEl(k) == El("TEMPO", [Full(TempoA) EXCEPT ![1] = <<"Inizio", Num(ToString(k) \o ".25", ToString(k) \o ".25")>>], <<>>)
MarkEl(k) == El("POSITION_MARK", IF k = 2 THEN Without(Full(MarkA), "End") ELSE Full(MarkA), <<>>)
Entry(k) == El("TRACK", <<<<"Key", N(ToString(k))>>>>, <<>>)
FolderEl(name, kids) == El("NODE", <<<<"Type", T(<<48>>)>>, <<"Name", T(name)>>, <<"Count", CountN(ToString(Len(kids)))>>>>, kids)
ListEl(name, kids) == El("NODE", <<<<"Name", T(name)>>, <<"Type", T(<<49>>)>>, <<"KeyType", T(<<48>>)>>, <<"Entries", CountN(ToString(Len(kids)))>>>>, kids)
Root(kids) == El("NODE", <<<<"Type", T(<<48>>)>>, <<"Name", T(<<82, 79, 79, 84>>)>>, <<"Count", CountN(ToString(Len(kids)))>>>>, kids)
Doc(tracks, nodes) == El("DJ_PLAYLISTS", Full(DocumentA),
  <<El("PRODUCT", Full(ProductA), <<>>), El("COLLECTION", <<<<"Entries", CountN(ToString(Len(tracks)))>>>>, tracks), El("PLAYLISTS", <<>>, <<Root(nodes)>>)>>)
DocWith(i, x) == [Doc(<<>>, <<>>) EXCEPT !.kids[i] = x]

(* Tracks: every optional attribute alone, all but one, all values, bad values; marks and tempos *)
TrackDocs ==
  {Doc(<<El("TRACK", a, <<>>)>>, <<>>) : a \in
     {Full(TrackA), Need(TrackA), Rev(Full(TrackA))} \cup {Without(Full(TrackA), TrackA[i][2]) : i \in 1..Len(TrackA)}
     \cup {Only(TrackA, {"TrackID", "Location", TrackA[i][2]}) : i \in 1..Len(TrackA)}
     \cup {Only(TrackA, {"TrackID", "Location"} \cup {TrackA[i][2] : i \in {x \in 1..Len(TrackA) : (x * m + c) % 5 < 2}}) : m \in 1..4, c \in 0..4}
     \cup UNION {{With(Full(TrackA), TrackA[i][2], v) : v \in Sample(TrackA[i][3]) \cup Wrong(TrackA[i][3])} : i \in 1..Len(TrackA)}}
  \cup {Doc(<<El("TRACK", Need(TrackA), [i \in 1..n |-> TempoEl(i)] \o [i \in 1..m |-> MarkEl(i)])>> \o [i \in 1..k |-> Track0], <<>>) : n \in 0..3, m \in 0..3, k \in 0..2}
  \cup {Doc([i \in 1..n |-> El("TRACK", With(Need(TrackA), "TrackID", N(ToString(i))), <<>>)], <<>>) : n \in 0..4}
  \cup {Doc(<<El("TRACK", Need(TrackA), <<[TempoEl(1) EXCEPT !.attrs = a]>>)>>, <<>>) : a \in
         {Without(Full(TempoA), TempoA[i][2]) : i \in 1..4} \cup {Rev(Full(TempoA))} \cup UNION {{With(Full(TempoA), TempoA[i][2], v) : v \in Sample(TempoA[i][3]) \cup Wrong(TempoA[i][3])} : i \in 1..4}}
  \cup {Doc(<<El("TRACK", Need(TrackA), <<[MarkEl(1) EXCEPT !.attrs = a]>>)>>, <<>>) : a \in
         {Without(Full(MarkA), MarkA[i][2]) : i \in 1..5} \cup {Rev(Full(MarkA))} \cup UNION {{With(Full(MarkA), MarkA[i][2], v) : v \in Sample(MarkA[i][3]) \cup Wrong(MarkA[i][3])} : i \in 1..5}}
(* The frame: product, version, missing or repeated parts *)
FrameDocs ==
  {[Doc(<<>>, <<>>) EXCEPT !.attrs = a] : a \in {<<>>} \cup {<<<<"Version", v>>>> : v \in Texts}}
  \cup {DocWith(1, El("PRODUCT", a, <<>>)) : a \in {Without(Full(ProductA), ProductA[i][2]) : i \in 1..3} \cup UNION {{With(Full(ProductA), ProductA[i][2], v) : v \in Texts} : i \in 1..3}
                                                   \cup {Rev(Full(ProductA))}}
  \cup {DocWith(2, El("COLLECTION", a, k)) : a \in {<<>>} \cup {<<<<"Entries", v>>>> : v \in Ints \cup BadInts}, k \in {<<>>, <<Track0>>}}
  \cup {[Doc(<<Track0>>, <<>>) EXCEPT !.kids = k] : k \in LET d == Doc(<<Track0>>, <<ListEl(<<65>>, <<>>)>>).kids IN {<<>>, <<d[1], d[2]>>, <<d[1], d[3]>>, <<d[2], d[3]>>, <<d[3], d[2], d[1]>>, <<d[2], d[1], d[3]>>}}
  \cup {DocWith(3, El("PLAYLISTS", <<>>, k)) : k \in {<<>>} \cup {<<El("NODE", a, <<>>)>> : a \in {<<>>, <<<<"Count", CountN("0")>>>>, <<<<"Name", T(<<65>>)>>>>, <<<<"Type", T(<<48>>)>>, <<"Name", T(<<>>)>>>>}}}

(* Playlist trees: all shapes of up to MaxNodes nodes, folders (0) or playlists with 1..3 -> 0..2 entries *)
TreesOver(F, n) == {[s |-> "f", k |-> f] : f \in F[n - 1]} \cup IF n = 1 THEN {[s |-> "p", k |-> <<>>], [s |-> "q", k |-> <<>>]} ELSE {}
RECURSIVE Forests(_)        \* sets of forests with 0..n nodes
Forests(n) == IF n = 0 THEN (0 :> {<<>>})
              ELSE LET F == TLCEval(Forests(n - 1)) IN TLCEval((n :> UNION {{<<t>> \o f : t \in TreesOver(F, m), f \in F[n - m]} : m \in 1..n}) @@ F)
RECURSIVE TreeEl(_, _)
TreeEl(t, path) == IF t.s = "f" THEN FolderEl(path, [i \in 1..Len(t.k) |-> TreeEl(t.k[i], path \o <<48 + i>>)])
                   ELSE ListEl(path, IF t.s = "p" THEN <<>> ELSE <<Entry(3), Entry(1)>>)
TreeDocs == {Doc(<<>>, [i \in 1..Len(f) |-> TreeEl(f[i], <<64 + i>>)]) : f \in LET F == Forests(MaxNodes) IN UNION {F[n] : n \in 0..MaxNodes}}
RECURSIVE Nested(_, _)
Nested(n, leaf) == IF n = 0 THEN <<leaf>> ELSE <<FolderEl(<<65>>, Nested(n - 1, leaf))>>
DeepDocs == {Doc(<<>>, Nested(n, l)) : n \in {1, 2, 50, 98, 99, 100, 101, 150}, l \in {ListEl(<<65>>, <<Entry(1)>>), FolderEl(<<66>>, <<>>)}}

(* Attributes of nodes: every order, every subset, bad values, counts that do not fit *)
Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in {q \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : i # j => q[i] # q[j]}}
Subs(s) == {SelectSeq(s, LAMBDA a : a[1] \in x) : x \in SUBSET {s[i][1] : i \in 1..Len(s)}}
PlA == ListEl(<<76>>, <<Entry(1)>>).attrs
FoA == FolderEl(<<70>>, <<>>).attrs
Both == <<<<"Name", T(<<78>>)>>, <<"Count", CountN("1")>>, <<"KeyType", T(<<48>>)>>, <<"Entries", CountN("1")>>>>
NodeDocs ==
  {Doc(<<>>, <<El("NODE", a, <<Entry(1), Entry(2)>>), ListEl(<<90>>, <<Entry(9)>>)>>) : a \in UNION {Perms(x) : x \in Subs(PlA)}}
  \cup {Doc(<<>>, <<El("NODE", a, <<ListEl(<<90>>, <<Entry(9)>>)>>), ListEl(<<90>>, <<Entry(9)>>)>>) : a \in UNION {Perms(x) : x \in Subs(FoA)}}
  \cup {Doc(<<>>, <<El("NODE", With(PlA, "Entries", v), <<Entry(1)>>)>>) : v \in {CountN("0"), CountN("7"), CountN("256"), CountN("65536"), CountN("70001"), CountN("4294967296"), NegCount, BadNum("x"), BadNum("")}}
  \cup {Doc(<<>>, <<El("NODE", With(FoA, "Count", v), <<>>)>>) : v \in {CountN("0"), CountN("7"), CountN("256"), CountN("65536"), CountN("70001"), CountN("4294967296"), NegCount, BadNum("x"), BadNum("")}}
  \cup {Doc(<<>>, <<El("NODE", With(a, "Type", T(v)), <<>>)>>) : a \in {PlA, FoA}, v \in {<<>>, <<50>>, <<48, 49>>, <<45, 49>>, <<70>>}}
  \cup {Doc(<<>>, <<El("NODE", With(PlA, n, v), <<Entry(1)>>)>>) : n \in {"Name", "KeyType"}, v \in Texts}
  \cup {Doc(<<>>, <<El("NODE", With(FoA, "Name", v), <<>>)>>) : v \in Texts}
  \cup {Doc(<<>>, <<ListEl(<<65>>, <<El("TRACK", a, <<>>)>>)>>) : a \in {<<>>} \cup {<<<<"Key", v>>>> : v \in Ints \cup BadInts}}

(* Many of everything; the parameter only keeps TLC from evaluating this for the other families *)
BulkDocs(n) ==
  {Doc([i \in 1..n |-> El("TRACK", With(Need(TrackA), "TrackID", N(ToString(i))), <<>>)], <<>>),
   Doc(<<El("TRACK", Need(TrackA), [i \in 1..n |-> TempoEl(i)] \o [i \in 1..(n + 1) |-> MarkEl(i % 3)])>>, <<>>),
   Doc(<<>>, <<ListEl(<<65>>, [i \in 1..n |-> Entry(i)]), ListEl(<<66>>, [i \in 1..256 |-> Entry(7)])>>),
   Doc(<<>>, <<FolderEl(<<65>>, [i \in 1..n |-> IF i % 2 = 0 THEN ListEl(<<65>>, <<Entry(i)>>) ELSE FolderEl(<<66>>, <<>>)])>>),
   Doc(<<>>, [i \in 1..n |-> IF i % 2 = 0 THEN ListEl(<<65>>, <<Entry(i)>>) ELSE FolderEl(<<66>>, <<>>)]),
   Doc(<<>>, <<ListEl(<<65>>, [i \in 1..66000 |-> Entry(i)])>>)}

Docs == CASE Family = "tracks" -> TrackDocs [] Family = "frame" -> FrameDocs [] Family = "trees" -> TreeDocs \cup DeepDocs [] Family = "nodes" -> NodeDocs [] Family = "bulk" -> BulkDocs(300)
Styles == IF Deep \/ Family = "frame" THEN 0..3 ELSE {0, 1}

Init == /\ el \in Docs /\ style \in Styles /\ stage = "stored" /\ val = No /\ out = El("", <<>>, <<>>)
Read == /\ stage = "stored"
        /\ val' = ReadDoc(el)
        /\ stage' = IF val'.ok THEN "read" ELSE "failed"
        /\ IF val'.ok THEN TRUE ELSE Emit([k |-> "xml", tool |-> Tool, el |-> el, style |-> style, ok |-> FALSE])
        /\ UNCHANGED <<el, style, out>>
Write == /\ stage = "read"
         /\ out' = WriteDoc(val.t)
         /\ stage' = "written"
         /\ Emit([k |-> "xml", tool |-> Tool, el |-> el, style |-> style, ok |-> TRUE, tree |-> val.t, out |-> WriteDoc(val.t)])
         /\ UNCHANGED <<el, style, val>>
Next == Read \/ Write
Spec == Init /\ [][Next]_vars

(* Reading what was written: counts are numbers again, texts normalised, the root has no type. *)
RECURSIVE Again(_)
AgainV(v) == IF "x" \in DOMAIN v THEN T(NormText(v.x)) ELSE [i |-> v.d, ok |-> TRUE, d |-> v.d, count |-> TRUE]
Again(e) == El(e.tag, [i \in 1..Len(e.attrs) |-> <<e.attrs[i][1], AgainV(e.attrs[i][2])>>], TLCEval([i \in 1..Len(e.kids) |-> Again(e.kids[i])]))
RECURSIVE Broken(_)
Broken(e) == (\E i \in 1..Len(e.attrs) : IF "x" \in DOMAIN e.attrs[i][2] THEN Range(e.attrs[i][2].x) \cap {9, 10, 13} # {} ELSE FALSE) \/ \E i \in 1..Len(e.kids) : Broken(e.kids[i])
Survives == stage = "written" => LET r == ReadDoc(Again(out)) IN r.ok /\ (~Broken(el) => r.t = val.t)
RECURSIVE CountsRight(_)
CountsRight(e) == (e.tag = "NODE" => \A i \in 1..Len(e.attrs) : e.attrs[i][1] \in {"Count", "Entries"} => e.attrs[i][2].d = ToString(Len(e.kids)))
                  /\ \A i \in 1..Len(e.kids) : CountsRight(e.kids[i])
StoredCounts == stage = "written" => CountsRight(out)
=============================================================================
