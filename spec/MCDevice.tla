------------------------------ MODULE MCDevice ------------------------------
(* A device database that grows row by row, and what a user gets from it: the playlist tree, its listing, playlist files. *)
EXTENDS PageBuild

CONSTANTS Family, Max, Deep
Dv == INSTANCE Device

VARIABLES lib, how, asked
vars == <<lib, how, asked>>

IdW(k) == CASE k = 0 -> <<0, 0, 0, 0>> [] k = 1 -> <<1, 0, 0, 0>> [] k = 2 -> <<1, 0, 1, 0>> [] k = 3 -> <<1, 0, 0, 128>> [] k = 4 -> <<1, 1, 0, 0>> [] OTHER -> LE32(k)
Name(i) == S(<<64 + i>>)
Node(id, parent, folder, z) == [id |-> IdW(id), parent |-> IdW(parent), folder |-> folder, z |-> z]
Yes1 == <<1, 0, 0, 0>>
YesBig == <<0, 0, 0, 128>>
Entry1(pl, index, track) == [pl |-> pl, index |-> index, track |-> track]
Artist1(id, z) == [id |-> id, name |-> z]
Track1(id, artist, title, path) == [id |-> id, artist |-> artist, title |-> title, path |-> path]
Nothing == [nodes |-> <<>>, entries |-> <<>>, tracks |-> <<>>, artists |-> <<>>]

(* Rows *)
(* fields and texts that a user of playlists is not told about have values that would be noticed *)
NodeRow(n) == n.parent \o (IF n.id[1] % 2 = 1 THEN Zeros(4) ELSE W(201)) \o LE32((7 * n.id[1] + 3 * Len(n.z) + 5 * SumSeq(n.z)) % 11) \o n.id \o n.folder \o n.z
EntryRow(e) == e.index \o e.track \o e.pl
ArtistRow(a) == Patch(WithOffs("Artists", <<a.name>>, <<14>>, FALSE), 4, a.id)
TrackRow(t) == LET zs == [i \in 1..21 |-> IF i = 18 THEN t.title ELSE IF i = 21 THEN t.path ELSE IF i \in {13, 15, 17, 19, 20} THEN S(<<47, 64 + i>>) ELSE S(<<>>)] IN
  PatchAll(WithOffs("Tracks", zs, Spread(zs, Behind("Tracks", TRUE), 0), TRUE), <<<<12, IdW(1)>>, <<36, IdW(2)>>, <<44, IdW(1)>>, <<68, t.artist>>, <<72, t.id>>>>)
NodeRows(l) == [i \in 1..Len(l.nodes) |-> NodeRow(l.nodes[i])]
EntryRows(l) == [i \in 1..Len(l.entries) |-> EntryRow(l.entries[i])]
ArtistRows(l) == [i \in 1..Len(l.artists) |-> ArtistRow(l.artists[i])]
TrackRows(l) == [i \in 1..Len(l.tracks) |-> TrackRow(l.tracks[i])]

(* Ways to lay rows out: all in one page, one by one behind an index page, backwards with a deleted one, behind an empty page *)
RECURSIVE Chunks(_, _)
Chunks(rows, n) == IF Len(rows) <= n THEN <<DPage(rows)>> ELSE <<DPage(Take(rows, n))>> \o Chunks(Drop(rows, n), n)
Pages(rows, dead, lay, per) ==
  CASE lay = 0 -> Chunks(rows, per)
    [] lay = 1 -> <<[ents |-> <<W(1), EmptyEntry>>]>> \o Chunks(rows, 1)
    [] lay = 2 -> <<[rows |-> <<dead>> \o Rev(rows), dead |-> {1}, rev |-> TRUE]>>
    [] OTHER -> <<DPage(<<>>)>> \o Chunks(rows, per)
DeadNode == NodeRow(Node(9, 0, IdW(0), S(<<68, 69, 65, 68>>)))
Tree(l, lay, per) == PTable("PlaylistTree", Pages(NodeRows(l), DeadNode, lay, per))
Full(l, lay, per) ==
  <<PTable("Tracks", Pages(TrackRows(l), TrackRow(Track1(IdW(1), IdW(1), S(<<68>>), S(<<68>>))), lay, 2)), PTable("Genres", <<DPage(<<>>)>>),
    PTable("Artists", Pages(ArtistRows(l), ArtistRow(Artist1(IdW(1), S(<<68>>))), lay, per)), Tree(l, lay, per),
    PTable("PlaylistEntries", Pages(EntryRows(l), EntryRow(Entry1(IdW(1), IdW(1), IdW(1))), lay, per))>>

--------------------------------------------------------------------------
(* Which libraries *)
BadZ == Sql!Long(144, <<0, 216, 65, 0>>)                        \* lone surrogate
SomeNames == {S(<<>>), S(<<65>>), S(<<46>>), S(<<46, 46>>), S(<<46, 46, 47, 120>>), S(<<47, 101>>), S(<<65, 47, 66>>), S(<<65, 95, 66>>), S(<<65, 46, 109, 51, 117>>),
  Wide(<<228, 8364>>), S(<<65, 32, 40, 50, 41>>), S(<<97>>), S(<<65, 32>>), S(<<92, 58>>)} \cup
  (IF Deep THEN {S(<<95>>), S(<<46, 46, 46>>), S(<<47>>), S(<<65, 0, 66>>), S(<<46, 47, 46>>), S(<<32>>), S(<<32, 65>>), S(<<9>>), S(<<65, 63, 42>>), Wide(<<196>>), Wide(<<65, 776>>), S(<<65, 46>>), S(<<46, 109, 51, 117>>), BadZ, Wide(<<128512>>)} ELSE {})
LongZ(n) == S(Rep(76, n))
TrackSet == {Track1(IdW(i), IdW(a), z, S(<<47, 67, 47, 48 + i, 46, 109>>)) : i \in {1, 2}, a \in {1, 2, 3}, z \in (IF Deep THEN {S(<<84, 49>>), Wide(<<8364>>)} ELSE {Wide(<<8364>>)})}
ArtistSet == {Artist1(IdW(i), z) : i \in {1, 2}, z \in {S(<<88>>), Wide(<<228>>), S(<<>>)} \cup (IF Deep THEN {BadZ} ELSE {})}
TwoTracks == <<Track1(IdW(1), IdW(1), S(<<84, 49>>), S(<<47, 67, 47, 49>>)), Track1(IdW(2), IdW(3), S(<<84, 50>>), S(<<67, 32, 47, 50>>))>>
TwoArtists == <<Artist1(IdW(2), S(<<88, 50>>)), Artist1(IdW(1), S(<<88, 49>>))>>
TwoNodes == <<Node(1, 0, Yes1, S(<<70>>)), Node(2, 1, IdW(0), S(<<80>>))>>
TwoEntries == <<Entry1(IdW(2), IdW(2), IdW(2)), Entry1(IdW(2), IdW(1), IdW(1))>>
Indices == {IdW(0), IdW(1), IdW(2), IdW(3)}
EntrySet == {Entry1(IdW(p), i, IdW(t)) : p \in (IF Deep THEN {1, 2} ELSE {2}), i \in (IF Deep THEN Indices ELSE {IdW(1), IdW(2), IdW(3)}), t \in {1, 2, 4}}
NodeSet(i) == {Node(id, p, f, Name(i)) : id \in 0..3, p \in 0..3, f \in {IdW(0), Yes1}}
SmallNodes(i) == {Node(id, p, f, Name(i)) : id \in 1..3, p \in 0..2, f \in {IdW(0), Yes1}}
Chain(n, f) == [i \in 1..n |-> Node(1000 + i, IF i = 1 THEN 0 ELSE 999 + i, f, S(<<65>>))]
OddTrees ==
  {[Nothing EXCEPT !.nodes = Chain(n, f)] : n \in {50, 99, 100, 101, 102, 103, 400} \cup (IF Deep THEN {5000} ELSE {}), f \in {Yes1, YesBig}}
  \cup {[Nothing EXCEPT !.nodes = Chain(n, IdW(0))] : n \in {3, 150}}
  \cup {[Nothing EXCEPT !.nodes = Append(Chain(n, Yes1), Node(1000, 1000 + n, IdW(0), S(<<80>>)))] : n \in {99, 100, 101}}
  \cup {[Nothing EXCEPT !.nodes = Rev(Chain(n, Yes1))] : n \in {60, 101, 102}}
  \cup {[Nothing EXCEPT !.nodes = <<Node(1, 0, Yes1, z1), Node(2, p, f, z2), Node(3, 1, f, S(<<67>>))>>] : z1 \in {BadZ, S(<<>>), Wide(<<228, 10, 66>>)}, z2 \in {BadZ, S(<<10>>), LongZ(130)}, p \in {0, 1, 2, 4}, f \in {Yes1, YesBig, IdW(0)}}
  \cup {[Nothing EXCEPT !.nodes = <<Node(1, 0, f, S(<<65>>))>> \o [i \in 1..n |-> Node(100 + i, 1, IF i % 3 = 0 THEN Yes1 ELSE IdW(0), S(<<65 + (i % 26)>>))]] : n \in {14, 15, 16, 17, 40, 200}, f \in {Yes1, IdW(0)}}
ShapeNodes(shape, a, b, c) ==
  CASE shape = 1 -> <<Node(1, 0, Yes1, a), Node(2, 1, IdW(0), b), Node(3, 0, IdW(0), c)>>
    [] shape = 2 -> <<Node(1, 0, Yes1, a), Node(2, 0, Yes1, b), Node(3, 1, IdW(0), c), Node(4, 2, IdW(0), c)>>
    [] shape = 3 -> <<Node(1, 0, IdW(0), a), Node(2, 0, IdW(0), b), Node(3, 0, IdW(0), c)>>
    [] shape = 4 -> <<Node(1, 0, Yes1, a), Node(2, 1, Yes1, b), Node(3, 2, IdW(0), c)>>
    [] OTHER -> <<Node(3, 0, IdW(0), a), Node(1, 0, Yes1, b), Node(2, 1, IdW(0), c), Node(4, 0, Yes1, a)>>
Shapes == {[Nothing EXCEPT !.nodes = ShapeNodes(s, a, b, c), !.tracks = TwoTracks, !.entries = <<Entry1(IdW(3), IdW(0), IdW(1)), Entry1(IdW(2), IdW(0), IdW(2))>>] :
             s \in 1..5, a \in SomeNames, b \in SomeNames, c \in ({S(<<65>>), S(<<46, 46>>), S(<<65, 47, 66>>), S(<<65, 46, 109, 51, 117>>)} \cup (IF Deep THEN {S(<<>>), BadZ} ELSE {}))}
PathZ == {S(<<>>), S(<<47>>), S(<<47, 47, 97>>), S(<<97>>), S(<<47, 46, 46, 47, 97>>), Wide(<<47, 228>>), S(<<47, 97, 32, 98>>), S(<<32, 47, 97, 32>>), S(<<47, 65, 47>>), S(<<47, 97, 10, 98>>), BadZ}
OddExports ==
  {[Nothing EXCEPT !.nodes = TwoNodes, !.entries = TwoEntries, !.tracks = <<Track1(IdW(1), IdW(1), BadZ, p), Track1(IdW(2), IdW(1), S(<<>>), q)>>] : p \in PathZ, q \in PathZ}
  \cup {[Nothing EXCEPT !.nodes = <<Node(1, 0, Yes1, LongZ(n)), Node(2, 0, IdW(0), S(<<65>>)), Node(3, 1, IdW(0), LongZ(m)), Node(4, 0, IdW(0), S(<<66>>))>>, !.tracks = TwoTracks] :
        n \in {1, 255, 256}, m \in {1, 251, 252}}
  \cup {[Nothing EXCEPT !.nodes = [i \in 1..n |-> Node(i, 0, IdW(0), S(<<65>>))] \o <<Node(50, 0, IdW(0), S(<<65, 32, 40, 51, 41>>))>>, !.tracks = TwoTracks,
                        !.entries = [i \in 1..n |-> Entry1(IdW(i), IdW(0), IdW(1 + (i % 2)))]] : n \in {2, 3, 4, 12}}
  \cup {[Nothing EXCEPT !.nodes = Chain(n, Yes1) \o <<Node(1, 1000 + n, IdW(0), S(<<65>>))>>] : n \in {20, 100, 101}}
  \cup {Nothing, [Nothing EXCEPT !.nodes = <<Node(1, 0, Yes1, S(<<70>>)), Node(2, 1, Yes1, S(<<71>>))>>]}

(* Many of everything *)
Scatter(i, n) == (i * 7) % n
Libs(nt, ne) == [nodes |-> Chain(3, Yes1) \o <<Node(1, 1002, IdW(0), S(<<80>>)), Node(2, 1003, IdW(0), Wide(<<8364>>)), Node(3, 0, IdW(0), S(<<81>>)), Node(70000, 1001, IdW(0), S(<<82>>))>>,
   tracks |-> [i \in 1..nt |-> Track1(LE32(60 * i), LE32(1 + (i % 5)), S(<<84, 65 + (i % 26)>>), S(<<47, 67, 47, 65 + (i \div 26), 65 + (i % 26)>>))],
   artists |-> [i \in 1..5 |-> Artist1(LE32(6 - i), S(<<88, 48 + i>>))],
   entries |-> [i \in 1..ne |-> Entry1(LE32(CASE i % 5 = 0 -> 2 [] i % 7 = 0 -> 70000 [] i % 11 = 0 -> 4 [] OTHER -> 1), LE32(Scatter(i, ne)), LE32(60 * (1 + Scatter(i, nt + 1))))]]
Extremes == {<<0, 0, 0, 0>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>, <<0, 1, 0, 0>>, <<255, 0, 0, 0>>}
Alike(n, same) == [Nothing EXCEPT !.nodes = <<Node(1, 0, IdW(0), S(<<80>>)), Node(0, 0, IdW(0), S(<<90>>)), Node(2, 0, Yes1, S(<<70>>))>>,
   !.tracks = [i \in 1..3 |-> Track1(LE32(i - 1), LE32(i - 1), S(<<84, 48 + i>>), S(<<47, 48 + i>>))], !.artists = [i \in 1..2 |-> Artist1(LE32(i - 1), S(<<88, 48 + i>>))],
   !.entries = [i \in 1..n |-> Entry1(LE32(1), LE32(IF same THEN 7 ELSE n - i), LE32((i * i) % 3))] \o <<Entry1(LE32(0), LE32(0), LE32(0)), Entry1(LE32(0), LE32(1), LE32(1)), Entry1(LE32(2), LE32(1), LE32(1))>>]
Bulk == {Libs(n[1], n[2]) : n \in {<<3, 20>>, <<40, 300>>, <<9, 257>>}} \cup {Alike(n, b) : n \in {300, 1300}, b \in BOOLEAN}
  \cup {[Nothing EXCEPT !.nodes = TwoNodes, !.tracks = TwoTracks, !.artists = TwoArtists, !.entries = <<Entry1(IdW(2), a, IdW(1)), Entry1(IdW(2), b, IdW(2))>>] : a \in Extremes, b \in Extremes}
(* Every odd text in every place that holds one *)
OddZ == {S(<<>>), S(<<32>>), S(<<65, 32>>), S(<<32, 65>>), S(<<45>>), S(<<10>>), S(<<9, 65>>), S(<<0>>), S(<<65, 0>>), S(<<35, 69>>), S(<<64>>), S(<<34, 39>>), Wide(<<65, 0>>), Wide(<<8364>>), Wide(<<128512>>), BadZ, LongZ(130),
  Wide(<<65279, 65>>), Wide(<<8203>>), S(<<65, 13, 10>>), Wide(<<133>>), LongZ(126), S(<<123, 125>>)}
OneList(name, artist, title, path) == [nodes |-> <<Node(1, 0, Yes1, name), Node(2, 1, IdW(0), name), Node(3, 0, IdW(0), S(<<81>>))>>,
   artists |-> <<Artist1(IdW(1), artist), Artist1(IdW(2), S(<<88>>))>>, tracks |-> <<Track1(IdW(1), IdW(1), title, path), Track1(IdW(2), IdW(2), title, S(<<47, 66>>)), Track1(IdW(3), IdW(1), S(<<84>>), S(<<47, 67>>))>>,
   entries |-> [i \in 1..3 |-> Entry1(IdW(2), LE32(3 - i), LE32(i))] \o <<Entry1(IdW(3), IdW(0), IdW(1))>>]
Texts == {OneList(S(<<80>>), a, t, S(<<47, 65>>)) : a \in OddZ, t \in OddZ} \cup {OneList(n, S(<<88>>), t, S(<<47, 65>>)) : n \in OddZ, t \in {S(<<84>>), S(<<>>), BadZ}}
XTexts == {OneList(S(<<80>>), S(<<88>>), t, p) : t \in OddZ, p \in PathZ \cup OddZ} \cup {OneList(n, a, S(<<84>>), S(<<47, 65>>)) : n \in {S(<<80>>)}, a \in OddZ}
FullLib(a, b, c) == [Nothing EXCEPT !.nodes = <<Node(1, 0, IdW(0), S(<<65>>)), Node(2, 0, Yes1, S(<<66>>)), Node(3, 2, IdW(0), S(<<67>>)), Node(4, 0, IdW(0), S(<<68>>))>>, !.tracks = TwoTracks,
   !.entries = Rep(Entry1(IdW(1), IdW(0), IdW(1)), a) \o Rep(Entry1(IdW(3), IdW(0), IdW(2)), b) \o Rep(Entry1(IdW(4), IdW(0), IdW(1)), c)]
FullLibs == {FullLib(a, b, c) : a, b, c \in 0..2} \cup {FullLib(0, n, 1) : n \in {30, 150, 151, 152, 300}}
Grow == CASE Family \in {"tree"} -> Len(lib.nodes) < Max /\ \E n \in (IF Len(lib.nodes) = 3 THEN SmallNodes(4) ELSE NodeSet(Len(lib.nodes) + 1)) : lib' = [lib EXCEPT !.nodes = Append(@, n)]
          [] Family = "listtree" -> Len(lib.nodes) < 2 /\ \E n \in NodeSet(Len(lib.nodes) + 1) : lib' = [lib EXCEPT !.nodes = Append(@, n)]
          [] Family \in {"entries", "xentries"} -> Len(lib.entries) < Max /\ \E e \in EntrySet : lib' = [lib EXCEPT !.entries = Append(@, e)]
          [] Family = "tracks" -> IF Len(lib.artists) < 1 THEN \E a \in ArtistSet : lib' = [lib EXCEPT !.artists = Append(@, a)]
                                  ELSE \/ Len(lib.tracks) < 2 /\ \E t \in TrackSet : lib' = [lib EXCEPT !.tracks = Append(@, t)]
                                       \/ Len(lib.artists) < 2 /\ Len(lib.tracks) = 1 /\ \E a \in ArtistSet : lib' = [lib EXCEPT !.artists = Append(@, a)]
          [] OTHER -> FALSE
Broken == {"broken", "listbroken", "xbroken"}
Kind == CASE Family \in {"tree", "odd", "missing", "rtree", "broken"} -> "tree" [] Family \in {"rlist", "listtree", "entries", "tracks", "listodd", "listmissing", "listbulk", "listtext", "listbroken"} -> "list" [] OTHER -> "export"
Init == /\ asked = FALSE
        /\ lib \in CASE Family \in {"tree", "missing", "listmissing", "xmissing"} \cup Broken -> {Nothing} [] Family \in {"odd", "listodd"} -> OddTrees
                      [] Family = "listtree" -> {[Nothing EXCEPT !.tracks = TwoTracks, !.artists = TwoArtists, !.entries = TwoEntries]}
                      [] Family \in {"entries", "xentries"} -> {[Nothing EXCEPT !.tracks = TwoTracks, !.artists = TwoArtists, !.nodes = TwoNodes]}
                      [] Family = "tracks" -> {[Nothing EXCEPT !.nodes = TwoNodes, !.entries = TwoEntries \o <<Entry1(IdW(1), IdW(0), IdW(1)), Entry1(IdW(2), IdW(1), IdW(9))>>]}
                      [] Family \in {"listbulk", "xbulk"} -> Bulk [] Family = "listtext" -> Texts [] Family = "xtext" -> XTexts [] Family = "names" -> Shapes [] Family = "xfull" -> FullLibs [] Family = "xodd" -> OddExports \cup {l \in OddTrees : Len(l.nodes) < 5}
        /\ how = CASE Family = "tree" -> "" [] OTHER -> ""
Add == ~asked /\ Grow /\ UNCHANGED <<how, asked>>

LayOf(l) == (Len(l.nodes) + Len(l.entries) + Len(l.tracks) + SumSeq([i \in 1..Len(l.nodes) |-> l.nodes[i].id[3] + l.nodes[i].parent[1] + l.nodes[i].folder[1]])
             + SumSeq([i \in 1..Len(l.entries) |-> l.entries[i].index[1] + l.entries[i].track[3]])) % 4
Big(l) == Len(l.nodes) > 4 \/ Len(l.entries) > 10 \/ (\E i \in 1..Len(l.nodes) : Len(l.nodes[i].z) > 40)
  \/ (\E i \in 1..Len(l.tracks) : Len(l.tracks[i].title) + Len(l.tracks[i].path) > 60) \/ (\E i \in 1..Len(l.artists) : Len(l.artists[i].name) > 40)
File(l, lay) == IF Kind = "tree" THEN DbFile(IF Big(l) THEN 4096 ELSE 208, <<Tree(l, IF Big(l) THEN 0 ELSE lay, 100)>>)
                ELSE DbFile(IF Big(l) THEN 4096 ELSE 768, Full(l, IF Big(l) THEN 0 ELSE lay, 100))
TreeRec(l, b, ok) == LET p == Dv!Playlists(l.nodes) IN
  IF ok /\ p.ok THEN [k |-> "tree", bytes |-> b, ok |-> TRUE, tree |-> Dv!PlTree(l.nodes, p.tree)] ELSE [k |-> "tree", bytes |-> b, ok |-> FALSE]
Cli(args, files, rc, out, err) == [k |-> "cli", args |-> args, files |-> files, rc |-> rc, out |-> out, err |-> err]
ListRec(l, b, ok) == LET r == Dv!List(l) IN
  Cli(<<"list-playlists", "@db.pdb">>, <<[name |-> "db.pdb", bytes |-> b]>>, IF ok /\ r.ok THEN 0 ELSE 1,
      IF ~ok THEN <<>> ELSE IF r.ok THEN <<[t |-> r.text]>> ELSE <<[rest |-> TRUE]>>, IF ok /\ r.ok THEN <<>> ELSE <<"Error">>)
Out == <<-2>>
PathText(p) == Out \o Cat([i \in 1..Len(p) |-> <<47>> \o p[i]])
(* The device and the output folder may be named in any way ("@": absolutely); the lists hold absolute paths all the same *)
DevNames == <<"@dev", "dev", "./dev", "dev/", "../d/dev", "@dev/", "@out/../dev/.">>
OutNames == <<"@out", "out", "./out", "../d/out", "@dev/../out">>
ExportRec(l, b, ok, out) == LET x == Dv!Export(l)  h == Len(l.entries) + Len(l.tracks) + SumSeq([i \in 1..Len(l.nodes) |-> 2 * i * l.nodes[i].id[1] + SumSeq(l.nodes[i].z)])
                                                             + SumSeq([i \in 1..Len(l.tracks) |-> i + SumSeq(l.tracks[i].path) + 3 * SumSeq(l.tracks[i].title)]) IN
  [k |-> "export", bytes |-> b, dev |-> DevNames[1 + (IF out = "none" THEN h % 6 ELSE h % 7)], out |-> OutNames[1 + (h % 5)], before |-> out, ok |-> ok /\ x.ok, loose |-> x.loose] @@
  (IF ok THEN [files |-> x.files, dirs |-> SetSeq(x.dirs), said |-> Cat([i \in 1..Len(x.said) |-> PathText(x.said[i]) \o <<10>>])]
   ELSE [files |-> <<>>, dirs |-> <<>>, said |-> <<>>])
(* An export onto a storage that takes only files up to some length. The texts are ASCII, so lengths are numbers of characters (but for the device) *)
Caps(x) == {<<>>, <<65>>} \cup UNION {{x.files[i].text, Take(x.files[i].text, Len(x.files[i].text) - 1), Take(x.files[i].text, 1 + (Len(x.files[i].text) \div 2))} : i \in {j \in 1..Len(x.files) : x.files[j].text # <<>>}}
FullRec(l, b, cap, out) == LET x == Dv!Export(l)  r == ExportRec(l, b, TRUE, out)  f == Dv!FirstFull(x, cap) IN
  [r EXCEPT !.ok = f = 0] @@ [cap |-> cap, fail |-> f]
EmitFull(l) == LET x == Dv!Export(l)  b == DbFile(4096, Full(l, 0, 100)) IN
  \A cap \in {c \in Caps(x) : Dv!Decided(x, c)} : \A out \in (IF Len(l.entries) > 20 THEN {"empty"} ELSE {"none", "empty", "stale"}) : Emit(FullRec(l, b, cap, out))
Rec(l, b, ok) == CASE Kind = "tree" -> TreeRec(l, b, ok) [] Kind = "list" -> ListRec(l, b, ok)
                   [] OTHER -> ExportRec(l, b, ok, CASE LayOf(l) = 0 -> "none" [] LayOf(l) = 1 -> "empty" [] OTHER -> "stale")
(* Databases without one of the tables *)
Without(l, t) == LET f == Full(l, 0, 100) IN SelectSeq(f, LAMBDA x : x.pt # TypeWord("Plain", t))
Sample == [nodes |-> TwoNodes, entries |-> TwoEntries, tracks |-> TwoTracks, artists |-> TwoArtists]
Needed == CASE Kind = "tree" -> {"PlaylistTree"} [] Kind = "list" -> {"PlaylistTree", "Artists", "Tracks", "PlaylistEntries"} [] OTHER -> {"PlaylistTree", "Tracks", "PlaylistEntries"}
(* Databases of which a page is missing, cannot be read or has a link that cannot be followed: an error if it is one of a table that
   is needed. The pages of a table follow one another, and its last page is where a traversal ends. *)
BrokenLib == [Sample EXCEPT !.nodes = <<Node(1, 0, Yes1, S(<<70>>)), Node(2, 1, IdW(0), S(<<80>>)), Node(3, 0, IdW(0), S(<<81>>))>>,
   !.tracks = TwoTracks \o <<Track1(IdW(3), IdW(1), S(<<84>>), S(<<47, 67>>))>>, !.entries = @ \o <<Entry1(IdW(3), IdW(0), IdW(3)), Entry1(IdW(3), IdW(1), IdW(1))>>]
BrokenTables(lay) == IF Kind = "tree" THEN <<Tree(BrokenLib, lay, 100)>> ELSE Full(BrokenLib, lay, 100)
AddAt(b, o, n) == [b EXCEPT ![o + 1] = (@ + n) % 256]
BrokenFiles(lay) ==      \* <<bytes, tables concerned>>
  LET ts == BrokenTables(lay)  ps == IF Kind = "tree" THEN 208 ELSE 768  b == TLCEval(DbFile(ps, ts))  f == Firsts(ts, 1)  n == (Len(b) \div ps) - 1
      End(t) == f[t] + Len(ts[t].pages) - 1
      Of(p) == CHOOSE t \in 1..Len(ts) : f[t] <= p /\ p <= End(t)
      From(p) == {t \in 1..Len(ts) : End(t) >= p}
      BadAt(p, x) == [bytes |-> x, of |-> {Of(p)}]
  IN {[bytes |-> b, of |-> {}]}
     \cup UNION {{[bytes |-> Take(b, ps * p), of |-> From(p)], [bytes |-> Take(b, ps * p + 100), of |-> From(p)], BadAt(p, AddAt(b, ps * p, 1)), BadAt(p, AddAt(b, ps * p + 3, 255))}
                  \cup {BadAt(p, AddAt(b, ps * p + 24, 1)) : x \in {y \in {1} : ~DecPage("Plain", SubSeq(AddAt(b, ps * p + 24, 1), ps * p + 1, ps * (p + 1)), ps).ok}}
                  \cup (IF p = End(Of(p)) THEN {[bytes |-> Patch(b, ps * p + 12, l), of |-> {}] : l \in {LE32(0), LE32(p), LE32(1)}}
                        ELSE {BadAt(p, Patch(b, ps * p + 12, l)) : l \in {LE32(0), LE32(p), LE32(99), <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}}) : p \in 1..n}
     \cup UNION {{[bytes |-> Patch(b, 28 + 16 * (t - 1) + 8, l), of |-> {t}] : l \in {LE32(99), LE32(0), <<255, 255, 255, 255>>}}
                  \cup {[bytes |-> Patch(b, 28 + 16 * (t - 1) + 12, l), of |-> {t}] : l \in {LE32(0), LE32(99)}} : t \in 1..Len(ts)}
BrokenRec(l, lay, x) == LET ts == BrokenTables(lay)  ok == \A t \in x.of : ts[t].pt \notin {TypeWord("Plain", m) : m \in Needed} IN
  IF ok \/ Kind # "export" THEN Rec(l, x.bytes, ok) ELSE [ExportRec(l, x.bytes, TRUE, IF lay = 1 THEN "stale" ELSE "none") EXCEPT !.ok = FALSE] @@ [fail |-> 1]
EmitBroken == \A lay \in 0..3 : \A x \in BrokenFiles(lay) : Emit(BrokenRec(BrokenLib, lay, x))
Ask == /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<lib, how>>
       /\ IF Family \in {"missing", "listmissing", "xmissing"}
          THEN \A t \in {"Tracks", "Genres", "Artists", "PlaylistTree", "PlaylistEntries"} : Emit(Rec(Sample, DbFile(768, Without(Sample, t)), t \notin Needed))
          ELSE IF Family \in Broken THEN EmitBroken
          ELSE IF Family = "xfull" THEN EmitFull(lib)
          ELSE IF Family = "tracks" /\ lib.artists = <<>> THEN TRUE
          ELSE Emit(Rec(lib, File(lib, LayOf(lib)), TRUE))
Next == Add \/ Ask
Spec == Init /\ [][Next]_vars

TreeLaws == Dv!TreeLaws(lib.nodes)
ExportLaws == Kind = "export" => Dv!ExportLaws(lib)
(* What is on the disk is the library *)
Stored == asked /\ ~Big(lib) /\ Family \notin {"missing", "listmissing", "xmissing"} =>
  LET b == File(lib, LayOf(lib)) ps == IF Kind = "tree" THEN 208 ELSE 768
      pages == {SubSeq(b, ps * i + 1, ps * (i + 1)) : i \in 1..(Len(b) \div ps - 1)}
  IN \A p \in pages : DecPage("Plain", p, ps).ok
=============================================================================
