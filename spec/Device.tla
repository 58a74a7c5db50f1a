------------------------------- MODULE Device -------------------------------
(* What a device export means: the playlist tree, its listing, and the playlist files made from it.

   A library is [nodes, entries, tracks, artists], each a sequence in stored order:
     node   [id, parent, folder: words (bytes, least significant first), z: stored name]
     entry  [pl, index, track: words]        track [id, artist: words, title, path: stored texts]        artist [id: word, name: stored text] *)
EXTENDS Bytes
Sql == INSTANCE DeviceSql

Root == <<0, 0, 0, 0>>
MaxDepth == 100
TextOf(z) == Sql!Dec(z)
IsFolder(n) == n.folder # Root

(* A word as a decimal number *)
RECURSIVE DivMod10(_, _)       \* w: most significant byte first
DivMod10(w, r) == IF w = <<>> THEN [q |-> <<>>, r |-> r] ELSE
  LET x == 256 * r + Head(w) d == DivMod10(Tail(w), x % 10) IN [q |-> <<x \div 10>> \o d.q, r |-> d.r]
RECURSIVE Digits(_)
Digits(w) == LET d == TLCEval(DivMod10(w, 0)) IN (IF \A i \in 1..Len(d.q) : d.q[i] = 0 THEN <<>> ELSE Digits(d.q)) \o <<48 + d.r>>
Dec10(w) == Digits(Rev(w))
RECURSIVE LtBE(_, _)
LtBE(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LtBE(Tail(a), Tail(b))
LtW(a, b) == LtBE(Rev(a), Rev(b))

--------------------------------------------------------------------------
(* The tree. The children of an id are taken by the first node that asks for them; from then on they are gone.
   kids: "folders" if only folders ask for children, "all" if every node does. A tree is a sequence of [i: row number, sub: tree]. *)
ChildRows(nodes, id) == SelectSeq([i \in 1..Len(nodes) |-> i], LAMBDA i : nodes[i].parent = id)
TooDeep == [ok |-> FALSE, tree |-> <<>>, taken |-> {}]
RECURSIVE Walk(_, _, _, _, _)
RECURSIVE WalkEach(_, _, _, _, _)
Walk(nodes, kids, taken, id, depth) ==
  IF depth > MaxDepth THEN TooDeep ELSE
  IF id \in taken THEN [ok |-> TRUE, tree |-> <<>>, taken |-> taken] ELSE
  WalkEach(nodes, kids, taken \cup {id}, ChildRows(nodes, id), depth)
WalkEach(nodes, kids, taken, rows, depth) ==
  IF rows = <<>> THEN [ok |-> TRUE, tree |-> <<>>, taken |-> taken] ELSE
  LET i == Head(rows)
      asks == kids = "all" \/ IsFolder(nodes[i])
      r == TLCEval(IF asks THEN Walk(nodes, kids, taken, nodes[i].id, depth + 1) ELSE [ok |-> TRUE, tree |-> <<>>, taken |-> taken])
      rest == TLCEval(IF r.ok THEN WalkEach(nodes, kids, r.taken, Tail(rows), depth) ELSE TooDeep)
  IN IF ~r.ok \/ ~rest.ok THEN TooDeep ELSE [ok |-> TRUE, tree |-> <<[i |-> i, sub |-> r.tree]>> \o rest.tree, taken |-> rest.taken]
TreeOf(nodes, kids) == Walk(nodes, kids, {}, Root, 0)
RECURSIVE Flat(_)             \* row numbers in preorder
Flat(tree) == IF tree = <<>> THEN <<>> ELSE <<Head(tree).i>> \o Flat(Head(tree).sub) \o Flat(Tail(tree))

(* The tree as the library returns it: the names of all listed nodes must be decodable *)
Playlists(nodes) == LET w == TreeOf(nodes, "folders") IN
  [ok |-> w.ok /\ \A i \in Range(Flat(w.tree)) : TextOf(nodes[i].z).valid, tree |-> w.tree]
RECURSIVE PlTree(_, _)
PlTree(nodes, tree) == [k \in 1..Len(tree) |-> LET n == nodes[tree[k].i] IN
  [id |-> n.id, name |-> TextOf(n.z).text] @@ (IF IsFolder(n) THEN [sub |-> PlTree(nodes, tree[k].sub)] ELSE <<>>)]

(* Laws of the tree, stated without the algorithm *)
RECURSIVE Places(_, _)        \* all (list of siblings, id they hang under) of a tree
Places(nodes, tree) == UNION {{[under |-> nodes[tree[k].i].id, list |-> [j \in 1..Len(tree[k].sub) |-> tree[k].sub[j].i]]} \cup Places(nodes, tree[k].sub) : k \in 1..Len(tree)}
RECURSIVE Reach(_, _)
Reach(nodes, S) == LET T == S \cup {i \in 1..Len(nodes) : \E j \in S : IsFolder(nodes[j]) /\ nodes[i].parent = nodes[j].id} IN IF T = S THEN S ELSE Reach(nodes, T)
TreeLaws(nodes) == LET w == TreeOf(nodes, "folders") IN w.ok =>
  LET f == Flat(w.tree)
      lists == {[under |-> Root, list |-> [j \in 1..Len(w.tree) |-> w.tree[j].i]]} \cup Places(nodes, w.tree)
      unique == \A i, j \in 1..Len(nodes) : i # j => nodes[i].id # nodes[j].id
  IN /\ Cardinality(Range(f)) = Len(f)                                                                   \* each node once
     /\ Range(f) = Reach(nodes, {i \in 1..Len(nodes) : nodes[i].parent = Root})                             \* exactly those that can be reached
     /\ \A p \in lists : (\A k \in 1..Len(p.list) : nodes[p.list[k]].parent = p.under) /\ (\A k \in 2..Len(p.list) : p.list[k - 1] < p.list[k])
     /\ \A p \in lists : p.list # <<>> => Range(p.list) = {i \in 1..Len(nodes) : nodes[i].parent = p.under}   \* siblings stay together
     /\ unique => \A i \in Range(f) : IsFolder(nodes[i]) =>                                                   \* and a folder keeps its own
          (nodes[i].id = Root \/ [under |-> nodes[i].id, list |-> ChildRows(nodes, nodes[i].id)] \in lists)

--------------------------------------------------------------------------
(* Tracks of a playlist: by position, equal positions in stored order *)
Index(s) == [i \in 1..Len(s) |-> i]
RECURSIVE MergeE(_, _)        \* two sorted sequences; the first one's go first if equal
MergeE(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
  IF Len(a) > 1 /\ ~LtW(b[1].index, a[Len(a)].index) THEN a \o b ELSE
  IF LtW(Head(b).index, Head(a).index) THEN <<Head(b)>> \o MergeE(a, Tail(b)) ELSE <<Head(a)>> \o MergeE(Tail(a), b)
RECURSIVE SortEntries(_)
SortEntries(es) == IF Len(es) < 2 THEN es ELSE LET h == Len(es) \div 2 IN MergeE(TLCEval(SortEntries(Take(es, h))), TLCEval(SortEntries(Drop(es, h))))
EntriesOf(lib, id) == SortEntries(SelectSeq(lib.entries, LAMBDA e : e.pl = id))
(* The last of several rows with the same id counts *)
LastWith(x, s, id) == LET I == {i \in Range(x[1 + (id[1] % Len(x))]) : s[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
(* Where to look for an id in a long sequence of rows: by its lowest byte *)
Places0(s) == LET m == IF Len(s) < 60 THEN 1 ELSE 256 IN TLCEval([k \in 1..m |-> SelectSeq(Index(s), LAMBDA i : s[i].id[1] % m = k - 1)])
Look(lib) == [t |-> Places0(lib.tracks), a |-> Places0(lib.artists)]

(* Texts of the tool are code points; -1 stands for any text (undecodable names) *)
AnyText == <<-1>>
Shown(z) == LET d == TextOf(z) IN IF d.valid THEN d.text ELSE AnyText
Lf == <<10>>
Indent(n) == Rep(32, 4 * n)
FolderSign == <<128448, 32>>
ListSign == <<128462, 32>>
Note == <<32, 32, 9835, 32>>
TrackOpen == <<60, 84, 114, 97, 99, 107, 32, 102, 111, 114, 32, 84, 114, 97, 99, 107, 73, 100, 40>>        \* <Track for TrackId(
ArtistOpen == <<60, 65, 114, 116, 105, 115, 116, 32, 102, 111, 114, 32, 65, 114, 116, 105, 115, 116, 73, 100, 40>>
NotFound == <<41, 32, 110, 111, 116, 32, 102, 111, 117, 110, 100, 62>>                                      \* ) not found>
Dash == <<32, 45, 32>>
TrackText(lib, look, id) ==
  LET t == LastWith(look.t, lib.tracks, id) IN
  IF t = 0 THEN TrackOpen \o Dec10(id) \o NotFound ELSE
  LET a == LastWith(look.a, lib.artists, lib.tracks[t].artist) IN
  (IF a = 0 THEN ArtistOpen \o Dec10(lib.tracks[t].artist) \o NotFound ELSE Shown(lib.artists[a].name)) \o Dash \o Shown(lib.tracks[t].title)
RECURSIVE Listing(_, _, _, _)
Listing(lib, look, tree, level) == Cat([k \in 1..Len(tree) |->
  LET n == lib.nodes[tree[k].i] es == EntriesOf(lib, n.id) IN
  Indent(level) \o (IF IsFolder(n) THEN FolderSign ELSE ListSign) \o Shown(n.z) \o Lf
  \o Cat([j \in 1..Len(es) |-> Indent(level) \o Note \o Dec10(es[j].index) \o <<58, 32>> \o TrackText(lib, look, es[j].track) \o Lf])
  \o Listing(lib, look, tree[k].sub, level + 1)])
List(lib) == LET w == TreeOf(lib.nodes, "all") IN [ok |-> w.ok, text |-> Listing(lib, TLCEval(Look(lib)), w.tree, 0)]

--------------------------------------------------------------------------
(* Playlist files. Names become single path components. *)
Slash == 47
Replaced(t) == [i \in 1..Len(t) |-> IF t[i] \in {0, Slash} THEN 95 ELSE t[i]]
FileName(t) == LET r == Replaced(t) IN IF r = <<>> \/ r = <<46>> \/ r = <<46, 46>> THEN <<95>> \o [i \in 1..Len(r) |-> 95] ELSE r
M3u == <<46, 109, 51, 117>>
Candidate(name, n) == FileName(name \o (IF n = 1 THEN <<>> ELSE <<32, 40>> \o Dec10(LE32(n)) \o <<41>>) \o M3u)
RECURSIVE FreeNumber(_, _, _, _)
FreeNumber(used, dir, name, n) == IF Append(dir, Candidate(name, n)) \in used THEN FreeNumber(used, dir, name, n + 1) ELSE n
TooLong(c) == Utf8Len(c) > 255
(* Playlists in the order of the tree, with the folders above them *)
RECURSIVE Visits(_, _, _)
Visits(nodes, tree, dir) == Cat([k \in 1..Len(tree) |-> LET n == nodes[tree[k].i] name == TextOf(n.z).text IN
  IF IsFolder(n) THEN Visits(nodes, tree[k].sub, Append(dir, FileName(name))) ELSE <<[id |-> n.id, name |-> name, dir |-> dir]>>])
RECURSIVE StripSlashes(_)
StripSlashes(t) == IF t # <<>> /\ Head(t) = Slash THEN StripSlashes(Tail(t)) ELSE t
Device == <<-3>>              \* absolute path of the device
M3uLines(lib, look, id) == LET es == EntriesOf(lib, id) IN
  Cat([j \in 1..Len(es) |-> LET t == LastWith(look.t, lib.tracks, es[j].track) IN
     IF t = 0 THEN <<>> ELSE Device \o <<Slash>> \o StripSlashes(TextOf(lib.tracks[t].path).text) \o Lf])
Prefixes(p) == {Take(p, n) : n \in 0..Len(p)}
(* state: [ok, files: sequence of [path, text], dirs: set of paths, used: set of paths] *)
RECURSIVE ExportEach(_, _, _, _)
ExportEach(lib, look, vs, st) ==
  IF vs = <<>> THEN st ELSE
  LET v == Head(vs)
      path == Append(v.dir, Candidate(v.name, FreeNumber(st.used, v.dir, v.name, 1)))
      dirs == st.dirs \cup Prefixes(v.dir)
      file == [path |-> path, text |-> M3uLines(lib, look, v.id)]
  IN IF (\E p \in Prefixes(v.dir) : p \in st.used) \/ (\E i \in 1..Len(v.dir) : TooLong(v.dir[i])) THEN [st EXCEPT !.ok = FALSE, !.loose = TRUE] ELSE
     IF path \in dirs \/ TooLong(path[Len(path)]) THEN [st EXCEPT !.ok = FALSE, !.dirs = dirs, !.said = Append(@, path)] ELSE
     ExportEach(lib, look, Tail(vs), [st EXCEPT !.files = Append(@, file), !.dirs = dirs, !.used = @ \cup {path}, !.said = Append(@, path)])
Export(lib) ==
  LET p == Playlists(lib.nodes)
      none == [ok |-> TRUE, files |-> <<>>, dirs |-> {}, used |-> {}, said |-> <<>>, loose |-> FALSE]
  IN IF ~p.ok \/ \E i \in 1..Len(lib.tracks) : ~TextOf(lib.tracks[i].path).valid THEN [none EXCEPT !.ok = FALSE]
     ELSE ExportEach(lib, TLCEval(Look(lib)), Visits(lib.nodes, p.tree, <<>>), none)
(* A storage that takes no more than the length of `cap` in one file: what is behind the first playlist file that does not fit is open *)
DevicesIn(t) == Cardinality({i \in 1..Len(t) : t[i] = -3})
Fits(t, cap) == DevicesIn(t) <= DevicesIn(cap) /\ Len(t) <= Len(cap)
TooMuch(t, cap) == DevicesIn(t) >= DevicesIn(cap) /\ Len(t) > Len(cap)
Decided(x, cap) == \A i \in 1..Len(x.files) : Fits(x.files[i].text, cap) \/ TooMuch(x.files[i].text, cap)
FirstFull(x, cap) == LET f == {i \in 1..Len(x.files) : TooMuch(x.files[i].text, cap)} IN IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : i <= j
(* Laws of the export *)
SafeName(c) == c \notin {<<>>, <<46>>, <<46, 46>>} /\ \A i \in 1..Len(c) : c[i] \notin {0, Slash}
ExportLaws(lib) == LET x == Export(lib) p == Playlists(lib.nodes) IN
  /\ \A i \in 1..Len(x.files) : \A j \in 1..Len(x.files[i].path) : SafeName(x.files[i].path[j])
  /\ \A i, j \in 1..Len(x.files) : i # j => x.files[i].path # x.files[j].path
  /\ x.ok => Len(x.files) = Cardinality({i \in Range(Flat(p.tree)) : ~IsFolder(lib.nodes[i])})
=============================================================================
