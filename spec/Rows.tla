-------------------------------- MODULE Rows --------------------------------
(* Rows of databases: layouts of all row types, strings in place, and strings behind an offset array.

   A layout is one of Codec's, with the nodes "sql" (a DeviceSQL string in place), "opt" (a number whose
   zero means none) and at its end perhaps "offs": an offset array whose entries count from the row start.
   Rows are written as patches: bytes between the strings of an offset array belong to nobody. *)
EXTENDS Codec
Sql == INSTANCE DeviceSql

SqlN(n) == [k |-> "sql", n |-> n]
OptN(n, s) == [k |-> "opt", n |-> n, s |-> s]
Offs(n, base, s, names) == [k |-> "offs", n |-> n, base |-> base, s |-> s, names |-> names]

U(n, w) == Num(n, w, "le")
ColorT == <<<<0, "None">>, <<1, "Pink">>, <<2, "Red">>, <<3, "Orange">>, <<4, "Yellow">>, <<5, "Green">>, <<6, "Aqua">>, <<7, "Blue">>, <<8, "Purple">>>>
FileT == <<<<0, "Unknown">>, <<1, "Mp3">>, <<4, "M4a">>, <<5, "Flac">>, <<11, "Wav">>, <<12, "Aiff">>>>
SubtypeN == NumAs("subtype", 2, "le", "st")
TrackNames == <<"isrc", "lyricist", "unknown_string2", "unknown_string3", "unknown_string4", "message", "publish_track_information", "autoload_hotcues",
   "unknown_string5", "unknown_string6", "date_added", "release_date", "mix_name", "unknown_string7", "analyze_path", "analyze_date", "comment", "title",
   "unknown_string8", "filename", "file_path">>
Trailing == <<"name">>

(* <<table type, kind of database, layout>> by variant *)
RowTypes == {"Tracks", "Genres", "Artists", "Albums", "Labels", "Keys", "Colors", "PlaylistTree", "PlaylistEntries", "HistoryPlaylists", "HistoryEntries",
             "Artwork", "Columns", "Menu", "History", "Tag", "TrackTag"}
IsExt(ty) == ty \in {"Tag", "TrackTag"}
Variant(ty) == CASE ty = "Tracks" -> "Track" [] ty = "Genres" -> "Genre" [] ty = "Artists" -> "Artist" [] ty = "Albums" -> "Album" [] ty = "Labels" -> "Label"
  [] ty = "Keys" -> "Key" [] ty = "Colors" -> "Color" [] ty = "PlaylistTree" -> "PlaylistTreeNode" [] ty = "PlaylistEntries" -> "PlaylistEntry"
  [] ty = "HistoryPlaylists" -> "HistoryPlaylist" [] ty = "HistoryEntries" -> "HistoryEntry" [] ty = "Artwork" -> "Artwork" [] ty = "Columns" -> "ColumnEntry"
  [] ty = "Menu" -> "Menu" [] ty = "History" -> "History" [] ty = "Tag" -> "Tag" [] ty = "TrackTag" -> "TrackTag"
StructName(ty) == IF ty = "Tag" THEN "TagOrCategory" ELSE Variant(ty)
Layout(ty) ==
  CASE ty = "Tracks" -> <<SubtypeN, U("index_shift", 2), U("bitmask", 4), U("sample_rate", 4), U("composer_id", 4), U("file_size", 4), U("unknown2", 4),
         U("unknown3", 2), U("unknown4", 2), U("artwork_id", 4), U("key_id", 4), U("orig_artist_id", 4), U("label_id", 4), U("remixer_id", 4), U("bitrate", 4),
         U("track_number", 4), U("tempo", 4), U("genre_id", 4), U("album_id", 4), U("artist_id", 4), U("id", 4), U("disc_number", 2), U("play_count", 2),
         U("year", 2), U("sample_depth", 2), U("duration", 2), U("unknown5", 2), Enum("color", 1, "le", ColorT), U("rating", 1),
         EnumO("file_type", 2, "le", FileT, "Other"), Offs("offsets", 92, "TrackStrings", TrackNames)>>
    [] ty = "Artists" -> <<SubtypeN, U("index_shift", 2), U("id", 4), Offs("offsets", 8, "TrailingName", Trailing)>>
    [] ty = "Albums" -> <<SubtypeN, U("index_shift", 2), U("unknown2", 4), U("artist_id", 4), U("id", 4), U("unknown3", 4), Offs("offsets", 20, "TrailingName", Trailing)>>
    [] ty \in {"Genres", "Labels", "HistoryPlaylists"} -> <<U("id", 4), SqlN("name")>>
    [] ty = "Artwork" -> <<U("id", 4), SqlN("path")>>
    [] ty = "Keys" -> <<U("id", 4), U("id2", 4), SqlN("name")>>
    [] ty = "Colors" -> <<U("unknown1", 4), U("unknown2", 1), Enum("color", 1, "le", ColorT), U("unknown3", 2), SqlN("name")>>
    [] ty = "PlaylistTree" -> <<U("parent_id", 4), U("unknown", 4), U("sort_order", 4), U("id", 4), U("node_is_folder", 4), SqlN("name")>>
    [] ty = "PlaylistEntries" -> <<U("entry_index", 4), U("track_id", 4), U("playlist_id", 4)>>
    [] ty = "HistoryEntries" -> <<U("track_id", 4), U("playlist_id", 4), U("entry_index", 4)>>
    [] ty = "Columns" -> <<U("id", 2), U("unknown0", 2), SqlN("column_name")>>
    [] ty = "Menu" -> <<U("category_id", 2), U("content_pointer", 2), U("unknown", 1), EnumO("visibility", 1, "le", <<<<0, "Visible">>, <<1, "Hidden">>>>, "Unknown"), U("sort_order", 2)>>
    [] ty = "History" -> <<SubtypeN, U("index_shift", 2), U("num_tracks", 4), Fix(<<0, 0, 0, 0>>), SqlN("date"), Fix(<<25, 30>>), SqlN("version"), SqlN("label")>>
    [] ty = "Tag" -> <<SubtypeN, U("index_shift", 2), U("unknown1", 4), U("unknown2", 4), OptN("parent_id", "ParentId"), U("position", 4), U("id", 4), U("raw_is_category", 4),
                       Offs("offsets", 28, "TagOrCategoryStrings", <<"name", "unknown">>)>>
    [] ty = "TrackTag" -> <<Fix(<<0, 0, 0, 0>>), U("track_id", 4), U("tag_id", 4), U("unknown_const", 4)>>

(* Text as the debug output shows it without quotes: only such texts are compared there. *)
Showable(t) == \A i \in 1..Len(t) : t[i] \notin {34, 41, 92}
SqlTree(d, z) == IF d.valid /\ Showable(d.text) THEN [x |-> d.text, z |-> z] ELSE [raw |-> z, z |-> z]
DecSql(b, p) == LET d == Sql!Dec(SubSeq(b, p + 1, Min2(Len(b), p + 66000)))
                IN IF d.ok THEN [ok |-> TRUE, p |-> p + d.used, t |-> SqlTree(d, At(b, p, d.used))] ELSE No
OddText(t) == "raw" \in DOMAIN t

(* Offset arrays. w: width of an offset *)
WidthOf(st) == IF (st \div 4) % 2 = 1 THEN 2 ELSE 1
Marker(w) == IF w = 1 THEN <<3>> ELSE <<3, 0>>
DecOffs(x, b, p, st) ==      \* p: where the array is; entries count from p - x.base
  LET w == WidthOf(st) n == Len(x.names) IN
  IF ~Fits(b, p, w * (n + 1)) \/ p < x.base THEN No ELSE
  IF At(b, p, w) # Marker(w) THEN No ELSE
  LET o == [i \in 1..n |-> Rev(At(b, p + w * i, w))]
      r == TLCEval([i \in 1..n |-> LET q == p - x.base + BigInt(o[i]) IN IF q > Len(b) THEN No ELSE DecSql(b, q)])
  IN IF \E i \in 1..n : ~r[i].ok THEN No ELSE
     [ok |-> TRUE, odd |-> \E i \in 1..n : OddText(r[i].t),
      t |-> [s |-> "OffsetArrayContainer", f |-> <<
         <<"offsets", [s |-> "Provided", f |-> <<<<"", [s |-> IF w = 1 THEN "U8" ELSE "U16", f |-> <<<<"", [i \in 1..n |-> [n |-> o[i]]]>>>>]>>>>]>>,
         <<"inner", [s |-> x.s, f |-> [i \in 1..n |-> <<x.names[i], r[i].t>>]]>>>>]]

RECURSIVE DecRowF(_, _, _, _, _)
DecRowF(l, b, p, env, odd) ==     \* fields, and whether a text cannot be compared
  IF l = <<>> THEN [ok |-> TRUE, t |-> <<>>, odd |-> odd, p |-> p] ELSE
  LET x == Head(l)
      r == TLCEval(CASE x.k = "sql" -> DecSql(b, p)
             [] x.k = "opt" -> IF ~Fits(b, p, 4) THEN No ELSE
                               [ok |-> TRUE, p |-> p + 4, t |-> [s |-> x.s, f |-> <<<<"", IF At(b, p, 4) = Zeros(4) THEN [e |-> "None"]
                                   ELSE [s |-> "Some", f |-> <<<<"", [n |-> Rev(At(b, p, 4))]>>>>]>>>>]]
             [] x.k = "offs" -> DecOffs(x, b, p, env["st"])
             [] OTHER -> Dec1(x, b, p, env))
      e2 == IF "env" \in DOMAIN r THEN r.env ELSE env
      o2 == odd \/ (x.k = "sql" /\ r.ok /\ OddText(r.t)) \/ (x.k = "offs" /\ r.ok /\ r.odd)
  IN IF ~r.ok THEN No ELSE
     LET q == DecRowF(Tail(l), b, IF x.k = "offs" THEN p ELSE r.p, e2, o2) IN
     IF ~q.ok THEN No ELSE [q EXCEPT !.t = IF Visible(x) THEN <<<<x.n, r.t>>>> \o @ ELSE @]

DecStruct(ty, b, p) == DecRowF(Layout(ty), b, p, <<>>, FALSE)
(* A row of table type ty ("" if the type is unknown) at p: rows of unknown types have no content. *)
DecRow(ty, b, p) ==
  IF ty = "" THEN [ok |-> TRUE, odd |-> FALSE, f |-> <<>>, t |-> [e |-> "Unknown"]] ELSE
  LET r == DecStruct(ty, b, p) IN
  IF ~r.ok THEN No ELSE
  [ok |-> TRUE, odd |-> r.odd, f |-> r.t,
   t |-> [s |-> IF IsExt(ty) THEN "Ext" ELSE "Plain", f |-> <<<<"", [s |-> Variant(ty), f |-> <<<<"", [s |-> StructName(ty), f |-> r.t]>>>>]>>>>]]

(* Writing: patches relative to the row start *)
ValueOf(fs, n) == FieldNamed(fs, n)
RECURSIVE EncRowF(_, _)
EncRowF(l, ts) ==
  IF l = <<>> THEN <<>> ELSE
  LET x == Head(l) IN
  IF x.k = "offs" THEN <<>> ELSE
  IF x.k = "sql" THEN Head(ts)[2].z \o EncRowF(Tail(l), Tail(ts)) ELSE
  IF x.k = "opt" THEN (LET v == Head(ts)[2].f[1][2] IN IF "e" \in DOMAIN v THEN Zeros(4) ELSE Rev(v.f[1][2].n)) \o EncRowF(Tail(l), Tail(ts)) ELSE
  IF Visible(x) THEN Enc1(x, Head(ts)[2], <<>>) \o EncRowF(Tail(l), Tail(ts)) ELSE Enc1(x, <<>>, <<>>) \o EncRowF(Tail(l), ts)
(* where: start of the row; items are placed one after the other *)
ItemPatches(at, offs, zs) == [i \in 1..Len(zs) |-> <<at + offs[i], zs[i]>>]
ArrayBytes(w, offs) == Marker(w) \o Cat([i \in 1..Len(offs) |-> IF w = 1 THEN <<offs[i]>> ELSE LE16(offs[i])])
EncRow(ty, f, at) ==
  LET l == Layout(ty)
      x == l[Len(l)]
      fixed == EncRowF(l, f)
  IN IF x.k # "offs" THEN <<<<at, fixed>>>> ELSE
     LET c == f[Len(f)][2].f
         os == c[1][2].f[1][2]
         w == IF os.s = "U8" THEN 1 ELSE 2
         offs == [i \in 1..Len(os.f[1][2]) |-> BigInt(os.f[1][2][i].n)]
         zs == [i \in 1..Len(offs) |-> c[2][2].f[i][2].z]
     IN <<<<at, fixed>>, <<at + x.base, ArrayBytes(w, offs)>>>> \o ItemPatches(at, offs, zs)

(* Fresh offsets: items behind the array in order, wide texts on multiples of four from the row start. *)
IsWide(z) == Len(z) > 4 /\ z[1] = 144 /\ ~Sql!IsIsrcBody(Drop(z, 4))
IsWideEmpty(z) == Len(z) = 4 /\ z[1] = 144
AlignOf(z) == IF IsWide(z) \/ IsWideEmpty(z) THEN 4 ELSE 1
RECURSIVE Place(_, _)
Place(zs, at) == IF zs = <<>> THEN <<>> ELSE LET o == AlignUp(at, AlignOf(Head(zs))) IN <<o>> \o Place(Tail(zs), o + Len(Head(zs)))
RECURSIVE Gaps(_, _, _)
Gaps(zs, offs, at) == IF zs = <<>> THEN <<>> ELSE <<<<at, Zeros(Head(offs) - at)>>>> \o Gaps(Tail(zs), Tail(offs), Head(offs) + Len(Head(zs)))
Fresh(zs, base, w) == LET first == base + w * (Len(zs) + 1) offs == TLCEval(Place(zs, first))
                      IN [ok |-> \A i \in 1..Len(offs) : offs[i] < (IF w = 1 THEN 256 ELSE 65536), offs |-> offs, gaps |-> TLCEval(Gaps(zs, offs, first))]
FreshPatches(zs, base, w, at) ==      \* at: start of the row
  LET F == Fresh(zs, base, w) IN
  <<<<at + base, ArrayBytes(w, F.offs)>>>> \o ItemPatches(at, F.offs, zs) \o [i \in 1..Len(F.gaps) |-> <<at + F.gaps[i][1], F.gaps[i][2]>>]
=============================================================================
