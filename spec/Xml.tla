--------------------------------- MODULE Xml ---------------------------------
(* Rekordbox XML documents as element trees, and their meaning as document values.

   An element is [tag, attrs, kids]; attributes are <<name, value>> in some order, values are
   [x |-> text] or [i |-> number as written, ok, d |-> the number it denotes]. Reading gives the tree of
   the document value (see Codec for trees) or fails; writing gives the element tree of a document. *)
EXTENDS Bytes

El(tag, attrs, kids) == [tag |-> tag, attrs |-> attrs, kids |-> kids]
T(t) == [x |-> t]
No == [ok |-> FALSE]
Yes(t) == [ok |-> TRUE, t |-> t]

Has(el, a) == \E i \in 1..Len(el.attrs) : el.attrs[i][1] = a
Attr(el, a) == el.attrs[CHOOSE i \in 1..Len(el.attrs) : el.attrs[i][1] = a][2]
Kids(el, tag) == SelectSeq(el.kids, LAMBDA k : k.tag = tag)

(* <<field, attribute, type, mandatory>>; types: "x" text, "i" number, "f" fraction *)
TrackA == << <<"trackid", "TrackID", "i", TRUE>>, <<"name", "Name", "x", FALSE>>, <<"artist", "Artist", "x", FALSE>>, <<"composer", "Composer", "x", FALSE>>,
  <<"album", "Album", "x", FALSE>>, <<"grouping", "Grouping", "x", FALSE>>, <<"genre", "Genre", "x", FALSE>>, <<"kind", "Kind", "x", FALSE>>,
  <<"size", "Size", "l", FALSE>>, <<"totaltime", "TotalTime", "f", FALSE>>, <<"discnumber", "DiscNumber", "i", FALSE>>, <<"tracknumber", "TrackNumber", "i", FALSE>>,
  <<"year", "Year", "i", FALSE>>, <<"averagebpm", "AverageBpm", "f", FALSE>>, <<"datemodified", "DateModified", "x", FALSE>>, <<"dateadded", "DateAdded", "x", FALSE>>,
  <<"bitrate", "BitRate", "i", FALSE>>, <<"samplerate", "SampleRate", "f", FALSE>>, <<"comments", "Comments", "x", FALSE>>, <<"playcount", "PlayCount", "i", FALSE>>,
  <<"lastplayed", "LastPlayed", "x", FALSE>>, <<"rating", "Rating", "i", FALSE>>, <<"location", "Location", "x", TRUE>>, <<"remixer", "Remixer", "x", FALSE>>,
  <<"tonality", "Tonality", "x", FALSE>>, <<"label", "Label", "x", FALSE>>, <<"mix", "Mix", "x", FALSE>>, <<"colour", "Colour", "x", FALSE>> >>
TempoA == << <<"inizio", "Inizio", "f", TRUE>>, <<"bpm", "Bpm", "f", TRUE>>, <<"metro", "Metro", "x", TRUE>>, <<"battito", "Battito", "i", TRUE>> >>
MarkA == << <<"name", "Name", "x", TRUE>>, <<"mark_type", "Type", "i", TRUE>>, <<"start", "Start", "f", TRUE>>, <<"end", "End", "f", FALSE>>, <<"num", "Num", "i", TRUE>> >>
ProductA == << <<"name", "Name", "x", TRUE>>, <<"version", "Version", "x", TRUE>>, <<"company", "Company", "x", TRUE>> >>
EntryA == << <<"key", "Key", "i", TRUE>> >>
CollectionA == << <<"entries", "Entries", "i", TRUE>> >>
DocumentA == << <<"version", "Version", "x", TRUE>> >>

(* A number: text as written, and what it is shown as (d) if it is a number of that type. *)
Num(text, d) == [i |-> text, ok |-> TRUE, d |-> d]
BadNum(text) == [i |-> text, ok |-> FALSE, d |-> ""]
IsText(v) == "x" \in DOMAIN v
ValOk(ty, v) == IF ty = "x" THEN IsText(v) ELSE IF IsText(v) THEN FALSE ELSE v.ok
ValTree(ty, v) == IF ty = "x" THEN v ELSE [d |-> v.d]

(* Reading the attributes of an element gives its first fields. *)
AttrsOk(el, A) == \A i \in 1..Len(A) : IF Has(el, A[i][2]) THEN ValOk(A[i][3], Attr(el, A[i][2])) ELSE ~A[i][4]
AttrsTree(el, A) == [i \in 1..Len(A) |-> <<A[i][1],
   IF A[i][4] THEN ValTree(A[i][3], Attr(el, A[i][2]))
   ELSE IF Has(el, A[i][2]) THEN [s |-> "Some", f |-> <<<<"", ValTree(A[i][3], Attr(el, A[i][2]))>>>>] ELSE [e |-> "None"]>>]

MaxDepth == 100
ReadFlat(el, s, A) == IF AttrsOk(el, A) THEN Yes([s |-> s, f |-> AttrsTree(el, A)]) ELSE No
ReadAll(els, s, A) == IF \A i \in 1..Len(els) : AttrsOk(els[i], A) THEN Yes([i \in 1..Len(els) |-> [s |-> s, f |-> AttrsTree(els[i], A)]]) ELSE No
ReadTrack(el) ==
  LET t == ReadAll(Kids(el, "TEMPO"), "Tempo", TempoA) m == ReadAll(Kids(el, "POSITION_MARK"), "PositionMark", MarkA)
  IN IF AttrsOk(el, TrackA) /\ t.ok /\ m.ok
     THEN Yes([s |-> "Track", f |-> AttrsTree(el, TrackA) \o <<<<"tempos", t.t>>, <<"position_marks", m.t>>>>]) ELSE No
RECURSIVE ReadNode(_, _)
ReadNodes(els, depth) == LET r == TLCEval([i \in 1..Len(els) |-> ReadNode(els[i], depth)]) IN
  IF \A i \in 1..Len(els) : r[i].ok THEN Yes([i \in 1..Len(els) |-> r[i].t]) ELSE No
Folder(name, nodes) == [s |-> "PlaylistFolderNode", f |-> <<<<"name", name>>, <<"nodes", nodes>>>>]
IsCount(el, a) == Has(el, a) /\ (IF IsText(Attr(el, a)) THEN FALSE ELSE Attr(el, a).ok /\ Attr(el, a).count)
ReadNode(el, depth) ==      \* a folder or a playlist inside the root folder
  IF depth > MaxDepth \/ ~Has(el, "Name") \/ ~Has(el, "Type") THEN No ELSE
  IF Attr(el, "Type") = T(<<48>>) THEN
     IF ~IsCount(el, "Count") THEN No ELSE
     LET k == ReadNodes(Kids(el, "NODE"), depth + 1) IN
     IF k.ok THEN Yes([s |-> "Folder", f |-> <<<<"", Folder(Attr(el, "Name"), k.t)>>>>]) ELSE No
  ELSE IF Attr(el, "Type") = T(<<49>>) THEN
     IF ~IsCount(el, "Entries") \/ ~Has(el, "KeyType") THEN No ELSE
     LET k == ReadAll(Kids(el, "TRACK"), "PlaylistTrack", EntryA) IN
     IF k.ok THEN Yes([s |-> "Playlist", f |-> <<<<"", [s |-> "PlaylistPlaylistNode",
                       f |-> <<<<"name", Attr(el, "Name")>>, <<"keytype", Attr(el, "KeyType")>>, <<"tracks", k.t>>>>]>>>>]) ELSE No
  ELSE No
ReadDoc(el) ==
  LET P == Kids(el, "PRODUCT") C == Kids(el, "COLLECTION") L == Kids(el, "PLAYLISTS") IN
  IF ~AttrsOk(el, DocumentA) \/ Len(P) # 1 \/ Len(C) # 1 \/ Len(L) # 1 THEN No ELSE
  IF ~AttrsOk(P[1], ProductA) \/ ~AttrsOk(C[1], CollectionA) THEN No ELSE
  LET R == Kids(L[1], "NODE")
      K == Kids(C[1], "TRACK")
      tr == TLCEval([i \in 1..Len(K) |-> ReadTrack(K[i])])
  IN IF Len(R) # 1 \/ (\E i \in 1..Len(K) : ~tr[i].ok) THEN No ELSE
     IF ~Has(R[1], "Name") THEN No ELSE
     LET n == ReadNodes(Kids(R[1], "NODE"), 1) IN
     IF ~n.ok THEN No ELSE
     Yes([s |-> "Document", f |-> AttrsTree(el, DocumentA) \o
            <<<<"product", [s |-> "Product", f |-> AttrsTree(P[1], ProductA)]>>,
              <<"collection", [s |-> "Collection", f |-> AttrsTree(C[1], CollectionA) \o <<<<"track", [i \in 1..Len(K) |-> tr[i].t]>>>>]>>,
              <<"playlists", [s |-> "Playlists", f |-> <<<<"node", Folder(Attr(R[1], "Name"), n.t)>>>>]>>>>])

(* Writing *)
Field(t, n) == t.f[CHOOSE i \in 1..Len(t.f) : t.f[i][1] = n][2]
IsNone(t) == IF "e" \in DOMAIN t THEN TRUE ELSE FALSE
RECURSIVE WriteAttrs(_, _)
WriteAttrs(t, A) == IF A = <<>> THEN <<>> ELSE
  LET v == Field(t, Head(A)[1]) IN
  (IF Head(A)[4] THEN <<<<Head(A)[2], v>>>> ELSE IF IsNone(v) THEN <<>> ELSE <<<<Head(A)[2], v.f[1][2]>>>>) \o WriteAttrs(t, Tail(A))
WriteAll(ts, tag, A) == [i \in 1..Len(ts) |-> El(tag, WriteAttrs(ts[i], A), <<>>)]
WriteTrack(t) == El("TRACK", WriteAttrs(t, TrackA), WriteAll(Field(t, "tempos"), "TEMPO", TempoA) \o WriteAll(Field(t, "position_marks"), "POSITION_MARK", MarkA))
CountAttr(n) == [d |-> ToString(n)]
RECURSIVE WriteNode(_)
WriteNode(t) ==
  LET c == t.f[1][2] IN
  IF t.s = "Folder" THEN El("NODE", <<<<"Type", T(<<48>>)>>, <<"Name", Field(c, "name")>>, <<"Count", CountAttr(Len(Field(c, "nodes")))>>>>,
                            TLCEval([i \in 1..Len(Field(c, "nodes")) |-> WriteNode(Field(c, "nodes")[i])]))
  ELSE El("NODE", <<<<"Type", T(<<49>>)>>, <<"Name", Field(c, "name")>>, <<"Entries", CountAttr(Len(Field(c, "tracks")))>>, <<"KeyType", Field(c, "keytype")>>>>,
          WriteAll(Field(c, "tracks"), "TRACK", EntryA))
WriteDoc(t) ==
  LET c == Field(t, "collection") r == Field(Field(t, "playlists"), "node") IN
  El("DJ_PLAYLISTS", WriteAttrs(t, DocumentA),
     <<El("PRODUCT", WriteAttrs(Field(t, "product"), ProductA), <<>>),
       El("COLLECTION", WriteAttrs(c, CollectionA), [i \in 1..Len(Field(c, "track")) |-> WriteTrack(Field(c, "track")[i])]),
       El("PLAYLISTS", <<>>, <<El("NODE", <<<<"Name", Field(r, "name")>>, <<"Count", CountAttr(Len(Field(r, "nodes")))>>>>,
                                  [i \in 1..Len(Field(r, "nodes")) |-> WriteNode(Field(r, "nodes")[i])])>>)>>)

(* What an attribute holds after it was written and read: line breaks and tabs come back as spaces. *)
RECURSIVE NormText(_)
NormText(t) == IF t = <<>> THEN <<>>
               ELSE IF Len(t) > 1 /\ t[1] = 13 /\ t[2] = 10 THEN <<32>> \o NormText(Drop(t, 2))
               ELSE <<IF t[1] \in {9, 10, 13} THEN 32 ELSE t[1]>> \o NormText(Tail(t))
=============================================================================
