------------------------------- MODULE MCRows -------------------------------
(* Life of a row: stored somewhere, perhaps damaged, read, perhaps laid out anew, and written over something. *)
EXTENDS RowSamples

CONSTANTS Family, Types, Deep

VARIABLES stage, ty, at, file, val, how, edit
vars == <<stage, ty, at, file, val, how, edit>>

Other(x) == {0, 255, (x + 1) % 256, (x + 128) % 256} \cup (IF Deep THEN {1, 2, 3, 4, 5, 8, 64, 144, (x + 255) % 256, (x + 4) % 256} \cup {x ^^ (2 ^ i) : i \in 0..7} ELSE {})
Damaged(t) == LET b == Row0(t) IN
  UNION {{[b EXCEPT ![i] = v] : v \in Other(b[i])} : i \in 1..Len(b)}
  \cup {Take(b, n) : n \in 0..(Len(b) - 1)} \cup Overlays(b, 0) \cup {b \o <<1, 2, 3>>}
Starts == {0, 4, 7}
Fill == 238
(* Offset arrays of rows: every arrangement of small offsets, far ones, ones in front of or inside the array *)
Arrange == UNION {
  {[t |-> "Artists", b |-> PatchAll(Rep(5, 300), <<<<0, FixedPart(Layout("Artists"), 33, w)>>, <<8, ArrayBytes(IF w THEN 2 ELSE 1, <<o>>)>>, <<o, S(<<65, 66>>)>>>>)] :
     w \in BOOLEAN, o \in {10, 11, 12, 13, 20, 40, 127, 128, 200, 254, 255}},
  {[t |-> "Artists", b |-> PatchAll(Rep(5, n), <<<<0, FixedPart(Layout("Artists"), 33, w)>>, <<8, ArrayBytes(IF w THEN 2 ELSE 1, <<o>>)>>>>)] :
     w \in BOOLEAN, o \in {0, 1, 8, 9, 10, 12, 19, 20, 21, 255}, n \in {20, 40}},
  {[t |-> "Artists", b |-> PatchAll(Rep(5, n), <<<<0, FixedPart(Layout("Artists"), 33, TRUE)>>, <<8, ArrayBytes(2, <<o>>)>>>>)] : o \in {256, 300, 302, 303, 4000, 65535}, n \in {304, 305, 310}},
  {[t |-> "Tag", b |-> PatchAll(Rep(7, 80), <<<<0, FixedPart(Layout("Tag"), 33, w)>>, <<28, ArrayBytes(IF w THEN 2 ELSE 1, <<o, p>>)>>>>)] :
     w \in BOOLEAN, o \in {28, 30, 31, 32, 34, 35, 36, 40, 76, 77, 79, 80}, p \in {0, 31, 34, 36, 40, 76, 77, 78}}}

Init == /\ val = No /\ edit = <<>> /\ stage = "stored"
        /\ \/ Family = "rows" /\ ty \in Types /\ at \in Starts /\ how = "ok" /\ \E b \in Rows1(ty) : file = Rep(Fill, at) \o b \o Rep(Fill, 3)
           \/ Family = "damage" /\ ty \in Types /\ at = 4 /\ how = "bad" /\ \E b \in Damaged(ty) : file = Rep(Fill, at) \o b
           \/ Family = "arrange" /\ at = 4 /\ how = "bad" /\ \E a \in Arrange : ty = a.t /\ file = Rep(Fill, 4) \o a.b
           \/ Family = "edit" /\ ty \in {"Artists", "Tag", "Tracks"} /\ at \in {0, 7} /\ how = "ok" /\ \E w \in BOOLEAN : file = Rep(Fill, at) \o Spreads(ty, 1, 2, w)

Over == Rep(Fill - 1, Len(file))
Written(v) == PatchAll(Over, EncRow(ty, v.f, at))
Base(ok) == [k |-> "row", type |-> ty, at |-> at, bytes |-> file, ok |-> ok]
Read == /\ stage = "stored"
        /\ val' = DecRow(ty, file, at)
        /\ stage' = IF val'.ok THEN "read" ELSE "failed"
        /\ IF val'.ok THEN TRUE ELSE Emit(Base(FALSE))
        /\ UNCHANGED <<ty, at, file, how, edit>>
Write == /\ stage = "read" /\ edit = <<>>
         /\ stage' = "written"
         /\ Emit(IF val.odd THEN [over |-> Over, out |-> Written(val)] @@ Base(TRUE)
                 ELSE [over |-> Over, out |-> Written(val), tree |-> val.t] @@ Base(TRUE))
         /\ UNCHANGED <<ty, at, file, val, how, edit>>
(* New texts in the public string fields, and fresh offsets *)
Public == CASE ty = "Artists" -> <<1>> [] ty = "Tag" -> <<1, 2>> [] ty = "Tracks" -> <<18, 21>>
EditTexts == {<<>>, <<72, 105>>, <<8364, 228, 97>>, [i \in 1..130 |-> 65], [i \in 1..70 |-> 228]} \cup (IF Deep THEN {<<228>>, [i \in 1..126 |-> 66], [i \in 1..127 |-> 66], [i \in 1..400 |-> 228]} ELSE {})
Width == WidthOf(BigInt(val.f[1][2].n))
Relay == /\ stage = "read" /\ Family = "edit"
         /\ \E ts \in [1..Len(Public) -> EditTexts] :
              /\ edit' = ts
              /\ LET n == Len(Names(ty))
                     c == val.f[Len(val.f)][2].f
                     old == [i \in 1..n |-> c[2][2].f[i][2].z]
                     zs == TLCEval([i \in 1..n |-> IF \E j \in 1..Len(Public) : Public[j] = i THEN S(ts[CHOOSE j \in 1..Len(Public) : Public[j] = i]) ELSE old[i]])
                     F == Fresh(zs, BaseOf(ty), Width)
                     fixed == EncRowF(Layout(ty), val.f)
                     out == PatchAll(Over, <<<<at, fixed>>>> \o FreshPatches(zs, BaseOf(ty), Width, at))
                     r == DecRow(ty, out, at)
                 IN /\ IF F.ok THEN Assert(r.ok /\ \A i \in 1..n : r.f[Len(r.f)][2].f[2][2].f[i][2].z = zs[i], "fresh offsets must read back") ELSE TRUE
                    /\ IF F.ok THEN Emit([over |-> Over, edit |-> ts, fits |-> TRUE, out |-> out, tree |-> r.t] @@ Base(TRUE))
                       ELSE Emit([over |-> Over, edit |-> ts, fits |-> FALSE] @@ Base(TRUE))
         /\ stage' = "written"
         /\ UNCHANGED <<ty, at, file, val, how>>
Next == Read \/ Write \/ Relay
Spec == Init /\ [][Next]_vars

(* The properties *)
WellFormed == how = "ok" => stage # "failed"
(* Writing a row over its own file changes nothing, provided that its parts do not overlap each other differently. *)
Unchanged == stage = "written" /\ edit = <<>> => PatchAll(file, EncRow(ty, val.f, at)) = file
SameAgain == stage = "written" /\ edit = <<>> => DecRow(ty, PatchAll(Rep(0, Len(file)), EncRow(ty, val.f, at)), at).f = val.f
=============================================================================
