----------------------------- MODULE MCOffsets -----------------------------
(* Offset arrays of any number of items of any kind: found where the offsets say, put where they say, and
   laid out anew. The array starts at `at`, its offsets count from at - back. *)
EXTENDS Rows

CONSTANTS Family, Deep

VARIABLES stage, n, w, kind, at, back, file, items, offs
vars == <<stage, n, w, kind, at, back, file, items, offs>>

Widths == [u8 |-> 1, u16 |-> 2, u32 |-> 4, raw3 |-> 3]
Kinds == {"u8", "u16", "u32", "raw3", "sql"}
Name == IF kind = "sql" THEN "" ELSE kind
S(t) == Sql!Enc(t)
(* What an item of this kind may look like *)
Samples(k) == CASE k = "u8" -> <<<<170>>, <<171>>, <<172>>>>
  [] k = "u16" -> <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>
  [] k = "u32" -> <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<9, 10, 11, 12>>>>
  [] k = "raw3" -> <<<<21, 22, 23>>, <<24, 25, 26>>, <<27, 28, 29>>>>
  [] k = "sql" -> <<S(<<65, 66>>), Sql!Long(144, Utf16LE(<<228, 67>>)), S(<<>>)>>
Shuffled(k) == LET s == Samples(k) IN {s, <<s[2], s[1], s[3]>>, <<s[3], s[2], s[2]>>}
Near == {0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 17}
Far == {250, 255} \cup (IF Deep THEN {100, 127, 128, 254} ELSE {})
Farther == {256, 300, 4096, 65535} \cup (IF Deep THEN {257, 32767, 32768, 65280} ELSE {})

Base == at - back
DecItem(b, p) == IF p > Len(b) THEN No ELSE
  IF kind = "sql" THEN LET d == Sql!Dec(Drop(b, p)) IN IF d.ok THEN [ok |-> TRUE, z |-> At(b, p, d.used)] ELSE No
  ELSE IF Fits(b, p, Widths[kind]) THEN [ok |-> TRUE, z |-> At(b, p, Widths[kind])] ELSE No
DecAll(b) ==
  IF ~Fits(b, at, w * (n + 1)) \/ back > at THEN No ELSE
  IF At(b, at, w) # Marker(w) THEN No ELSE
  LET o == TLCEval([i \in 1..n |-> IntOf(At(b, at + w * i, w), "le")])
      r == TLCEval([i \in 1..n |-> DecItem(b, Base + o[i])])
  IN IF \E i \in 1..n : ~r[i].ok THEN No ELSE [ok |-> TRUE, offs |-> o, zs |-> [i \in 1..n |-> r[i].z]]

Fill == 238
(* A file with the array and items at the offsets; the items are put there first so that the array stays intact. *)
FileWith(a, bk, ww, os, zs) == PatchAll(Rep(Fill, a), [i \in 1..Len(os) |-> <<a - bk + os[i], zs[i]>>] \o <<<<a, ArrayBytes(ww, os)>>>>)
Offsets(m, ww) == IF m = 0 THEN {<<>>} ELSE IF m = 1 THEN {<<o>> : o \in Near \cup Far \cup (IF ww = 2 THEN Farther ELSE {})}
                  ELSE IF m = 2 THEN Near \X (Near \cup Far \cup (IF ww = 2 THEN {300} ELSE {}))
                  ELSE (IF Deep THEN Near ELSE {0, 3, 6, 12}) \X {4, 9, 20} \X {5, 30}

Init ==
  /\ items = <<>> /\ offs = <<>> /\ stage = "stored" /\ kind \in Kinds /\ w \in {1, 2}
  /\ \/ /\ Family = "given" /\ n \in 0..3 /\ at \in {0, 5} /\ back \in {0, 3, 5}
        /\ back <= at
        /\ \E os \in Offsets(n, w) : file = FileWith(at, back, w, os, Take(Samples(kind), n))
     \/ /\ Family = "bad" /\ n \in 0..2 /\ at \in {0, 4} /\ back \in {0, 4, 5}
        /\ \E os \in (IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<6>>} ELSE {<<12, 16>>}) :
             LET f == FileWith(Max2(at, back), back, w, os, Take(Samples(kind), n))
                 g == Drop(f, Max2(at, back) - at)      \* the array itself is always at `at`
                 m == at + 1
             IN file \in {[g EXCEPT ![m] = v] : v \in {0, 1, 2, 4, 131}} \cup (IF w = 2 THEN {[g EXCEPT ![m + 1] = v] : v \in {1, 3, 255}} ELSE {})
                         \cup {Take(g, l) : l \in at..Len(g)}
     \/ /\ Family = "fresh" /\ n \in 0..3 /\ at \in {0, 5} /\ back \in {0, 1, 2, 3, 5}
        /\ back <= at
        /\ \E zs \in Shuffled(kind) : LET os == [i \in 1..n |-> 5 + 10 * i + back] IN file = FileWith(at, back, w, os, Take(zs, n))
     \/ /\ Family = "fresh" /\ n \in 1..2 /\ at = 2 /\ back \in {0, 2} /\ kind = "sql" /\ w = 2     \* too far for narrow offsets
        /\ \E l \in {235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250} :
             file = FileWith(at, back, w, IF n = 1 THEN <<20>> ELSE <<20, 400>>, Take(<<Sql!Long(64, Rep(65, l)), S(<<66>>)>>, n))

Rec(ok) == [k |-> "offs", n |-> n, w |-> w, kind |-> kind, at |-> at, back |-> back, bytes |-> file, ok |-> ok]
Read == /\ stage = "stored"
        /\ LET r == DecAll(file) IN
           /\ stage' = IF r.ok THEN "read" ELSE "failed"
           /\ items' = IF r.ok THEN r.zs ELSE <<>>
           /\ offs' = IF r.ok THEN r.offs ELSE <<>>
           /\ IF r.ok THEN TRUE ELSE Emit(Rec(FALSE))
        /\ UNCHANGED <<n, w, kind, at, back, file>>
Over == Rep(Fill - 1, Len(file) + 3)
Good == [offs |-> offs, items |-> items, over |-> Over] @@ Rec(TRUE)
Given == PatchAll(Over, <<<<at, ArrayBytes(w, offs)>>>> \o ItemPatches(Base, offs, items))
Write == /\ stage = "read"
         /\ stage' = "written"
         /\ Emit([how |-> "given", ww |-> w, wok |-> TRUE, out |-> Given] @@ Good)
         /\ Emit([how |-> "given", ww |-> 3 - w, wok |-> FALSE] @@ Good)
         /\ UNCHANGED <<n, w, kind, at, back, file, items, offs>>
(* Fresh offsets, in either width *)
Alignment(z) == IF kind = "sql" THEN AlignOf(z) ELSE 1
RECURSIVE PlaceAll(_, _)
PlaceAll(zs, p) == IF zs = <<>> THEN <<>> ELSE LET o == AlignUp(p, Alignment(Head(zs))) IN <<o>> \o PlaceAll(Tail(zs), o + Len(Head(zs)))
Relay == /\ stage = "read" /\ Family = "fresh"
         /\ stage' = "written"
         /\ \E ww \in {1, 2} :
              LET first == back + ww * (n + 1)
                  os == TLCEval(PlaceAll(items, first))
                  fits == \A i \in 1..n : os[i] < (IF ww = 1 THEN 256 ELSE 65536)
                  out == PatchAll(Over, <<<<at, ArrayBytes(ww, os)>>>> \o ItemPatches(Base, os, items) \o
                                        [i \in 1..n |-> LET b == IF i = 1 THEN first ELSE os[i - 1] + Len(items[i - 1]) IN <<Base + b, Zeros(os[i] - b)>>])
              IN /\ IF fits THEN Emit([how |-> "fresh", ww |-> ww, wok |-> TRUE, out |-> out] @@ Good) ELSE Emit([how |-> "fresh", ww |-> ww, wok |-> FALSE] @@ Good)
                 (* Fresh offsets find the same items again, without overlap and in order. *)
                 /\ Assert(fits => \A i \in 1..n : At(out, Base + os[i], Len(items[i])) = items[i], "items are where the offsets say")
                 /\ Assert(\A i \in 1..n : os[i] >= first /\ (i > 1 => os[i] >= os[i - 1] + Len(items[i - 1])), "items do not overlap")
                 /\ Assert(\A i \in 1..n : os[i] % Alignment(items[i]) = 0, "alignment")
         /\ UNCHANGED <<n, w, kind, at, back, file, items, offs>>
Next == Read \/ Write \/ Relay
Spec == Init /\ [][Next]_vars

(* Writing with the given offsets over the file that was read changes nothing, unless items overlap the array. *)
Clear == \A i \in 1..Len(offs) : Base + offs[i] >= at + w * (n + 1) \/ Base + offs[i] + Len(items[i]) <= at
Unchanged == stage = "written" => PatchAll(file, <<<<at, ArrayBytes(w, offs)>>>> \o ItemPatches(Base, offs, items)) = file
WellFormed == Family = "fresh" => stage # "failed"
=============================================================================
