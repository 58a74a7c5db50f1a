----------------------------- MODULE RowSamples -----------------------------
(* Well-formed rows of every type, with distinguishable bytes in all fields. *)
EXTENDS Rows

Count(a, n) == [i \in 1..n |-> (a + 7 * (i - 1)) % 256]
S(t) == Sql!Enc(t)
Wide(t) == Sql!Long(144, Utf16LE(t))
IsrcZ == Sql!EncIsrc(<<85, 83, 83, 49, 90, 57, 57, 48, 48, 48, 48, 49>>)
TextZ == {S(<<>>), S(<<65, 66>>), Sql!Long(64, <<67, 68>>), Wide(<<228, 66>>), IsrcZ}
(* Fixed part of a row: everything in front of the strings, with distinguishable bytes *)
RECURSIVE FixedPart(_, _, _)
FixedPart(l, a, wide) ==
  IF l = <<>> THEN <<>> ELSE
  LET x == Head(l)
      b == CASE x.k = "numas" -> <<(a % 256) - (((a \div 4) % 2) * 4) + (IF wide THEN 4 ELSE 0), 6>>
             [] x.k = "num" -> Count(a, x.w)
             [] x.k = "enum" -> <<3>>
             [] x.k = "enumo" -> IF x.w = 1 THEN <<1>> ELSE <<5, 0>>
             [] x.k = "fix" -> x.v
             [] x.k = "opt" -> IF wide THEN Zeros(4) ELSE Count(a, 4)
             [] OTHER -> <<>>
  IN b \o FixedPart(Tail(l), a + 31, wide)
HasOffs(t) == Layout(t)[Len(Layout(t))].k = "offs"
HasSql(t) == \E i \in 1..Len(Layout(t)) : Layout(t)[i].k = "sql"
Names(t) == Layout(t)[Len(Layout(t))].names
BaseOf(t) == Layout(t)[Len(Layout(t))].base
(* A row with strings in place; zs are the strings in order *)
RECURSIVE InPlace(_, _, _)
InPlace(l, a, zs) ==
  IF l = <<>> THEN <<>> ELSE
  IF Head(l).k = "sql" THEN Head(zs) \o InPlace(Tail(l), a + 31, Tail(zs)) ELSE FixedPart(<<Head(l)>>, a, FALSE) \o InPlace(Tail(l), a + 31, zs)
SqlCount(t) == Cardinality({i \in 1..Len(Layout(t)) : Layout(t)[i].k = "sql"})
(* A row with an offset array: gaps between the strings, in the order given by perm *)
WithOffs(t, zs, offs, wide) ==
  PatchAll(FixedPart(Layout(t), 33, wide), <<<<BaseOf(t), ArrayBytes(IF wide THEN 2 ELSE 1, offs)>>>> \o ItemPatches(0, offs, zs))
RECURSIVE Spread(_, _, _)
Spread(zs, o, gap) == IF zs = <<>> THEN <<>> ELSE <<o>> \o Spread(Tail(zs), o + Len(Head(zs)) + gap, gap)
(* strings of a track: mostly short *)
Strs(n, k) == [i \in 1..n |-> IF n = 21 /\ i = 1 THEN IsrcZ ELSE CASE (i + k) % 5 = 0 -> S(<<>>) [] (i + k) % 5 = 1 -> S(<<64 + i>>) [] (i + k) % 5 = 2 -> Wide(<<8364, 65 + i>>)
                                  [] (i + k) % 5 = 3 -> Sql!Long(64, <<97, 98, 99>>) [] OTHER -> S(<<64 + i, 97, 98>>)]
Behind(t, wide) == BaseOf(t) + (IF wide THEN 2 ELSE 1) * (Len(Names(t)) + 1)
Spreads(t, k, gap, wide) == LET n == Len(Names(t)) zs == Strs(n, k) IN WithOffs(t, zs, Spread(zs, Behind(t, wide), gap), wide)
(* last string first *)
Backwards(t, wide) == LET n == Len(Names(t)) zs == Strs(n, 1) IN WithOffs(t, zs, Rev(Spread(Rev(zs), Behind(t, wide), 1)), wide)
Same(t, wide) == LET n == Len(Names(t)) zs == [i \in 1..n |-> S(<<65>>)] IN WithOffs(t, zs, [i \in 1..n |-> Behind(t, wide)], wide)

Row0(t) == IF HasOffs(t) THEN Spreads(t, 0, 0, FALSE) ELSE InPlace(Layout(t), 33, [i \in 1..SqlCount(t) |-> S(<<65, 66 + i>>)])
Arranged(t) == {Spreads(t, k, g, w) : k \in 0..2, g \in {0, 1, 3}, w \in BOOLEAN} \cup {Backwards(t, w) : w \in BOOLEAN} \cup {Same(t, w) : w \in BOOLEAN}
Rows1(t) ==
  IF HasOffs(t) THEN {r \in Arranged(t) : \A i \in 1..Len(r) : r[i] < 256}       \* those whose offsets fit
  ELSE IF SqlCount(t) = 1 THEN {InPlace(Layout(t), 33, <<z>>) : z \in TextZ}
  ELSE IF SqlCount(t) = 3 THEN {InPlace(Layout(t), 33, <<a, b, c>>) : a \in TextZ, b \in TextZ, c \in TextZ}
  ELSE {Row0(t)}

=============================================================================
