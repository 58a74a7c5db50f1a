------------------------------ MODULE MCHeader ------------------------------
(* Life of a database header: stored, read, searched, changed, written; and the small numbers around it. *)
EXTENDS PageCodec

CONSTANTS Family, Deep

VARIABLES stage, kind, file, hd, how, edits
vars == <<stage, kind, file, hd, how, edits>>

W(a) == <<a, a + 1, a + 2, a + 3>>
Tab(i, w) == [pt |-> w, ec |-> W(10 + 3 * i), first |-> W(60 + 3 * i), last |-> W(120 + 3 * i)]
Hd(ps, ws) == [ps |-> ps, nu |-> W(1), unk |-> W(201), seq |-> W(221), tables |-> [i \in 1..Len(ws) |-> Tab(i, ws[i])]]
AllWords == {LE32(n) : n \in 0..21} \cup {LE32(n) : n \in {256, 258, 65536, 16777216 + 3}} \cup {<<3, 0, 0, 128>>, <<255, 255, 255, 255>>, <<0, 0, 0, 255>>}
FewWords == {LE32(0), LE32(3), LE32(4), LE32(9), <<3, 0, 0, 128>>}
PageSizes == {<<80, 0, 0, 0>>, <<0, 16, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<92, 0, 0, 0>>}
Rest == <<238, 237>>
Small == EncHeader(Hd(<<92, 0, 0, 0>>, <<LE32(3), LE32(9), LE32(3)>>))
OtherB(x) == {0, 1, 255, (x + 1) % 256} \cup (IF Deep THEN {x ^^ (2 ^ i) : i \in 0..7} \cup {2, 3, 4, 16, 79, 127, 128} ELSE {})
Limits == {[EncHeader(Hd(LE32(s), [i \in 1..n |-> LE32(i - 1)])) EXCEPT ![9] = m] :
             s \in {28, 43, 44, 60, 79, 80, 81, 91, 92, 93, 107, 108, 123, 124}, n \in {0, 3, 4, 5, 6}, m \in {0, 1, 3, 4, 5, 6, 7, 255}}

Recorded == IF Family = "recorded" THEN JsonDeserialize("input.json") ELSE <<>>
Init == /\ hd = No /\ edits = <<>> /\ stage = "stored" /\ kind \in {"Plain", "Ext"}
        /\ \/ Family = "recorded" /\ how = "ok" /\ \E r \in Range(Recorded) : file = r.b /\ kind = r.k
           \/ Family = "tables" /\ how = "ok" /\ \E ps \in PageSizes, w \in AllWords : file = EncHeader(Hd(ps, <<w>>)) \o Rest
           \/ Family = "tables" /\ how = "ok" /\ \E n \in 0..(IF Deep THEN 4 ELSE 3), s \in PageSizes : \E ws \in [1..n -> FewWords] :
                16 * n + 28 <= 92 /\ (n = 4 => s # <<80, 0, 0, 0>>) /\ file = EncHeader(Hd(s, ws)) \o Rest
           \/ Family = "tables" /\ how = "ok" /\ file = EncHeader(Hd(<<0, 16, 0, 0>>, [i \in 1..30 |-> LE32(30 - i)]))
           \/ Family = "tables" /\ how = "ok" /\ \E n \in {120, 127, 128, 200, 254, 255, 256, 257, 300, 510} : file = EncHeader(Hd(<<0, 32, 0, 0>>, [i \in 1..n |-> LE32((7 * i) % n)]))
           \/ Family = "damage" /\ how = "bad" /\ file \in UNION {{[Small EXCEPT ![i] = v] : v \in OtherB(Small[i])} : i \in 1..Len(Small)} \cup Overlays(Small, 0) \cup {Take(Small, n) : n \in 0..Len(Small)} \cup Limits
           \/ Family = "edit" /\ how = "ok" /\ \E ws \in {<<LE32(3), LE32(9), LE32(3)>>, <<LE32(0), LE32(4)>>, <<>>} : file = EncHeader(Hd(<<0, 16, 0, 0>>, ws)) \o Rest

Over == Rep(170, Len(file) + 1)
Base(ok) == [k |-> "header", kind |-> kind, bytes |-> file, ok |-> ok]
Read == /\ stage = "stored"
        /\ hd' = DecHeader(file)
        /\ stage' = IF hd'.ok THEN "read" ELSE "failed"
        /\ IF hd'.ok THEN TRUE ELSE Emit(Base(FALSE))
        /\ UNCHANGED <<kind, file, how, edits>>
NewWord == {<<0, 0, 0, 0>>, <<1, 2, 3, 4>>, <<255, 255, 255, 3>>}
Edit == /\ stage = "read" /\ Family = "edit" /\ Len(edits) < 2
        /\ \E v \in NewWord :
             \/ hd' = [hd EXCEPT !.nu = v] /\ edits' = Append(edits, [n |-> "nu", v |-> v])
             \/ hd' = [hd EXCEPT !.unk = v] /\ edits' = Append(edits, [n |-> "unk", v |-> v])
             \/ hd' = [hd EXCEPT !.seq = v] /\ edits' = Append(edits, [n |-> "seq", v |-> v])
             \/ \E t \in {LE32(3), LE32(0), LE32(4), LE32(9)} : FindTable(hd, t) >= 0 /\
                  \/ hd' = [hd EXCEPT !.tables[FindTable(hd, t) + 1].first = v] /\ edits' = Append(edits, [n |-> "first", t |-> t, v |-> v])
                  \/ hd' = [hd EXCEPT !.tables[FindTable(hd, t) + 1].last = v] /\ edits' = Append(edits, [n |-> "last", t |-> t, v |-> v])
        /\ UNCHANGED <<stage, kind, file, how>>
Searched == SetSeq({LE32(n) : n \in {0, 3, 4, 9, 19}} \cup {hd.tables[i].pt : i \in 1..Len(hd.tables)})
Write == /\ stage = "read"
         /\ stage' = "written"
         /\ LET orig == DecHeader(file) IN
            Emit([tree |-> HeaderTree(kind, orig), used |-> Len(EncHeader(orig)), find |-> [i \in 1..Len(Searched) |-> <<Searched[i], FindTable(hd, Searched[i])>>],
                  edits |-> edits, over |-> Over, out |-> PatchAll(Over, <<<<0, EncHeader(hd)>>>>)] @@ Base(TRUE))
         /\ UNCHANGED <<kind, file, hd, how, edits>>
Next == Read \/ Edit \/ Write
Spec == Init /\ [][Next]_vars
WellFormed == how = "ok" => stage # "failed"
Unchanged == stage = "written" /\ edits = <<>> => EncHeader(hd) = Take(file, Len(EncHeader(hd)))

(* Page indices: those below 2^26 - 1 can be made; where their page is; entries of index pages made of them. *)
Product(a, b) ==    \* of two little-endian words, most significant byte first
  LET RECURSIVE Go(_, _)
      Col(i) == SumSeq([j \in 1..4 |-> IF i - j + 1 \in 1..4 THEN a[j] * b[i - j + 1] ELSE 0])
      Go(i, carry) == IF i > 8 THEN <<>> ELSE LET s == carry + (IF i < 8 THEN Col(i) ELSE 0) IN <<s % 256>> \o Go(i + 1, s \div 256)
  IN Rev(Go(1, 0))
Valid(w) == w[4] < 3 \/ (w[4] = 3 /\ ~(w[1] = 255 /\ w[2] = 255 /\ w[3] = 255))
Shl3(w) == [i \in 1..4 |-> ((w[i] % 32) * 8) + (IF i = 1 THEN 0 ELSE w[i - 1] \div 32)]
Indices == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<34, 51, 17, 1>>, <<253, 255, 255, 3>>, <<254, 255, 255, 3>>, <<255, 255, 255, 3>>, <<0, 0, 0, 4>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>}
NumberSizes == {<<0, 0, 0, 0>>, <<0, 16, 0, 0>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>}
NInit == /\ stage = "number" /\ kind = "" /\ hd = No /\ how = "" /\ edits = <<>> /\ file = <<>>
(* What new pages start with, and rounding up *)
Made == {[what |-> "flags", out |-> <<36, 36, 100>>, n |-> LE32(0), by |-> 0]}
  \cup {[what |-> "counts", out |-> RowCounts(n, n), n |-> LE32(n), by |-> 0] : n \in {0, 1, 2, 16, 255, 256, 257, 1000, 2046, 2047}}
  \cup {[what |-> "align", out |-> LE32(AlignUp(n, a)), n |-> LE32(n), by |-> a] : a \in {1, 2, 4, 8, 12, 16}, n \in (0..20) \cup {4095, 65535, 65536, 16777215}}
NNext == /\ stage = "number" /\ stage' = "done"
         /\ \A m \in Made : Emit([k |-> "made"] @@ m)
         /\ \E w \in Indices, s \in NumberSizes, f \in {0, 1, 3, 4, 7, 8, 9, 16, 128, 255} :
              /\ Emit([k |-> "number", n |-> w, ps |-> s, ok |-> Valid(w), offset |-> Product(w, s), flags |-> f,
                       entry |-> IF f < 8 THEN [Shl3(w) EXCEPT ![1] = @ + f] ELSE [none |-> 0]])
              /\ file' = <<w, s, f>>
         /\ UNCHANGED <<kind, hd, how, edits>>
=============================================================================
