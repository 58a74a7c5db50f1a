------------------------------- MODULE MCAnlz -------------------------------
(* Life of an analysis file: it is stored (possibly damaged at one place), loaded, its lists are edited,
   and it is saved. *)
EXTENDS AnlzBuild

CONSTANTS Tool,     \* TRUE: what dump-anlz shows, FALSE: what reading and writing give
          Family,   \* "fields" | "seq" | "text" | "mask" | "cols"
          Kind,     \* section kinds of the "fields" family
          MaxEdits, \* number of edits between loading and saving
          Deep

VARIABLES stage, file, val, out, edits, how
vars == <<stage, file, val, out, edits, how>>

(* Damage at one place *)
Other(x) == {0, 255, (x + 1) % 256, (x + 128) % 256} \cup
  (IF Deep THEN {1, 2, 3, 4, 8, 12, 16, 127, 128, 254, (x + 255) % 256, (x + 2) % 256, (x + 4) % 256} \cup {x ^^ (2 ^ i) : i \in 0..7} ELSE {})
Damaged(b) ==
  {[how |-> "ok", b |-> b]}
  \cup {[how |-> "cut", b |-> Take(b, n)] : n \in 0..(Len(b) - 1)}
  \cup {[how |-> "tail", b |-> b \o t] : t \in {<<0>>, <<1, 2, 3>>}}
  \cup UNION {{[how |-> "byte", b |-> [b EXCEPT ![i] = v]] : v \in Other(b[i]) \ {b[i]}} : i \in 1..Len(b)}
  \cup {[how |-> "byte", b |-> c] : c \in Overlays(b, 28) \ {b}}
  \cup {[how |-> "lack", b |-> SubSeq(b, 1, i) \o SubSeq(b, i + 2, Len(b))] : i \in 28..(Len(b) - 1)}

--------------------------------------------------------------------------
Small == {Sec("VBR", 16, Count(3, 4)), Sec("BeatGrid", 24, BeatsB(1)), Sec("Path", 16, PathB(<<47>>)), SecU(<<0, 0, 0, 0>>, 12, <<>>),
          SecU(<<80, 87, 86, 56>>, 14, Count(1, 5)), Sec("WaveformPreview", 20, PrevB(2)), Sec("SongStructure", 32, SongB(2, 4, 1, TRUE)),
          Sec("Waveform3BandDetail", 24, WaveB(3, 1, <<0, 150, 0, 0>>))}
SmallX == Small \cup {Sec("CueList", 24, CuesB(1)), Sec("ExtendedCueList", 20, XCuesB(1, <<XCueOf(1, <<65>>, <<9>>)>>)),
                      Sec("SongStructure", 32, SongB(3, 1, 0, FALSE)), Sec("WaveformColorDetail", 24, WaveB(2, 1, B4(0))),
                      Sec("TinyWaveformPreview", 20, PrevB(1)), Sec("WaveformDetail", 24, DetailB(1)), Sec("WaveformColorPreview", 24, WaveB(6, 1, B4(5))),
                      Sec("Waveform3BandPreview", 20, WaveB(3, 1, <<>>))}
SeqFiles == {[how |-> "ok", b |-> FileOf(s)] : s \in [1..2 -> SmallX] \cup (IF Deep THEN [1..3 -> SmallX] ELSE [1..3 -> Small])}
  \cup {[how |-> "ok", b |-> Hdr("File", n, n + 20) \o Count(1, n - 12) \o Sec("VBR", 16, Count(3, 8))] : n \in {12, 13, 20, 28, 40, 140, 300}}
  \cup {[how |-> "ok", b |-> FileOf(<<SecU(<<80, 81, 84, 50>>, 12 + n, Count(1, n) \o Count(2, m)), Sec("VBR", 16, Count(3, 8))>>)] : n \in {16, 51, 52, 53, 84, 116, 244, 245, 300}, m \in {0, 1, 64, 300}}
  \cup {[how |-> "byte", b |-> Hdr("File", 28, 48 + d) \o Count(1, 16) \o Sec("VBR", 16, Count(3, 8)) \o Count(7, k)] : d \in {-20, -12, -1, 0, 1, 4, 12, 20}, k \in {0, 4, 12, 20}}

TextSet == {<<>>, <<65>>, <<0>>, <<65, 0>>, <<0, 65>>, <<65, 0, 66>>, <<228>>, <<8364>>, <<65535>>, <<65279>>, <<65534>>, <<65536>>, <<128512>>, <<1114111>>, <<55295>>, <<57344>>,
            <<34, 92, 10, 9, 39>>, <<773>>, <<65, 128512, 66>>, <<0, 0>>} \cup {[i \in 1..n |-> 32 + (i % 90)] : n \in {2, 3, 20, 126, 127, 128, 255, 300}}
RawUnits == {<<216, 0>>, <<220, 0>>, <<216, 0, 220>>, <<220, 0, 216, 0>>, <<216, 61, 222, 0>>, <<216, 61, 216, 61>>, <<0, 65>>, <<0>>, <<0, 65, 0>>, <<0, 0, 0, 0>>, <<0, 0>>, <<>>}
XFile(cs) == FileOf(<<Sec("ExtendedCueList", 20, XCuesB(1, cs))>>)
TextFiles ==
  {[how |-> "ok", b |-> XFile(<<XCueOf(1, t, <<>>), XCueOf(2, <<66>>, tr)>>)] : t \in TextSet, tr \in {<<>>, <<0, 0>>}}
  \cup {[how |-> "byte", b |-> XFile(<<XCueB(1, B4(n) \o r \o z, Len(r \o z), <<>>)>>)] : r \in RawUnits, z \in {<<>>, <<0, 0>>}, n \in {0, 1, 2, 3, 4, 5, 6, 7}}
  \cup {[how |-> "byte", b |-> XFile(<<XCueB(1, Comment(<<65, 66>>), n, Count(1, k))>>)] : n \in {0, 1, 5, 6, 7, 8}, k \in {0, 1, 2}}
  \cup {[how |-> "byte", b |-> XFile(<<XCueB(1, B4(n) \o Zeros(n), m, Zeros(k))>>)] : n \in {2, 4, 6}, m \in {0, 2, 4, 6}, k \in {0, 2}}
  \cup {[how |-> IF 0 \in Range(t) THEN "nul" ELSE "ok", b |-> FileOf(<<Sec("Path", 16, PathB(t)), Sec("VBR", 16, Count(1, 4))>>)] : t \in TextSet}
  \cup {[how |-> "byte", b |-> FileOf(<<Sec("Path", 16, B4(n) \o r \o z)>>)] : r \in RawUnits, z \in {<<>>, <<0, 0>>}, n \in {0, 1, 2, 3, 4, 6}}

MaskLens == {0, 1, 2, 3, 4, 5, 18, 19, 20} \cup (IF Deep THEN {52, 53, 54, 255, 256, 257, 309, 600} ELSE {53})
SongFile(s) == FileOf(<<s, Sec("VBR", 16, Count(3, 4))>>)
MaskFiles ==
  {[how |-> "ok", b |-> SongFile(Sec("SongStructure", 32, SongB(m, bk, n, x)))] : m \in 0..4, bk \in {0, 8, 9}, n \in MaskLens, x \in BOOLEAN}
  \* phrase counts around and beyond one byte
  \cup {[how |-> "ok", b |-> SongFile(Sec("SongStructure", 32, SongB(2, 3, n, x)))] : n \in {255, 256, 257, 309, 600, 4100}, x \in BOOLEAN}
  \* every value of the two bytes that decide, for one phrase count
  \cup UNION {{[how |-> "byte", b |-> SongFile(Sec("SongStructure", 32, B4(24) \o BEw(n, 2) \o <<u, v>> \o Drop(SongB(1, 1, n, x), 8)))] :
                 u \in {0, KeyByte(n, 0), 1}, v \in (0..4) \cup {i ^^ KeyByte(n, 1) : i \in 0..4}, x \in BOOLEAN} : n \in {0, 1}}
Chunks == IF Family = "mask" THEN {<<>>, <<1>>, <<2, 0, 3>>, <<5, 1>>, <<7>>, <<18>>, <<19>>, <<0, 20>>} \cup (IF Deep THEN {<<3>>, <<4, 1, 2>>, <<64>>, <<1, 0, 0, 1, 6>>} ELSE {}) ELSE {<<>>}

ColFiles ==
  {[how |-> "ok", b |-> FileOf(<<Sec(k, 20, B4(256) \o B4(0) \o [i \in 1..256 |-> i - 1])>>)] : k \in {"WaveformPreview", "TinyWaveformPreview"}}
  \cup {[how |-> "ok", b |-> FileOf(<<Sec("WaveformDetail", 24, B4(1) \o B4(256) \o <<0, 150, 0, 0>> \o [i \in 1..256 |-> i - 1])>>)]}
  \cup {[how |-> "ok", b |-> FileOf(<<Sec("WaveformColorDetail", 24, B4(2) \o B4(256) \o B4(0) \o Cat([i \in 1..256 |-> <<h, i - 1>>]))>>)] : h \in (IF Deep THEN Byte ELSE {0, 1, 2, 3, 4, 8, 15, 16, 31, 32, 64, 127, 128, 170, 255})}
  \cup {[how |-> "ok", b |-> FileOf(<<Sec("WaveformColorPreview", 24, B4(6) \o B4(2) \o B4(0) \o p)>>)] : p \in {[i \in 1..12 |-> IF i = j THEN 255 ELSE 0] : j \in 1..12}}
  \cup {[how |-> "ok", b |-> FileOf(<<Sec("Waveform3BandPreview", 20, B4(3) \o B4(3) \o p)>>)] : p \in {[i \in 1..9 |-> IF i = j THEN 255 ELSE i] : j \in 1..9}}

Recorded == IF Family = "recorded" THEN JsonDeserialize("input.json") ELSE <<>>
BigFiles == {[how |-> "ok", b |-> FileOf(<<s, Sec("VBR", 16, Count(3, 4))>>)] : s \in
  {Sec("BeatGrid", 24, BeatsB(n)) : n \in {255, 256, 257, 1000}} \cup {Sec("CueList", 24, CuesB(n)) : n \in {255, 257}}
  \cup {Sec("ExtendedCueList", 20, XCuesB(1, [i \in 1..n |-> XCueOf(i % 7, <<65 + (i % 20)>>, <<>>)])) : n \in {255, 256, 257}}
  \cup {Sec("WaveformPreview", 20, PrevB(400)), Sec("TinyWaveformPreview", 20, PrevB(300)), Sec("WaveformDetail", 24, DetailB(1000)), Sec("WaveformColorPreview", 24, WaveB(6, 300, B4(0))),
         Sec("WaveformColorDetail", 24, WaveB(2, 700, B4(0))), Sec("Waveform3BandPreview", 20, WaveB(3, 300, <<>>)), Sec("Waveform3BandDetail", 24, WaveB(3, 300, <<0, 150, 0, 0>>)),
         Sec("Path", 16, PathB([i \in 1..300 |-> 65 + (i % 26)])), Sec("VBR", 16, Count(1, 1604)), SecU(<<80, 81, 84, 50>>, 300, Count(1, 1000))}}
  \cup {[how |-> "ok", b |-> FileOf([i \in 1..n |-> IF i % 2 = 0 THEN Sec("VBR", 16, Count(i % 250, 5)) ELSE SecU(<<80, 81, 84, i % 100>>, 12, Count(i % 250, i % 3))])] : n \in {60, 300}}
  \cup (IF ~Deep THEN {} ELSE {[how |-> "ok", b |-> FileOf(<<s>>)] : s \in {Sec("BeatGrid", 24, BeatsB(8193))}})
(* More elements than 16 bits can count *)
N17 == 65536 + 3
HugeFiles(z) == {[how |-> "ok", b |-> FileOf(<<s>>)] : s \in
  {Sec("WaveformPreview", 20, PrevB(N17)), Sec("TinyWaveformPreview", 20, PrevB(N17)), Sec("WaveformDetail", 24, DetailB(N17)), Sec("WaveformColorPreview", 24, WaveB(6, N17, B4(0))),
   Sec("WaveformColorDetail", 24, WaveB(2, N17, B4(0))), Sec("Waveform3BandPreview", 20, WaveB(3, N17, <<>>)), Sec("Waveform3BandDetail", 24, WaveB(3, N17, <<0, 150, 0, 0>>)),
   Sec("BeatGrid", 24, BeatsB(N17)), Sec("VBR", 16, Count(1, N17)), SecU(<<80, 81, 84, 50>>, 300, Count(1, N17)), Sec("Path", 16, PathB([i \in 1..N17 |-> 65 + (i % 26)])),
   Sec("ExtendedCueList", 20, XCuesB(1, <<XCueOf(1, [i \in 1..40001 |-> 65 + (i % 26)], <<0, 0>>), XCueOf(2, <<66>>, <<>>)>>))}}
Files == CASE Family = "recorded" -> {[how |-> "ok", b |-> r] : r \in Range(Recorded)} [] Family = "big" -> BigFiles [] Family = "huge" -> HugeFiles(0) [] Family = "fields" -> UNION {Damaged(FileOf(s)) : s \in UNION {Bases(k) : k \in Kind}}
           [] Family = "seq" -> SeqFiles
           [] Family = "text" -> TextFiles
           [] Family = "mask" -> MaskFiles
           [] Family = "cols" -> ColFiles
           [] Family \in {"edit", "fill"} -> {[how |-> "ok", b |-> FileOf(s)] : s \in UNION {Bases(k) : k \in Kind}}

--------------------------------------------------------------------------
Init == /\ \E f \in Files : file = f.b /\ how = f.how
        /\ stage = "stored" /\ val = No /\ out = <<>> /\ edits = <<>>


Cli(rc, o, e) == [k |-> "cli", args |-> <<"dump-anlz", "@ANLZ0000.EXT">>, files |-> <<[name |-> "ANLZ0000.EXT", bytes |-> file]>>, rc |-> rc, out |-> o, err |-> e]


Load == /\ stage = "stored"
        /\ val' = DecFile(file)
        /\ stage' = IF val'.ok THEN "loaded" ELSE "failed"
        /\ IF val'.ok THEN TRUE ELSE IF Tool THEN Emit(Cli(1, <<>>, <<"Error">>)) ELSE \A c \in Chunks : Emit([k |-> "codec", type |-> "anlz", bytes |-> file, ok |-> FALSE, chunks |-> c])
        /\ UNCHANGED <<file, out, edits, how>>

(* Lists that users can change, as (field of the content). *)
ListOf(kind) == CASE kind = "BeatGrid" -> "beats" [] kind \in {"CueList", "ExtendedCueList"} -> "cues"
                  [] kind \in {"Path", "VBR", "SongStructure", "Unknown"} -> "" [] OTHER -> "data"
Sections(v) == v.t.f[3][2]
KindOfSec(s) == s.f[2][2].s
SetField(fs, n, x) == [i \in 1..Len(fs) |-> IF fs[i][1] = n THEN <<n, x>> ELSE fs[i]]
EditList(kind, l, op) == CASE op = "pop" -> Take(l, Len(l) - 1) [] op = "dup" -> l \o <<l[1]>> [] op = "rev" -> Rev(l) [] op = "clear" -> <<>>
Edit(j, op) ==
  LET s == Sections(val)[j]
      kind == KindOfSec(s)
      c == s.f[2][2].f[1][2].f
  IN /\ ListOf(kind) # ""
     /\ FieldNamed(c, ListOf(kind)) # <<>>
     /\ LET c2 == SetField(c, ListOf(kind), EditList(kind, FieldNamed(c, ListOf(kind)), op))
        IN val' = [val EXCEPT !.t.f[3][2][j].f[2][2].f[1][2].f = c2]
     /\ edits' = Append(edits, [sec |-> j, op |-> op])
Path16 == {<<>>, <<47, 66, 128512>>}
EditPath(j, t) == /\ KindOfSec(Sections(val)[j]) = "Path"
                  /\ val' = [val EXCEPT !.t.f[3][2][j].f[2][2].f[1][2].f[1][2] = [x |-> t]]
                  /\ edits' = Append(edits, [sec |-> j, op |-> "path", text |-> t])
Modify == /\ stage = "loaded" /\ Len(edits) < MaxEdits
          /\ \E j \in 1..Len(Sections(val)) : (\E op \in {"pop", "dup", "rev", "clear"} : Edit(j, op)) \/ (\E t \in Path16 : EditPath(j, t))
          /\ UNCHANGED <<stage, file, out, how>>

(* Sections can also be rearranged. *)
Swap == /\ stage = "loaded" /\ Len(edits) < MaxEdits /\ Len(Sections(val)) > 1
        /\ val' = [val EXCEPT !.t.f[3][2] = Tail(@) \o <<Head(@)>>]
        /\ edits' = Append(edits, [sec |-> 0, op |-> "rotate"])
        /\ UNCHANGED <<stage, file, out, how>>

Save == /\ stage = "loaded"
        /\ out' = EncFile(val.t)
        /\ stage' = "saved"
        /\ IF Tool THEN Emit(Cli(0, <<[D |-> val.t]>>, <<>>)) ELSE
           \A c \in Chunks : Emit([k |-> "codec", type |-> "anlz", bytes |-> file, ok |-> TRUE, used |-> val.p, edits |-> edits, chunks |-> c,
                                    tree |-> val.t, out |-> EncFile(val.t)])
        /\ UNCHANGED <<file, val, edits, how>>
(* A list made longer than its count can tell is not written. *)
Most16 == 65535
CountPlace(kind) == CASE kind = "BeatGrid" -> <<20, 4>> [] kind = "CueList" -> <<18, 2>> [] kind = "ExtendedCueList" -> <<16, 2>>
                      [] kind \in {"WaveformPreview", "TinyWaveformPreview"} -> <<12, 4>> [] OTHER -> <<16, 4>>
OfLen(n) == LET s == Sections(val)[1]  kind == KindOfSec(s)  c == s.f[2][2].f[1][2].f  l == FieldNamed(c, ListOf(kind)) IN
  [val EXCEPT !.t.f[3][2][1].f[2][2].f[1][2].f = SetField(c, ListOf(kind), Rep(l[1], n))]
FillNow == Family = "fill" /\ stage = "loaded" /\ ListOf(KindOfSec(Sections(val)[1])) # "" /\ FieldNamed(Sections(val)[1].f[2][2].f[1][2].f, ListOf(KindOfSec(Sections(val)[1]))) # <<>>
Fill == /\ FillNow
        /\ LET kind == KindOfSec(Sections(val)[1])  at == CountPlace(kind)
               one == EncFile(OfLen(1).t)  two == EncFile(OfLen(2).t)  start == Len(EncFile([val.t EXCEPT !.f[3][2] = <<>>]))
           IN \A n \in {1, 255, 256, 65534, 65535, 65536, 65537, 131071, 131073} :
                Emit([k |-> "codec", type |-> "anlz", bytes |-> file, edits |-> <<[sec |-> 1, op |-> "fill", n |-> n]>>, ok |-> n <= Most16 \/ at[2] = 4,
                      at |-> start + at[1], count |-> BEw(n, at[2]), len |-> Len(one) + (n - 1) * (Len(two) - Len(one)), like |-> one])
        /\ stage' = "filled" /\ UNCHANGED <<file, val, out, edits, how>>
Placed == FillNow => \A n \in {1, 2, 5} :
  LET b == EncFile(OfLen(n).t)  one == EncFile(OfLen(1).t)  at == CountPlace(KindOfSec(Sections(val)[1]))  start == Len(EncFile([val.t EXCEPT !.f[3][2] = <<>>]))
  IN At(b, start + at[1], at[2]) = BEw(n, at[2]) /\ Take(b, Len(one)) = Patch(one, start + at[1], BEw(n, at[2]))
Next == Fill \/ Load \/ Modify \/ Swap \/ Save
Spec == Init /\ [][Next]_vars

(* The properties *)
Unchanged == stage = "saved" /\ edits = <<>> => out = Take(file, val.p)
WellFormedLoads == how = "ok" /\ Family # "mask" => stage # "failed" \/ \E k \in Kind : k = "Nested"
(* What was written is read back as the same content, apart from the header sizes, which stay as they are. *)
CountsDerived == stage = "saved" /\ edits # <<>> =>
   \A j \in 1..Len(Sections(val)) :
     LET s == Sections(val)[j]
         b == EncSection(s)
         h == s.f[1][2].f
         fixed == Patch(b, 8, B4(Len(b)))
         size == BigInt(h[2][2].n)
     IN LET r == DecSection(fixed, 0) IN r.ok => r.t.f[2] = s.f[2]
OneMeaning == stage = "loaded" /\ edits = <<>> /\ Family = "mask" =>
   \A j \in 1..Len(Sections(val)) : KindOfSec(Sections(val)[j]) = "SongStructure" =>
     LET c == Sections(val)[j].f[2][2].f[1][2].f
         flip == <<<<"is_encrypted", [e |-> IF c[1][2].e = "true" THEN "false" ELSE "true"]>>, c[2]>>
     IN LET r == DecSong(EncSong(flip), 0, 24 * Len(FieldNamed(c[2][2].f, "phrases"))) IN r.ok /\ r.t = flip
=============================================================================
