----------------------------- MODULE MCSetting -----------------------------
(* Life of a setting file: it is stored, perhaps damaged at one place, loaded, perhaps changed, and saved. *)
EXTENDS Setting

CONSTANTS Family, Deep

VARIABLES stage, kind, file, val, out
vars == <<stage, kind, file, val, out>>

Other(x) == {0, 1, 2, 127, 128, 129, 130, 255, (x + 1) % 256} \cup (IF Deep THEN Byte ELSE {})
Alt(k) == FileWith(k, <<65>>, <<>>, Rep(66, 31), Nth(k, 1), [Unknowns(k) EXCEPT ![1] = IF k \in {"DJMMySetting", "MySetting"} THEN [i \in 1..Len(@) |-> 200 + i] ELSE @])
(* Damage at one place: every byte, every length *)
Fields(k) == UNION {{b} \cup UNION {{[b EXCEPT ![i] = v] : v \in Other(b[i])} : i \in 1..Len(b)} : b \in {DefaultFile(k), Alt(k)}}
             \cup Overlays(DefaultFile(k), 0) \cup {Take(DefaultFile(k), n) : n \in 0..(FileSize(k) - 1)} \cup {DefaultFile(k) \o <<0>>, DefaultFile(k) \o DefaultFile(k)}
(* All 256 values of every option byte *)
OptionBytes(k) == UNION {{[DefaultFile(k) EXCEPT ![OptionOffsets(k)[i] + 1] = v] : v \in Byte} : i \in 1..Len(Options(k))}
(* Every option moves through its values together with all others. *)
Combos(k) == {FileWith(k, Brand(k), Rekordbox, Version, Nth(k, n), Unknowns(k)) : n \in 0..(IF Deep THEN 2000 ELSE 60)}
             \cup UNION {{FileWith(k, Brand(k), Rekordbox, Version, [Nth(k, n) EXCEPT ![i] = Options(k)[i][2][1][1]], Unknowns(k)) : i \in 1..Len(Options(k))} : n \in 0..7}
TextFill(n, a) == [i \in 1..n |-> IF a = 0 THEN 33 + i ELSE ((a + i) % 128) + 128]
Texts(k) == UNION {{FileWith(k, t, Rekordbox, Version, Nth(k, 2), Unknowns(k)), FileWith(k, Brand(k), t, Version, Nth(k, 2), Unknowns(k)),
                    FileWith(k, Brand(k), Rekordbox, t, Nth(k, 2), Unknowns(k))} : t \in {TextFill(n, a) : n \in 0..32, a \in {0, 5}}}
            \* something behind the end of a text is not kept
            \cup {PatchAll(DefaultFile(k), <<<<4 + o, <<65, 0, 66, 0>>>>>>) : o \in {0, 32, 64}}
            \cup {PatchAll(DefaultFile(k), <<<<4 + o, <<7>>>>>>) : o \in {31, 63, 95}}
(* The content of one kind of file read as another kind *)
Swapped(k) == {DefaultFile(j) : j \in Kinds}
Recorded == IF Family = "recorded" THEN JsonDeserialize("input.json") ELSE <<>>
FilesOf(k) == CASE Family = "recorded" -> {r.b : r \in {x \in Range(Recorded) : x.k = k}} [] Family = "fields" -> Fields(k) [] Family = "options" -> OptionBytes(k) [] Family = "combos" -> Combos(k)
                [] Family = "texts" -> Texts(k) \cup Swapped(k) [] OTHER -> {}

Init == /\ kind \in Kinds /\ val = No /\ out = <<>>
        /\ \/ stage = "stored" /\ file \in FilesOf(kind)
           \/ stage = "default" /\ file = <<>> /\ Family = "texts"
Load == /\ stage = "stored"
        /\ val' = DecSetting(kind, file)
        /\ stage' = IF val'.ok THEN "loaded" ELSE "failed"
        /\ IF val'.ok THEN TRUE ELSE Emit([k |-> "codec", type |-> "setting", kind |-> kind, bytes |-> file, ok |-> FALSE])
        /\ UNCHANGED <<kind, file, out>>
Create == /\ stage = "default"      \* the defaults, and header texts given by the caller
          /\ val' = DecSetting(kind, DefaultFile(kind))
          /\ Emit([k |-> "setting", op |-> "default", kind |-> kind, tree |-> val'.t, out |-> EncSetting(kind, val'.t)])
          /\ \A n \in 0..40, f \in {"brand", "software", "version"} :
               LET t == TextFill(n, 0) fits == n <= 31 IN
               Emit([k |-> "setting", op |-> "text", kind |-> kind, field |-> f, text |-> t, ok |-> fits,
                     out |-> IF fits THEN FileWith(kind, IF f = "brand" THEN t ELSE Brand(kind), IF f = "software" THEN t ELSE Rekordbox,
                                                   IF f = "version" THEN t ELSE Version, Defaults(kind), Unknowns(kind)) ELSE <<>>])
          /\ \A i \in 1..Len(Options(kind)) : \A j \in 1..Len(Options(kind)[i][2]) :      \* display texts
               Emit([k |-> "setting", op |-> "display", kind |-> kind, option |-> Options(kind)[i][1], field |-> i,
                     bytes |-> FileWith(kind, Brand(kind), Rekordbox, Version, [Defaults(kind) EXCEPT ![i] = Options(kind)[i][2][j][1]], Unknowns(kind)),
                     text |-> Options(kind)[i][2][j][3]])
          /\ stage' = "loaded" /\ UNCHANGED <<kind, file, out>>
Save == /\ stage = "loaded"
        /\ out' = EncSetting(kind, val.t)
        /\ stage' = "saved"
        /\ IF file = <<>> THEN TRUE ELSE
           Emit([k |-> "codec", type |-> "setting", kind |-> kind, bytes |-> file, ok |-> TRUE, used |-> val.p, tree |-> val.t, out |-> EncSetting(kind, val.t)])
        /\ UNCHANGED <<kind, file, val>>
Next == Load \/ Create \/ Save
Spec == Init /\ [][Next]_vars

(* The properties *)
ChecksumOf(k, b) == Crc(IF k = "DJMMySetting" THEN Take(b, FileSize(k) - 4) ELSE SubSeq(b, 105, FileSize(k) - 4))
ValidChecksum == stage = "saved" => Len(out) = FileSize(kind) /\ SubSeq(out, FileSize(kind) - 3, FileSize(kind)) = LE16(ChecksumOf(kind, out)) \o <<0, 0>>
Padded(b, o) == \A i \in o..(o + 30) : b[i + 1] = 0 => b[i + 2] = 0
Clean(b) == SubSeq(b, FileSize(kind) - 3, FileSize(kind) - 2) = LE16(ChecksumOf(kind, b)) /\ \A o \in {4, 36, 68} : Padded(b, o)
Unchanged == stage = "saved" /\ file # <<>> => (Clean(file) => out = Take(file, FileSize(kind)))
ReadsBack == stage = "saved" => DecSetting(kind, out).t = val.t
WellFormed == Family = "recorded" => stage # "failed"
OneKind == stage = "loaded" /\ Family \in {"combos"} => \A j \in Kinds \ {kind} : ~DecSetting(j, file).ok
=============================================================================
