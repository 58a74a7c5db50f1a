------------------------------ MODULE MCLoader ------------------------------
(* The settings of a device: four files in one directory, each of them present in some form or not; and
   the loader, which fills in the options of the files it can read. *)
EXTENDS Setting

CONSTANTS Tool,     \* TRUE: also what list-settings shows
          Family, Classes

VARIABLES dir, root, loaded
vars == <<dir, root, loaded>>

Order == <<"MySetting", "MySetting2", "DJMMySetting", "DevSetting">>   \* order of the options of a device
Some1(k, n) == FileWith(k, Brand(k), Rekordbox, Version, Nth(k, n), Unknowns(k))
NextKind(k) == CASE k = "DevSetting" -> "MySetting" [] k = "MySetting" -> "MySetting2" [] k = "MySetting2" -> "DJMMySetting" [] OTHER -> "DevSetting"
Numbered == {"n" \o ToString(n) : n \in 0..17}
Content(k, c) ==
  CASE c \in Numbered -> Some1(k, CHOOSE n \in 0..17 : c = "n" \o ToString(n))
    [] c = "default" -> DefaultFile(k)
    [] c = "alt1" -> Some1(k, 1) [] c = "alt2" -> Some1(k, 2)
    [] c = "cut" -> Take(Some1(k, 1), FileSize(k) - 5)
    [] c = "bad" -> [Some1(k, 1) EXCEPT ![OptionOffsets(k)[Len(Options(k))] + 1] = 7]    \* the last option has no meaning
    [] c = "wrong" -> Some1(NextKind(k), 1)
    [] c = "empty" -> <<>>
    [] c = "crc" -> [Some1(k, 2) EXCEPT ![FileSize(k) - 3] = (@ + 1) % 256]
    [] c = "tail" -> Some1(k, 1) \o <<1, 2, 3>>
    [] OTHER -> <<>>
Present(c) == c \notin {"absent", "dir"}

Lines(k, d) == [i \in 1..Len(Options(k)) |->
   Options(k)[i][4] \o <<58, 32>> \o
     (IF d.ok THEN LET v == FieldNamed(d.t.f[4][2].f[1][2].f, Options(k)[i][1]).e
                       t == Options(k)[i][2]
                   IN t[CHOOSE j \in 1..Len(t) : t[j][2] = v][3]
      ELSE <<60, 109, 105, 115, 115, 105, 110, 103, 62>>)]     \* <missing>
Tree(k, d) == [i \in 1..Len(Options(k)) |->
   <<Options(k)[i][1], IF d.ok THEN [s |-> "Some", f |-> <<<<"", [e |-> FieldNamed(d.t.f[4][2].f[1][2].f, Options(k)[i][1]).e]>>>>] ELSE [e |-> "None"]>>]
Result == [k \in Kinds |-> IF root /\ Present(dir[k]) THEN DecSetting(k, Content(k, dir[k])) ELSE No]

Init == /\ root \in (IF Family = "all" THEN BOOLEAN ELSE {TRUE})
        /\ dir \in (IF Family = "values" THEN {[k \in Kinds |-> c] : c \in Numbered} ELSE [Kinds -> Classes])
        /\ loaded = FALSE
Load == /\ ~loaded /\ loaded' = TRUE
        /\ Emit([k |-> "setting", kind |-> "MySetting", op |-> "load", tool |-> Tool, root |-> root,
                 files |-> [i \in 1..4 |-> [name |-> FileName(Order[i]), is |-> IF dir[Order[i]] \in {"absent", "dir"} THEN dir[Order[i]] ELSE "file",
                                            bytes |-> Content(Order[i], dir[Order[i]])]]
                           \o (IF root THEN <<[name |-> "mysetting.dat", is |-> "file", bytes |-> Some1("MySetting", 5)],
                                              [name |-> "MYSETTING3.DAT", is |-> "file", bytes |-> Some1("MySetting2", 5)]>> ELSE <<>>),
                 lost |-> SelectSeq(<<FileName("MySetting"), FileName("MySetting2"), FileName("DJMMySetting"), FileName("DevSetting")>>,
                                    LAMBDA f : ~Result[CHOOSE k \in Kinds : FileName(k) = f].ok),       \* each is named in a warning
                 lines |-> Cat([i \in 1..4 |-> Lines(Order[i], Result[Order[i]])]),
                 tree |-> [s |-> "Settings", f |-> Cat([i \in 1..4 |-> Tree(Order[i], Result[Order[i]])])]])
        /\ UNCHANGED <<dir, root>>
(* The directory may change before it is loaded. *)
Next == Load
Spec == Init /\ [][Next]_vars

(* The options of a file depend on that file only. *)
Independent == \A k \in Kinds : Result[k].ok <=> (root /\ dir[k] \in {"default", "alt1", "alt2", "crc", "tail"} \cup Numbered)
=============================================================================
