------------------------------- MODULE MCCli -------------------------------
(* The dumping commands of the tool. dump-pdb shows the header of a database, then table by table the pages of its chain with their rows or entries;
   what cannot be read ends the table, not the dump. The kind of a file follows from the flag or else from its name. *)
EXTENDS PageBuild

CONSTANTS Family, Deep
Se == INSTANCE Setting

VARIABLES call,     \* what is asked for: [cmd, name, flag, parse, bytes, db]
          at,       \* table that is being dumped: 0 before the header, one behind the last: done
          cur, low, \* page to be shown next (0: none), lowest number that a following page may have
          out, err, shown
vars == <<call, at, cur, low, out, err, shown>>

Cli(args, files, rc, o, e) == [k |-> "cli", args |-> args, files |-> files, rc |-> rc, out |-> o, err |-> e]
TextOf(s) == [w |-> s]

--------------------------------------------------------------------------
(* Which kind of database *)
PdbNames == {"export.pdb", "exportExt.pdb", "other.pdb", "EXPORT.PDB", "exportext.pdb", "export.pdb.bak", "x/export.pdb", "export.pdb/exportExt.pdb", "export",
             "xexport.pdb", "xexportExt.pdb", "exportExt.pdb.bak", "export.pdbx", " export.pdb", "export.pdb ", "exportExt", "x/xexportExt.pdb", "export.PDB",
             ".pdb", "exportExt.pdb/other.pdb", "exportExt.pdb/export.pdb", "EXPORTEXT.pdb", "export_ext.pdb", "exportExt.pdb/x"}
KindByName(n) == CASE n \in {"export.pdb", "x/export.pdb", "exportExt.pdb/export.pdb"} -> "Plain" [] n \in {"exportExt.pdb", "export.pdb/exportExt.pdb"} -> "Ext" [] OTHER -> ""
KindByFlag(f) == CASE f = "plain" -> "Plain" [] f = "ext" -> "Ext" [] OTHER -> ""
Chosen(byflag, byname) == IF byflag # "" THEN byflag ELSE byname
Warned(byflag, byname) == byflag # "" /\ byname # "" /\ byflag # byname
(* Which kind of setting *)
SetNames == {Se!FileName(k) : k \in Se!Kinds} \cup {"mysetting.dat", "MYSETTING3.DAT", "MYSETTING", "MYSETTING.DAT.bak", "x.dat", "d/MYSETTING2.DAT",
             "MYSETTING2", "XMYSETTING.DAT", "XDJMMYSETTING.DAT", "MYSETTING1.DAT", "MYSETTING22.DAT", "MYSETTING.DATA", "DEVSETTING.dat", "DJMMYSETTING2.DAT", " MYSETTING.DAT",
             "MYSETTING.DAT/x.dat", "MYSETTING2.DAT ", ".DAT"}
SetByName(n) == LET K == {k \in Se!Kinds : Se!FileName(k) = n \/ (n = "d/MYSETTING2.DAT" /\ k = "MySetting2")} IN IF K = {} THEN "" ELSE CHOOSE k \in K : TRUE
SetByFlag(f) == CASE f = "devsetting" -> "DevSetting" [] f = "djmmysetting" -> "DJMMySetting" [] f = "mysetting" -> "MySetting" [] f = "mysetting2" -> "MySetting2" [] OTHER -> ""

--------------------------------------------------------------------------
(* Tables. t.first, t.last: what the header says instead, if not 0. next: link of the last page *)
Tb(pt, pages) == [pt |-> pt, pages |-> pages, first |-> 0, last |-> 0]
Ent(i) == [j \in 1..12 |-> IF j % 4 = 1 THEN 16 * i + (j \div 4) ELSE 0]
Entries(n) == [i \in 1..n |-> Ent(i)]
PE == TypeWord("Plain", "PlaylistEntries")
Art(a) == WithOffs("Artists", <<S(a)>>, <<14>>, FALSE)
Unk == LE32(9)
SizeP == 256
BadPage == [b |-> <<1, 0, 0, 0>> \o Zeros(SizeP - 4)]             \* no page
Odd(pi, np, rows) == [b |-> RowPage(SizeP, pi, PE, np, DPage(rows))]
Good == Tb(PE, <<DPage(Entries(3))>>)
Linked == Tb(PE, <<[ents |-> <<LE32(16), EmptyEntry, LE32(33)>>], [rows |-> Entries(2), dead |-> {1}, rev |-> TRUE], DPage(Entries(1))>>)
ArtistT == Tb(TypeWord("Plain", "Artists"), <<DPage(<<Art(<<65>>), Art(<<66, 67>>)>>)>>)
Unknown == Tb(Unk, <<DPage(<<Ent(1), Ent(2)>>)>>)
UnknownBad == Tb(Unk, <<DPage(<<Ent(1)>>), BadPage>>)
EmptyT == Tb(PE, <<DPage(<<>>)>>)
Middle == Tb(PE, <<DPage(Entries(2)), BadPage, DPage(Entries(1))>>)          \* damaged in the middle
Beyond == [Good EXCEPT !.first = 60, !.last = 60]                        \* not in the file
AtZero == [Good EXCEPT !.first = -1]                                     \* the header page
Never == [Linked EXCEPT !.last = 88]                                     \* the chain leaves the file
Turned == Tb(PE, <<Odd(1, 1, Entries(1)), DPage(Entries(2))>>)           \* links back to page 1, whatever its own number is
Pool == {Good, Linked, ArtistT, Unknown, UnknownBad, EmptyT, Middle, Beyond, AtZero, Never, Turned}
(* A table of every type *)
OfType(k, ty) == Tb(TypeWord(k, ty), <<[rows |-> <<Row0(ty), Row0(ty)>>, dead |-> {1}, rev |-> FALSE]>>)
Make(size, ts) ==
  LET b == DbFile(size, ts)
      ptr(i) == (IF ts[i].first # 0 THEN <<<<28 + 16 * (i - 1) + 8, LE32(IF ts[i].first < 0 THEN 0 ELSE ts[i].first)>>>> ELSE <<>>)
                \o (IF ts[i].last # 0 THEN <<<<28 + 16 * (i - 1) + 12, LE32(ts[i].last)>>>> ELSE <<>>)
  IN PatchAll(b, Cat([i \in 1..Len(ts) |-> ptr(i)]))
Ask(name, flag, parse, b) == [name |-> name, flag |-> flag, parse |-> parse, b |-> b]
Albums == Tb(LE32(3), <<DPage(<<Row0("Albums")>>)>>)
Tags == Tb(LE32(3), <<DPage(<<Row0("Tag")>>)>>)
Links == Tb(LE32(4), <<DPage(<<Row0("TrackTag")>>)>>)
DumpCalls ==
  {Ask("export.pdb", "", p, Make(SizeP, ts)) : p \in BOOLEAN, ts \in {<<>>} \cup {<<a>> : a \in Pool} \cup {<<a, b>> : a \in Pool, b \in Pool}
     \cup (IF Deep THEN {<<a, b, c>> : a \in Pool, b \in Pool, c \in Pool} ELSE {<<a, b, Good>> : a \in {Middle, Beyond, Never}, b \in {Unknown, UnknownBad, Turned, AtZero}})}
  \cup {Ask("export.pdb", "", FALSE, Take(Make(SizeP, <<Good, Linked, ArtistT>>), n)) : n \in {0, 3, 4, 7, 8, 27, 28, 29, 43, 44, 75, 76, 77, 255, 256, 257, 511, 512, 513, 700, 767, 768, 1000, 1024, 1279, 1280}}
TypeCalls ==
  {Ask("export.pdb", "", FALSE, Make(1024, <<OfType("Plain", PlainTypes[i][2])>>)) : i \in 1..Len(PlainTypes)}
  \cup {Ask("exportExt.pdb", "", FALSE, Make(512, <<OfType("Ext", ExtTypes[i][2])>>)) : i \in 1..Len(ExtTypes)}
  \cup {Ask("export.pdb", "", p, Make(SizeP, <<Tb(w, <<DPage(<<Ent(1)>>)>>)>>)) : p \in BOOLEAN, w \in {LE32(9), LE32(10), LE32(20), <<0, 0, 0, 128>>, <<0, 1, 0, 0>>, <<255, 255, 255, 255>>}}
  \cup {Ask("exportExt.pdb", "", p, Make(SizeP, <<Tb(w, <<DPage(<<Ent(1)>>)>>)>>)) : p \in BOOLEAN, w \in {LE32(0), LE32(2), LE32(5), LE32(8)}}
GuessCalls ==
  {Ask(n, f, FALSE, Make(SizeP, ts)) : n \in PdbNames, f \in {"", "plain", "ext"}, ts \in {<<Albums>>, <<Tags, Links>>, <<Good>>}}
Recorded == IF Family = "recorded" THEN JsonDeserialize("input.json") ELSE <<>>
Calls == CASE Family = "recorded" -> {Ask(r.name, "", p, r.b) : r \in Range(Recorded), p \in (IF Deep THEN BOOLEAN ELSE {FALSE})} [] Family = "dump" -> DumpCalls [] Family = "types" -> TypeCalls [] Family = "guess" -> GuessCalls [] OTHER -> {}

(* Setting files *)
FileOf(k, n) == CASE n = 0 -> Se!DefaultFile(k) [] n = 1 -> Se!FileWith(k, <<65>>, <<>>, [i \in 1..31 |-> 65 + i], Se!Nth(k, 1), Se!Unknowns(k))
                  [] n = 2 -> Take(Se!DefaultFile(k), Se!FileSize(k) - 3) [] OTHER -> <<>>
SetCalls == {Ask(n, f, FALSE, FileOf(k, i)) : n \in SetNames, f \in {"", "devsetting", "djmmysetting", "mysetting", "mysetting2"}, k \in Se!Kinds, i \in (IF Deep THEN 0..3 ELSE {0, 1})}
            \cup {Ask(Se!FileName(k), "", FALSE, Se!FileWith(k, Se!Brand(k), Se!Rekordbox, Se!Version, Se!Nth(k, n), Se!Unknowns(k))) : k \in Se!Kinds, n \in 0..(IF Deep THEN 60 ELSE 17)}

--------------------------------------------------------------------------
Args(c, flagname) == (IF c.flag = "" THEN <<>> ELSE <<flagname, c.flag>>) \o (IF c.parse THEN <<"--parse-unknown-tables">> ELSE <<>>)
Files(c) == <<[name |-> c.name, bytes |-> c.b]>>
Done(c, cmd, flagname, rc, o, e) == Emit(Cli(<<cmd>> \o Args(c, flagname) \o <<"@" \o c.name>>, Files(c), rc, o, e))
DoneP(rc, o, e) == Done(call, "dump-pdb", "--db-type", rc, o, e)
Kind == Chosen(KindByFlag(call.flag), KindByName(call.name))
Warning == IF Warned(KindByFlag(call.flag), KindByName(call.name)) THEN <<"Warning">> ELSE <<>>
Head1 == DecHeader(call.b)
Size == BigInt(Rev(Head1.ps))
Word(w) == BigInt(Rev(w))
Stored(n) == n >= 1 /\ n < Word(Head1.nu) /\ Size < Huge /\ n < 1000 /\ Size * n < Len(call.b)                  \* a page may be stored in part
PageAt(n) == DecPage(Kind, SubSeq(call.b, Size * n + 1, Len(call.b)), Size)

Init == at = 0 /\ cur = 0 /\ low = 1 /\ out = <<>> /\ err = <<>> /\ shown = <<>>
        /\ call \in (IF Family = "setting" THEN SetCalls ELSE Calls)
Finish == at = 1000
Quit(rc, o, e) == /\ DoneP(rc, o, e) /\ at' = 1000 /\ UNCHANGED <<call, cur, low, out, err, shown>>
Start == /\ at = 0 /\ Family # "setting"
         /\ IF Kind = "" THEN Quit(0, <<>>, <<"no DB_TYPE">>)
            ELSE IF ~Head1.ok THEN Quit(1, <<>>, Warning \o <<"Error">>)
            ELSE /\ at' = 1 /\ cur' = -1 /\ low' = 1 /\ err' = Warning
                 /\ out' = <<[D |-> HeaderTree(Kind, Head1)]>>
                 /\ shown' = [i \in 1..Len(Head1.tables) |-> <<>>]
                 /\ UNCHANGED call
Table1 == Head1.tables[at]
Indexed == "Table TableIndex(" \o ToString(at - 1) \o ")"
Open == /\ at \in 1..Len(shown) /\ cur = -1
        /\ LET heading == [d |-> TypeTree(Kind, Table1.pt), pre |-> Indexed \o ": "]
               skipped == TypeName(Kind, Table1.pt) = "" /\ ~call.parse
           IN /\ out' = out \o <<heading>> \o (IF skipped THEN <<TextOf("  Skipping unknown table type, use --parse-unknown-tables to attempt parsing\n")>> ELSE <<>>)
              /\ IF skipped THEN at' = at + 1 /\ cur' = -1 ELSE at' = at /\ cur' = Word(Table1.first)
              /\ low' = 1
        /\ UNCHANGED <<call, err, shown>>
NextTable == at' = at + 1 /\ cur' = -1 /\ low' = 1
Lines1(p) == IF IsIndex(p.h) THEN <<[d |-> IndexTree(p.c).f[1][2], pre |-> "    "]>> \o [i \in 1..Len(p.c.ents) |-> [d |-> EntryTree(p.c.ents[i]), pre |-> "      "]]
            ELSE [i \in 1..Len(p.c.offs) |-> [d |-> p.c.rows[i].t, pre |-> "      "]]
Show == /\ at \in 1..Len(shown) /\ cur >= 0
        /\ IF cur < low \/ ~Stored(cur) THEN NextTable /\ err' = Append(err, "Error dumping table TableIndex(" \o ToString(at - 1) \o ")") /\ UNCHANGED <<out, shown>>
           ELSE LET p == PageAt(cur) IN
                IF ~p.ok THEN NextTable /\ err' = Append(err, "Error dumping table TableIndex(" \o ToString(at - 1) \o ")") /\ UNCHANGED <<out, shown>>
                ELSE /\ out' = out \o <<[d |-> PageTree(Kind, p), pre |-> "  "]>> \o Lines1(p)
                     /\ shown' = [shown EXCEPT ![at] = Append(@, cur)]
                     /\ UNCHANGED err
                     /\ IF cur = Word(Table1.last) THEN NextTable ELSE at' = at /\ cur' = Word(p.h.np) /\ low' = cur + 1
        /\ UNCHANGED call
End == at = Len(shown) + 1 /\ at # 1000 /\ out # <<>> /\ Quit(0, out, err)
Setting1 ==
  /\ at = 0 /\ Family = "setting"
  /\ LET f == SetByFlag(call.flag) n == SetByName(call.name)
         k == Chosen(f, n)
         w == IF Warned(f, n) THEN <<"Warning">> ELSE <<>>
         d == Se!DecSetting(k, call.b)
         done(rc, o, e) == Done(call, "dump-setting", "--setting-type", rc, o, e)
     IN IF k = "" THEN done(0, <<>>, <<"no SETTING_TYPE">>) ELSE IF d.ok THEN done(0, <<[D |-> d.t]>>, w) ELSE done(1, <<>>, w \o <<"Error">>)
  /\ at' = 1000 /\ UNCHANGED <<call, cur, low, out, err, shown>>
Next == Start \/ Open \/ Show \/ End \/ Setting1
Spec == Init /\ [][Next]_vars

(* The pages that are shown are the longest readable beginning of the chain, in the order of the chain, each once. *)
Sound == \A i \in 1..Len(shown) :
  LET s == shown[i] t == Head1.tables[i] IN
  /\ \A j \in 1..Len(s) : Stored(s[j]) /\ PageAt(s[j]).ok
  /\ s # <<>> => s[1] = Word(t.first)
  /\ \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1] /\ s[j + 1] = Word(PageAt(s[j]).h.np) /\ s[j] # Word(t.last)
Complete == at = 1000 /\ shown # <<>> => \A i \in 1..Len(shown) :
  LET s == shown[i] t == Head1.tables[i] IN
  \/ TypeName(Kind, t.pt) = "" /\ ~call.parse /\ s = <<>>
  \/ s # <<>> /\ s[Len(s)] = Word(t.last)
  \/ LET n == IF s = <<>> THEN Word(t.first) ELSE Word(PageAt(s[Len(s)]).h.np) IN
     /\ ~Stored(n) \/ ~PageAt(n).ok \/ (s # <<>> /\ n <= s[Len(s)])
     /\ \E e \in 1..Len(err) : err[e] = "Error dumping table TableIndex(" \o ToString(i - 1) \o ")"
=============================================================================
