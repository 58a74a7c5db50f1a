------------------------------ MODULE MCRobust ------------------------------
(* Files of all formats that were damaged at any place, and calls with any argument: whatever is asked of them is answered by a value or
   an error. Damage is a sequence of splices: `del` bytes at `at` are replaced by `rep` times the bytes `ins`. *)
EXTENDS PageBuild

CONSTANTS Family, Max, Deep
An == INSTANCE AnlzBuild
Se == INSTANCE Setting

VARIABLES base, hurt, told
vars == <<base, hurt, told>>

--------------------------------------------------------------------------
(* Whole files *)
PE == TypeWord("Plain", "PlaylistEntries")
Ent(i) == [j \in 1..12 |-> IF j % 4 = 1 THEN 16 * i + (j \div 4) ELSE 0]
Entries(n) == [i \in 1..n |-> Ent(i)]
Art(a) == WithOffs("Artists", <<S(a)>>, <<14>>, FALSE)
Tb(pt, pages) == [pt |-> pt, pages |-> pages]
NodeRow(parent, id, folder) == LE32(parent) \o W(201) \o W(211) \o LE32(id) \o LE32(folder) \o S(<<64 + id>>)
SmallDb == DbFile(256, <<Tb(PE, <<[ents |-> <<LE32(16), EmptyEntry, LE32(33)>>], [rows |-> Entries(3), dead |-> {1}, rev |-> TRUE], DPage(Entries(1))>>),
                         Tb(TypeWord("Plain", "Artists"), <<DPage(<<Art(<<65>>)>>)>>), Tb(LE32(9), <<DPage(<<Ent(1)>>)>>),
                         Tb(TypeWord("Plain", "PlaylistTree"), <<DPage(<<NodeRow(0, 1, 1), NodeRow(1, 2, 0)>>)>>)>>)
TypesDb == DbFile(1024, [i \in 1..Len(PlainTypes) |-> LET ty == PlainTypes[i][2] IN Tb(TypeWord("Plain", ty), <<DPage(<<Row0(ty)>>)>>)])
ExtDb == DbFile(512, <<Tb(TypeWord("Ext", "Tag"), <<DPage(<<Row0("Tag"), Spreads("Tag", 1, 3, TRUE)>>)>>), Tb(TypeWord("Ext", "TrackTag"), <<DPage(<<Row0("TrackTag")>>)>>)>>)
(* A device to be listed and exported: one playlist in a folder, with one track *)
TrackRow(id, artist) == LET t == Row0("Tracks") IN [i \in 1..Len(t) |-> IF i \in 69..72 THEN LE32(artist)[i - 68] ELSE IF i \in 73..76 THEN LE32(id)[i - 72] ELSE t[i]]
ArtistRow(id) == LET t == WithOffs("Artists", <<Wide(<<8364, 65, 128512>>)>>, <<16>>, FALSE) IN [i \in 1..Len(t) |-> IF i \in 5..8 THEN LE32(id)[i - 4] ELSE t[i]]
NamedRow(parent, id, folder, name) == LE32(parent) \o W(201) \o W(211) \o LE32(id) \o LE32(folder) \o name
DeviceDb == DbFile(512, <<Tb(TypeWord("Plain", "PlaylistTree"), <<DPage(<<NamedRow(0, 1, 1, S(<<65>>)), NamedRow(1, 2, 0, Wide(<<228, 65>>))>>)>>),
                          Tb(PE, <<DPage(<<LE32(1) \o LE32(5) \o LE32(2), LE32(2) \o LE32(6) \o LE32(2)>>)>>),
                          Tb(TypeWord("Plain", "Tracks"), <<DPage(<<TrackRow(5, 7)>>)>>), Tb(TypeWord("Plain", "Artists"), <<DPage(<<ArtistRow(7)>>)>>)>>)
OneOf(k) == LET b == An!Bases(k) IN Cat(CHOOSE x \in b : \A y \in b : Len(Cat(y)) <= Len(Cat(x)))
AnlzFile == An!FileOf([i \in 1..14 |-> OneOf(<<"Path", "VBR", "BeatGrid", "CueList", "ExtendedCueList", "WaveformPreview", "TinyWaveformPreview", "WaveformDetail",
                          "WaveformColorPreview", "WaveformColorDetail", "Waveform3BandPreview", "Waveform3BandDetail", "SongStructure", "Unknown">>[i])])
X1 == "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<DJ_PLAYLISTS Version=\"1.0.0\"><PRODUCT Name=\"rekordbox\" Version=\"6\" Company=\"P\"/><COLLECTION Entries=\"1\">"
X2 == "<TRACK TrackID=\"1\" Name=\"a&amp;b\" Size=\"12\" TotalTime=\"3\" AverageBpm=\"128.00\" Location=\"file://localhost/a\">"
X3 == "<TEMPO Inizio=\"0.25\" Bpm=\"128.00\" Metro=\"4/4\" Battito=\"1\"/><POSITION_MARK Name=\"\" Type=\"0\" Start=\"0.25\" Num=\"-1\"/>"
X4 == "</TRACK></COLLECTION><PLAYLISTS><NODE Type=\"0\" Name=\"ROOT\" Count=\"2\">"
X5 == "<NODE Name=\"p\" Type=\"1\" KeyType=\"0\" Entries=\"1\"><TRACK Key=\"1\"/></NODE><NODE Name=\"f\" Type=\"0\" Count=\"0\"></NODE>"
X6 == "</NODE></PLAYLISTS></DJ_PLAYLISTS>"
XmlFile == X1 \o X2 \o X3 \o X4 \o X5 \o X6
FmtOf(n) == CASE n \in {"small", "types", "ext", "device"} -> "pdb" [] n = "anlz" -> "anlz" [] n = "xml" -> "xml" [] OTHER -> "setting"
BytesOf(n) == CASE n = "small" -> SmallDb [] n = "types" -> TypesDb [] n = "ext" -> ExtDb [] n = "device" -> DeviceDb [] n = "anlz" -> AnlzFile [] n = "xml" -> XmlFile [] OTHER -> Se!DefaultFile(n)
Using == CASE Family \in {"pdb", "multipdb"} -> {"small", "ext"} [] Family = "types" -> {"types"} [] Family = "device" -> {"device"} [] Family \in {"anlz", "multianlz"} -> {"anlz"}
           [] Family = "setting" -> {"DevSetting", "MySetting", "DJMMySetting", "MySetting2"} [] Family \in {"xml", "bombs", "multixml"} -> {"xml"} [] OTHER -> {}
(* Every file is built once. *)
Files == TLCEval([n \in Using |-> TLCEval(BytesOf(n))])
ASSUME \A n \in Using : Emit([k |-> "def", name |-> n, value |-> Files[n]])
ASSUME \A n \in Using : FmtOf(n) = "pdb" => DecHeader(Files[n]).ok
ASSUME \A n \in Using : FmtOf(n) = "anlz" => An!DecFile(Files[n]).ok

--------------------------------------------------------------------------
(* Damage *)
Put(at, v) == [at |-> at, del |-> Len(v), ins |-> v, rep |-> 1]
Remove(at, n) == [at |-> at, del |-> n, ins |-> <<>>, rep |-> 0]
Insert(at, v, n) == [at |-> at, del |-> 0, ins |-> v, rep |-> n]
Cuts(n) == {Remove(i, n - i) : i \in 0..(n - 1)}
(* 32-bit words, most significant byte first *)
Words32 == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 12>>, <<0, 0, 255, 255>>, <<0, 1, 0, 0>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 255, 255, 244>>}
           \cup (IF Deep THEN {<<0, 0, 0, 2>>, <<0, 0, 0, 11>>, <<0, 0, 0, 13>>, <<0, 0, 0, 40>>, <<0, 0, 0, 80>>, <<0, 0, 1, 0>>, <<64, 0, 0, 0>>, <<3, 255, 255, 255>>, <<255, 255, 255, 254>>, <<31, 255, 255, 255>>} ELSE {})
Words16 == {<<0, 0>>, <<255, 255>>, <<127, 255>>, <<128, 0>>, <<1, 0>>} \cup (IF Deep THEN {<<0, 1>>, <<31, 255>>, <<32, 0>>, <<7, 255>>, <<255, 254>>} ELSE {})
Bytes8 == {0, 1, 127, 128, 216, 255} \cup (IF Deep THEN {2, 3, 4, 16, 64, 144, 254} ELSE {})
Telling(b) == TLCEval({i \in 0..(Len(b) - 1) : b[i + 1] # FillB /\ (i < 28 \/ \E j \in 0..3 : b[Min2(i + j + 1, Len(b))] # 0)})       \* offsets that are not just filled up
Binary(b, little) ==
  LET n == Len(b) T == Telling(b) o(w) == IF little THEN Rev(w) ELSE w IN
  {Put(i, <<v>>) : i \in T, v \in Bytes8} \cup {Put(i, o(w)) : i \in {j \in T : j % 2 = 0 /\ j + 2 <= n}, w \in Words16}
  \cup {Put(i, o(w)) : i \in {j \in T : (j % 4 = 0 \/ ~little) /\ j + 4 <= n}, w \in Words32}
Shifts(b) == {Remove(i, k) : i \in Telling(b), k \in {1, 4}} \cup {Insert(i, <<v>>, 1) : i \in Telling(b), v \in {0, 255}}
TypeDamage(b) == {Put(i, <<v>>) : i \in Telling(b), v \in (IF Deep THEN {0, 1, 2, 64, 128, 144, 255} ELSE {216, 255})} \cup {Put(i, w) : i \in {j \in Telling(b) : j % 2 = 0}, w \in {<<255, 255>>} \cup (IF Deep THEN {<<0, 128>>, <<0, 0>>} ELSE {})}
XmlBits == {<<60>>, <<38>>, <<62>>, <<47, 62>>, <<34>>, <<38, 120, 59>>, <<38, 35, 120, 49, 49, 48, 48, 48, 48, 59>>, <<38, 35, 48, 59>>, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>, <<60, 33, 45, 45>>, <<60, 63>>,
            <<60, 47>>, <<60, 33, 68, 79, 67, 84, 89, 80, 69, 32>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<45>>, <<46>>, <<101, 57, 57, 57>>, <<78, 97, 78>>, <<105, 110, 102>>, <<254, 255>>, <<195>>, <<0>>}
XmlDamage(n) == {Put(i, <<v>>) : i \in 0..(n - 1), v \in {0, 34, 38, 60, 62, 47, 61, 128, 255, 32, 57} \cup (IF Deep THEN {33, 35, 39, 45, 46, 63, 65, 91, 93, 195, 237, 254} ELSE {})}
                \cup {Remove(i, 1) : i \in 0..(n - 1)} \cup {Insert(i, v, 1) : i \in 0..(n - 1), v \in XmlBits}
(* Places between the parts, and what may be nested or repeated there *)
Places == LET l(s) == Len(s) IN {0, l(X1), l(X1) + l(X2), l(X1) + l(X2) + l(X3), l(X1) + l(X2) + l(X3) + l(X4), l(X1) + l(X2) + l(X3) + l(X4) + l(X5), l(XmlFile)}
Nests == {<<"<NODE Type=\"0\" Name=\"a\" Count=\"1\">", "</NODE>">>, <<"<NODE Type=\"1\" Name=\"a\" KeyType=\"0\" Entries=\"1\">", "</NODE>">>, <<"<TRACK TrackID=\"1\" Location=\"\">", "</TRACK>">>,
          <<"<x>", "</x>">>, <<"<!-- ", " -->">>, <<"<DJ_PLAYLISTS>", "</DJ_PLAYLISTS>">>, <<"<PLAYLISTS>", "</PLAYLISTS>">>, <<"<![CDATA[", "]]>">>, <<"<a b='c' ", "/>">>, <<" ", "">>, <<"<?a ?>", "">>, <<"<", "">>, <<"&lt;", "">>}
Bombs == {<<Insert(p, IF close THEN x[2] ELSE "", n), Insert(p, x[1], n)>> : p \in Places, x \in Nests, n \in {99, 100, 101, 1000, 20000} \cup (IF Deep THEN {200000} ELSE {}), close \in BOOLEAN}
SplicesOf(n, b) ==
  CASE n = "xml" -> XmlDamage(Len(b)) \cup Cuts(Len(b))
    [] n = "types" -> TypeDamage(b)
    [] n = "device" -> Binary(b, TRUE)
    [] FmtOf(n) = "pdb" -> Binary(b, TRUE) \cup Cuts(Len(b))
    [] OTHER -> Binary(b, FmtOf(n) = "setting") \cup Cuts(Len(b)) \cup Shifts(b)
Splices == TLCEval([n \in Using |-> TLCEval(SplicesOf(n, Files[n]))])

--------------------------------------------------------------------------
(* Calls with arguments of a user's choice *)
Numbers == {"0", "1", "2", "3", "7", "8", "9", "27", "28", "39", "40", "79", "80", "127", "128", "255", "256", "1000", "2046", "2047", "2048", "4095", "8191", "8192", "16383", "32767", "32768", "65534", "65535", "65536",
            "67108862", "67108863", "67108864", "536870911", "536870912", "1073741823", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
            "18446744073709551614", "18446744073709551615"}
Calls == {"load_page", "table", "allocate", "repeat_allocate", "page_offset", "index_entry", "text_ascii", "text_wide", "isrc", "setting_text", "path_text", "comment_text"}

Init == /\ told = FALSE
        /\ IF Family = "calls" THEN base \in Calls /\ hurt \in {<<n>> : n \in Numbers}
           ELSE base \in Using /\ (IF Family = "bombs" THEN hurt \in Bombs ELSE hurt = <<>>)
Some2(S2) == IF Max = 1 THEN S2 ELSE {RandomElement(S2)}        \* several faults: at random
Hurt == /\ ~told /\ Family \notin {"calls", "bombs"} /\ Len(hurt) < Max
        /\ \E s \in Some2(Splices[base]) : hurt' = Append(hurt, s)
        /\ UNCHANGED <<base, told>>
Mixed(h) == (SumSeq([i \in 1..Len(h) |-> h[i].at + 3 * h[i].del + Len(h[i].ins)])) % 16
Read == /\ ~told /\ told' = TRUE
        /\ Family \in {"calls", "bombs"} \/ Len(hurt) = Max \/ (Max = 1 /\ hurt = <<>>)
        /\ IF Family = "calls" THEN Emit([k |-> "robust", fmt |-> "call", name |-> base, n |-> hurt[1]])
           ELSE Emit([k |-> "robust", fmt |-> FmtOf(base), name |-> base, base |-> "@" \o base, ops |-> hurt, tool |-> Mixed(hurt) = 0 \/ Family = "device" \/ Family \in {"bombs"}])
        /\ UNCHANGED <<base, hurt>>
Next == Hurt \/ Read
Spec == Init /\ [][Next]_vars
(* Damage stays damage: the spliced file is another one, or as long as the original one. *)
Sane == Len(hurt) <= 4
=============================================================================
