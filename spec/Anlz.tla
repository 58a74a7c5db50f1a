-------------------------------- MODULE Anlz --------------------------------
(* Rekordbox analysis files: a file header followed by sections, each with a kind, a header size and a
   total size. Everything is big-endian. *)
EXTENDS Codec

Kinds == << <<<<80, 77, 65, 73>>, "File">>, <<<<80, 81, 84, 90>>, "BeatGrid">>, <<<<80, 67, 79, 66>>, "CueList">>,
            <<<<80, 67, 79, 50>>, "ExtendedCueList">>, <<<<80, 67, 80, 50>>, "ExtendedCue">>, <<<<80, 67, 80, 84>>, "Cue">>,
            <<<<80, 80, 84, 72>>, "Path">>, <<<<80, 86, 66, 82>>, "VBR">>, <<<<80, 87, 65, 86>>, "WaveformPreview">>,
            <<<<80, 87, 86, 50>>, "TinyWaveformPreview">>, <<<<80, 87, 86, 51>>, "WaveformDetail">>,
            <<<<80, 87, 86, 52>>, "WaveformColorPreview">>, <<<<80, 87, 86, 53>>, "WaveformColorDetail">>,
            <<<<80, 87, 86, 54>>, "Waveform3BandPreview">>, <<<<80, 87, 86, 55>>, "Waveform3BandDetail">>,
            <<<<80, 83, 83, 73>>, "SongStructure">> >>
MagicOf(kind) == Kinds[CHOOSE i \in 1..Len(Kinds) : Kinds[i][2] = kind][1]

N(n, w) == Num(n, w, "be")
HeaderL == <<Magic("kind", Kinds, "Unknown"), NumAs("size", 4, "be", "size"), NumAs("total_size", 4, "be", "total")>>
CueHead == <<Magic("kind", Kinds, "Unknown"), NumAs("size", 4, "be", "csize"), NumAs("total_size", 4, "be", "ctotal")>>

CueListType == Enum("list_type", 4, "be", << <<0, "MemoryCues">>, <<1, "HotCues">> >>)
CueType == Enum("cue_type", 1, "be", << <<1, "Point">>, <<2, "Loop">> >>)
ColorT == << <<0, "None">>, <<1, "Pink">>, <<2, "Red">>, <<3, "Orange">>, <<4, "Yellow">>, <<5, "Green">>, <<6, "Aqua">>, <<7, "Blue">>, <<8, "Purple">> >>
Mood == Enum("mood", 2, "be", << <<1, "High">>, <<2, "Mid">>, <<3, "Low">> >>)
Bank == Enum("bank", 1, "be", << <<0, "Default">>, <<1, "Cool">>, <<2, "Natural">>, <<3, "Hot">>, <<4, "Subtle">>, <<5, "Warm">>,
                                 <<6, "Vivid">>, <<7, "Club1">>, <<8, "Club2">> >>)

Beat == St("", "Beat", <<N("beat_number", 2), N("tempo", 2), N("time", 4)>>)
Cue == St("", "Cue", <<St("header", "Header", CueHead), N("hot_cue", 4), N("status", 4), N("unknown1", 4),
                       N("order_first", 2), N("order_last", 2), CueType, N("unknown2", 1), N("unknown3", 2), N("time", 4), N("loop_time", 4),
                       N("unknown4", 4), N("unknown5", 4), N("unknown6", 4), N("unknown7", 4)>>)
ExtendedCue == St("", "ExtendedCue",
  <<St("header", "Header", CueHead), N("hot_cue", 4), CueType, N("unknown1", 1), N("unknown2", 2), N("time", 4), N("loop_time", 4),
    Enum("color", 1, "be", ColorT), N("unknown3", 1), N("unknown4", 2), N("unknown5", 4), N("loop_numerator", 2), N("loop_denominator", 2),
    LenWide("comment", "clen"), N("hot_cue_color_index", 1), Tuple("hot_cue_color_rgb", 1, 3), N("unknown6", 4), N("unknown7", 4),
    N("unknown8", 4), N("unknown9", 4), N("unknown10", 4), Let("extra", "ctotal", 68, "clen"), Raw("trailing", "extra")>>)
PreviewCol == Bits("", "WaveformPreviewColumn", 1, << <<"height", 0, 5>>, <<"whiteness", 5, 3>> >>)
TinyCol == Bits("", "TinyWaveformPreviewColumn", 1, << <<"height", 0, 4>>, <<"unused", 4, 4>> >>)
ColorCol == St("", "WaveformColorPreviewColumn", <<N("unknown1", 1), N("unknown2", 1), N("energy_bottom_half_freq", 1),
                 N("energy_bottom_third_freq", 1), N("energy_mid_third_freq", 1), N("energy_top_third_freq", 1)>>)
DetailCol == Bits("", "WaveformColorDetailColumn", 2, << <<"unknown", 0, 2>>, <<"height", 2, 5>>, <<"blue", 7, 3>>, <<"green", 10, 3>>, <<"red", 13, 3>> >>)
BandCol(s) == St("", s, <<N("energy_mid_third_freq", 1), N("energy_top_third_freq", 1), N("energy_bottom_third_freq", 1)>>)
Phrase == St("", "Phrase", <<N("index", 2), N("beat", 2), N("kind", 2), N("unknown1", 1), N("k1", 1), N("unknown2", 1), N("k2", 1),
             N("unknown3", 1), N("b", 1), N("beat2", 2), N("beat3", 2), N("beat4", 2), N("unknown4", 1), N("k3", 1), N("unknown5", 1),
             N("fill", 1), N("beat_fill", 2)>>)

Wave(el, col, unk) == <<Fix(BEw(el, 4)), Cnt("len", 4, "be", "data", 1, 0), Req("len", "content", el)>> \o unk \o <<Vec("data", "len", col)>>
Fixed150 == <<Con("unknown", <<0, 150, 0, 0>>, "be")>>

(* The content of the known section kinds behind the 12 header bytes ("content": total size - header size). *)
ContentL(kind) ==
  CASE kind = "BeatGrid" -> <<N("unknown1", 4), N("unknown2", 4), Cnt("len", 4, "be", "beats", 1, 0), Vec("beats", "len", Beat)>>
    [] kind = "CueList" -> <<CueListType, N("unknown", 2), Cnt("len", 2, "be", "cues", 1, 0), N("memory_count", 4), Vec("cues", "len", Cue)>>
    [] kind = "ExtendedCueList" -> <<CueListType, Cnt("len", 2, "be", "cues", 1, 0), Con("unknown", <<0, 0>>, "be"), Vec("cues", "len", ExtendedCue)>>
    [] kind = "Path" -> <<Cnt("len", 4, "be", "path", 2, 1), Req("len", "content", 1), WideZ("path", "units"), Req("units", "len", 2)>>
    [] kind = "VBR" -> <<N("unknown1", 4), Raw("unknown2", "content")>>
    [] kind = "WaveformPreview" -> <<Cnt("len", 4, "be", "data", 1, 0), Req("len", "content", 1), N("unknown", 4), Vec("data", "len", PreviewCol)>>
    [] kind = "TinyWaveformPreview" -> <<Cnt("len", 4, "be", "data", 1, 0), Req("len", "content", 1), N("unknown", 4), Vec("data", "len", TinyCol)>>
    [] kind = "WaveformDetail" -> Wave(1, PreviewCol, Fixed150)
    [] kind = "WaveformColorPreview" -> Wave(6, ColorCol, <<N("unknown", 4)>>)
    [] kind = "WaveformColorDetail" -> Wave(2, DetailCol, <<N("unknown", 4)>>)
    [] kind = "Waveform3BandPreview" -> Wave(3, BandCol("Waveform3BandPreviewColumn"), <<>>)
    [] kind = "Waveform3BandDetail" -> Wave(3, BandCol("Waveform3BandDetailColumn"), Fixed150)
    [] kind = "Unknown" -> <<Raw("header_data", "rest"), Raw("content_data", "content")>>
SongData == <<Mood, N("unknown1", 4), N("unknown2", 2), N("end_beat", 2), N("unknown3", 2), Bank, N("unknown4", 1), Vec("phrases", "len", Phrase)>>

--------------------------------------------------------------------------
(* Masking of song structures: every byte from the mood on is combined with a repeating key that depends
   on the number of phrases. *)
KeyData == <<203, 225, 238, 250, 229, 238, 173, 238, 233, 210, 233, 235, 225, 233, 243, 232, 233, 244, 225>>
KeyByte(len, i) == (KeyData[(i % 19) + 1] + len) % 256
Mask(b, len) == [i \in 1..Len(b) |-> b[i] ^^ KeyByte(len, i - 1)]
IsMood(w) == w[1] = 0 /\ w[2] \in {1, 2, 3}
Masked(w, len) == IsMood(Mask(w, len))

DecSong(b, p, content) ==
  IF ~Fits(b, p, 8) THEN No ELSE
  LET len == IntOf(At(b, p + 4, 2), "be")
      w == At(b, p + 6, 2)
      masked == Masked(w, len)
      n == 14 + 24 * len
  IN IF At(b, p, 4) # <<0, 0, 0, 24>> \/ 24 * len # content \/ ~Fits(b, p + 6, n) THEN No ELSE
     LET body == IF masked THEN Mask(At(b, p + 6, n), len) ELSE At(b, p + 6, n)
         r == DecF(SongData, body, 0, "len" :> len)
     IN IF ~r.ok THEN No ELSE
        Yes(p + 6 + n, <<<<"is_encrypted", [e |-> IF masked THEN "true" ELSE "false"]>>, <<"data", [s |-> "SongStructureData", f |-> r.t]>>>>, <<>>)
EncSong(fs) ==
  LET data == fs[2][2].f
      len == Len(FieldNamed(data, "phrases"))
      body == EncF(SongData, data, data)
  IN <<0, 0, 0, 24>> \o BEw(len, 2) \o (IF fs[1][2].e = "true" THEN Mask(body, len) ELSE body)

--------------------------------------------------------------------------
(* Sections and files *)
KindName(t) == IF "e" \in DOMAIN t THEN t.e ELSE "Unknown"
HeaderOk(env) == env["size"] >= 12 /\ env["total"] >= env["size"]
(* The library reads the cue entry headers with the same rules as those of the sections. *)
RECURSIVE CueHeadersOk(_)
CueHeadersOk(cs) == \A i \in 1..Len(cs) : LET h == cs[i].f[1][2].f IN
                      LET s == BigInt(h[2][2].n) t == BigInt(h[3][2].n) IN s >= 12 /\ (t >= s \/ (t = Huge /\ s = Huge))

DecSection(b, p) ==
  LET h == DecF(HeaderL, b, p, <<>>) IN
  IF ~h.ok THEN No ELSE
  IF ~HeaderOk(h.env) THEN No ELSE
  LET kind == KindName(h.t[1][2])
      size == h.env["size"]
      total == h.env["total"]
      env == ("content" :> total - size) @@ ("rest" :> size - 12)
  IN IF kind \in {"File", "Cue", "ExtendedCue"} THEN No ELSE
     LET c == IF kind = "SongStructure" THEN DecSong(b, h.p, total - size) ELSE DecF(ContentL(kind), b, h.p, env)
     IN IF ~c.ok THEN No ELSE
        IF c.p # p + total THEN No ELSE
        IF kind \in {"CueList", "ExtendedCueList"} /\ ~CueHeadersOk(FieldNamed(c.t, "cues")) THEN No ELSE
        Yes(c.p, [s |-> "Section", f |-> <<<<"header", [s |-> "Header", f |-> h.t]>>,
                    <<"content", [s |-> kind, f |-> <<<<"", [s |-> kind, f |-> c.t]>>>>]>>>>], <<>>)

RECURSIVE DecSections(_, _, _)
DecSections(b, p, end) ==
  IF p >= end THEN Yes(p, <<>>, <<>>) ELSE
  LET r == DecSection(b, p) IN
  IF ~r.ok THEN No ELSE
  IF r.p > end THEN No ELSE
  LET q == DecSections(b, r.p, end) IN IF q.ok THEN Yes(q.p, <<r.t>> \o q.t, <<>>) ELSE No

DecFile(b) ==
  LET h == DecF(HeaderL, b, 0, <<>>) IN
  IF ~h.ok THEN No ELSE
  IF ~HeaderOk(h.env) \/ KindName(h.t[1][2]) # "File" THEN No ELSE
  LET rest == h.env["size"] - 12 IN
  IF ~Fits(b, h.p, rest) THEN No ELSE
  LET s == DecSections(b, h.p + rest, h.env["total"]) IN
  IF ~s.ok THEN No ELSE
  Yes(s.p, [s |-> "ANLZ", f |-> <<<<"header", [s |-> "Header", f |-> h.t]>>, <<"header_data", [y |-> At(b, h.p, rest)]>>, <<"sections", s.t>>>>], <<>>)

EncSection(t) ==
  LET h == t.f[1][2].f
      kind == KindName(h[1][2])
      c == t.f[2][2].f[1][2].f
  IN EncF(HeaderL, h, h) \o (IF kind = "SongStructure" THEN EncSong(c) ELSE EncF(ContentL(kind), c, c))
EncFile(t) == LET h == t.f[1][2].f IN
  EncF(HeaderL, h, h) \o t.f[2][2].y \o Cat([i \in 1..Len(t.f[3][2]) |-> EncSection(t.f[3][2][i])])
=============================================================================
