------------------------------ MODULE Setting ------------------------------
(* Setting files: three header texts in fields of 32 bytes, a data section whose layout depends on the
   kind of file, and a CRC-16/XMODEM checksum. Everything is little-endian. *)
EXTENDS Codec, SettingTables

Kinds == {"DevSetting", "DJMMySetting", "MySetting", "MySetting2"}
Options(k) == CASE k = "DevSetting" -> Options_DevSetting [] k = "DJMMySetting" -> Options_DJMMySetting
                [] k = "MySetting" -> Options_MySetting [] k = "MySetting2" -> Options_MySetting2
DataSize(k) == CASE k = "DevSetting" -> 32 [] k = "DJMMySetting" -> 52 [] OTHER -> 40
FileSize(k) == 104 + DataSize(k) + 4
FileName(k) == CASE k = "DevSetting" -> "DEVSETTING.DAT" [] k = "DJMMySetting" -> "DJMMYSETTING.DAT"
                 [] k = "MySetting" -> "MYSETTING.DAT" [] k = "MySetting2" -> "MYSETTING2.DAT"

O(k, i) == LET o == Options(k)[i] IN Enum(o[1], 1, "le", [j \in 1..Len(o[2]) |-> <<o[2][j][1], o[2][j][2]>>])
Os(k, i, j) == [n \in 1..(j - i + 1) |-> O(k, i + n - 1)]
DataL(k) ==
  CASE k = "DevSetting" -> <<ConY("unknown1", <<120, 86, 52, 18, 1, 0, 0, 0, 1>>)>> \o Os(k, 1, 2) \o <<Con("unknown2", <<1>>, "le")>>
                           \o Os(k, 3, 4) \o <<ConY("unknown3", Zeros(18))>>
    [] k = "DJMMySetting" -> <<RawN("unknown1", 12)>> \o Os(k, 1, 13) \o <<ConY("unknown2", Zeros(27))>>
    [] k = "MySetting" -> <<RawN("unknown1", 8)>> \o Os(k, 1, 5) \o <<Num("unknown2", 1, "le")>> \o Os(k, 6, 8) \o <<RawN("unknown3", 3)>>
                          \o Os(k, 9, 15) \o <<Con("unknown4", <<0, 0>>, "le")>> \o Os(k, 16, 16) \o <<Con("unknown5", <<0, 0>>, "le")>>
                          \o Os(k, 17, 22) \o <<Con("unknown6", <<0, 0>>, "le")>>
    [] k = "MySetting2" -> Os(k, 1, 5) \o <<ConY("unknown1", Zeros(5))>> \o Os(k, 6, 6) \o <<Num("unknown2", 1, "le")>> \o Os(k, 7, 7)
                           \o <<ConY("unknown3", Zeros(27))>>
HeadL == <<Fix(<<96, 0, 0, 0>>), NulPad("brand", 32), NulPad("software", 32), NulPad("version", 32)>>

(* CRC-16/XMODEM: polynomial 0x1021, start 0 *)
RECURSIVE Shift(_, _)
Shift(c, n) == IF n = 0 THEN c ELSE Shift(IF c >= 32768 THEN ((c * 2) % 65536) ^^ 4129 ELSE c * 2, n - 1)
CrcTab == [i \in Byte |-> Shift(i * 256, 8)]
RECURSIVE CrcFrom(_, _, _)
CrcFrom(c, b, i) == IF i > Len(b) THEN c ELSE CrcFrom(((c % 256) * 256) ^^ CrcTab[(c \div 256) ^^ b[i]], b, i + 1)
Crc(b) == CrcFrom(0, b, 1)
ASSUME Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 12739     \* the check value of the catalogue, 0x31C3

DecSetting(k, b) ==
  LET h == DecF(HeadL, b, 0, <<>>) IN
  IF ~h.ok THEN No ELSE
  IF ~Fits(b, h.p, 4) THEN No ELSE
  IF At(b, h.p, 4) # LE32(DataSize(k)) THEN No ELSE
  LET d == DecF(DataL(k), b, h.p + 4, <<>>) IN
  IF ~d.ok THEN No ELSE
  IF ~Fits(b, d.p, 4) THEN No ELSE
  IF At(b, d.p + 2, 2) # <<0, 0>> THEN No ELSE       \* the checksum itself is not compared when reading
  Yes(d.p + 4, [s |-> "Setting", f |-> h.t \o <<<<"data", [s |-> k, f |-> <<<<"", [s |-> k, f |-> d.t]>>>>]>>>>], <<>>)
EncSetting(k, t) ==
  LET head == EncF(HeadL, t.f, t.f) \o LE32(DataSize(k))
      d == t.f[4][2].f[1][2].f
      data == EncF(DataL(k), d, d)
  IN head \o data \o LE16(Crc(IF k = "DJMMySetting" THEN head \o data ELSE data)) \o <<0, 0>>

(* Documented defaults *)
Ascii(s) == s
Unknowns(k) == CASE k = "DevSetting" -> <<<<120, 86, 52, 18, 1, 0, 0, 0, 1>>, <<1>>, Zeros(18)>>
                 [] k = "DJMMySetting" -> <<<<120, 86, 52, 18, 1, 0, 0, 0, 32, 0, 0, 0>>, Zeros(27)>>
                 [] k = "MySetting" -> <<<<120, 86, 52, 18, 2, 0, 0, 0>>, <<1>>, <<1, 1, 1>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>
                 [] k = "MySetting2" -> <<Zeros(5), <<129>>, Zeros(27)>>
Brand(k) == CASE k = "DevSetting" -> <<80, 73, 79, 78, 69, 69, 82, 32, 68, 74>> [] k = "DJMMySetting" -> <<80, 105, 111, 110, 101, 101, 114, 68, 74>>
              [] OTHER -> <<80, 73, 79, 78, 69, 69, 82>>
Rekordbox == <<114, 101, 107, 111, 114, 100, 98, 111, 120>>
Version == <<54, 46, 54, 46, 49>>
RECURSIVE DataWith(_, _, _, _)
DataWith(l, opts, unk, _k) ==    \* option bytes and unknown bytes put into their places
  IF l = <<>> THEN <<>> ELSE
  IF Head(l).k = "enum" THEN <<Head(opts)>> \o DataWith(Tail(l), Tail(opts), unk, _k)
  ELSE Head(unk) \o DataWith(Tail(l), opts, Tail(unk), _k)
Pad32(t) == t \o Zeros(32 - Len(t))
FileWith(k, brand, soft, ver, opts, unk) ==
  LET head == LE32(96) \o Pad32(brand) \o Pad32(soft) \o Pad32(ver) \o LE32(DataSize(k))
      data == DataWith(DataL(k), opts, unk, 0)
  IN head \o data \o LE16(Crc(IF k = "DJMMySetting" THEN head \o data ELSE data)) \o <<0, 0>>
Defaults(k) == [i \in 1..Len(Options(k)) |-> Options(k)[i][3]]
DefaultFile(k) == FileWith(k, Brand(k), Rekordbox, Version, Defaults(k), Unknowns(k))
(* The n-th value of every option (wrapping around). *)
Nth(k, n) == [i \in 1..Len(Options(k)) |-> LET t == Options(k)[i][2] IN t[((n + i) % Len(t)) + 1][1]]
OptionOffsets(k) == LET RECURSIVE Off(_, _, _)
                        Off(l, p, unk) == IF l = <<>> THEN <<>> ELSE
                          IF Head(l).k = "enum" THEN <<p>> \o Off(Tail(l), p + 1, unk) ELSE Off(Tail(l), p + Len(Head(unk)), Tail(unk))
                    IN Off(DataL(k), 104, Unknowns(k))
=============================================================================
