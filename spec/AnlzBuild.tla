------------------------------ MODULE AnlzBuild ------------------------------
(* Analysis files made from sections of every kind. *)
EXTENDS Anlz

Count(a, n) == [i \in 1..n |-> (a + i) % 256]
B4(n) == BEw(n, 4)
Hdr(kind, size, total) == MagicOf(kind) \o B4(size) \o B4(total)
FileOf(secs) == Hdr("File", 28, 28 + Len(Cat(secs))) \o Count(160, 16) \o Cat(secs)
(* A section made from header kind, header size and body behind the 12 header bytes. *)
Sec(kind, size, body) == Hdr(kind, size, 12 + Len(body)) \o body
SecU(magic, size, body) == magic \o B4(size) \o B4(12 + Len(body)) \o body

--------------------------------------------------------------------------
(* Bodies with n elements whose bytes are all different *)
BeatsB(n) == Count(10, 8) \o B4(n) \o Count(20, 8 * n)
CueB(i) == MagicOf("Cue") \o B4(28) \o B4(56) \o Count(30 + i, 16) \o <<1 + (i % 2)>> \o Count(60 + i, 27)
CuesB(n) == B4(n % 2) \o Count(5, 2) \o BEw(n, 2) \o Count(7, 4) \o Cat([i \in 1..n |-> CueB(i)])
Comment(t) == IF t = <<>> THEN B4(0) ELSE B4(2 * (Len(Utf16(t)) + 1)) \o Utf16BE(t) \o <<0, 0>>
XCueB(i, cmt, tlen, trail) == MagicOf("ExtendedCue") \o B4(16) \o B4(68 + tlen + Len(trail)) \o Count(40 + i, 4) \o <<2 - (i % 2)>> \o Count(50, 11)
                    \o <<i % 9>> \o Count(100, 11) \o cmt \o Count(150, 24) \o trail
XCueOf(i, t, trail) == XCueB(i, Comment(t), Len(Comment(t)) - 4, trail)
XCuesB(ty, cs) == B4(ty) \o BEw(Len(cs), 2) \o <<0, 0>> \o Cat(cs)
PathB(t) == B4(2 * (Len(Utf16(t)) + 1)) \o Utf16BE(t) \o <<0, 0>>
PrevB(n) == B4(n) \o Count(1, 4) \o Count(200, n)
DetailB(n) == B4(1) \o B4(n) \o <<0, 150, 0, 0>> \o Count(90, n)
WaveB(el, n, unk) == B4(el) \o B4(n) \o unk \o Count(33, el * n)
SongBody(mood, bank, n) == BEw(mood, 2) \o Count(11, 10) \o <<bank, 77>> \o Count(120, 24 * n)
SongB(mood, bank, n, masked) == B4(24) \o BEw(n, 2) \o (IF masked THEN Mask(SongBody(mood, bank, n), n) ELSE SongBody(mood, bank, n))

Bases(kind) ==
  CASE kind = "BeatGrid" -> {<<Sec(kind, 24, BeatsB(n))>> : n \in 0..2}
    [] kind = "CueList" -> {<<Sec(kind, 24, CuesB(n))>> : n \in 0..2}
    [] kind = "ExtendedCueList" -> {<<Sec(kind, 20, XCuesB(0, <<>>))>>, <<Sec(kind, 20, XCuesB(1, <<XCueOf(1, <<65, 228>>, <<>>)>>))>>,
                                    <<Sec(kind, 20, XCuesB(0, <<XCueOf(2, <<>>, Count(70, 4)), XCueOf(3, <<128512>>, Count(80, 3))>>))>>}
    [] kind = "Path" -> {<<Sec(kind, 16, PathB(t))>> : t \in {<<>>, <<47, 65, 228>>, <<128512, 47>>}}
    [] kind = "VBR" -> {<<Sec(kind, 16, Count(3, 4) \o Count(9, n))>> : n \in {0, 1, 5}}
    [] kind = "WaveformPreview" -> {<<Sec(kind, 20, PrevB(n))>> : n \in {0, 1, 3}}
    [] kind = "TinyWaveformPreview" -> {<<Sec(kind, 20, PrevB(n))>> : n \in {0, 1, 3}}
    [] kind = "WaveformDetail" -> {<<Sec(kind, 24, DetailB(n))>> : n \in {0, 2}}
    [] kind = "WaveformColorPreview" -> {<<Sec(kind, 24, WaveB(6, n, Count(1, 4)))>> : n \in {0, 2}}
    [] kind = "WaveformColorDetail" -> {<<Sec(kind, 24, WaveB(2, n, Count(1, 4)))>> : n \in {0, 2}}
    [] kind = "Waveform3BandPreview" -> {<<Sec(kind, 20, WaveB(3, n, <<>>))>> : n \in {0, 2}}
    [] kind = "Waveform3BandDetail" -> {<<Sec(kind, 24, WaveB(3, n, <<0, 150, 0, 0>>))>> : n \in {0, 2}}
    [] kind = "SongStructure" -> {<<Sec(kind, 32, SongB(m, m + 2, n, x))>> : m \in {1, 3}, n \in {0, 1, 2}, x \in BOOLEAN}
    [] kind = "Unknown" -> {<<SecU(<<80, 81, 84, 50>>, 12 + n, Count(1, n + m))>> : n \in {0, 1, 8}, m \in {0, 3}} \cup {<<SecU(<<80, 81, 84, 51>>, 12 + n, Count(1, n + m))>> : n \in {2, 84}, m \in {1, 70}}
    \* kinds that never stand on their own, and several sections in a row
    [] kind = "Nested" -> {<<Sec("File", 12, <<>>)>>, <<Sec("Cue", 28, Drop(CueB(1), 12))>>, <<Sec("ExtendedCue", 16, Drop(XCueOf(1, <<65>>, <<>>), 12))>>}
    [] kind = "Two" -> {<<>>, <<Sec("VBR", 16, Count(3, 4)), SecU(<<80, 81, 84, 50>>, 14, Count(1, 5)), Sec("BeatGrid", 24, BeatsB(1))>>}
=============================================================================
