----------------------------- MODULE DeviceSql -----------------------------
(* DeviceSQL strings.
     short:  ((n + 1) * 2 + 1), n ASCII bytes                                   n <= 126
     long:   flags, length (LE16, counts the 4 header bytes), 0, body
             flags 0x40: ASCII body      flags 0x90: UTF-16LE body
             flags 0x90 with body 03, ASCII..., 00 filling the body exactly: an ISRC *)
EXTENDS Bytes

MaxShort == 126
MaxUtf8 == 32767          \* limit on the text handed to the constructor (bytes of UTF-8)
MaxBody == 65535 - 4      \* limit of the 16-bit length field

Short(t) == <<2 * (Len(t) + 1) + 1>> \o t
Long(flags, body) == <<flags>> \o LE16(Len(body) + 4) \o <<0>> \o body

(* The string kind chosen for a text: "short", "ascii", "ucs2", or "reject". *)
KindOf(t) == IF IsAscii(t) /\ Len(t) <= MaxShort THEN "short"
             ELSE IF Utf8Len(t) > MaxUtf8 THEN "reject"
             ELSE IF IsAscii(t) THEN "ascii"
             ELSE IF 2 * Len(Utf16(t)) > MaxBody THEN "reject" ELSE "ucs2"
Body(t) == CASE KindOf(t) = "ascii" -> t [] OTHER -> Utf16LE(t)
Enc(t) == CASE KindOf(t) = "short" -> Short(t)
            [] KindOf(t) = "ascii" -> Long(64, t)
            [] KindOf(t) = "ucs2" -> Long(144, Utf16LE(t))
            [] OTHER -> <<>>

IsrcKind(t) == IF t = <<>> THEN "short" ELSE IF Len(t) = 12 /\ IsAscii(t) /\ (\A i \in 1..12 : t[i] # 0) THEN "isrc" ELSE "reject"
IsrcBody(t) == <<3>> \o t \o <<0>>
EncIsrc(t) == IF t = <<>> THEN Short(<<>>) ELSE Long(144, IsrcBody(t))

(* An ISRC body starts with 3, ends with 0 and holds ASCII text without 0 in between. Its length
   cannot be that of any UTF-16 text, or it is the one of a twelve character ISRC. *)
IsIsrcBody(b) == /\ Len(b) >= 2 /\ b[1] = 3 /\ b[Len(b)] = 0
                 /\ \A i \in 2..(Len(b) - 1) : b[i] > 0 /\ b[i] < 128
                 /\ Len(b) % 2 = 1 \/ Len(b) = 14

(* Texts whose UTF-16 bytes are exactly those of an ISRC: the format cannot tell them apart. *)
Ambiguous(t) == KindOf(t) = "ucs2" /\ IsIsrcBody(Utf16LE(t))

(* Decoding: ok, number of bytes used, and the text if the content is decodable. *)
Fail == [ok |-> FALSE, used |-> 0, valid |-> FALSE, text |-> <<>>]
Done(used, d) == [ok |-> TRUE, used |-> used, valid |-> d.ok, text |-> d.t]
Dec(b) ==
  IF b = <<>> THEN Fail ELSE
  IF b[1] % 2 = 1 THEN
    LET n == b[1] \div 2 - 1 IN
    IF n < 0 \/ Len(b) < n + 1 THEN Fail ELSE Done(n + 1, DecUtf8(SubSeq(b, 2, n + 1)))
  ELSE IF Len(b) < 4 THEN Fail ELSE
    LET len == b[2] + 256 * b[3]
        body == SubSeq(b, 5, len)
    IN IF len < 4 \/ Len(b) < len \/ b[4] # 0 THEN Fail ELSE
       CASE b[1] = 64 -> Done(len, DecUtf8(body))
         [] b[1] = 144 -> IF IsIsrcBody(body) THEN Done(len, [ok |-> TRUE, t |-> SubSeq(body, 2, Len(body) - 1)])
                          ELSE IF Len(body) % 2 = 0 THEN Done(len, DecUnits(UnitsLE(body)))
                          ELSE Fail
         [] OTHER -> Fail

IsUcs2(b) == b[1] = 144 /\ ~IsIsrcBody(SubSeq(b, 5, Len(b)))

--------------------------------------------------------------------------
(* Laws of the format, checked by TLC on every text and byte sequence that is explored. *)
RoundTrip(t) == KindOf(t) # "reject" /\ ~Ambiguous(t) =>
    Dec(Enc(t)) = [ok |-> TRUE, used |-> Len(Enc(t)), valid |-> TRUE, text |-> t]
RoundTripIsrc(t) == IsrcKind(t) # "reject" =>
    Dec(EncIsrc(t)) = [ok |-> TRUE, used |-> Len(EncIsrc(t)), valid |-> TRUE, text |-> t]
LengthField(t) == KindOf(t) \in {"ascii", "ucs2"} => UnLE16(SubSeq(Enc(t), 2, 3)) = Len(Enc(t)) /\ Len(Enc(t)) <= 65535
=============================================================================
