---------------------------- MODULE MCDeviceSql ----------------------------
(* Life of a database string: a text is made into a string, stored, and loaded again; or stored bytes
   are loaded as they are. Every text/byte sequence of the constants is explored; each behaviour is
   exported as one record for the conformance harness. *)
EXTENDS DeviceSql

CONSTANTS Part,       \* "texts" | "long" | "bytes" | "struct"
          Chars, MaxLen, Alphabet, MaxBytes

VARIABLES stage, text, mode, store, loaded
vars == <<stage, text, mode, store, loaded>>

Fill(pre, c, n, post) == pre \o Rep(c, n) \o post
LongLens == {125, 126, 127, 128, 255, 256, 1000, 32764, 32765, 32766, 32767, 32768, 40000}
LongTexts == UNION {{Fill(<<>>, 65, n, <<>>), Fill(<<252>>, 65, n - 2, <<>>), Fill(<<252>>, 65, n - 1, <<>>),
                     Fill(<<>>, 66, n - 3, <<8364>>), Fill(<<>>, 66, n - 2, <<8364>>), Fill(<<128512>>, 67, n - 4, <<>>),
                     Fill(<<>>, 252, n \div 2, <<>>), Fill(<<65>>, 252, n \div 2, <<>>),
                     Fill(<<>>, 8364, n \div 3, <<>>), Fill(<<65, 66>>, 8364, n \div 3, <<>>),
                     Fill(<<>>, 128512, n \div 4, <<>>)} : n \in LongLens}
\* Texts whose first code unit has the low byte 3, or which look like an ISRC in other ways.
Tricky == {<<259, 65>>, <<8195>>, <<12291>>, <<12291, 65>>, <<3, 12291>>, <<259>> \o Rep(65, 6), <<259>> \o Rep(16705, 5) \o <<65>>,
           <<16643>> \o Rep(16705, 5) \o <<65>>, <<16643>> \o Rep(16705, 4) \o <<65>>, <<16643>> \o Rep(16705, 6) \o <<65>>,
           <<16643>> \o Rep(16705, 5) \o <<192>>, <<16643, 65>>, <<49155>> \o Rep(65, 3), <<65282, 3>>, <<3, 3, 259>>, <<65530, 65, 65531>>,
           \* texts that a reader or writer could be tempted to trim, cut or normalise
           <<0>>, <<65, 0>>, <<0, 65>>, <<65, 0, 66>>, <<252, 0>>, <<0, 252>>, <<252, 0, 65>>, <<0, 0>>, <<65279>>, <<65279, 65>>, <<65, 65279>>, <<65534>>,
           <<32>>, <<32, 65>>, <<65, 32>>, <<32, 252, 32>>, <<10>>, <<65, 13, 10>>, <<9, 65>>, <<117, 776>>, <<252>>, <<8491>>, <<304>>, <<223>>,
           <<92, 110>>, <<34, 65, 34>>, <<97, 65>>, <<55295>>, <<57344>>, <<1114111>>, Rep(65, 126) \o <<0>>, Rep(65, 125) \o <<0>>, Rep(0, 127), Rep(65, 200) \o <<0, 0>>}
IsrcTexts == {<<>>} \cup {[i \in 1..n |-> 65 + i] : n \in 1..14} \cup
             {<<71, 66, 65, 89, 69, 54, 55, 48, 48, 49, 52, 57>>, <<252>> \o Rep(65, 11), <<252>> \o Rep(65, 10), <<127>> \o Rep(48, 11), Rep(3, 12),
              <<103, 98, 97, 121, 101, 54, 55, 48, 48, 49, 52, 57>>, <<71, 66, 45, 65, 89, 69, 45, 54, 55, 45, 48, 48>>, <<32>> \o Rep(65, 11), Rep(65, 11) \o <<32>>,
              Rep(65, 11) \o <<0>>, <<0>> \o Rep(65, 11), Rep(65, 5) \o <<0>> \o Rep(66, 6), Rep(0, 12), Rep(65, 11) \o <<0, 65>>, <<71, 66, 45, 65, 89, 69, 45, 54, 55, 45, 48, 48, 48, 49, 52>>}
\* Structured byte sequences: every header with bodies that end exactly, early or late.
Bodies == {<<>>, <<65>>, <<65, 0>>, <<3, 0>>, <<3, 65, 0>>, <<3, 65, 66, 0>>, <<3, 65, 66, 67, 0>>, <<3, 65>>, <<65, 66, 67>>, <<0, 216, 0, 220>>,
           <<0, 216>>, <<0, 220, 65, 0>>, <<0, 216, 65, 0>>, <<195, 188>>, <<195>>, <<255, 254>>, <<237, 160, 128>>, <<244, 144, 128, 128>>, <<240, 159, 152, 128>>, <<192, 128>>,
           <<3>> \o Rep(65, 12) \o <<0>>, <<3>> \o Rep(65, 11) \o <<200, 0>>, <<3>> \o Rep(65, 11) \o <<0, 0>>, <<3>> \o Rep(65, 15) \o <<0>>,
           <<3>> \o Rep(65, 14) \o <<0>>, <<3>> \o Rep(65, 13) \o <<0>>, <<3>> \o Rep(65, 12) \o <<1>>, <<3, 3, 0, 3>>, <<4>> \o Rep(65, 12) \o <<0>>}
Struct == {<<f>> \o LE16(l) \o <<p>> \o b : f \in {64, 144, 0, 16, 128, 66, 208}, p \in {0, 1}, b \in Bodies,
             l \in {0, 3, 4, 5, 6, 7, 8, 9, 10, 17, 18, 19, 20, 21, 65535}}
          \cup {<<f>> \o LE16(Len(b) + 4) \o <<0>> \o b \o t : f \in {64, 144}, b \in Bodies, t \in {<<>>, <<0>>, <<65, 0, 3>>}}
          \cup {<<2 * (Len(b) + 1) + 1>> \o b \o t : b \in Bodies, t \in {<<>>, <<65>>}}
          \cup {<<h>> \o Rep(65, n) : h \in {1, 3, 5, 251, 253, 255}, n \in {0, 1, 2, 124, 125, 126, 127}}

Texts == CASE Part = "texts" -> SeqsUpTo(Chars, MaxLen) \cup Tricky [] Part = "long" -> LongTexts [] OTHER -> {}
Blobs == CASE Part = "bytes" -> SeqsUpTo(Alphabet, MaxBytes) [] Part = "struct" -> Struct [] OTHER -> {}

Init == /\ loaded = Fail
        /\ \/ stage = "text" /\ mode = "new" /\ text \in Texts /\ store = <<>>
           \/ stage = "text" /\ mode = "isrc" /\ text \in (IF Part = "texts" THEN IsrcTexts ELSE {}) /\ store = <<>>
           \/ stage = "stored" /\ mode = "raw" /\ text = <<>> /\ store \in Blobs

Rec(op, ok, b) == [k |-> "str", op |-> op, text |-> text, ok |-> ok, bytes |-> b]

Create == /\ stage = "text" /\ mode = "new"
          /\ stage' = IF KindOf(text) = "reject" THEN "rejected" ELSE "stored"
          /\ store' = Enc(text)
          /\ IF Ambiguous(text) THEN TRUE ELSE Emit(Rec("new", KindOf(text) # "reject", Enc(text)))
          /\ UNCHANGED <<text, mode, loaded>>
CreateIsrc == /\ stage = "text" /\ mode = "isrc"
              /\ stage' = IF IsrcKind(text) = "reject" THEN "rejected" ELSE "stored"
              /\ store' = IF IsrcKind(text) = "reject" THEN <<>> ELSE EncIsrc(text)
              /\ Emit(Rec("isrc", IsrcKind(text) # "reject", store'))
              /\ UNCHANGED <<text, mode, loaded>>
Load == /\ stage = "stored"
        /\ stage' = "loaded"
        /\ loaded' = Dec(store)
        /\ mode = "raw" => LET d == Dec(store) IN
             Emit([k |-> "str", op |-> "dec", bytes |-> store, ok |-> d.ok, used |-> d.used, valid |-> d.valid, text |-> d.text])
        /\ UNCHANGED <<text, mode, store>>
Next == Create \/ CreateIsrc \/ Load
Spec == Init /\ [][Next]_vars

(* The properties *)
Lossless == stage = "loaded" /\ mode = "new" /\ ~Ambiguous(text) => loaded = [ok |-> TRUE, used |-> Len(store), valid |-> TRUE, text |-> text]
LosslessIsrc == stage = "loaded" /\ mode = "isrc" => loaded = [ok |-> TRUE, used |-> Len(store), valid |-> TRUE, text |-> text]
Fits == stage # "text" /\ mode # "raw" => Len(store) <= 65535
NeverPastEnd == stage = "loaded" => loaded.used <= Len(store)
=============================================================================
