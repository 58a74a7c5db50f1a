------------------------------- MODULE Bytes -------------------------------
(* Byte sequences, integers in both byte orders, and Unicode text as sequences of code points.
   TLC integers are 32 bits wide and signed, so 32-bit fields are carried as byte sequences
   ("words", least significant byte first) and never as integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise

Byte == 0..255

Emit(rec) == PrintT(ToJson(rec))
EmitAll(seq) == \A i \in 1..Len(seq) : PrintT(ToJson(seq[i]))

Range(s) == {s[i] : i \in DOMAIN s}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == Rep(0, n)
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
AlignUp(a, b) == CeilDiv(a, b) * b

(* Concatenation of a sequence of sequences (balanced, so that long ones stay cheap). *)
RECURSIVE Cat(_)
Cat(ss) == CASE Len(ss) = 0 -> <<>>
             [] Len(ss) = 1 -> ss[1]
             [] Len(ss) = 2 -> ss[1] \o ss[2]
             [] OTHER -> Cat(Take(ss, Len(ss) \div 2)) \o Cat(Drop(ss, Len(ss) \div 2))

RECURSIVE SumSeq(_)
SumSeq(s) == CASE Len(s) = 0 -> 0 [] Len(s) = 1 -> s[1]
               [] OTHER -> SumSeq(Take(s, Len(s) \div 2)) + SumSeq(Drop(s, Len(s) \div 2))

LE16(n) == <<n % 256, (n \div 256) % 256>>
BE16(n) == <<(n \div 256) % 256, n % 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
BE32(n) == Rev(LE32(n))
UnLE16(b) == b[1] + 256 * b[2]

(* Overwrites s at (zero-based) offset off with p. *)
Patch(s, off, p) == LET n == Len(s) e == off + Len(p) IN
  TLCEval(IF e <= n THEN SubSeq(s, 1, off) \o p \o SubSeq(s, e + 1, n)
          ELSE IF off <= n THEN SubSeq(s, 1, off) \o p
          ELSE s \o Zeros(off - n) \o p)

RECURSIVE PatchSeq(_, _), PatchBy(_, _)   \* ps: sequence of <<offset, bytes>>
PatchSeq(s, ps) == IF ps = <<>> THEN s ELSE PatchSeq(Patch(s, Head(ps)[1], Head(ps)[2]), Tail(ps))
\* The same for many patches that all lie inside: both halves of s are patched by themselves.
PatchBy(s, ps) ==
  IF Len(ps) <= 4 THEN PatchSeq(s, ps) ELSE
  LET m == Len(s) \div 2
      left == SelectSeq(ps, LAMBDA p : p[1] < m)
      right == SelectSeq(ps, LAMBDA p : p[1] + Len(p[2]) > m)
      l == TLCEval([i \in 1..Len(left) |-> <<left[i][1], Take(left[i][2], Min2(Len(left[i][2]), m - left[i][1]))>>])
      r == TLCEval([i \in 1..Len(right) |-> LET c == Max2(0, m - right[i][1]) IN <<right[i][1] + c - m, Drop(right[i][2], c)>>])
  IN IF Len(left) + Len(right) > Len(ps) + Len(ps) \div 2 THEN PatchSeq(s, ps) ELSE PatchBy(Take(s, m), l) \o PatchBy(Drop(s, m), r)
PatchAll(s, ps) == IF Len(ps) > 40 /\ (\A i \in 1..Len(ps) : ps[i][1] + Len(ps[i][2]) <= Len(s)) THEN PatchBy(s, ps) ELSE PatchSeq(s, ps)

(* All sequences over S of length up to n. *)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* A set turned into some sequence (deterministic in TLC). *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

--------------------------------------------------------------------------
(* Unicode *)
ValidScalar(c) == (c >= 0 /\ c <= 55295) \/ (c >= 57344 /\ c <= 1114111)
IsAscii(t) == \A i \in 1..Len(t) : t[i] < 128
Utf8Width(c) == CASE c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3 [] OTHER -> 4
Utf8Len(t) == IF IsAscii(t) THEN Len(t) ELSE SumSeq([i \in 1..Len(t) |-> Utf8Width(t[i])])
Utf8Char(c) == CASE c < 128 -> <<c>>
                 [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
                 [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                 [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(t) == Cat([i \in 1..Len(t) |-> Utf8Char(t[i])])
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Utf16(t) == IF \A i \in 1..Len(t) : t[i] < 65536 THEN t ELSE Cat([i \in 1..Len(t) |-> Units(t[i])])
Utf16LE(t) == LET u == Utf16(t) IN [i \in 1..(2 * Len(u)) |->
                 IF i % 2 = 1 THEN u[(i + 1) \div 2] % 256 ELSE u[i \div 2] \div 256]
Utf16BE(t) == LET u == Utf16(t) IN [i \in 1..(2 * Len(u)) |->
                 IF i % 2 = 0 THEN u[i \div 2] % 256 ELSE u[(i + 1) \div 2] \div 256]

(* Strict decoders: [ok |-> BOOLEAN, t |-> text]. *)
Bad == [ok |-> FALSE, t |-> <<>>]
Join(x, y) == IF x.ok /\ y.ok THEN [ok |-> TRUE, t |-> x.t \o y.t] ELSE Bad
IsCont(x) == x >= 128 /\ x < 192

RECURSIVE DecUtf8(_)
DecUtf8(b) ==
  IF \A i \in 1..Len(b) : b[i] < 128 THEN [ok |-> TRUE, t |-> b] ELSE
  IF Len(b) > 32 THEN     \* split in front of a character; four continuation bytes in a row are invalid
     LET h == Len(b) \div 2
         C == {i \in (h - 3)..h : ~IsCont(b[i + 1])}
     IN IF C = {} THEN Bad ELSE LET m == CHOOSE i \in C : TRUE IN Join(DecUtf8(Take(b, m)), DecUtf8(Drop(b, m))) ELSE
  IF b = <<>> THEN [ok |-> TRUE, t |-> <<>>] ELSE
  LET h == b[1]
      n == CASE h < 128 -> 1 [] h >= 192 /\ h < 224 -> 2 [] h >= 224 /\ h < 240 -> 3 [] h >= 240 /\ h < 248 -> 4 [] OTHER -> 0
  IN IF n = 0 \/ Len(b) < n \/ (\E i \in 2..n : b[i] < 128 \/ b[i] > 191) THEN Bad ELSE
     LET c == CASE n = 1 -> h
                [] n = 2 -> (h - 192) * 64 + (b[2] - 128)
                [] n = 3 -> (h - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128)
                [] OTHER -> (h - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + (b[4] - 128)
     IN IF ~ValidScalar(c) \/ Utf8Width(c) # n THEN Bad ELSE
        LET r == DecUtf8(Drop(b, n)) IN IF r.ok THEN [ok |-> TRUE, t |-> <<c>> \o r.t] ELSE Bad

IsHigh(x) == x >= 55296 /\ x < 56320
RECURSIVE DecUnits(_)
DecUnits(u) ==
  IF \A i \in 1..Len(u) : u[i] < 55296 \/ u[i] > 57343 THEN [ok |-> TRUE, t |-> u] ELSE
  IF Len(u) > 32 THEN
     LET h == Len(u) \div 2
         m == IF IsHigh(u[h]) THEN h - 1 ELSE h
     IN Join(DecUnits(Take(u, m)), DecUnits(Drop(u, m))) ELSE
  IF u = <<>> THEN [ok |-> TRUE, t |-> <<>>] ELSE
  IF u[1] < 55296 \/ u[1] > 57343 THEN
     LET r == DecUnits(Tail(u)) IN IF r.ok THEN [ok |-> TRUE, t |-> <<u[1]>> \o r.t] ELSE Bad
  ELSE IF u[1] > 56319 \/ Len(u) < 2 THEN Bad
  ELSE IF u[2] < 56320 \/ u[2] > 57343 THEN Bad
  ELSE LET r == DecUnits(Drop(u, 2)) IN
       IF r.ok THEN [ok |-> TRUE, t |-> <<65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)>> \o r.t] ELSE Bad
UnitsLE(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
UnitsBE(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i] + 256 * b[2 * i - 1]]
(* Whole words of an object replaced, wherever they start behind the first n bytes. *)
OverWords == {<<0, 0>>, <<255, 255>>, <<255, 127>>, <<127, 255>>, <<0, 128>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 255, 255, 127>>, <<127, 255, 255, 255>>, <<0, 0, 0, 128>>, <<254, 255, 255, 255>>}
Overlays(b, n) == {[j \in 1..Len(b) |-> IF j > i /\ j <= i + Len(w) THEN w[j - i] ELSE b[j]] : i \in n..(Len(b) - 2), w \in OverWords}

=============================================================================
