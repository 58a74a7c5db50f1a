------------------------------- MODULE Codec -------------------------------
(* A small language for binary layouts, with its meaning in both directions.

   A layout is a sequence of nodes. Decoding a layout at a position of a byte sequence gives a value
   tree and the position behind it, or fails; encoding a tree gives bytes. Counts and sizes that a
   layout stores are derived from the tree when it is encoded. An environment carries the numbers that
   later nodes refer to.

   Trees are what the conformance harness compares with the real values: [n |-> bytes, most significant
   first], [e |-> variant], [x |-> text], [y |-> bytes], [s |-> struct, f |-> <<<<name, tree>>, ...>>],
   or a sequence of trees. *)
EXTENDS Bytes

Huge == 16777216     \* numbers from here on are not distinguished: no file in the model is that long
RECURSIVE BigInt(_)
BigInt(w) == IF Len(w) <= 3
             THEN (IF Len(w) = 0 THEN 0 ELSE BigInt(Take(w, Len(w) - 1)) * 256 + w[Len(w)])
             ELSE IF \A i \in 1..(Len(w) - 3) : w[i] = 0 THEN BigInt(Drop(w, Len(w) - 3)) ELSE Huge
IntOf(w, e) == BigInt(IF e = "le" THEN Rev(w) ELSE w)
Ord(w, e) == IF e = "le" THEN Rev(w) ELSE w                 \* to and from most significant first
BEw(n, w) == [i \in 1..w |-> IF w - i > 3 THEN 0 ELSE (n \div (256 ^ (w - i))) % 256]
BitsOf(w, shift, width) ==     \* w: bytes, most significant first, at most 2 of them
  ((IF Len(w) = 1 THEN w[1] ELSE w[1] * 256 + w[2]) \div (2 ^ shift)) % (2 ^ width)

(* Nodes *)
Num(n, w, e) == [k |-> "num", n |-> n, w |-> w, e |-> e]
NumAs(n, w, e, v) == [k |-> "numas", n |-> n, w |-> w, e |-> e, v |-> v]     \* a number later nodes refer to as v
Con(n, v, e) == [k |-> "con", n |-> n, v |-> v, e |-> e]                     \* visible, must be v (most significant first)
Fix(v) == [k |-> "fix", n |-> "", v |-> v]                                   \* hidden, must be the bytes v
Cnt(n, w, e, of, mul, add) == [k |-> "cnt", n |-> n, w |-> w, e |-> e, of |-> of, mul |-> mul, add |-> add, text |-> add # 0]
                                                                            \* hidden: mul * (length of field "of" + add)
Req(a, b, mul) == [k |-> "req", n |-> "", a |-> a, b |-> b, mul |-> mul]     \* number a * mul = number b
Let(n, a, c, d) == [k |-> "let", n |-> n, a |-> a, c |-> c, d |-> d]          \* number n = max(0, a - c - number d)
Enum(n, w, e, t) == [k |-> "enum", n |-> n, w |-> w, e |-> e, t |-> t]       \* t: sequence of <<number, variant>>
EnumO(n, w, e, t, o) == [k |-> "enumo", n |-> n, w |-> w, e |-> e, t |-> t, o |-> o]
Magic(n, t, o) == [k |-> "magic", n |-> n, t |-> t, o |-> o]                 \* four bytes, sequence of <<bytes, variant>>
Raw(n, c) == [k |-> "raw", n |-> n, c |-> c]                                 \* c: name of a number
RawN(n, c) == [k |-> "rawn", n |-> n, c |-> c]                               \* c: a number
Vec(n, c, f) == [k |-> "vec", n |-> n, c |-> c, f |-> f]
St(n, s, f) == [k |-> "st", n |-> n, s |-> s, f |-> f]
Bits(n, s, w, f) == [k |-> "bits", n |-> n, s |-> s, w |-> w, f |-> f]       \* f: sequence of <<name, shift, width>>, big-endian
WideZ(n, c) == [k |-> "widez", n |-> n, c |-> c]                             \* UTF-16BE up to a NUL; c: its length in units
LenWide(n, c) == [k |-> "lenwide", n |-> n, c |-> c]                         \* u32 length in bytes, UTF-16BE, NUL; c: that length
Tuple(n, w, c) == [k |-> "tuple", n |-> n, c |-> c]                          \* c bytes shown as a tuple
Pad(n, c) == [k |-> "pad", n |-> n, c |-> c]                                 \* hidden zero bytes
ConY(n, v) == [k |-> "cony", n |-> n, v |-> v]                               \* visible bytes, must be v
NulPad(n, c) == [k |-> "nulpad", n |-> n, c |-> c]                           \* NUL-terminated text in a field of c bytes
Plain(t) == \A i \in 1..Len(t) : t[i] \in 32..126 \ {34, 39, 92}
TextTree(b) == IF Plain(b) THEN [x |-> b, z |-> b] ELSE [raw |-> b, z |-> b]
Visible(x) == x.k \notin {"fix", "cnt", "req", "let", "pad"}

Ref(env, c) == IF c \in DOMAIN env THEN env[c] ELSE Assert(FALSE, <<"no number", c>>)
No == [ok |-> FALSE]
Yes(p, t, env) == [ok |-> TRUE, p |-> p, t |-> t, env |-> env]

At(b, p, n) == SubSeq(b, p + 1, p + n)
Fits(b, p, n) == p + n <= Len(b)
Find(t, x) == LET I == {i \in 1..Len(t) : t[i][1] = x} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
FieldNamed(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i][1] = n][2]

UnitsUntilNul(b, p) ==    \* number of units in front of the NUL at or behind p, or -1
  LET Z == {i \in 0..((Len(b) - p) \div 2 - 1) : b[p + 2 * i + 1] = 0 /\ b[p + 2 * i + 2] = 0}
  IN IF Len(b) < p + 2 \/ Z = {} THEN -1 ELSE CHOOSE i \in Z : \A j \in Z : i <= j

RECURSIVE DecF(_, _, _, _), DecVec(_, _, _, _, _)
Dec1(x, b, p, env) ==
  CASE x.k = "num" -> IF Fits(b, p, x.w) THEN Yes(p + x.w, [n |-> Ord(At(b, p, x.w), x.e)], env) ELSE No
    [] x.k = "numas" -> IF Fits(b, p, x.w) THEN Yes(p + x.w, [n |-> Ord(At(b, p, x.w), x.e)], (x.v :> IntOf(At(b, p, x.w), x.e)) @@ env) ELSE No
    [] x.k = "con" -> IF Fits(b, p, Len(x.v)) THEN
                         IF Ord(At(b, p, Len(x.v)), x.e) = x.v THEN Yes(p + Len(x.v), [n |-> x.v], env) ELSE No
                      ELSE No
    [] x.k = "cony" -> IF Fits(b, p, Len(x.v)) THEN
                         IF At(b, p, Len(x.v)) = x.v THEN Yes(p + Len(x.v), [y |-> x.v], env) ELSE No
                      ELSE No
    [] x.k = "nulpad" -> IF ~Fits(b, p, x.c) THEN No ELSE
                         LET Z == {i \in 0..(x.c - 1) : b[p + i + 1] = 0} IN
                         IF Z = {} THEN No ELSE Yes(p + x.c, TextTree(At(b, p, CHOOSE i \in Z : \A j \in Z : i <= j)), env)
    [] x.k = "fix" -> IF Fits(b, p, Len(x.v)) THEN
                         IF At(b, p, Len(x.v)) = x.v THEN Yes(p + Len(x.v), <<>>, env) ELSE No
                      ELSE No
    [] x.k = "cnt" -> IF Fits(b, p, x.w) THEN Yes(p + x.w, <<>>, (x.n :> IntOf(At(b, p, x.w), x.e)) @@ env) ELSE No
    [] x.k = "req" -> IF Ref(env, x.a) * x.mul = Ref(env, x.b) THEN Yes(p, <<>>, env) ELSE No
    [] x.k = "let" -> Yes(p, <<>>, (x.n :> Max2(0, Ref(env, x.a) - x.c - Ref(env, x.d))) @@ env)
    [] x.k = "enum" -> IF Fits(b, p, x.w) THEN
                          LET i == Find(x.t, IntOf(At(b, p, x.w), x.e)) IN IF i = 0 THEN No ELSE Yes(p + x.w, [e |-> x.t[i][2]], env)
                       ELSE No
    [] x.k = "enumo" -> IF Fits(b, p, x.w) THEN
                          LET w == At(b, p, x.w) i == Find(x.t, IntOf(w, x.e))
                          IN Yes(p + x.w, IF i = 0 THEN [s |-> x.o, f |-> <<<<"", [n |-> Ord(w, x.e)]>>>>] ELSE [e |-> x.t[i][2]], env)
                       ELSE No
    [] x.k = "magic" -> IF Fits(b, p, 4) THEN
                          LET w == At(b, p, 4) i == Find(x.t, w)
                          IN Yes(p + 4, IF i = 0 THEN [s |-> x.o, f |-> <<<<"", [y |-> w]>>>>] ELSE [e |-> x.t[i][2]], env)
                       ELSE No
    [] x.k = "raw" -> LET c == Ref(env, x.c) IN IF Fits(b, p, c) THEN Yes(p + c, [y |-> At(b, p, c)], env) ELSE No
    [] x.k = "rawn" -> IF Fits(b, p, x.c) THEN Yes(p + x.c, [y |-> At(b, p, x.c)], env) ELSE No
    [] x.k = "tuple" -> IF Fits(b, p, x.c) THEN Yes(p + x.c, [s |-> "", f |-> [i \in 1..x.c |-> <<"", [n |-> <<b[p + i]>>]>>]], env) ELSE No
    [] x.k = "pad" -> IF Fits(b, p, x.c) THEN Yes(p + x.c, <<>>, env) ELSE No
    [] x.k = "vec" -> LET r == DecVec(x.f, b, p, env, Ref(env, x.c)) IN IF r.ok THEN Yes(r.p, r.t, env) ELSE No
    [] x.k = "st" -> LET r == DecF(x.f, b, p, env) IN IF r.ok THEN Yes(r.p, [s |-> x.s, f |-> r.t], r.env) ELSE No
    [] x.k = "bits" -> IF Fits(b, p, x.w) THEN
                         Yes(p + x.w, [s |-> x.s, f |-> [i \in 1..Len(x.f) |-> <<x.f[i][1], BitsOf(At(b, p, x.w), x.f[i][2], x.f[i][3])>>]], env)
                       ELSE No
    [] x.k = "widez" -> LET n == UnitsUntilNul(b, p) IN
                        IF n < 0 THEN No ELSE
                        LET d == DecUnits(UnitsBE(At(b, p, 2 * n)))
                        IN Yes(p + 2 * n + 2, IF d.ok THEN [x |-> d.t] ELSE [raw |-> At(b, p, 2 * n)], (x.c :> n + 1) @@ env)
    [] x.k = "lenwide" ->
         IF ~Fits(b, p, 4) THEN No ELSE
         LET n == IntOf(At(b, p, 4), "be") IN
         IF n = 0 THEN Yes(p + 4, [x |-> <<>>], (x.c :> 0) @@ env) ELSE
         IF ~Fits(b, p + 4, n) \/ n % 2 = 1 \/ n = 2 THEN No ELSE
         LET u == UnitsBE(At(b, p + 4, n)) d == DecUnits(Take(u, Len(u) - 1))
         IN IF u[Len(u)] # 0 \/ ~d.ok THEN No ELSE Yes(p + 4 + n, [x |-> d.t], (x.c :> n) @@ env)

DecF(l, b, p, env) ==     \* t: the fields as <<name, tree>>
  IF l = <<>> THEN Yes(p, <<>>, env) ELSE
  LET r == Dec1(Head(l), b, p, env) IN
  IF ~r.ok THEN No ELSE
  LET q == DecF(Tail(l), b, r.p, r.env) IN
  IF ~q.ok THEN No ELSE
  [q EXCEPT !.t = IF Visible(Head(l)) THEN <<<<Head(l).n, r.t>>>> \o @ ELSE @]

(* n elements; long vectors are cut in two so that the recursion stays shallow *)
DecVec(x, b, p, env, n) ==
  IF n = 0 THEN Yes(p, <<>>, env) ELSE
  IF n > Len(b) - p THEN No ELSE       \* every element takes at least one byte
  IF n = 1 THEN LET r == Dec1(x, b, p, env) IN IF r.ok THEN Yes(r.p, <<r.t>>, env) ELSE No ELSE
  LET r == DecVec(x, b, p, env, n \div 2) IN
  IF ~r.ok THEN No ELSE
  LET q == DecVec(x, b, r.p, env, n - n \div 2) IN
  IF ~q.ok THEN No ELSE Yes(q.p, r.t \o q.t, env)

(* Encoding. fs: all fields of the enclosing struct (for derived counts). *)
TextLen(t) == IF "x" \in DOMAIN t THEN Len(Utf16(t.x)) ELSE Len(t.raw) \div 2
RECURSIVE EncF(_, _, _), SumBits(_, _)
SumBits(l, t) == IF l = <<>> THEN 0 ELSE Head(t)[2] * (2 ^ Head(l)[2]) + SumBits(Tail(l), Tail(t))
Enc1(x, t, fs) ==
  CASE x.k \in {"num", "numas"} -> Ord(t.n, x.e)
    [] x.k = "con" -> Ord(x.v, x.e)
    [] x.k \in {"fix", "cony"} -> x.v
    [] x.k = "nulpad" -> t.z \o Zeros(x.c - Len(t.z))
    [] x.k = "cnt" -> Ord(BEw(x.mul * ((IF x.text THEN TextLen(FieldNamed(fs, x.of)) ELSE Len(FieldNamed(fs, x.of))) + x.add), x.w), x.e)
    [] x.k \in {"req", "let"} -> <<>>
    [] x.k \in {"enum", "enumo"} -> IF "e" \in DOMAIN t THEN Ord(BEw(x.t[CHOOSE i \in 1..Len(x.t) : x.t[i][2] = t.e][1], x.w), x.e)
                                    ELSE Ord(t.f[1][2].n, x.e)
    [] x.k = "magic" -> IF "e" \in DOMAIN t THEN x.t[CHOOSE i \in 1..Len(x.t) : x.t[i][2] = t.e][1] ELSE t.f[1][2].y
    [] x.k \in {"raw", "rawn"} -> t.y
    [] x.k = "tuple" -> [i \in 1..x.c |-> t.f[i][2].n[1]]
    [] x.k = "pad" -> Zeros(x.c)
    [] x.k = "vec" -> Cat([i \in 1..Len(t) |-> IF x.f.k = "st" THEN EncF(x.f.f, t[i].f, t[i].f) ELSE
                                             BEw(SumBits(x.f.f, t[i].f), x.f.w)])
    [] x.k = "st" -> EncF(x.f, t.f, t.f)
    [] x.k = "bits" -> BEw(SumBits(x.f, t.f), x.w)
    [] x.k = "widez" -> (IF "x" \in DOMAIN t THEN Utf16BE(t.x) ELSE t.raw) \o <<0, 0>>
    [] x.k = "lenwide" -> IF t.x = <<>> THEN <<0, 0, 0, 0>> ELSE BEw(2 * (Len(Utf16(t.x)) + 1), 4) \o Utf16BE(t.x) \o <<0, 0>>
EncF(l, ts, fs) ==
  IF l = <<>> THEN <<>> ELSE
  IF Visible(Head(l)) THEN Enc1(Head(l), Head(ts)[2], fs) \o EncF(Tail(l), Tail(ts), fs)
  ELSE Enc1(Head(l), <<>>, fs) \o EncF(Tail(l), ts, fs)
=============================================================================
