-------------------------------- MODULE MCXor --------------------------------
(* The masking stream by itself: a wrapper around a byte stream that combines every byte with a
   repeating key. Its reader and writer may be served in pieces, and it may be moved. Whatever happens,
   the byte at position p is combined with key byte (p - start) mod length of the key. *)
EXTENDS Bytes

CONSTANTS Size, MaxOps, Piece

Keys == {<<>>, <<5>>, <<1, 2>>, <<9, 130, 77>>, <<3, 5, 7, 11, 13>>}
VARIABLES key, start, data, pos, ops, budget
vars == <<key, start, data, pos, ops, budget>>

K(p) == IF key = <<>> THEN 0 ELSE key[((p - start) % Len(key)) + 1]
Init == /\ key \in Keys /\ start \in {0, 2}
        /\ data = [i \in 1..Size |-> (i * 37) % 256]
        /\ pos = start /\ ops = <<>>
        /\ budget \in Piece           \* how many bytes the inner stream serves at once
Op(name, a, b, r) == ops' = Append(ops, [op |-> name, n |-> a, b |-> b, r |-> r])
Finish == Len(ops) = MaxOps - 1
Done == Len(ops') = MaxOps =>
  Emit([k |-> "xor", key |-> key, start |-> start, data |-> [i \in 1..Size |-> (i * 37) % 256], piece |-> budget, ops |-> ops', final |-> data', pos |-> pos'])

(* One call of read: at most "budget" bytes arrive (0: unlimited). *)
Read == \E n \in {1, 2, Size + 1} :
          LET avail == Max2(0, Len(data) - pos)
              m == Min2(Min2(n, avail), IF budget = 0 THEN n ELSE budget)
          IN /\ Op("read", n, <<>>, [i \in 1..m |-> data[pos + i] ^^ K(pos + i - 1)])
             /\ pos' = pos + m /\ UNCHANGED data
(* One call of write: the inner stream takes at most "budget" bytes; the caller keeps the rest. *)
Write == \E w \in {<<1>>, <<9, 200, 31>>} :
          LET m == IF budget = 0 THEN Len(w) ELSE Min2(budget, Len(w))
          IN /\ Op("write", m, w, <<>>)
             /\ data' = IF m = 0 THEN data ELSE Patch(data, pos, [i \in 1..m |-> w[i] ^^ K(pos + i - 1)])
             /\ pos' = pos + m
(* Moving: from the start, from here, from the end; a negative target is refused and changes nothing. *)
Seek == \E d \in {"start", "current", "end"}, n \in {-2, -1, 0, 1, 3} :
          LET t == (CASE d = "start" -> 0 [] d = "current" -> pos [] d = "end" -> Len(data)) + n
          IN /\ d = "start" => n >= 0
             /\ Op("seek_" \o d, n, <<>>, IF t < 0 THEN <<0>> ELSE <<1, t>>)
             /\ pos' = IF t < 0 THEN pos ELSE t
             /\ UNCHANGED data
Next == /\ Len(ops) < MaxOps
        /\ Read \/ Write \/ Seek
        /\ UNCHANGED <<key, start, budget>>
        /\ Done
Spec == Init /\ [][Next]_vars
StateView == <<key, start, budget, data, pos, Len(ops), IF ops = <<>> THEN "" ELSE ops[Len(ops)].op>>

(* Reading back everything that was written with the same key gives the written bytes. *)
Plain(p) == data[p + 1] ^^ K(p)
Aligned == \A i \in 1..Len(ops) : ops[i].op = "write" => Len(ops[i].b) >= ops[i].n
Involution == \A p \in start..(Len(data) - 1) : (Plain(p) ^^ K(p)) = data[p + 1]
=============================================================================
