------------------------------- MODULE PdbDb -------------------------------
(* A database on a storage: opening, lazy page loading, traversals, row iteration, modification in
   memory, row allocation, flushing, and storage faults. `disk` is the storage (one byte sequence per
   page, the header page first); `cache` is what the open database holds in memory; `hist` records
   the calls with the results that the specification demands, for replay on the real code.

   A fault makes reads ("r") or writes ("w") that touch page p fail -- any byte of it, or if at >= 0 only
   the byte at that offset -- or ("all") every access of any kind to the storage, or ("s") its passing on of what was written, until it is healed
   or, if `once`, until it was hit. After a failed flush the loaded pages and the header page on the
   storage are in an unspecified state (torn) until a later flush succeeds. *)
EXTENDS Pdb

CONSTANTS Ops,        \* enabled operations
          MaxOps,
          Quiet,      \* operations after which the history is not exported
          Store       \* how the storage behaves: "whole", "bits" (short and interrupted transfers), "uses" (whole, and histories
                      \* are to be tried with storage failing at any of its uses: an attempt to do a step that fails so is a
                      \* stuttering step, after which the step can be done),
                      \* or "stretch" (pages of 16 MiB, of which `disk` has the beginnings and ends)

(* Nothing depends on what the numbers of pages are, apart from their order (a step of a database is also a step of the
   database with other numbers in the same order): if GapLen > 0, histories are tried with pages from number GapAt on having
   numbers greater by GapLen, and that much unused storage in front of them. *)
CONSTANTS GapAt, GapLen
Gap == IF GapLen = 0 THEN <<>> ELSE <<GapAt, GapLen>>
CONSTANT Shared       \* "" or the name under which the one initial storage was exported

VARIABLES disk, base, mode, hdr, cache, fault, torn, hist
vars == <<disk, base, mode, hdr, cache, fault, torn, hist>>

NL == [kind |-> "nl"]
NoFault == [kind |-> "none", p |-> 0, at |-> -1, once |-> FALSE]
PS == Len(disk[1])
NPages == Len(disk) - 1                        \* pages stored behind the header page
\* Pages of the database: the ones it had when it was opened, whatever happens to the header in memory.
PagesInDb == Len(cache)
InDb(p) == p >= 1 /\ p <= PagesInDb
Loadable == 1..NPages

\* Reading page p off the storage
Hits(f, p) == f.kind = "all" \/ (f.kind = "r" /\ f.p = p)
\* whatever was read: page, "nl" if the page is not stored, "bad" if it is malformed
Stored(p) == IF p <= NPages THEN ReadPage(disk[p + 1], PS) ELSE NoPage
Peek(c, f, p) == IF c[p].kind # "nl" THEN c[p] ELSE IF Hits(f, p) THEN NoPage ELSE Stored(p)
AfterHit(f, p) == IF Hits(f, p) /\ f.once THEN NoFault ELSE f

\* One access to page p: [ok, err, c, f]
Access(c, f, p) ==
    IF c[p].kind # "nl" THEN [ok |-> TRUE, c |-> c, f |-> f]
    ELSE LET pg == TLCEval(Peek(c, f, p)) IN
         [ok |-> pg.kind # "bad", c |-> IF pg.kind = "bad" THEN c ELSE [c EXCEPT ![p] = pg], f |-> AfterHit(f, p)]

\* Walk along the page chain from `cur`; at most `k` pages are asked for.
WalkStep(s, i, last) ==
    IF s.end # "stop" THEN s
    ELSE IF s.cur < s.min THEN [s EXCEPT !.end = "order", !.at = s.cur]
    ELSE IF s.cur > PagesInDb THEN [s EXCEPT !.end = "absent", !.at = s.cur]
    ELSE LET a == TLCEval(Access(s.c, s.f, s.cur)) IN
         IF ~a.ok THEN [s EXCEPT !.end = "io", !.at = s.cur, !.c = a.c, !.f = a.f]
         ELSE [got |-> Append(s.got, s.cur), end |-> IF s.cur = last THEN "end" ELSE "stop", at |-> 0, c |-> a.c, f |-> a.f,
               cur |-> a.c[s.cur].next, min |-> s.cur + 1]
Walk(c, f, cur, last, min, k) ==
    SE!FoldLeft(LAMBDA s, i : WalkStep(s, i, last), [got |-> <<>>, end |-> "stop", at |-> 0, c |-> c, f |-> f, cur |-> cur, min |-> min],
                [i \in 1..Min2(k, PagesInDb + 1) |-> i])

\* Rows of `type` along the chain: pages of another type that hold rows end the iteration.
RowsOf(c, type, got) ==      \* [rows: <<page, position>>..., bad]
    LET holds(p) == c[p].kind = "data" /\ c[p].rows # <<>>
        bads == {i \in 1..Len(got) : holds(got[i]) /\ c[got[i]].type # type}
        n == IF bads = {} THEN Len(got) ELSE (CHOOSE i \in bads : \A j \in bads : i <= j) - 1
    IN [rows |-> Cat([i \in 1..n |-> IF holds(got[i]) THEN [j \in 1..Len(c[got[i]].rows) |-> <<got[i], j>>] ELSE <<>>]), bad |-> bads # {}]

\* The same, directly from the presence bits (the meaning of the property).
LiveRows(pg) == IF pg.kind = "data" THEN Sorted(Range(PresentOffs(pg.groups))) ELSE <<>>

Tables(type) == {i \in 1..Len(hdr.tables) : hdr.tables[i].type = type}
First(S) == CHOOSE x \in S : \A y \in S : x <= y

--------------------------------------------------------------------------
(* The calls *)
JView(pg) == IF pg.kind = "data"
             THEN LET v == View(pg) IN [v EXCEPT !.rows = [i \in 1..Len(v.rows) |-> <<v.rows[i].off, v.rows[i].b>>]]
             ELSE pg
Changed(d) == {i \in 1..Len(d) : d[i] # base[i]}
Diff(d) == LET s == TLCEval(Sorted(Changed(d))) IN [i \in 1..Len(s) |-> <<s[i] - 1, d[s[i]]>>]

FileRef == IF Shared = "" THEN base ELSE "@" \o Shared
\* Appends a call and exports the history.
Log(rec) == /\ hist' = Append(hist, rec)
            /\ IF rec.op \in Quiet /\ Len(hist') < MaxOps THEN TRUE ELSE Emit([k |-> "pdb", gap |-> Gap, st |-> Store, file |-> FileRef, ops |-> hist'])
LastOps == [i \in 1..Min2(2, Len(hist)) |-> hist[Len(hist) + 1 - i].op]
StateView == <<Len(hist), disk, base, mode, hdr, cache, fault, torn, LastOps>>
Enabled(o) == o \in Ops /\ Len(hist) < MaxOps

Hdr(h) == [ps |-> h.ps, nu |-> h.nu, unk |-> h.unk, seq |-> h.seq, tables |-> h.tables]
HeaderOk(b) == /\ At(b, 0, 4) = Zeros(4) /\ At(b, 24, 4) = Zeros(4)
Open(np) ==
    /\ Enabled("open") /\ mode = "closed" /\ ~torn
    /\ IF Hits(fault, 0) THEN
          /\ Log([op |-> "open", np |-> np, ok |-> FALSE])
          /\ fault' = IF fault.once THEN NoFault ELSE fault
          /\ UNCHANGED <<mode, hdr, cache>>
       ELSE
          /\ mode' = IF np THEN "np" ELSE "rw"
          /\ hdr' = ReadHdr(disk[1])
          /\ cache' = TLCEval([p \in 1..(hdr'.nu - 1) |-> NL])
          /\ Log([op |-> "open", np |-> np, ok |-> TRUE, hdr |-> Hdr(hdr')])
          /\ UNCHANGED fault
    /\ UNCHANGED <<disk, base, torn>>

LoadPage(p) ==
    /\ Enabled("load") /\ mode # "closed"
    /\ IF ~InDb(p) THEN Log([op |-> "load", p |-> p, ok |-> FALSE, e |-> "absent"]) /\ UNCHANGED <<cache, fault>>
       ELSE LET a == Access(cache, fault, p) IN
            /\ cache' = a.c /\ fault' = a.f
            /\ Log(IF a.ok THEN [op |-> "load", p |-> p, ok |-> TRUE, page |-> JView(a.c[p])]
                   ELSE [op |-> "load", p |-> p, ok |-> FALSE, e |-> "io"])
    /\ UNCHANGED <<disk, base, mode, hdr, torn>>

\* by: "index" (t = position in the directory from 0) or "type"; k = number of pages asked for;
\* set >= 0: write this value into unknown1 of the last page that was yielded.
Pages(by, t, k, set) ==
    /\ Enabled("pages") /\ mode # "closed"
    /\ LET S == IF by = "index" THEN {i \in 1..Len(hdr.tables) : i = t + 1} ELSE Tables(t) IN
       IF S = {} THEN Log([op |-> "pages", by |-> by, t |-> t, n |-> k, set |-> -1, ok |-> FALSE]) /\ UNCHANGED <<cache, fault>>
       ELSE LET tab == hdr.tables[First(S)]
                w == TLCEval(Walk(cache, fault, tab.first, tab.last, 1, k)) 
                do == set >= 0 /\ w.got # <<>>
            IN /\ cache' = IF do THEN [w.c EXCEPT ![w.got[Len(w.got)]].u1 = set] ELSE w.c
               /\ fault' = w.f
               /\ Log([op |-> "pages", by |-> by, t |-> t, n |-> k, set |-> set, ok |-> TRUE, end |-> w.end, at |-> w.at, got |-> w.got,
                       pages |-> [i \in 1..Len(w.got) |-> JView(w.c[w.got[i]])]])
    /\ UNCHANGED <<disk, base, mode, hdr, torn>>

RowVal(b, v) == IF Len(b) = 12 THEN LE32(v) \o SubSeq(b, 5, 12) ELSE LE16(v) \o SubSeq(b, 3, 8)
\* mod > 0: set the first field of the mod-th row to v
Rows(type, mod, v) ==
    /\ Enabled("rows") /\ mode # "closed"
    /\ IF Tables(type) = {} THEN Log([op |-> "rows", t |-> type, mod |-> 0, ok |-> FALSE]) /\ UNCHANGED <<cache, fault>>
       ELSE LET tab == hdr.tables[First(Tables(type))]
                w == TLCEval(Walk(cache, fault, tab.first, tab.last, 1, 1000)) 
                r == TLCEval(RowsOf(w.c, type, w.got))
                m == IF mod >= 1 /\ mod <= Len(r.rows) THEN mod ELSE 0
                end == IF r.bad THEN "type" ELSE w.end
                \* the iteration stops at a page of the wrong type, so later pages are not asked for
                bads == {i \in 1..Len(w.got) : w.c[w.got[i]].kind = "data" /\ w.c[w.got[i]].rows # <<>> /\ w.c[w.got[i]].type # type}
                w2 == TLCEval(IF r.bad THEN Walk(cache, fault, tab.first, tab.last, 1, First(bads)) ELSE w)
                c2 == IF m = 0 THEN w2.c ELSE LET l == r.rows[m] IN [w2.c EXCEPT ![l[1]].rows[l[2]].b = RowVal(@, v)]
            IN /\ cache' = c2 /\ fault' = w2.f
               /\ Log([op |-> "rows", t |-> type, mod |-> m, v |-> v, ok |-> TRUE, end |-> end, at |-> w.at,
                       rows |-> [i \in 1..Len(r.rows) |-> w.c[r.rows[i][1]].rows[r.rows[i][2]].b]])
    /\ UNCHANGED <<disk, base, mode, hdr, torn>>

\* Modifications through load_page
OnPage(op, p, rec, f(_)) ==
    /\ Enabled(op) /\ mode # "closed" /\ InDb(p)
    /\ LET a == Access(cache, fault, p) IN
       /\ fault' = a.f
       /\ IF ~a.ok THEN cache' = a.c /\ Log([ok |-> FALSE, e |-> "io", op |-> "load", p |-> p])
          ELSE cache' = [a.c EXCEPT ![p] = f(a.c[p])] /\ Log(rec)
    /\ UNCHANGED <<disk, base, mode, hdr, torn>>
SetPage(p, v) == OnPage("setpage", p, [op |-> "setpage", p |-> p, v |-> v, ok |-> TRUE], LAMBDA pg : [pg EXCEPT !.u1 = v])
SetRow(p, i, v) ==
    /\ mode # "closed" /\ InDb(p) /\ Peek(cache, fault, p).kind = "data" /\ i <= Len(Peek(cache, fault, p).rows)
    /\ OnPage("setrow", p, [op |-> "setrow", p |-> p, off |-> Peek(cache, fault, p).rows[i].off, v |-> v, ok |-> TRUE],
              LAMBDA pg : [pg EXCEPT !.rows[i].b = RowVal(@, v)])
\* allocate n bytes; row = <<>>: never filled
AllocRow(p, n, row) ==
    /\ mode # "closed" /\ InDb(p) /\ Peek(cache, fault, p).kind \in {"data", "index"}
    /\ LET old == Peek(cache, fault, p) IN
       OnPage("alloc", p, [op |-> "alloc", p |-> p, n |-> n, row |-> row, t |-> old.type, ok |-> TRUE, got |-> CanAlloc(old, n),
                           after |-> JView(IF ~CanAlloc(old, n) THEN old ELSE IF row = <<>> THEN Alloc(old, n) ELSE Fill(Alloc(old, n), old, row))],
              LAMBDA pg : IF ~CanAlloc(pg, n) THEN pg ELSE IF row = <<>> THEN Alloc(pg, n) ELSE Fill(Alloc(pg, n), pg, row))
\* f: "seq", "nu", "unk"; "add" and "cut" change the number of tables
SetHdr(f, v) ==
    /\ Enabled("sethdr") /\ mode # "closed" /\ (f \in {"add", "cut"} => hdr.tables # <<>>)
    /\ hdr' = CASE f = "add" -> [hdr EXCEPT !.tables = Append(@, [@[1] EXCEPT !.type = v])]
               [] f = "cut" -> [hdr EXCEPT !.tables = SubSeq(@, 1, Len(@) - 1)]
               [] OTHER -> [hdr EXCEPT ![f] = v]
    /\ Log([op |-> "sethdr", f |-> f, v |-> v, ok |-> TRUE])
    /\ UNCHANGED <<disk, base, mode, cache, fault, torn>>
SetSequence(v) == SetHdr("seq", v)

SetTable(t, first, last) ==
    /\ Enabled("settab") /\ mode # "closed" /\ t < Len(hdr.tables)
    /\ hdr' = [hdr EXCEPT !.tables[t + 1].first = first, !.tables[t + 1].last = last]
    /\ Log([op |-> "settab", t |-> t, first |-> first, last |-> last, ok |-> TRUE])
    /\ UNCHANGED <<disk, base, mode, cache, fault, torn>>

Flushed == [i \in 1..Len(disk) |-> IF i = 1 THEN HdrPage(hdr)
                                   ELSE IF i - 1 \in DOMAIN cache /\ cache[i - 1].kind # "nl" THEN Overlay(disk[i], cache[i - 1], PS) ELSE disk[i]]
Dirty == {0} \cup {p \in DOMAIN cache : cache[p].kind # "nl"}
Flush(close) ==
    /\ Enabled(IF close THEN "close" ELSE "flush") /\ mode = "rw"
    /\ LET fails == fault.kind \in {"all", "s"} \/ (fault.kind = "w" /\ fault.p \in Dirty) IN
       /\ ~(close /\ fails)          \* a failing close drops the database with the storage torn
       /\ disk' = IF fails THEN disk ELSE Flushed
       /\ torn' = IF fails THEN TRUE ELSE FALSE
       /\ fault' = IF fails /\ fault.once THEN NoFault ELSE fault
       /\ mode' = IF close THEN "closed" ELSE mode
       /\ Log([op |-> IF close THEN "close" ELSE "flush", ok |-> ~fails, disk |-> Diff(disk')])
    /\ cache' = IF close THEN <<>> ELSE cache
    /\ UNCHANGED <<base, hdr>>
DropDb ==
    /\ Enabled("drop") /\ mode # "closed" /\ ~torn
    /\ mode' = "closed" /\ cache' = <<>>
    /\ Log([op |-> "drop", ok |-> TRUE])
    /\ UNCHANGED <<disk, base, hdr, fault, torn>>
SetFault(kind, p, at, once) ==
    /\ Enabled("fault") /\ fault.kind = "none"
    /\ fault' = [kind |-> kind, p |-> p, at |-> at, once |-> once]
    /\ hist' = Append(hist, [op |-> "fault", kind |-> kind, p |-> p, at |-> at, once |-> once, ok |-> TRUE])
    /\ UNCHANGED <<disk, base, mode, hdr, cache, torn>>
Heal ==
    /\ Enabled("fault") /\ fault.kind # "none"
    /\ fault' = NoFault
    /\ hist' = Append(hist, [op |-> "heal", ok |-> TRUE])
    /\ UNCHANGED <<disk, base, mode, hdr, cache, torn>>

--------------------------------------------------------------------------
(* Properties *)
Last == hist[Len(hist)]
\* C01
StrictlyUp(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
ChainOk == hist # <<>> /\ Last.op = "pages" /\ Last.ok =>
    LET got == Last.got
        tab == hdr.tables[First(IF Last.by = "index" THEN {Last.t + 1} ELSE Tables(Last.t))]
    IN /\ StrictlyUp(got) /\ Len(got) <= Last.n
       /\ got # <<>> => got[1] = tab.first
       /\ \A i \in 1..(Len(got) - 1) : got[i + 1] = cache[got[i]].next /\ got[i] # tab.last
       /\ (Last.end = "end") <=> (got # <<>> /\ got[Len(got)] = tab.last)
       /\ Last.end = "stop" => Len(got) = Last.n
       /\ Last.end \in {"order", "absent", "io"} => Last.at = (IF got = <<>> THEN tab.first ELSE cache[got[Len(got)]].next)
       /\ Last.end = "order" => Last.at = 0 \/ (got # <<>> /\ Last.at <= got[Len(got)])
       /\ Last.end = "absent" => Last.at > PagesInDb
\* C02
WriteOnlyByFlush == [][disk' # disk /\ mode # "new" => hist'[Len(hist')].op \in {"flush", "close"} /\ mode = "rw"]_vars
MemoryStays == [][mode # "closed" /\ mode' # "closed" => \A p \in DOMAIN cache :
                    cache[p].kind # "nl" => (cache'[p] = cache[p] \/ hist'[Len(hist')].op \in {"pages", "rows", "setpage", "setrow", "alloc"})]_vars
NeverWrittenNP == mode = "np" => hist[Len(hist)].op \notin {"flush", "close"}
\* C03
Persisted == hist # <<>> /\ Last.op = "flush" /\ Last.ok =>
    /\ ReadHdr(disk[1]) = hdr
    /\ \A p \in DOMAIN cache : cache[p].kind # "nl" => View(ReadPage(disk[p + 1], PS)) = View(cache[p])
    /\ Flushed = disk
Untouched == [][hist' # hist /\ hist'[Len(hist')].op \in {"flush", "close"} =>
                  \A i \in 1..Len(disk) : i # 1 /\ (i - 1 \notin DOMAIN cache \/ cache[i - 1].kind = "nl") => disk'[i] = disk[i]]_vars
\* C04
NoGarbage == mode # "closed" => \A p \in DOMAIN cache : cache[p].kind \in {"nl", "data", "index"}
\* C05
RowsExact == hist # <<>> /\ Last.op = "rows" /\ Last.ok /\ Last.end = "end" /\ Last.mod = 0 =>
    LET tab == hdr.tables[First(Tables(Last.t))]
        w == TLCEval(Walk(cache, NoFault, tab.first, tab.last, 1, 1000)) 
    IN Last.rows = Cat([i \in 1..Len(w.got) |-> LET pg == cache[w.got[i]]
                                                  so == LiveRows(pg)
                                              IN [j \in 1..Len(so) |-> LET q == CHOOSE q \in 1..Len(pg.rows) : pg.rows[q].off = so[j] IN pg.rows[q].b]])
\* C06
SpaceOk == \A p \in DOMAIN cache : cache[p].kind = "data" => NoOverlap(cache[p], PS)
\* (a page whose header did not account for its space before stays that far off)
SpaceBalance == \A p \in DOMAIN cache : cache[p].kind = "data" => Balanced(cache[p], PS) \/ BalanceOf(cache[p]) = BalanceOf(ReadPage(base[p + 1], PS))
CountsOk == \A p \in DOMAIN cache : cache[p].kind = "data" =>
    /\ Len(cache[p].groups) = GroupCount(cache[p].nr)
    /\ Cardinality(Range(PresentOffs(cache[p].groups))) = cache[p].nv
    /\ Len(cache[p].rows) = cache[p].nv
\* C06/C07: a page written over anything reads back the same
ReadsBack == \A p \in DOMAIN cache : cache[p].kind # "nl" => View(ReadPage(Overlay(Rep(238, PS), cache[p], PS), PS)) = View(cache[p])
=============================================================================
