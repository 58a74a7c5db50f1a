------------------------------ MODULE MCPdbDb ------------------------------
(* Families of small databases and call sequences for PdbDb. *)
EXTENDS PdbDb
CONSTANTS Family, Deep

PgSize == CASE Family \in {"rows", "alloc", "walk"} -> 256 [] Family = "allocbig" -> 65536 [] OTHER -> 128
Filler == 238                                  \* bytes nobody owns

Val(p, i) == 1000 * p + i
RowBytes(type, p, i) == IF type = PlaylistEntries THEN LE32(Val(p, i)) \o LE32(70000 + i) \o LE32(5)
                        ELSE LE16(Val(p, i)) \o LE16(100 + i) \o <<99, (p + i) % 3>> \o LE16(i)
\* slots: sequence of offsets; present: set of slot numbers from 1
Group(slots, present, unk) == [offs |-> [s \in 1..16 |-> IF s <= Len(slots) THEN slots[s] ELSE 0],
                               pres |-> SumSeq([s \in 1..16 |-> IF s \in present THEN Pow2(s - 1) ELSE 0]), unk |-> unk]
\* offsets of all slots, from the number of rows ever inserted
GroupsOf(offs, present) == [k \in 1..GroupCount(Len(offs)) |->
    LET lo == 16 * (k - 1)
        hi == Min2(Len(offs), lo + 16)
    IN Group(SubSeq(offs, lo + 1, hi), {s \in 1..16 : lo + s \in present}, 0)]
DataPage(p, type, next, offs, present, free) ==
    LET used == Len(offs) * RowLen(type)
        so == Sorted({offs[i] : i \in present})
    IN [kind |-> "data", idx |-> p, type |-> type, next |-> next, u1 |-> 7, u2 |-> 0, nr |-> Len(offs), nv |-> Cardinality(present),
        flags |-> 36, free |-> free, used |-> used,
        dh |-> <<1, 8191, 0, p>>, groups |-> GroupsOf(offs, present),
        rows |-> [i \in 1..Len(so) |-> [off |-> so[i], b |-> RowBytes(type, p, so[i] \div RowLen(type) + 1)]]]
Auto(type, n) == PgSize - HeapStart - n * RowLen(type) - 4 * GroupCount(n) - 2 * n
Plain(p, type, next, n) == DataPage(p, type, next, [i \in 1..n |-> (i - 1) * RowLen(type)], 1..n, Auto(type, n))
IndexPage(p, type, next) ==
    [kind |-> "index", idx |-> p, type |-> type, next |-> next, u1 |-> 1, u2 |-> 0, nr |-> 0, nv |-> 0, flags |-> 100, free |-> 0, used |-> 0,
     ih |-> [ua |-> 8191, ub |-> 8191, no |-> 0, pi |-> p, np |-> next, fe |-> 8191], ents |-> <<16, 33>>]
File(h, pages) == <<HdrPage(h)>> \o [i \in 1..Len(pages) |-> Overlay(Rep(Filler, PgSize), pages[i], PgSize)]
Table(type, first, last) == [type |-> type, ec |-> 9, first |-> first, last |-> last]
Header(nu, tables) == [ps |-> PgSize, nu |-> nu, unk |-> 5, seq |-> 44, tables |-> tables]

Big == 67108863
(* chain: every assignment of links, first and last page *)
ChainFiles(z) == LET L == IF Deep THEN {0, 1, 2, 3, 4, 5, Big} ELSE {0, 1, 2, 3, 4}
              IN {File(Header(nu, <<Table(PlaylistEntries, f, l), Table(MenuType, 2, 2)>>),
                   <<IF a = f THEN IndexPage(1, PlaylistEntries, a) ELSE Plain(1, PlaylistEntries, a, 1), Plain(2, PlaylistEntries, b, 2), Plain(3, PlaylistEntries, c, 1)>>) :
                  a \in L, b \in L, c \in L, f \in {0, 1, 2, 3, 4}, l \in {1, 2, 3, 9}, nu \in (IF Deep THEN {4, 5} ELSE {4})}
   \* a header that knows fewer or more pages than are stored
   \cup {File(Header(nu, <<Table(PlaylistEntries, f, l), Table(MenuType, 2, 2)>>),
            <<Plain(1, PlaylistEntries, a, 1), Plain(2, PlaylistEntries, b, 2), Plain(3, PlaylistEntries, 4, 1)>>) :
            a \in {2, 3, 4}, b \in {3, 4, 9}, f \in {1, 3}, l \in {2, 3, 9}, nu \in {1, 2, 3, 5, 9, 70000}}
   \* pages that carry the number of another place
   \cup UNION {{File(Header(4, <<Table(PlaylistEntries, 1, l), Table(MenuType, 2, 2)>>),
             <<IF i THEN [IndexPage(1, PlaylistEntries, a) EXCEPT !.idx = m] ELSE [Plain(1, PlaylistEntries, a, 1) EXCEPT !.idx = m],
               [Plain(2, PlaylistEntries, 3, 2) EXCEPT !.idx = n], [Plain(3, PlaylistEntries, a, 1) EXCEPT !.idx = m + n]>>) :
             i \in BOOLEAN, l \in {2, 3}, m \in {0, 1, 2, 3, 77}, n \in {0, 2, 3, 67108863}} : a \in {2, 3}}
   \* numbers of which only low or high bits belong to a page of the file
   \cup UNION {{File(Header(4, <<Table(PlaylistEntries, IF w = 4 THEN x ELSE 1, IF w = 5 THEN x ELSE l), Table(MenuType, 2, 2)>>),
             <<IF i THEN IndexPage(1, PlaylistEntries, IF w = 1 THEN x ELSE 2) ELSE Plain(1, PlaylistEntries, IF w = 1 THEN x ELSE 2, 1),
               Plain(2, PlaylistEntries, IF w = 2 THEN x ELSE 3, 2), Plain(3, PlaylistEntries, IF w = 3 THEN x ELSE 9, 1)>>) : i \in BOOLEAN, l \in {2, 3}, w \in 1..5} :
             x \in UNION {{258 + k, 65538 + k, 16777218 + k, 33554434 + k, 67108863 - k, 536870914 + k, 1073741826 + k, 2147483647 - k} : k \in 0..1}}
(* hist: two tables, one of them with an index page in front; one page in no table; pages 3 and 5 do not
   carry the number of their place *)
HistFile(z) == File(Header(6, <<Table(PlaylistEntries, 1, 4), Table(MenuType, 3, 3)>>),
    <<IndexPage(1, PlaylistEntries, 2), Plain(2, PlaylistEntries, 4, 2), [Plain(3, MenuType, 5, 2) EXCEPT !.idx = 1003],
      DataPage(4, PlaylistEntries, 3, <<12, 0, 24>>, {1, 3}, 20), [Plain(5, 77, 0, 0) EXCEPT !.idx = 0]>>)
(* rows: presence patterns, orders of offsets, page kinds and types along the chain *)
Perms(n) == {f \in [1..n -> 1..n] : {f[i] : i \in 1..n} = 1..n}
OffsOf(f) == [i \in 1..Len(f) |-> 12 * (f[i] - 1)]
RowPages(p, next) == {DataPage(p, PlaylistEntries, next, OffsOf(f), pr, 30) : f \in Perms(3), pr \in SUBSET (1..3)}
WidePages(p, next) == LET n == 12 IN
    {DataPage(p, MenuType, next, [i \in 1..17 |-> 8 * (i - 1)], pr, 4) :
      pr \in {{}, 1..17, {17}, {16}, {16, 17}, {1, 17}, 1..16, 2..17, {3, 9, 16}, {15, 16, 17}, {1, 8, 9, 16}}}
RowFiles(z) ==
    {File(Header(4, <<Table(PlaylistEntries, 1, 2), Table(MenuType, 3, 3)>>), <<a, b, c>>) :
        a \in {IndexPage(1, PlaylistEntries, 2), Plain(1, PlaylistEntries, 2, 2), Plain(1, PlaylistEntries, 2, 0), Plain(1, MenuType, 2, 1)},
        b \in RowPages(2, 3) \cup {Plain(2, MenuType, 3, 1)}, c \in {Plain(3, MenuType, 0, 2)}}
    \cup {File(Header(4, <<Table(MenuType, 1, 3), Table(PlaylistEntries, 2, 2), Table(MenuType, 2, 2)>>), <<a, b, c>>) :
        a \in WidePages(1, 3), b \in {Plain(2, PlaylistEntries, 3, 1)}, c \in {Plain(3, MenuType, 0, 1), Plain(3, PlaylistEntries, 0, 1), IndexPage(3, MenuType, 0)} \cup (IF Deep THEN WidePages(3, 0) ELSE {})}
    \* the other fields of a page header say nothing about its rows
    \cup UNION {{File(Header(4, <<Table(PlaylistEntries, 1, 3), Table(MenuType, 2, 2)>>),
           <<[Plain(1, PlaylistEntries, 2, 2) EXCEPT !.flags = fl, !.free = free, !.used = used, !.u1 = u, !.nv = nv],
             [DataPage(2, PlaylistEntries, 3, <<12, 0, 24>>, {1, 3}, 20) EXCEPT !.flags = fl, !.free = free, !.used = used, !.u1 = u, !.nv = nv], Plain(3, PlaylistEntries, 0, 1)>>) :
           fl \in {0, 36, 52}, nv \in {1, 2}, u \in {0, 7}} : free \in {0, 1, 20, 65535}, used \in {0, 4, 20, 65535}}
    \cup {File(Header(4, <<Table(PlaylistEntries, 1, 3), Table(MenuType, 2, 2)>>),
           <<[Plain(1, PlaylistEntries, 2, 2) EXCEPT !.flags = fl], [Plain(2, PlaylistEntries, 3, 2) EXCEPT !.flags = fl, !.dh = dh], Plain(3, PlaylistEntries, 0, 1)>>) :
           fl \in {f \in 0..255 : (f \div 64) % 2 = 0}, dh \in {<<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>}}
    \cup (IF ~Deep THEN {} ELSE
      {File(Header(4, <<Table(PlaylistEntries, 1, 3), Table(MenuType, 2, 2)>>), <<a, b, c>>) :
        a \in RowPages(1, 2), b \in {Plain(2, PlaylistEntries, 3, 1), IndexPage(2, PlaylistEntries, 3), Plain(2, 3, 3, 0)}, c \in RowPages(3, 0)})
(* alloc: pages with given numbers of row slots and amounts of free space *)
AllocPage(n, pres, free) == LET pg == DataPage(1, MenuType, 0, [i \in 1..n |-> 8 * (i - 1)], pres, 0)
                            IN [pg EXCEPT !.free = free, !.used = PgSize - HeapStart - 4 * GroupCount(n) - 2 * n - free]
AllocFiles(z) ==
    {File(Header(3, <<Table(MenuType, 1, 1), Table(PlaylistEntries, 2, 2)>>), <<AllocPage(np[1], np[2], free), IndexPage(2, PlaylistEntries, 0)>>) :
        np \in {<<0, {}>>, <<1, {1}>>, <<1, {}>>, <<2, {2}>>, <<2, {1}>>, <<14, 1..14>>, <<15, 1..15>>, <<15, {1}>>, <<16, 1..16>>, <<16, 2..15>>},
        free \in {f \in (IF Deep THEN 0..40 ELSE {0, 5, 6, 7, 9, 10, 11, 13, 14, 15, 17, 18, 19, 22, 26, 30, 38}) : TRUE}}
    \cup {File(Header(3, <<Table(MenuType, 1, 1), Table(PlaylistEntries, 2, 2)>>), <<AllocPage(np[1], np[2], PgSize - HeapStart - 4 - 2 * np[1] - u), IndexPage(2, PlaylistEntries, 0)>>) :
        np \in {<<2, {1, 2}>>, <<2, {1}>>, <<3, {1, 3}>>}, u \in {0, 8, 16}}       \* the used size is too small
    \* no room in the counters, whatever the header says about free space
    \cup {File(Header(3, <<Table(MenuType, 1, 1), Table(PlaylistEntries, 2, 2)>>), <<[AllocPage(2, {1, 2}, 40) EXCEPT !.used = u, !.free = f], IndexPage(2, PlaylistEntries, 0)>>) :
        u \in {65532, 65533, 65535}, f \in {40, 65535}}

(* allocbig: sizes beyond 8 and 15 bits *)
SlotPage(n, pres, k) == [DataPage(1, MenuType, 0, [i \in 1..n |-> IF i \in pres THEN 8 * (i - 1) ELSE 0], pres, 0)
                          EXCEPT !.free = PgSize - HeapStart - k - 4 * GroupCount(n) - 2 * n, !.used = k]
AllocBigFiles(z) == {File(Header(2, <<Table(MenuType, 1, 1)>>), <<p>>) :
                       p \in {Plain(1, MenuType, 0, 2046), SlotPage(8190, 1..3, 24), SlotPage(2050, 4..2049, 16400), SlotPage(4095, {1, 17}, 136)}} \cup
                    {File(Header(2, <<Table(MenuType, 1, 1)>>), <<Plain(1, MenuType, 0, n)>>) : n \in {0, 40, 1000} \cup (IF Deep THEN {15, 16, 2000} ELSE {})}
(* large: page numbers beyond 8 bits; two tables that take turns, most pages belong to none *)
LargeChains == << <<1, 3, 127, 129, 255, 257, 299>>, <<2, 4, 128, 254, 256, 258, 298>> >>
LargeNextOf(p) == LET c == {t \in 1..2 : p \in Range(LargeChains[t])} IN
    IF c = {} THEN 0 ELSE LET s == LargeChains[First(c)]
                              i == CHOOSE i \in 1..Len(s) : s[i] = p IN IF i = Len(s) THEN 300 ELSE s[i + 1]
LargeFile(z) == <<HdrPage(Header(300, <<Table(PlaylistEntries, 1, 299), Table(MenuType, 2, 298)>>))>> \o
    [p \in 1..299 |-> IF LargeNextOf(p) = 0 THEN Rep(Filler, PgSize)
                      ELSE Overlay(Rep(Filler, PgSize), IF p % 2 = 1 THEN Plain(p, PlaylistEntries, LargeNextOf(p), 2)
                                                        ELSE Plain(p, MenuType, LargeNextOf(p), IF p % 4 = 0 THEN 0 ELSE 3), PgSize)]
(* (operators with a parameter are not evaluated ahead of time by TLC) *)
Files(z) == CASE Family = "walk" -> {<<Zeros(PgSize)>>} [] Family = "allocbig" -> AllocBigFiles(z) [] Family = "large" -> {LargeFile(z)} [] Family = "chain" -> ChainFiles(z) [] Family \in {"hist", "fault", "retry"} -> {HistFile(z)} [] Family = "rows" -> RowFiles(z) [] Family = "alloc" -> AllocFiles(z)

ASSUME Shared = "" \/ Emit([k |-> "def", name |-> Shared, value |-> CHOOSE f \in Files(0) : TRUE])
Init == /\ disk \in Files(0) /\ base = disk /\ mode = (IF Family = "walk" THEN "new" ELSE "closed") /\ hdr = [nu |-> 0, tables |-> <<>>] /\ cache = <<>> /\ fault = NoFault /\ torn = FALSE /\ hist = <<>>

ChainNext ==
    \/ Open(TRUE)
    \/ IF Len(hist) = 1 THEN \E by \in {<<"index", 0>>, <<"type", PlaylistEntries>>, <<"index", 2>>, <<"index", 256>>, <<"index", 65537>>, <<"type", 3>>}, k \in {2, 1000} : Pages(by[1], by[2], k, -1)
       ELSE Pages("index", 0, 1000, -1) \/ \E p \in {2, 258, 65538, 16777218} : LoadPage(p)
HistNext ==
    \/ Open(FALSE) \/ Open(TRUE) \/ DropDb
    \/ \E p \in {0, 1, 2, 3, 4, 5, 6} : LoadPage(p)
    \/ \E by \in {<<"index", 0>>, <<"index", 1>>, <<"type", PlaylistEntries>>}, k \in {1, 2, 1000}, v \in {-1, 99} : Pages(by[1], by[2], k, v)
    \/ \E m \in {0, 1, 3, 4} : Rows(PlaylistEntries, m, 40000)
    \/ Rows(MenuType, 0, 0) \/ Rows(MenuType, 2, 77)
    \/ \E p \in {1, 2, 4, 5} : SetPage(p, 33)
    \/ \E l \in {<<2, 2>>, <<4, 1>>, <<4, 2>>, <<3, 1>>} : SetRow(l[1], l[2], 555)
    \/ AllocRow(4, 12, RowBytes(PlaylistEntries, 9, 9)) \/ AllocRow(2, 12, <<>>) \/ AllocRow(3, 8, RowBytes(MenuType, 9, 9))
    \/ SetSequence(45) \/ (\E fv \in {<<"nu", 0>>, <<"nu", 3>>, <<"unk", 0>>, <<"add", 5>>, <<"cut", 0>>} : SetHdr(fv[1], fv[2]))
    \/ Flush(FALSE) \/ Flush(TRUE)
FaultBytes(p) == CASE p = 0 -> {-1, 5, 29, 45} [] p = 2 -> {-1, 9, 41, 55, 125} [] p = 3 -> {-1, 0, 8, 11, 45, 53} [] OTHER -> {-1, 9, 30}
FaultNext ==
    \/ Open(FALSE)
    \/ \E p \in {1, 2, 3, 4} : LoadPage(p)
    \/ \E by \in {<<"index", 0>>, <<"type", MenuType>>}, k \in {1, 1000} : Pages(by[1], by[2], k, -1)
    \/ Rows(PlaylistEntries, 3, 40000) \/ Rows(MenuType, 0, 0)
    \/ SetRow(2, 2, 555) \/ SetPage(4, 33) \/ SetSequence(45) \/ AllocRow(2, 12, <<>>)
    \/ Flush(FALSE) \/ Flush(TRUE) \/ DropDb
    \/ \E k \in {"r", "w"}, p \in {0, 1, 2, 3, 4}, once \in BOOLEAN : \E at \in (IF k = "w" THEN {-1} ELSE FaultBytes(p)) : SetFault(k, p, at, once)
    \/ \E once \in BOOLEAN, k \in {"all", "s"} : SetFault(k, 0, -1, once)
    \/ Heal
(* retry: a change, a flush that fails, then anything, and flushes until one succeeds *)
RetryNext ==
    \/ Open(FALSE)
    \/ /\ Len(hist) = 1
       /\ \/ \E p \in {2, 3, 4} : LoadPage(p)
          \/ Pages("index", 0, 1000, 99)
          \/ Rows(PlaylistEntries, 3, 40000)
    \/ Len(hist) = 2 /\ (SetRow(2, 2, 555) \/ SetPage(4, 33) \/ SetPage(3, 33) \/ SetSequence(45) \/ AllocRow(2, 12, RowBytes(PlaylistEntries, 9, 9)))
    \/ Len(hist) = 3 /\ \E f \in {<<"all", 0>>, <<"s", 0>>} \cup {<<"w", p>> : p \in {0, 2, 3, 4}}, once \in BOOLEAN : SetFault(f[1], f[2], -1, once)
    \/ Len(hist) = 4 /\ Flush(FALSE)
    \/ Len(hist) = 5 /\ torn /\ (Heal \/ LoadPage(2) \/ LoadPage(3) \/ SetRow(2, 1, 777) \/ Rows(PlaylistEntries, 1, 41000) \/ Flush(FALSE))
    \/ Len(hist) = 6 /\ (Heal \/ Flush(FALSE) \/ (Deep /\ (LoadPage(3) \/ SetRow(2, 2, 778) \/ Rows(MenuType, 0, 0))))
    \/ Len(hist) = 7 /\ (Flush(FALSE) \/ Rows(PlaylistEntries, 0, 0) \/ (Deep /\ Heal))
    \/ Len(hist) = 8 /\ Deep /\ (Flush(FALSE) \/ Rows(PlaylistEntries, 0, 0))
RowsNext ==
    \/ Open(FALSE)
    \/ \E t \in {PlaylistEntries, MenuType, 3} : Rows(t, 0, 0)
    \/ \E t \in {PlaylistEntries, MenuType}, m \in {1, 2} : Rows(t, m, 4321)
    \/ Len(hist) = 2 /\ hist[2].op = "rows" /\ hist[2].mod # 0 /\ Flush(FALSE)
AllocNext ==
    \/ Open(FALSE)
    \/ \E n \in {1, 3, 4, 5, 8} : AllocRow(1, n, <<>>)
    \/ \E n \in {8} : AllocRow(1, n, RowBytes(MenuType, 6, Len(hist)))
    \/ AllocRow(2, 4, <<>>)
    \/ AllocRow(1, 65532, <<>>) \/ AllocRow(1, 65535, <<>>)
    \/ Flush(FALSE)
AllocBigNext ==
    \/ Open(FALSE)
    \/ \E n \in {9, 300, 30000, 40000} \cup (IF Deep THEN {8, 256, 32768, 65000} ELSE {}) : AllocRow(1, n, RowBytes(MenuType, 6, Len(hist)))
    \/ Len(hist) = MaxOps - 1 /\ Flush(FALSE)
FarNext ==
    \/ Open(FALSE)
    \/ /\ Len(hist) = 1
       /\ \/ \E p \in {127, 200, 255, 256, 257, 299} : LoadPage(p)
          \/ Pages("index", 0, 1000, 99) \/ Rows(PlaylistEntries, 11, 40000) \/ SetRow(255, 1, 555) \/ SetRow(257, 2, 555) \/ SetPage(256, 7)
    \/ /\ Len(hist) = 2
       /\ Flush(FALSE) \/ LoadPage(257)
LargeNext ==
    \/ Open(FALSE) \/ Open(TRUE)
    \/ /\ Len(hist) = 1
       /\ \/ \E p \in {127, 128, 200, 255, 256, 257, 299, 300, 512} : LoadPage(p)
          \/ \E by \in {<<"index", 0>>, <<"type", MenuType>>}, k \in {5, 6, 1000} : Pages(by[1], by[2], k, 99)
          \/ \E m \in {0, 9, 10, 11, 12} : Rows(PlaylistEntries, m, 40000)
          \/ \E m \in {0, 1, 6} : Rows(MenuType, m, 77)
          \/ \E p \in {1, 255, 257, 298} : SetRow(p, 2, 555)
    \/ /\ Len(hist) = 2
       /\ Flush(FALSE) \/ Rows(PlaylistEntries, 0, 0) \/ Pages("index", 1, 1000, -1) \/ LoadPage(257)

(* walk: one long random history on one random database (for TLC's simulation). Every random value is bound
   by a quantifier over a singleton, so that it is drawn once. *)
Some(S) == {RandomElement(S)}
OneIn(n) == RandomElement(1..n) = 1
Slots(type) == IF type = PlaylistEntries THEN 15 ELSE 20
WalkTypes == {PlaylistEntries, MenuType}
\* orders of n slots: ascending, descending, rotated by r, odd ones first
Order(o, n, r, i) == CASE o = 1 -> i - 1 [] o = 2 -> n - i [] o = 3 -> (i + r) % n
                       [] OTHER -> IF 2 * i - 1 <= n THEN 2 * i - 2 ELSE 2 * (i - CeilDiv(n, 2)) - 1
RandomRows(p, type, next) ==
    UNION {UNION {{DataPage(p, type, next, [i \in 1..n |-> RowLen(type) * Order(o, n, r, i)], pr, Auto(type, n)) :
                      o \in Some(1..4), r \in Some(0..20), pr \in {{i \in 1..n : ~OneIn(d)}}} : d \in Some({1, 2, 4, 1000})} :
              n \in Some({0, 1, 2, 3, Slots(type) - 1, Slots(type)} \cup (0..Slots(type)))}
RandomPage(p, type, next) == UNION {
    IF k = 1 THEN {[IndexPage(p, type, next) EXCEPT !.flags = f] : f \in Some({100, 68, 64, 255})} ELSE IF k = 3 THEN {[q EXCEPT !.flags = f] : q \in RandomRows(p, type, next), f \in Some({0, 4, 52, 52, 128, 191})} ELSE IF k = 2 THEN {[q EXCEPT !.idx = i] : q \in RandomRows(p, type, next), i \in Some({0, 1, 2, 3, 77})}
    ELSE RandomRows(p, type, next) : k \in Some(1..8)}
\* own[p]: the table of page p (3: of none); brk: the page whose link and type is changed
RandomFiles(np, own, brk) ==
    LET chain(t) == Sorted({p \in 1..np : own[p] = t})
        after(p) == {q \in p + 1..np : own[q] = own[p]}
        type(p) == CASE own[p] = 1 -> PlaylistEntries [] own[p] = 2 -> MenuType [] OTHER -> RandomElement(WalkTypes)
        next(p) == IF p = brk THEN RandomElement(0..(np + 2)) ELSE IF after(p) = {} THEN RandomElement({0, np + 1, Big}) ELSE First(after(p))
        tabs(t) == IF chain(t) = <<>> THEN <<>>
                   ELSE <<Table(IF t = 1 THEN PlaylistEntries ELSE MenuType, Head(chain(t)), IF brk = np + 1 THEN RandomElement(1..np) ELSE chain(t)[Len(chain(t))])>>
    IN {File(Header(nu, ts), pages) : nu \in Some({np + 1} \cup (IF OneIn(6) THEN {np, np + 2} ELSE {})),
           ts \in {IF OneIn(2) THEN tabs(1) \o tabs(2) ELSE tabs(2) \o tabs(1) \o tabs(1)},
           pages \in {[p \in 1..np |-> RandomElement(RandomPage(p, type(p), next(p)))]}}
Create == \E np \in Some(1..7) : \E own \in Some([1..np -> {1, 1, 2, 2, 3}]), brk \in Some(0..(3 * np)) : \E f \in RandomFiles(np, own, brk) :
    /\ disk' = f /\ base' = f /\ mode' = "closed" /\ UNCHANGED <<hdr, cache, fault, torn, hist>>
WalkStepOn(p) == LET pg == Peek(cache, fault, p) IN
    \E x \in Some(1..20), t \in Some({PlaylistEntries, MenuType, 3}), v \in Some(1..30000), k \in Some({1, 2, 3, 1000}), m \in Some(0..16), n \in Some({-1, 0, 1, 4, 9}), b \in Some(BOOLEAN) :
      CASE x <= 3 -> LoadPage(p)
        [] x \in 4..5 -> Pages("index", m % 4, k, IF b THEN v ELSE -1)
        [] x = 6 -> Pages("type", t, k, IF b THEN v ELSE -1)
        [] x \in 7..9 -> Rows(t, m, v)
        [] x = 10 /\ InDb(p) -> SetPage(p, v)
        [] x \in 11..12 /\ InDb(p) /\ pg.kind = "data" /\ Len(pg.rows) > 0 -> SetRow(p, 1 + (m % Len(pg.rows)), v)
        [] x \in 13..14 /\ InDb(p) /\ pg.kind = "data" /\ pg.type \in WalkTypes ->
             AllocRow(p, IF m = 1 THEN 0 ELSE Max2(0, RowLen(pg.type) + n), IF b /\ n >= 0 THEN RowBytes(pg.type, m, m) ELSE <<>>)
        [] x = 15 -> IF Len(hdr.tables) = 0 THEN SetSequence(v) ELSE IF b THEN \E fv \in Some({<<"seq", v>>, <<"unk", v>>, <<"nu", m>>, <<IF Len(hdr.tables) < 6 THEN "add" ELSE "seq", t>>, <<"cut", 0>>}) : SetHdr(fv[1], fv[2])
                   ELSE \E f \in Some(0..(NPages + 1)), l \in Some(0..(NPages + 1)) : SetTable(m % Len(hdr.tables), f, l)
        [] x = 16 /\ Enabled("fault") /\ fault.kind = "none" /\ Len(hist) < MaxOps - 1 ->
             \E kind \in Some({"r", "w", "all", "s"}), at \in Some({-1, 5, 9, 27}) : SetFault(kind, IF kind \in {"all", "s"} THEN 0 ELSE IF p > NPages THEN 0 ELSE p, IF kind = "r" THEN at ELSE -1, b /\ hdr.nu <= NPages + 1)
        [] x \in 16..17 /\ fault.kind # "none" /\ Len(hist) < MaxOps - 1 -> Heal
        [] x = 18 /\ ~torn /\ (mode = "np" \/ b) -> DropDb
        [] x = 19 /\ mode = "rw" /\ ~(fault.kind \in {"all", "s"} \/ (fault.kind = "w" /\ fault.p \in Dirty)) /\ b -> Flush(TRUE)
        [] OTHER -> IF mode = "rw" THEN Flush(FALSE) ELSE LoadPage(p)
WalkNext ==
    IF mode = "new" THEN Create
    ELSE IF mode = "closed" THEN
         IF fault.kind # "none" /\ OneIn(2) /\ Len(hist) < MaxOps - 1 THEN Heal ELSE \E np \in Some(BOOLEAN) : Open(np /\ OneIn(3))
    ELSE \E p \in Some(0..(NPages + 2)) : WalkStepOn(p)
Next == CASE Family = "walk" -> WalkNext [] Family = "allocbig" -> AllocBigNext [] Family = "large" -> IF Store = "stretch" THEN FarNext ELSE LargeNext [] Family = "chain" -> ChainNext [] Family = "hist" -> HistNext [] Family = "fault" -> FaultNext [] Family = "retry" -> RetryNext [] Family = "rows" -> RowsNext [] Family = "alloc" -> AllocNext
Spec == Init /\ [][Next]_vars
=============================================================================
