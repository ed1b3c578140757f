------------------------------- MODULE GenConc -------------------------------
(***************************************************************************)
(* Programs of concurrent calls for C15 and C16.  A fixed beginning makes  *)
(* two vaults with records, sets and refs; every thread has refs and sets  *)
(* of its own (these objects are not shared), the vaults and the records   *)
(* belong to all.                                                          *)
(*   KIND=pairs: one unit of thread 1 with one unit of thread 2            *)
(*   KIND=rand:  NPROG programs of 2 or 3 threads with up to 3 units each  *)
(* A unit is a sequence of calls that is possible at any time.             *)
(* Key I is unique, never written or removed by itself: it names records.  *)
(***************************************************************************)
EXTENDS MVault, Json, IOUtils

MaxVals == [int |-> 9, str |-> 7, dbl |-> 3, bool |-> 1, u64 |-> 3, cus |-> 5]
Kind == IOEnv.KIND
Seed == atoi(IOEnv.SEED)
NProg == atoi(IOEnv.NPROG)

P(k, t, n) == [k |-> k, t |-> t, n |-> n]
V(o, v) == [o |-> o, v |-> v]
VW(o, v, w) == [o |-> o, v |-> v, w |-> w]
HasV(n) == <<"v", n>>
HasS(n) == <<"s", n>>
Rec(v, r, i, k, u) == [o |-> "Create", v |-> v, r |-> r, ps |-> <<P("I", "int", i), P("K", "int", k), P("U", "cus", u)>>]
NewSet(s) == [o |-> "SNew", s |-> s]
Query(h, kind, k, t, n, s) == [o |-> "Req", h |-> h, kind |-> kind, k |-> k, t |-> t, n |-> n, n2 |-> 9, ib |-> TRUE, ie |-> TRUE, amt |-> -1, pr |-> <<>>, s |-> s, kr |-> 0]
Keyed(v) == <<[o |-> "AddUKey", v |-> v, k |-> "I", t |-> "int"], [o |-> "AddKey", v |-> v, k |-> "K", t |-> "int", n |-> 0],
              [o |-> "AddUKey", v |-> v, k |-> "U", t |-> "cus"], [o |-> "AddKey", v |-> v, k |-> "S", t |-> "str", n |-> 1]>>
Find(r, v, i) == [o |-> "GetRec", h |-> HasV(v), k |-> "I", t |-> "int", n |-> i, r |-> r]
\* the sets and refs of a thread
Sets(t) == IF t = 1 THEN <<1, 2, 5>> ELSE IF t = 2 THEN <<3, 4, 6>> ELSE <<>>
Refs(t) == <<2 * t - 1, 2 * t>>
Start ==
  <<V("VNew", 1)>> \o Keyed(1) \o <<V("VNew", 2)>> \o Keyed(2)
  \o <<Rec(1, 0, 1, 1, 0), Rec(1, 0, 2, 1, 1), Rec(1, 0, 3, 2, 2), Rec(2, 0, 4, 1, 0), Rec(2, 0, 5, 3, 3)>>
  \o [s \in 1..6 |-> NewSet(s)]
  \o <<Query(HasV(1), "Ge", "I", "int", 0, 1), Query(HasV(1), "Le", "I", "int", 2, 2), Query(HasV(1), "Ge", "I", "int", 0, 3), Query(HasV(1), "Ge", "I", "int", 2, 4)>>
  \o <<Find(1, 1, 1), Find(2, 1, 2), Find(3, 1, 1), Find(4, 1, 3), Find(5, 1, 2), Find(6, 2, 4)>>

(********************************* units *********************************)
Do(op) == <<op>>
SetD(r, k, t, n) == [o |-> "SetData", r |-> r, k |-> k, t |-> t, n |-> n]
WithCb(op, cb) == [x \in (DOMAIN op) \cup {"cb"} |-> IF x = "cb" THEN cb ELSE op[x]]
RefOp(o, r) == [o |-> o, r |-> r]
HOp(o, h) == [o |-> o, h |-> h]
HK(o, h, k) == [o |-> o, h |-> h, k |-> k]
Sorted(h, k, rev, amt) == [o |-> "Sorted", h |-> h, k |-> k, rev |-> rev, amt |-> amt]
SortBy(h, k, rev, stop) == [o |-> "SortBy", h |-> h, k |-> k, rev |-> rev, amt |-> -1, stop |-> stop]
GetRecsOf(h, k, t, n) == [o |-> "GetRecs", h |-> h, k |-> k, t |-> t, n |-> n, amt |-> -1]
Tree(k1, n1, k2, n2) == [x |-> "o", l |-> [x |-> "l", kind |-> "Eq", k |-> k1, t |-> "int", n |-> n1, pr |-> <<>>],
                                    r |-> [x |-> "l", kind |-> "Gt", k |-> k2, t |-> "int", n |-> n2, pr |-> <<>>]]
SS(o, s, q) == [o |-> o, s |-> s, q |-> q]

Imp(v, mode, names, rows) == [o |-> "Import", v |-> v, mode |-> mode, cols |-> [i \in DOMAIN names |-> [k |-> names[i], t |-> CASE names[i] \in {"I", "K", "W"} -> "int" [] names[i] = "U" -> "cus" [] OTHER -> "str"]],
                              rows |-> rows]
\* reads through a ref r and of the host h
RefReads(r) == {Do(x) : x \in {[o |-> "GetData", r |-> r, k |-> "K", t |-> "int"], [o |-> "GetData", r |-> r, k |-> "U", t |-> "cus"],
                               [o |-> "GetData", r |-> r, k |-> "S", t |-> "int"], [o |-> "RefStr", r |-> r, k |-> "S"], [o |-> "RefIsKey", r |-> r, k |-> "K"]}
                              \cup {RefOp(o, r) : o \in {"RefValid", "RefKeys", "RefStrs", "RefJson", "RefPrint"}}}
HostReads(h, r) == {Do(x) : x \in {HOp("Size", h), HOp("Keys", h), HOp("UKeys", h), HOp("Strs", h), HOp("Json", h), HOp("PrintV", h),
                                   [o |-> "Save", h |-> h, hdr |-> TRUE, cols |-> <<>>],
                                   HK("IsKey", h, "K"), HK("KeyType", h, "K"), [o |-> "GetKeyValue", h |-> h, k |-> "K", t |-> "int"],
                                   GetRecsOf(h, "K", "int", 1), GetRecsOf(h, "U", "cus", 2), Sorted(h, "K", FALSE, -1), Sorted(h, "U", TRUE, 2),
                                   SortBy(h, "K", TRUE, 0), SortBy(h, "U", FALSE, 1)}}
\* calls out of user callbacks
Callbacks(h, r, s) == {Do(WithCb(SortBy(h, "K", FALSE, 0), <<HOp("Size", h), [o |-> "GetData", r |-> r, k |-> "K", t |-> "int"]>>)),
                       Do(WithCb(Query(h, "Ge", "K", "int", 1, s), <<Sorted(h, "K", FALSE, -1), RefOp("RefStrs", r)>>))}
\* look-ups that write the refs and sets of the thread
Finds(h, r, s) == {Do(x) : x \in {[o |-> "GetRec", h |-> h, k |-> "K", t |-> "int", n |-> 1, r |-> r], [o |-> "GetRec", h |-> h, k |-> "U", t |-> "cus", n |-> 2, r |-> r],
                                  Query(h, "Gt", "K", "int", 0, s), Query(h, "Eq", "U", "cus", 1, s), Query(h, "In", "I", "int", 2, s),
                                  [o |-> "ReqX", h |-> h, tree |-> Tree("K", 1, "I", 2), s |-> s]}}
\* changes of data
Data(t, r, q) ==
  {Do(x) : x \in {SetD(r, "K", "int", 4 + t), SetD(q, "U", "cus", 3), SetD(r, "S", "str", 1 + t), SetD(r, "W", "int", 1),
                  [o |-> "SetDataV", r |-> q, ps |-> <<P("K", "int", 6), P("U", "cus", 3), P("S", "str", 5)>>],
                  [o |-> "Create", v |-> 1, r |-> 0, ps |-> <<P("I", "int", 5 + t), P("U", "cus", 3), P("K", "int", 1)>>],
                  [o |-> "Create", v |-> 1, r |-> r, ps |-> <<P("I", "int", 5 + t), P("U", "cus", 4 + (t % 2)), P("K", "int", 2)>>],
                  [o |-> "Create", v |-> 2, r |-> q, ps |-> <<P("I", "int", 5 + t), P("U", "cus", 4 + (t % 2))>>],
                  [o |-> "EraseRef", v |-> 1, r |-> r], [o |-> "EraseRef", v |-> 1, r |-> q],
                  [o |-> "EraseKV", v |-> 1, k |-> "K", t |-> "int", n |-> 1, amt |-> 1],
                  [o |-> "EraseMany", v |-> 1, k |-> "K", t |-> "int", n |-> 1, amt |-> -1],
                  [o |-> "EraseMany", v |-> 1, k |-> "U", t |-> "cus", n |-> 1, amt |-> -1],
                  Imp(1, "hdr", <<"I", "U", "K">>, <<<<5 + t, 3, 1>>, <<1, 4, 2>>, <<7 + (t % 2), 4 + (t % 2), 2>>>>),
                  Imp(1, "user", <<"I", "U", "S">>, <<<<5 + t, 3, 2>>, <<7, -1>>>>),
                  Imp(2, "handler", <<"U", "I", "W">>, <<<<3, 5 + t>>, <<4, 7, 1>>>>),
                  V("DropData", 1)}}
Schema(t) ==
  {Do(x) : x \in {[o |-> "AddKey", v |-> 1, k |-> "N", t |-> "dbl", n |-> t], [o |-> "AddKey", v |-> 1, k |-> "W", t |-> "int", n |-> 3],
                  [o |-> "AddUKey", v |-> 1, k |-> "W", t |-> "int"], [o |-> "AddUKeyF", v |-> 1, k |-> "W", t |-> "int", vals |-> <<1, 2, 3, 4, 5, 6>>],
                  [o |-> "AddUKeyF", v |-> 1, k |-> "W", t |-> "int", vals |-> <<1, 2, 1>>],
                  [o |-> "UpdKey", v |-> 1, k |-> "K", t |-> "int", n |-> 5 + t], [o |-> "UpdKey", v |-> 1, k |-> "S", t |-> "str", n |-> 4],
                  [o |-> "RemKey", v |-> 1, k |-> "K"], [o |-> "RemKey", v |-> 1, k |-> "U"], [o |-> "RemKey", v |-> 1, k |-> "S"]}}
  \cup {Do(WithCb([o |-> "AddUKeyF", v |-> 1, k |-> "W", t |-> "int", vals |-> <<1, 2, 3, 4, 5, 6>>], <<HOp("Keys", HasV(1))>>))}
Lives(t) ==
  {Do(x) : x \in {V("DropVault", 1), V("DropVault", 2), VW("VCopyA", 1, 2), VW("VCopyA", 2, 1), VW("VMoveA", 1, 2), VW("VMoveA", 2, 1), VW("VCopyA", 1, 1)}}
  \cup (IF t = 1 THEN {Do(VW("VCopyC", 3, 1)), Do(VW("VMoveC", 3, 1)), <<VW("VMoveC", 3, 1), VW("VMoveA", 1, 3)>>} ELSE {})
\* the sets s, q, w of the thread; s and q belong to vault 1
SetWork(s, q, w, r) ==
  {Do(x) : x \in {[o |-> "SAdd", s |-> q, r |-> r], [o |-> "SRem", s |-> s, r |-> r], [o |-> "SCheck", s |-> s, r |-> r],
                  [o |-> "SRemKV", s |-> s, k |-> "K", t |-> "int", n |-> 1, amt |-> 1], [o |-> "SRemMany", s |-> s, k |-> "K", t |-> "int", n |-> 1, amt |-> -1],
                  [o |-> "SParent", s |-> s], SS("SCopyA", w, s), SS("SCopyA", s, w), SS("SCopyA", s, q), SS("SMoveA", w, s), SS("SMoveA", s, w), SS("SMoveA", s, q), SS("SEq", s, q)}
                 \cup {[o |-> "SAlg", f |-> f, s |-> s, q |-> q] : f \in {"Join", "Exclude", "Intersect"}}
                 \cup {[o |-> "SAlgF", f |-> f, s |-> s, q |-> q, w |-> w] : f \in {"Union", "Intersection"}}
                 \cup {[o |-> o, s |-> s] : o \in {"SClear", "SReset"}}}
  \cup {<<[o |-> "SDel", s |-> q], SS("SCopyC", q, s)>>, <<[o |-> "SDel", s |-> q], SS("SMoveC", q, s)>>,
        <<Query(HasV(1), "Ge", "K", "int", 1, w), HOp("Size", HasS(w))>>}
RefWork(r, q) == {Do(x) : x \in {SS("RefCopy", r, q), RefOp("RefReset", r), SS("RefMove", r, q), SS("RefEq", r, q)}}
FixRef(u) == [i \in DOMAIN u |-> IF u[i].o \in {"RefCopy", "RefMove", "RefEq"} THEN [o |-> u[i].o, r |-> u[i].s, q |-> u[i].q] ELSE u[i]]

Readers(t) ==
  {Do(V("Errs", 1))} \cup
  LET r == Refs(t)[1] q == Refs(t)[2] IN
  RefReads(r) \cup HostReads(HasV(1), r) \cup {FixRef(u) : u \in RefWork(r, q)}
  \cup (IF Sets(t) = <<>> THEN {}
        ELSE LET s == Sets(t)[1]  p == Sets(t)[2]  w == Sets(t)[3] IN
             HostReads(HasS(s), r) \cup Callbacks(HasV(1), r, w) \cup Callbacks(HasS(s), r, w)
             \cup Finds(HasV(1), q, w) \cup Finds(HasS(s), q, p) \cup Finds(HasV(2), q, s) \cup SetWork(s, p, w, r))
Writers(t) == LET r == Refs(t)[1] q == Refs(t)[2] IN Data(t, r, q) \cup Schema(t) \cup Lives(t)
Units(t) == Readers(t) \cup Writers(t)

(******************************** programs ********************************)
RECURSIVE Cat(_, _)
Cat(us, i) == IF i > Len(us) THEN <<>> ELSE us[i] \o Cat(us, i + 1)
\* every call is possible: a thread makes and destroys only objects of its own
RECURSIVE PreOn(_, _, _)
PreOn(on, ops, i) ==          \* on: sets (n) and vaults (10 + n) that exist
  i > Len(ops) \/
  LET op == ops[i]
      needs == (IF op.o \in {"SCopyC", "SMoveC"} THEN {op.q} ELSE IF "s" \in DOMAIN op THEN {op.s} ELSE {})
               \cup (IF "q" \in DOMAIN op /\ op.o \in {"SCopyA", "SMoveA", "SEq", "SAlg", "SAlgF"} THEN {op.q} ELSE {})
               \cup (IF op.o = "SAlgF" THEN {op.w} ELSE {})
               \cup (IF op.o \in {"VCopyC", "VMoveC"} THEN {10 + op.w} ELSE IF op.o \in {"VCopyA", "VMoveA"} THEN {10 + op.v, 10 + op.w} ELSE {})
               \cup (IF "h" \in DOMAIN op THEN {IF op.h[1] = "s" THEN op.h[2] ELSE 10 + op.h[2]} ELSE {})
      makes == IF op.o \in {"SCopyC", "SMoveC"} THEN {op.s} ELSE IF op.o \in {"VCopyC", "VMoveC"} THEN {10 + op.v} ELSE {}
  IN needs \subseteq on /\ makes \cap on = {} /\ PreOn((on \cup makes) \ (IF op.o = "SDel" THEN {op.s} ELSE {}), ops, i + 1)
Possible(ops) == PreOn((1..6) \cup {11, 12}, ops, 1)

W0(i) == <<1 + ((Seed * 7919 + i * 104729) % 30000), 1 + ((i * 1009 + Seed * 31) % 30000), 1 + ((Seed * 257 + i * 65537) % 30000)>>
WNext(w) == <<(171 * w[1]) % 30269, (172 * w[2]) % 30307, (170 * w[3]) % 30323>>
RECURSIVE Fill(_, _, _)
Fill(w, k, acc) == IF k = 0 THEN [w |-> w, x |-> acc]
                   ELSE LET u == WNext(w) IN Fill(u, k - 1, Append(acc, (u[1] + 3 * u[2] + 5 * u[3]) \div 4))
RSeq(t) == SetToSeq(Readers(t))
WSeq(t) == SetToSeq(Writers(t))
Picked(q, x) == q[1 + (x % Len(q))]

VARIABLES prog, rq, wq
ThreadOf(x, t, len) ==      \* len units, every other one a writer on average
  Cat([i \in 1..len |-> IF x[10 * t + 2 * i] % 5 < 2 THEN Picked(rq[t], x[10 * t + 2 * i + 1]) ELSE Picked(wq[t], x[10 * t + 2 * i + 1])], 1)
RandProg(i) ==
  LET x == Fill(Fill(W0(i), 20, <<>>).w, 50, <<>>).x
      nt == IF x[1] % 3 = 0 THEN 3 ELSE 2
      len == IF nt = 3 THEN 1 + (x[2] % 2) ELSE 2 + (x[2] % 2)
  IN [t \in 1..nt |-> ThreadOf(x, t, len)]
Show(p) == PrintT("PROG " \o ToJson(p))
Init == /\ rq = [t \in 1..3 |-> RSeq(t)] /\ wq = [t \in 1..3 |-> WSeq(t)]
        /\ PrintT("INIT " \o ToJson(Start))
        /\ prog \in IF Kind = "pairs" THEN ((Units(1) \X Units(2)) \ (Readers(1) \X Readers(2)))
                    ELSE {p \in {RandProg(i) : i \in 1..NProg} : \A t \in DOMAIN p : Possible(p[t])}
        /\ Show(prog)
Spec == Init /\ [][FALSE]_<<prog, rq, wq>>
=============================================================================
