------------------------------ MODULE MCMVault ------------------------------
(***************************************************************************)
(* Exhaustive exploration of MVault with small bounds.                     *)
(*  - every reachable state satisfies the invariants and every transition  *)
(*    satisfies the frame conditions below (the properties, stated on      *)
(*    their own terms and not as the definitions of the calls);            *)
(*  - with EMIT=1 the explored graph is printed as scripts of calls:       *)
(*    for every state one script that makes, after a shortest path to it,  *)
(*    all calls that leave the state as it is, and for every transition    *)
(*    to another state one script.  Replaying them in the real code covers *)
(*    every state and every transition of the bounded graph.               *)
(* FAMILY chooses the calls, the objects and the bounds.                   *)
(***************************************************************************)
EXTENDS MVault, Json, IOUtils

Fam == IOEnv.FAMILY
Emit == IOEnv.EMIT = "1"
DepthMax == atoi(IOEnv.DEPTH)

VARIABLES st, hist
vars == <<st, hist>>

MaxVals == [int |-> 9, str |-> 7, dbl |-> 3, bool |-> 1, u64 |-> 3, cus |-> 5]

N0(o, v) == [o |-> o, v |-> v]
AK(v, k, t, n) == [o |-> "AddKey", v |-> v, k |-> k, t |-> t, n |-> n]
AU(v, k, t) == [o |-> "AddUKey", v |-> v, k |-> k, t |-> t]
P(k, t, n) == [k |-> k, t |-> t, n |-> n]
CR(v, r, ps) == [o |-> "Create", v |-> v, r |-> r, ps |-> ps]
RQ(h, kind, k, t, n, n2, amt, s) == [o |-> "Req", h |-> h, kind |-> kind, k |-> k, t |-> t, n |-> n, n2 |-> n2, ib |-> TRUE, ie |-> FALSE,
                                     amt |-> amt, pr |-> <<>>, s |-> s, kr |-> 0]
Leaf(kind, k, t, n) == [x |-> "l", kind |-> kind, k |-> k, t |-> t, n |-> n, pr |-> <<>>]
Two(x, l, r) == [x |-> x, l |-> l, r |-> r]

Setup ==
  CASE Fam = "schema" -> <<N0("VNew", 1), [o |-> "SNew", s |-> 1], [o |-> "ReqX", h |-> <<"v", 1>>, tree |-> Leaf("Ge", "A", "int", 0), s |-> 1]>>
    [] Fam = "uniq"   -> <<N0("VNew", 1), AU(1, "A", "int"), AK(1, "B", "str", 0)>>
    [] Fam = "data"   -> <<N0("VNew", 1), AK(1, "A", "int", 0), AK(1, "B", "cus", 1)>>
    [] Fam = "sets"   -> <<N0("VNew", 1), AK(1, "A", "int", 0), CR(1, 1, <<P("A", "int", 0)>>), CR(1, 2, <<P("A", "int", 1)>>), [o |-> "SNew", s |-> 1], [o |-> "SNew", s |-> 2]>>
    [] Fam = "alg"    -> <<N0("VNew", 1), AK(1, "A", "int", 0), CR(1, 1, <<P("A", "int", 0)>>), CR(1, 2, <<P("A", "int", 1)>>), CR(1, 0, <<P("A", "int", 2)>>),
                          [o |-> "SNew", s |-> 1], [o |-> "SNew", s |-> 2], [o |-> "SNew", s |-> 3]>>
    [] Fam = "life"   -> <<N0("VNew", 1), AK(1, "A", "cus", 0), CR(1, 1, <<>>), [o |-> "SNew", s |-> 1], RQ(<<"v", 1>>, "Ge", "A", "cus", 0, 0, -1, 1)>>
    [] Fam = "copy"   -> <<N0("VNew", 1), AK(1, "A", "int", 1), AU(1, "B", "str"), CR(1, 1, <<P("B", "str", 1)>>), [o |-> "SNew", s |-> 1], RQ(<<"v", 1>>, "Ge", "A", "int", 0, 0, -1, 1)>>
    [] Fam = "refs"   -> <<N0("VNew", 1), AK(1, "A", "int", 0), CR(1, 1, <<P("A", "int", 1)>>)>>

VS == IF Fam \in {"life", "copy"} THEN {1, 2} ELSE {1}
SS == IF Fam \in {"sets", "life"} THEN {1, 2} ELSE IF Fam = "alg" THEN {1, 2, 3} ELSE IF Fam \in {"schema", "copy"} THEN {1} ELSE {}
RS == IF Fam = "refs" THEN {1, 2, 3} ELSE {1, 2}
MaxRec == IF Fam \in {"alg", "data", "uniq", "refs"} THEN 3 ELSE 2
Hosts == {<<"v", v>> : v \in VS} \cup {<<"s", s>> : s \in SS}

\* calls on existing objects of every family
DataOps ==
  UNION {{CR(1, r, ps) : r \in {0, 1}, ps \in {<<>>, <<P("A", "int", 0)>>, <<P("A", "int", 1), P("B", "cus", 2)>>, <<P("A", "int", 2), P("B", "int", 0)>>, <<P("Z", "int", 0)>>}},
         {[o |-> "SetData", r |-> r, k |-> "A", t |-> "int", n |-> n] : r \in RS, n \in 0..2},
         {[o |-> "SetDataV", r |-> 1, ps |-> ps] : ps \in {<<>>, <<P("A", "int", 2), P("B", "cus", 0)>>, <<P("A", "int", 1), P("B", "str", 0)>>, <<P("Z", "int", 1), P("A", "int", 0)>>}},
         {[o |-> "EraseRef", v |-> 1, r |-> r] : r \in RS},
         {[o |-> "EraseKV", v |-> 1, k |-> "A", t |-> "int", n |-> n] : n \in 0..2},
         {[o |-> "EraseMany", v |-> 1, k |-> "A", t |-> "int", n |-> n, amt |-> a] : n \in 0..1, a \in {-1, 0, 1, 2}},
         {[o |-> "GetRec", h |-> <<"v", 1>>, k |-> "A", t |-> "int", n |-> n, r |-> r] : n \in 0..2, r \in {2}},
         {[o |-> "GetRecs", h |-> <<"v", 1>>, k |-> "A", t |-> "int", n |-> n, amt |-> a] : n \in 0..1, a \in {-1, 0, 1}},
         {[o |-> "GetRecs", h |-> <<"v", 1>>, k |-> "A", t |-> "cus", n |-> 0, amt |-> -1], [o |-> "GetRec", h |-> <<"v", 1>>, k |-> "Z", t |-> "int", n |-> 0, r |-> 2]},
         {[o |-> "Sorted", h |-> <<"v", 1>>, k |-> k, rev |-> b, amt |-> a] : k \in {"A", "Z"}, b \in BOOLEAN, a \in {-1, 0, 1}},
         {[o |-> "SortBy", h |-> <<"v", 1>>, k |-> "A", rev |-> b, amt |-> a, stop |-> s] : b \in BOOLEAN, a \in {-1, 2}, s \in {0, 1}},
         {[o |-> "DropData", v |-> 1], [o |-> "GetData", r |-> 1, k |-> "A", t |-> "int"], [o |-> "GetData", r |-> 1, k |-> "A", t |-> "str"]}}

UniqOps ==
  UNION {{CR(1, r, ps) : r \in {0, 1}, ps \in {<<>>, <<P("A", "int", 0)>>, <<P("A", "int", 2)>>, <<P("A", "int", 3), P("B", "str", 2)>>, <<P("A", "int", 2), P("B", "int", 0)>>}},
         {[o |-> "SetData", r |-> r, k |-> "A", t |-> "int", n |-> n] : r \in RS, n \in {0, 1, 2}},
         {[o |-> "SetDataV", r |-> 1, ps |-> ps] : ps \in {<<P("B", "str", 1), P("A", "int", 2)>>, <<P("A", "int", 3), P("A", "int", 0)>>}},
         {[o |-> "EraseRef", v |-> 1, r |-> r] : r \in RS},
         {[o |-> "EraseKV", v |-> 1, k |-> "A", t |-> "int", n |-> n] : n \in {0, 2}},
         {[o |-> "GetRec", h |-> <<"v", 1>>, k |-> "A", t |-> "int", n |-> n, r |-> 2] : n \in {0, 1, 2}},
         {[o |-> "AddUKeyF", v |-> 1, k |-> k, t |-> "bool", vals |-> vs] : k \in {"A", "C"}, vs \in {<<0>>, <<0, 1>>}},
         {AU(1, "A", "int"), AU(1, "C", "bool"), [o |-> "RemKey", v |-> 1, k |-> "A"], [o |-> "RemKey", v |-> 1, k |-> "C"], [o |-> "UpdKey", v |-> 1, k |-> "A", t |-> "int", n |-> 3],
          [o |-> "DropData", v |-> 1], [o |-> "GetKeyValue", h |-> <<"v", 1>>, k |-> "A", t |-> "int"]}}

SchemaOps ==
  UNION {{AK(1, k, t, n) : k \in {"A", "B"}, t \in {"int", "str"}, n \in {0, 2}},
         {AU(1, k, t) : k \in {"A", "B"}, t \in {"int"}},
         {[o |-> "AddUKeyF", v |-> 1, k |-> k, t |-> "int", vals |-> vs] : k \in {"A", "B"}, vs \in {<<3>>, <<3, 1, 2>>}},
         {[o |-> "UpdKey", v |-> 1, k |-> k, t |-> t, n |-> n] : k \in {"A", "B"}, t \in {"int", "str"}, n \in {1}},
         {[o |-> "RemKey", v |-> 1, k |-> k] : k \in {"A", "B"}},
         {[o |-> "GetKeyValue", h |-> h, k |-> k, t |-> t] : h \in Hosts, k \in {"A", "B"}, t \in {"int", "str"}},
         {CR(1, 1, ps) : ps \in {<<>>, <<P("A", "int", 2)>>, <<P("B", "str", 3)>>}},
         {[o |-> "EraseRef", v |-> 1, r |-> 1], [o |-> "DropData", v |-> 1], [o |-> "DropVault", v |-> 1]},
         {RQ(<<"v", 1>>, "Ge", "A", t, 0, 0, -1, 1) : t \in {"int", "str"}},
         {[o |-> "SetData", r |-> 1, k |-> "A", t |-> "int", n |-> 1], [o |-> "SReset", s |-> 1]}}

SetOps ==
  UNION {{RQ(h, kd, "A", "int", 1, 2, a, s) : h \in {<<"v", 1>>, <<"s", 1>>}, kd \in {"Eq", "Lt", "In"}, a \in {-1, 1}, s \in SS},
         {[o |-> "SAdd", s |-> s, r |-> r] : s \in {1}, r \in RS}, {[o |-> "SRem", s |-> s, r |-> r] : s \in {1}, r \in RS}, {[o |-> "SCheck", s |-> 1, r |-> r] : r \in RS},
         {[o |-> "SRemKV", s |-> s, k |-> "A", t |-> "int", n |-> 1] : s \in SS}, {[o |-> "SRemMany", s |-> 1, k |-> "A", t |-> "int", n |-> 0, amt |-> a] : a \in {-1, 1}},
         {[o |-> "SClear", s |-> s] : s \in SS}, {[o |-> "SReset", s |-> s] : s \in SS},
         {[o |-> "GetRec", h |-> <<"s", 1>>, k |-> "A", t |-> "int", n |-> n, r |-> 1] : n \in 0..1},
         {[o |-> "Sorted", h |-> <<"s", 1>>, k |-> "A", rev |-> b, amt |-> -1] : b \in BOOLEAN},
         {[o |-> "SCopyA", s |-> 2, q |-> 1], [o |-> "SMoveA", s |-> 1, q |-> 2], [o |-> "SAlg", f |-> "Join", s |-> 1, q |-> 2], [o |-> "SAlg", f |-> "Exclude", s |-> 1, q |-> 2],
          [o |-> "SetData", r |-> 1, k |-> "A", t |-> "int", n |-> 1], [o |-> "EraseRef", v |-> 1, r |-> 1], [o |-> "EraseKV", v |-> 1, k |-> "A", t |-> "int", n |-> 1],
          CR(1, 2, <<P("A", "int", 1)>>), [o |-> "DropData", v |-> 1], AK(1, "B", "str", 1), [o |-> "RemKey", v |-> 1, k |-> "A"]}}

AlgOps ==
  UNION {{[o |-> "SAlg", f |-> f, s |-> s, q |-> q] : f \in {"Join", "Exclude", "Intersect"}, s \in {1, 2}, q \in SS},
         {[o |-> "SAlgF", f |-> f, s |-> s, q |-> q, w |-> w] : f \in {"Union", "Intersection"}, s \in {1, 2}, q \in {1, 2}, w \in {1, 3}},
         {[o |-> "SEq", s |-> s, q |-> q] : s \in SS, q \in SS},
         {RQ(<<"v", 1>>, kd, "A", "int", 1, 2, -1, s) : kd \in {"Eq", "Ge", "Lt"}, s \in {1, 2}},
         {[o |-> "SReset", s |-> 1], [o |-> "SClear", s |-> 2], [o |-> "SAdd", s |-> 1, r |-> 1], [o |-> "SRem", s |-> 2, r |-> 2], [o |-> "SetData", r |-> 1, k |-> "A", t |-> "int", n |-> 2]}}

LifeOps ==
  UNION {{N0("VNew", v) : v \in VS}, {N0("VDel", v) : v \in VS}, {N0("DropVault", v) : v \in VS}, {N0("DropData", v) : v \in VS},
         {[o |-> o, v |-> v, w |-> 3 - v] : o \in {"VCopyC", "VMoveC", "VCopyA", "VMoveA"}, v \in VS},
         {[o |-> o, s |-> s] : o \in {"SNew", "SDel", "SReset"}, s \in SS},
         {[o |-> o, s |-> s, q |-> 3 - s] : o \in {"SCopyC", "SMoveC", "SCopyA", "SMoveA"}, s \in SS},
         {AK(v, "A", "cus", 1) : v \in VS}, {CR(v, 1, <<>>) : v \in VS},
         {RQ(h, "Ge", "A", "cus", 0, 0, -1, 1) : h \in Hosts},
         {[o |-> "RefReset", r |-> 1], [o |-> "RefMove", r |-> 2, q |-> 1], [o |-> "GetRec", h |-> <<"s", 1>>, k |-> "A", t |-> "cus", n |-> 0, r |-> 2],
          [o |-> "SetData", r |-> 1, k |-> "A", t |-> "cus", n |-> 2], [o |-> "EraseRef", v |-> 1, r |-> 1], [o |-> "SAlgF", f |-> "Union", s |-> 1, q |-> 2, w |-> 1]}}

CopyOps ==
  UNION {{N0("VNew", 2), N0("VDel", 1), N0("VDel", 2), N0("DropVault", 1)},
         {[o |-> o, v |-> v, w |-> w] : o \in {"VCopyC", "VMoveC", "VCopyA", "VMoveA"}, v \in VS, w \in VS},
         {CR(v, r, <<P("B", "str", n)>>) : v \in VS, r \in {2}, n \in {0, 1}},
         {[o |-> "SetData", r |-> r, k |-> "A", t |-> "int", n |-> 2] : r \in RS}, {[o |-> "SetData", r |-> r, k |-> "B", t |-> "str", n |-> 2] : r \in RS},
         {[o |-> "EraseRef", v |-> v, r |-> 1] : v \in VS}, {[o |-> "EraseKV", v |-> v, k |-> "B", t |-> "str", n |-> 1] : v \in VS},
         {[o |-> "UpdKey", v |-> v, k |-> "A", t |-> "int", n |-> 3] : v \in VS}, {[o |-> "RemKey", v |-> v, k |-> "A"] : v \in VS}, {AK(2, "A", "int", 0)},
         {[o |-> "GetRec", h |-> h, k |-> "B", t |-> "str", n |-> 1, r |-> 2] : h \in Hosts},
         {RQ(<<"v", v>>, "Ge", "B", "str", 0, 0, -1, 1) : v \in VS}, {[o |-> "GetKeyValue", h |-> <<"v", v>>, k |-> "A", t |-> "int"] : v \in VS}}

RefOps ==
  UNION {{[o |-> o, r |-> r, q |-> q] : o \in {"RefCopy", "RefMove", "RefEq"}, r \in RS, q \in RS}, {[o |-> "RefReset", r |-> r] : r \in RS},
         {CR(1, r, <<P("A", "int", 1)>>) : r \in RS}, {[o |-> "EraseRef", v |-> 1, r |-> r] : r \in RS},
         {[o |-> "SetData", r |-> r, k |-> "A", t |-> "int", n |-> n] : r \in RS, n \in {1, 2}}, {[o |-> "GetData", r |-> r, k |-> k, t |-> "int"] : r \in RS, k \in {"A", "Z"}},
         {[o |-> "GetRec", h |-> <<"v", 1>>, k |-> "A", t |-> "int", n |-> n, r |-> r] : n \in {1, 2}, r \in RS},
         {[o |-> "SortRef", h |-> <<"v", 1>>, k |-> "A", rev |-> b, i |-> 1, r |-> 2] : b \in BOOLEAN},
         {[o |-> "DropData", v |-> 1], [o |-> "RemKey", v |-> 1, k |-> "A"], N0("VDel", 1), N0("VNew", 1)}}

Ops == CASE Fam = "data" -> DataOps [] Fam = "uniq" -> UniqOps [] Fam = "schema" -> SchemaOps [] Fam = "sets" -> SetOps
         [] Fam = "alg" -> AlgOps [] Fam = "life" -> LifeOps [] Fam = "copy" -> CopyOps [] Fam = "refs" -> RefOps

(***************************************************************************)
(* What must hold of every transition st --op--> o.st                      *)
(***************************************************************************)
SetCalls == {"SAdd", "SRem", "SCheck", "SRemKV", "SRemMany", "SClear", "SReset", "SNew", "SDel", "SCopyC", "SCopyA", "SMoveC", "SMoveA", "SAlg", "SAlgF", "SEq", "Req", "ReqX"}
RefCalls == {"RefCopy", "RefMove", "RefReset", "RefEq", "GetRec", "SortRef"}
Reads    == {"GetData", "GetKeyValue", "GetRecs", "Sorted", "SortBy", "Print", "SCheck", "SEq", "RefEq", "Nop"}
Two2     == {"VCopyC", "VMoveC", "VCopyA", "VMoveA"}
Targets(op) == CASE op.o = "SAlgF" -> {op.w} [] op.o \in {"SMoveC", "SMoveA"} -> {op.s, op.q} [] op.o \in SetCalls -> {op.s} [] OTHER -> {}

\* C03: a call that fails changes nothing (requests empty and bind their result set, GetRecord resets its ref,
\* SetDataV keeps the parameters before the failing one)
FailFrame(op, s, o) == (~o.ok /\ op.o \notin {"Req", "ReqX", "GetRec", "SetDataV"}) => o.st = s
\* C05, C06, C10: set calls do not change vaults, records, refs or sets that are not their targets
SetFrame(op, s, o) == op.o \in SetCalls => o.st.v = s.v /\ o.st.rec = s.rec /\ (op.o = "Req" \/ o.st.r = s.r)
                                           /\ \A x \in SetSlots \ Targets(op) : o.st.s[x] = s.s[x]
RefFrame(op, s, o) == op.o \in RefCalls => o.st.v = s.v /\ o.st.rec = s.rec /\ o.st.s = s.s
ReadFrame(op, s, o) == op.o \in Reads => o.st = s
\* C05: a record leaves a set only when it is removed from it or ceases to exist
StayFrame(op, s, o) == \A x \in SetSlots \ Targets(op) : s.s[x].m \cap DOMAIN o.st.rec \subseteq o.st.s[x].m
\* C07: a ref changes only by its own calls, or because its record ceased to exist
RefStay(op, s, o) == \A r \in RefSlots : (s.r[r] # o.st.r[r]) => \/ "r" \in DOMAIN op /\ op.r = r
                                                                 \/ op.o = "RefMove" /\ op.q = r
                                                                 \/ op.o = "Req" /\ op.kr = r
                                                                 \/ o.st.r[r] = 0 /\ s.r[r] \notin DOMAIN o.st.rec
\* C08: values of keys that stay are only changed by writes
SchemaFrame(op, s, o) == op.o \in {"AddKey", "AddUKey", "AddUKeyF", "UpdKey", "RemKey"} =>
  /\ DOMAIN o.st.rec = DOMAIN s.rec
  /\ \A i \in DOMAIN s.rec : \A k \in DOMAIN s.rec[i].d \cap DOMAIN o.st.rec[i].d : s.rec[i].d[k] = o.st.rec[i].d[k]
\* C09: calls on one vault leave the others alone; a copy has the records of its source, a move empties it
VaultFrame(op, s, o) ==
  /\ ("v" \in DOMAIN op /\ op.o \notin Two2) => \A w \in VaultSlots \ {op.v} : o.st.v[w] = s.v[w] /\ RecsOf(o.st, w) = RecsOf(s, w)
                                                    /\ \A i \in RecsOf(s, w) : o.st.rec[i] = s.rec[i]
  /\ op.o \in {"VCopyC", "VCopyA"} /\ op.v # op.w =>
       /\ o.st.v[op.w] = s.v[op.w] /\ o.st.v[op.v] = s.v[op.w] /\ \A i \in RecsOf(s, op.w) : o.st.rec[i] = s.rec[i]
       /\ SameBag(RecsOf(s, op.w), [i \in RecsOf(s, op.w) |-> s.rec[i].d], RecsOf(o.st, op.v), [i \in RecsOf(o.st, op.v) |-> o.st.rec[i].d])
       /\ RecsOf(o.st, op.v) \cap RecsOf(o.st, op.w) = {}
  /\ op.o \in {"VMoveC", "VMoveA"} /\ op.v # op.w =>
       /\ o.st.v[op.v] = s.v[op.w] /\ o.st.v[op.w] = EmptyVault /\ RecsOf(o.st, op.w) = {} /\ RecsOf(o.st, op.v) = RecsOf(s, op.w)
       /\ \A i \in RecsOf(s, op.w) : o.st.rec[i].d = s.rec[i].d
       /\ \A x \in SetSlots : s.s[x].p = op.w => o.st.s[x].p = op.v /\ o.st.s[x].m = s.s[x].m
       /\ \A r \in RefSlots : s.r[r] \in RecsOf(s, op.w) => o.st.r[r] = s.r[r]
  /\ op.o \in {"VCopyA", "VMoveA"} /\ op.v = op.w => o.st = s
\* C01: only creating, copying and erasing calls change which records exist
RecFrame(op, s, o) == DOMAIN o.st.rec # DOMAIN s.rec => op.o \in {"Create", "EraseRef", "EraseKV", "EraseMany", "DropData", "DropVault", "VDel", "VCopyC", "VCopyA", "VMoveA"}

StepOK(op, s, o) ==
  /\ Assert(FailFrame(op, s, o), <<"FailFrame", op>>)     /\ Assert(SetFrame(op, s, o), <<"SetFrame", op>>)
  /\ Assert(RefFrame(op, s, o), <<"RefFrame", op>>)       /\ Assert(ReadFrame(op, s, o), <<"ReadFrame", op>>)
  /\ Assert(StayFrame(op, s, o), <<"StayFrame", op>>)     /\ Assert(RefStay(op, s, o), <<"RefStay", op>>)
  /\ Assert(SchemaFrame(op, s, o), <<"SchemaFrame", op>>) /\ Assert(VaultFrame(op, s, o), <<"VaultFrame", op>>)
  /\ Assert(RecFrame(op, s, o), <<"RecFrame", op>>)

Possible(op) == Pre(st, op) /\ (op.o = "Create" => Cardinality(RecsOf(st, op.v)) < MaxRec)
                            /\ (op.o \in {"VCopyC", "VCopyA"} => Cardinality(DOMAIN st.rec) <= 4)
Outcomes(op) == Step(st, op, NoHint)

SetupStep == Len(hist) < Len(Setup) /\ LET op == Setup[Len(hist) + 1] IN
               \E o \in Outcomes(op) : st' = o.st /\ hist' = Append(hist, op)
\* the calls that leave the state as it is, in one script
Stutters == SetToSeq({op \in Ops : Possible(op) /\ \E o \in Outcomes(op) : o.st = st})
EmitStutters == Emit => PrintT("SCRIPT " \o ToJson(hist \o Stutters))

Free == /\ Len(hist) >= Len(Setup)
        /\ (Len(hist) = Len(Setup) + DepthMax \/ TRUE) /\ EmitStutters
        /\ Len(hist) < Len(Setup) + DepthMax
        /\ \E op \in Ops :
             /\ Possible(op)
             /\ Assert(Outcomes(op) # {}, <<"no outcome", op>>)
             /\ \E o \in Outcomes(op) :
                  /\ StepOK(op, st, o)
                  /\ st' = o.st /\ hist' = Append(hist, op)
                  /\ (Emit /\ st' # st => PrintT("SCRIPT " \o ToJson(hist')))

Init == st = InitState /\ hist = <<>>
Next == SetupStep \/ Free
Spec == Init /\ [][Next]_vars
View == <<st, Min2(Len(hist), Len(Setup))>>
Inv == TypeInv(st) /\ UniqueInv(st) /\ SetInv(st) /\ RefInv(st)
=============================================================================
