------------------------------ MODULE GenMVault ------------------------------
(***************************************************************************)
(* Generates scripts of calls from the specification.  Every behaviour is  *)
(* one script: it starts in InitState, and in each step one call is chosen *)
(* with the weights of the profile, with arguments chosen by looking at    *)
(* the state of the specification (existing and missing keys, right and    *)
(* wrong types, values present, absent, duplicate ...).  The choice is      *)
(* pseudo random but a function of (SEED, script number) alone.            *)
(* Scripts are printed as JSON, one line each.                             *)
(***************************************************************************)
EXTENDS MVault, Json, IOUtils

Profile == IOEnv.PROFILE
Seed == atoi(IOEnv.SEED)
NScripts == atoi(IOEnv.NSCRIPTS)
Depth == atoi(IOEnv.DEPTH)

VARIABLES st, idx, n, rs, hist
vars == <<st, idx, n, rs, hist>>

MaxVals == [int |-> 9, str |-> 7, dbl |-> 3, bool |-> 1, u64 |-> 3, cus |-> 5]

(*************************** random numbers (Wichmann-Hill) ****************)
NR == 56
W0(i) == <<1 + ((Seed * 7919 + i * 104729) % 30000), 1 + ((i * 1009 + Seed * 31) % 30000), 1 + ((Seed * 257 + i * 65537) % 30000)>>
WNext(w) == <<(171 * w[1]) % 30269, (172 * w[2]) % 30307, (170 * w[3]) % 30323>>
RECURSIVE Fill(_, _, _)
Fill(w, k, acc) == IF k = 0 THEN [w |-> w, x |-> acc]
                   ELSE LET u == WNext(w) IN Fill(u, k - 1, Append(acc, (u[1] + 3 * u[2] + 5 * u[3]) \div 4))
R(i, m) == rs.x[i] % m                       \* 0..m-1
Chance(i, p) == (rs.x[i] % 100) < p
Nth(S, i) == LET q == SetToSeq(S) IN q[1 + (rs.x[i] % Len(q))]
SeqNth(q, i) == q[1 + (rs.x[i] % Len(q))]

(******************************** profiles *********************************)
\* w: weights of the calls; err: percent of wrong keys / types; dom: values are mostly 0..dom;
\* keys, types: pools; nv, ns, nr: objects used; setup: first calls; uq: percent of unique keys
AllKeys == <<"A", "B", "C", "D">>
AllTypes == <<"int", "str", "cus", "int", "dbl", "u64", "bool", "str">>
Base == [err |-> 6, dom |-> 3, keys |-> AllKeys, types |-> AllTypes, nv |-> 2, ns |-> 2, nr |-> 4, uq |-> 20, maxrec |-> 10,
         setup |-> <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create">>]
SetSetup == <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create", "SNew", "SNew", "Req", "Req">>

Prof ==
  CASE Profile = "data" -> [Base EXCEPT !.setup = <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create", "Create">>] @@
         [w |-> <<<<"Import", 4>>, <<"Save", 2>>, <<"Create", 22>>, <<"SetData", 22>>, <<"SetDataV", 8>>, <<"EraseRef", 8>>, <<"EraseKV", 6>>, <<"EraseMany", 6>>,
                  <<"DropData", 2>>, <<"AddKey", 4>>, <<"RemKey", 2>>, <<"GetRec", 8>>, <<"GetRecs", 6>>, <<"SortRef", 5>>,
                  <<"Sorted", 3>>, <<"Req", 5>>, <<"SNew", 2>>, <<"UpdKey", 2>>, <<"Read", 4>>, <<"GetData", 3>>, <<"AddUKeyF", 1>>, <<"Print", 1>>>>]
    [] Profile = "bulk" -> [Base EXCEPT !.err = 1, !.maxrec = 70, !.nv = 1, !.uq = 8, !.setup = <<"VNew", "AddKey", "AddKey", "AddKey", "SNew">>] @@
         [w |-> <<<<"Import", 6>>, <<"Create", 60>>, <<"SetData", 18>>, <<"EraseRef", 3>>, <<"EraseKV", 3>>, <<"EraseMany", 1>>, <<"SortRef", 12>>,
                  <<"GetRec", 6>>, <<"Req", 6>>, <<"SRemKV", 2>>, <<"SetDataV", 4>>, <<"AddUKeyF", 1>>>>]
    \* a few calls on some hundred records
    [] Profile = "huge" -> [Base EXCEPT !.err = 1, !.maxrec = 600, !.nv = 2, !.ns = 3, !.uq = 0, !.dom = 9,
                            !.setup = <<"VNew", "AddKey", "AddKey", "AddKey", "Import", "SNew", "SNew", "SNew", "Req", "Req">>] @@
         [w |-> <<<<"Req", 30>>, <<"ReqX", 8>>, <<"Sorted", 8>>, <<"SortBy", 8>>, <<"SortRef", 6>>, <<"GetRecs", 6>>, <<"GetRec", 3>>, <<"SetData", 4>>, <<"EraseMany", 6>>, <<"EraseKV", 2>>, <<"EraseRef", 3>>,
                  <<"SAlg", 8>>, <<"SAlgF", 8>>, <<"SEq", 3>>, <<"SRemMany", 5>>, <<"SCopyA", 4>>, <<"SMoveA", 2>>, <<"SClear", 2>>, <<"SReset", 1>>, <<"SDel", 1>>, <<"SNew", 2>>, <<"SAdd", 3>>,
                  <<"VCopyC", 4>>, <<"VMoveC", 2>>, <<"VCopyA", 2>>, <<"VMoveA", 2>>, <<"VDel", 1>>, <<"VNew", 1>>, <<"DropData", 2>>, <<"AddKey", 4>>, <<"RemKey", 3>>, <<"UpdKey", 1>>,
                  <<"Create", 6>>, <<"Import", 4>>, <<"Save", 3>>, <<"Print", 3>>, <<"Table", 6>>, <<"RefReset", 2>>>>]
    [] Profile = "uniq" -> [Base EXCEPT !.uq = 70, !.dom = 4, !.setup = <<"VNew", "AddUKey", "AddKey", "Create", "Create", "Create">>] @@
         [w |-> <<<<"Import", 8>>, <<"Create", 26>>, <<"SetData", 26>>, <<"SetDataV", 8>>, <<"EraseRef", 6>>, <<"EraseKV", 4>>, <<"DropData", 2>>,
                  <<"AddUKey", 4>>, <<"AddUKeyF", 6>>, <<"RemKey", 3>>, <<"GetRec", 8>>, <<"SortRef", 4>>, <<"VCopyC", 3>>, <<"VCopyA", 3>>,
                  <<"VMoveC", 1>>, <<"VMoveA", 1>>, <<"VDel", 1>>, <<"SNew", 2>>, <<"Req", 4>>, <<"VNew", 1>>, <<"DropVault", 1>>>>]
    [] Profile = "err" -> [Base EXCEPT !.err = 40, !.setup = SetSetup, !.uq = 35] @@
         [w |-> <<<<"Import", 5>>, <<"Create", 14>>, <<"SetData", 12>>, <<"SetDataV", 12>>, <<"EraseRef", 4>>, <<"EraseKV", 5>>, <<"EraseMany", 5>>,
                  <<"AddKey", 5>>, <<"AddUKey", 5>>, <<"AddUKeyF", 6>>, <<"UpdKey", 5>>, <<"Read", 4>>, <<"RemKey", 2>>, <<"GetKeyValue", 6>>, <<"GetData", 6>>,
                  <<"GetRec", 8>>, <<"GetRecs", 6>>, <<"Req", 10>>, <<"ReqX", 8>>, <<"SAdd", 5>>, <<"SRem", 3>>, <<"SRemKV", 4>>, <<"SRemMany", 4>>,
                  <<"SAlg", 5>>, <<"SAlgF", 5>>, <<"SReset", 1>>, <<"SNew", 1>>, <<"VNew", 1>>, <<"VDel", 1>>, <<"DropVault", 1>>, <<"SClear", 1>>>>]
    [] Profile = "req" -> [Base EXCEPT !.err = 4, !.dom = 5, !.maxrec = 14, !.setup = <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create", "Create", "Create", "Create", "SNew", "SNew">>] @@
         [w |-> <<<<"Req", 40>>, <<"ReqX", 40>>, <<"Create", 16>>, <<"SetData", 10>>, <<"EraseRef", 3>>, <<"EraseKV", 3>>, <<"SRemKV", 3>>,
                  <<"AddKey", 3>>, <<"RemKey", 2>>, <<"SCopyC", 2>>, <<"SNew", 2>>, <<"SortRef", 3>>, <<"SReset", 1>>, <<"AddUKeyF", 1>>>>]
    [] Profile = "sets" -> [Base EXCEPT !.setup = SetSetup, !.ns = 3] @@
         [w |-> <<<<"Import", 2>>, <<"Save", 2>>, <<"Create", 12>>, <<"SetData", 20>>, <<"SetDataV", 4>>, <<"EraseRef", 5>>, <<"EraseKV", 4>>, <<"EraseMany", 3>>, <<"DropData", 2>>,
                  <<"AddKey", 4>>, <<"AddUKeyF", 3>>, <<"RemKey", 3>>, <<"UpdKey", 2>>, <<"GetRec", 8>>, <<"SortRef", 6>>, <<"Req", 14>>, <<"ReqX", 4>>,
                  <<"SAdd", 8>>, <<"SRem", 6>>, <<"SRemKV", 6>>, <<"SRemMany", 4>>, <<"SClear", 3>>, <<"SReset", 3>>, <<"SNew", 4>>, <<"SDel", 4>>,
                  <<"SAlg", 8>>, <<"SAlgF", 6>>, <<"SCopyC", 3>>, <<"SCopyA", 3>>, <<"SCheck", 2>>, <<"VNew", 1>>, <<"DropVault", 1>>, <<"VMoveA", 1>>>>]
    [] Profile = "alg" -> [Base EXCEPT !.setup = <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create", "Create", "SNew", "SNew", "SNew", "Req", "Req", "Req">>, !.ns = 4, !.dom = 2] @@
         [w |-> <<<<"SAlg", 26>>, <<"SAlgF", 26>>, <<"SEq", 12>>, <<"Req", 16>>, <<"SAdd", 5>>, <<"SRem", 5>>, <<"SRemKV", 4>>, <<"SetData", 10>>,
                  <<"EraseRef", 4>>, <<"EraseKV", 3>>, <<"SReset", 2>>, <<"SNew", 4>>, <<"SDel", 2>>, <<"Create", 6>>, <<"SortRef", 4>>, <<"GetRec", 4>>,
                  <<"SCopyA", 2>>, <<"SMoveA", 2>>, <<"VNew", 2>>, <<"AddKey", 2>>, <<"SClear", 2>>, <<"DropData", 1>>, <<"DropVault", 1>>>>]
    [] Profile = "refs" -> [Base EXCEPT !.nr = 6, !.setup = <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create", "SNew", "Req">>] @@
         [w |-> <<<<"Read", 8>>, <<"Import", 2>>, <<"Create", 14>>, <<"SetData", 16>>, <<"SetDataV", 5>>, <<"GetData", 8>>, <<"EraseRef", 8>>, <<"EraseKV", 3>>, <<"RefCopy", 12>>,
                  <<"RefMove", 10>>, <<"RefReset", 5>>, <<"RefEq", 12>>, <<"GetRec", 10>>, <<"SortRef", 12>>, <<"Req", 6>>, <<"SNew", 2>>,
                  <<"DropData", 2>>, <<"DropVault", 1>>, <<"VDel", 3>>, <<"VNew", 3>>, <<"VMoveC", 2>>, <<"VMoveA", 2>>, <<"VCopyA", 2>>, <<"SReset", 1>>,
                  <<"SDel", 2>>, <<"AddKey", 2>>, <<"RemKey", 2>>, <<"SAdd", 2>>>>]
    [] Profile = "keys" -> [Base EXCEPT !.setup = <<"VNew", "AddKey", "Create", "Create", "SNew", "Req">>, !.keys = <<"A", "B", "C", "D", "E">>, !.uq = 30] @@
         [w |-> <<<<"Read", 8>>, <<"Import", 3>>, <<"AddKey", 18>>, <<"AddUKey", 5>>, <<"AddUKeyF", 10>>, <<"UpdKey", 14>>, <<"RemKey", 12>>, <<"GetKeyValue", 8>>, <<"Create", 14>>,
                  <<"SetData", 8>>, <<"EraseRef", 4>>, <<"DropData", 3>>, <<"DropVault", 2>>, <<"Req", 8>>, <<"SNew", 3>>, <<"GetRec", 3>>, <<"SortRef", 3>>,
                  <<"SRemKV", 3>>, <<"Sorted", 3>>, <<"Print", 2>>, <<"VCopyC", 2>>, <<"VMoveC", 1>>>>]
    [] Profile = "copy" -> [Base EXCEPT !.nv = 3, !.uq = 35, !.setup = <<"VNew", "AddKey", "AddUKey", "Create", "Create", "SNew", "Req">>] @@
         [w |-> <<<<"Import", 3>>, <<"Save", 2>>, <<"VCopyC", 10>>, <<"VCopyA", 10>>, <<"VMoveC", 9>>, <<"VMoveA", 9>>, <<"VDel", 6>>, <<"VNew", 4>>, <<"Create", 18>>, <<"SetData", 14>>,
                  <<"EraseRef", 6>>, <<"EraseKV", 4>>, <<"AddKey", 6>>, <<"AddUKeyF", 4>>, <<"UpdKey", 4>>, <<"RemKey", 4>>, <<"Req", 10>>, <<"ReqX", 2>>,
                  <<"SNew", 4>>, <<"SAdd", 3>>, <<"GetRec", 5>>, <<"SortRef", 6>>, <<"DropData", 2>>, <<"DropVault", 2>>, <<"SAlg", 2>>, <<"SRemKV", 2>>>>]
    [] Profile = "scopy" -> [Base EXCEPT !.ns = 4, !.setup = SetSetup] @@
         [w |-> <<<<"Save", 3>>, <<"SCopyC", 10>>, <<"SCopyA", 12>>, <<"SMoveC", 10>>, <<"SMoveA", 12>>, <<"SNew", 5>>, <<"SDel", 8>>, <<"Req", 16>>, <<"Create", 8>>,
                  <<"SetData", 14>>, <<"EraseRef", 4>>, <<"EraseKV", 4>>, <<"SAdd", 4>>, <<"SRemKV", 4>>, <<"SRem", 3>>, <<"SAlg", 4>>, <<"SAlgF", 2>>, <<"AddKey", 3>>,
                  <<"RemKey", 2>>, <<"AddUKeyF", 2>>, <<"SReset", 3>>, <<"SClear", 2>>, <<"VNew", 3>>, <<"VDel", 2>>, <<"DropVault", 2>>, <<"DropData", 2>>,
                  <<"SortRef", 4>>, <<"GetRec", 4>>, <<"SEq", 4>>, <<"VMoveC", 2>>, <<"VCopyA", 1>>, <<"VMoveA", 2>>>>]
    [] Profile = "types" -> [Base EXCEPT !.err = 45, !.setup = SetSetup, !.types = <<"int", "u64", "dbl", "bool", "str", "cus">>] @@
         [w |-> <<<<"Import", 4>>, <<"Create", 12>>, <<"SetData", 14>>, <<"SetDataV", 8>>, <<"GetData", 10>>, <<"GetKeyValue", 8>>, <<"UpdKey", 8>>, <<"AddKey", 8>>,
                  <<"RemKey", 8>>, <<"AddUKeyF", 3>>, <<"AddUKey", 2>>, <<"GetRec", 8>>, <<"GetRecs", 8>>, <<"Req", 14>>, <<"ReqX", 24>>, <<"EraseKV", 4>>,
                  <<"EraseMany", 4>>, <<"SRemKV", 5>>, <<"SRemMany", 4>>, <<"SNew", 2>>, <<"SortRef", 2>>>>]
    [] Profile = "views" -> [Base EXCEPT !.setup = SetSetup, !.err = 2, !.dom = 9, !.types = <<"str", "int", "str", "cus", "dbl", "u64", "bool", "str">>] @@
         [w |-> <<<<"Save", 8>>, <<"Create", 18>>, <<"SetData", 18>>, <<"EraseRef", 8>>, <<"Print", 30>>, <<"Table", 14>>, <<"AddKey", 6>>, <<"RemKey", 5>>, <<"Req", 8>>, <<"SNew", 3>>,
                  <<"Read", 4>>, <<"SAlg", 2>>, <<"SRemKV", 3>>, <<"DropData", 2>>, <<"SortRef", 5>>, <<"VCopyC", 2>>, <<"VNew", 1>>, <<"SReset", 1>>, <<"UpdKey", 2>>, <<"AddUKeyF", 2>>>>]
    [] Profile = "life" -> [Base EXCEPT !.nv = 3, !.ns = 4, !.nr = 6, !.setup = SetSetup, !.types = <<"cus", "str", "cus", "int">>] @@
         [w |-> <<<<"Import", 3>>, <<"Save", 2>>, <<"VDel", 12>>, <<"VNew", 10>>, <<"SDel", 12>>, <<"SNew", 10>>, <<"RefReset", 6>>, <<"DropVault", 4>>, <<"DropData", 5>>, <<"SReset", 6>>, <<"SClear", 4>>,
                  <<"VCopyC", 4>>, <<"VCopyA", 4>>, <<"VMoveC", 5>>, <<"VMoveA", 5>>, <<"SCopyC", 3>>, <<"SCopyA", 4>>, <<"SMoveC", 4>>, <<"SMoveA", 4>>, <<"RefCopy", 3>>, <<"RefMove", 3>>,
                  <<"Create", 22>>, <<"AddKey", 14>>, <<"Req", 16>>, <<"ReqX", 8>>, <<"SAdd", 5>>, <<"SRem", 4>>, <<"SRemKV", 4>>, <<"SAlg", 5>>, <<"SAlgF", 5>>,
                  <<"EraseRef", 5>>, <<"EraseKV", 4>>, <<"SetData", 8>>, <<"GetRec", 6>>, <<"SortRef", 6>>, <<"RemKey", 4>>, <<"AddUKeyF", 2>>>>]
    [] Profile = "sort" -> [Base EXCEPT !.err = 3, !.dom = 4, !.maxrec = 12, !.setup = <<"VNew", "AddKey", "AddKey", "Create", "Create", "Create", "Create", "Create", "SNew", "Req">>] @@
         [w |-> <<<<"Import", 3>>, <<"Sorted", 26>>, <<"SortBy", 26>>, <<"SortRef", 10>>, <<"Print", 6>>, <<"Create", 14>>, <<"SetData", 14>>, <<"EraseRef", 4>>, <<"EraseKV", 3>>, <<"Req", 6>>,
                  <<"SRemKV", 3>>, <<"SAdd", 2>>, <<"AddKey", 3>>, <<"RemKey", 3>>, <<"AddUKeyF", 2>>, <<"SNew", 1>>, <<"DropData", 1>>, <<"SReset", 1>>>>]
    \* everything
    [] OTHER -> [Base EXCEPT !.nv = 3, !.ns = 3, !.setup = SetSetup, !.err = 10] @@
         [w |-> <<<<"Import", 4>>, <<"Save", 3>>, <<"Create", 20>>, <<"SetData", 14>>, <<"SetDataV", 6>>, <<"GetData", 4>>, <<"EraseRef", 5>>, <<"EraseKV", 3>>, <<"EraseMany", 3>>,
                  <<"DropData", 2>>, <<"DropVault", 2>>, <<"AddKey", 6>>, <<"AddUKey", 3>>, <<"AddUKeyF", 4>>, <<"UpdKey", 3>>, <<"RemKey", 4>>, <<"GetKeyValue", 2>>,
                  <<"Read", 4>>, <<"RefCopy", 3>>, <<"RefMove", 3>>, <<"RefReset", 2>>, <<"RefEq", 2>>, <<"GetRec", 6>>, <<"GetRecs", 3>>, <<"SortRef", 5>>, <<"Sorted", 3>>,
                  <<"SortBy", 3>>, <<"Print", 2>>, <<"Table", 2>>, <<"Req", 12>>, <<"ReqX", 8>>, <<"SAdd", 5>>, <<"SRem", 3>>, <<"SCheck", 2>>, <<"SRemKV", 3>>, <<"SRemMany", 2>>,
                  <<"SClear", 2>>, <<"SReset", 2>>, <<"SNew", 5>>, <<"SDel", 3>>, <<"SCopyC", 3>>, <<"SCopyA", 3>>, <<"SMoveC", 3>>, <<"SMoveA", 3>>,
                  <<"SAlg", 5>>, <<"SAlgF", 4>>, <<"SEq", 3>>, <<"VNew", 4>>, <<"VDel", 3>>, <<"VCopyC", 3>>, <<"VMoveC", 3>>, <<"VCopyA", 3>>, <<"VMoveA", 3>>>>]

RECURSIVE SumW(_, _)
SumW(w, i) == IF i = 0 THEN 0 ELSE w[i][2] + SumW(w, i - 1)
RECURSIVE WPickAt(_, _, _)
WPickAt(w, i, x) == IF x < w[i][2] \/ i = Len(w) THEN w[i][1] ELSE WPickAt(w, i + 1, x - w[i][2])
WPick(i) == WPickAt(Prof.w, 1, R(i, SumW(Prof.w, Len(Prof.w))))

(******************************** arguments ********************************)
VS == 1..Prof.nv
SS == 1..Prof.ns
RS == 1..Prof.nr
VOn == {v \in VS : st.v[v].on}
SOn == {s \in SS : st.s[s].on}
SBound == {s \in SOn : st.s[s].p # 0}
RValid == {r \in RS : st.r[r] # 0}
Or1(S, i, other) == IF S = {} THEN other ELSE Nth(S, i)

TheV == Or1(VOn, 2, 1)
TheW == Or1(VOn, 3, 1)
OffV == Or1(VS \ VOn, 2, 1)
TheS == IF SBound # {} /\ Chance(19, 75) THEN Nth(SBound, 4) ELSE Or1(SOn, 4, 1)
TheQ == IF SBound # {} /\ Chance(44, 75) THEN Nth(SBound, 5) ELSE Or1(SOn, 5, 1)
TheX == Or1(SOn, 46, 1)
OffS == Or1(SS \ SOn, 4, 1)
TheR == IF RValid # {} /\ Chance(43, 80) THEN Nth(RValid, 15) ELSE Nth(RS, 15)
TheR2 == IF RValid # {} /\ Chance(45, 70) THEN Nth(RValid, 16) ELSE Nth(RS, 16)
AnyR == Nth(RS, 15)
TheH == IF SBound # {} /\ Chance(6, 45) THEN <<"s", Nth(SBound, 4)>>
        ELSE IF SOn # {} /\ Chance(6, 48) THEN <<"s", Nth(SOn, 4)>> ELSE <<"v", TheV>>

Name(i) == SeqNth(Prof.keys, i)
KeyOf(v, i, j) ==          \* a key for a call on vault v (0: none)
  IF v # 0 /\ KeysOf(st, v) # <<>> /\ ~Chance(i, Prof.err \div 2 + 1) THEN SeqNth(KeysOf(st, v), j).k ELSE Name(j)
TypeOf(v, k, i, j) ==      \* its type, or a wrong one
  IF v # 0 /\ HasKey(st, v, k) /\ ~Chance(i, Prof.err) THEN KeyRec(st, v, k).t ELSE SeqNth(Prof.types, j)
Used(v, k, t) == IF v # 0 /\ HasKey(st, v, k) /\ KeyRec(st, v, k).t = t THEN {Val(st, x, k) : x \in RecsOf(st, v)} ELSE {}
AnyVal(t, i, j) == IF Chance(i, 80) THEN R(j, Min2(Prof.dom, MaxValOf[t]) + 1) ELSE R(j, MaxValOf[t] + 1)
ValOf(v, k, t, i, j) == LET U == Used(v, k, t) IN
  IF Profile = "huge" /\ U # {} /\ Chance(i + 1, 60) THEN Val(st, Nth(RecsOf(st, v), j), k) ELSE IF U # {} /\ Chance(i, 55) THEN Nth(U, j) ELSE AnyVal(t, i, j)
\* a value to write: for unique keys mostly a free one
NewVal(v, k, t, i, j) ==
  IF v # 0 /\ k \in UniqueOf(st, v) /\ t = KeyRec(st, v, k).t /\ Chance(i, 75)
  THEN LET F == (0..MaxValOf[t]) \ Used(v, k, t) IN IF F = {} THEN AnyVal(t, i, j) ELSE Nth(F, j)
  ELSE AnyVal(t, i, j)
HV(h) == IF HostOn(st, h) /\ HostValid(st, h) THEN HostVault(st, h) ELSE 0
TheAmt(i) == IF Chance(i, 45) THEN -1 ELSE IF Profile = "huge" /\ Chance(i + 3, 70) THEN 254 + R(i, 12) ELSE R(i, 5)
TheRV(r) == IF st.r[r] = 0 THEN 0 ELSE st.rec[st.r[r]].v

RECURSIVE ParamsFrom(_, _, _, _)
ParamsFrom(v, j, i, p) ==     \* parameters for the keys j.. of v; i: random index; p: percent
  IF v = 0 \/ j > Len(KeysOf(st, v)) \/ j > 5 THEN <<>>
  ELSE LET ky == KeysOf(st, v)[j]
           k == IF Chance(i, 3) /\ Chance(i + 1, Prof.err) THEN Name(i) ELSE ky.k
           t == IF Chance(i + 1, Prof.err \div 3 + 1) THEN SeqNth(Prof.types, i) ELSE IF HasKey(st, v, k) THEN KeyRec(st, v, k).t ELSE ky.t
           rest == ParamsFrom(v, j + 1, i + 2, p)
       IN IF Chance(i, IF ky.u THEN 90 ELSE p) THEN <<[k |-> k, t |-> t, n |-> NewVal(v, k, t, i + 1, i)]>> \o rest ELSE rest
Params(v, p) == LET ps == ParamsFrom(v, 1, 30, p) IN
                IF Chance(29, 4) THEN Append(ps, [k |-> Name(28), t |-> SeqNth(Prof.types, 28), n |-> 0])
                ELSE IF Chance(29, 12) THEN Reverse(ps) ELSE ps

\* A table for an import: mostly the keys of v, sometimes an unknown one; rows may be short, and a text may be no value
ImpCols(v) ==
  LET ks == [j \in DOMAIN KeysOf(st, v) |-> [k |-> KeysOf(st, v)[j].k, t |-> KeysOf(st, v)[j].t]]
      sel == SelectSeq(ks, LAMBDA x : KeyRec(st, v, x.k).u \/ (Len(ks) < 3 \/ KeyRec(st, v, x.k).d # 1))
      base == IF sel = <<>> THEN ks ELSE sel
      ext == IF Chance(47, 4 + Prof.err \div 3) THEN Append(base, [k |-> "nope", t |-> "int"]) ELSE base
  IN IF Chance(48, 40) THEN Reverse(ext) ELSE ext
ImpCell(v, c, i, j) ==
  IF c.t # "str" /\ Chance(i, 3 + Prof.err \div 3) THEN -1 ELSE NewVal(v, c.k, c.t, j, i)
BigRows(cols) ==
  [x \in 1..(275 + R(49, 60)) |-> [c \in 1..(IF x % 97 = 5 THEN 1 ELSE Len(cols)) |->
     \* a column of mostly one value
     IF c = 1 /\ x % 23 # 0 THEN 1 % (MaxValOf[cols[c].t] + 1) ELSE
     (R(1 + ((x * 13 + c * 5) % NR), 30000) + (x \div 7) * (2 * c + 1)) % (MaxValOf[cols[c].t] + 1)]]
ImpRows(v, cols) ==
  IF Profile = "huge" /\ Chance(46, IF n < 10 THEN 100 ELSE 20) THEN BigRows(cols) ELSE
  [x \in 1..(1 + R(49, 4)) |->
     LET len == IF Chance(20 + x, 12) THEN R(24 + x, Len(cols) + 1) ELSE Len(cols) IN
     [c \in 1..len |-> ImpCell(v, cols[c], 1 + ((x * 11 + c * 5) % (NR - 1)), 1 + ((x * 17 + c * 7 + 3) % (NR - 1)))]]

TheKind(i) == SeqNth(<<"Eq", "Gt", "Ge", "Lt", "Le">>, i)
PredOf(v, i, p) == IF ~Chance(i, p) THEN <<>>
                ELSE LET k == KeyOf(v, i, i + 1)  t == TypeOf(v, k, i, i + 1) IN <<k, t, TheKind(i + 1), ValOf(v, k, t, i, i + 1)>>
LeafAt(v, i, k) == LET t == TypeOf(v, k, i, i + 1) IN
  [x |-> "l", kind |-> TheKind(i), k |-> k, t |-> t, n |-> ValOf(v, k, t, i + 1, i), pr |-> PredOf(v, i + 1, 12)]
\* pairs on one key (the library merges them into an interval), other pairs, deeper trees
PairAt(v, i) ==
  LET k == KeyOf(v, i, i + 2)  k2 == IF Chance(i + 3, 60) THEN k ELSE KeyOf(v, i + 1, i + 3)
      l == LeafAt(v, i, k)  r == LeafAt(v, i + 2, k2)
  IN [x |-> IF Chance(i, 65) THEN "a" ELSE "o",
      l |-> IF Chance(i + 1, 50) THEN [l EXCEPT !.kind = IF R(i, 2) = 0 THEN "Gt" ELSE "Ge"] ELSE l,
      r |-> IF Chance(i + 1, 50) THEN [r EXCEPT !.kind = IF R(i + 2, 2) = 0 THEN "Lt" ELSE "Le"] ELSE r]
Comb(i, l, r) == [x |-> IF R(i, 2) = 0 THEN "a" ELSE "o", l |-> l, r |-> r]
TreeOf(v) ==
  LET a == PairAt(v, 20)  b == PairAt(v, 26)  c == LeafAt(v, 36, KeyOf(v, 37, 38)) IN
  CASE R(39, 10) = 0 -> c
    [] R(39, 10) \in 1..4 -> a
    [] R(39, 10) = 5 -> Comb(40, a, b)
    [] R(39, 10) = 6 -> Comb(40, a, c)
    [] R(39, 10) = 7 -> Comb(40, c, a)
    [] R(39, 10) = 8 -> Comb(40, Comb(41, c, b), a)
    [] R(39, 10) = 9 -> Comb(40, b, Comb(41, a, c))

NewName(v) == LET F == Range(Prof.keys) \ KeyNamesOf(st, v) IN IF F = {} \/ Chance(7, Prof.err) THEN Name(8) ELSE Nth(F, 8)

Mk(o) ==
  CASE o = "VNew" -> [o |-> o, v |-> OffV]
    [] o \in {"VDel", "DropVault", "DropData"} -> [o |-> o, v |-> TheV]
    [] o \in {"VCopyC", "VMoveC"} -> [o |-> o, v |-> OffV, w |-> TheW]
    [] o \in {"VCopyA", "VMoveA"} -> [o |-> o, v |-> TheV, w |-> IF Cardinality(VOn) > 1 /\ Chance(17, 90) THEN Nth(VOn \ {TheV}, 3) ELSE TheW]
    [] o = "AddKey" -> LET t == SeqNth(Prof.types, 10) IN
         IF Chance(18, Prof.uq) /\ RecsOf(st, TheV) = {} THEN [o |-> "AddUKey", v |-> TheV, k |-> NewName(TheV), t |-> t]
         ELSE [o |-> o, v |-> TheV, k |-> NewName(TheV), t |-> t, n |-> AnyVal(t, 11, 12)]
    [] o = "AddUKey" -> [o |-> o, v |-> TheV, k |-> NewName(TheV), t |-> SeqNth(Prof.types, 10)]
    [] o = "AddUKeyF" -> LET t == SeqNth(Prof.types, 10)  m == MaxValOf[t] + 1  d == R(12, m)  sz == IF Chance(11, 85) THEN m ELSE 1 + R(13, m) IN
         [o |-> o, v |-> TheV, k |-> NewName(TheV), t |-> t, vals |-> [c \in 1..sz |-> (d + c) % m]]
    [] o = "UpdKey" -> LET k == KeyOf(TheV, 7, 8)  t == TypeOf(TheV, k, 9, 10) IN [o |-> o, v |-> TheV, k |-> k, t |-> t, n |-> AnyVal(t, 11, 12)]
    [] o = "RemKey" -> [o |-> o, v |-> TheV, k |-> KeyOf(TheV, 7, 8)]
    [] o = "GetKeyValue" -> LET k == KeyOf(HV(TheH), 7, 8) IN [o |-> o, h |-> TheH, k |-> k, t |-> TypeOf(HV(TheH), k, 9, 10)]
    [] o = "Create" -> IF Cardinality(RecsOf(st, TheV)) >= Prof.maxrec THEN [o |-> "EraseRef", v |-> TheV, r |-> TheR]
                       ELSE [o |-> o, v |-> TheV, r |-> IF Chance(17, 35) THEN 0 ELSE AnyR, ps |-> Params(TheV, 65)]
    [] o = "EraseRef" -> [o |-> o, v |-> IF TheRV(TheR) # 0 /\ Chance(17, 85) THEN TheRV(TheR) ELSE TheV, r |-> TheR]
    [] o \in {"EraseKV", "EraseMany"} -> LET k == KeyOf(TheV, 7, 8)  t == TypeOf(TheV, k, 9, 10) IN
         [o |-> o, v |-> TheV, k |-> k, t |-> t, n |-> ValOf(TheV, k, t, 11, 12), amt |-> TheAmt(14)]
    [] o = "SetData" -> LET v == TheRV(TheR)  k == KeyOf(v, 7, 8)  t == TypeOf(v, k, 9, 10) IN
         [o |-> o, r |-> TheR, k |-> k, t |-> t, n |-> NewVal(v, k, t, 11, 12)]
    [] o = "SetDataV" -> [o |-> o, r |-> TheR, ps |-> Params(TheRV(TheR), 55)]
    [] o = "GetData" -> LET v == TheRV(TheR)  k == KeyOf(v, 7, 8) IN [o |-> o, r |-> TheR, k |-> k, t |-> TypeOf(v, k, 9, 10)]
    [] o \in {"RefCopy", "RefMove"} -> [o |-> o, r |-> AnyR, q |-> TheR2]
    [] o = "RefReset" -> [o |-> o, r |-> TheR]
    [] o = "RefEq" -> LET same == {x \in RS : st.r[x] = st.r[TheR]} IN [o |-> o, r |-> TheR, q |-> IF Chance(17, 50) THEN Nth(same, 16) ELSE TheR2]
    [] o \in {"GetRec", "GetRecs"} -> LET v == HV(TheH)  k == KeyOf(v, 7, 8)  t == TypeOf(v, k, 9, 10)
                        op == [o |-> o, h |-> TheH, k |-> k, t |-> t, n |-> ValOf(v, k, t, 11, 12)] IN
         IF o = "GetRec" THEN op @@ [r |-> AnyR] ELSE op @@ [amt |-> TheAmt(14)]
    [] o = "SortRef" -> [o |-> o, h |-> TheH, k |-> KeyOf(HV(TheH), 7, 8), rev |-> R(17, 2) = 0, i |-> 1 + R(13, Cardinality(HostRecs(st, TheH)) + 1), r |-> AnyR]
    [] o = "Sorted" -> [o |-> o, h |-> TheH, k |-> KeyOf(HV(TheH), 7, 8), rev |-> R(17, 2) = 0, amt |-> TheAmt(14)]
    [] o = "SortBy" -> [o |-> o, h |-> TheH, k |-> KeyOf(HV(TheH), 7, 8), rev |-> R(17, 2) = 0, amt |-> TheAmt(14), stop |-> IF Chance(13, 50) THEN 0 ELSE 1 + R(12, 4)]
    [] o = "Print" -> [o |-> o, h |-> TheH, k |-> IF Chance(11, 40) /\ R(18, 4) # 0 THEN "" ELSE KeyOf(HV(TheH), 7, 8), rev |-> R(17, 2) = 0, amt |-> TheAmt(14), tab |-> R(18, 4) = 0,
                       cols |-> IF HV(TheH) = 0 \/ Chance(13, 60) THEN <<>>
                                ELSE LET ks == KeysOf(st, HV(TheH)) IN [j \in 1..Min2(Len(ks), 1 + R(12, 3)) |-> ks[1 + ((R(12, 7) + 2 * j) % Len(ks))].k]]
    \* reads of all kinds
    [] o = "Read" -> LET f == SeqNth(<<"Size", "Keys", "UKeys", "IsKey", "IsKey", "KeyType", "Strs", "Json", "RefStrs", "RefJson", "RefKeys", "RefStr", "RefStr", "RefIsKey", "RefIsKey",
                                       "RefValid", "SParent", "Errs">>, 12)
                         v == IF f \in {"RefStr", "RefIsKey"} THEN TheRV(TheR) ELSE HV(TheH) IN
         CASE f = "Errs" -> [o |-> f, v |-> TheV]
           [] f = "SParent" -> [o |-> f, s |-> TheS]
           [] f \in {"RefStrs", "RefJson", "RefKeys", "RefValid"} -> [o |-> f, r |-> TheR]
           [] f \in {"RefStr", "RefIsKey"} -> [o |-> f, r |-> TheR, k |-> IF Chance(11, 40) THEN Name(8) ELSE KeyOf(v, 7, 8)]
           [] f \in {"IsKey", "KeyType"} -> [o |-> f, h |-> TheH, k |-> IF Chance(11, 40) THEN Name(8) ELSE KeyOf(v, 7, 8)]
           [] OTHER -> [o |-> f, h |-> TheH]
    [] o = "Table" -> [o |-> o, rs |-> [j \in 1..(IF Profile = "huge" THEN 300 ELSE 1 + R(12, 4)) |->
                                        IF j > 8 THEN TheR ELSE IF RValid # {} /\ (j = 1 \/ Chance(12 + j, 50)) THEN Nth(RValid, 20 + j) ELSE 1 + R(20 + j, Prof.nr)],
                       cols |-> IF RValid # {} /\ Chance(13, 45) THEN <<>> ELSE [j \in 1..(1 + R(11, 3)) |-> Prof.keys[1 + ((R(11, 17) + j) % Len(Prof.keys))]],
                       amt |-> TheAmt(14), id |-> R(17, 3) # 0]
    [] o = "Import" -> IF KeysOf(st, TheV) = <<>> THEN [o |-> "AddKey", v |-> TheV, k |-> NewName(TheV), t |-> "int", n |-> 1]
                       ELSE IF Cardinality(RecsOf(st, TheV)) >= Prof.maxrec THEN [o |-> "EraseRef", v |-> TheV, r |-> TheR]
                       ELSE LET c == ImpCols(TheV) IN [o |-> o, v |-> TheV, mode |-> SeqNth(<<"hdr", "user", "handler">>, 50), cols |-> c, rows |-> ImpRows(TheV, c)]
    [] o = "Save" -> [o |-> o, h |-> TheH, hdr |-> R(17, 2) = 0,
                      cols |-> IF HV(TheH) = 0 \/ Chance(13, 60) THEN <<>>
                               ELSE LET ks == KeysOf(st, HV(TheH)) IN [j \in 1..Min2(Len(ks), 1 + R(12, 3)) |-> ks[1 + ((R(12, 7) + 2 * j) % Len(ks))].k]]
    [] o = "Req" -> LET v == HV(TheH)  k == KeyOf(v, 7, 8)  t == TypeOf(v, k, 9, 10)  pr == PredOf(v, 20, 25)  kr == IF Chance(22, 12) THEN AnyR ELSE 0  wide == Profile = "huge" /\ Chance(16, 60) IN
         [o |-> o, h |-> TheH, kind |-> SeqNth(<<"Eq", "Gt", "Ge", "Lt", "Le", "In", "In">>, 13), k |-> k, t |-> t, n |-> IF wide /\ R(13, 7) # 0 THEN 0 ELSE ValOf(v, k, t, 11, 12),
          n2 |-> IF wide THEN MaxValOf[t] ELSE ValOf(v, k, t, 14, 18), ib |-> R(17, 2) = 0, ie |-> R(18, 2) = 0, amt |-> IF kr # 0 \/ Chance(23, 55) THEN -1 ELSE TheAmt(14), pr |-> pr,
          s |-> TheX, kr |-> kr]
    [] o = "ReqX" -> [o |-> o, h |-> TheH, tree |-> TreeOf(HV(TheH)), s |-> TheX]
    [] o \in {"SAdd", "SRem", "SCheck"} -> [o |-> o, s |-> TheS, r |-> TheR]
    [] o \in {"SRemKV", "SRemMany"} -> LET v == HV(<<"s", TheS>>)  k == KeyOf(v, 7, 8)  t == TypeOf(v, k, 9, 10) IN
         [o |-> o, s |-> TheS, k |-> k, t |-> t, n |-> ValOf(v, k, t, 11, 12), amt |-> TheAmt(14)]
    [] o \in {"SClear", "SReset", "SDel"} -> [o |-> o, s |-> TheS]
    [] o = "SNew" -> [o |-> o, s |-> OffS]
    [] o \in {"SCopyC", "SMoveC"} -> [o |-> o, s |-> OffS, q |-> TheQ]
    [] o \in {"SCopyA", "SMoveA", "SEq"} -> [o |-> o, s |-> TheS, q |-> TheQ]
    [] o = "SAlg" -> [o |-> o, f |-> SeqNth(<<"Join", "Exclude", "Intersect">>, 13), s |-> TheS, q |-> TheQ]
    [] o = "SAlgF" -> [o |-> o, f |-> SeqNth(<<"Union", "Intersection">>, 13), s |-> TheS, q |-> TheQ, w |-> TheX]
    [] OTHER -> [o |-> "Nop"]

Nop == [o |-> "Nop"]
\* the first of three candidates that is possible
Choose3 ==
  IF n < Len(Prof.setup) THEN (LET a == Mk(Prof.setup[n + 1]) IN IF Pre(st, a) THEN a ELSE Nop)
  ELSE IF VOn = {} /\ Chance(42, 70) THEN Mk("VNew")
  ELSE LET a == Mk(WPick(1)) IN IF Pre(st, a) THEN a
  ELSE LET b == Mk(WPick(52)) IN IF Pre(st, b) THEN b
  ELSE LET c == Mk(WPick(53)) IN IF Pre(st, c) THEN c ELSE Nop

Init == /\ idx \in 1..NScripts
        /\ n = 0 /\ st = InitState /\ hist = <<>>
        /\ rs = Fill(Fill(W0(idx), 20, <<>>).w, NR, <<>>)

Next == /\ n < Depth
        /\ n' = n + 1 /\ idx' = idx
        /\ rs' = Fill(rs.w, NR, <<>>)
        /\ \E op \in {Choose3} :
             /\ hist' = Append(hist, op)
             /\ LET O == Step(st, op, GenHint) IN st' = (Nth(O, 54)).st
        /\ (n' = Depth => PrintT("SCRIPT " \o ToJson(hist')))

Spec == Init /\ [][Next]_vars
Inv == TypeInv(st) /\ UniqueInv(st) /\ SetInv(st) /\ RefInv(st)
\* (the state takes part so that TLC evaluates it eagerly)
View == <<idx, n, st>>
=============================================================================
