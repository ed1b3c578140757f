------------------------------- MODULE MVault -------------------------------
(***************************************************************************)
(* State machine of the public API of MVault: vaults (tables with a        *)
(* mutable key schema), record sets (live subsets of one vault) and record *)
(* refs (handles of one record).  One public call is one transition.       *)
(*                                                                         *)
(* A call is a record `op` (op.o names the function).  Step(st, op, h) is   *)
(* the set of outcomes of the call in state st: resulting state and        *)
(* result.  h is a hint that resolves implementation freedom: in model     *)
(* checking h = NoHint and every outcome is produced; in trace validation  *)
(* h carries the observed records / members, and only the outcome that     *)
(* agrees with it (if the specification allows it) is produced; for script *)
(* generation h = GenHint picks one outcome.                               *)
(* QueryOK(st, op, ev) judges the list that a call returned.               *)
(*                                                                         *)
(* Values are indexes 0..MaxVal(t) into an ordered domain of the type t;   *)
(* index order is value order.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC

CONSTANTS VaultSlots, SetSlots, RefSlots,   \* 1..n each
          MaxValOf                          \* type name -> biggest value index

Types == DOMAIN MaxValOf
\* index of the value T{} (the default value of a unique key)
ZeroOf(t) == IF t \in {"int", "dbl"} THEN 1 ELSE 0

NoHint == [mode |-> "mc"]
GenHint == [mode |-> "gen"]     \* one arbitrary outcome (script generation)
IsTr(h) == h.mode = "tr"
IsGen(h) == h.mode = "gen"

kSub(k, S) == {X \in SUBSET S : Cardinality(X) = k}
FirstK(S, k) == LET q == SetToSeq(S) IN {q[i] : i \in 1..k}
Min2(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
OffVault   == [on |-> FALSE, keys |-> <<>>]
EmptyVault == [on |-> TRUE,  keys |-> <<>>]
OffSet     == [on |-> FALSE, p |-> 0, m |-> {}]
FreshSet   == [on |-> TRUE,  p |-> 0, m |-> {}]

InitState == [ v   |-> [x \in VaultSlots |-> OffVault],
               s   |-> [x \in SetSlots   |-> OffSet],
               r   |-> [x \in RefSlots   |-> 0],      \* 0: no (valid) record
               rec |-> [x \in {} |-> 0] ]             \* id -> [v, d]

KeysOf(st, v)    == st.v[v].keys                      \* sequence of [k,t,u,d]
KeyNamesOf(st,v) == {KeysOf(st,v)[i].k : i \in DOMAIN KeysOf(st,v)}
HasKey(st, v, k) == k \in KeyNamesOf(st, v)
KeyRec(st, v, k) == LET ks == KeysOf(st, v) IN ks[CHOOSE i \in DOMAIN ks : ks[i].k = k]
UniqueOf(st, v)  == {k \in KeyNamesOf(st, v) : KeyRec(st, v, k).u}
RecsOf(st, v)    == {i \in DOMAIN st.rec : st.rec[i].v = v}
Val(st, i, k)    == st.rec[i].d[k]

\* Host of a query: a vault <<"v", n>> or a record set <<"s", n>>
HostValid(st, h) == IF h[1] = "v" THEN st.v[h[2]].on ELSE st.s[h[2]].p # 0
HostVault(st, h) == IF h[1] = "v" THEN h[2] ELSE st.s[h[2]].p
HostRecs(st, h)  == IF h[1] = "v" THEN RecsOf(st, h[2]) ELSE st.s[h[2]].m

\* Remove records; sets and refs forget them
Kill(st, ids) ==
  [st EXCEPT !.rec = [i \in (DOMAIN st.rec) \ ids |-> st.rec[i]],
             !.s   = [x \in SetSlots |-> [st.s[x] EXCEPT !.m = @ \ ids]],
             !.r   = [x \in RefSlots |-> IF st.r[x] \in ids THEN 0 ELSE st.r[x]]]

\* Detach every record set of the vault v
DetachSets(st, v) ==
  [st EXCEPT !.s = [x \in SetSlots |-> IF st.s[x].p = v
                                       THEN [st.s[x] EXCEPT !.p = 0, !.m = {}] ELSE st.s[x]]]

Drop(st, v) == [Kill(DetachSets(st, v), RecsOf(st, v)) EXCEPT !.v[v].keys = <<>>]

\* Everything of w becomes v's; w stays usable and empty
MoveInto(st, v, w) ==
  [st EXCEPT !.v[v] = st.v[w], !.v[w] = EmptyVault,
             !.rec = [i \in DOMAIN st.rec |-> IF st.rec[i].v = w THEN [st.rec[i] EXCEPT !.v = v] ELSE st.rec[i]],
             !.s   = [x \in SetSlots |-> IF st.s[x].p = w THEN [st.s[x] EXCEPT !.p = v] ELSE st.s[x]]]

(***************************************************************************)
(* Results.  "*" in key/rt/sv means "not specified".                       *)
(***************************************************************************)
Res(st, ok, code, key, rt, sv, out) ==
  [st |-> st, ok |-> ok, code |-> code, key |-> key, rt |-> rt, sv |-> sv, out |-> out]
Done(st)            == Res(st, TRUE, "Success", "*", "*", "*", {})
DoneOut(st, out)    == Res(st, TRUE, "Success", "*", "*", "*", out)
\* calls without a result structure ("-")
Bool(st, b)         == Res(st, b, "-", "*", "*", "*", {})
Void(st)            == Res(st, TRUE, "-", "*", "*", "*", {})
Fail(st, code)      == Res(st, FALSE, code, "*", "*", "*", {})
FailK(st, code, k, t)     == Res(st, FALSE, code, k, t, "*", {})
FailT(st, k, t, sv)       == Res(st, FALSE, "WrongType", k, t, sv, {})

\* Checks that every keyed call on a valid host does first, in this order.
\* KeyErr = {} means the key and the type are right.
KeyErr(st, v, k, t, stOnErr) ==
  IF ~HasKey(st, v, k) THEN {FailK(stOnErr, "WrongKey", k, t)}
  ELSE IF KeyRec(st, v, k).t # t THEN {FailT(stOnErr, k, t, KeyRec(st, v, k).t)}
  ELSE {}
HostKeyErr(st, h, k, t, stOnErr) ==
  IF ~HostValid(st, h) THEN {FailK(st, "ParentVaultNotValid", k, t)}
  ELSE KeyErr(st, HostVault(st, h), k, t, stOnErr)

(***************************************************************************)
(* Key schema                                                              *)
(***************************************************************************)
AddColumn(st, v, key, val) ==     \* val: id -> value of the new key
  [st EXCEPT !.v[v].keys = Append(@, key),
             !.rec = [i \in DOMAIN st.rec |->
                        IF st.rec[i].v = v
                        THEN [st.rec[i] EXCEPT !.d = [k \in (DOMAIN @) \cup {key.k} |->
                                                        IF k = key.k THEN val[i] ELSE @[k]]]
                        ELSE st.rec[i]]]

AddKey(st, op) ==
  IF HasKey(st, op.v, op.k) THEN {Bool(st, FALSE)}
  ELSE {Bool(AddColumn(st, op.v, [k |-> op.k, t |-> op.t, u |-> FALSE, d |-> op.n],
                       [i \in RecsOf(st, op.v) |-> op.n]), TRUE)}

AddUKey(st, op) ==
  IF HasKey(st, op.v, op.k)
  THEN {Res(st, FALSE, "DuplicateKey", op.k, op.t, KeyRec(st, op.v, op.k).t, {})}
  ELSE IF RecsOf(st, op.v) # {} THEN {FailK(st, "TryToAddUniqueKeyInNonEmptyVaultWithoutLambda", op.k, op.t)}
  ELSE {Done(AddColumn(st, op.v, [k |-> op.k, t |-> op.t, u |-> TRUE, d |-> ZeroOf(op.t)], [i \in {} |-> 0]))}

\* op.vals: the values the user function returns for counter = 0, 1, ...
\* (cyclically).  Which record gets which counter is not specified.
FnVal(op, c) == op.vals[(c % Len(op.vals)) + 1]
AddUKeyF(st, op, h) ==
  LET R == RecsOf(st, op.v)  n == Cardinality(R)
      V == {FnVal(op, c) : c \in 0..(n-1)}
      key == [k |-> op.k, t |-> op.t, u |-> TRUE, d |-> ZeroOf(op.t)]
  IN IF HasKey(st, op.v, op.k)
     THEN {Res(st, FALSE, "DuplicateKey", op.k, op.t, KeyRec(st, op.v, op.k).t, {})}
     ELSE IF Cardinality(V) < n THEN {FailK(st, "UniqueKeyValueAlredyInSet", op.k, op.t)}
     ELSE LET assigns == IF IsTr(h)
                         THEN IF \A i \in R : i \in DOMAIN h.rec /\ op.k \in DOMAIN h.rec[i].d
                              THEN {[i \in R |-> h.rec[i].d[op.k]]} ELSE {}
                         ELSE IF IsGen(h)
                         THEN LET q == SetToSeq(R) IN {[i \in R |-> FnVal(op, (CHOOSE j \in 1..n : q[j] = i) - 1)]}
                         ELSE [R -> V]
          IN {Done(AddColumn(st, op.v, key, a)) : a \in {x \in assigns : Range(x) = V}}

UpdKey(st, op) ==
  LET e == KeyErr(st, op.v, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE IF KeyRec(st, op.v, op.k).u THEN {FailK(st, "UniqueKey", op.k, op.t)}
  ELSE {Done([st EXCEPT !.v[op.v].keys = [i \in DOMAIN @ |-> IF @[i].k = op.k THEN [@[i] EXCEPT !.d = op.n] ELSE @[i]]])}

RemKey(st, op) ==
  IF ~HasKey(st, op.v, op.k) THEN {Bool(st, FALSE)}
  ELSE {Bool([st EXCEPT !.v[op.v].keys = SelectSeq(@, LAMBDA x : x.k # op.k),
                        !.rec = [i \in DOMAIN st.rec |->
                                   IF st.rec[i].v = op.v
                                   THEN [st.rec[i] EXCEPT !.d = [k \in (DOMAIN @) \ {op.k} |-> @[k]]]
                                   ELSE st.rec[i]]], TRUE)}

GetKeyValue(st, op) ==
  LET e == HostKeyErr(st, op.h, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE LET key == KeyRec(st, HostVault(st, op.h), op.k) IN
       IF key.u THEN {FailK(st, "UniqueKey", op.k, op.t)} ELSE {DoneOut(st, {key.d})}

(***************************************************************************)
(* Records of a vault                                                      *)
(***************************************************************************)
\* Unique keys of v for which another record already has the value d[k]
Clashes(st, v, d, self) ==
  {k \in UniqueOf(st, v) : \E i \in RecsOf(st, v) \ {self} : Val(st, i, k) = d[k]}

Defaults(st, v) == [k \in KeyNamesOf(st, v) |-> KeyRec(st, v, k).d]
BadParam(st, v, ps, i) == ~HasKey(st, v, ps[i].k) \/ KeyRec(st, v, ps[i].k).t # ps[i].t
RECURSIVE Overlay(_, _, _)
Overlay(d, ps, i) == IF i > Len(ps) THEN d ELSE Overlay([d EXCEPT ![ps[i].k] = ps[i].n], ps, i + 1)

FreshId(st) == CHOOSE i \in 1..(Cardinality(DOMAIN st.rec) + 1) : i \notin DOMAIN st.rec
NewIds(st, h) == (DOMAIN h.rec) \ (DOMAIN st.rec)

AddRec(st, v, id, d) ==
  [st EXCEPT !.rec = [i \in (DOMAIN st.rec) \cup {id} |-> IF i = id THEN [v |-> v, d |-> d] ELSE st.rec[i]]]

\* op.r = 0: the overload without a ref
Create(st, op, h) ==
  LET v == op.v  ps == op.ps
      bad == {i \in DOMAIN ps : BadParam(st, v, ps, i)}
  IN IF bad # {}
     THEN LET i == CHOOSE x \in bad : \A y \in bad : x <= y IN KeyErr(st, v, ps[i].k, ps[i].t, st)
     ELSE LET d == Overlay(Defaults(st, v), ps, 1)
              cl == Clashes(st, v, d, 0)
          IN IF cl # {}
             THEN {FailK(st, "UniqueKeyValueAlredyInSet", k, KeyRec(st, v, k).t) : k \in cl}
             ELSE LET ids == IF IsTr(h) THEN NewIds(st, h) ELSE {FreshId(st)}
                      put(s, id) == IF op.r = 0 THEN s ELSE [s EXCEPT !.r[op.r] = id]
                  IN {Done(put(AddRec(st, v, id, d), id)) : id \in ids}

\* Import of a file: every row is a Create of its own, and a row that cannot be created is reported and left out.
\* op.cols: [k, t] of the columns; op.rows: their values, -1 stands for a text that is no value of the type.
\* Errors: <<line, keys>>, one of the keys is reported.
ImpRow(st, op, off, a, no) ==
  LET v == op.v  row == op.rows[no]  n == Min2(Len(op.cols), Len(row))
      bad == {i \in 1..n : ~HasKey(st, v, op.cols[i].k) \/ row[i] = -1}
  IN IF bad # {}
     THEN [a EXCEPT !.errs = Append(@, <<no + off, {op.cols[CHOOSE x \in bad : \A y \in bad : x <= y].k}>>)]
     ELSE IF n = 0 THEN a          \* a blank line is no row
     ELSE LET d == Overlay(Defaults(st, v), [i \in 1..n |-> [k |-> op.cols[i].k, n |-> row[i]]], 1)
              cl == Clashes(st, v, d, 0) \cup {k \in UniqueOf(st, v) : \E j \in DOMAIN a.ds : a.ds[j][k] = d[k]}
          IN IF cl # {} THEN [a EXCEPT !.errs = Append(@, <<no, cl>>)] ELSE [a EXCEPT !.ds = Append(@, d)]
Imported(st, op) ==
  FoldLeft(LAMBDA a, no : ImpRow(st, op, IF op.mode = "user" THEN 0 ELSE 1, a, no), [ds |-> <<>>, errs |-> <<>>], [i \in DOMAIN op.rows |-> i])
\* the multisets {f[x] : x in A} and {g[x] : x in B} are equal
SameBag(A, f, B, g) ==
  /\ Cardinality(A) = Cardinality(B)
  /\ \A x \in A : Cardinality({y \in A : f[y] = f[x]}) = Cardinality({y \in B : g[y] = f[x]})
Import(st, op, h) ==
  LET ds == Imported(st, op).ds
      put(N, dat) == [st EXCEPT !.rec = [i \in (DOMAIN st.rec) \cup N |-> IF i \in N THEN [v |-> op.v, d |-> dat[i]] ELSE st.rec[i]]]
  IN IF IsTr(h)
     THEN LET N == NewIds(st, h)  dat == [i \in N |-> h.rec[i].d]
          IN IF (\A i \in N : h.rec[i].v = op.v) /\ SameBag(DOMAIN ds, ds, N, dat) THEN {Bool(put(N, dat), TRUE)} ELSE {}
     ELSE LET free == FirstK((1..(Cardinality(DOMAIN st.rec) + Len(ds))) \ DOMAIN st.rec, Len(ds))
              f == SetToSeq(free)
          IN {Bool(put(free, [i \in free |-> ds[CHOOSE j \in DOMAIN f : f[j] = i]]), TRUE)}
ImportErrsOK(st, op, errs) ==
  LET e == Imported(st, op).errs IN
  Len(errs) = Len(e) /\ \A i \in DOMAIN e : errs[i][1] = e[i][1] /\ errs[i][2] \in e[i][2]

EraseRef(st, op) ==
  LET id == st.r[op.r] IN
  IF id # 0 /\ st.rec[id].v = op.v THEN {Bool(Kill(st, {id}), TRUE)} ELSE {Bool(st, FALSE)}

Matches(st, h, k, n) == {i \in HostRecs(st, h) : Val(st, i, k) = n}
Limit(amt, n) == IF amt < 0 THEN n ELSE Min2(amt, n)        \* amt = -1: all

\* k-subsets of M, or the one observed to have disappeared
GonePick(M, k, h) ==
  IF IsTr(h) THEN LET X == M \ DOMAIN h.rec IN IF Cardinality(X) = k THEN {X} ELSE {}
  ELSE IF IsGen(h) THEN {FirstK(M, k)} ELSE kSub(k, M)

EraseKV(st, op, h) ==
  LET e == KeyErr(st, op.v, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE LET M == Matches(st, <<"v", op.v>>, op.k, op.n) IN
       IF M = {} THEN {FailK(st, "WrongValue", op.k, op.t)}
       ELSE {Done(Kill(st, X)) : X \in GonePick(M, 1, h)}

EraseMany(st, op, h) ==
  LET e == KeyErr(st, op.v, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE LET M == Matches(st, <<"v", op.v>>, op.k, op.n) IN
       IF M = {} THEN {FailK(st, "WrongValue", op.k, op.t)}
       ELSE {Done(Kill(st, X)) : X \in GonePick(M, Limit(op.amt, Cardinality(M)), h)}

DropData(st, op) == {Void(Kill(st, RecsOf(st, op.v)))}

(***************************************************************************)
(* Refs                                                                    *)
(***************************************************************************)
SetOne(st, id, k, t, n) ==
  LET v == st.rec[id].v  e == KeyErr(st, v, k, t, st) IN
  IF e # {} THEN e
  ELSE LET d == [st.rec[id].d EXCEPT ![k] = n] IN
       IF k \in Clashes(st, v, d, id) THEN {FailK(st, "UniqueKeyValueAlredyInSet", k, t)}
       ELSE {Done([st EXCEPT !.rec[id].d = d])}

SetData(st, op) ==
  IF st.r[op.r] = 0 THEN {FailK(st, "DataRecordNotValid", op.k, op.t)}
  ELSE SetOne(st, st.r[op.r], op.k, op.t, op.n)

\* The batch form stops at the first parameter that fails and keeps the earlier ones
RECURSIVE SetSeq(_, _, _, _)
SetSeq(st, id, ps, i) ==
  LET o == SetOne(st, id, ps[i].k, ps[i].t, ps[i].n) IN
  IF i = Len(ps) \/ \E x \in o : ~x.ok THEN o
  ELSE UNION {SetSeq(x.st, id, ps, i + 1) : x \in o}
SetDataV(st, op) ==
  IF st.r[op.r] = 0 THEN {Fail(st, "DataRecordNotValid")}
  ELSE IF op.ps = <<>> THEN {Res(st, TRUE, "*", "*", "*", "*", {})}
  ELSE SetSeq(st, st.r[op.r], op.ps, 1)

GetData(st, op) ==
  IF st.r[op.r] = 0 THEN {FailK(st, "DataRecordNotValid", op.k, op.t)}
  ELSE LET id == st.r[op.r]  e == KeyErr(st, st.rec[id].v, op.k, op.t, st) IN
       IF e # {} THEN e ELSE {DoneOut(st, {Val(st, id, op.k)})}

\* The value as text: no type is asked for
RefStr(st, op) ==
  IF st.r[op.r] = 0 THEN {FailK(st, "DataRecordNotValid", op.k, "str")}
  ELSE IF ~HasKey(st, st.rec[st.r[op.r]].v, op.k) THEN {FailK(st, "WrongKey", op.k, "str")}
  ELSE {Done(st)}
RefHasKey(st, op) == {Bool(st, st.r[op.r] # 0 /\ HasKey(st, st.rec[st.r[op.r]].v, op.k))}
KeyType(st, op) ==
  IF HostValid(st, op.h) /\ HasKey(st, HostVault(st, op.h), op.k)
  THEN {Res(st, TRUE, KeyRec(st, HostVault(st, op.h), op.k).t, "*", "*", "*", {})}
  ELSE {Res(st, FALSE, "void", "*", "*", "*", {})}
IsKey(st, op) == {Bool(st, HostValid(st, op.h) /\ HasKey(st, HostVault(st, op.h), op.k))}

RefCopy(st, op)  == {Void([st EXCEPT !.r[op.r] = st.r[op.q]])}
RefMove(st, op)  == {Void(IF op.r = op.q THEN st ELSE [st EXCEPT !.r[op.r] = st.r[op.q], !.r[op.q] = 0])}
RefReset(st, op) == {Void([st EXCEPT !.r[op.r] = 0])}
RefEq(st, op)    == {Bool(st, st.r[op.r] = st.r[op.q])}

(***************************************************************************)
(* Look-ups that put one record into a ref                                 *)
(***************************************************************************)
\* GetRecord: the ref is reset when nothing has the value, and untouched on a wrong key or type
GetRec(st, op, h) ==
  LET e == HostKeyErr(st, op.h, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE LET M == Matches(st, op.h, op.k, op.n)
           P == IF IsTr(h) THEN M \cap {h.ref[op.r]} ELSE M
       IN IF M = {} THEN {FailK([st EXCEPT !.r[op.r] = 0], "WrongValue", op.k, op.t)}
          ELSE {Done([st EXCEPT !.r[op.r] = i]) : i \in P}

\* Take element number op.i of GetSortedRecords (or of the records SortBy visits)
AtPosition(st, h, k, rev, i) ==     \* records that may stand at position i of the sorted list
  LET R == HostRecs(st, h) IN
  {x \in R : LET before == {y \in R : IF rev THEN Val(st,y,k) > Val(st,x,k) ELSE Val(st,y,k) < Val(st,x,k)}
                 notAfter == {y \in R : IF rev THEN Val(st,y,k) >= Val(st,x,k) ELSE Val(st,y,k) <= Val(st,x,k)}
             IN Cardinality(before) < i /\ i <= Cardinality(notAfter)}
SortRef(st, op, h) ==
  IF ~HostValid(st, op.h) \/ ~HasKey(st, HostVault(st, op.h), op.k) \/ op.i > Cardinality(HostRecs(st, op.h))
  THEN {Bool(st, FALSE)}
  ELSE LET C == AtPosition(st, op.h, op.k, op.rev, op.i)
           P == IF IsTr(h) THEN C \cap {h.ref[op.r]} ELSE C
       IN {Bool([st EXCEPT !.r[op.r] = i], TRUE) : i \in P}

GetRecs(st, op) ==
  LET e == HostKeyErr(st, op.h, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE IF Matches(st, op.h, op.k, op.n) = {} THEN {FailK(st, "WrongValue", op.k, op.t)} ELSE {Done(st)}

(***************************************************************************)
(* Queries into a record set                                               *)
(***************************************************************************)
Cmp(kind, x, n, n2, ib, ie) ==
  CASE kind = "Eq" -> x = n   [] kind = "Gt" -> x > n   [] kind = "Ge" -> x >= n
    [] kind = "Lt" -> x < n   [] kind = "Le" -> x <= n
    [] kind = "In" -> (x > n \/ (ib /\ x = n)) /\ (x < n2 \/ (ie /\ x = n2))

\* A user predicate: <<>> (none) or <<k, t, kind, n>>: "GetData<t>(k) succeeds and its value Cmp n"
PredOK(st, i, pr) ==
  \/ pr = <<>>
  \/ /\ HasKey(st, st.rec[i].v, pr[1])
     /\ KeyRec(st, st.rec[i].v, pr[1]).t = pr[2]
     /\ Cmp(pr[3], Val(st, i, pr[1]), pr[4], 0, FALSE, FALSE)

\* The result set is bound to the vault and emptied before the request is evaluated
Bind(st, s, v) == [st EXCEPT !.s[s].p = v, !.s[s].m = {}]

\* Results R that a request limited to amt records may give; M match, P of them satisfy the predicate.
\* Which ones are taken, and whether the limit counts the records that the predicate rejects,
\* is not specified.
LimitOK(R, M, P, amt) ==
  /\ R \subseteq P
  /\ LET k == Limit(amt, Cardinality(M)) IN
     Cardinality(R) <= k /\ k - Cardinality(R) <= Cardinality(M \ P)
ReqResults(M, P, amt, s, h) ==
  IF amt < 0 THEN {P}
  ELSE LET C == IF IsTr(h) THEN {h.mem[s]}
                ELSE IF IsGen(h) THEN {FirstK(P, Limit(amt, Cardinality(P)))} ELSE SUBSET P IN {R \in C : LimitOK(R, M, P, amt)}

Req(st, op, h) ==
  IF ~HostValid(st, op.h) THEN {FailK(st, "ParentVaultNotValid", op.k, op.t)}
  ELSE IF op.h = <<"s", op.s>> THEN {Fail(st, "SameVaultRecordSet")}
  ELSE LET v == HostVault(st, op.h)
           e == KeyErr(st, v, op.k, op.t, Bind(st, op.s, v))
       IN IF e # {} THEN e
          ELSE LET M == {i \in HostRecs(st, op.h) : Cmp(op.kind, Val(st, i, op.k), op.n, op.n2, op.ib, op.ie)}
                   P == {i \in M : PredOK(st, i, op.pr)}
                   \* op.kr # 0: the user predicate stores the ref it gets in that ref (the last one stays)
                   K == IF op.kr = 0 \/ op.amt >= 0 \/ M = {} THEN {0}
                        ELSE IF IsTr(h) THEN M \cap {h.ref[op.kr]} ELSE M
                   Keep(x, i) == IF i = 0 THEN x ELSE [x EXCEPT !.r[op.kr] = i]
               IN {Done(Keep([Bind(st, op.s, v) EXCEPT !.s[op.s].m = R], i)) :
                     R \in ReqResults(M, P, op.amt, op.s, h), i \in K}

\* Compound requests.  tree = ["l", kind, k, t, n, pr] | ["a", left, right] | ["o", left, right]
RECURSIVE TreeErr(_, _, _)
TreeErr(st, v, t) ==       \* errors of the leaves
  IF t.x = "l" THEN KeyErr(st, v, t.k, t.t, st) ELSE TreeErr(st, v, t.l) \cup TreeErr(st, v, t.r)
RECURSIVE TreeSat(_, _, _)
TreeSat(st, R, t) ==
  CASE t.x = "l" -> {i \in R : Cmp(t.kind, Val(st, i, t.k), t.n, 0, FALSE, FALSE) /\ PredOK(st, i, t.pr)}
    [] t.x = "a" -> TreeSat(st, R, t.l) \cap TreeSat(st, R, t.r)
    [] t.x = "o" -> TreeSat(st, R, t.l) \cup TreeSat(st, R, t.r)

ReqX(st, op) ==
  IF ~HostValid(st, op.h) THEN {Fail(st, "ParentVaultNotValid")}
  ELSE IF op.h = <<"s", op.s>> THEN {Fail(st, "SameVaultRecordSet")}
  ELSE LET v == HostVault(st, op.h)  b == Bind(st, op.s, v)  e == TreeErr(st, v, op.tree)
       IN IF e # {} THEN {[x EXCEPT !.st = b] : x \in e}
          ELSE {Done([b EXCEPT !.s[op.s].m = TreeSat(st, HostRecs(st, op.h), op.tree)])}

(***************************************************************************)
(* Record sets                                                             *)
(***************************************************************************)
SAdd(st, op) ==
  LET s == st.s[op.s]  id == st.r[op.r] IN
  IF s.p = 0 THEN {Fail(st, "ParentVaultNotValid")}
  ELSE IF id = 0 THEN {Fail(st, "DataRecordNotValid")}
  ELSE IF st.rec[id].v # s.p THEN {Fail(st, "ParentVaultNotMatch")}
  ELSE IF id \in s.m THEN {Fail(st, "RecordAlredyInSet")}
  ELSE {Done([st EXCEPT !.s[op.s].m = @ \cup {id}])}

SRem(st, op) ==
  LET id == st.r[op.r] IN
  IF id # 0 /\ id \in st.s[op.s].m THEN {Bool([st EXCEPT !.s[op.s].m = @ \ {id}], TRUE)} ELSE {Bool(st, FALSE)}

SCheck(st, op) == {Bool(st, st.r[op.r] # 0 /\ st.r[op.r] \in st.s[op.s].m)}

LeftPick(M, k, s, h) ==
  IF IsTr(h) THEN LET X == M \ h.mem[s] IN IF Cardinality(X) = k THEN {X} ELSE {}
  ELSE IF IsGen(h) THEN {FirstK(M, k)} ELSE kSub(k, M)
SRemMany(st, op, h) ==        \* op.amt = 1 for the single-record form
  LET hh == <<"s", op.s>>  e == HostKeyErr(st, hh, op.k, op.t, st) IN
  IF e # {} THEN e
  ELSE LET M == Matches(st, hh, op.k, op.n) IN
       IF M = {} THEN {FailK(st, "WrongValue", op.k, op.t)}
       ELSE {Done([st EXCEPT !.s[op.s].m = @ \ X]) : X \in LeftPick(M, Limit(op.amt, Cardinality(M)), op.s, h)}

SClear(st, op) == {Void([st EXCEPT !.s[op.s].m = {}])}
SReset(st, op) == {Void([st EXCEPT !.s[op.s] = FreshSet])}
SNew(st, op)   == {Void([st EXCEPT !.s[op.s] = FreshSet])}
SDel(st, op)   == {Void([st EXCEPT !.s[op.s] = OffSet])}

\* Copy and move, construction and assignment alike
SCopy(st, op) == {Void([st EXCEPT !.s[op.s] = st.s[op.q]])}
SMove(st, op) == {Void(IF op.s = op.q THEN st ELSE [st EXCEPT !.s[op.s] = st.s[op.q], !.s[op.q] = FreshSet])}

SAlg(st, op) ==               \* op.f in Join, Exclude, Intersect
  LET a == st.s[op.s]  b == st.s[op.q] IN
  IF a.p = 0 THEN {Fail(st, "ParentVaultNotValid")}
  ELSE IF b.p = 0 THEN {Fail(st, "OtherParentVaultNotValid")}
  ELSE IF a.p # b.p THEN {Fail(st, "ParentVaultNotMatch")}
  ELSE IF op.s = op.q THEN {Fail(st, "SameVaultRecordSet")}
  ELSE {Done([st EXCEPT !.s[op.s].m = CASE op.f = "Join" -> a.m \cup b.m
                                        [] op.f = "Exclude" -> a.m \ b.m
                                        [] op.f = "Intersect" -> a.m \cap b.m])}

SAlgF(st, op) ==              \* op.f in Union, Intersection; op.w is the result
  LET a == st.s[op.s]  b == st.s[op.q] IN
  IF op.s = op.q \/ op.s = op.w \/ op.q = op.w THEN {Fail(st, "SameVaultRecordSet")}
  ELSE IF a.p = 0 THEN {Fail(st, "ParentVaultNotValid")}
  ELSE IF b.p = 0 THEN {Fail(st, "OtherParentVaultNotValid")}
  ELSE IF a.p # b.p THEN {Fail(st, "ParentVaultNotMatch")}
  ELSE {Res([st EXCEPT !.s[op.w] = [on |-> TRUE, p |-> a.p,
                          m |-> IF op.f = "Union" THEN a.m \cup b.m ELSE a.m \cap b.m]],
            TRUE, "Success", "*", "*", "*", {})}

SEq(st, op) == {Bool(st, st.s[op.s].p = st.s[op.q].p /\ st.s[op.s].m = st.s[op.q].m)}

(***************************************************************************)
(* Vault life cycle                                                        *)
(***************************************************************************)
VNew(st, op)      == {Void([st EXCEPT !.v[op.v] = EmptyVault])}
VDel(st, op)      == {Void([Drop(st, op.v) EXCEPT !.v[op.v] = OffVault])}
DropVault(st, op) == {Void(Drop(st, op.v))}

\* v receives copies of w's keys and records under fresh ids; base is the state without v's old contents,
\* used are ids that the copies do not get (those of the records that are dropped by the same call included)
CopyInto(base, used, v, w, h) ==
  LET R == RecsOf(base, w)
      dataOf == [i \in R |-> base.rec[i].d]
      keyed == [base EXCEPT !.v[v] = base.v[w]]
      withRecs(N, dat) == [keyed EXCEPT !.rec = [i \in (DOMAIN base.rec) \cup N |->
                              IF i \in N THEN [v |-> v, d |-> dat[i]] ELSE base.rec[i]]]
  IN IF IsTr(h)
     THEN LET N == NewIds(base, h)  dat == [i \in N |-> h.rec[i].d]
          IN IF (\A i \in N : h.rec[i].v = v) /\ SameBag(R, dataOf, N, dat) THEN {withRecs(N, dat)} ELSE {}
     ELSE LET free == FirstK((1..(Cardinality(used) + Cardinality(R))) \ used, Cardinality(R))
              q == SetToSeq(R)  f == SetToSeq(free)
          IN {withRecs(free, [i \in free |-> dataOf[q[CHOOSE j \in DOMAIN f : f[j] = i]]])}

VCopyC(st, op, h) == {Void(x) : x \in CopyInto(st, DOMAIN st.rec, op.v, op.w, h)}
VMoveC(st, op)    == {Void(MoveInto(st, op.v, op.w))}
VCopyA(st, op, h) == IF op.v = op.w THEN {Void(st)}
                     ELSE {Void(x) : x \in CopyInto(Drop(st, op.v), DOMAIN st.rec, op.v, op.w, h)}
VMoveA(st, op)    == IF op.v = op.w THEN {Void(st)} ELSE {Void(MoveInto(Drop(st, op.v), op.v, op.w))}

(***************************************************************************)
(* Calls that return a list and change nothing: judgement of the list.     *)
(* seq: the sequence of record ids that was returned / visited / printed   *)
(***************************************************************************)
IsSortedBy(st, seq, k, rev) ==
  \A i \in 1..(Len(seq) - 1) : IF rev THEN Val(st, seq[i], k) >= Val(st, seq[i+1], k)
                                      ELSE Val(st, seq[i], k) <= Val(st, seq[i+1], k)
SortedOK(st, h, k, rev, amt, seq) ==
  IF ~HostValid(st, h) \/ ~HasKey(st, HostVault(st, h), k) THEN seq = <<>>
  ELSE LET R == HostRecs(st, h) IN
       /\ Len(seq) = Limit(amt, Cardinality(R))
       /\ Range(seq) \subseteq R
       /\ Cardinality(Range(seq)) = Len(seq)
       /\ IsSortedBy(st, seq, k, rev)
       /\ seq # <<>> => \A x \in R \ Range(seq) : LET l == Val(st, seq[Len(seq)], k) IN
                           IF rev THEN Val(st, x, k) <= l ELSE Val(st, x, k) >= l

\* pin: what the list held before the call.  A call that fails leaves it or empties it.
\* The callback of SortBy returns FALSE on its op.stop-th call (0: never)
SortByLimit(op) == IF op.stop = 0 THEN op.amt
                   ELSE IF op.amt < 0 THEN op.stop ELSE Min2(op.amt, op.stop)

GetRecsOK(st, op, seq, pin) ==
  IF HostKeyErr(st, op.h, op.k, op.t, st) # {} THEN seq = <<>> \/ seq = pin
  ELSE LET M == Matches(st, op.h, op.k, op.n) IN
       /\ Range(seq) \subseteq M
       /\ Len(seq) = Cardinality(Range(seq))
       /\ Len(seq) = Limit(op.amt, Cardinality(M))

\* Rows of values in key order
HostKeys(st, h) == IF HostValid(st, h) THEN KeysOf(st, HostVault(st, h)) ELSE <<>>
RowOf(st, i) == LET ks == KeysOf(st, st.rec[i].v) IN [j \in DOMAIN ks |-> Val(st, i, ks[j].k)]
\* rows = a listing of the records R in any order
RowsOK(st, R, rows) ==
  /\ Len(rows) = Cardinality(R)
  /\ \A x \in R : LET y == RowOf(st, x) IN
       Cardinality({j \in DOMAIN rows : rows[j] = y}) = Cardinality({z \in R : RowOf(st, z) = y})

\* Print writes a table when there are keys, PrintAsTable (op.tab) when there are records
PrintsTable(st, op) ==
  /\ HostValid(st, op.h)
  /\ IF op.tab THEN HasKey(st, HostVault(st, op.h), op.k) /\ HostRecs(st, op.h) # {} ELSE HostKeys(st, op.h) # <<>>
PrintOK(st, op, ok, seq, rows, tot) ==
  IF ~ok THEN seq = <<>> /\ (op.tab \/ ~HostValid(st, op.h) \/ tot = Cardinality(HostRecs(st, op.h)))
  ELSE LET ks == HostKeys(st, op.h)
           cols == IF op.cols = <<>> THEN [j \in DOMAIN ks |-> ks[j].k] ELSE op.cols
           k == IF op.k = "" THEN cols[1] ELSE op.k
       IN /\ SortedOK(st, op.h, k, op.rev, op.amt, seq)
          /\ tot = Cardinality(HostRecs(st, op.h))
          /\ Len(rows) = Len(seq)
          /\ \A j \in DOMAIN seq : rows[j] = [c \in DOMAIN cols |-> Val(st, seq[j], cols[c])]

\* A table of refs: a ref whose record is gone, or whose vault lacks a column, has blank cells (-1) there
TableOK(st, op, ok, seq, rows, tot) ==
  LET ids == [j \in DOMAIN op.rs |-> st.r[op.rs[j]]]
      ks == KeysOf(st, st.rec[ids[1]].v)
      cols == IF op.cols = <<>> THEN [j \in DOMAIN ks |-> ks[j].k] ELSE op.cols
      n == Limit(op.amt, Len(ids))
      cell(i, k) == IF i = 0 THEN -1 ELSE IF HasKey(st, st.rec[i].v, k) THEN Val(st, i, k) ELSE -1
  IN /\ ok /\ tot = Len(ids)
     /\ seq = IF op.id THEN SubSeq(ids, 1, n) ELSE <<>>
     /\ rows = [j \in 1..n |-> [c \in DOMAIN cols |-> cell(ids[j], cols[c])]]

\* Rows with their key names
NamedRow(st, i) == LET ks == KeysOf(st, st.rec[i].v) IN [j \in DOMAIN ks |-> <<ks[j].k, Val(st, i, ks[j].k)>>]
NamedRowsOK(st, R, rows) ==
  /\ Len(rows) = Cardinality(R)
  /\ \A x \in R : LET y == NamedRow(st, x) IN
       Cardinality({j \in DOMAIN rows : rows[j] = y}) = Cardinality({z \in R : NamedRow(st, z) = y})
NamesOf(ks) == [j \in DOMAIN ks |-> ks[j].k]
HostUnique(st, h) == {k \in Range(NamesOf(HostKeys(st, h))) : KeyRec(st, HostVault(st, h), k).u}
RefRow(st, r) == IF st.r[r] = 0 THEN <<>> ELSE NamedRow(st, st.r[r])

\* The file that was saved, read back: head are the names in its first line
SaveOK(st, op, ok, head, rows) ==
  IF ~ok THEN ~HostValid(st, op.h)
  ELSE LET ks == IF op.cols = <<>> THEN NamesOf(HostKeys(st, op.h)) ELSE op.cols
           R == HostRecs(st, op.h)
           row(x) == [j \in DOMAIN ks |-> <<ks[j], Val(st, x, ks[j])>>]
       IN ks # <<>> =>
          /\ op.hdr => head = ks
          /\ SameBag(DOMAIN rows, rows, R, [x \in R |-> row(x)])

QueryOK(st, op, ev) ==
  CASE op.o = "GetRecs" -> GetRecsOK(st, op, ev.seq, ev.pin)
    [] op.o = "Sorted"  -> SortedOK(st, op.h, op.k, op.rev, op.amt, ev.seq)
    [] op.o = "SortBy"  -> SortedOK(st, op.h, op.k, op.rev, SortByLimit(op), ev.seq)
    [] op.o = "Print"   -> PrintOK(st, op, ev.ok, ev.seq, ev.rows, ev.tot)
    [] op.o = "Table"   -> TableOK(st, op, ev.ok, ev.seq, ev.rows, ev.tot)
    [] op.o = "Save"    -> SaveOK(st, op, ev.ok, ev.names, ev.rows)
    [] op.o = "Import"  -> ImportErrsOK(st, op, ev.errs)
    [] op.o = "Size"    -> ev.tot = Cardinality(HostRecs(st, op.h))
    [] op.o = "Keys"    -> ev.names = NamesOf(HostKeys(st, op.h))
    [] op.o = "UKeys"   -> Range(ev.names) = HostUnique(st, op.h) /\ Len(ev.names) = Cardinality(Range(ev.names))
    [] op.o \in {"Strs", "Json"} -> NamedRowsOK(st, HostRecs(st, op.h), ev.rows)
    [] op.o \in {"RefStrs", "RefJson"} -> ev.rows = <<RefRow(st, op.r)>>
    [] op.o = "RefKeys" -> ev.names = [j \in DOMAIN RefRow(st, op.r) |-> RefRow(st, op.r)[j][1]]
    [] op.o = "RefStr"  -> ev.rows = IF RefStr(st, op) = {Done(st)} THEN << << <<op.k, Val(st, st.r[op.r], op.k)>> >> >> ELSE <<>>
    [] OTHER -> TRUE

\* Everything that one can ask of a vault or set (pb) and of a ref (rp) without changing it
ProbeHostOK(st, pb) ==
  LET h == pb.h  R == HostRecs(st, h)  ks == HostKeys(st, h) IN
  /\ pb.sz = Cardinality(R)
  /\ pb.keys = ks
  /\ \A j \in DOMAIN ks :
       /\ SortedOK(st, h, ks[j].k, FALSE, -1, pb.asc[j])
       /\ SortedOK(st, h, ks[j].k, TRUE, -1, pb.desc[j])
       /\ Len(pb.gr[j]) = MaxValOf[ks[j].t] + 1
       /\ \A n \in DOMAIN pb.gr[j] : LET M == Matches(st, h, ks[j].k, n - 1) IN
            Range(pb.gr[j][n]) = M /\ Len(pb.gr[j][n]) = Cardinality(M)
  /\ RowsOK(st, R, pb.strs)
  /\ pb.jok
  /\ RowsOK(st, R, pb.jrows)
  /\ pb.jn = IF pb.jarr THEN <<>> ELSE [j \in 1..Cardinality(R) |-> j - 1]
ProbeRefOK(st, rp) ==
  LET id == st.r[rp.r] IN
  IF id = 0 THEN ~rp.val /\ rp.keys = <<>> /\ rp.g = <<>> /\ rp.gs = <<>> /\ rp.st = <<>> /\ rp.js = <<>> /\ rp.pr = <<>>
  ELSE LET row == RowOf(st, id)  ks == KeysOf(st, st.rec[id].v) IN
       /\ rp.val /\ rp.keys = [j \in DOMAIN ks |-> ks[j].k]
       /\ rp.g = row /\ rp.gs = row /\ rp.st = row /\ rp.js = row /\ rp.pr = row

(***************************************************************************)
(* Preconditions of the calls (objects must exist).  Calls outside them    *)
(* are not made by the drivers.                                            *)
(***************************************************************************)
HostOn(st, h) == IF h[1] = "v" THEN st.v[h[2]].on ELSE st.s[h[2]].on
Pre(st, op) ==
  CASE op.o = "VNew" -> ~st.v[op.v].on
    [] op.o \in {"VCopyC", "VMoveC"} -> ~st.v[op.v].on /\ st.v[op.w].on
    [] op.o \in {"VCopyA", "VMoveA"} -> st.v[op.v].on /\ st.v[op.w].on
    [] op.o \in {"VDel", "DropVault", "DropData", "AddKey", "AddUKey", "AddUKeyF", "UpdKey", "RemKey",
                 "Create", "EraseRef", "EraseKV", "EraseMany"} -> st.v[op.v].on
    [] op.o = "SNew" -> ~st.s[op.s].on
    [] op.o \in {"SCopyC", "SMoveC"} -> ~st.s[op.s].on /\ st.s[op.q].on
    [] op.o \in {"SCopyA", "SMoveA", "SAlg", "SEq"} -> st.s[op.s].on /\ st.s[op.q].on
    [] op.o = "SAlgF" -> st.s[op.s].on /\ st.s[op.q].on /\ st.s[op.w].on
    [] op.o \in {"SDel", "SAdd", "SRem", "SRemKV", "SRemMany", "SClear", "SReset", "SCheck", "SParent"} -> st.s[op.s].on
    [] op.o \in {"Req", "ReqX"} -> HostOn(st, op.h) /\ st.s[op.s].on
    [] op.o \in {"GetRec", "GetKeyValue", "SortRef", "GetRecs", "Sorted", "SortBy", "Size", "Keys", "UKeys", "IsKey", "KeyType",
                 "Strs", "Json", "PrintV"} -> HostOn(st, op.h)
    [] op.o = "Errs" -> st.v[op.v].on
    [] op.o = "Table" -> op.rs # <<>> /\ (op.cols # <<>> \/ st.r[op.rs[1]] # 0)
    [] op.o = "Import" -> st.v[op.v].on /\ op.cols # <<>>
                          /\ \A i \in DOMAIN op.cols : HasKey(st, op.v, op.cols[i].k) => KeyRec(st, op.v, op.cols[i].k).t = op.cols[i].t
                          /\ \A x \in DOMAIN op.rows : Len(op.rows[x]) <= Len(op.cols) /\ \A j \in DOMAIN op.rows[x] : op.rows[x][j] = -1 => op.cols[j].t # "str"
    [] op.o \in {"Print", "Save"} -> HostOn(st, op.h) /\ (HostValid(st, op.h) \/ op.cols = <<>>)
                         /\ \A i \in DOMAIN op.cols : HasKey(st, HostVault(st, op.h), op.cols[i])
    [] OTHER -> TRUE

Step(st, op, h) ==
  CASE op.o = "AddKey"  -> AddKey(st, op)        [] op.o = "AddUKey"   -> AddUKey(st, op)
    [] op.o = "AddUKeyF" -> AddUKeyF(st, op, h)  [] op.o = "UpdKey"    -> UpdKey(st, op)
    [] op.o = "RemKey"  -> RemKey(st, op)        [] op.o = "GetKeyValue" -> GetKeyValue(st, op)
    [] op.o = "Create"  -> Create(st, op, h)     [] op.o = "EraseRef"  -> EraseRef(st, op)
    [] op.o = "EraseKV" -> EraseKV(st, op, h)    [] op.o = "EraseMany" -> EraseMany(st, op, h)
    [] op.o = "DropData" -> DropData(st, op)     [] op.o = "DropVault" -> DropVault(st, op)
    [] op.o = "SetData" -> SetData(st, op)       [] op.o = "SetDataV"  -> SetDataV(st, op)
    [] op.o = "GetData" -> GetData(st, op)       [] op.o = "RefCopy"   -> RefCopy(st, op)
    [] op.o = "RefMove" -> RefMove(st, op)       [] op.o = "RefReset"  -> RefReset(st, op)
    [] op.o = "RefEq"   -> RefEq(st, op)         [] op.o = "GetRec"    -> GetRec(st, op, h)
    [] op.o = "SortRef" -> SortRef(st, op, h)    [] op.o = "Req"       -> Req(st, op, h)
    [] op.o = "ReqX"    -> ReqX(st, op)          [] op.o = "SAdd"      -> SAdd(st, op)
    [] op.o = "SRem"    -> SRem(st, op)          [] op.o = "SCheck"    -> SCheck(st, op)
    [] op.o = "SRemKV"  -> SRemMany(st, [s |-> op.s, k |-> op.k, t |-> op.t, n |-> op.n, amt |-> 1], h)
    [] op.o = "SRemMany" -> SRemMany(st, op, h)
    [] op.o = "SClear"  -> SClear(st, op)        [] op.o = "SReset"    -> SReset(st, op)
    [] op.o = "SNew"    -> SNew(st, op)          [] op.o = "SDel"      -> SDel(st, op)
    [] op.o \in {"SCopyC", "SCopyA"} -> SCopy(st, op)
    [] op.o \in {"SMoveC", "SMoveA"} -> SMove(st, op)
    [] op.o = "SAlg"    -> SAlg(st, op)          [] op.o = "SAlgF"     -> SAlgF(st, op)
    [] op.o = "SEq"     -> SEq(st, op)
    [] op.o = "VNew"    -> VNew(st, op)          [] op.o = "VDel"      -> VDel(st, op)
    [] op.o = "VCopyC"  -> VCopyC(st, op, h)     [] op.o = "VMoveC"    -> VMoveC(st, op)
    [] op.o = "VCopyA"  -> VCopyA(st, op, h)     [] op.o = "VMoveA"    -> VMoveA(st, op)
    [] op.o = "GetRecs" -> GetRecs(st, op)
    [] op.o \in {"Sorted", "SortBy", "Nop", "Size", "Keys", "UKeys", "Strs", "Json", "RefStrs", "RefJson", "RefKeys",
                 "RefPrint", "PrintV", "Errs"} -> {Void(st)}
    [] op.o = "RefStr"  -> RefStr(st, op)        [] op.o = "RefValid"  -> {Bool(st, st.r[op.r] # 0)}
    [] op.o = "RefIsKey" -> RefHasKey(st, op)    [] op.o = "SParent"   -> {Bool(st, st.s[op.s].p # 0)}
    [] op.o = "KeyType" -> KeyType(st, op)       [] op.o = "IsKey"     -> IsKey(st, op)
    [] op.o = "Print"   -> {Bool(st, PrintsTable(st, op))}
    [] op.o = "Table"   -> {Bool(st, TRUE)}
    [] op.o = "Import"  -> Import(st, op, h)     [] op.o = "Save"      -> {Bool(st, HostValid(st, op.h))}

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
TypeInv(st) ==
  /\ \A i \in DOMAIN st.rec : LET v == st.rec[i].v IN
       /\ v \in VaultSlots /\ st.v[v].on
       /\ DOMAIN st.rec[i].d = KeyNamesOf(st, v)
       /\ \A k \in KeyNamesOf(st, v) : st.rec[i].d[k] \in 0..MaxValOf[KeyRec(st, v, k).t]
  /\ \A v \in VaultSlots : Cardinality(KeyNamesOf(st, v)) = Len(KeysOf(st, v))
\* C02
UniqueInv(st) ==
  \A v \in VaultSlots : \A k \in UniqueOf(st, v) : \A i, j \in RecsOf(st, v) :
    i # j => Val(st, i, k) # Val(st, j, k)
\* C05
SetInv(st) ==
  \A s \in SetSlots : LET x == st.s[s] IN
    /\ x.p # 0 => x.on /\ st.v[x.p].on
    /\ x.m \subseteq (IF x.p = 0 THEN {} ELSE RecsOf(st, x.p))
\* C07
RefInv(st) == \A r \in RefSlots : st.r[r] # 0 => st.r[r] \in DOMAIN st.rec
=============================================================================
