------------------------------- MODULE TraceConc -------------------------------
(***************************************************************************)
(* Linearizability of concurrent calls with respect to MVault: every call  *)
(* takes effect as one transition of MVault at some moment between its     *)
(* start (Call) and its return (Ret), and the final state is the one that  *)
(* these transitions lead to.                                              *)
(*                                                                         *)
(* The trace file is a forest: line n is an event, k its children (the     *)
(* histories of one program share their beginnings).  Events: Begin (with  *)
(* the calls that made the initial state), Call / Ret of the thread t at   *)
(* depth d (d > 0: a call made by a user callback of the call at d - 1),   *)
(* Final (the observed state when all threads are done), End, Dead.        *)
(*                                                                         *)
(* C is the set of configurations that explain the history so far: a state *)
(* and the calls under way, each with its outcome when it took effect.     *)
(* Calls take effect as late as possible: when one of them returns.        *)
(*                                                                         *)
(* Records are known by the value of their key I, which no concurrent call *)
(* changes: a record with I = i is shown as i + 1, 0 stands for a record   *)
(* that was gone when the driver looked at it, 11 for one without I.       *)
(***************************************************************************)
EXTENDS Seen, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, C, live
vars == <<n, C, live>>

IOf(st, i) == IF "I" \in DOMAIN st.rec[i].d THEN st.rec[i].d["I"] + 1 ELSE 11
RefI(st, r) == IF st.r[r] = 0 THEN 0 ELSE IOf(st, st.r[r])

ListCalls == {"GetRecs", "Sorted", "SortBy", "Size", "Keys", "UKeys", "Strs", "Json", "RefStrs", "RefJson", "RefKeys", "RefStr", "Save"}
SeqCalls == {"GetRecs", "Sorted", "SortBy"}

RECURSIVE After(_, _, _)
After(st, ops, i) == IF i > Len(ops) THEN st ELSE After((CHOOSE o \in Step(st, ops[i], NoHint) : TRUE).st, ops, i + 1)

\* A call under way
Waiting(op) == [op |-> op, done |-> FALSE, out |-> <<>>, pre |-> <<>>]
Outcome(o, op) == [ok |-> o.ok, code |-> o.code, key |-> o.key, rt |-> o.rt, sv |-> o.sv, out |-> o.out,
                   ref |-> IF "r" \in DOMAIN op /\ op.r # 0 THEN RefI(o.st, op.r) ELSE 0]
\* a query of a set that loses its vault while it runs may have prepared the set for the result before
Prepared(st, o, op) ==
  IF o.ok THEN {o.st}
  ELSE IF op.o = "SAlgF" /\ st.s[op.s].p = 0 /\ op.w \notin {op.s, op.q} THEN {o.st, [o.st EXCEPT !.s[op.w] = FreshSet]}
  ELSE IF op.o \in {"Req", "ReqX"} /\ op.h[1] = "s" /\ st.s[op.h[2]].p = 0 /\ op.s # op.h[2] THEN {o.st, [o.st EXCEPT !.s[op.s] = FreshSet]}
  ELSE {o.st}
TakeEffect(c, id) ==
  LET op == c.p[id].op IN
  UNION {{[st |-> w, p |-> [c.p EXCEPT ![id] = [op |-> op, done |-> TRUE, out |-> <<Outcome(o, op)>>,
                                                pre |-> IF op.o \in ListCalls THEN <<c.st>> ELSE <<>>]]] : w \in Prepared(c.st, o, op)} :
           o \in IF Pre(c.st, op) THEN Step(c.st, op, NoHint) ELSE {}}
\* Configurations in which id has just taken effect, others before it if need be
RECURSIVE Reach(_, _)
Reach(c, id) ==
  IF c.p[id].done THEN {c}
  ELSE UNION {UNION {Reach(x, id) : x \in TakeEffect(c, j)} : j \in {j \in DOMAIN c.p : ~c.p[j].done}}

(* Whether a ref is valid and whether a set has a vault is seen without waiting for others: while a call is under way
   that takes several of them away, some may be seen to be gone before the others are.  A call that finds one of its
   operands gone in this way does what it does without the operand. *)
RefsOf(op) == {op[f] : f \in {"r", "q"} \cap DOMAIN op} \ {0}
SetsOf(op) ==
  (IF "h" \in DOMAIN op /\ op.h[1] = "s" THEN {op.h[2]} ELSE {})
  \cup (IF op.o \in {"SCopyC", "SMoveC", "SCopyA", "SMoveA"} THEN {op.q}
        ELSE IF op.o \in {"SAlg", "SAlgF", "SEq"} THEN {op.s, op.q}
        ELSE IF op.o \in {"SDel", "SAdd", "SRem", "SRemKV", "SRemMany", "SClear", "SReset", "SCheck", "SParent"} THEN {op.s} ELSE {})
Gone(st, later, op) ==
  \/ op.o \notin {"SAlg", "SAlgF", "SEq", "SCopyC", "SMoveC", "SCopyA", "SMoveA"} /\ \E r \in RefsOf(op) : st.r[r] # 0 /\ later.r[r] = 0
  \/ \E x \in SetsOf(op) : st.s[x].p # 0 /\ later.s[x].p = 0
Without(st, op) ==
  LET With(x, v) == [st EXCEPT !.s[x] = v] IN
  CASE op.o \in {"SCopyC", "SMoveC", "SCopyA", "SMoveA"} -> {With(op.s, FreshSet)}
    [] op.o = "SDel" -> {With(op.s, OffSet)}
    [] op.o = "SAlgF" -> {st, With(op.w, FreshSet)}
    [] op.o \in {"Req", "ReqX"} -> {st, With(op.s, FreshSet)}
    [] OTHER -> {st}
Early(c, id) ==
  IF c.p[id].done THEN {}
  ELSE LET op == c.p[id].op
           c0 == [c EXCEPT !.p = [x \in (DOMAIN @) \ {id} |-> @[x]]]
           S == {y.st : y \in UNION {Reach(c0, j) : j \in {j \in DOMAIN c0.p : j[1] # id[1] /\ ~c0.p[j].done}}}
       IN UNION {UNION {{[st |-> w, p |-> [c.p EXCEPT ![id] = [op |-> op, done |-> TRUE, out |-> <<Outcome(o, op)>>, pre |-> IF op.o \in ListCalls THEN <<st>> ELSE <<>>]]] :
                           w \in Without(c.st, op)} : o \in IF Pre(st, op) THEN Step(st, op, NoHint) ELSE {}} : st \in {st \in S : Gone(c.st, st, op)}}

Agrees(spec, seen) == spec = "*" \/ spec = seen
\* Lists of records that the list of numbers may stand for
RECURSIVE Lists(_, _, _, _)
Lists(st, R, seq, i) ==
  IF i > Len(seq) THEN {<<>>}
  ELSE LET rest == Lists(st, R, seq, i + 1) IN
       UNION {{<<x>> \o y : y \in rest} : x \in {x \in R : seq[i] = 0 \/ IOf(st, x) = seq[i]}}
ListOK(st, op, ev) ==
  IF op.o \in SeqCalls
  THEN \E f \in Lists(st, IF HostValid(st, op.h) THEN HostRecs(st, op.h) ELSE {}, ev.seq, 1) :
         QueryOK(st, op, [seq |-> f, pin |-> <<>>])
  ELSE QueryOK(st, op, ev)
ResultOK(call, ev) ==
  LET o == call.out[1] IN
  /\ o.ok = ev.ok /\ Agrees(o.code, ev.code)
  /\ Agrees(o.key, ev.key) /\ Agrees(o.rt, ev.rt) /\ Agrees(o.sv, ev.sv)
  /\ IF o.out # {} THEN ev.out \in o.out ELSE ev.out = ev.oin
  /\ ev.ref \in {-1, 0} \/ ev.ref = o.ref
  /\ call.op.o \in ListCalls => ListOK(call.pre[1], call.op, ev)

\* States that differ only in the names of the records
RowSet(st) == {st.rec[i] : i \in DOMAIN st.rec}
Canon(st) == [v |-> st.v,
              n |-> Cardinality(DOMAIN st.rec),
              rec |-> RowSet(st),
              s |-> [x \in SetSlots |-> [on |-> st.s[x].on, p |-> st.s[x].p, m |-> {IOf(st, i) : i \in st.s[x].m}, n |-> Cardinality(st.s[x].m)]],
              r |-> [x \in RefSlots |-> IF st.r[x] = 0 THEN <<0, 0>> ELSE <<st.rec[st.r[x]].v, IOf(st, st.r[x])>>]]
FinalOK(S, ev) == \A i \in DOMAIN ev.pb : ProbeHostOK(S, ev.pb[i])

Id(ev) == <<ev.t, ev.d>>
NextC(ev) ==
  CASE ev.e = "Call" -> {[c EXCEPT !.p = [x \in (DOMAIN @) \cup {Id(ev)} |-> IF x = Id(ev) THEN Waiting(ev.op) ELSE @[x]]] : c \in C}
    [] ev.e = "Ret" -> {[x EXCEPT !.p = [y \in (DOMAIN @) \ {Id(ev)} |-> @[y]]] :
                          x \in {x \in UNION {Reach(c, Id(ev)) \cup Early(c, Id(ev)) : c \in C} : ResultOK(x.p[Id(ev)], ev)}}
    [] ev.e = "Final" -> IF ~SeenOK(ev.view) THEN {}
                         ELSE LET S == SeenState(ev.view) IN
                              IF ~FinalOK(S, ev) THEN {} ELSE {c \in C : Canon(c.st) = Canon(S)}
    [] ev.e = "End" -> C
    [] OTHER -> {}
Diagnosis(ev) ==
  CASE ev.e = "Dead" -> ev.what
    [] ev.e = "Ret" -> "no order of the calls explains the result"
    [] ev.e = "Final" -> IF ~SeenOK(ev.view) THEN "inconsistent final state"
                         ELSE IF ~FinalOK(SeenState(ev.view), ev) THEN "what the final state shows contradicts itself"
                         ELSE "no order of the calls explains the final state"
    [] OTHER -> "protocol"
CallOf(ev) == IF ev.e = "Ret" THEN (CHOOSE c \in C : TRUE).p[Id(ev)].op.o ELSE ev.e

Init == \E b \in {x \in DOMAIN Trace : Trace[x].e = "Begin"} :
          n = b /\ live = TRUE /\ C = {[st |-> After(InitState, Trace[b].init, 1), p |-> [x \in {} |-> 0]]}
Next ==
  /\ live
  /\ \E c \in ToSet(Trace[n].k) :
       LET ev == Trace[c]  D == NextC(ev) IN
       /\ n' = c
       /\ IF D # {} THEN C' = D /\ live' = TRUE
          ELSE /\ PrintT("REJECT " \o ToJson(<<c, CallOf(ev), Diagnosis(ev)>>))
               /\ C' = {} /\ live' = FALSE
Spec == Init /\ [][Next]_vars
Inv == live => C # {} /\ \A c \in C : TypeInv(c.st) /\ UniqueInv(c.st) /\ SetInv(c.st) /\ RefInv(c.st)
\* every event was judged, unless an earlier one of its history was rejected
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").distinct, Len(Trace) - 1>>)
=============================================================================
