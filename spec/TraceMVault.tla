----------------------------- MODULE TraceMVault -----------------------------
(***************************************************************************)
(* Trace validation: every recorded call must be a transition of MVault    *)
(* from the current state to exactly the state that was observed after it. *)
(* A rejected call is printed and the rest of that script is skipped, so   *)
(* that one run reports every script that fails.                           *)
(***************************************************************************)
EXTENDS Seen, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* errs: the errors of the last file read into each vault
VARIABLES st, l, live, bad, errs
vars == <<st, l, live, bad, errs>>

HintOf(S) == [mode |-> "tr", rec |-> S.rec, mem |-> [x \in SetSlots |-> S.s[x].m], ref |-> S.r]
Is(spec, seen) == spec = "*" \/ spec = seen
ResultOK(o, ev) ==
  /\ o.ok = ev.ok /\ Is(o.code, ev.code)
  /\ Is(o.key, ev.key) /\ Is(o.rt, ev.rt) /\ Is(o.sv, ev.sv)
  /\ IF o.out # {} THEN ev.out \in o.out ELSE ev.out = ev.oin

OutcomesOf(ev, S) == {o \in Step(st, ev.op, HintOf(S)) : o.st = S /\ ResultOK(o, ev)}

\* They stay until the next file; a moved vault takes them along.  What a copy shows, a source after a move and a dropped vault
\* is not specified.
ErrsNow(ev) ==
  LET op == ev.op  seen == ev.view.es IN
  CASE op.o = "Import" -> [errs EXCEPT ![op.v] = ev.errs]
    [] op.o \in {"VNew", "VDel"} -> [errs EXCEPT ![op.v] = <<>>]
    [] op.o \in {"VCopyC", "VCopyA", "VMoveC", "VMoveA"} /\ op.v = op.w -> errs
    [] op.o \in {"VCopyC", "VCopyA", "DropVault"} -> [errs EXCEPT ![op.v] = seen[op.v]]
    [] op.o \in {"VMoveC", "VMoveA"} -> [errs EXCEPT ![op.v] = errs[op.w], ![op.w] = seen[op.w]]
    [] OTHER -> errs

Accept(ev) ==
  /\ SeenOK(ev.view)
  /\ Pre(st, ev.op)
  /\ LET S == SeenState(ev.view) IN
     /\ OutcomesOf(ev, S) # {}
     /\ QueryOK(st, ev.op, ev)
     /\ ErrsNow(ev) = ev.view.es
     /\ \A i \in DOMAIN ev.pb : ProbeHostOK(S, ev.pb[i])
     /\ \A i \in DOMAIN ev.rp : ProbeRefOK(S, ev.rp[i])

\* What is wrong with a rejected call
Diagnosis(ev) ==
  IF ev.e = "End" THEN "leak"
  ELSE IF ev.e # "Op" THEN ev.e
  ELSE IF ~SeenOK(ev.view) THEN "inconsistent observation"
  ELSE IF ~Pre(st, ev.op) THEN "precondition"
  ELSE LET S == SeenState(ev.view)  O == Step(st, ev.op, HintOf(S)) IN
       IF \A o \in O : o.st # S
       THEN IF O = {} THEN "no outcome fits the records that were observed"
            ELSE LET o == CHOOSE o \in O : TRUE IN
                 "state: " \o (IF o.st.v # S.v THEN "keys " ELSE "") \o (IF o.st.rec # S.rec THEN "records " ELSE "")
                           \o (IF o.st.s # S.s THEN "sets " ELSE "") \o (IF o.st.r # S.r THEN "refs " ELSE "")
       ELSE IF \A o \in O : ~ResultOK(o, ev) THEN "result"
       ELSE IF OutcomesOf(ev, S) = {} THEN "state and result"
       ELSE IF ~QueryOK(st, ev.op, ev) THEN "list"
       ELSE IF ErrsNow(ev) # ev.view.es THEN "errors of the last file"
       ELSE "probe"

NoErrs == [v \in VaultSlots |-> <<>>]
Init == st = InitState /\ l = 1 /\ live = FALSE /\ bad = <<>> /\ errs = NoErrs

Reject(ev) ==
  /\ PrintT("REJECT " \o ToJson(<<l, IF ev.e = "Op" THEN ev.op.o ELSE ev.e, Diagnosis(ev)>>))
  /\ live' = FALSE /\ UNCHANGED <<st, errs>> /\ bad' = Append(bad, l)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "Begin" -> st' = InitState /\ live' = TRUE /\ bad' = bad /\ errs' = NoErrs
       [] ev.e = "Op" /\ live ->
            IF Accept(ev) THEN st' = SeenState(ev.view) /\ errs' = ev.view.es /\ UNCHANGED <<live, bad>> ELSE Reject(ev)
       [] ev.e = "End" /\ live ->
            IF ev.live = 0 /\ ev.grow <= 0 THEN UNCHANGED <<st, live, bad, errs>> ELSE Reject(ev)
       [] ev.e \in {"Crash", "Hang"} -> Reject(ev)
       [] OTHER -> UNCHANGED <<st, live, bad, errs>>

Spec == Init /\ [][Next]_vars

\* The invariants of the specification hold of every observed state as well
Inv == live => TypeInv(st) /\ UniqueInv(st) /\ SetInv(st) /\ RefInv(st)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
