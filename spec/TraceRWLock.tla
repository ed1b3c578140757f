----------------------------- MODULE TraceRWLock -----------------------------
(***************************************************************************)
(* Validates traces of the real locks against RWLock.  The trace file is a *)
(* forest: line n is an event, k its children (the traces of one program   *)
(* share their beginnings).  Events: Call / Ret of thread t (a: R, W or u, *)
(* the lock m), Q (nobody can move but the threads outside of calls, and   *)
(* the threads b wait), End, Dead (deadlock, livelock, misuse of a mutex). *)
(* A lock is held from Ret of its acquisition to Call of its release: the  *)
(* reading most favourable to the code.                                    *)
(***************************************************************************)
EXTENDS RWLock, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, st, live
vars == <<n, st, live>>

AcceptEv(S, ev) ==
  CASE ev.e = "Call" /\ ev.a = "u" -> CanRelease(S, ev.t)
    [] ev.e = "Call" -> CanRequest(S, ev.t)
    [] ev.e = "Ret" -> CanGrant(S, ev.t)
    [] ev.e = "Q" -> \A t \in ToSet(ev.b) : MayWait(S, t, ToSet(ev.b))
    [] ev.e = "End" -> \A t \in Threads : ~InCall(S, t) /\ S.nest[t] = <<>>
    [] OTHER -> FALSE
NextSt(S, ev) ==
  CASE ev.e = "Call" /\ ev.a = "u" -> Release(S, ev.t)
    [] ev.e = "Call" -> Request(S, ev.t, ev.a, ev.m)
    [] ev.e = "Ret" -> Grant(S, ev.t)
    [] ev.e = "Q" -> Announce(S, ToSet(ev.b))
    [] OTHER -> S
Diagnosis(S, ev) ==
  CASE ev.e = "Dead" -> ev.what
    [] ev.e = "Q" -> "waits without a reason: stuck"
    [] ev.e = "Ret" /\ S.pend[ev.t].a \in {"R", "D"} /\ Writers(S, ev.t, ev.m) = {} -> "barging: a reader went past a waiting writer"
    [] ev.e = "Ret" -> "exclusion"
    [] OTHER -> "protocol"

Init == \E r \in {x \in DOMAIN Trace : Trace[x].e = "Begin"} : n = r /\ st = S0 /\ live = TRUE
Next ==
  /\ live
  /\ \E c \in ToSet(Trace[n].k) :
       /\ n' = c
       /\ IF AcceptEv(st, Trace[c])
          THEN st' = NextSt(st, Trace[c]) /\ live' = TRUE
          ELSE /\ PrintT("REJECT " \o ToJson(<<c, Trace[c].e, Diagnosis(st, Trace[c])>>))
               /\ st' = st /\ live' = FALSE
Spec == Init /\ [][Next]_vars
Inv == live => Exclusion(st) /\ NestOK(st)
\* every event was judged, unless an earlier one of its trace was rejected
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").distinct, Len(Trace) - 1>>)
=============================================================================
