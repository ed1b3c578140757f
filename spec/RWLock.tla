-------------------------------- MODULE RWLock --------------------------------
(***************************************************************************)
(* What the read-write locks of MVault promise (C13, C14), independent of  *)
(* how they are made.  Threads request, are granted and release locks in   *)
(* LIFO nests (the guards ReadLock and WriteLock).  The recursive lock     *)
(* counts nested acquisitions per thread; a thread that reads and asks for *)
(* writing gives its read lock up while it waits, and reads again after it *)
(* stops writing.  The operators work on a state S so that the model       *)
(* (MCRWLock) and the validation of traces (TraceRWLock) share them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Locks
None == [a |-> "-", m |-> 0]

(* nest: what the thread holds, innermost last; eff: what that amounts to *)
(* now; pend: the call the thread is in; waiting: writers known to wait;  *)
(* behind: readers that came after a waiting writer.                      *)
S0 == [nest |-> [t \in Threads |-> <<>>], eff |-> [m \in Locks |-> [t \in Threads |-> "-"]],
       pend |-> [t \in Threads |-> None], waiting |-> {}, behind |-> {}]

Count(S, t, m, a) == Cardinality({i \in DOMAIN S.nest[t] : S.nest[t][i] = [a |-> a, m |-> m]})
Others(S, t, m) == {x \in Threads \ {t} : S.eff[m][x] # "-"}
Writers(S, t, m) == {x \in Threads \ {t} : S.eff[m][x] = "W"}
InCall(S, t) == S.pend[t] # None
Set(S, m, t, e) == [S.eff EXCEPT ![m][t] = e]
ReadersOnly(S, m) == /\ \E x \in Threads : S.eff[m][x] # "-"
                     /\ \A x \in Threads : S.eff[m][x] # "W"

\* The call asks for something the thread does not have yet
Outermost(S, t) == LET p == S.pend[t] IN
  \/ p.a \in {"R", "D"} /\ S.eff[p.m][t] = "-"
  \/ p.a = "W" /\ S.eff[p.m][t] # "W"

\* --- a call to acquire begins
CanRequest(S, t) == ~InCall(S, t)
Request(S, t, a, m) ==
  LET S1 == [S EXCEPT !.pend[t] = [a |-> a, m |-> m]]
      \* an upgrade gives the read lock up
      S2 == IF a = "W" /\ S.eff[m][t] = "R" THEN [S1 EXCEPT !.eff = Set(S1, m, t, "-")] ELSE S1
  IN IF a = "R" /\ S.eff[m][t] = "-" /\ (\E w \in S.waiting : S.pend[w].m = m) THEN [S2 EXCEPT !.behind = @ \cup {t}] ELSE S2

\* --- ... and ends
CanGrant(S, t) ==
  /\ InCall(S, t)
  /\ LET p == S.pend[t] IN
     CASE p.a \in {"R", "D"} -> S.eff[p.m][t] # "-" \/ (Writers(S, t, p.m) = {} /\ t \notin S.behind)
       [] p.a = "W" -> S.eff[p.m][t] = "W" \/ Others(S, t, p.m) = {}
       [] OTHER -> TRUE
Grant(S, t) ==
  LET p == S.pend[t]
      S1 == [S EXCEPT !.pend[t] = None, !.behind = @ \ {t}, !.waiting = @ \ {t}] IN
  CASE p.a = "R" -> [S1 EXCEPT !.nest[t] = Append(@, [a |-> "R", m |-> p.m]), !.eff = IF S.eff[p.m][t] = "-" THEN Set(S, p.m, t, "R") ELSE @]
    [] p.a = "D" -> [S1 EXCEPT !.eff = Set(S, p.m, t, "R")]
    \* the readers that came later have waited for a writer; other writers that wait compete with the next readers
    [] p.a = "W" -> LET new == S.eff[p.m][t] # "W" IN
                    [S1 EXCEPT !.nest[t] = Append(@, [a |-> "W", m |-> p.m]), !.eff = Set(S, p.m, t, "W"),
                               !.behind = {b \in @ : ~(new /\ S.pend[b].m = p.m)}, !.waiting = {x \in @ : ~(new /\ S.pend[x].m = p.m)}]
    [] OTHER -> S1

\* --- a call to release begins: the innermost lock is no longer held; where reading goes on ("D") it has to be obtained again
CanRelease(S, t) == ~InCall(S, t) /\ S.nest[t] # <<>>
Release(S, t) ==
  LET top == S.nest[t][Len(S.nest[t])]
      S1 == [S EXCEPT !.nest[t] = SubSeq(@, 1, Len(@) - 1)]
      m == top.m
      left == Count(S1, t, m, "R")
  IN CASE Count(S1, t, m, "W") > 0 -> [S1 EXCEPT !.pend[t] = [a |-> "u", m |-> m]]
       [] top.a = "W" /\ left > 0 -> [S1 EXCEPT !.pend[t] = [a |-> "D", m |-> m], !.eff = Set(S, m, t, "-")]
       [] top.a = "R" /\ left > 0 -> [S1 EXCEPT !.pend[t] = [a |-> "u", m |-> m]]
       [] OTHER -> [S1 EXCEPT !.pend[t] = [a |-> "u", m |-> m], !.eff = Set(S, m, t, "-")]

\* --- who may be made to wait
\* a writer waits for holders; a reader for a writer that holds or waits; nobody else waits
Settled(S, w) == S.pend[w].a = "W" /\ Outermost(S, w) /\ Others(S, w, S.pend[w].m) # {}
MayWait(S, t, blocked) ==
  /\ InCall(S, t) /\ Outermost(S, t)
  /\ LET p == S.pend[t] IN
     CASE p.a = "W" -> Others(S, t, p.m) # {}
       [] p.a \in {"R", "D"} -> \/ Writers(S, t, p.m) # {}
                                \/ \E w \in blocked \ {t} : S.pend[w].m = p.m /\ Settled(S, w)
       [] OTHER -> FALSE
\* at a moment when nobody can move but the holders: the writers that wait for readers
Announce(S, blocked) == [S EXCEPT !.waiting = @ \cup {w \in blocked : Settled(S, w) /\ ReadersOnly(S, S.pend[w].m)}]

\* --- promises
Exclusion(S) == \A m \in Locks, t, u \in Threads : t # u /\ S.eff[m][t] = "W" => S.eff[m][u] = "-"
\* what is held is what the nest says, except while the thread waits to get it (back)
NestOK(S) == \A t \in Threads, m \in Locks :
  (S.pend[t] # None /\ S.pend[t].m = m) \/
  S.eff[m][t] = (IF Count(S, t, m, "W") > 0 THEN "W" ELSE IF Count(S, t, m, "R") > 0 THEN "R" ELSE "-")
=============================================================================
