----------------------------- MODULE RWMutexImpl -----------------------------
(***************************************************************************)
(* The algorithm of Source/ReadWriteMutex.cpp, one atomic operation of a   *)
(* primitive per step: RecursiveReadWriteMutex over ReadWriteMutex, one    *)
(* lock object.  `abs` is the state of RWLock that the calls so far amount *)
(* to: a call that returns when RWLock does not allow it to sets `bad`.    *)
(* Checked: refinement (bad = ""), exclusion, and, under fair scheduling,  *)
(* that every call returns (C13, C14 for the algorithm; the code itself is *)
(* judged by TraceRWLock).                                                 *)
(***************************************************************************)
EXTENDS RWLock, TLC, IOUtils
Depth == atoi(IOEnv.DEPTH)
\* "code" is the algorithm; the others are known ways to get it wrong, which the properties must exclude
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"

VARIABLES wm, rm, rc, flag, cv, pc, cont, abs, bad, used
vars == <<wm, rm, rc, flag, cv, pc, cont, abs, bad, used>>
M == CHOOSE m \in Locks : TRUE
RCount(t) == Count(abs, t, M, "R")
WCount(t) == Count(abs, t, M, "W")

Init == /\ wm = 0 /\ rm = 0 /\ rc = 0 /\ flag = FALSE /\ cv = {}
        /\ pc = [t \in Threads |-> "idle"] /\ cont = [t \in Threads |-> "ret"]
        /\ abs = S0 /\ bad = "" /\ used = [t \in Threads |-> 0]

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Keep(S) == UNCHANGED S
\* the call of thread t returns
Ret(t) == /\ Goto(t, "idle")
          /\ bad' = IF CanGrant(abs, t) THEN bad ELSE "a call returned too early"
          /\ abs' = IF CanGrant(abs, t) THEN Grant(abs, t) ELSE abs
After(t) == IF cont[t] = "ret" THEN Ret(t) /\ Keep(cont) ELSE Goto(t, cont[t]) /\ cont' = [cont EXCEPT ![t] = "ret"] /\ Keep(<<abs, bad>>)

\* --- calls of the recursive lock
Acquire(t, a) ==
  /\ pc[t] = "idle" /\ Len(abs.nest[t]) < Depth
  \* who holds the lock releases it after a while
  /\ used[t] <= Depth /\ used' = [used EXCEPT ![t] = @ + 1]
  /\ abs' = Request(abs, t, a, M)
  /\ \/ a = "R" /\ Goto(t, IF WCount(t) = 0 /\ RCount(t) = 0 THEN "RL1" ELSE "ret") /\ Keep(cont)
     \/ a = "W" /\ Goto(t, IF WCount(t) > 0 THEN "ret" ELSE IF RCount(t) > 0 THEN "RU1" ELSE "WL1")
                /\ cont' = IF WCount(t) = 0 /\ RCount(t) > 0 THEN [cont EXCEPT ![t] = "WL1"] ELSE cont
  /\ Keep(<<wm, rm, rc, flag, cv, bad>>)
ReleaseCall(t) ==
  /\ pc[t] = "idle" /\ abs.nest[t] # <<>>
  /\ abs' = Release(abs, t)
  /\ used' = IF Len(abs.nest[t]) = 1 THEN [used EXCEPT ![t] = 0] ELSE used
  /\ LET top == abs.nest[t][Len(abs.nest[t])].a IN
     \/ top = "R" /\ Goto(t, IF WCount(t) = 0 /\ RCount(t) = 1 THEN "RU1" ELSE "ret") /\ Keep(cont)
     \/ top = "W" /\ Goto(t, IF WCount(t) = 1 THEN "WU1" ELSE "ret")
                  /\ cont' = IF WCount(t) = 1 /\ RCount(t) > 0 THEN [cont EXCEPT ![t] = "RL1"] ELSE cont
  /\ Keep(<<wm, rm, rc, flag, cv, bad>>)
Return(t) == pc[t] = "ret" /\ Ret(t) /\ Keep(<<wm, rm, rc, flag, cv, cont, used>>)

\* --- ReadLock
RL1(t) == pc[t] = "RL1" /\ wm = 0 /\ wm' = t /\ Goto(t, "RL2") /\ Keep(<<rm, rc, flag, cv, cont, abs, bad, used>>)
RL2(t) == pc[t] = "RL2" /\ rm = 0 /\ rm' = t /\ Goto(t, "RL3") /\ Keep(<<wm, rc, flag, cv, cont, abs, bad, used>>)
RL3(t) == pc[t] = "RL3" /\ rc' = rc + 1 /\ Goto(t, "RL4") /\ Keep(<<wm, rm, flag, cv, cont, abs, bad, used>>)
RL4(t) == pc[t] = "RL4" /\ rm' = 0 /\ Goto(t, "RL5") /\ Keep(<<wm, rc, flag, cv, cont, abs, bad, used>>)
RL5(t) == pc[t] = "RL5" /\ wm' = 0 /\ After(t) /\ Keep(<<rm, rc, flag, cv, used>>)
\* --- ReadUnlock
RU1(t) == pc[t] = "RU1" /\ rm = 0 /\ rm' = t /\ Goto(t, "RU2") /\ Keep(<<wm, rc, flag, cv, cont, abs, bad, used>>)
RU2(t) == pc[t] = "RU2" /\ rc' = rc - 1 /\ Goto(t, "RU3") /\ Keep(<<wm, rm, flag, cv, cont, abs, bad, used>>)
RU3(t) == pc[t] = "RU3" /\ Goto(t, IF rc = 0 THEN "RU4" ELSE "RU6") /\ Keep(<<wm, rm, rc, flag, cv, cont, abs, bad, used>>)
RU4(t) == pc[t] = "RU4" /\ Goto(t, IF flag THEN "RU5" ELSE "RU6") /\ Keep(<<wm, rm, rc, flag, cv, cont, abs, bad, used>>)
RU5(t) == pc[t] = "RU5" /\ cv' = {} /\ Goto(t, IF Variant = "notify once" THEN "RU6" ELSE "RU4") /\ Keep(<<wm, rm, rc, flag, cont, abs, bad, used>>)
\* (RU5 and RU4 at once, with nobody between them)
RU54(t) == pc[t] \in {"RU4", "RU5"} /\ ~flag /\ cv' = (IF pc[t] = "RU5" THEN {} ELSE cv) /\ Goto(t, "RU6") /\ Keep(<<wm, rm, rc, flag, cont, abs, bad, used>>)
RU6(t) == pc[t] = "RU6" /\ rm' = 0 /\ After(t) /\ Keep(<<wm, rc, flag, cv, used>>)
\* --- WriteLock
WL1(t) == pc[t] = "WL1" /\ wm = 0 /\ wm' = t /\ Goto(t, IF Variant = "no flag" THEN "WL3" ELSE "WL2") /\ Keep(<<rm, rc, flag, cv, cont, abs, bad, used>>)
WL2(t) == pc[t] = "WL2" /\ flag' = TRUE /\ Goto(t, "WL3") /\ Keep(<<wm, rm, rc, cv, cont, abs, bad, used>>)
WL3(t) == pc[t] = "WL3" /\ Goto(t, IF rc > 0 THEN "WL4" ELSE "WL6") /\ Keep(<<wm, rm, rc, flag, cv, cont, abs, bad, used>>)
WL4(t) == /\ pc[t] = "WL4" /\ cv' = cv \cup {t} /\ Goto(t, "WL5")
          /\ abs' = IF ReadersOnly(abs, M) THEN Announce(abs, {t}) ELSE abs
          /\ Keep(<<wm, rm, rc, flag, cont, bad, used>>)
WL5(t) == pc[t] = "WL5" /\ t \notin cv /\ Goto(t, IF Variant = "if" THEN "WL6" ELSE "WL3") /\ Keep(<<wm, rm, rc, flag, cv, cont, abs, bad, used>>)
WL6(t) == pc[t] = "WL6" /\ flag' = FALSE /\ After(t) /\ Keep(<<wm, rm, rc, cv, used>>)
Spurious == cv # {} /\ (\E t \in cv : cv' = cv \ {t}) /\ Keep(<<wm, rm, rc, flag, pc, cont, abs, bad, used>>)
\* --- WriteUnlock
WU1(t) == pc[t] = "WU1" /\ wm' = 0 /\ After(t) /\ Keep(<<rm, rc, flag, cv, used>>)

Lock(t) == RL1(t) \/ RL2(t) \/ RU1(t) \/ WL1(t)
Plain(t) == Return(t) \/ RL3(t) \/ RL4(t) \/ RL5(t) \/ RU2(t) \/ RU3(t) \/ RU4(t) \/ RU5(t) \/ RU54(t) \/ RU6(t) \/ WL2(t) \/ WL3(t) \/ WL4(t) \/ WL5(t) \/ WL6(t) \/ WU1(t)
Next == \E t \in Threads : Acquire(t, "R") \/ Acquire(t, "W") \/ ReleaseCall(t) \/ Lock(t) \/ Plain(t)
NextS == Next \/ Spurious
\* holders release, and the scheduler is fair
\* (a last reader that looks whether a writer waits does not find one each time: writers come and go)
Fair == \A t \in Threads : WF_vars(ReleaseCall(t)) /\ WF_vars(Plain(t)) /\ SF_vars(Lock(t)) /\ SF_vars(RU54(t))
Spec == Init /\ [][NextS]_vars
LiveSpec == Init /\ [][NextS]_vars /\ Fair

Inv == /\ bad = ""
       /\ Exclusion(abs) /\ NestOK(abs)
       /\ rc >= 0
       /\ wm # 0 => pc[wm] # "idle" \/ WCount(wm) > 0
Returns == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
Symm == Permutations(Threads)
=============================================================================
