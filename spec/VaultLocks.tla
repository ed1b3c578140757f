----------------------------- MODULE VaultLocks -----------------------------
(***************************************************************************)
(* How the calls of MVault lock (C15, C16), above the read-write lock of   *)
(* RWLock.  A set or record belongs to a vault (`parent`), and that may    *)
(* change until the lock of the vault is held: ParentVaultLock locks the   *)
(* vault it has seen and looks again.  A vault that is moved hands its     *)
(* sets and records over, one at a time, with both vaults locked, in the   *)
(* order of addresses.  The mutex of a record is taken last and for a      *)
(* moment.  Checked: what a call works on belongs to the vault it has      *)
(* locked and nobody changes it meanwhile (Inv), every call ends, under    *)
(* fair scheduling (Returns).  TraceConc judges the code itself.           *)
(***************************************************************************)
EXTENDS RWLock, TLC, IOUtils
CONSTANTS Vaults, Records
\* every thread has a set of its own, the records belong to all
Objs == Threads \cup Records
NCalls == atoi(IOEnv.CALLS)
\* "code" is the way of the code; the others are known ways to get it wrong, which the properties must exclude
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "code"
Rec == 0
ASSUME Locks = Vaults \cup {Rec}

VARIABLES S, parent, th
vars == <<S, parent, th>>
\* what a thread does: c the call, todo its steps, v the vault it has seen, n the calls it has made
Idle == [c |-> "idle", todo |-> <<>>, v |-> 0, n |-> 0]
Step(d) == [d |-> d, a |-> "-", m |-> 0, o |-> 0]
Lk(a, m) == [d |-> "lock", a |-> a, m |-> m, o |-> 0]
On(d, a, o) == [d |-> d, a |-> a, m |-> 0, o |-> o]
Un == Step("unlock")
Both(a, v, b, w) == IF v < w \/ Variant = "no order" THEN <<Lk(a, v), Lk(b, w)>> ELSE <<Lk(b, w), Lk(a, v)>>
Drop(v) == [Step("drop") EXCEPT !.m = v]
Hand(v, w) == [Step("hand") EXCEPT !.m = v, !.o = w]

Pairs == {p \in Vaults \X Vaults : p[1] # p[2]}
\* the calls
Calls(t) == LET mine == Records \cup {t} IN
  \* a call of a set or of a ref that reads or writes, and one that asks again in a callback or a part of it
  {<<On("enter", a, o), On("work", a, o), Un>> : a \in {"R", "W"}, o \in mine}
  \cup {<<On("enter", "R", o), On("work", "R", o), On("enter", "R", o), On("work", "R", o), Un, Un>> : o \in mine}
  \cup {<<On("enter", "W", o), On("enter", "W", o), On("work", "W", o), Un, Un>> : o \in mine}
  \* a set is bound anew (by a request, assigned): it leaves in one section, a second one finds the new vault
  \cup {<<On("enter", "W", t), On("leave", "W", t), Un>>}
  \cup {<<On("enter", "W", t), On("leave", "W", t), Un, Lk("R", v), [Step("bind") EXCEPT !.o = t, !.m = v], Un>> : v \in Vaults}
  \* a ref takes the mutex of its record
  \cup {<<On("enter", a, o), Lk("W", Rec), Un, Un>> : a \in {"R", "W"}, o \in Records}
  \cup {<<Lk("W", Rec), Un>>}
  \* vaults
  \cup {<<Lk("R", v), Lk("R", v), Un, Un>> : v \in Vaults}
  \cup {<<Lk("W", v), Lk("W", Rec), Drop(v), Un, Un>> : v \in Vaults}
  \cup {Both("W", v, "W", w) \o <<Drop(w), Hand(v, w), Un, Un>> : <<v, w>> \in Pairs}
  \cup {Both("R", v, "W", w) \o <<Drop(w), Un, Un>> : <<v, w>> \in Pairs}

Init == /\ S = S0
        /\ parent \in [Objs -> Vaults \cup {0}]
        /\ th = [t \in Threads |-> Idle]

Head1(t) == Head(th[t].todo)
Holds(t, v, a) == S.eff[v][t] = "W" \/ (a = "R" /\ S.eff[v][t] = "R")
Advance(t) == th' = [th EXCEPT ![t] = [@ EXCEPT !.todo = Tail(@), !.c = IF Len(th[t].todo) = 1 THEN "idle" ELSE "run"]]
Put(t, todo) == th' = [th EXCEPT ![t].todo = todo]
At(t, d) == th[t].c = "run" /\ ~InCall(S, t) /\ Head1(t).d = d

Begin(t) == /\ th[t].c = "idle" /\ th[t].n < NCalls
            /\ \E c \in Calls(t) : th' = [th EXCEPT ![t] = [c |-> "run", todo |-> c, v |-> 0, n |-> @.n + 1]]
            /\ UNCHANGED <<S, parent>>
\* a vault is locked / let go
LockA(t) == At(t, "lock") /\ S' = Request(S, t, Head1(t).a, Head1(t).m) /\ UNCHANGED <<parent, th>>
LockB(t) == /\ th[t].c = "run" /\ InCall(S, t) /\ S.pend[t].a \in {"R", "W"} /\ Head1(t).d \in {"lock", "locked"} /\ CanGrant(S, t)
            /\ S' = Grant(S, t) /\ Advance(t) /\ UNCHANGED parent
UnlockA(t) == At(t, "unlock") /\ S' = Release(S, t) /\ UNCHANGED <<parent, th>>
UnlockB(t) == /\ th[t].c = "run" /\ InCall(S, t) /\ S.pend[t].a \in {"u", "D"} /\ CanGrant(S, t)
              /\ S' = Grant(S, t) /\ Advance(t) /\ UNCHANGED parent
\* a writer that waits for readers keeps later readers waiting
Waits(t) == /\ InCall(S, t) /\ t \notin S.waiting /\ S.pend[t].a = "W" /\ ReadersOnly(S, S.pend[t].m) /\ Settled(S, t)
            /\ \A w \in S.waiting : S.pend[w].m # S.pend[t].m
            /\ S' = Announce(S, {t}) /\ UNCHANGED <<parent, th>>
\* ParentVaultLock: look, lock, look again; an object that belongs to no vault ends the call
Enter(t) ==
  /\ At(t, "enter")
  /\ LET h == Head1(t) v == parent[h.o] IN
     IF v = 0 THEN
       \* nothing is locked: the rest of the section does nothing, outer sections end as usual
       /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.todo = [i \in 1..Len(S.nest[t]) |-> Un], !.c = IF S.nest[t] = <<>> THEN "idle" ELSE "run"]]
       /\ UNCHANGED <<S, parent>>
     ELSE /\ th' = [th EXCEPT ![t].todo = <<Lk(h.a, v), [On("again", h.a, h.o) EXCEPT !.m = v]>> \o Tail(@)]
          /\ UNCHANGED <<S, parent>>
Again(t) ==
  /\ At(t, "again")
  /\ LET h == Head1(t) IN
     IF parent[h.o] = h.m \/ Variant = "no second look" THEN Advance(t)
     ELSE Put(t, <<Un, On("enter", h.a, h.o)>> \o Tail(th[t].todo))
  /\ UNCHANGED <<S, parent>>
Work(t) == At(t, "work") /\ Advance(t) /\ UNCHANGED <<S, parent>>
Leave(t) == At(t, "leave") /\ parent' = [parent EXCEPT ![Head1(t).o] = 0] /\ Advance(t) /\ UNCHANGED S
Bind(t) == At(t, "bind") /\ parent' = [parent EXCEPT ![t] = Head1(t).m] /\ Advance(t) /\ UNCHANGED S
\* one object at a time
Each(t, d, from, to) ==
  /\ At(t, d)
  /\ LET os == {o \in Objs : parent[o] = from} IN
     IF os = {} THEN Advance(t) /\ UNCHANGED <<S, parent>>
     ELSE \E o \in os : parent' = [parent EXCEPT ![o] = to] /\ UNCHANGED <<S, th>>
DropAll(t) == Each(t, "drop", Head1(t).m, 0)
HandAll(t) == Each(t, "hand", Head1(t).m, Head1(t).o)

Goes(t) == LockA(t) \/ UnlockA(t) \/ UnlockB(t) \/ Enter(t) \/ Again(t) \/ Work(t) \/ Leave(t) \/ Bind(t) \/ DropAll(t) \/ HandAll(t)
Next == \E t \in Threads : Begin(t) \/ LockB(t) \/ Waits(t) \/ Goes(t)
\* what is locked is granted to everybody sooner or later (that is C14)
Fair == \A t \in Threads : WF_vars(Goes(t)) /\ SF_vars(LockB(t))
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair

\* a call works on an object with the lock of the vault of the object, and nobody else changes it
Mine(t) == \A d \in {"work", "leave"} : At(t, d) => parent[Head1(t).o] # 0 /\ Holds(t, parent[Head1(t).o], Head1(t).a)
Changes(t) == th[t].c = "run" /\ Head1(t).d \in {"drop", "hand"} =>
              /\ Holds(t, Head1(t).m, "W")
              /\ Head1(t).d = "hand" => Holds(t, Head1(t).o, "W")
\* nobody is left with a lock, nobody waits for each other
Inv == /\ Exclusion(S) /\ NestOK(S)
       /\ \A t \in Threads : Mine(t) /\ Changes(t) /\ (th[t].c = "idle" => S.nest[t] = <<>> /\ ~InCall(S, t))
       /\ (\E t \in Threads : th[t].c = "run") => ENABLED (\E t \in Threads : LockB(t) \/ Goes(t))
Returns == \A t \in Threads : (th[t].c = "run") ~> (th[t].c = "idle")
Symm == Permutations(Threads)
=============================================================================
