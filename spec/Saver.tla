-------------------------------- MODULE Saver --------------------------------
(***************************************************************************)
(* The value containers of the library: DataSaver, which holds nothing or  *)
(* one value of any type, and the containers DataHashMap, DataMap,         *)
(* DataMultiHashMap and DataMultiMap, which map texts to data savers.      *)
(*                                                                         *)
(* A value is [t, x, d]: its type, its canonical text and the delete       *)
(* function given with it (0: none).  SStep(st, op) is the set of          *)
(* [st, ok, v, del]: the states the call may lead to, with what it         *)
(* returns, the value or values it gives and the delete functions it calls.*)
(***************************************************************************)
EXTENDS Csv

\* types with texts that convert both ways, types with a text only, types without text
TextTypes == {"str", "bool", "i32", "u64", "f64", "i16"}
OutTypes == {"i8", "u8"}
PlainTypes == {"obj", "ptr"}
SaverTypes == TextTypes \cup OutTypes \cup PlainTypes
Kinds == {"hash", "map", "mhash", "mmap"}
Multi(kind) == kind \in {"mhash", "mmap"}
Ordered(kind) == kind \in {"map", "mmap"}

Val(t, x, d) == [t |-> t, x |-> x, d |-> d]
Void == Val("void", <<>>, 0)
StrText(v) == IF v.t \in TextTypes \cup OutTypes THEN TextOf(v.t, v.x) ELSE <<>>
FromText(v, text) == IF v.t \in TextTypes THEN Conv(v.t, text) ELSE No

Savers == {1, 2, 3}
Conts == {1, 2, 3}
NoSaver == [on |-> FALSE, v |-> Void]
NoCont == [on |-> FALSE, kind |-> "hash", els |-> <<>>]
SInit == [s |-> [i \in Savers |-> NoSaver], c |-> [i \in Conts |-> NoCont]]

\* keys are compared as texts of unsigned characters
RECURSIVE KeyLess(_, _)
KeyLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ KeyLess(Tail(a), Tail(b)))
At(els, k) == {i \in DOMAIN els : els[i].k = k}
\* ordered containers: after the last element whose key is not greater
InsertEl(kind, els, k, v) ==
  IF ~Multi(kind) /\ At(els, k) # {} THEN els
  ELSE IF ~Ordered(kind) THEN Append(els, [k |-> k, v |-> v])
  ELSE LET n == Cardinality({i \in DOMAIN els : ~KeyLess(k, els[i].k)}) IN
       SubSeq(els, 1, n) \o << [k |-> k, v |-> v] >> \o SubSeq(els, n + 1, Len(els))
CutEl(els, i) == SubSeq(els, 1, i - 1) \o SubSeq(els, i + 1, Len(els))
DelOf(v) == IF v.d = 0 THEN <<>> ELSE <<v>>

Done(S) == [st |-> S, ok |-> TRUE, v |-> <<>>, del |-> <<>>]
Said(S, b) == [Done(S) EXCEPT !.ok = b]
Gave(S, b, v) == [Done(S) EXCEPT !.ok = b, !.v = v]

SPre(st, op) ==
  CASE op.o \in {"SNew", "SVal"} -> ~st.s[op.s].on
    [] op.o = "SCopy" -> ~st.s[op.s].on /\ st.s[op.q].on
    [] op.o \in {"SAsg", "SSwap"} -> st.s[op.s].on /\ st.s[op.q].on
    [] op.o \in {"SSet", "SStrSet", "SGet", "SReset", "SDel"} -> st.s[op.s].on
    [] op.o = "CNew" -> ~st.c[op.c].on
    [] op.o \in {"CCopy", "CMove"} -> ~st.c[op.c].on /\ st.c[op.e].on
    [] op.o = "CAsg" -> st.c[op.c].on /\ st.c[op.e].on /\ st.c[op.c].kind = st.c[op.e].kind
    [] op.o \in {"CAddS", "CSetS", "CGetS"} -> st.c[op.c].on /\ st.s[op.s].on
    [] op.o = "CAll" -> st.c[op.c].on /\ Multi(st.c[op.c].kind)
    [] OTHER -> st.c[op.c].on

PutV(st, s, v) == [st EXCEPT !.s[s] = [on |-> TRUE, v |-> v]]
PutE(st, c, els) == [st EXCEPT !.c[c].els = els]
NewVal(st, op) == IF op.o \in {"CAddS", "CSetS"} THEN st.s[op.s].v ELSE Val(op.t, op.x, op.d)

SStep(st, op) ==
  CASE op.o = "SNew" -> {Done(PutV(st, op.s, Void))}
    [] op.o \in {"SVal", "SSet"} -> {Done(PutV(st, op.s, Val(op.t, op.x, op.d)))}
    [] op.o \in {"SCopy", "SAsg"} -> {Done(PutV(st, op.s, st.s[op.q].v))}
    [] op.o = "SSwap" -> {Done(PutV(PutV(st, op.s, st.s[op.q].v), op.q, st.s[op.s].v))}
    [] op.o = "SStrSet" -> LET v == st.s[op.s].v  c == FromText(v, op.text) IN
                           {IF c.ok THEN Done(PutV(st, op.s, [v EXCEPT !.x = c.v])) ELSE Said(st, FALSE)}
    [] op.o = "SGet" -> LET v == st.s[op.s].v IN {IF v.t = op.t THEN Gave(st, TRUE, <<v.x>>) ELSE Said(st, FALSE)}
    [] op.o = "SReset" -> {[Done(PutV(st, op.s, Void)) EXCEPT !.del = DelOf(st.s[op.s].v)]}
    [] op.o = "SDel" -> {Done([st EXCEPT !.s[op.s] = NoSaver])}
    [] op.o = "CNew" -> {Done([st EXCEPT !.c[op.c] = [on |-> TRUE, kind |-> op.kind, els |-> <<>>]])}
    [] op.o \in {"CCopy", "CAsg"} -> {Done([st EXCEPT !.c[op.c] = st.c[op.e]])}
    [] op.o = "CMove" -> {Done([st EXCEPT !.c[op.c] = st.c[op.e], !.c[op.e] = NoCont])}
    [] op.o = "CDel" -> {Done([st EXCEPT !.c[op.c] = NoCont])}
    [] op.o \in {"CAdd", "CAddS"} -> {Done(PutE(st, op.c, InsertEl(st.c[op.c].kind, st.c[op.c].els, op.k, NewVal(st, op))))}
    [] op.o \in {"CSet", "CSetS"} ->
         LET C == st.c[op.c] IN
         IF At(C.els, op.k) = {} THEN {Done(PutE(st, op.c, InsertEl(C.kind, C.els, op.k, NewVal(st, op))))}
         ELSE {Done(PutE(st, op.c, [C.els EXCEPT ![i].v = NewVal(st, op)])) : i \in At(C.els, op.k)}
    [] op.o = "CStrSet" ->
         LET C == st.c[op.c] IN
         IF At(C.els, op.k) = {} THEN {Said(st, FALSE)}
         ELSE {LET c == FromText(C.els[i].v, op.text) IN IF c.ok THEN Done(PutE(st, op.c, [C.els EXCEPT ![i].v.x = c.v])) ELSE Said(st, FALSE) : i \in At(C.els, op.k)}
    [] op.o = "CGet" ->      \* tells whether the key is there; a value of another type is not given
         LET C == st.c[op.c] IN
         IF At(C.els, op.k) = {} THEN {Said(st, FALSE)}
         ELSE {IF C.els[i].v.t = op.t THEN Gave(st, TRUE, <<C.els[i].v.x>>) ELSE Done(st) : i \in At(C.els, op.k)}
    [] op.o = "CGetS" ->
         LET C == st.c[op.c] IN
         IF At(C.els, op.k) = {} THEN {Said(st, FALSE)} ELSE {Done(PutV(st, op.s, C.els[i].v)) : i \in At(C.els, op.k)}
    [] op.o = "CStr" ->
         LET C == st.c[op.c] IN
         IF At(C.els, op.k) = {} THEN {Said(st, FALSE)} ELSE {Gave(st, TRUE, <<StrText(C.els[i].v)>>) : i \in At(C.els, op.k)}
    [] op.o = "CIs" -> {Said(st, At(st.c[op.c].els, op.k) # {})}
    [] op.o = "CErase" ->
         LET C == st.c[op.c] IN
         IF At(C.els, op.k) = {} THEN {Done(st)}
         ELSE {[Done(PutE(st, op.c, CutEl(C.els, i))) EXCEPT !.del = DelOf(C.els[i].v)] : i \in At(C.els, op.k)}
    [] op.o = "CClear" -> {Done(PutE(st, op.c, <<>>))}
    [] op.o = "CAll" ->      \* judged with the order where there is one
         {Gave(st, TRUE, LET e == SelectSeq(st.c[op.c].els, LAMBDA y : y.k = op.k) IN [i \in DOMAIN e |-> <<e[i].v.t, e[i].v.x>>])}
    [] op.o = "CIt" ->       \* every element with the key gets the value through an iterator
         {Done(PutE(st, op.c, [i \in DOMAIN st.c[op.c].els |-> IF st.c[op.c].els[i].k = op.k THEN [st.c[op.c].els[i] EXCEPT !.v = Val(op.t, op.x, op.d)] ELSE st.c[op.c].els[i]]))}

\* What is seen of a value: its type, its value read under that type, its text
Look(v) == <<v.t, v.x, StrText(v)>>
SeqBag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
\* elements in the order of iteration
ElsOK(C, list) ==
  LET mine == [i \in DOMAIN C.els |-> <<C.els[i].k, Look(C.els[i].v)>>] IN
  IF Ordered(C.kind) THEN list = mine ELSE SeqBag(list) = SeqBag(mine)
VOK(st, op, mine, seen) == IF op.o = "CAll" /\ ~Ordered(st.c[op.c].kind) THEN SeqBag(mine) = SeqBag(seen) ELSE mine = seen
LiveObjects(st) ==
  FoldFunction(LAMBDA a, b : a + b, 0, [i \in Savers |-> IF st.s[i].v.t = "obj" THEN 1 ELSE 0])
  + FoldFunction(LAMBDA a, b : a + b, 0, [i \in Conts |-> Cardinality({j \in DOMAIN st.c[i].els : st.c[i].els[j].v.t = "obj"})])

(* What must hold *)
ContInv(st) == \A c \in Conts : LET C == st.c[c] IN
  /\ ~C.on => C = NoCont
  /\ ~Multi(C.kind) => \A i, j \in DOMAIN C.els : C.els[i].k = C.els[j].k => i = j
  /\ Ordered(C.kind) => \A i, j \in DOMAIN C.els : i < j => ~KeyLess(C.els[j].k, C.els[i].k)
ValInv(v) == (v.t = "void" => v = Void) /\ (v.t \in TextTypes => Conv(v.t, StrText(v)).ok)
SaverInv(st) == ContInv(st) /\ (\A s \in Savers : ValInv(st.s[s].v)) /\ \A c \in Conts : \A i \in DOMAIN st.c[c].els : ValInv(st.c[c].els[i].v)
\* copies are independent: a call changes only the objects it names
SFrame(op, s, o) ==
  /\ \A i \in Savers : o.st.s[i] # s.s[i] =>
       \/ "s" \in DOMAIN op /\ op.s = i /\ op.o \notin {"CAddS", "CSetS", "SGet"}
       \/ op.o = "SSwap" /\ op.q = i
  /\ \A i \in Conts : o.st.c[i] # s.c[i] =>
       \/ "c" \in DOMAIN op /\ op.c = i /\ op.o \notin {"CGet", "CGetS", "CStr", "CIs", "CAll"}
       \/ op.o = "CMove" /\ op.e = i
  /\ op.o \in {"SCopy", "SAsg"} => o.st.s[op.s].v = o.st.s[op.q].v /\ o.st.s[op.q] = s.s[op.q]
  /\ op.o = "SSwap" => o.st.s[op.s].v = s.s[op.q].v /\ o.st.s[op.q].v = s.s[op.s].v
  /\ ~o.ok => o.st = s /\ o.v = <<>> /\ o.del = <<>>
\* the delete function of a value runs when the value is reset or erased, once, and never later
DelOnce(op, s, o) ==
  /\ o.del # <<>> => op.o \in {"SReset", "CErase"} /\ Len(o.del) = 1
  /\ op.o = "SReset" => o.st.s[op.s].v = Void
=============================================================================
