-------------------------------- MODULE Csv --------------------------------
(***************************************************************************)
(* The CSV side of MVault: the dialect, the conversion of field texts, the *)
(* import (ReadFile, with and without header, chosen keys, row handler)    *)
(* and the export (SaveToFile of vaults and sets).                         *)
(*                                                                         *)
(* Texts are sequences of character codes.  A value is its canonical text. *)
(* A vault is its keys (in order, each with type, uniqueness and default)  *)
(* and the bag of its rows; a row is the sequence of values in key order.  *)
(* Step(st, op, obs) is the set of states the call may lead to; OutOK      *)
(* judges what the call returned.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, SequencesExt, TLC

CR == 13  LF == 10  Quote == 34  Comma == 44  Minus == 45  Dot == 46  Zero == 48  Nine == 57

(******************************* the dialect *******************************)
\* A text is read character by character.  m: what the next character may be
\*   "f" in an unquoted field (or before any field), "q" inside quotes, "e" after a quote that may end the
\*   quoted part, "c" right after CR
\* any: the row has a character or a quoted field, so it is not a blank line
P0 == [m |-> "f", fld |-> <<>>, row |-> <<>>, rows |-> <<>>, quoted |-> FALSE, any |-> FALSE, good |-> TRUE]
EndField(p) == [p EXCEPT !.m = "f", !.row = Append(@, p.fld), !.fld = <<>>, !.quoted = FALSE, !.any = TRUE]
EndRow(p, m) == [p EXCEPT !.m = m, !.rows = Append(@, IF p.any THEN Append(p.row, p.fld) ELSE <<>>),
                          !.row = <<>>, !.fld = <<>>, !.quoted = FALSE, !.any = FALSE]
PlainStep(p, c, sep) ==
  IF c = CR THEN EndRow(p, "c")
  ELSE IF c = LF THEN EndRow(p, "f")
  ELSE IF c = sep THEN EndField(p)
  ELSE IF c = Quote THEN IF p.fld = <<>> /\ ~p.quoted THEN [p EXCEPT !.m = "q", !.quoted = TRUE, !.any = TRUE]
                         ELSE [p EXCEPT !.good = FALSE]
  ELSE [p EXCEPT !.m = "f", !.fld = Append(@, c), !.any = TRUE]
PStep(p, c, sep) ==
  IF ~p.good THEN p
  ELSE CASE p.m = "f" -> PlainStep(p, c, sep)
         [] p.m = "c" -> IF c = LF THEN [p EXCEPT !.m = "f"] ELSE PlainStep([p EXCEPT !.m = "f"], c, sep)
         [] p.m = "q" -> IF c = Quote THEN [p EXCEPT !.m = "e"] ELSE [p EXCEPT !.fld = Append(@, c)]
         [] p.m = "e" -> IF c = Quote THEN [p EXCEPT !.m = "q", !.fld = Append(@, c)]
                         ELSE IF c = sep \/ c = CR \/ c = LF THEN PlainStep(p, c, sep)
                         ELSE [p EXCEPT !.good = FALSE]
PEnd(p) == IF p.m = "q" THEN [p EXCEPT !.good = FALSE]
           ELSE IF p.any THEN EndRow(p, "f") ELSE p
\* [rows, good]: the rows (a blank line is the empty row), and whether the quoting is well formed
Parse(text, sep) == LET p == PEnd(FoldLeft(LAMBDA a, c : PStep(a, c, sep), P0, text)) IN [rows |-> p.rows, good |-> p.good]

\* Ways to write rows.  force: quote every field; eol: the line end; last: also after the last row
NeedQuote(f, sep) == \E i \in DOMAIN f : f[i] \in {CR, LF, Quote, sep}
Doubled(f) == FoldLeft(LAMBDA a, c : IF c = Quote THEN a \o <<Quote, Quote>> ELSE Append(a, c), <<>>, f)
WriteField(f, sep, force) == IF force \/ NeedQuote(f, sep) THEN <<Quote>> \o Doubled(f) \o <<Quote>> ELSE f
WriteRow(row, sep, force) ==
  IF row = << <<>> >> THEN <<Quote, Quote>>         \* not a blank line
  ELSE FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN <<sep>> ELSE <<>>) \o WriteField(row[i], sep, force), <<>>, [i \in DOMAIN row |-> i])
WriteRows(rows, sep, force, eol, last) ==
  FoldLeft(LAMBDA a, i : a \o WriteRow(rows[i], sep, force) \o (IF i < Len(rows) \/ last THEN eol ELSE <<>>), <<>>, [i \in DOMAIN rows |-> i])

(**************************** field texts **********************************)
IsDigit(c) == c >= Zero /\ c <= Nine
AllDigits(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i])
RECURSIVE Strip0(_)
Strip0(t) == IF Len(t) > 1 /\ t[1] = Zero THEN Strip0(Tail(t)) ELSE t
\* order of digit texts without leading zeros
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LET i == CHOOSE i \in DOMAIN a : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j] IN a[i] < b[i]))
D(s) == [i \in DOMAIN s |-> Zero + s[i]]
\* biggest magnitude: non negative, negative
IntMax == [i16 |-> D(<<3,2,7,6,7>>), u16 |-> D(<<6,5,5,3,5>>), i32 |-> D(<<2,1,4,7,4,8,3,6,4,7>>), u32 |-> D(<<4,2,9,4,9,6,7,2,9,5>>),
           i64 |-> D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>), u64 |-> D(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)]
IntMin == [i16 |-> D(<<3,2,7,6,8>>), i32 |-> D(<<2,1,4,7,4,8,3,6,4,8>>), i64 |-> D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)]
SignedTypes == DOMAIN IntMin
IntTypes == DOMAIN IntMax
FloatTypes == {"f32", "f64"}
CsvTypes == IntTypes \cup FloatTypes \cup {"str", "bool"}
TrueText == <<116, 114, 117, 101>>   FalseText == <<102, 97, 108, 115, 101>>

No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
IntOf(t, x) ==
  IF AllDigits(x) THEN LET y == Strip0(x) IN IF DigLeq(y, IntMax[t]) THEN Yes(y) ELSE No
  ELSE IF t \in SignedTypes /\ Len(x) > 1 /\ x[1] = Minus /\ AllDigits(Tail(x))
       THEN LET y == Strip0(Tail(x)) IN
            IF y = <<Zero>> THEN Yes(y) ELSE IF DigLeq(y, IntMin[t]) THEN Yes(<<Minus>> \o y) ELSE No
  ELSE No
\* Floating point: -?digits[.digits].  The canonical value has exactly six decimals; a value that is not a
\* multiple of 1/64 is only known rounded and carries the mark "~".
PointAt(x) == {i \in DOMAIN x : x[i] = Dot}
FloatSyntax(x) == LET y == IF Len(x) > 1 /\ x[1] = Minus THEN Tail(x) ELSE x IN
  /\ y # <<>>
  /\ \A i \in DOMAIN y : IsDigit(y[i]) \/ y[i] = Dot
  /\ Cardinality(PointAt(y)) <= 1
Num(ds) == FoldLeft(LAMBDA a, c : 10 * a + (c - Zero), 0, ds)
Pad6(ds) == ds \o [i \in 1..(6 - Len(ds)) |-> Zero]
\* what the specification says nothing about: a point without digits on both sides, more digits than the type holds exactly
FloatVague(t, x) ==
  LET y == IF x[1] = Minus THEN Tail(x) ELSE x
      p == IF PointAt(y) = {} THEN 0 ELSE CHOOSE i \in DOMAIN y : y[i] = Dot
      n == Len(Strip0(IF p = 0 THEN y ELSE SubSeq(y, 1, p - 1)))  f == IF p = 0 THEN 0 ELSE Len(y) - p IN
  FloatSyntax(x) /\ (p = 1 \/ (p = Len(y) /\ p # 0) \/ f > 6 \/ n > (IF t = "f32" THEN 5 ELSE 12)
                    \/ (n + f > (IF t = "f32" THEN 6 ELSE 15) /\ Num(Pad6(IF p = 0 THEN <<>> ELSE SubSeq(y, p + 1, Len(y)))) % 15625 # 0))
FloatOf(t, x) ==
  IF ~FloatSyntax(x) THEN No
  ELSE LET neg == x[1] = Minus
           y == IF neg THEN Tail(x) ELSE x
           p == IF PointAt(y) = {} THEN 0 ELSE CHOOSE i \in DOMAIN y : y[i] = Dot
           whole == Strip0(IF p = 0 THEN y ELSE SubSeq(y, 1, p - 1))
           frac == Pad6(IF p = 0 THEN <<>> ELSE SubSeq(y, p + 1, Len(y)))
           exact == Num(frac) % 15625 = 0
           zero == whole = <<Zero>> /\ Num(frac) = 0
           txt == (IF neg /\ ~zero THEN <<Minus>> ELSE <<>>) \o whole \o <<Dot>> \o frac
       IN Yes(IF exact THEN txt ELSE <<126>> \o txt)
Conv(t, x) ==
  CASE t = "str" -> Yes(x)
    [] t = "bool" -> IF x = TrueText \/ x = FalseText THEN Yes(x) ELSE No
    [] t \in IntTypes -> IntOf(t, x)
    [] OTHER -> FloatOf(t, x)
Vague(t, x) == t \in FloatTypes /\ FloatVague(t, x)
\* The text that a value has in a file
TextOf(t, v) == IF t \in FloatTypes /\ v[1] = 126 THEN Tail(v) ELSE v

(***************************** state and calls *****************************)
NoVault == [on |-> FALSE, keys |-> <<>>, rows |-> [x \in {} |-> 0]]
InitState == [v |-> [x \in {1, 2} |-> NoVault], file |-> <<>>]
KeyNames(V) == {V.keys[i].k : i \in DOMAIN V.keys}
KeyPos(V, k) == CHOOSE i \in DOMAIN V.keys : V.keys[i].k = k
Defaults(V) == [i \in DOMAIN V.keys |-> V.keys[i].d]
AddRow(rows, r, n) == [x \in (DOMAIN rows) \cup {r} |-> (IF x \in DOMAIN rows THEN rows[x] ELSE 0) + (IF x = r THEN n ELSE 0)]
Conflicts(V, r) == {i \in DOMAIN V.keys : V.keys[i].u /\ \E x \in DOMAIN V.rows : x[i] = r[i]}
BagSize(b) == FoldFunction(LAMBDA x, y : x + y, 0, b)

\* Sets the fields one after the other.  Result: [row, bad]: bad is the number of the first field that cannot be set, 0 if none
SetFields(V, keys, fields) ==
  LET n == IF Len(keys) < Len(fields) THEN Len(keys) ELSE Len(fields) IN
  FoldLeft(LAMBDA a, i :
     IF a.bad # 0 THEN a
     ELSE IF keys[i] \notin KeyNames(V) THEN [a EXCEPT !.bad = i]
     ELSE LET p == KeyPos(V, keys[i])  c == Conv(V.keys[p].t, fields[i]) IN
          IF c.ok THEN [a EXCEPT !.row[p] = c.v] ELSE [a EXCEPT !.bad = i],
     [row |-> Defaults(V), bad |-> 0, n |-> n], [i \in 1..n |-> i])
IsVague(V, keys, fields) ==
  \E i \in DOMAIN fields : i <= Len(keys) /\ keys[i] \in KeyNames(V) /\ Vague(V.keys[KeyPos(V, keys[i])].t, fields[i])

\* What the handler of the harness does with the fields of a row
Handle(hm, row) ==
  CASE hm = "none" -> row
    [] hm = "clear" -> <<>>
    [] hm = "pop" -> IF row = <<>> THEN row ELSE Front(row)
    [] hm = "push" -> Append(row, <<55>>)
    [] hm = "set" -> IF row = <<>> THEN row ELSE [row EXCEPT ![1] = <<49, 50>>]
    [] hm = "swap" -> Reverse(row)

\* One data row.  a: [V, errs].  no: number of the data row.  off: what the line of a conversion error adds to it.
\* errs: sequence of [line, keys]: one of the keys is reported
ImportRow(a, keys, fields, no, off) ==
  LET s == SetFields(a.V, keys, fields) IN
  IF s.bad # 0 THEN [a EXCEPT !.errs = Append(@, [line |-> no + off, keys |-> {keys[s.bad]}])]
  ELSE IF s.n = 0 THEN a           \* a blank line is no row
  ELSE LET c == Conflicts(a.V, s.row) IN
       IF c # {} THEN [a EXCEPT !.errs = Append(@, [line |-> no, keys |-> {a.V.keys[i].k : i \in c}])]
       ELSE [a EXCEPT !.V.rows = AddRow(@, s.row, 1)]

\* The keys of the columns and the data rows of a file
HeadOf(V, op, rows) == CASE op.mode \in {"hdr", "handler"} -> IF rows = <<>> THEN <<>> ELSE rows[1]
                         [] op.mode = "user" /\ op.keys # <<>> -> op.keys
                         [] OTHER -> [i \in DOMAIN V.keys |-> V.keys[i].k]
DataOf(op, rows) == IF op.mode \in {"hdr", "handler"} THEN (IF rows = <<>> THEN <<>> ELSE Tail(rows)) ELSE rows
Import(V, op, rows) ==
  LET head == HeadOf(V, op, rows)  data == DataOf(op, rows)
      off == IF op.mode \in {"hdr", "handler"} THEN 1 ELSE 0 IN
  FoldLeft(LAMBDA a, i : ImportRow(a, head, IF op.mode = "handler" THEN Handle(op.hm, data[i]) ELSE data[i], i, off),
           [V |-> V, errs |-> <<>>], [i \in DOMAIN data |-> i])
ImportVague(V, op, rows) ==
  \E i \in DOMAIN DataOf(op, rows) : IsVague(V, HeadOf(V, op, rows), IF op.mode = "handler" THEN Handle(op.hm, DataOf(op, rows)[i]) ELSE DataOf(op, rows)[i])

\* The text that the call Read gets
InputOf(st, op) == IF op.src = "last" THEN st.file ELSE op.text

\* Bag of rows shown by the text of a file
RowsBag(rows) == FoldLeft(LAMBDA b, r : AddRow(b, r, 1), [x \in {} |-> 0], rows)
Project(V, keys, bag) ==
  LET pick(r) == [i \in DOMAIN keys |-> LET p == KeyPos(V, keys[i]) IN TextOf(V.keys[p].t, r[p])] IN
  FoldFunctionOnSet(LAMBDA x, b : AddRow(b, x[1], x[2]), [x \in {} |-> 0], [r \in DOMAIN bag |-> <<pick(r), bag[r]>>], DOMAIN bag)
SaveKeys(V, op) == IF op.keys = <<>> THEN [i \in DOMAIN V.keys |-> V.keys[i].k] ELSE op.keys
\* The text is a rendering of these rows: judged by reading it, not by how it is quoted
SavedOK(V, op, bag, text) ==
  LET p == Parse(text, op.sep)  ks == SaveKeys(V, op) IN
  /\ p.good
  /\ op.hdr => p.rows # <<>> /\ p.rows[1] = ks
  /\ RowsBag(IF op.hdr THEN Tail(p.rows) ELSE p.rows) = Project(V, ks, bag)

BagLeq(a, b) == \A r \in DOMAIN a : r \in DOMAIN b /\ a[r] <= b[r]

CsvPre(st, op) ==
  CASE op.o = "New" -> ~st.v[op.v].on
    [] op.o = "Clone" -> op.v # op.src /\ st.v[op.src].on
    [] OTHER -> st.v[op.v].on

\* The state after the call.  obs: the observation (only where the call has freedom)
CsvNext(st, op, obs) ==
  CASE op.o = "New" -> [st EXCEPT !.v[op.v] = [NoVault EXCEPT !.on = TRUE]]
    [] op.o = "Clone" -> [st EXCEPT !.v[op.v] = [st.v[op.src] EXCEPT !.rows = [x \in {} |-> 0]]]
    [] op.o = "Drop" -> [st EXCEPT !.v[op.v].rows = [x \in {} |-> 0]]
    [] op.o = "Key" ->
         LET V == st.v[op.v] IN
         IF op.k \in KeyNames(V) \/ (op.u /\ DOMAIN V.rows # {}) THEN st
         ELSE LET key == [k |-> op.k, t |-> op.t, u |-> op.u, d |-> op.d] IN
              [st EXCEPT !.v[op.v] = [V EXCEPT !.keys = Append(@, key),
                 !.rows = FoldFunctionOnSet(LAMBDA x, b : AddRow(b, x[1], x[2]), [x \in {} |-> 0], [r \in DOMAIN V.rows |-> <<Append(r, op.d), V.rows[r]>>], DOMAIN V.rows)]]
    [] op.o = "Rec" ->
         LET V == st.v[op.v]  r == [i \in DOMAIN V.keys |-> IF i <= Len(op.cells) THEN op.cells[i] ELSE V.keys[i].d] IN
         IF Conflicts(V, r) # {} THEN st ELSE [st EXCEPT !.v[op.v].rows = AddRow(@, r, 1)]
    [] op.o = "Read" ->
         LET V == st.v[op.v]  p == Parse(InputOf(st, op), op.sep) IN
         IF op.miss THEN st
         ELSE IF ~p.good \/ ImportVague(V, op, p.rows) THEN [st EXCEPT !.v[op.v].rows = obs.rows[op.v]]
         ELSE [st EXCEPT !.v[op.v] = Import(V, op, p.rows).V]
    [] op.o = "Big" ->
         LET V == st.v[op.v]  one == RowsBag(Parse(op.pat, op.sep).rows)
             pad(r) == [i \in DOMAIN V.keys |-> IF i <= Len(r) THEN r[i] ELSE V.keys[i].d]
             more(b, rows, n) == FoldLeft(LAMBDA x, r : AddRow(x, pad(r), n), b, rows) IN
         [st EXCEPT !.v[op.v].rows = more(more(more(@, Parse(op.pre, op.sep).rows, 1), Parse(op.pat, op.sep).rows, op.n), Parse(op.suf, op.sep).rows, 1)]
    [] op.o = "Save" -> IF op.bad = "" THEN [st EXCEPT !.file = obs.text] ELSE st
    [] OTHER -> st

\* What the call returned
CsvOut(st, op, obs) ==
  CASE op.o = "Read" ->
         LET V == st.v[op.v]  p == Parse(InputOf(st, op), op.sep) IN
         IF op.miss THEN ~obs.ok
         ELSE /\ obs.ok
              /\ IF ~p.good \/ ImportVague(V, op, p.rows)
                 THEN \* any rows may come, but they are rows of this vault and the records that were there stay
                      /\ BagLeq(V.rows, obs.rows[op.v])
                      /\ \A i \in DOMAIN V.keys : V.keys[i].u =>
                           \A r, q \in DOMAIN obs.rows[op.v] : (r[i] = q[i] => r = q) /\ obs.rows[op.v][r] = 1
                 ELSE LET e == Import(V, op, p.rows).errs IN
                      /\ Len(e) = Len(obs.errs)
                      /\ \A i \in DOMAIN e : e[i].line = obs.errs[i][1] /\ obs.errs[i][2] \in e[i].keys
                      /\ op.mode = "handler" => obs.raw = [i \in DOMAIN DataOf(op, p.rows) |-> <<HeadOf(V, op, p.rows), DataOf(op, p.rows)[i]>>]
    [] op.o = "Big" -> obs.ok /\ obs.errs = <<>>
    [] op.o = "Save" ->
         IF op.bad = "dir" THEN ~obs.ok
         ELSE IF op.bad = "full"        \* nothing can be written
         THEN obs.ok = ~(st.v[op.v].keys # <<>> /\ (op.hdr \/ DOMAIN (IF op.host = "s" THEN obs.set ELSE st.v[op.v].rows) # {}))
         ELSE /\ obs.ok
              /\ op.host = "s" => BagLeq(obs.set, st.v[op.v].rows) /\ BagSize(obs.set) = (IF op.m < BagSize(st.v[op.v].rows) THEN op.m ELSE BagSize(st.v[op.v].rows))
              /\ SavedOK(st.v[op.v], op, IF op.host = "s" THEN obs.set ELSE st.v[op.v].rows, obs.text)
    [] op.o = "Key" -> obs.ok = ~(op.k \in KeyNames(st.v[op.v]) \/ (op.u /\ DOMAIN st.v[op.v].rows # {}))
    [] op.o = "Rec" -> obs.ok = (Conflicts(st.v[op.v], [i \in DOMAIN st.v[op.v].keys |-> IF i <= Len(op.cells) THEN op.cells[i] ELSE st.v[op.v].keys[i].d]) = {})
    [] OTHER -> TRUE

\* No two rows share the value of a unique key
CsvUnique(st) == \A v \in {1, 2} : \A i \in DOMAIN st.v[v].keys : st.v[v].keys[i].u =>
  \A r, q \in DOMAIN st.v[v].rows : (r[i] = q[i] => r = q) /\ st.v[v].rows[r] = 1
=============================================================================
