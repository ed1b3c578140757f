-------------------------------- MODULE GenCsv --------------------------------
(***************************************************************************)
(* Generates scripts of imports and exports.  PROFILE "round": records are *)
(* created, saved in every way and read into a copy of the schema.         *)
(* PROFILE "import": files with good and bad rows, and arbitrary texts.    *)
(* PROFILE "big": files that are read in blocks.                           *)
(***************************************************************************)
EXTENDS Csv, Json, IOUtils
Profile == IOEnv.PROFILE
Seed == atoi(IOEnv.SEED)
NScripts == atoi(IOEnv.NSCRIPTS)
Depth == atoi(IOEnv.DEPTH)

VARIABLES idx, n, w, hist
vars == <<idx, n, w, hist>>

W0(i) == <<1 + ((Seed * 7919 + i * 104729) % 30000), 1 + ((i * 1009 + Seed * 31) % 30000), 1 + ((Seed * 257 + i * 65537) % 30000)>>
WNext(u) == <<(171 * u[1]) % 30269, (172 * u[2]) % 30307, (170 * u[3]) % 30323>>
X(u, i) == (((u[1] * (i + 11)) % 30271) + ((u[2] * (((i * i) % 509) + 3)) % 30293) + u[3]) \div 3
R(i, m) == X(w, i) % m
R0(i, m) == X(WNext(WNext(W0(idx))), i) % m       \* fixed for the script
Chance(i, p) == R(i, 100) < p
Nth(q, i) == q[1 + R(i, Len(q))]

Names == << <<65>>, <<66, 32, 98>>, <<>>, <<107, 44, 49>>, <<34, 120, 59>>, <<110, 13, 10, 109>>, <<65, 65>>, <<208, 182>>, <<48>> >>
SomeTypes == <<"str", "i32", "f64", "str", "bool", "i16", "u16", "u32", "i64", "u64", "f32", "str">>
NKeys == 1 + R0(1, 4)
KName(i) == Names[1 + ((R0(2, 97) + i * (1 + R0(3, 2))) % Len(Names))]
\* names differ: the step is 1 or 2 and there are 9 names
KType(i) == SomeTypes[1 + ((R0(4, 101) + i * (1 + 2 * R0(5, 5))) % Len(SomeTypes))]
KUniq(i) == R0(10 + i, 100) < (IF Profile = "import" THEN 22 ELSE 10)
Txt(s) == CASE s = "0" -> <<48>> [] s = "" -> <<>> [] s = "false" -> FalseText [] s = "0.0" -> <<48, 46, 48, 48, 48, 48, 48, 48>>
ZeroText(t) == IF t = "str" THEN <<>> ELSE IF t = "bool" THEN FalseText ELSE IF t \in FloatTypes THEN Txt("0.0") ELSE Txt("0")

Frags == << <<>>, <<>>, <<97>>, <<34>>, <<44>>, <<59>>, <<13, 10>>, <<13>>, <<10>>, <<32>>, <<34, 34>>, <<34, 44, 34>>, <<98, 99, 100>>, <<208, 182>>, <<9>>,
            <<48>>, <<124>>, <<0>>, <<255>>, <<46>>, <<45>>, <<39>>, <<97, 34, 98>>, <<44, 44>>, <<92>>, <<126>>, <<65>> >>
FragsText(i) == Nth(Frags, i) \o (IF R(i + 1, 3) = 0 THEN Nth(Frags, i + 2) ELSE <<>>) \o (IF R(i + 1, 5) = 0 THEN Nth(Frags, i + 3) ELSE <<>>)
\* a plain text of some length with one or two special fragments at its start, inside it or at its end
Plain(m, i) == [j \in 1..m |-> 97 + ((R(i, 26) + j * 7) % 26)]
Specials == << <<34>>, <<34>>, <<34>>, <<44>>, <<59>>, <<13, 10>>, <<10>>, <<13>>, <<32>>, <<34, 34>>, <<34, 44>>, <<208, 182>>, <<124>>, <<9>> >>
LongText(i) == LET m == Nth(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 31, 33>>, i + 2)
                   p == Nth(<<0, m, m, m \div 2, R(i + 5, m + 1)>>, i + 3)
                   t == Plain(m, i + 1) IN
               SubSeq(t, 1, p) \o Nth(Specials, i + 4) \o SubSeq(t, p + 1, m) \o (IF R(i + 6, 4) = 0 THEN Nth(Specials, i + 7) ELSE <<>>)
StrOf(i) == IF R(i + 9, 3) = 0 THEN LongText(i) ELSE FragsText(i)
\* texts of values, canonical, of the type t
Up(d) == [i \in DOMAIN d |-> IF i = Len(d) THEN d[i] + 1 ELSE d[i]]
IntTexts(t) == << <<48>>, <<49>>, <<50>>, <<49, 48, 48>>, IntMax[t], [i \in DOMAIN IntMax[t] |-> IF i = Len(IntMax[t]) THEN 48 ELSE IntMax[t][i]] >>
               \o (IF t \in SignedTypes THEN << <<Minus>> \o IntMin[t], <<Minus, 49>>, <<Minus, 51, 55>> >> ELSE << <<51, 55>> >>)
FloatTexts(t) == << Txt("0.0"), <<45, 49, 46, 53, 48, 48, 48, 48, 48>>, <<48, 46, 50, 53, 48, 48, 48, 48>>, <<48, 46, 48, 49, 53, 54, 50, 53>>,
                   <<57, 57, 57, 57, 57, 46, 57, 56, 52, 51, 55, 53>>, <<126, 48, 46, 49, 48, 48, 48, 48, 48>>, <<126, 45, 51, 46, 55, 48, 48, 48, 48, 48>> >>
                 \o (IF t = "f64" THEN << <<49, 50, 51, 52, 53, 54, 55, 56, 57, 46, 53, 48, 48, 48, 48, 48>>, <<126, 49, 50, 46, 51, 52, 53, 54, 55, 56>> >> ELSE <<>>)
ValText(t, i) == CASE t = "str" -> StrOf(i) [] t = "bool" -> Nth(<<TrueText, FalseText>>, i)
                   [] t \in IntTypes -> Nth(IntTexts(t), i) [] OTHER -> Nth(FloatTexts(t), i)
\* other texts: some convert, most do not
OddTexts == << <<>>, <<45>>, <<43, 49>>, <<32, 49>>, <<49, 32>>, <<48, 48, 55>>, <<45, 48>>, <<49, 46, 48>>, <<49, 97>>, <<45, 45, 49>>, <<49, 101, 53>>, <<49, 46, 50, 46, 51>>,
               <<84, 114, 117, 101>>, <<49>>, <<45, 55>>, [i \in 1..30 |-> 57], <<120>>, <<48, 120, 49>>, <<44>>, <<34>>, <<13, 10>>, <<48, 46, 53>>, <<45, 49, 50, 46, 48, 54, 50, 53>>,
               <<51, 50, 55, 54, 56>>, <<54, 53, 53, 51, 54>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, <<45, 51, 50, 55, 54, 57>>,
               <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 57>>, Up(IntMax["i64"]), Up(IntMax["u64"]), <<45>> \o Up(IntMin["i64"]), <<50, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>,
               <<47>>, <<58>>, <<49, 47>>, <<49, 58>>, <<45, 47>>, <<48, 49, 46, 53>>, <<110, 97, 110>>, <<105, 110, 102>> >>
FieldText(t, i) == IF Chance(i + 4, 76) THEN TextOf(t, ValText(t, i)) ELSE IF Chance(i + 4, 80) THEN StrOf(i) ELSE Nth(OddTexts, i)

Seps == <<44, 44, 44, 59, 59, 124, 9, 32, 97, 48, 45, 46, 0, 255, 39, 126, 1>>
\* a separator is neither a quote nor a line break
TheSep == Nth(Seps, 20)
SubKeys == LET m == 1 + R(21, NKeys)  s == R(22, NKeys)  st == IF NKeys \in {3} THEN 1 + R(23, 2) ELSE IF NKeys = 4 /\ Chance(23, 50) THEN 3 ELSE 1 IN
           [i \in 1..m |-> KName(1 + ((s + i * st) % NKeys))]
KeyIdx(k) == IF \E i \in 1..NKeys : KName(i) = k THEN CHOOSE i \in 1..NKeys : KName(i) = k ELSE 0
TypeOfKey(k) == IF KeyIdx(k) = 0 THEN "str" ELSE KType(KeyIdx(k))

(******************************* files *************************************)
TheMode == Nth(<<"hdr", "hdr", "order", "user", "handler">>, 24)
Cols == CASE TheMode \in {"hdr", "handler"} ->
               (IF Chance(25, 55) THEN [i \in 1..NKeys |-> KName(i)] ELSE SubKeys)
               \o (IF Chance(26, 12) THEN << <<90, 90>> >> ELSE IF Chance(26, 18) THEN <<KName(1)>> ELSE <<>>)
          [] TheMode = "order" -> [i \in 1..NKeys |-> KName(i)]
          [] OTHER -> SubKeys
NRows == R(27, 6)
RowAt(j) == IF Chance(28 + j, 10) THEN <<>>
            ELSE LET m == Len(Cols) + (IF Chance(34 + j, 10) THEN 1 ELSE IF Chance(34 + j, 22) THEN -1 ELSE 0) IN
                 [i \in 1..(IF m < 1 THEN 1 ELSE m) |-> FieldText(IF i <= Len(Cols) THEN TypeOfKey(Cols[i]) ELSE "str", 60 + 37 * j + 7 * i)]
Eol(j) == IF Chance(40, 60) THEN Nth(<< <<13, 10>>, <<10>>, <<13>> >>, 41) ELSE Nth(<< <<13, 10>>, <<10>>, <<13>> >>, 42 + j)
Rendered(row, sep, j) ==
  IF row = <<>> THEN <<>>
  ELSE IF Len(row) = 1 /\ row[1] = <<>> THEN <<Quote, Quote>>
  ELSE FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN <<sep>> ELSE <<>>) \o WriteField(row[i], sep, Chance(300 + 9 * j + i, 30)), <<>>, [i \in DOMAIN row |-> i])
FileRows == (IF TheMode \in {"hdr", "handler"} THEN <<Cols>> ELSE <<>>) \o [j \in 1..NRows |-> RowAt(j)]
FileText(sep) ==
  LET t == FoldLeft(LAMBDA a, j : a \o Rendered(FileRows[j], sep, j) \o (IF j < Len(FileRows) \/ Chance(50, 50) THEN Eol(j) ELSE <<>>), <<>>, [j \in DOMAIN FileRows |-> j])
  IN IF Chance(51, 8) /\ Len(t) > 0 THEN SubSeq(t, 1, R(52, Len(t))) ELSE t
Soup(sep) == LET pool == << <<97>>, <<sep>>, <<34>>, <<13>>, <<10>>, <<34, sep>>, <<sep, 34>>, <<49>>, <<34, 34>>, <<13, 10>>, <<34, 10>>, <<0>> >> IN
             FoldLeft(LAMBDA a, i : a \o pool[1 + R(400 + i, Len(pool))], <<>>, [i \in 1..R(53, 25) |-> i])
Hm == Nth(<<"none", "none", "clear", "pop", "push", "set", "swap">>, 54)

Read(v, src, text, sep, mode, keys) == [o |-> "Read", v |-> v, src |-> src, text |-> text, sep |-> sep, mode |-> mode, keys |-> keys, hm |-> IF mode = "handler" THEN Hm ELSE "none", miss |-> FALSE]
RecOp == [o |-> "Rec", v |-> 1, cells |-> [i \in 1..(IF Chance(55, 12) THEN NKeys - 1 ELSE NKeys) |-> ValText(KType(i), 60 + 7 * i)]]
KeyOp(i) == [o |-> "Key", v |-> 1, k |-> KName(i), t |-> KType(i), u |-> KUniq(i), d |-> IF KUniq(i) \/ KType(i) = "str" THEN ZeroText(KType(i)) ELSE Nth(<<ZeroText(KType(i)), ValText(KType(i), 60)>>, 61)]

NSetup == NKeys + 1
\* the last Save of the history decides how its file is read
LastSave == LET is == {i \in DOMAIN hist : hist[i].o = "Save" /\ hist[i].bad = ""} IN hist[CHOOSE i \in is : \A j \in is : j <= i]
RoundOps ==
  CASE n = NSetup -> [o |-> "Clone", v |-> 2, src |-> 1]
    [] n > NSetup /\ n <= NSetup + 3 /\ ~Chance(56, 15) -> RecOp
    [] OTHER ->
       LET c == (n - NSetup) % 3 IN
       IF c = 0 THEN IF Chance(57, 30) THEN RecOp ELSE [o |-> "Drop", v |-> 2]
       ELSE IF c = 1 \/ ~\E i \in DOMAIN hist : hist[i].o = "Save" /\ hist[i].bad = ""
       THEN [o |-> "Save", v |-> 1, host |-> IF Chance(58, 30) THEN "s" ELSE "v", m |-> R(59, 5), keys |-> IF Chance(49, 50) THEN <<>> ELSE SubKeys,
             sep |-> TheSep, hdr |-> R(48, 3) # 0, bad |-> IF Chance(47, 5) THEN "dir" ELSE IF Chance(47, 9) THEN "full" ELSE ""]
       ELSE LET s == LastSave IN Read(2, "last", <<>>, s.sep, IF s.hdr THEN (IF Chance(46, 15) THEN "handler" ELSE "hdr") ELSE IF s.keys = <<>> THEN "order" ELSE "user", s.keys)
ImportOps ==
  IF n < NSetup + 2 \/ Chance(57, 15) THEN RecOp
  ELSE IF Chance(45, 8) THEN [o |-> "Drop", v |-> 1]
  ELSE LET sep == TheSep IN
       [Read(1, "text", IF Chance(44, 25) THEN Soup(sep) ELSE FileText(sep), sep, TheMode, IF TheMode = "user" THEN Cols ELSE <<>>)
          EXCEPT !.miss = Chance(43, 3), !.hm = IF TheMode = "handler" THEN Hm ELSE "none"]

\* Files of more than 10 MiB are read in blocks of 4096 characters: a pattern whose length has no common
\* factor with the block shows every one of its characters at every place of a block.
BigField(j) == IF j % 3 = 0 THEN <<97, 34, 98, 44>> \o [i \in 1..(11 + R(70 + j, 20)) |-> 99] ELSE IF j % 3 = 1 THEN <<13, 10, 34>> \o [i \in 1..R(70 + j, 9) |-> 100] ELSE [i \in 1..R(70 + j, 7) |-> 101]
BigPat(sep) == LET b == FoldLeft(LAMBDA a, j : a \o WriteRow(<<BigField(j), BigField(j + 1), [i \in 1..30 |-> 97 + (i % 26)]>>, sep, j % 2 = 0) \o Nth(<< <<13, 10>>, <<10>>, <<13>> >>, 41), <<>>, <<1, 2, 3, 4, 5, 6, 7>>)
                   e == Nth(<< <<13, 10>>, <<10>>, <<13>> >>, 41)
                   q(k) == WriteRow(<<[i \in 1..k |-> 122]>>, sep, FALSE) \o e IN
               IF Len(b \o q(1)) % 2 = 1 THEN b \o q(1) ELSE b \o q(2)
BigPre(sep) == IF Chance(71, 30) THEN <<>> ELSE [i \in 1..(1 + R(72, 4000)) |-> 112] \o Nth(<< <<13, 10>>, <<10>>, <<13>> >>, 41)
BigOps == IF n = 1 THEN [o |-> "Key", v |-> 1, k |-> <<65>>, t |-> "str", u |-> FALSE, d |-> <<>>]
          ELSE IF n = 2 THEN [o |-> "Key", v |-> 1, k |-> <<66>>, t |-> "str", u |-> FALSE, d |-> <<120>>]
          ELSE IF n = 3 THEN [o |-> "Key", v |-> 1, k |-> <<67>>, t |-> "str", u |-> FALSE, d |-> <<>>]
          ELSE IF n = 4 THEN LET sep == Nth(<<44, 59, 124>>, 20)  p == BigPat(sep) IN
               [o |-> "Big", v |-> 1, pre |-> BigPre(sep), pat |-> p, n |-> (10485760 \div Len(p)) + 1 + R(73, 30), suf |-> Nth(<< <<>>, <<97, sep>>, <<34, 97, 10, 34>>, <<34, 34>> >>, 74),
                sep |-> sep, mode |-> "order", keys |-> <<>>, miss |-> FALSE, src |-> "text"]
          ELSE [o |-> "Nop", v |-> 1]

Mk == IF n = 0 THEN [o |-> "New", v |-> 1]
      ELSE IF Profile = "big" THEN BigOps
      ELSE IF n <= NKeys THEN KeyOp(n)
      ELSE IF Profile = "round" THEN RoundOps ELSE ImportOps

Init == idx \in 1..NScripts /\ n = 0 /\ hist = <<>> /\ w = WNext(WNext(WNext(WNext(W0(idx)))))
Next == /\ n < Depth
        /\ n' = n + 1 /\ idx' = idx /\ w' = WNext(w)
        /\ hist' = Append(hist, Mk)
        /\ (n' = Depth => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<idx, n, hist>>
=============================================================================
