---------------------------- MODULE PlexilValues ----------------------------
(***************************************************************************)
(* Values and operators of the PLEXIL expression language.                 *)
(*                                                                         *)
(* A value is a tuple tagged with its type, <<"u">> is "unknown":          *)
(*   <<"b", 0 or 1>>  <<"i", n>>  <<"r", n>> (n sixteenths)  <<"s", text>> *)
(*   <<"a", sequence of values>>  <<"n", node state>>  <<"o", outcome>>    *)
(*   <<"f", failure type>>  <<"h", command handle>>                        *)
(* <<"err">> marks an evaluation which the language calls a plan error.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == <<"u">>
T == <<"b", 1>>
F == <<"b", 0>>
Err == <<"err">>
B(p) == IF p THEN T ELSE F
Known(v) == v[1] # "u" /\ v[1] # "err"

Scale == 16
Num(v) == IF v[1] = "i" THEN v[2] * Scale ELSE v[2]
IsNum(v) == v[1] = "i" \/ v[1] = "r"

Abs(n) == IF n < 0 THEN -n ELSE n
(* division and remainder that truncate toward zero *)
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TMod(a, b) == a - b * TDiv(a, b)
Odd == <<"x", "">>      \* a real that is no multiple of 1/16
Mk(ty, n) == IF ty = "i" THEN <<"i", TDiv(n, Scale)>> ELSE <<"r", n>>
IntRes(n) == <<"i", n>>

ValEq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN Num(a) = Num(b) ELSE a = b

AnyUnknown(s) == \E i \in DOMAIN s : ~Known(s[i])
AnyErr(s) == \E i \in DOMAIN s : s[i] = Err

RECURSIVE FoldNum(_, _, _)
FoldNum(Op(_, _), s, acc) ==
  IF s = <<>> THEN acc ELSE FoldNum(Op, Tail(s), Op(acc, Num(Head(s))))

RECURSIVE CatAll(_)
CatAll(s) == IF s = <<>> THEN "" ELSE Head(s)[2] \o CatAll(Tail(s))

(* rounding of n sixteenths, still in sixteenths *)
FloorN(n) == (n \div Scale) * Scale
CeilN(n) == -(FloorN(-n))
TruncN(n) == TDiv(n, Scale) * Scale
(* C round(): half away from zero *)
RoundN(n) == IF n >= 0 THEN FloorN(n + 8) ELSE -FloorN(8 - n)

(* exact square root of n sixteenths, if it is a multiple of 1/16 *)
SqrtN(n) ==
  LET cands == {r \in 0..800 : r * r = n * Scale}
  IN IF cands = {} THEN Odd ELSE <<"r", CHOOSE r \in cands : TRUE>>

Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == TDiv(a * b, Scale)
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

(* Strings compare character by character (of those the plans use)          *)
Chars == " -.0123456789=ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rank == [i \in 1..Len(Chars) |-> SubSeq(Chars, i, i)]
RankOf(c) == CHOOSE i \in DOMAIN Rank : Rank[i] = c
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  CASE b = "" -> FALSE
    [] a = "" -> TRUE
    [] SubSeq(a, 1, 1) = SubSeq(b, 1, 1) -> StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
    [] OTHER -> RankOf(SubSeq(a, 1, 1)) < RankOf(SubSeq(b, 1, 1))
Less(a, b) == IF a[1] = "s" THEN StrLess(a[2], b[2]) ELSE Num(a) < Num(b)

(* The operator op, result type ty ("i" or "r" where it matters), applied   *)
(* to the operand values s.                                                 *)
Apply(op, ty, s) ==
  CASE op = "AND" ->
         IF \E i \in DOMAIN s : s[i] = F THEN F
         ELSE IF AnyUnknown(s) THEN U ELSE T
    [] op = "OR" ->
         IF \E i \in DOMAIN s : s[i] = T THEN T
         ELSE IF AnyUnknown(s) THEN U ELSE F
    [] op = "IsKnown" -> B(Known(s[1]))
    [] op = "ALL_KNOWN" ->   \* over one array
         IF ~Known(s[1]) THEN U ELSE B(\A i \in DOMAIN s[1][2] : Known(s[1][2][i]))
    [] op = "ANY_KNOWN" ->
         IF ~Known(s[1]) THEN U ELSE B(\E i \in DOMAIN s[1][2] : Known(s[1][2][i]))
    [] AnyUnknown(s) -> U
    [] op = "NOT" -> B(s[1] = F)
    [] op = "XOR" -> B(Cardinality({i \in DOMAIN s : s[i] = T}) % 2 = 1)
    [] op = "EQ" -> B(ValEq(s[1], s[2]))
    [] op = "NE" -> B(~ValEq(s[1], s[2]))
    [] op = "LT" -> B(Less(s[1], s[2]))
    [] op = "LE" -> B(~Less(s[2], s[1]))
    [] op = "GT" -> B(Less(s[2], s[1]))
    [] op = "GE" -> B(~Less(s[1], s[2]))
    [] op = "ADD" -> Mk(ty, FoldNum(Plus, s, 0))
    [] op = "SUB" -> IF Len(s) = 1 THEN Mk(ty, -Num(s[1]))
                     ELSE Mk(ty, FoldNum(Minus, Tail(s), Num(s[1])))
    [] op = "MUL" -> Mk(ty, FoldNum(Times, Tail(s), Num(s[1])))
    [] op = "DIV" ->
         IF Num(s[2]) = 0 THEN U
         ELSE IF ty = "i" THEN IntRes(TDiv(s[1][2], s[2][2]))
         ELSE IF (Num(s[1]) * Scale) % Abs(Num(s[2])) # 0 THEN Odd
         ELSE <<"r", TDiv(Num(s[1]) * Scale, Num(s[2]))>>
    [] op = "MOD" ->
         IF Num(s[2]) = 0 THEN U
         ELSE Mk(ty, TMod(Num(s[1]), Num(s[2])))
    [] op = "MIN" -> Mk(ty, FoldNum(Min2, Tail(s), Num(s[1])))
    [] op = "MAX" -> Mk(ty, FoldNum(Max2, Tail(s), Num(s[1])))
    [] op = "ABS" -> Mk(ty, Abs(Num(s[1])))
    [] op = "SQRT" -> IF Num(s[1]) < 0 THEN U ELSE SqrtN(Num(s[1]))
    [] op = "CEIL" -> Mk(ty, CeilN(Num(s[1])))
    [] op = "FLOOR" -> Mk(ty, FloorN(Num(s[1])))
    [] op = "ROUND" -> Mk(ty, RoundN(Num(s[1])))
    [] op = "TRUNC" -> Mk(ty, TruncN(Num(s[1])))
    [] op = "REAL_TO_INT" ->
         IF Num(s[1]) % Scale # 0 THEN U ELSE IntRes(TDiv(Num(s[1]), Scale))
    [] op = "Concat" -> <<"s", CatAll(s)>>
    [] op = "STRLEN" -> IntRes(Len(s[1][2]))
    [] op \in {"ArraySize", "ArrayMaxSize"} -> IntRes(Len(s[1][2]))
    [] OTHER -> Assert(FALSE, <<"unknown operator", op>>)

(* What a variable of type ty (array type "ai" etc., declared maximum size  *)
(* max) holds after the value v is stored in it.                            *)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(Append(s, U), n)
Coerce(ty, max, v) ==
  CASE ~Known(v) -> U
    [] ty = "r" /\ v[1] = "i" -> <<"r", v[2] * Scale>>
    [] v[1] = "a" -> <<"a", Pad(v[2], max)>>
    [] OTHER -> v
=============================================================================
