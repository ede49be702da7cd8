----------------------------- MODULE Predicates -----------------------------
(***************************************************************************)
(* Filter predicates over a row, with SQL's three-valued logic.            *)
(*                                                                         *)
(* A row is a key rank k and a write id v; the payload columns are         *)
(* functions of v:                                                         *)
(*   vid  increasing in v, never null     num  increasing, null if 5 | v   *)
(*   flt  increasing, null if 3 | v       txt  "v<v>",     null if 4 | v   *)
(*   ok   true iff 2 | v, never null                                       *)
(* A predicate is a record [t, c, op, a, b, s, kids].                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

TT == 1
FF == 0
UU == 2

Tri(b) == IF b THEN TT ELSE FF

Cmp(x, op, y) == CASE op = "=" -> x = y [] op = "!=" -> x # y [] op = "<" -> x < y
                   [] op = "<=" -> x <= y [] op = ">" -> x > y [] op = ">=" -> x >= y
                   [] op = "[]" -> FALSE [] op = "()" -> FALSE

IsNull(c, v) == CASE c = "num" -> v % 5 = 0 [] c = "flt" -> v % 3 = 0 [] c = "txt" -> v % 4 = 0
                  [] OTHER -> FALSE

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

Within(x, op, a, b) == IF op = "[]" THEN a <= x /\ x <= b ELSE a < x /\ x < b

Not3(x) == IF x = UU THEN UU ELSE 1 - x
RECURSIVE And3(_), Or3(_)
And3(s) == IF s = <<>> THEN TT
           ELSE LET h == Head(s) r == And3(Tail(s))
                IN IF h = FF \/ r = FF THEN FF ELSE IF h = UU \/ r = UU THEN UU ELSE TT
Or3(s) == IF s = <<>> THEN FF
          ELSE LET h == Head(s) r == Or3(Tail(s))
               IN IF h = TT \/ r = TT THEN TT ELSE IF h = UU \/ r = UU THEN UU ELSE FF

RECURSIVE Eval(_, _, _)
Eval(p, k, v) ==
  CASE p.t = "true" -> TT
    [] p.t = "false" -> FF
    [] p.t = "key" -> Tri(Cmp(k, p.op, p.a))
    [] p.t = "keyrange" -> Tri(Within(k, p.op, p.a, p.b))
    [] p.t = "keyin" -> Tri(InSeq(k, p.s))
    [] p.t = "val" -> IF IsNull(p.c, v) THEN UU ELSE Tri(Cmp(v, p.op, p.a))
    [] p.t = "valrange" -> IF IsNull(p.c, v) THEN UU ELSE Tri(Within(v, p.op, p.a, p.b))
    [] p.t = "valin" -> IF IsNull(p.c, v) THEN UU ELSE Tri(InSeq(v, p.s))
    [] p.t = "prefix" -> IF IsNull("txt", v) THEN UU
                         ELSE Tri(v = p.a \/ v \div 10 = p.a \/ v \div 100 = p.a)
    [] p.t = "ok" -> Tri((v % 2 = 0) = (p.a = 1))
    [] p.t = "null" -> Tri(IsNull(p.c, v) = (p.a = 1))
    [] p.t = "nullcmp" -> UU
    [] p.t = "not" -> Not3(Eval(p.kids[1], k, v))
    [] p.t = "and" -> And3([i \in 1..Len(p.kids) |-> Eval(p.kids[i], k, v)])
    [] p.t = "or" -> Or3([i \in 1..Len(p.kids) |-> Eval(p.kids[i], k, v)])

Sat(p, k, v) == Eval(p, k, v) = TT

\* A predicate that only looks at the key may be applied before versions are merged.
RECURSIVE KeyOnly(_)
KeyOnly(p) == \/ p.t \in {"true", "false", "key", "keyrange", "keyin"}
              \/ p.t \in {"not", "and", "or"} /\ \A i \in 1..Len(p.kids) : KeyOnly(p.kids[i])

Pred(t, c, op, a, b, s, kids) == [t |-> t, c |-> c, op |-> op, a |-> a, b |-> b, s |-> s, kids |-> kids]

-----------------------------------------------------------------------------
(* Sampling.                                                               *)
Rnd(S) == RandomElement(S)
CmpOps == {"=", "!=", "<", "<=", ">", ">="}

RandKeyAtom(nk) ==
  CASE Rnd(1..4) <= 2 -> Pred("key", "", Rnd(CmpOps), Rnd(1..nk), 0, <<>>, <<>>)
    [] Rnd(1..2) = 1 -> Pred("keyrange", "", Rnd({"[]", "()"}), Rnd(1..nk), Rnd(1..nk), <<>>, <<>>)
    [] OTHER -> Pred("keyin", "", "", 0, 0, <<Rnd(1..nk), Rnd(1..nk)>>, <<>>)

RandValAtom(nv) ==
  LET d == Rnd(1..12)
  IN CASE d <= 3 -> Pred("val", Rnd({"vid", "num", "flt"}), Rnd(CmpOps), Rnd(0..(nv + 1)), 0, <<>>, <<>>)
       [] d = 4 -> Pred("val", "txt", Rnd({"=", "!="}), Rnd(0..(nv + 1)), 0, <<>>, <<>>)
       [] d <= 6 -> Pred("valrange", Rnd({"vid", "num", "flt"}), Rnd({"[]", "()"}), Rnd(0..(nv + 1)), Rnd(0..(nv + 1)), <<>>, <<>>)
       [] d <= 8 -> Pred("valin", Rnd({"vid", "num", "flt", "txt"}), "", 0, 0, <<Rnd(0..(nv + 1)), Rnd(0..(nv + 1))>>, <<>>)
       [] d = 9 -> Pred("prefix", "txt", "", Rnd(1..9), 0, <<>>, <<>>)
       [] d = 10 -> Pred("ok", "ok", "", Rnd(0..1), 0, <<>>, <<>>)
       [] d = 11 -> Pred("null", Rnd({"num", "flt", "txt", "vid"}), "", Rnd(0..1), 0, <<>>, <<>>)
       [] OTHER -> Pred(Rnd({"true", "false", "nullcmp"}), Rnd({"num", "vid"}), Rnd(CmpOps), 0, 0, <<>>, <<>>)

\* keys: probability weight (of 4) of atoms over the key
RandAtom(nk, nv, keys) == IF Rnd(1..4) <= keys THEN RandKeyAtom(nk) ELSE RandValAtom(nv)

RECURSIVE RandPred(_, _, _, _)
RandPred(nk, nv, keys, depth) ==
  LET d == Rnd(1..8)
  IN IF depth = 0 \/ d <= 3 THEN RandAtom(nk, nv, keys)
     ELSE IF d = 4 THEN Pred("not", "", "", 0, 0, <<>>, <<RandPred(nk, nv, keys, depth - 1)>>)
     ELSE IF d = 5 /\ Rnd(1..4) = 1 THEN Pred(Rnd({"and", "or"}), "", "", 0, 0, <<>>, <<>>)
     ELSE Pred(Rnd({"and", "or"}), "", "", 0, 0, <<>>,
            IF d = 6 THEN << RandPred(nk, nv, keys, depth - 1), RandPred(nk, nv, keys, depth - 1), RandAtom(nk, nv, keys) >>
            ELSE << RandPred(nk, nv, keys, depth - 1), RandPred(nk, nv, keys, depth - 1) >>)
=============================================================================
