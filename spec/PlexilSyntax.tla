---------------------------- MODULE PlexilSyntax ----------------------------
(***************************************************************************)
(* Which plan documents are well formed.                                   *)
(*                                                                         *)
(* A document is a tree of elements [t |-> tag, a |-> [NodeType, dir,      *)
(* Type] (attributes, "" when absent), x |-> text, c |-> children].  Each  *)
(* rule yields a set of complaints: those beginning with "E" mean that the *)
(* document must be refused with an error; those with "D" that neither     *)
(* this specification nor the documentation settles whether it is, so      *)
(* either answer will do.  A document with no complaint must be accepted.  *)
(*                                                                         *)
(* Types: b i r s (scalars), d (Date or Duration), ab ai ar as (arrays),   *)
(* n (a number: Integer or Real as the context has it), ns no nf nh (node  *)
(* state, outcome, failure, command handle), ? (not known before running), *)
(* ! (of something already complained about).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Err(m) == {"E " \o m}
Doubt(m) == {"D " \o m}
None == {}
R(t, s) == [t |-> t, s |-> s]
Range(q) == {q[i] : i \in 1..Len(q)}
UNIONs(q) == UNION Range(q)

-----------------------------------------------------------------------------
(* Text *)

Ch(s, i) == SubSeq(s, i, i)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Digits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digit
Unsigned(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
(* how many digits begin s *)
RECURSIVE Lead(_)
Lead(s) == IF Len(s) > 0 /\ Ch(s, 1) \in Digit THEN 1 + Lead(SubSeq(s, 2, Len(s))) ELSE 0
Rest(s, k) == SubSeq(s, k + 1, Len(s))

IntText(s) ==
  LET u == Unsigned(s) IN
  IF s = "UNKNOWN" THEN None
  ELSE IF Len(s) = 0 THEN Err("no integer given")
  ELSE IF Ch(s, 1) = " " \/ Ch(s, Len(s)) = " " \/ Starts(u, "0x") THEN Doubt("odd integer")
  ELSE IF ~Digits(u) THEN Err("not an integer: " \o s)
  ELSE IF Len(u) > 1 /\ Ch(u, 1) = "0" THEN Doubt("octal integer")
  ELSE IF Len(u) > 10 THEN Err("integer out of range")
  ELSE IF Len(u) = 10 THEN Doubt("large integer")
  ELSE None

RealText(s) ==
  LET u == Unsigned(s)
      k == Lead(u)
      f == Rest(u, k)                                    (* what follows the whole part *)
      j == IF Len(f) > 0 /\ Ch(f, 1) = "." THEN Lead(Rest(f, 1)) ELSE 0
      g == IF Len(f) > 0 /\ Ch(f, 1) = "." THEN Rest(f, 1 + j) ELSE f
      e == IF Len(g) > 0 /\ Ch(g, 1) \in {"e", "E"} THEN Unsigned(Rest(g, 1)) ELSE ""
  IN
  IF s = "UNKNOWN" THEN None
  ELSE IF Len(s) = 0 THEN Err("no real given")
  ELSE IF Ch(s, 1) = " " \/ Ch(s, Len(s)) = " " \/ Starts(u, "0x") \/ u \in {"inf", "nan", "INF", "NAN", "NaN", "Inf"}
       THEN Doubt("odd real")
  ELSE IF k + j = 0 THEN Err("not a real: " \o s)
  ELSE IF Len(g) = 0 THEN None
  ELSE IF ~Digits(e) THEN Err("not a real: " \o s)
  ELSE IF Len(e) > 2 THEN Doubt("large exponent")
  ELSE None

BoolText(s) ==
  IF s \in {"0", "1", "true", "false", "UNKNOWN"} THEN None
  ELSE IF s \in {"True", "TRUE", "False", "FALSE"} THEN Doubt("odd Boolean")
  ELSE Err("not a Boolean: " \o s)

(* 0 .. 2^31 - 2 *)
PriorityText(s) ==
  IF Len(s) > 0 /\ (Ch(s, 1) \in {" ", "+"}) THEN Doubt("odd priority")
  ELSE IF ~Digits(s) THEN Err("priority is not a non-negative integer: " \o s)
  ELSE IF Len(s) > 10 THEN (IF Ch(s, 1) = "0" THEN Doubt("odd priority") ELSE Err("priority out of range"))
  ELSE IF Len(s) = 10 /\ (Ch(s, 1) \in (Digit \ {"0", "1", "2"})) THEN Err("priority out of range")
  ELSE IF Len(s) = 10 /\ s = "2147483647" THEN Err("priority out of range")
  ELSE IF Len(s) = 10 THEN Doubt("large priority")
  ELSE None

RECURSIVE ToInt(_)
ToInt(s) == IF Len(s) = 0 THEN 0
            ELSE 10 * ToInt(SubSeq(s, 1, Len(s) - 1)) +
                 (CHOOSE k \in 0..9 : ToString(k) = Ch(s, Len(s)))

-----------------------------------------------------------------------------
(* Elements *)

NoElt == [t |-> "", a |-> [NodeType |-> "", dir |-> "", Type |-> ""], x |-> "", c |-> <<>>]
With(n, tag) == SelectSeq(n.c, LAMBDA k : k.t = tag)
Has(n, tag) == \E i \in 1..Len(n.c) : n.c[i].t = tag
Get(n, tag) == IF Has(n, tag) THEN With(n, tag)[1] ELSE NoElt
Nth(n, i) == IF i <= Len(n.c) THEN n.c[i] ELSE NoElt
IsElt(n) == n.t # ""
Surplus(n, k) == IF Len(n.c) > k THEN Doubt("surplus elements in " \o n.t) ELSE None

-----------------------------------------------------------------------------
(* Types *)

TypeName(s) == CASE s = "Boolean" -> "b" [] s = "Integer" -> "i" [] s = "Real" -> "r" [] s = "String" -> "s"
                 [] s \in {"Date", "Duration"} -> "d" [] OTHER -> ""
ArrayOf(t) == IF t \in {"b", "i", "r", "s"} THEN "a" \o t ELSE IF t = "d" THEN "?" ELSE "!"
EltOf(t) == IF t \in {"ab", "ai", "ar", "as"} THEN Ch(t, 2) ELSE IF t = "?" THEN "?" ELSE "!"
IsArray(t) == t \in {"ab", "ai", "ar", "as"}
Open(t) == t \in {"?", "!"}
Numeric(t) == t \in {"i", "r", "d", "n"} \/ Open(t)

(* may a value of type src go where dest is wanted *)
Into(dest, src, m) ==
  IF Open(dest) \/ Open(src) \/ dest = src THEN None
  ELSE IF dest = "r" /\ src \in {"i", "n", "d"} THEN None
  ELSE IF dest = "d" /\ src \in {"i", "r", "n"} THEN None
  ELSE IF dest = "i" /\ src = "n" THEN Doubt(m)
  ELSE Err(m \o ": " \o src \o " for " \o dest)

(* must be of exactly this type, where the executive does not convert *)
Exactly(dest, src, m) ==
  IF dest = "!" \/ src = "!" \/ dest = src THEN None
  ELSE IF Open(dest) \/ Open(src) THEN Doubt(m)
  ELSE IF Numeric(dest) /\ Numeric(src) /\ ~(dest = "i" /\ src \in {"r", "d"}) THEN Doubt(m)
  ELSE Err(m \o ": " \o src \o " for " \o dest)

Sum(ts) ==          (* the type of an arithmetic expression *)
  IF "!" \in ts THEN "!"
  ELSE IF ts \cap {"r", "d"} # {} THEN "r"
  ELSE IF ts = {"i"} THEN "i"
  ELSE "n"

-----------------------------------------------------------------------------
(* Where an expression stands:                                             *)
(*   vars   name -> [t, w (may be assigned)]                               *)
(*   chain  the node itself, its parent, and so on:                        *)
(*          [id, nt, kids: set of <<id, node type>>]                       *)
(*   mtx    names of mutexes                                               *)
(*   cmds, sts   declared commands and lookups: name -> [ret, par, any]    *)

ValTags == {"BooleanValue", "IntegerValue", "RealValue", "StringValue"}
VarTags == {"BooleanVariable", "IntegerVariable", "RealVariable", "StringVariable"}
NodeVarTags == {"NodeStateVariable", "NodeOutcomeVariable", "NodeFailureVariable", "NodeCommandHandleVariable"}
TagType(s) == CASE Starts(s, "Boolean") -> "b" [] Starts(s, "Integer") -> "i" [] Starts(s, "Real") -> "r"
                [] Starts(s, "String") -> "s" [] OTHER -> "!"
BoolOps == {"AND", "OR", "XOR"}
ArithOps == {"ADD", "SUB", "MUL", "DIV", "MIN", "MAX"}
ConvOps == {"CEIL", "FLOOR", "ROUND", "TRUNC"}
EqOps == {"EQArray", "EQBoolean", "EQInternal", "EQNumeric", "EQString",
          "NEArray", "NEBoolean", "NEInternal", "NENumeric", "NEString"}
CmpOps == {"GE", "GT", "LE", "LT"}
ArrOps == {"ALL_KNOWN", "ANY_KNOWN", "ArraySize", "ArrayMaxSize"}
Preds == {"Executing", "Failed", "Finished", "Inactive", "IterationEnded", "PostconditionFailed",
          "Skipped", "Succeeded", "Waiting", "NoChildFailed"}
States == {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"}
Outcomes == {"SUCCESS", "FAILURE", "SKIPPED", "INTERRUPTED"}
Failures == {"PRE_CONDITION_FAILED", "POST_CONDITION_FAILED", "INVARIANT_CONDITION_FAILED", "PARENT_FAILED",
             "EXITED", "PARENT_EXITED"}
Handles == {"COMMAND_SENT_TO_SYSTEM", "COMMAND_ACCEPTED", "COMMAND_RCVD_BY_SYSTEM", "COMMAND_FAILED",
            "COMMAND_DENIED", "COMMAND_SUCCESS", "COMMAND_INTERFACE_ERROR", "COMMAND_ABORTED", "COMMAND_ABORT_FAILED"}

(* The node types a reference may mean: {} when there is no such node *)
ByName(name, kids) == {k[2] : k \in {q \in kids : q[1] = name}}
RECURSIVE Search(_, _)
Search(name, chain) ==
  IF chain = <<>> THEN {}
  ELSE IF chain[1].id = name THEN {chain[1].nt}
  ELSE IF ByName(name, chain[1].kids) # {} THEN ByName(name, chain[1].kids)
  ELSE Search(name, Tail(chain))

Target(n, E) ==     (* [k: node types, s: complaints] *)
  IF n.t = "NodeId" THEN
    IF n.x = "" THEN [k |-> {}, s |-> Err("empty node reference")]
    ELSE LET k == Search(n.x, E.chain) IN
         [k |-> k, s |-> IF k = {} THEN Err("no node " \o n.x \o " within reach") ELSE None]
  ELSE IF n.t = "NodeRef" THEN
    LET d == n.a.dir
        up == Len(E.chain) > 1
        k == CASE d = "self" -> {E.chain[1].nt}
               [] d = "parent" -> IF up THEN {E.chain[2].nt} ELSE {}
               [] d = "child" -> ByName(n.x, E.chain[1].kids)
               [] d = "sibling" -> IF up THEN ByName(n.x, E.chain[2].kids) ELSE {}
               [] OTHER -> {}
    IN [k |-> k, s |-> IF k = {} THEN Err("no such node: " \o d \o " " \o n.x) ELSE None]
  ELSE [k |-> {}, s |-> Err("not a node reference: " \o n.t)]

Literal(n) ==       (* of the scalar value tags *)
  CASE n.t = "StringValue" -> IF n.c # <<>> THEN Doubt("elements in a string") ELSE None
    [] n.c # <<>> -> Err("elements in " \o n.t)
    [] n.t = "BooleanValue" -> BoolText(n.x)
    [] n.t = "IntegerValue" -> IntText(n.x)
    [] n.t = "RealValue" -> RealText(n.x)

Named(n, set) == IF n.c = <<>> /\ n.x \in set THEN None ELSE Err(n.t \o " cannot be " \o n.x)

VarRef(n, E, want) ==
  IF n.x = "" THEN R("!", Err("empty " \o n.t))
  ELSE IF n.x \notin DOMAIN E.vars THEN R("!", Err("no variable " \o n.x))
  ELSE LET t == E.vars[n.x].t IN
    IF t = "!" THEN R("!", None)
    ELSE IF want = "array" THEN (IF IsArray(t) \/ t = "?" THEN R(t, None) ELSE R("!", Err(n.x \o " is not an array")))
    ELSE IF t = want THEN R(t, None)
    ELSE IF Numeric(t) /\ want = "r" THEN R(t, Doubt("another kind of number"))
    ELSE IF t = "?" THEN R("!", Doubt("unclear type"))
    ELSE R("!", Err(n.x \o " is declared " \o t \o ", referred to as " \o want))

RECURSIVE Expr(_, _)

Args(n, E) == TLCEval([i \in 1..Len(n.c) |-> Expr(n.c[i], E)])
Complaints(q) == UNION {q[i].s : i \in 1..Len(q)}
Types(q) == {q[i].t : i \in 1..Len(q)}

Arity(n, lo, hi) == IF Len(n.c) < lo \/ Len(n.c) > hi THEN Err("wrong number of operands of " \o n.t) ELSE None

(* the expression within n, alone *)
Only(n, E) ==
  IF n.c = <<>> THEN R("!", Err("no expression in " \o n.t))
  ELSE LET r == Expr(n.c[1], E) IN R(r.t, r.s \cup Surplus(n, 1))

Operation(n, E) ==
  LET q == Args(n, E)
      s == Complaints(q)
      ts == Types(q)
      all(P(_)) == \A t \in ts : P(t)
      bad == Err("operand of the wrong type for " \o n.t)
  IN
  CASE n.t \in BoolOps ->
         R("b", s \cup (IF Len(n.c) < 2 THEN Doubt("few operands") ELSE None)
                  \cup (IF all(LAMBDA t : t = "b" \/ Open(t)) THEN None ELSE bad))
    [] n.t = "NOT" -> R("b", s \cup Arity(n, 1, 1) \cup (IF all(LAMBDA t : t = "b" \/ Open(t)) THEN None ELSE bad))
    [] n.t = "IsKnown" -> R("b", s \cup Arity(n, 1, 1))
    [] n.t = "Concat" -> R("s", s \cup (IF Len(n.c) < 2 THEN Doubt("few operands") ELSE None)
                                  \cup (IF all(LAMBDA t : t = "s" \/ Open(t)) THEN None ELSE bad))
    [] n.t = "STRLEN" -> R("i", s \cup Arity(n, 1, 1) \cup (IF all(LAMBDA t : t = "s" \/ Open(t)) THEN None ELSE bad))
    [] n.t \in ArithOps \cup {"MOD", "ABS"} ->
         LET a == CASE n.t = "MOD" -> Arity(n, 2, 2)
                    [] n.t = "ABS" -> Arity(n, 1, 1)
                    [] OTHER -> Arity(n, 1, 1000) \cup
                                (IF Len(n.c) = 1 /\ n.t # "SUB" THEN Doubt("few operands") ELSE None) \cup
                                (IF Len(n.c) > 2 /\ n.t = "DIV" THEN Doubt("many operands") ELSE None)
         IN IF ~all(Numeric) THEN R("!", s \cup a \cup bad)
            ELSE R(IF a \cap Err("wrong number of operands of " \o n.t) # {} THEN "!" ELSE Sum(ts), s \cup a)
    [] n.t \in ConvOps -> R(IF "i" \in ts THEN "i" ELSE "n", s \cup Arity(n, 1, 1) \cup (IF all(Numeric) THEN None ELSE bad))
    [] n.t = "SQRT" -> R("r", s \cup Arity(n, 1, 1) \cup (IF all(Numeric) THEN None ELSE bad))
    [] n.t = "REAL_TO_INT" -> R("i", s \cup Arity(n, 1, 1) \cup (IF all(Numeric) THEN None ELSE bad))
    [] n.t \in ArrOps -> R(IF n.t \in {"ArraySize", "ArrayMaxSize"} THEN "i" ELSE "b",
                           s \cup Arity(n, 1, 1) \cup (IF all(LAMBDA t : IsArray(t) \/ Open(t)) THEN None ELSE bad))
    [] n.t \in EqOps ->
         R("b", s \cup Arity(n, 2, 2) \cup
           (IF Len(n.c) # 2 \/ ts \cap {"?", "!"} # {} \/ Cardinality(ts) = 1 \/ all(Numeric)
              THEN (LET kind == SubSeq(n.t, 3, Len(n.t))
                        fits == CASE kind = "Array" -> all(LAMBDA t : IsArray(t) \/ Open(t))
                                  [] kind = "Boolean" -> all(LAMBDA t : t = "b" \/ Open(t))
                                  [] kind = "Numeric" -> all(Numeric)
                                  [] kind = "String" -> all(LAMBDA t : t = "s" \/ Open(t))
                                  [] kind = "Internal" -> all(LAMBDA t : t \in {"ns", "no", "nf", "nh"} \/ Open(t))
                    IN IF fits THEN None ELSE Doubt("kind of comparison"))
              ELSE bad))
    [] n.t \in CmpOps ->
         R("b", s \cup Arity(n, 2, 2) \cup
           (IF all(Numeric) \/ all(LAMBDA t : t = "s" \/ Open(t))
              THEN (IF Len(n.c) = 2 /\ q[1].t = "?" /\ q[2].t = "?" THEN Doubt("comparison of the unknown") ELSE None)
              ELSE IF ts \cap {"?", "!"} # {} THEN bad ELSE bad))
    [] OTHER -> R("!", Err("unknown expression " \o n.t))

(* a lookup of this kind can be nothing but a plan error *)
NeverKnown == "arguments never known"
LookupExpr(n, E) ==
  LET nm == Nth(n, 1)
      e == IF nm.t = "Name" THEN Only(nm, E) ELSE R("!", Err(n.t \o " without a name"))
      known == nm.t = "Name" /\ Nth(nm, 1).t = "StringValue" /\ nm.c[1].x \in DOMAIN E.sts
      D == E.sts[nm.c[1].x]
      tolHere == Nth(n, 2).t = "Tolerance"
      tol == IF ~tolHere THEN None
             ELSE LET x == Only(n.c[2], E) IN
                  x.s \cup (IF n.t = "LookupNow" THEN Err("tolerance in LookupNow") ELSE None)
                      \cup (IF Numeric(x.t) THEN None ELSE Err("tolerance is not a number"))
                      \cup (IF known /\ ~Numeric(D.ret) THEN Doubt("tolerance of what is no number") ELSE None)
      k == IF tolHere THEN 3 ELSE 2
      ax == Nth(n, k)
      q == IF ax.t = "Arguments" THEN Args(ax, E) ELSE <<>>
      other == IF Len(n.c) >= k /\ ax.t # "Arguments" THEN Err(ax.t \o " in " \o n.t) ELSE Surplus(n, k)
  IN R(IF known THEN D.ret ELSE "?",
       e.s \cup (IF e.t = "s" \/ Open(e.t) THEN None ELSE Err("the name of a lookup is no string"))
           \cup tol \cup other \cup Complaints(q)
           \cup (IF Nth(Nth(n, 1), 1).t = "StringValue" /\ ax.t = "Arguments" /\
                    (\E i \in 1..Len(ax.c) : Ends(ax.c[i].t, "Value") /\ ax.c[i].x = "UNKNOWN")
                 THEN Doubt(NeverKnown) ELSE None)
           \cup (IF ax.t = "Arguments" /\ ax.c = <<>> /\ ax.x # "" THEN Err("text for arguments") ELSE None)
           \cup (IF ~known THEN None
                 ELSE (IF Len(q) = Len(D.par) \/ (D.any /\ Len(q) > Len(D.par)) THEN None
                       ELSE Err("wrong number of arguments of a lookup"))
                      \cup UNION {Into(D.par[i], q[i].t, "argument of a lookup") :
                                  i \in 1..(IF Len(q) < Len(D.par) THEN Len(q) ELSE Len(D.par))}))

ArrayLit(n) ==
  LET t == TypeName(n.a.Type) IN
  IF t = "" \/ (n.c = <<>> /\ n.x # "") THEN R("!", Err("array of unknown type"))
  ELSE IF t = "d" THEN R("?", Doubt("array of times"))
  ELSE R("a" \o t, UNION {IF n.c[i].t # n.a.Type \o "Value"
                            THEN (IF Ends(n.a.Type \o "Value", n.c[i].t) /\ Ends(n.c[i].t, "Value")
                                  THEN Doubt("odd element") ELSE Err("element of another type in an array"))
                          ELSE IF n.c[i].t = "StringValue" /\ n.c[i].c # <<>> THEN Doubt("elements in a string")
                          ELSE IF n.c[i].x = "" /\ n.c[i].t # "StringValue" THEN Err("empty element of an array")
                          ELSE Literal(n.c[i]) : i \in 1..Len(n.c)})

ArrayElt(n, E) ==
  LET a == Nth(n, 1)
      r == IF a.t = "" THEN R("!", Err("no array"))
           ELSE IF a.t \in {"ArrayVariable", "Name"} THEN VarRef(a, E, "array")
           ELSE Expr(a, E)
      ix == Nth(n, 2)
      i == IF ix.t = "Index" THEN Only(ix, E) ELSE R("!", Err("no index"))
  IN R(IF IsArray(r.t) THEN EltOf(r.t) ELSE IF Open(r.t) THEN r.t ELSE "!",
       r.s \cup i.s \cup Surplus(n, 2)
           \cup (IF IsArray(r.t) \/ Open(r.t) THEN None ELSE Err("indexing what is no array"))
           \cup (IF i.t = "i" \/ Open(i.t) THEN None ELSE IF i.t = "n" THEN Doubt("index") ELSE Err("index is no integer")))

(* what a node variable or predicate refers to, and nothing else *)
OneRef(n, E) ==
  IF n.c = <<>> THEN [k |-> {}, s |-> Err("no node in " \o n.t)]
  ELSE LET r == Target(n.c[1], E) IN
       [r EXCEPT !.s = @ \cup (IF Len(n.c) = 1 THEN None
                               ELSE IF n.t \in Preds THEN Err("wrong number of operands of " \o n.t)
                               ELSE Surplus(n, 1))]

Expr(n, E) ==
  CASE n.t \in ValTags -> R(TagType(n.t), Literal(n))
    [] n.t \in VarTags -> VarRef(n, E, TagType(n.t))
    [] n.t = "ArrayVariable" -> VarRef(n, E, "array")
    [] n.t = "ArrayValue" -> ArrayLit(n)
    [] n.t = "ArrayElement" -> ArrayElt(n, E)
    [] n.t \in {"LookupNow", "LookupOnChange"} -> LookupExpr(n, E)
    [] n.t = "NodeStateValue" -> R("ns", Named(n, States))
    [] n.t = "NodeOutcomeValue" -> R("no", Named(n, Outcomes))
    [] n.t = "NodeFailureValue" -> R("nf", Named(n, Failures))
    [] n.t = "NodeCommandHandleValue" -> R("nh", Named(n, Handles))
    [] n.t = "NodeStateVariable" -> R("ns", OneRef(n, E).s)
    [] n.t = "NodeOutcomeVariable" -> R("no", OneRef(n, E).s)
    [] n.t = "NodeFailureVariable" -> R("nf", OneRef(n, E).s)
    [] n.t = "NodeCommandHandleVariable" ->
         LET r == OneRef(n, E) IN
         R("nh", r.s \cup (IF r.k \subseteq {"Command"} THEN None ELSE Err("command handle of what is no command")))
    [] n.t = "NodeTimepointValue" ->
         LET r == IF n.c = <<>> THEN [k |-> {}, s |-> Err("no node")] ELSE Target(n.c[1], E)
             st == Nth(n, 2)
             tp == Nth(n, 3)
         IN R("d", r.s \cup Surplus(n, 3)
                   \cup (IF st.t = "NodeStateValue" /\ st.x \in States THEN None ELSE Err("time point of no state"))
                   \cup (IF tp.t = "Timepoint" /\ tp.x \in {"START", "END"} THEN None ELSE Err("time point of neither end")))
    [] n.t \in Preds -> R("b", OneRef(n, E).s)
    [] n.t \in {"DeclareVariable", "DeclareArray"} -> R("!", Err("a declaration for an expression"))
    [] OTHER -> Operation(n, E)

(* An expression whose value is stored where type t is wanted: conversions take that type *)
For(n, E, t) ==
  LET r == Expr(n, E) IN IF n.t \in ConvOps /\ t \in {"i", "r"} /\ r.t = "n" THEN R(t, r.s) ELSE r

(* Something that can be assigned to *)
Assignable(n, E) ==
  IF n.t \in VarTags \cup {"ArrayVariable"}
    THEN LET r == Expr(n, E) IN
         R(r.t, r.s \cup (IF n.x \in DOMAIN E.vars /\ ~E.vars[n.x].w THEN Err(n.x \o " may only be read") ELSE None))
  ELSE IF n.t = "ArrayElement"
    THEN LET r == Expr(n, E)
             a == Nth(n, 1)
         IN R(r.t, r.s \cup
              (IF a.t \in {"ArrayVariable", "Name"}
                 THEN (IF a.x \in DOMAIN E.vars /\ ~E.vars[a.x].w THEN Err(a.x \o " may only be read") ELSE None)
                 ELSE Err("assignment into what is no variable")))
  ELSE R("!", Err("cannot be assigned to: " \o n.t))

-----------------------------------------------------------------------------
(* Declarations *)

(* A variable's declaration, but for its initial value *)
DeclOf(d) ==
  LET nm == Nth(d, 1)
      ty == Nth(d, 2)
      t == TypeName(ty.x)
      arr == d.t = "DeclareArray"
      s == IF d.t \notin {"DeclareVariable", "DeclareArray"} THEN Err("not a declaration: " \o d.t)
           ELSE (IF nm.t = "Name" /\ nm.x # "" THEN None ELSE Err("declaration without a name"))
                \cup (IF ty.t # "Type" \/ t = "" THEN Err("declaration of no type") ELSE None)
                \cup (IF t = "d" THEN Doubt("dates and durations") ELSE None)
  IN [n |-> nm.x, t |-> IF t = "" THEN "!" ELSE IF arr THEN ArrayOf(t) ELSE IF t = "d" THEN "?" ELSE t, s |-> s]

MaxOf(d) == IF Nth(d, 3).t = "MaxSize" /\ Digits(d.c[3].x) /\ Len(d.c[3].x) < 9 THEN ToInt(d.c[3].x) ELSE -1

(* its initial value; own: names which are not initialised yet *)
InitOf(d, E, own) ==
  LET t == DeclOf(d).t
      arr == d.t = "DeclareArray"
      sized == arr /\ Nth(d, 3).t = "MaxSize"
      k == IF sized THEN 4 ELSE 3
      iv == Nth(d, k)
      size == IF ~sized THEN None
              ELSE LET z == IntText(d.c[3].x) IN
                   IF d.c[3].x = "UNKNOWN" THEN Err("size unknown") ELSE
                   z \cup (IF z = None /\ Ch(d.c[3].x, 1) = "-" THEN Err("negative size") ELSE None)
      v == Nth(iv, 1)
      r == For(v, E, t)
  IN IF DeclOf(d).s # None THEN None
     ELSE size \cup Surplus(d, k) \cup
       (IF iv.t = "" THEN None
        ELSE IF iv.t # "InitialValue" THEN Err(iv.t \o " in a declaration")
        ELSE IF v.t = "" THEN Err("no initial value")
        ELSE r.s \cup (IF v.x \in own THEN Doubt("initial value not set yet") ELSE None) \cup
          (IF ~arr
             THEN (IF Ends(v.t, "Value") \/ Ends(v.t, "Variable") THEN None ELSE Err("initial value of the wrong kind"))
                  \cup Surplus(iv, 1)
                  \cup (IF v.t \in {"BooleanVariable", "IntegerVariable", "RealVariable", "StringVariable"} \cup ValTags
                        THEN Into(t, r.t, "initial value")
                        ELSE IF Into(t, r.t, "initial value") = None THEN Doubt("initial value") ELSE Into(t, r.t, "initial value"))
             ELSE (IF Len(iv.c) > 1 THEN Err("more than one initial value") ELSE None) \cup
                  (IF v.t = "ArrayValue"
                     THEN Into(t, r.t, "initial value") \cup
                          (IF MaxOf(d) >= 0 /\ Len(v.c) > MaxOf(d) THEN Err("initial value exceeds the size") ELSE None)
                   ELSE IF v.t = "ArrayVariable" THEN Into(t, r.t, "initial value")
                   ELSE IF v.t \in ValTags THEN Into(EltOf(t), r.t, "initial value") \cup Doubt("scalar for an array")
                   ELSE Err("initial value of the wrong kind"))))

HasInit(d) == Has(d, "InitialValue")

(* Global declarations *)

SigType(n) ==       (* Return or Parameter *)
  LET ty == Get(n, "Type")
      t == TypeName(ty.x)
      i == CHOOSE j \in 1..Len(n.c) : n.c[j].t = "Type" /\ \A l \in 1..(j-1) : n.c[l].t # "Type"
      after == IF Has(n, "Type") THEN Nth(n, i + 1) ELSE NoElt
  IN IF ty.t = "" \/ ty.x = "" THEN R("!", Err("no type in " \o n.t))
     ELSE IF t = "" /\ ty.x # "Any" THEN
            R("!", IF ty.x \in {"BooleanArray", "IntegerArray", "RealArray", "StringArray", "Array", "NodeState",
                                "NodeOutcome", "NodeFailure", "NodeCommandHandle"}
                   THEN Doubt("odd type") ELSE Err("unknown type " \o ty.x))
     ELSE IF after.t = "" THEN R(IF ty.x = "Any" \/ t = "d" THEN "?" ELSE t, IF t = "d" THEN Doubt("times") ELSE None)
     ELSE IF after.t # "MaxSize" THEN R("!", Err(after.t \o " in " \o n.t))
     ELSE IF ty.x = "Any" THEN R("!", Err("array of any type"))
     ELSE R(ArrayOf(t), (IF t = "d" THEN Doubt("times") ELSE None)
                        \cup (IF IntText(after.x) = None THEN None ELSE Doubt("size of a declared array")))

Signature(d, isState) ==
  LET nm == Nth(d, 1)
      rt == Nth(d, 2)
      hasRet == rt.t = "Return"
      from == IF hasRet THEN 3 ELSE 2
      ps == With(d, "Parameter")
      any == Has(d, "AnyParameters")
      ok == \A j \in from..Len(d.c) :
              \/ d.c[j].t = "Parameter" /\ j <= from + Len(ps) - 1
              \/ d.c[j].t = "AnyParameters" /\ j = from + Len(ps)
      r == IF hasRet THEN SigType(rt) ELSE R("?", None)
      q == [j \in 1..Len(ps) |-> SigType(ps[j])]
  IN [n |-> nm.x, ret |-> r.t, hasRet |-> hasRet, par |-> [j \in 1..Len(ps) |-> q[j].t], any |-> any,
      s |-> (IF nm.t = "Name" /\ nm.x # "" THEN None ELSE Err("declaration without a name"))
            \cup r.s \cup Complaints(q)
            \cup (IF isState /\ ~hasRet THEN Err("lookup without a type") ELSE None)
            \cup (IF ok THEN None
                  ELSE IF isState /\ (\E j \in 1..Len(d.c) : d.c[j].t \notin {"Name", "Return", "Parameter", "AnyParameters"})
                       THEN Err("extraneous content in a declaration")
                  ELSE Doubt("order of a declaration"))]

LibDecl(d) ==
  LET nm == Nth(d, 1)
      io == IF Nth(d, 2).t = "Interface" THEN d.c[2].c ELSE <<>>
      vs == UNIONs([i \in 1..Len(io) |-> Range(io[i].c)])
      names == [i \in 1..Len(io) |-> [j \in 1..Len(io[i].c) |-> Nth(io[i].c[j], 1).x]]
      dup == \E i, k \in 1..Len(io) : \E j \in 1..Len(io[i].c), l \in 1..Len(io[k].c) :
               <<i, j>> # <<k, l>> /\ names[i][j] = names[k][l]
  IN [n |-> nm.x,
      s |-> (IF nm.t = "Name" /\ nm.x # "" THEN None ELSE Err("declaration without a name"))
            \cup (IF \A i \in 1..Len(io) : io[i].t \in {"In", "InOut"} THEN None ELSE Err("neither In nor InOut"))
            \cup (IF (\E i \in 1..Len(io) : io[i].x # "") \/ (Nth(d, 2).t = "Interface" /\ Nth(d, 2).x # "")
                  THEN Err("text for an interface") ELSE None)
            \cup UNION {DeclOf(v).s : v \in vs}
            \cup (IF dup THEN Err("declared twice in an interface") ELSE None)
            \cup (IF Len(d.c) > 2 \/ (Len(d.c) = 2 /\ io = <<>> /\ d.c[2].t # "Interface") THEN Doubt("surplus") ELSE None)]

(* a mutex has nothing but a name *)
MutexOk(d) ==
  (IF \A i \in 1..Len(d.c) : d.c[i].t = "Name" THEN None ELSE Err("extraneous content of a mutex"))
  \cup (IF Len(d.c) > 1 THEN Doubt("names of a mutex") ELSE None)

Twice(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]

Globals(g) ==
  LET cm == With(g, "CommandDeclaration")
      st == With(g, "StateDeclaration")
      lb == With(g, "LibraryNodeDeclaration")
      mx == With(g, "DeclareMutex")
      C == TLCEval([i \in 1..Len(cm) |-> Signature(cm[i], FALSE)])
      S == TLCEval([i \in 1..Len(st) |-> Signature(st[i], TRUE)])
      L == TLCEval([i \in 1..Len(lb) |-> LibDecl(lb[i])])
      names(q) == [i \in 1..Len(q) |-> q[i].n]
      tab(q) == [x \in Range(names(q)) |-> LET i == CHOOSE j \in 1..Len(q) : q[j].n = x IN q[i]]
      mn == [i \in 1..Len(mx) |-> IF Nth(mx[i], 1).t = "Name" THEN mx[i].c[1].x ELSE ""]
  IN [cmds |-> tab(C), sts |-> tab(S), mtx |-> Range(mn),
      s |-> Complaints(C) \cup Complaints(S) \cup Complaints(L)
            \cup (IF Twice(names(C)) \/ Twice(names(S)) \/ Twice(names(L)) \/ Twice(mn)
                  THEN Err("declared twice") ELSE None)
            \cup (IF "" \in Range(mn) THEN Err("mutex without a name") ELSE None)
            \cup UNION {MutexOk(mx[i]) : i \in 1..Len(mx)}
            \cup (IF g.x # "" THEN Err("text for declarations") ELSE None)
            \cup (IF \A i \in 1..Len(g.c) : g.c[i].t \in {"CommandDeclaration", "StateDeclaration",
                                                         "LibraryNodeDeclaration", "DeclareMutex"}
                  THEN None ELSE Err("no declaration"))]

-----------------------------------------------------------------------------
(* Nodes *)

NodeTypes == {"Assignment", "Command", "Empty", "LibraryNodeCall", "NodeList", "Update"}
CondTags == {"SkipCondition", "StartCondition", "PreCondition", "PostCondition", "InvariantCondition",
             "EndCondition", "ExitCondition", "RepeatCondition"}
Single == CondTags \cup {"NodeId", "NodeBody", "Priority", "Interface", "VariableDeclarations", "UsingMutex"}
Ignored == {"Assume", "Comment", "Desire", "Expect"}

IdOf(n) == Get(n, "NodeId").x
BodyOf(n) == Nth(Get(n, "NodeBody"), 1)
(* what can be reached as a child of n: <<id, node type>> *)
KidsOf(n, L) ==
  IF n.a.NodeType = "NodeList" /\ BodyOf(n).t = "NodeList"
    THEN {<<IdOf(k), k.a.NodeType>> : k \in {q \in Range(BodyOf(n).c) : q.t = "Node"}}
  ELSE IF n.a.NodeType = "LibraryNodeCall" /\ BodyOf(n).t = "LibraryNodeCall"
    THEN LET l == Get(BodyOf(n), "NodeId").x IN
         {<<l, IF l \in DOMAIN L THEN Get(L[l], "Node").a.NodeType ELSE "?">>}
  ELSE {}

Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

Assignment(b, E) ==
  IF b.t # "Assignment" THEN Err("body of another kind")
  ELSE IF Len(b.c) < 2 THEN Err("incomplete assignment")
  ELSE LET l == Assignable(b.c[1], E)
           w == b.c[2]
           r == IF w.c = <<>> THEN R("!", Err("nothing to assign"))
                ELSE LET x == For(w.c[1], E, l.t) IN R(x.t, x.s \cup Surplus(w, 1))
       IN l.s \cup r.s \cup Surplus(b, 2)
          \cup (IF w.t \in {"BooleanRHS", "NumericRHS", "StringRHS", "ArrayRHS"} THEN None
                ELSE IF Ends(w.t, "RHS") THEN Doubt("kind of right hand side") ELSE Err("not a right hand side: " \o w.t))
          \cup Into(l.t, r.t, "assignment")

Resource(n, E) ==
  LET q == [i \in 1..Len(n.c) |-> Only(n.c[i], E)]
      tags == {"ResourceName", "ResourcePriority", "ResourceUpperBound", "ResourceReleaseAtTermination"}
  IN IF n.t # "Resource" THEN Err("not a resource: " \o n.t)
     ELSE Complaints(q)
          \cup (IF \A i \in 1..Len(n.c) : n.c[i].t \in tags THEN None ELSE Err("unknown element of a resource"))
          \cup (IF \E t \in tags : Len(With(n, t)) > 1 THEN Err("given twice for a resource") ELSE None)
          \cup (IF Has(n, "ResourceName") /\ Has(n, "ResourcePriority") THEN None
                ELSE Err("resource without a name or priority"))
          \cup UNION {LET t == q[i].t IN
                      CASE n.c[i].t = "ResourceName" -> Into("s", t, "resource name")
                        [] n.c[i].t = "ResourcePriority" ->
                             IF t = "i" \/ Open(t) THEN None ELSE IF Numeric(t) THEN Doubt("real priority")
                             ELSE Err("priority is no number")
                        [] n.c[i].t = "ResourceUpperBound" -> IF Numeric(t) THEN None ELSE Err("bound is no number")
                        [] n.c[i].t = "ResourceReleaseAtTermination" -> Into("b", t, "release")
                        [] OTHER -> None : i \in 1..Len(n.c)}

CommandBody(b, E) ==
  LET hasR == Nth(b, 1).t = "ResourceList"
      rl == b.c[1]
      i1 == IF hasR THEN 2 ELSE 1
      hasD == Ends(Nth(b, i1).t, "Variable") \/ Nth(b, i1).t = "ArrayElement"
      d == Assignable(b.c[i1], E)
      i2 == IF hasD THEN i1 + 1 ELSE i1
      nm == Nth(b, i2)
      e == IF nm.t = "Name" THEN Only(nm, E) ELSE R("!", Err("command without a name"))
      ax == Nth(b, i2 + 1)
      q == IF ax.t = "Arguments" THEN Args(ax, E) ELSE <<>>
      known == nm.t = "Name" /\ Nth(nm, 1).t = "StringValue" /\ nm.c[1].x \in DOMAIN E.cmds
      D == E.cmds[nm.c[1].x]
      consts == SelectSeq([i \in 1..Len(rl.c) |-> Nth(Get(rl.c[i], "ResourceName"), 1)], LAMBDA x : x.t = "StringValue")
  IN IF b.t # "Command" THEN Err("body of another kind")
     ELSE e.s \cup Into("s", e.t, "command name")
          \cup (IF hasR THEN UNION {Resource(rl.c[i], E) : i \in 1..Len(rl.c)}
                             \cup (IF Twice([i \in 1..Len(consts) |-> consts[i].x]) THEN Err("resource named twice") ELSE None)
                             \cup (IF rl.c = <<>> THEN Doubt("no resources") ELSE None)
                ELSE None)
          \cup (IF hasD THEN d.s ELSE None)
          \cup (IF hasD /\ known THEN (IF D.hasRet THEN Into(d.t, D.ret, "result of a command")
                                       ELSE Doubt("result of a command that has none")) ELSE None)
          \cup (IF Len(b.c) > i2 /\ ax.t # "Arguments" THEN Err(ax.t \o " in a command") ELSE Surplus(b, i2 + 1))
          \cup Complaints(q)
          \cup (IF ax.t = "Arguments" /\ ax.c = <<>> /\ ax.x # "" THEN Err("text for arguments") ELSE None)
          \cup (IF ~known THEN None
                ELSE (IF Len(q) = Len(D.par) \/ (D.any /\ Len(q) > Len(D.par)) THEN None
                      ELSE Err("wrong number of arguments of a command"))
                     \cup UNION {Into(D.par[i], q[i].t, "argument of a command") :
                                 i \in 1..(IF Len(q) < Len(D.par) THEN Len(q) ELSE Len(D.par))})

UpdateBody(b, E) ==
  LET q == [i \in 1..Len(b.c) |-> IF Len(b.c[i].c) < 2 THEN R("!", Err("incomplete pair")) ELSE Expr(b.c[i].c[2], E)]
      nm == [i \in 1..Len(b.c) |-> IF Nth(b.c[i], 1).t = "Name" THEN b.c[i].c[1].x ELSE ""]
  IN IF b.t # "Update" THEN Err("body of another kind")
     ELSE Complaints(q)
          \cup (IF \A i \in 1..Len(b.c) : b.c[i].t = "Pair" THEN None ELSE Err("no pair"))
          \cup (IF "" \in Range(nm) THEN Err("pair without a name") ELSE None)
          \cup (IF Twice(nm) THEN Err("pair named twice") ELSE None)
          \cup UNION {Surplus(b.c[i], 2) : i \in 1..Len(b.c)}
          \cup (IF b.c = <<>> THEN Doubt("empty update") ELSE None)

(* The variables a node declares, in order: <<declaration, "In" | "InOut" | "">> *)
Tagged(q, m) == [i \in 1..Len(q) |-> <<q[i], m>>]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Decls(n) ==
  LET io == Get(n, "Interface").c
      lv == SelectSeq(Get(n, "VariableDeclarations").c, LAMBDA d : d.t # "DeclareMutex")
  IN Flat([i \in 1..Len(io) |-> Tagged(io[i].c, io[i].t)]) \o Tagged(lv, "")

RECURSIVE NodeOk(_, _, _, _)
(* E: where the node stands; L: the libraries; busy: those being called *)
NodeOk(n, E, L, busy) ==
  LET ty == n.a.NodeType
      id == IdOf(n)
      ds == Decls(n)
      D == TLCEval([i \in 1..Len(ds) |-> DeclOf(ds[i][1])])
      locals == With(Get(n, "VariableDeclarations"), "DeclareMutex")
      mnames == [i \in 1..Len(locals) |-> Get(locals[i], "Name").x]
      iface == Get(n, "Interface")
      pieces == Len(With(iface, "In")) > 1 \/ Len(With(iface, "InOut")) > 1
      (* what an interface variable stands for *)
      found(i) == D[i].n \in DOMAIN E.vars
      link(i) ==
        LET m == ds[i][2]
            o == E.vars[D[i].n]
        IN IF m = "" THEN None
           ELSE IF ~found(i) THEN (IF HasInit(ds[i][1]) THEN None ELSE Err(m \o " variable " \o D[i].n \o " not supplied"))
           ELSE Exactly(D[i].t, o.t, "interface variable")
                \cup (IF m = "InOut" /\ ~o.w THEN Err("InOut variable may only be read") ELSE None)
      own == [x \in {D[i].n : i \in 1..Len(ds)} |->
                LET i == CHOOSE j \in 1..Len(ds) : D[j].n = x IN [t |-> D[i].t, w |-> ds[i][2] # "In"]]
      E1 == TLCEval([E EXCEPT !.vars = Merge(own, @),
                      !.chain = <<[id |-> id, nt |-> ty, kids |-> KidsOf(n, L)]>> \o @,
                      !.mtx = @ \cup (Range(mnames) \ {""})])
      b == BodyOf(n)
      body == Get(n, "NodeBody")
      using == Get(n, "UsingMutex")
      kids == IF b.t = "NodeList" THEN b.c ELSE <<>>
      lib == Get(b, "NodeId").x
      root == IF Nth(L[lib], 1).t = "GlobalDeclarations" THEN 2 ELSE 1
      callee == Nth(L[lib], root)
  IN
  IF n.t # "Node" THEN Err("not a node: " \o n.t)
  ELSE IF ty \notin NodeTypes THEN Err("unknown type of node " \o ty)
  ELSE
    (IF Has(n, "NodeId") /\ id # "" THEN None ELSE Err("node without a name"))
    \cup (IF \E t \in Single : Len(With(n, t)) > 1 THEN Err("given twice for a node") ELSE None)
    \cup (IF \A i \in 1..Len(n.c) : n.c[i].t \in Single \cup Ignored THEN None ELSE Err("unknown element of a node"))
    \cup (IF n.c = <<>> /\ n.x # "" THEN Err("text for a node") ELSE None)
    (* priority *)
    \cup (IF ~Has(n, "Priority") THEN None
          ELSE IF ty # "Assignment" THEN Err("priority of another kind of node") ELSE PriorityText(Get(n, "Priority").x))
    (* declarations *)
    \cup Complaints(D)
    \cup (IF iface.x # "" \/ (\E i \in 1..Len(iface.c) : iface.c[i].x # "") THEN Err("text for an interface") ELSE None)
    \cup (IF Get(n, "VariableDeclarations").x # "" THEN Err("text for declarations") ELSE None)
    \cup (IF \A i \in 1..Len(iface.c) : iface.c[i].t \in {"In", "InOut"} THEN None ELSE Err("neither In nor InOut"))
    \cup (IF pieces THEN Doubt("interface in pieces") ELSE None)
    \cup (IF \A i \in 1..Len(locals) : Get(locals[i], "Name").x # "" THEN None ELSE Err("mutex without a name"))
    \cup UNION {MutexOk(locals[i]) : i \in 1..Len(locals)}
    \cup (IF ~Twice([i \in 1..Len(ds) |-> D[i].n] \o mnames) THEN None
          ELSE IF pieces THEN Doubt("declared twice") ELSE Err("declared twice"))
    \cup UNION {link(i) : i \in 1..Len(ds)}
    \cup UNION {LET s == InitOf(ds[i][1], E1,
                                {D[j].n : j \in i..Len(ds)} \cup (IF ds[i][2] = "" THEN {} ELSE DOMAIN own))
                IN IF ds[i][2] # "" /\ found(i) /\ s # None THEN Doubt("initial value not used") ELSE s : i \in 1..Len(ds)}
    (* mutexes *)
    \cup (IF using.x # "" THEN Err("text for mutexes") ELSE None)
    \cup UNION {IF using.c[i].t # "Name" \/ using.c[i].x = "" THEN Err("mutex without a name")
                ELSE IF using.c[i].x \notin E1.mtx THEN Err("no mutex " \o using.c[i].x) ELSE None : i \in 1..Len(using.c)}
    \cup (IF Twice([i \in 1..Len(using.c) |-> using.c[i].x]) THEN Err("mutex used twice") ELSE None)
    (* conditions *)
    \cup UNION {LET r == Only(n.c[i], E1) IN
                r.s \cup (IF r.t = "b" \/ Open(r.t) THEN None ELSE Err(n.c[i].t \o " is not Boolean")) :
                i \in {j \in 1..Len(n.c) : n.c[j].t \in CondTags}}
    (* body *)
    \cup (IF ty = "Empty" THEN (IF Has(n, "NodeBody") THEN Err("body of an Empty node") ELSE None)
          ELSE IF ~Has(n, "NodeBody") THEN Err("no body")
          ELSE IF body.c = <<>> THEN Err("empty body")
          ELSE Surplus(body, 1) \cup
            CASE ty = "Assignment" -> Assignment(b, E1)
              [] ty = "Command" -> CommandBody(b, E1)
              [] ty = "Update" -> UpdateBody(b, E1)
              [] ty = "NodeList" ->
                   (IF b.t # "NodeList" \/ b.x # "" THEN Err("body of another kind") ELSE None)
                   \cup UNION {NodeOk(kids[i], E1, L, busy) : i \in 1..Len(kids)}
                   \cup (IF Twice([i \in 1..Len(kids) |-> IdOf(kids[i])]) THEN Err("siblings of one name") ELSE None)
                   \cup (IF \E i \in 1..Len(kids) : IdOf(kids[i]) = id THEN Err("child named as its parent") ELSE None)
              [] ty = "LibraryNodeCall" ->
                   IF b.t # "LibraryNodeCall" THEN Err("body of another kind")
                   ELSE IF Nth(b, 1).t # "NodeId" \/ lib = "" THEN Err("call of nothing")
                   ELSE IF lib \notin DOMAIN L THEN Err("no library " \o lib)
                   ELSE IF lib \in busy THEN Err("library calling itself")
                   ELSE
                     LET als == SubSeq(b.c, 2, Len(b.c))
                         good(a) == a.t = "Alias" /\ Nth(a, 1).t = "NodeParameter" /\ a.c[1].x # "" /\ Len(a.c) >= 2
                         ps == Decls(callee)
                         P == TLCEval([i \in 1..Len(ps) |-> DeclOf(ps[i][1])])
                         mode(x) == IF \E i \in 1..Len(ps) : P[i].n = x /\ ps[i][2] # ""
                                    THEN LET i == CHOOSE j \in 1..Len(ps) : P[j].n = x /\ ps[j][2] # "" IN ps[i][2]
                                    ELSE ""
                         val(a) == IF mode(a.c[1].x) = "InOut" THEN Assignable(a.c[2], E1) ELSE Expr(a.c[2], E1)
                         V == TLCEval([i \in 1..Len(als) |-> IF good(als[i]) THEN val(als[i]) ELSE R("!", Err("bad alias"))])
                         given == {als[i].c[1].x : i \in {j \in 1..Len(als) : good(als[j])}}
                         seen == [x \in {y \in given : mode(y) # ""} |->
                                    LET i == CHOOSE j \in 1..Len(als) : good(als[j]) /\ als[j].c[1].x = x
                                    IN [t |-> V[i].t, w |-> mode(x) = "InOut"]]
                         G == TLCEval(Globals(IF Nth(L[lib], 1).t = "GlobalDeclarations" THEN L[lib].c[1] ELSE NoElt))
                     IN Complaints(V)
                        \cup UNION {Surplus(als[i], 2) : i \in 1..Len(als)}
                        \cup (IF Twice([i \in 1..Len(als) |-> Nth(als[i], 1).x]) THEN Err("alias given twice") ELSE None)
                        \cup (IF \E x \in given : mode(x) = "" THEN Doubt("alias of no parameter") ELSE None)
                        \cup Surplus(L[lib], root)
                        \cup (IF G.s # None THEN G.s ELSE
                              NodeOk(callee, [vars |-> seen, chain |-> <<>>, mtx |-> G.mtx, cmds |-> G.cmds, sts |-> G.sts],
                                     L, busy \cup {lib})))

(* Plans.  libs: the documents loaded before, by the name of their root *)
PlanOk(doc, L) ==
  LET hasG == Nth(doc, 1).t = "GlobalDeclarations"
      G == TLCEval(Globals(IF hasG THEN doc.c[1] ELSE NoElt))
      k == IF hasG THEN 2 ELSE 1
  IN IF doc.t # "PlexilPlan" THEN Err("not a plan")
     ELSE Surplus(doc, k) \cup G.s \cup
          NodeOk(Nth(doc, k), [vars |-> <<>>, chain |-> <<>>, mtx |-> G.mtx, cmds |-> G.cmds, sts |-> G.sts], L, {})

Verdict(s) == IF s = None THEN "good"
              ELSE IF \E m \in s : Ch(m, 1) = "E" THEN "bad" ELSE "either"

=============================================================================
