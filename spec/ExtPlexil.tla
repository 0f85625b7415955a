------------------------------ MODULE ExtPlexil ------------------------------
(* What the structured statements of the PLEXIL language mean: sequences,    *)
(* branches, loops, attempts, waits and synchronous commands, with           *)
(* conditions, local variables and outcomes.  This is the language as its    *)
(* user sees it: nothing here knows of the nodes the translator makes.       *)
(*                                                                           *)
(* A program P is a tuple of statements; P[1] is the whole.  A statement is  *)
(*   k     kind     E A C S U W SEQ USEQ TRY CONC IF WHILE DO FOR            *)
(*   nm    its name, or ""                                                   *)
(*   kids  the statements directly inside it                                 *)
(*   par   the number of the statement it is directly inside; 0 if none      *)
(*   start skip pre post rep end exit inv   conditions; <<"none">> where none *)
(*   dec   local variables with their initial values: <<name, expression>>   *)
(*   lhs, e, args, cmd, tests, els, chk, tmo, tol, d   by kind (see below)   *)
(*                                                                           *)
(* Times are in 16ths of a second.  Statements running at once share no      *)
(* variables, so the order in which they proceed makes no difference.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"none">>
Unk == <<"u">>
Bo(x) == <<"b", IF x THEN 1 ELSE 0>>
In(x) == <<"i", x>>
Has(c) == c[1] # "none"

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
RECURSIVE Ev(_, _)
Ev(S, x) ==
  CASE x[1] \in {"i", "b"} -> x
    [] x[1] = "v" -> S.v[x[2]]
    [] x[1] = "l" -> S.lk[x[2]]
    [] x[1] = "op" ->
       LET a == Ev(S, x[3][1])
           b == Ev(S, x[3][2])
           p == a[2]
           q == b[2]
       IN CASE x[2] = "not" -> Bo(p = 0)
            [] x[2] = "known" -> Bo(a # Unk)
            [] x[2] = "and" -> Bo(p = 1 /\ q = 1)
            [] x[2] = "or" -> Bo(p = 1 \/ q = 1)
            [] x[2] = "+" -> In(p + q)
            [] x[2] = "-" -> In(p - q)
            [] x[2] = "*" -> In(p * q)
            [] x[2] = "<" -> Bo(p < q)
            [] x[2] = "<=" -> Bo(p <= q)
            [] x[2] = ">" -> Bo(p > q)
            [] x[2] = ">=" -> Bo(p >= q)
            [] x[2] = "==" -> Bo(p = q)
            [] x[2] = "!=" -> Bo(p # q)
T(S, x) == Ev(S, x) = Bo(TRUE)

(***************************************************************************)
(* The state: where each statement is, and what is known                   *)
(*   ph   I not begun, W waiting to begin, R running, X this time is over, *)
(*        F finished                                                       *)
(*   oc   how it ended                                                     *)
(*   sb   how far it is, by kind                                           *)
(*   t0   when it began       sn   the time it has been told               *)
(*   h    its command's last reply     rv   what its command returned      *)
(*   as   whether that has been assigned                                   *)
(***************************************************************************)
Start(P, lk) ==
  LET N == DOMAIN P
  IN [ph |-> [n \in N |-> IF n = 1 THEN "W" ELSE "I"], oc |-> [n \in N |-> ""], sb |-> [n \in N |-> 0],
      t0 |-> [n \in N |-> 0], sn |-> [n \in N |-> 0], h |-> [n \in N |-> ""], rv |-> [n \in N |-> Unk],
      as |-> [n \in N |-> FALSE], up |-> [n \in N |-> FALSE], v |-> [x \in {} |-> Unk], lk |-> lk, t |-> 0]

Await(S, K) == [S EXCEPT !.ph = [n \in DOMAIN @ |-> IF n \in K THEN "W" ELSE @[n]],
                         !.oc = [n \in DOMAIN @ |-> IF n \in K THEN "" ELSE @[n]]]

Kids(P, n) == {P[n].kids[i] : i \in DOMAIN P[n].kids}

\* the first test that holds; after them, the else; 0 if nothing is to be done
Branch(S, s) ==
  LET hits == {i \in DOMAIN s.tests : T(S, s.tests[i])}
  IN IF hits # {} THEN CHOOSE i \in hits : \A j \in hits : i <= j
     ELSE IF s.els THEN Len(s.kids) ELSE 0

Begin(P, S, n) ==
  LET s == P[n]
      names == {s.dec[i][1] : i \in DOMAIN s.dec}
      init(x) == LET i == CHOOSE j \in DOMAIN s.dec : s.dec[j][1] = x IN Ev(S, s.dec[i][2])
      \* what was done inside the last time no longer counts
      fresh == [m \in DOMAIN S.ph |-> IF m \in Kids(P, n) THEN "I" ELSE S.ph[m]]
      S1 == [S EXCEPT !.ph = [fresh EXCEPT ![n] = "R"], !.oc[n] = "", !.sb[n] = 0, !.t0[n] = S.t, !.sn[n] = S.t, !.h[n] = "",
                      !.rv[n] = Unk, !.as[n] = FALSE,
                      !.v = [x \in DOMAIN @ \cup names |-> IF x \in names THEN init(x) ELSE @[x]]]
  IN CASE s.k \in {"SEQ", "USEQ", "TRY"} -> Await([S1 EXCEPT !.sb[n] = 1], {s.kids[1]})
       [] s.k = "CONC" -> Await(S1, Kids(P, n))
       [] s.k = "IF" -> LET b == Branch(S1, s)
                        IN Await([S1 EXCEPT !.sb[n] = b], IF b = 0 THEN {} ELSE {s.kids[b]})
       [] s.k = "DO" -> Await(S1, {s.kids[1]})
       [] OTHER -> S1

\* over, as oc
Over(S, n, oc) == [S EXCEPT !.ph[n] = "X", !.oc[n] = oc]
\* done what there was to do: a success, unless the postcondition says otherwise
Done(P, S, n) ==
  Over(S, n, IF Has(P[n].post) /\ ~T(S, P[n].post) THEN "FAILURE" ELSE "SUCCESS")

Bad == {"COMMAND_DENIED", "COMMAND_FAILED", "COMMAND_INTERFACE_ERROR"}
Late(P, S, n) == P[n].tmo >= 0 /\ S.sn[n] >= S.t0[n] + P[n].tmo
\* A command with a result is as good as its result; a checked one, as its reply
Checked(P, n) == P[n].chk
Result(P, n) == P[n].lhs # ""
\* whether a loop's own conditions or variables make it a statement around its body
Around(s) == s.dec # <<>> \/ \E c \in {s.start, s.skip, s.pre, s.post, s.rep, s.end, s.exit, s.inv} : Has(c)

(***************************************************************************)
(* What stops a statement: its exit condition, or that of one it is inside; *)
(* its invariant failing, or that of one it is inside                      *)
(***************************************************************************)
Ex(P, S, n) == Has(P[n].exit) /\ T(S, P[n].exit)
Iv(P, S, n) == Has(P[n].inv) /\ ~T(S, P[n].inv)
RECURSIVE AncEx(_, _, _), AncIv(_, _, _)
AncEx(P, S, n) == LET p == P[n].par IN p # 0 /\ (Ex(P, S, p) \/ AncEx(P, S, p))
AncIv(P, S, n) == LET p == P[n].par IN p # 0 /\ (Iv(P, S, p) \/ AncIv(P, S, p))

\* An end condition lets what has begun finish, but nothing inside begins any more
Compound(s) == s.kids # <<>>
En(P, S, n) == Compound(P[n]) /\ Has(P[n].end) /\ T(S, P[n].end)
RECURSIVE AncEn(_, _, _)
AncEn(P, S, n) == LET p == P[n].par IN p # 0 /\ (En(P, S, p) \/ AncEn(P, S, p))

Stop(P, S, n) ==
  CASE AncEx(P, S, n) -> <<"INTERRUPTED", TRUE>>
    [] Ex(P, S, n) -> <<"INTERRUPTED", FALSE>>
    [] AncIv(P, S, n) -> <<"FAILURE", TRUE>>
    [] Iv(P, S, n) -> <<"FAILURE", FALSE>>
    [] OTHER -> <<"", FALSE>>

\* being stopped: what is inside ends first; a command is called back, an update waited for
Stopped(P, S, n, w) ==
  LET s == P[n]
      now == \/ s.k \in {"E", "W"}
             \/ s.k = "S" /\ Result(P, n) /\ S.sb[n] \in {3, 4}
  IN IF s.k = "S" /\ ~Result(P, n) /\ S.sb[n] = 2 THEN S     \* it has been called back already
     ELSE [S EXCEPT !.ph[n] = IF ~now THEN "K" ELSE IF w[2] THEN "Y" ELSE "X", !.oc[n] = w[1], !.up[n] = w[2]]

(***************************************************************************)
(* What a statement does unseen: Quiet(P, S, n) is S itself, if nothing    *)
(***************************************************************************)
\* done, unless there is an end condition to wait for
DoneC(P, S, n) == IF Has(P[n].end) THEN S ELSE Done(P, S, n)
\* a loop does not begin anew while it waits for that
DoneL(P, S, n) == IF Has(P[n].end) THEN [S EXCEPT !.sb[n] = 2] ELSE Done(P, S, n)

QuietR(P, S, n) ==
  LET s == P[n]
      fin(k) == S.ph[k] = "F"
      cur == s.kids[S.sb[n]]
      last == AncEn(P, S, n)        \* no more rounds
  IN CASE En(P, S, n) -> [S EXCEPT !.ph[n] = "G"]
       [] s.k = "E" -> IF ~Has(s.end) \/ T(S, s.end) THEN Done(P, S, n) ELSE S
       [] s.k = "W" -> IF S.sn[n] >= S.t0[n] + s.d THEN Done(P, S, n) ELSE S
       [] s.k \in {"SEQ", "USEQ"} ->
            IF ~fin(cur) THEN S
            ELSE IF s.k = "SEQ" /\ S.oc[cur] = "FAILURE" THEN Over(S, n, "FAILURE")
            ELSE IF S.sb[n] = Len(s.kids) THEN DoneC(P, S, n)
            ELSE Await([S EXCEPT !.sb[n] = @ + 1], {s.kids[S.sb[n] + 1]})
       [] s.k = "TRY" ->
            IF ~fin(cur) THEN S
            ELSE IF S.oc[cur] = "SUCCESS" THEN Done(P, S, n)
            ELSE IF S.sb[n] = Len(s.kids) THEN Over(S, n, "FAILURE")
            ELSE Await([S EXCEPT !.sb[n] = @ + 1], {s.kids[S.sb[n] + 1]})
       [] s.k = "CONC" -> IF \A k \in Kids(P, n) : fin(k) THEN DoneC(P, S, n) ELSE S
       [] s.k = "IF" -> IF S.sb[n] = 0 THEN DoneC(P, S, n) ELSE IF fin(cur) THEN DoneC(P, S, n) ELSE S
       [] s.k = "WHILE" ->
            IF S.sb[n] = 2 THEN S
            ELSE IF S.sb[n] = 1 THEN IF fin(s.kids[1]) THEN [S EXCEPT !.sb[n] = 0] ELSE S
            ELSE IF ~last /\ T(S, s.e) THEN Await([S EXCEPT !.sb[n] = 1], {s.kids[1]})
            ELSE DoneL(P, S, n)
       [] s.k = "FOR" ->
            IF S.sb[n] = 2 THEN S
            ELSE IF S.sb[n] = 1 THEN IF last /\ fin(s.kids[1]) THEN DoneL(P, S, n) ELSE S
            ELSE IF ~last /\ T(S, s.e) THEN Await([S EXCEPT !.sb[n] = 1], {s.kids[1]})
            ELSE DoneL(P, S, n)
       [] s.k = "DO" ->
            IF S.sb[n] = 2 \/ ~fin(s.kids[1]) THEN S
            ELSE IF ~last /\ T(S, s.e) THEN Await(S, {s.kids[1]})
            ELSE IF Around(s) THEN DoneL(P, S, n) ELSE Over(S, n, S.oc[s.kids[1]])
       [] s.k = "C" -> IF S.sb[n] = 1 /\ S.h[n] # "" THEN Done(P, S, n) ELSE S
       [] s.k = "U" -> IF S.sb[n] = 2 THEN Done(P, S, n) ELSE S
       [] (s.k = "S" /\ ~Result(P, n)) ->
            IF S.sb[n] # 1 \/ Late(P, S, n) THEN S
            ELSE IF S.h[n] = "COMMAND_SUCCESS" THEN Done(P, S, n)
            ELSE IF S.h[n] \in Bad THEN IF Checked(P, n) THEN Over(S, n, "FAILURE") ELSE Done(P, S, n)
            ELSE S
       [] (s.k = "S" /\ Result(P, n)) ->
            IF S.sb[n] = 1 THEN
              IF Late(P, S, n) THEN S
              ELSE IF S.h[n] = "COMMAND_SUCCESS"
                THEN [S EXCEPT !.sb[n] = IF Checked(P, n) /\ S.rv[n] = Unk THEN 4 ELSE 3]
              ELSE IF S.h[n] \in Bad /\ ~Checked(P, n) THEN [S EXCEPT !.sb[n] = 3]
              ELSE S
            ELSE IF S.sb[n] = 4 /\ Checked(P, n) THEN Over(S, n, "FAILURE")
            ELSE IF S.sb[n] \in {3, 4} /\ S.as[n] THEN Done(P, S, n)
            ELSE S
       [] OTHER -> S

\* ending early: what has begun inside is over
QuietG(P, S, n) ==
  LET s == P[n]
      over == \A k \in Kids(P, n) : S.ph[k] \in {"I", "F"}
      how(x) == \E k \in Kids(P, n) : S.ph[k] = "F" /\ S.oc[k] = x
  IN CASE s.k = "SEQ" /\ how("FAILURE") -> IF over THEN Over(S, n, "FAILURE") ELSE S
       [] ~over -> S
       [] s.k = "TRY" /\ ~how("SUCCESS") -> Over(S, n, "FAILURE")
       [] OTHER -> Done(P, S, n)

Quiet(P, S, n) ==
  LET s == P[n]
  IN CASE S.ph[n] = "W" ->
            IF AncEx(P, S, n) \/ AncIv(P, S, n) \/ AncEn(P, S, n) \/ Ex(P, S, n) \/ (Has(s.skip) /\ T(S, s.skip))
              THEN [S EXCEPT !.ph[n] = "F", !.oc[n] = "SKIPPED"]
            ELSE IF Has(s.start) /\ ~T(S, s.start) THEN S
            ELSE IF Has(s.pre) /\ ~T(S, s.pre) THEN Over(S, n, "FAILURE")
            ELSE Begin(P, S, n)
       [] S.ph[n] = "R" ->
            LET w == Stop(P, S, n) IN IF w[1] = "" THEN QuietR(P, S, n) ELSE Stopped(P, S, n, w)
       [] S.ph[n] = "G" ->
            LET w == Stop(P, S, n) IN IF w[1] = "" THEN QuietG(P, S, n) ELSE Stopped(P, S, n, w)
       [] S.ph[n] = "K" ->
            IF s.kids # <<>> /\ \A k \in Kids(P, n) : S.ph[k] \in {"I", "F"}
            THEN [S EXCEPT !.ph[n] = IF S.up[n] THEN "Y" ELSE "X"] ELSE S
       [] S.ph[n] = "X" ->
            IF AncEx(P, S, n) THEN [S EXCEPT !.ph[n] = "Y", !.oc[n] = "INTERRUPTED"]
            ELSE IF AncIv(P, S, n) THEN [S EXCEPT !.ph[n] = "Y", !.oc[n] = "FAILURE"]
            ELSE IF ~AncEn(P, S, n) /\ Has(s.rep) /\ T(S, s.rep) THEN Await(S, {n})
            ELSE [S EXCEPT !.ph[n] = "Y"]
       [] S.ph[n] = "Y" -> IF s.nm = "" THEN [S EXCEPT !.ph[n] = "F"] ELSE S
       [] OTHER -> S

\* Nothing unseen left to do
RECURSIVE Settle(_, _)
Settle(P, S) ==
  LET go == {n \in DOMAIN P : Quiet(P, S, n) # S}
  IN IF go = {} THEN S
     ELSE Settle(P, TLCEval(Quiet(P, S, CHOOSE n \in go : \A m \in go : n <= m)))

(***************************************************************************)
(* What a statement does for all to see: the events S may have next        *)
(***************************************************************************)
Vals(S, xs) == [i \in DOMAIN xs |-> Ev(S, xs[i])]

Shown(P, S) ==
  LET at(n, ev) == {[n |-> n, ev |-> ev]}
      s(n) == P[n]
      R(n) == S.ph[n] = "R"
      one(n) ==
        (IF S.ph[n] = "Y" /\ s(n).nm # "" THEN at(n, <<"fin", s(n).nm, S.oc[n]>>) ELSE {})
        \cup (IF R(n) /\ s(n).k = "A" THEN at(n, <<"set", s(n).lhs, Ev(S, s(n).e)>>) ELSE {})
        \cup (IF R(n) /\ s(n).k \in {"C", "S"} /\ S.sb[n] = 0
                THEN at(n, <<"cmd", s(n).cmd, Vals(S, s(n).args)>>) ELSE {})
        \cup (IF R(n) /\ s(n).k = "U" /\ S.sb[n] = 0
                THEN at(n, <<"upd", s(n).cmd, Vals(S, s(n).args)>>) ELSE {})
        \cup (IF R(n) /\ s(n).k = "FOR" /\ S.sb[n] = 1 /\ S.ph[s(n).kids[1]] = "F"
                 /\ ~AncEn(P, S, n)
                THEN at(n, <<"set", s(n).lhs, Ev(S, s(n).e2)>>) ELSE {})
        \cup (IF R(n) /\ s(n).k = "S" /\ S.sb[n] = 1
                 /\ (Late(P, S, n) \/ (Result(P, n) /\ Checked(P, n) /\ S.h[n] \in Bad))
                THEN at(n, <<"abort", s(n).cmd>>) ELSE {})
        \cup (IF S.ph[n] = "K" /\ s(n).k \in {"C", "S"} /\ S.sb[n] = 1 THEN at(n, <<"abort", s(n).cmd>>) ELSE {})
        \cup (IF R(n) /\ s(n).k = "S" /\ Result(P, n) /\ S.sb[n] >= 1 /\ S.rv[n] # Unk /\ ~S.as[n]
                THEN at(n, <<"set", s(n).lhs, S.rv[n]>>) ELSE {})
  IN UNION {one(n) : n \in DOMAIN P}

Do(P, S, x) ==
  LET n == x.n
      ev == x.ev
      s == P[n]
      S1 == CASE ev[1] = "fin" -> [S EXCEPT !.ph[n] = "F"]
              [] ev[1] = "set" /\ s.k = "A" -> LET S0 == [S EXCEPT !.v[ev[2]] = ev[3]] IN Done(P, S0, n)
              [] ev[1] = "set" /\ s.k = "FOR" -> [S EXCEPT !.v[ev[2]] = ev[3], !.sb[n] = 0]
              [] ev[1] = "set" /\ s.k = "S" -> [S EXCEPT !.v[ev[2]] = ev[3], !.as[n] = TRUE]
              [] ev[1] = "abort" -> [S EXCEPT !.sb[n] = 2]
              [] OTHER -> [S EXCEPT !.sb[n] = 1]
  IN Settle(P, S1)

(***************************************************************************)
(* What the world does                                                     *)
(***************************************************************************)
Input(P, S, k, x) ==
  LET asks == {n \in DOMAIN P : S.ph[n] \in {"R", "K"} /\ P[n].k \in {"C", "S", "U"} /\ P[n].cmd = x[1]}
      n == CHOOSE m \in asks : TRUE
  IN Settle(P,
      CASE k = "env" -> [S EXCEPT !.lk[x[1]] = x[2]]
        [] k = "time" -> [S EXCEPT !.t = x[1],
                                   !.sn = [m \in DOMAIN @ |-> LET dt == x[1] - @[m]
                                                              IN IF dt >= P[m].tol \/ -dt >= P[m].tol THEN x[1] ELSE @[m]]]
        [] asks = {} -> S
        [] k = "ack" -> IF S.sb[n] = 1 THEN [S EXCEPT !.h[n] = x[2]] ELSE S
        [] k = "ret" -> IF P[n].k = "C" /\ P[n].lhs # "" THEN [S EXCEPT !.v[P[n].lhs] = x[2]]
                        ELSE [S EXCEPT !.rv[n] = x[2]]
        [] k = "aack" -> IF S.sb[n] # 2 THEN S
                         ELSE IF S.ph[n] = "K" THEN [S EXCEPT !.ph[n] = "Y"]
                         ELSE IF Result(P, n) THEN [S EXCEPT !.sb[n] = 4] ELSE Over(S, n, "FAILURE")
        [] k = "uack" -> IF S.ph[n] = "K" THEN [S EXCEPT !.ph[n] = "Y"] ELSE IF S.sb[n] = 1 THEN [S EXCEPT !.sb[n] = 2] ELSE S)
=============================================================================
