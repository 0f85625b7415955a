------------------------------- MODULE Plexil -------------------------------
(***************************************************************************)
(* The PLEXIL executive: what a step of the executive does to plans.       *)
(*                                                                         *)
(* Every operator takes the static description P of the plans (built from  *)
(* the same abstract plan as the XML given to the real executive) and a    *)
(* state record S.                                                         *)
(*                                                                         *)
(*   S.st, S.out, S.fl   node state, outcome, failure type  ("" is none)   *)
(*   S.hdl               command handle of the current execution           *)
(*   S.tp, S.ss          time points; when the current state was entered   *)
(*   S.vv                variable values (unknown while out of scope)      *)
(*   S.ak                assignment done / abort acknowledged / update     *)
(*                       acknowledged, for the current execution           *)
(*   S.act               command execution in progress                     *)
(*   S.sv, S.ix          what an assignment will put back, where           *)
(*   S.pend, S.retr, S.cmds, S.abts, S.upds   work queued for the end of   *)
(*                       the step                                          *)
(*   S.cache             key -> value and the cycle it was learned in      *)
(*   S.key, S.oc         per lookup: the state it is registered for, and   *)
(*                       the last value an on-change lookup reported       *)
(*   S.alloc, S.held     resources in use, and what each command holds     *)
(*   S.cyc, S.now, S.ph  cycle, step time, phase ("idle" or "step")        *)
(***************************************************************************)
EXTENDS PlexilValues

Run == {"EXECUTING", "FINISHING", "FAILING"}
Live(s) == s # "-"
States == {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"}
ToSet(s) == {s[i] : i \in DOMAIN s}
Par(P, n) == P.nodes[n].par
Kids(P, n) == P.nodes[n].kids
Ty(P, n) == P.nodes[n].ty
Nodes(P) == 1..P.nn
RECURSIVE Ancestors(_, _)
Ancestors(P, n) == IF Par(P, n) = 0 THEN {} ELSE {Par(P, n)} \cup Ancestors(P, Par(P, n))

-----------------------------------------------------------------------------
(* Expressions *)

NoOc == [has |-> FALSE, base |-> U]

RECURSIVE Ev(_, _, _), EvAll(_, _, _), KeyOf(_, _, _), LookVal(_, _, _)

EvAll(P, S, es) == [i \in DOMAIN es |-> Ev(P, S, es[i])]

(* The state a lookup refers to, <<>> while its name or an argument is unknown *)
KeyOf(P, S, id) ==
  LET L == P.lks[id]
      nm == Ev(P, S, L.n)
      as == EvAll(P, S, L.args)
  IN IF ~Known(nm) \/ AnyUnknown(as) THEN <<>> ELSE <<nm[2]>> \o as

LookVal(P, S, id) ==
  LET k == S.key[id]
  IN IF k = <<>> \/ k \notin DOMAIN S.cache THEN U
     ELSE IF S.oc[id].has THEN S.oc[id].base
     ELSE S.cache[k].v

NodePred(P, S, p, n) ==
  CASE p = "Inactive" -> S.st[n] = "INACTIVE"
    [] p = "Waiting" -> S.st[n] = "WAITING"
    [] p = "Executing" -> S.st[n] = "EXECUTING"
    [] p = "IterationEnded" -> S.st[n] = "ITERATION_ENDED"
    [] p = "Finished" -> S.st[n] = "FINISHED"
    [] p = "Succeeded" -> S.st[n] = "FINISHED" /\ S.out[n] = "SUCCESS"
    [] p = "Failed" -> S.st[n] = "FINISHED" /\ S.out[n] = "FAILURE"
    [] p = "Skipped" -> S.out[n] = "SKIPPED"
    [] p = "PostconditionFailed" -> S.fl[n] = "POST_CONDITION_FAILED"
    [] p = "NoChildFailed" ->
         \A k \in ToSet(Kids(P, n)) : ~(S.st[k] = "FINISHED" /\ S.out[k] = "FAILURE")

Ev(P, S, e) ==
  CASE e[1] = "c" -> e[2]
    [] e[1] = "v" -> S.vv[e[2]]
    [] e[1] = "l" -> LookVal(P, S, e[2])
    [] e[1] = "o" -> Apply(e[2], e[3], EvAll(P, S, e[4]))
    [] e[1] = "np" -> B(NodePred(P, S, e[2], e[3]))
    [] e[1] = "ns" -> <<"n", S.st[e[2]]>>
    [] e[1] = "no" -> IF S.out[e[2]] = "" THEN U ELSE <<"o", S.out[e[2]]>>
    [] e[1] = "nf" -> IF S.fl[e[2]] = "" THEN U ELSE <<"f", S.fl[e[2]]>>
    [] e[1] = "nh" -> IF S.hdl[e[2]] = "" THEN U ELSE <<"h", S.hdl[e[2]]>>
    [] e[1] = "nt" -> S.tp[e[2]][e[3]][e[4]]      \* node, state, 1 start / 2 end
    [] e[1] = "e" ->                                \* array element
         LET a == Ev(P, S, e[2])
             i == Ev(P, S, e[3])
         IN IF ~Known(i) THEN U
            ELSE IF ~Known(a) THEN U
            ELSE IF i[2] < 0 \/ i[2] >= Len(a[2]) THEN Err
            ELSE a[2][i[2] + 1]

None(e) == e[1] = "0"
CondT(P, S, e) == ~None(e) /\ Ev(P, S, e) = T
CondF(P, S, e) == ~None(e) /\ Ev(P, S, e) = F

-----------------------------------------------------------------------------
(* Conditions of ancestors *)

C(P, n) == P.nodes[n].c

RECURSIVE AncExitR(_, _, _), AncInvFR(_, _, _), AncEndR(_, _, _)
AncExitR(P, S, p) == p # 0 /\ (CondT(P, S, C(P, p).exit) \/ AncExitR(P, S, Par(P, p)))
AncInvFR(P, S, p) == p # 0 /\ (CondF(P, S, C(P, p).inv) \/ AncInvFR(P, S, Par(P, p)))
AncEndR(P, S, p) == p # 0 /\ (CondT(P, S, C(P, p).end) \/ AncEndR(P, S, Par(P, p)))

Governed(P, S, n) == Par(P, n) # 0 /\ S.st[Par(P, n)] \in Run
AncExit(P, S, n) == Governed(P, S, n) /\ AncExitR(P, S, Par(P, n))
AncInvF(P, S, n) == Governed(P, S, n) /\ AncInvFR(P, S, Par(P, n))
AncEnd(P, S, n) == Governed(P, S, n) /\ AncEndR(P, S, Par(P, n))

-----------------------------------------------------------------------------
(* The state machine of a node: where it goes next, with what outcome *)

To(st, out, fl) == [st |-> st, out |-> out, fl |-> fl]
Stay == To("", "", "")

Interrupt(P, S, n) ==        \* why an active node must stop, if it must
  CASE AncExit(P, S, n) -> To("A", "INTERRUPTED", "PARENT_EXITED")
    [] CondT(P, S, C(P, n).exit) -> To("O", "INTERRUPTED", "EXITED")
    [] AncInvF(P, S, n) -> To("A", "FAILURE", "PARENT_FAILED")
    [] CondF(P, S, C(P, n).inv) -> To("O", "FAILURE", "INVARIANT_CONDITION_FAILED")
    [] OTHER -> Stay

Ended(P, S, n) ==            \* normal end of an iteration
  IF None(C(P, n).post) \/ CondT(P, S, C(P, n).post)
  THEN To("ITERATION_ENDED", "SUCCESS", "")
  ELSE To("ITERATION_ENDED", "FAILURE", "POST_CONDITION_FAILED")

KidsDone(P, S, n) == \A k \in ToSet(Kids(P, n)) : S.st[k] \in {"WAITING", "FINISHED"}
KidsFinished(P, S, n) == \A k \in ToSet(Kids(P, n)) : S.st[k] = "FINISHED"

EndT(P, S, n) ==             \* is the end condition true?
  LET e == C(P, n).end IN
  CASE Ty(P, n) \in {"L", "B"} ->
         IF None(e) THEN KidsFinished(P, S, n) ELSE CondT(P, S, e)
    [] Ty(P, n) = "C" ->
         \/ None(e)
         \/ S.hdl[n] \in {"COMMAND_DENIED", "COMMAND_FAILED", "COMMAND_INTERFACE_ERROR"}
         \/ CondT(P, S, e)
    [] Ty(P, n) = "U" -> S.ak[n] /\ (None(e) \/ CondT(P, S, e))
    [] OTHER -> None(e) \/ CondT(P, S, e)

FromInactive(P, S, n) ==
  LET p == Par(P, n) IN
  CASE p = 0 -> To("WAITING", "", "")
    [] S.st[p] = "FINISHED" -> To("FINISHED", "SKIPPED", "")
    [] S.st[p] = "EXECUTING" ->
         IF AncExit(P, S, n) \/ AncInvF(P, S, n) \/ AncEnd(P, S, n)
         THEN To("FINISHED", "SKIPPED", "") ELSE To("WAITING", "", "")
    [] OTHER -> Stay

FromWaiting(P, S, n) ==
  LET c == C(P, n) IN
  CASE \/ AncExit(P, S, n) \/ CondT(P, S, c.exit) \/ AncInvF(P, S, n)
       \/ AncEnd(P, S, n) \/ CondT(P, S, c.skip) -> To("FINISHED", "SKIPPED", "")
    [] ~None(c.start) /\ ~CondT(P, S, c.start) -> Stay
    [] ~None(c.pre) /\ ~CondT(P, S, c.pre) ->
         To("ITERATION_ENDED", "FAILURE", "PRE_CONDITION_FAILED")
    [] OTHER -> To("EXECUTING", "", "")

FromExecuting(P, S, n) ==
  LET w == Interrupt(P, S, n) IN
  CASE Ty(P, n) = "A" /\ ~S.ak[n] -> Stay
    [] w # Stay /\ Ty(P, n) = "E" ->
         To(IF w.st = "A" THEN "FINISHED" ELSE "ITERATION_ENDED", w.out, w.fl)
    [] w # Stay -> To("FAILING", w.out, w.fl)
    [] ~EndT(P, S, n) -> Stay
    [] Ty(P, n) \in {"L", "B", "C"} -> To("FINISHING", "", "")
    [] OTHER -> Ended(P, S, n)

FromFinishing(P, S, n) ==
  LET w == Interrupt(P, S, n) IN
  CASE w # Stay -> To("FAILING", w.out, w.fl)
    [] Ty(P, n) = "C" -> IF S.hdl[n] # "" THEN Ended(P, S, n) ELSE Stay
    [] OTHER -> IF KidsDone(P, S, n) THEN Ended(P, S, n) ELSE Stay

FromFailing(P, S, n) ==
  IF IF Ty(P, n) \in {"L", "B"} THEN KidsDone(P, S, n) ELSE S.ak[n]
  THEN To(IF S.fl[n] \in {"PARENT_EXITED", "PARENT_FAILED"}
          THEN "FINISHED" ELSE "ITERATION_ENDED", S.out[n], S.fl[n])
  ELSE Stay

FromIterationEnded(P, S, n) ==
  LET r == C(P, n).rep IN
  CASE AncExit(P, S, n) -> To("FINISHED", "INTERRUPTED", "PARENT_EXITED")
    [] AncInvF(P, S, n) -> To("FINISHED", "FAILURE", "PARENT_FAILED")
    [] AncEnd(P, S, n) -> To("FINISHED", S.out[n], S.fl[n])
    [] Par(P, n) # 0 /\ S.st[Par(P, n)] # "EXECUTING" -> To("FINISHED", S.out[n], S.fl[n])
    [] None(r) \/ Ev(P, S, r) = F -> To("FINISHED", S.out[n], S.fl[n])
    [] Ev(P, S, r) = T -> To("WAITING", "", "")
    [] OTHER -> Stay

FromFinished(P, S, n) ==
  IF Par(P, n) # 0 /\ S.st[Par(P, n)] = "WAITING" THEN To("INACTIVE", "", "") ELSE Stay

Dest(P, S, n) ==
  CASE S.st[n] = "INACTIVE" -> FromInactive(P, S, n)
    [] S.st[n] = "WAITING" -> FromWaiting(P, S, n)
    [] S.st[n] = "EXECUTING" -> FromExecuting(P, S, n)
    [] S.st[n] = "FINISHING" -> FromFinishing(P, S, n)
    [] S.st[n] = "FAILING" -> FromFailing(P, S, n)
    [] S.st[n] = "ITERATION_ENDED" -> FromIterationEnded(P, S, n)
    [] S.st[n] = "FINISHED" -> FromFinished(P, S, n)
    [] OTHER -> Stay

-----------------------------------------------------------------------------
(* Which nodes change state together *)

(* Mutexes and variables a node must have to itself while it runs *)
Needs(P, n) == ToSet(P.nodes[n].res)
Held(P, S) == UNION {Needs(P, n) : n \in {m \in Nodes(P) : S.st[m] \in Run}}
Prio(P, n) == P.nodes[n].pr

Enabled(P, S) == {n \in Nodes(P) : S.st[n] # "-" /\ Dest(P, S, n) # Stay}
Contends(P, S, n) ==
  S.st[n] = "WAITING" /\ Needs(P, n) # {} /\ Dest(P, S, n).st = "EXECUTING"

(* Is it right that, of the contenders con, exactly those in g start? *)
GrantOK(P, S, con, g) ==
  /\ \A n \in g : Needs(P, n) \cap Held(P, S) = {}
  /\ \A n, m \in g : n # m => Needs(P, n) \cap Needs(P, m) = {}
  /\ \A n \in con \ g :
       \/ Needs(P, n) \cap Held(P, S) # {}
       \/ \E m \in g : Needs(P, n) \cap Needs(P, m) # {} /\ Prio(P, m) <= Prio(P, n)

(* Some transition is possible *)
CanMove(P, S) ==
  \E n \in Enabled(P, S) : ~Contends(P, S, n) \/ Needs(P, n) \cap Held(P, S) = {}

BatchOK(P, S, t) ==
  LET en == Enabled(P, S)
      con == {n \in en : Contends(P, S, n)}
  IN t # {} /\ t \subseteq en /\ (en \ con) \subseteq t /\ GrantOK(P, S, con, t \cap con)

Batches(P, S) ==
  LET en == Enabled(P, S)
      con == {n \in en : Contends(P, S, n)}
  IN {t \in {(en \ con) \cup g : g \in {h \in SUBSET con : GrantOK(P, S, con, h)}} : t # {}}

(* The step goes no further: there is work to carry out at its end *)
Busy(S) == S.pend # <<>> \/ S.retr # {} \/ S.cmds # <<>> \/ S.abts # {}

-----------------------------------------------------------------------------
(* What is in use: variables and lookups of the groups of conditions and    *)
(* bodies active in each node's state                                       *)

ActV(P, S) == UNION {ToSet(P.nodes[n].act[S.st[n]].v) : n \in {m \in Nodes(P) : S.st[m] # "-"}}
ActL(P, S) == UNION {ToSet(P.nodes[n].act[S.st[n]].l) : n \in {m \in Nodes(P) : S.st[m] # "-"}}

Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]

(* lk: the answers the external system gave, in order *)
RECURSIVE Learn(_, _, _)
Learn(cache, lk, cyc) ==
  IF lk = <<>> THEN cache
  ELSE Learn(Merge(Head(lk).k :> [v |-> Head(lk).v, ts |-> cyc], cache), Tail(lk), cyc)

(* How far apart two known values must be for an on-change lookup to report *)
Exceeds(base, val, tol) ==
  IF ~Known(base) \/ ~Known(val) THEN Known(base) # Known(val)
  ELSE IF ~IsNum(val) THEN base # val
  ELSE base # val /\ Abs(Num(val) - Num(base)) >= Abs(Num(tol))

(* Bring the lookups in L up to date after a change.  Those in fresh have   *)
(* just been registered and forget what they reported.                      *)
RECURSIVE SyncKeys(_, _, _, _)
SyncKeys(P, S, L, ids) ==
  IF ids = <<>> THEN S
  ELSE LET id == Head(ids)
           k == IF id \in L THEN KeyOf(P, S, id) ELSE <<>>
           S1 == IF k = S.key[id] THEN S
                 ELSE [S EXCEPT !.key[id] = k, !.oc[id] = NoOc]
           L1 == P.lks[id]
           S2 == IF k = <<>> \/ ~L1.on \/ None(L1.tol) THEN S1
                 ELSE LET val == IF k \in DOMAIN S1.cache THEN S1.cache[k].v ELSE U
                          tol == Ev(P, S1, L1.tol)
                          o == S1.oc[id]
                      IN CASE ~Known(tol) -> [S1 EXCEPT !.oc[id] = NoOc]
                           [] o.has /\ Exceeds(o.base, val, tol) -> [S1 EXCEPT !.oc[id].base = val]
                           [] ~o.has -> [S1 EXCEPT !.oc[id] = [has |-> TRUE, base |-> val]]
                           [] OTHER -> S1
       IN SyncKeys(P, S2, L, Tail(ids))

Sync(P, S) == IF P.nl = 0 THEN S ELSE SyncKeys(P, S, ActL(P, S), P.lkorder)

(* Lookups that were registered between S0 and S without the world having   *)
(* been asked (or having told) since the start of the cycle.               *)
Stale(P, S0, S) ==
  {id \in 1..P.nl : /\ S.key[id] # <<>> /\ S.key[id] # S0.key[id]
                    /\ (S.key[id] \notin DOMAIN S.cache \/ S.cache[S.key[id]].ts < S.cyc)}

-----------------------------------------------------------------------------
(* One batch of simultaneous transitions, at time S.now *)

RECURSIVE InitVars(_, _, _)
InitVars(P, S, vs) ==        \* vs: variables coming into scope
  IF vs = {} THEN S
  ELSE LET v == CHOOSE x \in vs : \A y \in vs : x <= y
           V == P.vars[v]
           S1 == Sync(P, S)
           x == IF None(V.init)
                THEN IF V.arr /\ V.max > 0 THEN <<"a", Pad(<<>>, V.max)>> ELSE U
                ELSE Coerce(V.ty, V.max, Ev(P, S1, V.init))
       IN InitVars(P, [S EXCEPT !.vv[v] = x], vs \ {v})

(* Variables that stay in scope throughout a batch *)
Throughout(P, S, S1, t, v) ==
  \/ P.vars[v].node \notin t /\ S.st[P.vars[v].node] \in Run
  \/ P.vars[v].node \in t /\ S.st[P.vars[v].node] \in Run /\ S1.st[P.vars[v].node] \in Run
  \/ \E n \in Nodes(P) \ t : S.st[n] # "-" /\ v \in ToSet(P.nodes[n].act[S.st[n]].v)

LkThroughout(P, S, t, id) ==
  \E n \in Nodes(P) \ t : S.st[n] # "-" /\ id \in ToSet(P.nodes[n].act[S.st[n]].l)

NewTp(S, n, old, new) ==
  IF new = "INACTIVE"
  THEN [s \in States |-> CASE s = old -> <<U, S.now>>
                           [] s = new -> <<S.now, U>>
                           [] OTHER -> <<U, U>>]
  ELSE [S.tp[n] EXCEPT ![old] = <<@[1], S.now>>, ![new] = <<S.now, @[2]>>]

(* The values an expression may have had when node n started executing:     *)
(* other nodes of the batch may or may not have moved before it             *)
AtStart(P, S0, S1, n, e) ==
  LET mix == [S1 EXCEPT !.st = [S0.st EXCEPT ![n] = S1.st[n]],
                        !.out = [S0.out EXCEPT ![n] = S1.out[n]],
                        !.fl = [S0.fl EXCEPT ![n] = S1.fl[n]],
                        !.tp = [S0.tp EXCEPT ![n] = S1.tp[n]],
                        !.hdl = [S0.hdl EXCEPT ![n] = S1.hdl[n]]]
      old == [S1 EXCEPT !.cache = Merge(S0.cache, S1.cache)]
      mixold == [mix EXCEPT !.cache = old.cache]
  IN {Ev(P, S1, e), Ev(P, mix, e), Ev(P, old, e), Ev(P, mixold, e)}

AllAtStart(P, S0, S1, n, es) == [i \in DOMAIN es |-> AtStart(P, S0, S1, n, es[i])]

Or(x, d) == IF Known(x) THEN x ELSE d

RECURSIVE Begin(_, _, _, _)
Begin(P, S0, S, ns) ==       \* carry out the start of the nodes ns
  IF ns = {} THEN S
  ELSE
  LET n == CHOOSE x \in ns : TRUE
      N == P.nodes[n]
      S1 ==
        CASE N.ty = "A" ->
               [S EXCEPT !.ak[n] = FALSE,
                         !.ix[n] = IF N.elt THEN Ev(P, S, N.idx) ELSE U,
                         !.pend = Append(@, [n |-> n, v |-> N.var,
                                             xs |-> AtStart(P, S0, S, n, N.rhs)])]
          [] N.ty = "C" ->
               [S EXCEPT !.ak[n] = FALSE, !.act[n] = TRUE, !.hdl[n] = "",
                         !.cmds = Append(@, [n |-> n, nm |-> AtStart(P, S0, S, n, N.name),
                                             as |-> AllAtStart(P, S0, S, n, N.args),
                                             bad |-> \E i \in DOMAIN N.rs :
                                                       \E e \in {N.rs[i].n, N.rs[i].p, N.rs[i].b, N.rs[i].k} : ~Known(Ev(P, S, e)),
                                             rq |-> [i \in DOMAIN N.rs |->
                                                       [r |-> Or(Ev(P, S, N.rs[i].n), <<"s", "">>)[2],
                                                        p |-> Or(Ev(P, S, N.rs[i].p), <<"i", 0>>)[2],
                                                        b |-> Num(Or(Ev(P, S, N.rs[i].b), <<"r", 0>>)),
                                                        k |-> Ev(P, S, N.rs[i].k) = T]]])]
          [] N.ty = "U" ->
               [S EXCEPT !.ak[n] = FALSE,
                         !.upds = Append(@, [n |-> n, ps |-> [i \in DOMAIN N.pairs |->
                                   [k |-> N.pairs[i].k, x |-> AtStart(P, S0, S, n, N.pairs[i].x)]]])]
          [] OTHER -> S
  IN Begin(P, S0, S1, ns \ {n})


(* What a command gives back when its execution ends *)
RECURSIVE GiveBack(_, _)
GiveBack(alloc, rs) ==
  IF rs = <<>> THEN alloc
  ELSE GiveBack(IF Head(rs).k THEN [alloc EXCEPT ![Head(rs).r] = @ - Head(rs).w] ELSE alloc, Tail(rs))
RECURSIVE GiveBackAll(_, _, _)
GiveBackAll(S, alloc, ns) ==
  IF ns = {} THEN alloc
  ELSE LET n == CHOOSE x \in ns : TRUE
       IN GiveBackAll(S, GiveBack(alloc, S.held[n]), ns \ {n})

(* The node states, outcomes, flags after the batch t *)
MoveNodes(P, S, t) ==
  LET D == TLCEval([n \in t |-> Dest(P, S, n)])
      failing == {n \in t : D[n].st = "FAILING"}
      ends == {n \in t : Ty(P, n) = "C" /\ S.act[n] /\ D[n].st \in {"ITERATION_ENDED", "FINISHED"}}
      resets == {n \in t : D[n].st = "INACTIVE" \/ (D[n].st = "WAITING" /\ S.st[n] = "ITERATION_ENDED")}
  IN [S EXCEPT
       !.st = [n \in Nodes(P) |-> IF n \in t THEN D[n].st ELSE @[n]],
       !.out = [n \in Nodes(P) |-> CASE n \notin t -> @[n]
                                     [] n \in resets -> ""
                                     [] D[n].out # "" -> D[n].out
                                     [] OTHER -> @[n]],
       !.fl = [n \in Nodes(P) |-> CASE n \notin t -> @[n]
                                    [] n \in resets -> ""
                                    [] D[n].fl # "" -> D[n].fl
                                    [] OTHER -> @[n]],
       !.hdl = [n \in Nodes(P) |-> IF n \in resets THEN "" ELSE @[n]],
       !.tp = [n \in Nodes(P) |-> IF n \in t THEN NewTp(S, n, S.st[n], D[n].st) ELSE @[n]],
       !.ss = [n \in Nodes(P) |-> IF n \in t THEN S.now ELSE @[n]],
       !.ak = [n \in Nodes(P) |-> IF n \in failing /\ Ty(P, n) \in {"A", "C"} THEN FALSE ELSE @[n]],
       !.act = [n \in Nodes(P) |-> @[n] /\ n \notin ends],
       !.alloc = GiveBackAll(S, @, ends),
       !.held = [n \in Nodes(P) |-> IF n \in ends THEN <<>> ELSE @[n]],
       !.retr = @ \cup {n \in failing : Ty(P, n) = "A"},
       !.abts = @ \cup {n \in failing : Ty(P, n) = "C"}]

(* All the states the batch t may lead to, the world having answered lk *)
Move(P, S, t, lk) ==
  LET S1 == TLCEval([MoveNodes(P, S, t) EXCEPT !.cache = Learn(@, lk, S.cyc)])
      V0 == ActV(P, S)
      V1 == ActV(P, S1)
      L0 == ActL(P, S)
      L1 == ActL(P, S1)
      ambV == {v \in V0 \cap V1 : ~Throughout(P, S, S1, t, v)}
      ambL == {id \in L0 \cap L1 : S.oc[id].has /\ ~LkThroughout(P, S, t, id)}
      starts == {n \in t : S1.st[n] = "EXECUTING"}
      Out(av, al) ==
        LET S2 == [S1 EXCEPT !.vv = [v \in DOMAIN @ |-> IF v \in V1 THEN @[v] ELSE U],
                             !.key = [id \in DOMAIN @ |-> IF id \in al THEN <<>> ELSE @[id]],
                             !.oc = [id \in DOMAIN @ |-> IF id \in al THEN NoOc ELSE @[id]]]
            S3 == Sync(P, InitVars(P, S2, (V1 \ V0) \cup av))
        IN Begin(P, S, S3, starts)
  IN {TLCEval(Out(av, al)) : av \in SUBSET ambV, al \in SUBSET ambL}

-----------------------------------------------------------------------------
(* Errors of the plan, which the executive reports: an assignment that      *)
(* starts reads or writes outside of an array, a command that starts has no *)
(* known name or resource, a node asks for a mutex one of its ancestors     *)
(* holds                                                                    *)

BadStart(P, S1) ==
  \/ \E i \in DOMAIN S1.pend :
       LET q == S1.pend[i]
           ix == S1.ix[q.n]
           a == S1.vv[q.v]
       IN \/ Err \in q.xs
          \/ P.nodes[q.n].elt /\ Known(ix) /\ (ix[2] < 0 \/ (Known(a) /\ ix[2] >= Len(a[2])))
  \/ \E i \in DOMAIN S1.cmds : U \in S1.cmds[i].nm \/ S1.cmds[i].bad

Recursive(P, S) == \E n \in Enabled(P, S) :
  Contends(P, S, n) /\ \E a \in Ancestors(P, n) : Needs(P, n) \cap Needs(P, a) # {}

-----------------------------------------------------------------------------
(* The end of a step: assignments, commands, aborts, updates *)

Bad(S, why) == IF S.err = <<>> THEN [S EXCEPT !.err = <<why>>] ELSE S

(* Store x in the variable v, or in its element at index ix *)
Store(P, S, v, elt, ix, x) ==
  LET V == P.vars[v]
      a == S.vv[v]
  IN IF ~elt THEN [S EXCEPT !.vv[v] = Coerce(V.ty, V.max, x)]
     ELSE IF ~Known(ix) \/ ~Known(a) THEN S
     ELSE IF ix[2] < 0 \/ ix[2] >= Len(a[2]) THEN Bad(S, "C17:index out of range accepted")
     ELSE [S EXCEPT !.vv[v] = <<"a", [a[2] EXCEPT ![ix[2] + 1] = Coerce(V.ty, 0, x)]>>]

Fetch(S, v, elt, ix) ==
  LET a == S.vv[v] IN
  IF ~elt THEN a
  ELSE IF ~Known(ix) \/ ~Known(a) \/ ix[2] < 0 \/ ix[2] >= Len(a[2]) THEN U
  ELSE a[2][ix[2] + 1]

(* as: the assignments reported, in order *)
RECURSIVE CarryOut(_, _, _)
CarryOut(P, S, as) ==
  IF as = <<>> THEN
    IF S.pend # <<>> THEN Bad(S, "C05:assignment not carried out")
    ELSE IF S.retr # {} THEN Bad(S, "C06:assignment not undone") ELSE S
  ELSE
  LET a == Head(as)
      ps == {i \in DOMAIN S.pend : S.pend[i].v = a.v}
      rs == {n \in S.retr : P.nodes[n].var = a.v}
  IN IF ps # {} THEN
       LET i == CHOOSE x \in ps : TRUE
           n == S.pend[i].n
           N == P.nodes[n]
           ok == a.x \in S.pend[i].xs
           S1 == [S EXCEPT !.sv[n] = Fetch(S, a.v, N.elt, S.ix[n]), !.ak[n] = TRUE,
                           !.pend = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
           S2 == Sync(P, Store(P, S1, a.v, N.elt, S.ix[n], a.x))
       IN CarryOut(P, IF ok THEN S2 ELSE Bad(S2, "C05:wrong value assigned"), Tail(as))
     ELSE IF rs # {} THEN
       LET n == CHOOSE x \in rs : TRUE
           N == P.nodes[n]
           S1 == [S EXCEPT !.ak[n] = TRUE, !.retr = @ \ {n}]
           S2 == Sync(P, Store(P, S1, a.v, N.elt, S.ix[n], S.sv[n]))
       IN CarryOut(P, IF a.x = S.sv[n] THEN S2 ELSE Bad(S2, "C06:wrong value restored"), Tail(as))
     ELSE Bad(S, "C05:assignment not called for")

-----------------------------------------------------------------------------
(* Resources *)

(* A request with all the resources the hierarchy attaches to it: a         *)
(* resource asked for by name counts with the amount asked, others with     *)
(* their weight in the hierarchy, the first one met                         *)
RECURSIVE Below(_, _, _)
Below(P, r, k) ==            \* descendants of r, in order
  IF r \notin DOMAIN P.hier THEN <<>>
  ELSE LET RECURSIVE Go(_)
           Go(cs) == IF cs = <<>> THEN <<>>
                     ELSE <<[r |-> Head(cs).r, w |-> Head(cs).w, k |-> k]>>
                          \o Below(P, Head(cs).r, k) \o Go(Tail(cs))
       IN Go(P.hier[r].kids)

RECURSIVE AddReq(_, _)
AddReq(acc, fl) ==
  IF fl = <<>> THEN acc
  ELSE AddReq(IF \E i \in DOMAIN acc : acc[i].r = Head(fl).r THEN acc
              ELSE Append(acc, Head(fl)), Tail(fl))
RECURSIVE Flatten(_, _, _)
Flatten(P, acc, rq) ==
  IF rq = <<>> THEN acc
  ELSE LET q == Head(rq)
           one == [r |-> q.r, w |-> q.b, k |-> q.k]
           acc1 == IF \E i \in DOMAIN acc : acc[i].r = q.r
                   THEN [i \in DOMAIN acc |-> IF acc[i].r = q.r THEN one ELSE acc[i]]
                   ELSE Append(acc, one)
       IN Flatten(P, AddReq(acc1, Below(P, q.r, q.k)), Tail(rq))

MaxOf(P, r) == IF r \in DOMAIN P.hier THEN P.hier[r].max ELSE Scale

(* ren, con: use by what gives and what takes, counted apart so that the    *)
(* limits hold whichever comes first                                        *)
Fits(P, ren, con, rs) ==
  \A i \in DOMAIN rs :
    LET r == rs[i].r
        x == IF rs[i].w < 0 THEN ren[r] + rs[i].w ELSE ren[r]
        y == IF rs[i].w < 0 THEN con[r] ELSE con[r] + rs[i].w
    IN x >= 0 /\ x <= MaxOf(P, r) /\ y >= 0 /\ y <= MaxOf(P, r)

RECURSIVE Take(_, _, _)
Take(f, rs, sign) ==         \* sign: "-" only negative amounts, "+" the others, "" all
  IF rs = <<>> THEN f
  ELSE LET x == Head(rs)
           use == sign = "" \/ (sign = "-" /\ x.w < 0) \/ (sign = "+" /\ x.w >= 0)
       IN Take(IF use THEN [f EXCEPT ![x.r] = @ + x.w] ELSE f, Tail(rs), sign)

(* The sets of commands that may be accepted: best priority first, ties in  *)
(* any order.  q: set of [n, p, rs]                                         *)
RECURSIVE Accepts(_, _, _, _)
Accepts(P, ren, con, q) ==
  IF q = {} THEN {{}}
  ELSE LET best == {x \in q : \A y \in q : x.p <= y.p}
       IN UNION {IF Fits(P, ren, con, x.rs)
                 THEN {{x.n} \cup a : a \in Accepts(P, Take(ren, x.rs, "-"), Take(con, x.rs, "+"), q \ {x})}
                 ELSE Accepts(P, ren, con, q \ {x}) : x \in best}

Requests(P, S) ==
  {[n |-> S.cmds[i].n, p |-> S.cmds[i].rq[1].p, rs |-> Flatten(P, <<>>, S.cmds[i].rq)]
     : i \in {j \in DOMAIN S.cmds : S.cmds[j].rq # <<>>}}

(* resources not heard of before are not in use *)
Widen(al, q) ==
  LET rs == UNION {{x.rs[i].r : i \in DOMAIN x.rs} : x \in q}
  IN [r \in DOMAIN al \cup rs |-> IF r \in DOMAIN al THEN al[r] ELSE 0]

Unlimited(S) == {S.cmds[i].n : i \in {j \in DOMAIN S.cmds : S.cmds[j].rq = <<>>}}

(* The commands of acc are sent, the other ones denied *)
Send(P, S, acc) ==
  LET q == Requests(P, S)
      all == {S.cmds[i].n : i \in DOMAIN S.cmds}
      rsOf(n) == (CHOOSE x \in q : x.n = n).rs
      RECURSIVE Alloc(_, _)
      Alloc(al, ns) == IF ns = {} THEN al
                       ELSE LET n == CHOOSE x \in ns : TRUE
                            IN Alloc(Take(al, rsOf(n), ""), ns \ {n})
      got == acc \cap {x.n : x \in q}
  IN Sync(P, [S EXCEPT !.alloc = Alloc(Widen(@, q), got),
               !.held = [n \in Nodes(P) |-> IF n \in got THEN rsOf(n) ELSE @[n]],
               !.hdl = [n \in Nodes(P) |-> IF n \in all \ acc THEN "COMMAND_DENIED" ELSE @[n]],
               !.cmds = <<>>])

AcceptSets(P, S) ==
  LET q == Requests(P, S)
      al == Widen(S.alloc, q)
  IN {Unlimited(S) \cup a : a \in Accepts(P, al, al, q)}

(* cm: commands sent; ab: aborts sent; up: updates sent *)
SendCommands(P, S, cm) ==
  LET sent == {cm[i].n : i \in DOMAIN cm}
      one(n) == CHOOSE i \in DOMAIN S.cmds : S.cmds[i].n = n
  IN IF Cardinality(sent) # Len(cm) THEN Bad(S, "C10:command sent twice")
     ELSE IF ~(sent \subseteq {S.cmds[i].n : i \in DOMAIN S.cmds}) THEN Bad(S, "C10:command not called for")
     ELSE IF \E i \in DOMAIN cm :
               LET c == S.cmds[one(cm[i].n)] IN
               \/ <<"s", cm[i].nm>> \notin c.nm
               \/ Len(cm[i].a) # Len(c.as)
               \/ \E j \in DOMAIN c.as : cm[i].a[j] \notin c.as[j]
          THEN Bad(S, "C10:command sent with a wrong name or argument")
     ELSE IF sent \notin AcceptSets(P, S)
          THEN Bad(S, IF Unlimited(S) \subseteq sent THEN "C12:wrong commands granted resources"
                      ELSE "C10:command not sent")
     ELSE Send(P, S, sent)

SendAborts(P, S, ab) ==
  IF Cardinality(ToSet(ab)) # Len(ab) \/ ~(ToSet(ab) \subseteq S.abts) THEN Bad(S, "C11:abort not called for")
  ELSE IF ToSet(ab) # S.abts THEN Bad(S, "C11:abort not sent")
  ELSE [S EXCEPT !.abts = {}]

SendUpdates(P, S, up) ==
  LET ns == {up[i].n : i \in DOMAIN up} IN
  IF Cardinality(ns) # Len(up) \/ ~(ns \subseteq {S.upds[i].n : i \in DOMAIN S.upds})
  THEN Bad(S, "C13:update not called for")
  ELSE IF Len(up) # Len(S.upds) THEN Bad(S, "C13:update not sent")
  ELSE IF \E i \in DOMAIN up :
            LET c == S.upds[CHOOSE j \in DOMAIN S.upds : S.upds[j].n = up[i].n] IN
            \/ Len(up[i].p) # Len(c.ps)
            \/ \E j \in DOMAIN c.ps :
                 ~\E m \in DOMAIN up[i].p : up[i].p[m].k = c.ps[j].k /\ up[i].p[m].v \in c.ps[j].x
       THEN Bad(S, "C13:update with wrong contents")
  ELSE [S EXCEPT !.upds = <<>>]

(* Everything at the end of a step, against what was seen *)
Finish(P, S, r) ==
  LET S1 == TLCEval([S EXCEPT !.cache = Learn(@, r.lk, S.cyc + 1), !.cyc = @ + 1])
      S2 == TLCEval(CarryOut(P, Sync(P, S1), r.as))
      S3 == TLCEval(SendCommands(P, S2, r.cm))
      S4 == SendAborts(P, S3, r.ab)
      S5 == TLCEval(SendUpdates(P, S4, r.up))
  IN IF S2.err # <<>> THEN S2 ELSE IF S3.err # <<>> THEN S3 ELSE IF S4.err # <<>> THEN S4
     ELSE [S5 EXCEPT !.ph = "idle"]

-----------------------------------------------------------------------------
(* Inputs from outside *)

Input(P, S, ev) ==
  CASE ev.k = "plan" ->
         LET sub == ToSet(P.nodes[ev.n].sub) IN
         [S EXCEPT !.st = [n \in Nodes(P) |-> IF n \in sub THEN "INACTIVE" ELSE @[n]],
                   !.ran = TRUE]
    [] ev.k = "pub" ->
         Sync(P, [S EXCEPT !.cache = Merge(ev.s :> [v |-> ev.v, ts |-> S.cyc], @)])
    [] ev.k = "ack" ->
         IF S.act[ev.n] THEN Sync(P, [S EXCEPT !.hdl[ev.n] = ev.v]) ELSE S
    [] ev.k = "ret" ->
         IF ~S.act[ev.n] \/ None(P.nodes[ev.n].dst) THEN S
         ELSE LET d == P.nodes[ev.n].dst
              IN Sync(P, IF d[1] = "v" THEN Store(P, S, d[2], FALSE, U, ev.v)
                         ELSE Store(P, S, d[2][2], TRUE, Ev(P, S, d[3]), ev.v))
    [] ev.k = "aack" ->
         IF S.act[ev.n] /\ S.st[ev.n] = "FAILING" THEN [S EXCEPT !.ak[ev.n] = ev.v] ELSE S
    [] ev.k = "uack" ->
         IF S.st[ev.n] \in Run THEN [S EXCEPT !.ak[ev.n] = ev.v] ELSE S

RECURSIVE Inputs(_, _, _)
Inputs(P, S, evs) == IF evs = <<>> THEN S ELSE Inputs(P, Input(P, S, Head(evs)), Tail(evs))

(* Time passes to t and a step begins *)
Tick(P, S, t) ==
  Sync(P, [S EXCEPT !.cache = Merge(<<"time">> :> [v |-> t, ts |-> S.cyc], @),
                    !.now = t, !.ph = "step"])

(* Finished plans go *)
Roots(P) == {n \in Nodes(P) : Par(P, n) = 0}
Drop(P, S) ==
  LET gone == UNION {ToSet(P.nodes[n].sub) : n \in {r \in Roots(P) : S.st[r] = "FINISHED"}}
  IN [S EXCEPT !.st = [n \in Nodes(P) |-> IF n \in gone THEN "-" ELSE @[n]],
               !.out = [n \in Nodes(P) |-> IF n \in gone THEN "" ELSE @[n]],
               !.fl = [n \in Nodes(P) |-> IF n \in gone THEN "" ELSE @[n]],
               !.hdl = [n \in Nodes(P) |-> IF n \in gone THEN "" ELSE @[n]]]
LiveRoots(P, S) == {r \in Roots(P) : S.st[r] # "-"}
AllFinished(P, S) == S.ran /\ LiveRoots(P, S) = {}

Init0(P) ==
  [st |-> [n \in Nodes(P) |-> "-"], out |-> [n \in Nodes(P) |-> ""],
   fl |-> [n \in Nodes(P) |-> ""], hdl |-> [n \in Nodes(P) |-> ""],
   tp |-> [n \in Nodes(P) |-> [s \in States |-> <<U, U>>]],
   ss |-> [n \in Nodes(P) |-> U],
   vv |-> [v \in 1..P.nv |-> U], sv |-> [n \in Nodes(P) |-> U], ix |-> [n \in Nodes(P) |-> U],
   ak |-> [n \in Nodes(P) |-> FALSE], act |-> [n \in Nodes(P) |-> FALSE],
   pend |-> <<>>, retr |-> {}, cmds |-> <<>>, abts |-> {}, upds |-> <<>>,
   cache |-> [k \in {} |-> U], key |-> [l \in 1..P.nl |-> <<>>], oc |-> [l \in 1..P.nl |-> NoOc],
   alloc |-> [r \in ToSet(P.rnames) |-> 0], held |-> [n \in Nodes(P) |-> <<>>],
   cyc |-> 1, now |-> U, ph |-> "idle", ran |-> FALSE, err |-> <<>>]

(* The thresholds the external system must know for the state k: <<>> when  *)
(* none, <<lo, hi>> otherwise.  free: it may be told anything               *)
Thresholds(P, S) ==
  LET ids == {id \in ActL(P, S) : P.lks[id].on /\ ~None(P.lks[id].tol) /\ S.key[id] # <<>>}
      keys == {S.key[id] : id \in ids}
      of(k) == {id \in ids : S.key[id] = k}
      base(id) == S.oc[id].base
      \* an integer moves by whole units
      tol(id) == LET t == Abs(Num(Ev(P, S, P.lks[id].tol)))
                 IN IF base(id)[1] = "i" THEN ((t + 15) \div 16) * 16 ELSE t
      known(k) == {id \in of(k) : S.oc[id].has /\ IsNum(base(id))}
  IN [k \in keys |->
        IF known(k) = {} \/ known(k) # of(k) THEN <<>>
        ELSE <<CHOOSE x \in {Num(base(id)) - tol(id) : id \in known(k)} :
                 \A id \in known(k) : x >= Num(base(id)) - tol(id),
               CHOOSE x \in {Num(base(id)) + tol(id) : id \in known(k)} :
                 \A id \in known(k) : x <= Num(base(id)) + tol(id)>>]
=============================================================================
