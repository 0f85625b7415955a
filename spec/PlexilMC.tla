------------------------------ MODULE PlexilMC ------------------------------
(***************************************************************************)
(* Exploration of all the behaviours of small plans: every order of the    *)
(* events of an alphabet (values published, commands acknowledged, values  *)
(* returned, aborts and updates acknowledged in time or late, plans added, *)
(* time passing) and of the steps of the executive, to a given depth.      *)
(* The properties of PlexilProps are checked in every state and on every   *)
(* batch; one schedule per (state, event) explored is printed, to be run   *)
(* on the real executive.                                                  *)
(*                                                                         *)
(* A plan: [plan: its description, ev: alphabet, w0: what the world        *)
(* answers at first, depth: how many events and steps, timed: do times     *)
(* matter, max: how many states].                                          *)
(***************************************************************************)
EXTENDS PlexilProps, Json, IOUtils

RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})

Plans == JsonDeserialize(IOEnv.PLANS)

VARIABLES pid, S, W, hist
vars == <<pid, S, W, hist>>

P == Plans[pid].plan
Evs == Plans[pid].ev

-----------------------------------------------------------------------------
(* The world answers what it is asked *)

Answer(W0, k) == IF k \in DOMAIN W0 THEN W0[k] ELSE U
Ask(W0, ks) == LET q == SetToSeq(ks) IN [i \in DOMAIN q |-> [k |-> q[i], v |-> Answer(W0, q[i])]]
StaleKeys(S0, S1) == {S1.key[id] : id \in Stale(P, S0, S1)}

RECURSIVE MoveW(_, _, _, _)
MoveW(S0, t, W0, lk) ==
  LET out == Move(P, S0, t, lk)
      ks == UNION {StaleKeys(S0, S1) : S1 \in out}
  IN IF ks = {} THEN out ELSE MoveW(S0, t, W0, lk \o Ask(W0, ks))

RECURSIVE InputW(_, _, _, _)
InputW(S0, ev, W0, lk) ==
  LET S1 == TLCEval(Input(P, [S0 EXCEPT !.cache = Learn(@, lk, S0.cyc)], ev))
      ks == StaleKeys(S0, S1)
  IN IF ks = {} THEN S1 ELSE InputW(S0, ev, W0, lk \o Ask(W0, ks))

RECURSIVE TickW(_, _, _, _)
TickW(S0, t, W0, lk) ==
  LET S1 == TLCEval(Tick(P, [S0 EXCEPT !.cache = Learn(@, lk, S0.cyc)], t))
      ks == StaleKeys(S0, S1)
  IN IF ks = {} THEN S1 ELSE TickW(S0, t, W0, lk \o Ask(W0, ks))

RECURSIVE FinishW(_, _, _)
FinishW(S0, r, W0) ==
  LET S1 == Finish(P, S0, r)
      ks == StaleKeys([S0 EXCEPT !.cyc = @ + 1], S1)
  IN IF ks = {} THEN S1 ELSE FinishW(S0, [r EXCEPT !.lk = @ \o Ask(W0, ks)], W0)

-----------------------------------------------------------------------------
(* What the end of a step may look like *)

RECURSIVE Choices(_)         \* all ways to choose one of each
Choices(q) == IF q = <<>> THEN {<<>>}
              ELSE {<<x>> \o rest : x \in Head(q), rest \in Choices(Tail(q))}
One(s) == CHOOSE x \in s : TRUE

EndRecords(S0) ==
  LET xs == Choices([i \in DOMAIN S0.pend |-> S0.pend[i].xs])
      undo == LET q == SetToSeq(S0.retr) IN [i \in DOMAIN q |-> [v |-> P.nodes[q[i]].var, x |-> S0.sv[q[i]]]]
      cmd(n) == S0.cmds[CHOOSE i \in DOMAIN S0.cmds : S0.cmds[i].n = n]
      call(n) == [n |-> n, nm |-> One(cmd(n).nm)[2], a |-> [j \in DOMAIN cmd(n).as |-> One(cmd(n).as[j])]]
      upd == [i \in DOMAIN S0.upds |->
                [n |-> S0.upds[i].n,
                 p |-> [j \in DOMAIN S0.upds[i].ps |-> [k |-> S0.upds[i].ps[j].k, v |-> One(S0.upds[i].ps[j].x)]]]]
  IN {TLCEval([as |-> [i \in DOMAIN x |-> [v |-> S0.pend[i].v, x |-> x[i]]] \o undo,
       lk |-> <<>>,
       cm |-> LET q == SetToSeq(acc) IN [i \in DOMAIN q |-> call(q[i])],
       ab |-> SetToSeq(S0.abts),
       up |-> upd]) : x \in xs, acc \in AcceptSets(P, S0)}

-----------------------------------------------------------------------------
(* A whole step of the executive *)

Check(S1, rs) ==
  IF S1.err # <<>> THEN S1
  ELSE LET b == Broken(P, S1) \cup BrokenBy(rs) IN IF b = {} THEN S1 ELSE Bad(S1, b)
Stop(S0) == [S0 EXCEPT !.stop = TRUE]

RECURSIVE RunOn(_, _, _)
RunOn(S0, W0, left) ==
  IF Busy(S0) \/ ~CanMove(P, S0) \/ S0.err # <<>> \/ S0.stop THEN {S0}
  ELSE IF left = 0 \/ Recursive(P, S0) THEN {Stop(S0)}
  ELSE UNION {UNION {IF BadStart(P, S1) THEN {Stop(S0)}
                     ELSE RunOn(Check(S1, BatchProps(P, S0, S1)), W0, left - 1)
                       : S1 \in MoveW(S0, t, W0, <<>>)} : t \in Batches(P, S0)}

EndStep(S0, W0) ==
  IF S0.err # <<>> \/ S0.stop THEN {S0}
  ELSE {LET S1 == FinishW(S0, r, W0)
            S2 == Check(S1, EndProps(P, S0, S1))
            S3 == [S2 EXCEPT !.ever.c = @ \cup {r.cm[i].n : i \in DOMAIN r.cm},
                             !.ever.a = @ \cup ToSet(r.ab),
                             !.ever.u = @ \cup {r.up[i].n : i \in DOMAIN r.up}]
            S4 == TLCEval(Drop(P, S3))
            live == {n \in Nodes(P) : S4.st[n] # "-"}
        IN IF S3.err # <<>> THEN S3
           ELSE Check([S4 EXCEPT !.ever = [c |-> @.c \cap live, a |-> @.a \cap live, u |-> @.u \cap live]], <<>>)
          : r \in EndRecords(S0)}

WholeStep(S0, W0) == UNION {EndStep(S1, W0) : S1 \in RunOn(Check(TickW(S0, W0[<<"time">>], W0, <<>>), <<>>), W0, 12)}

-----------------------------------------------------------------------------

Idle == S.err = <<>> /\ ~S.stop

World0 == Merge([k \in {Plans[pid].w0[i].k : i \in DOMAIN Plans[pid].w0} |->
                   Plans[pid].w0[CHOOSE i \in DOMAIN Plans[pid].w0 : Plans[pid].w0[i].k = k].v],
                <<"time">> :> <<"r", 0>>)

Init == /\ pid \in DOMAIN Plans
        /\ S = [stop |-> FALSE, added |-> {}, ever |-> [c |-> {}, a |-> {}, u |-> {}]] @@ Init0(P)
        /\ W = World0
        /\ hist = <<>>

Possible(e) ==
  CASE e.k \in {"ack", "ret"} -> e.n \in S.ever.c
    [] e.k = "aack" -> e.n \in S.ever.a
    [] e.k = "uack" -> e.n \in S.ever.u
    [] e.k = "plan" -> e.n \notin S.added
    [] e.k \in {"pub", "env"} -> S.added # {}
    [] e.k = "time" -> S.added # {} /\ W[<<"time">>][2] < e.v[2]
    [] OTHER -> FALSE

Log(i) == /\ hist' = Append(hist, i)
          /\ PrintT(<<"SCHED", pid, hist'>>)

Event(i) ==
  LET e == Evs[i] IN
  /\ Possible(e)
  /\ CASE e.k \in {"env", "time"} -> W' = Merge((IF e.k = "time" THEN <<"time">> ELSE e.s) :> e.v, W) /\ S' = S
       [] e.k = "pub" -> /\ W' = Merge(e.s :> e.v, W)
                         /\ S' = LET S1 == InputW(S, e, W', <<>>) IN Check(S1, InputProps(P, S, S1))
       [] OTHER -> /\ W' = W
                   /\ S' = LET S1 == InputW(S, e, W, <<>>)
                               S2 == IF e.k = "plan" THEN [S1 EXCEPT !.added = @ \cup {e.n}] ELSE S1
                           IN Check(S2, InputProps(P, S, S2))
  /\ Log(i)

Step == /\ CanMove(P, S)
        /\ S' \in WholeStep(S, W)
        /\ W' = W
        /\ Log(0)

(* Nothing can move, but the executive is made to step all the same, which  *)
(* shows lookups that depend on the time                                    *)
Poll == /\ ~CanMove(P, S) /\ S.added # {} /\ Plans[pid].timed
        /\ S' \in WholeStep(S, W)
        /\ W' = W
        /\ Log(0)

Next == /\ Idle
        /\ Len(hist) < Plans[pid].depth
        /\ UNCHANGED pid
        /\ (Step \/ Poll \/ \E i \in DOMAIN Evs : Event(i))

Spec == Init /\ [][Next]_vars

(* The same up to when things were learned, and times if they do not matter *)
View == <<pid, W,
          [S EXCEPT !.cyc = 0, !.ran = FALSE,
                    !.cache = [k \in DOMAIN @ |-> [v |-> @[k].v, ts |-> @[k].ts = S.cyc]],
                    !.now = IF Plans[pid].timed THEN @ ELSE U,
                    !.ss = IF Plans[pid].timed THEN @ ELSE <<>>,
                    !.tp = IF Plans[pid].timed THEN @ ELSE <<>>]>>

Within == TLCGet("distinct") < Plans[pid].max
Sound == S.err = <<>>
=============================================================================
