----------------------------- MODULE PlexilTrace -----------------------------
(***************************************************************************)
(* Trace validation: is what the real executive did (the log of a scenario *)
(* run through /verif/harness/driver) a behaviour of Plexil?  Each log is  *)
(* one initial state; each record of it is one action.                     *)
(***************************************************************************)
EXTENDS PlexilProps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, S, hub
vars == <<tid, l, S, hub>>

P == Traces[tid].plan
Log == Traces[tid].log
Rec == Log[l]

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ S = Init0(Traces[tid].plan)
        /\ hub = <<>>

Fail(why) == /\ PrintT(<<"REJECT", tid, l, why>>)
             /\ S' = Bad(S, why)
             /\ UNCHANGED <<tid, l, hub>>

Goto(S1, h) == IF S1.err # <<>> THEN Fail(S1.err[1])
               ELSE IF Broken(P, S1) # {} THEN Fail(<<"PROPERTY", Broken(P, S1)>>)
               ELSE S' = S1 /\ l' = l + 1 /\ hub' = h /\ UNCHANGED tid

FreshOK(S0, S1) == Stale(P, S0, S1) = {}

Ext == /\ Rec.e = "ext"
       /\ LET S0 == [S EXCEPT !.cache = Learn(@, Rec.lk, S.cyc)]
              S1 == Inputs(P, S0, Rec.ev)
              plans == SelectSeq(Rec.ev, LAMBDA x : x.k = "plan")
          IN CASE S.ph # "idle" -> Fail("C21:input applied during a step")
               [] S1.err = <<>> /\ CanMove(P, S1) /\ ~Rec.need -> Fail(<<"C04:idle after input although a node can move", Enabled(P, S1)>>)
               [] S1.err = <<>> /\ ~FreshOK(S, S1) -> Fail("C14:stale value used after input")
               [] BrokenBy(InputProps(P, S, S1)) # {} -> Fail(<<"PROPERTY", BrokenBy(InputProps(P, S, S1))>>)
               [] OTHER -> Goto(S1, hub \o [i \in DOMAIN plans |-> <<"p">>])

Lib == Rec.e = "lib" /\ Goto(S, Append(hub, <<"l">>))

(* What the world was asked because time passed, to know the lookups whose   *)
(* state depends on it (these answers are logged with the next record)      *)
RECURSIVE CatchUp(_, _, _)
CatchUp(S0, S1, lk) ==
  LET ks == {S1.key[id] : id \in Stale(P, S0, S1)}
      ans == SelectSeq(lk, LAMBDA x : x.k \in ks)
  IN IF ans = <<>> THEN S1
     ELSE CatchUp(S0, Sync(P, [S1 EXCEPT !.cache = Learn(@, ans, S.cyc)]), lk)

Step == /\ Rec.e = "step"
        /\ IF S.ph # "idle" THEN Fail("C04:step within a step")
           ELSE LET S0 == [S EXCEPT !.cache = Learn(@, Rec.lk, S.cyc)]
                    S1 == CatchUp(S0, Tick(P, S0, Rec.t),
                                  IF l < Len(Log) /\ "lk" \in DOMAIN Log[l + 1] THEN Log[l + 1].lk ELSE <<>>)
                IN IF ~FreshOK(S0, S1) THEN Fail(<<"C14:stale value used as time passes", Stale(P, S0, S1)>>)
                   ELSE Goto(S1, hub)

Why(t) ==      \* name the trouble with a batch
  LET en == Enabled(P, S)
      con == {n \in en : Contends(P, S, n)}
      lost == (en \ con) \ t
  IN CASE Busy(S) -> <<"C04:transition in a step that was over", t>>
       [] ~(t \subseteq en) -> <<"C01:transition not enabled", t \ en>>
       [] lost # {} -> <<"C04:enabled transition lost", lost>>
       [] \E n \in t \cap con : Needs(P, n) \cap Held(P, S) # {} -> <<"C08:granted although held", t \cap con>>
       [] \E n, m \in t \cap con : n # m /\ Needs(P, n) \cap Needs(P, m) # {} ->
            <<"C08:granted to two nodes", t \cap con>>
       [] OTHER -> <<"C08:wrong nodes granted", t \cap con, con>>

Batch == /\ Rec.e = "b"
         /\ LET tr == Rec.tr
                t == {tr[i][1] : i \in DOMAIN tr}
            IN CASE S.ph # "step" -> Fail("C04:transition outside a step")
                 [] Cardinality(t) # Len(tr) -> Fail("C04:node moves twice in a batch")
                 [] \E i \in DOMAIN tr : S.st[tr[i][1]] # tr[i][2] -> Fail("C24:wrong old state")
                 [] Busy(S) \/ ~BatchOK(P, S, t) -> Fail(Why(t))
                 [] \E i \in DOMAIN tr : Dest(P, S, tr[i][1]).st # tr[i][3] ->
                      Fail(<<"C01:wrong next state", {tr[i] : i \in {j \in DOMAIN tr :
                               Dest(P, S, tr[j][1]).st # tr[j][3]}}>>)
                 [] OTHER ->
                      \E S1 \in Move(P, S, t, Rec.lk) :
                        IF ~FreshOK(S, S1) THEN Fail(<<"C14:stale value used", Stale(P, S, S1)>>)
                        ELSE IF BrokenBy(BatchProps(P, S, S1)) # {} THEN Fail(<<"PROPERTY", BrokenBy(BatchProps(P, S, S1))>>)
                        ELSE Goto(S1, hub \o [i \in DOMAIN tr |-> <<"t", tr[i][1], tr[i][2], tr[i][3]>>])

Diff(f, g) == {i \in DOMAIN f : f[i] # g[i]}

ShowHdl(S1) == [n \in Nodes(P) |-> IF S1.st[n] = "-" THEN "-" ELSE S1.hdl[n]]
ShowOut(S1) == [n \in Nodes(P) |-> IF S1.st[n] = "-" THEN "-" ELSE S1.out[n]]
ShowFl(S1) == [n \in Nodes(P) |-> IF S1.st[n] = "-" THEN "-" ELSE S1.fl[n]]
ShowSs(S1) == [n \in Nodes(P) |-> IF S1.st[n] \in {"-", "INACTIVE"} THEN U ELSE S1.ss[n]]

ThrOK(S1) ==
  LET want == Thresholds(P, S1)
      told == {Rec.th[i].k : i \in DOMAIN Rec.th}
      rec(k) == Rec.th[CHOOSE i \in DOMAIN Rec.th : Rec.th[i].k = k]
  IN /\ told \subseteq DOMAIN want
     /\ \A k \in DOMAIN want :
          want[k] # <<>> => k \in told /\ Num(rec(k).lo) = want[k][1] /\ Num(rec(k).hi) = want[k][2]

End == /\ Rec.e = "end"
       /\ LET S1 == Finish(P, S, Rec)
          IN CASE S.ph # "step" -> Fail("C04:end outside a step")
               [] ~Busy(S) /\ CanMove(P, S) -> Fail(<<"C04:step ends although a node can move", Enabled(P, S)>>)
               [] S1.err # <<>> -> Fail(S1.err[1])
               [] Diff(S1.st, Rec.st) # {} -> Fail(<<"C24:state not as reported", Diff(S1.st, Rec.st)>>)
               [] Diff(ShowOut(S1), Rec.out) # {} -> Fail(<<"C02:wrong outcome", Diff(ShowOut(S1), Rec.out)>>)
               [] Diff(ShowFl(S1), Rec.fl) # {} -> Fail(<<"C02:wrong failure type", Diff(ShowFl(S1), Rec.fl)>>)
               [] Diff(ShowHdl(S1), Rec.h) # {} -> Fail(<<"C18:wrong command handle", Diff(ShowHdl(S1), Rec.h)>>)
               [] Diff(ShowSs(S1), Rec.ss) # {} -> Fail(<<"C18:wrong state start time", Diff(ShowSs(S1), Rec.ss)>>)
               [] Diff(S1.vv, Rec.vl) # {} -> Fail(<<"C05:wrong variable value", {<<i, S1.vv[i]>> : i \in Diff(S1.vv, Rec.vl)}>>)
               [] ~FreshOK([S EXCEPT !.cyc = @ + 1], S1) -> Fail("C14:stale value used after assignment")
               [] BrokenBy(EndProps(P, S, S1)) # {} -> Fail(<<"PROPERTY", BrokenBy(EndProps(P, S, S1))>>)
               [] ~ThrOK(S1) -> Fail(<<"C15:wrong thresholds", Thresholds(P, S1)>>)
               [] Rec.hn # Len(hub) + Len(Rec.as) -> Fail("C24:listeners not told all by the end of the step")
               [] OTHER -> Goto(S1, hub \o [i \in DOMAIN Rec.as |-> <<"a", Rec.as[i].v, Rec.as[i].nm, Rec.as[i].x>>])

Ret == /\ Rec.e = "ret"
       /\ LET S1 == Drop(P, S)
          IN CASE S.ph # "idle" -> Fail("C04:step never ended")
               [] CanMove(P, S) /\ ~Rec.need -> Fail(<<"C04:idle although a node can move", Enabled(P, S)>>)
               [] Rec.live # Cardinality(LiveRoots(P, S1)) -> Fail("C23:wrong set of plans")
               [] Rec.apf # AllFinished(P, S1) -> Fail("C23:wrong report of all plans finished")
               [] OTHER -> Goto(S1, hub)

Hub == /\ Rec.e = "hub"
       /\ IF Rec.h = hub THEN Goto(S, hub) ELSE Fail("C24:listener told something else")

(* What a listener hears through its filter f: "all" (no filter), "none"     *)
(* (a filter that says nothing), the states it names, or all but those      *)
AllStates == {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED", "FAILING", "FINISHING"}
Named(f) == {f.s[i] : i \in DOMAIN f.s}
Selected(f) == CASE f.k = "only" -> Named(f)
                 [] f.k = "but" -> AllStates \ Named(f)
                 [] OTHER -> AllStates
Hears(f, ev) == ev[1] = "t" => {ev[3], ev[4]} \cap Selected(f) # {}

Heard == /\ Rec.e = "heard"
         /\ LET f == P.ears[Rec.i]
            IN IF Rec.h = SelectSeq(hub, LAMBDA ev : Hears(f, ev)) THEN Goto(S, hub)
               ELSE Fail("C24:filtered listener told something else")

(* The plan keeps moving for ever within one step *)
Runaway == /\ Rec.e = "runaway"
           /\ IF S.ph = "step" /\ ~Busy(S) /\ CanMove(P, S) THEN Goto(S, hub)
              ELSE Fail("C04:step does not end")

(* The executive reports a plan error: rightly so? *)
PlanError == /\ Rec.e = "planerror"
             /\ IF /\ S.ph = "step" /\ ~Busy(S)
                   /\ Recursive(P, S) \/ \E t \in Batches(P, S) : \E S1 \in Move(P, S, t, <<>>) : BadStart(P, S1)
                THEN Goto(S, hub)
                ELSE Fail(<<"C17:plan error reported", Rec.w>>)

Odd1 == /\ Rec.e \notin {"ext", "lib", "step", "b", "end", "ret", "hub", "heard", "runaway", "planerror"}
        /\ Fail(<<"unexpected", Rec>>)

Next == /\ S.err = <<>>
        /\ l <= Len(Log)
        /\ (Ext \/ Lib \/ Step \/ Batch \/ End \/ Ret \/ Hub \/ Heard \/ Runaway \/ PlanError \/ Odd1)

Done == l > Len(Log) => PrintT(<<"ACCEPT", tid>>)

Spec == Init /\ [][Next]_vars
=============================================================================
