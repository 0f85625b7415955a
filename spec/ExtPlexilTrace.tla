--------------------------- MODULE ExtPlexilTrace ---------------------------
(* Is what the real compiler, stylesheets and executive made of a program    *)
(* what the program says?                                                    *)
EXTENDS ExtPlexil, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, S
vars == <<tid, l, S>>

P == Traces[tid].plan.st
Log == Traces[tid].log

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ S = Settle(Traces[tid].plan.st,
                      Start(Traces[tid].plan.st,
                            [x \in {Traces[tid].plan.lk[i][1] : i \in DOMAIN Traces[tid].plan.lk} |->
                               Traces[tid].plan.lk[CHOOSE i \in DOMAIN Traces[tid].plan.lk :
                                                     Traces[tid].plan.lk[i][1] = x][2]]))

\* <<acceptable, the state after it, why not>>
Seen(r) ==
  CASE r.e = "in" -> <<TRUE, Input(P, S, r.k, r.x), "">>
    [] r.e = "ev" -> LET m == {x \in Shown(P, S) : x.ev = r.x}
                     IN IF m = {} THEN <<FALSE, S, <<"not now", r.x, "but", {x.ev : x \in Shown(P, S)}>>>>
                        ELSE <<TRUE, Do(P, S, CHOOSE x \in m : TRUE), "">>
    [] r.e = "idle" -> IF Shown(P, S) = {} THEN <<TRUE, S, "">>
                       ELSE <<FALSE, S, <<"at rest, but due", {x.ev : x \in Shown(P, S)}>>>>
    [] OTHER -> <<FALSE, S, r>>

Next == /\ l <= Len(Log)
        /\ LET z == TLCEval(Seen(Log[l]))
           IN /\ S' = z[2]
              /\ IF z[1] THEN l' = l + 1 /\ (l = Len(Log) => PrintT(<<"ACCEPT", tid>>))
                 ELSE l' = Len(Log) + 2 /\ PrintT(<<"REJECT", tid, l, z[3]>>)
        /\ tid' = tid

Spec == Init /\ [][Next]_vars
=============================================================================
