---------------------------- MODULE ExecAppTrace ----------------------------
(* Does what the real application was seen to do fit the specification?     *)
EXTENDS ExecApp, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, M
vars == <<tid, l, M>>

Tr == Traces[tid].tr
Cfg == [threads |-> {Traces[tid].threads[i] : i \in DOMAIN Traces[tid].threads},
        workers |-> {Traces[tid].workers[i] : i \in DOMAIN Traces[tid].workers},
        opp |-> Traces[tid].opp = 1]

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ M = {Start(Cfg)}

Next == /\ l <= Len(Tr)
        /\ M # {}
        /\ M' = Observe(Cfg, M, Tr[l])
        /\ l' = l + 1
        /\ tid' = tid
        /\ IF M' = {} THEN PrintT(<<"REJECT", tid, l>>)
           ELSE l = Len(Tr) => PrintT(<<"ACCEPT", tid>>)

Spec == Init /\ [][Next]_vars
=============================================================================
