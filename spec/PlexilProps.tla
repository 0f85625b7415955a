----------------------------- MODULE PlexilProps -----------------------------
(***************************************************************************)
(* What the users of the executive rely on, said without reference to how  *)
(* Plexil computes a step.  Evaluated by TLC in every state and on every   *)
(* transition of PlexilMC (exhaustively, small plans) and of PlexilTrace   *)
(* (on every state the real executive went through).                       *)
(***************************************************************************)
EXTENDS Plexil

Alive(P, S) == {n \in Nodes(P) : S.st[n] # "-"}
Ended1 == {"ITERATION_ENDED", "FINISHED"}

-----------------------------------------------------------------------------
(* State predicates *)

StatesOfType(ty) ==
  CASE ty = "E" -> {"INACTIVE", "WAITING", "EXECUTING", "ITERATION_ENDED", "FINISHED"}
    [] ty \in {"A", "U"} -> {"INACTIVE", "WAITING", "EXECUTING", "FAILING", "ITERATION_ENDED", "FINISHED"}
    [] OTHER -> States

C01_States(P, S) == \A n \in Alive(P, S) : S.st[n] \in StatesOfType(Ty(P, n))

C02_Outcomes(P, S) == \A n \in Alive(P, S) :
  /\ S.st[n] \in {"INACTIVE", "WAITING", "EXECUTING", "FINISHING"} => S.out[n] = "" /\ S.fl[n] = ""
  /\ S.st[n] = "FAILING" => S.out[n] \in {"FAILURE", "INTERRUPTED"}
  /\ S.st[n] \in Ended1 => S.out[n] # ""
  /\ S.out[n] = "SKIPPED" => S.st[n] = "FINISHED"
  /\ (S.fl[n] # "") = (S.out[n] \in {"FAILURE", "INTERRUPTED"})
  /\ S.out[n] = "INTERRUPTED" <=> S.fl[n] \in {"EXITED", "PARENT_EXITED"}

C03_Contained(P, S) == \A n \in Alive(P, S) : LET p == Par(P, n) IN
  p # 0 =>
    /\ S.st[n] \in Run => S.st[p] \in Run
    /\ S.st[n] \in {"WAITING", "ITERATION_ENDED"} => S.st[p] \in Run
    /\ S.st[p] \in {"INACTIVE", "WAITING"} => S.st[n] \in {"INACTIVE", "FINISHED"}

C05_Nothing_Left(P, S) == S.ph = "idle" =>
  S.pend = <<>> /\ S.retr = {} /\ S.cmds = <<>> /\ S.abts = {} /\ S.upds = <<>>
C05_One_Write(P, S) == \A i, j \in DOMAIN S.pend : i # j =>
  S.pend[i].v # S.pend[j].v /\ S.pend[i].n # S.pend[j].n

(* Mutexes and assigned variables *)
C07_Exclusive(P, S) == \A n, m \in Alive(P, S) :
  n # m /\ S.st[n] \in Run /\ S.st[m] \in Run => Needs(P, n) \cap Needs(P, m) = {}

C09_Scope(P, S) == \A v \in DOMAIN S.vv : S.vv[v] # U => v \in ActV(P, S)

C10_Handles(P, S) == \A n \in Alive(P, S) :
  /\ S.hdl[n] # "" => Ty(P, n) = "C" /\ S.st[n] \in Run \cup Ended1
  /\ S.act[n] => S.st[n] \in Run
  /\ Ty(P, n) = "C" /\ S.st[n] \in Run => S.act[n]

C11_Aborts(P, S) == \A n \in S.abts : Ty(P, n) = "C" /\ S.st[n] = "FAILING"

C12_Held(P, S) == \A n \in Nodes(P) : S.held[n] # <<>> => S.act[n]

C15_Reported(P, S) == \A id \in 1..P.nl : S.oc[id].has => P.lks[id].on /\ S.key[id] # <<>>

C18_Times(P, S) == \A n \in Alive(P, S) :
  S.st[n] # "INACTIVE" => S.tp[n][S.st[n]][1] = S.ss[n] /\ Known(S.ss[n])

C19_Fresh(P, S) == \A n \in Alive(P, S) : S.st[n] \in {"INACTIVE", "WAITING"} =>
  S.out[n] = "" /\ S.fl[n] = "" /\ S.hdl[n] = ""

C23_Whole(P, S) == \A r \in Roots(P) : \A n \in ToSet(P.nodes[r].sub) : (S.st[n] = "-") = (S.st[r] = "-")

Inv(P, S) ==
  << <<"C01:state not of the node's type", C01_States(P, S)>>,
     <<"C02:outcome does not fit the state", C02_Outcomes(P, S)>>,
     <<"C03:active outside an active parent", C03_Contained(P, S)>>,
     <<"C05:work left after the step", C05_Nothing_Left(P, S)>>,
     <<"C05:two writes of a variable", C05_One_Write(P, S)>>,
     <<"C07:shared variable or mutex", C07_Exclusive(P, S)>>,
     <<"C09:value out of scope", C09_Scope(P, S)>>,
     <<"C10:handle without execution", C10_Handles(P, S)>>,
     <<"C11:abort without interruption", C11_Aborts(P, S)>>,
     <<"C12:resources held after the end", C12_Held(P, S)>>,
     <<"C15:reported value without lookup", C15_Reported(P, S)>>,
     <<"C18:wrong time points", C18_Times(P, S)>>,
     <<"C19:not fresh", C19_Fresh(P, S)>>,
     <<"C23:part of a plan", C23_Whole(P, S)>> >>

Broken(P, S) == LET r == Inv(P, S) IN {r[i][1] : i \in {j \in DOMAIN r : ~r[j][2]}}

-----------------------------------------------------------------------------
(* Transitions: S to S1 *)

LegalMove(ty, a, b) ==
  \/ a = b
  \/ <<a, b>> \in {<<"INACTIVE", "WAITING">>, <<"INACTIVE", "FINISHED">>, <<"WAITING", "EXECUTING">>,
                   <<"WAITING", "FINISHED">>, <<"WAITING", "ITERATION_ENDED">>,
                   <<"ITERATION_ENDED", "FINISHED">>, <<"ITERATION_ENDED", "WAITING">>,
                   <<"FINISHED", "INACTIVE">>}
  \/ ty = "E" /\ <<a, b>> \in {<<"EXECUTING", "ITERATION_ENDED">>, <<"EXECUTING", "FINISHED">>}
  \/ ty \in {"A", "U"} /\ <<a, b>> \in {<<"EXECUTING", "ITERATION_ENDED">>, <<"EXECUTING", "FAILING">>,
                                        <<"FAILING", "ITERATION_ENDED">>, <<"FAILING", "FINISHED">>}
  \/ ty \in {"L", "B", "C"} /\ <<a, b>> \in {<<"EXECUTING", "FINISHING">>, <<"EXECUTING", "FAILING">>,
                                             <<"FINISHING", "ITERATION_ENDED">>, <<"FINISHING", "FAILING">>,
                                             <<"FAILING", "ITERATION_ENDED">>, <<"FAILING", "FINISHED">>}

(* A batch leads from S to S1 *)
BatchProps(P, S, S1) ==
  LET moved == {n \in Nodes(P) : S.st[n] # S1.st[n]}
      into(s) == {n \in moved : S1.st[n] = s}
  IN << <<"C01:illegal move", \A n \in moved : LegalMove(Ty(P, n), S.st[n], S1.st[n])>>,
        <<"C02:outcome changed after the end",
          \A n \in Nodes(P) : S.out[n] # "" /\ S1.out[n] # S.out[n] =>
            \/ S1.st[n] \in {"INACTIVE", "WAITING"}
            \/ S.st[n] = "ITERATION_ENDED" /\ S1.fl[n] \in {"PARENT_EXITED", "PARENT_FAILED"}>>,
        <<"C03:started under a parent not executing",
          \A n \in into("EXECUTING") \cup {m \in into("WAITING") : S.st[m] = "INACTIVE"} :
            Par(P, n) # 0 => S.st[Par(P, n)] = "EXECUTING">>,
        <<"C03:completed over an active child",
          \A n \in into("ITERATION_ENDED") \cup {m \in into("FINISHED") : S.st[m] \in Run} :
            \A k \in ToSet(Kids(P, n)) : S1.st[k] \in {"WAITING", "FINISHED", "INACTIVE"}>>,
        <<"C05:variable changed by a transition",
          \A v \in ActV(P, S) \cap ActV(P, S1) : S.vv[v] # S1.vv[v] =>
            \/ P.vars[v].node \in into("EXECUTING")
            \/ ~Throughout(P, S, S1, moved, v)>>,
        <<"C06:ended before it was undone",
          \A n \in moved : Ty(P, n) = "A" /\ S.st[n] = "FAILING" => S.ak[n]>>,
        <<"C06:completed assignment undone",
          \A n \in S1.retr \ S.retr : S.st[n] = "EXECUTING" /\ S1.st[n] = "FAILING">>,
        <<"C10:not one command for one start",
          LET more == {S1.cmds[i].n : i \in DOMAIN S1.cmds} \ {S.cmds[i].n : i \in DOMAIN S.cmds}
          IN more = {n \in into("EXECUTING") : Ty(P, n) = "C"}>>,
        <<"C11:not one abort for one interruption",
          S1.abts \ S.abts = {n \in into("FAILING") : Ty(P, n) = "C"}>>,
        <<"C11:ended before the abort was acknowledged",
          \A n \in moved : Ty(P, n) = "C" /\ S.st[n] = "FAILING" => S.ak[n]>>,
        <<"C13:ended before the update was acknowledged",
          \A n \in moved : Ty(P, n) = "U" /\ S1.st[n] \in Ended1 /\ S.st[n] \in {"EXECUTING", "FAILING"}
             /\ (S.st[n] = "FAILING" \/ S1.out[n] = "SUCCESS") => S.ak[n]>>,
        <<"C19:iteration starts with children of the last one",
          \A n \in into("EXECUTING") : \A k \in ToSet(Kids(P, n)) : S1.st[k] = "INACTIVE">> >>

(* The end of a step leads from S to S1 *)
EndProps(P, S, S1) ==
  << <<"C05:variable changed without an assignment",
       \A v \in DOMAIN S.vv : S.vv[v] # S1.vv[v] =>
         \/ \E i \in DOMAIN S.pend : S.pend[i].v = v
         \/ \E n \in S.retr : P.nodes[n].var = v>>,
     <<"C12:oversubscribed",
       \A r \in DOMAIN S.alloc : S1.alloc[r] > S.alloc[r] => S1.alloc[r] <= MaxOf(P, r)>>,
     <<"C12:below zero",
       \A r \in DOMAIN S.alloc : S1.alloc[r] < S.alloc[r] => S1.alloc[r] >= 0>>,
     <<"C12:denied but holding", \A n \in Nodes(P) : S1.hdl[n] = "COMMAND_DENIED" /\ S.hdl[n] = "" => S1.held[n] = <<>> >>,
     <<"C04:node moved at the end of a step", S.st = S1.st>> >>

(* Inputs lead from S to S1 *)
InputProps(P, S, S1) ==
  << <<"C04:node moved between steps",
       \A n \in Nodes(P) : S.st[n] # S1.st[n] => S.st[n] = "-" /\ S1.st[n] = "INACTIVE">> >>

BrokenBy(r) == {r[i][1] : i \in {j \in DOMAIN r : ~r[j][2]}}
=============================================================================
