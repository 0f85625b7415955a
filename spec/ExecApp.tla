------------------------------- MODULE ExecApp -------------------------------
(***************************************************************************)
(* The executive running in a thread of its own, as the threads that use   *)
(* it can see it: what they ask for (call), what they are told (ret), when *)
(* the executive takes a step (sb, se), what the plans it runs do, and     *)
(* when everything has come to rest (quiet).                               *)
(*                                                                         *)
(* The state is a record; nothing is a variable here.  An observer cannot  *)
(* see when, between call and return, a request takes effect, nor when an  *)
(* input is taken from the queue: those are the internal actions of Inner. *)
(* Observe carries the set of all states that fit what has been seen; an   *)
(* observation nothing fits leaves the empty set.  ExecAppTrace feeds it   *)
(* with what the real application did, ExecAppAlg with every behaviour of  *)
(* a model of the algorithm.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Idle == [o |-> "none"]

(* Plans: echo notices every change of the channels in Echo; a quick plan    *)
(* ends by itself, a long plan when a value arrives on the channel that      *)
(* bears its name.                                                           *)
Echo == {"a", "b"}
Long == {"l1", "l2"}

(* cfg: threads; worker; opp: clients may run the executive themselves      *)
Start(cfg) ==
  [q |-> <<>>, puts |-> 0, taken |-> 0, oblig |-> 0,
   cur |-> [c \in Echo \cup Long \cup {"fin"} |-> 0],
   sv |-> [c \in Echo |-> 0], dv |-> [c \in Echo |-> 0],
   put |-> {}, up |-> {}, begun |-> {}, fin |-> {},
   batch |-> FALSE, open |-> -1, susp |-> FALSE, stop |-> "no", gone |-> FALSE,
   ok |-> [t \in cfg.threads |-> t \in cfg.workers],
   pend |-> [t \in cfg.threads |-> Idle]]

Live(s) == s.up \ s.fin

(* nothing that has been taken in is still waiting for an answer            *)
Rest(s) ==
  /\ s.up \subseteq s.begun
  /\ "echo" \in Live(s) => /\ s.cur["fin"] = 0
                           /\ \A c \in Echo : s.sv[c] = s.cur[c] /\ s.dv[c] = s.cur[c]
  /\ \A p \in Live(s) \ {"echo"} : p \in Long /\ s.cur[p] = 0

Norm(s) ==
  IF Rest(s)
  THEN [s EXCEPT !.pend = [t \in DOMAIN s.pend |->
          IF s.pend[t].o = "flush" /\ s.pend[t].st = "taken" THEN [s.pend[t] EXCEPT !.st = "rest"] ELSE s.pend[t]]]
  ELSE s

(***************************************************************************)
(* Internal actions                                                        *)
(***************************************************************************)
Lin(s, t) ==
  LET p == s.pend[t]
      In(item) == [s EXCEPT !.q = Append(@, item), !.puts = @ + 1]
  IN CASE p.o = "post" /\ p.st = "asked" -> {[In(<<"v", p.c, p.v, t>>) EXCEPT !.pend[t].st = "done"]}
       [] p.o = "plan" /\ p.st = "asked" ->
            {[In(<<"p", p.c, t>>) EXCEPT !.pend[t].st = "done", !.put = @ \cup {p.c}]}
       [] p.o = "suspend" /\ p.st = "asked" -> {[s EXCEPT !.susp = TRUE, !.pend[t].st = "done"]}
       [] p.o = "resume" /\ p.st = "asked" ->
            {[s EXCEPT !.susp = FALSE, !.oblig = IF s.susp THEN s.puts ELSE @,
                       !.ok = [u \in DOMAIN s.ok |-> TRUE], !.pend[t].st = "done"]}
       [] p.o \in {"stop", "term"} /\ p.st = "asked" /\ s.stop = "asked" ->
            {[s EXCEPT !.susp = FALSE, !.ok = [u \in DOMAIN s.ok |-> TRUE], !.pend[t].st = "woke"]}
       [] p.o = "issusp" /\ p.st = "asked" -> {[s EXCEPT !.pend[t].st = IF s.susp THEN "yes" ELSE "no"]}
       [] OTHER -> {}

MayRun(cfg, s, t) ==
  /\ s.ok[t]
  /\ s.stop # "done"
  /\ \/ t \in cfg.workers /\ ~s.gone
     \/ cfg.opp /\ s.pend[t].o \in {"notify", "flush", "resume", "stop", "term"}

Take(cfg, s) ==
  IF s.q # <<>> /\ s.open = -1 /\ (s.batch \/ Rest(s)) /\ \E t \in cfg.threads : MayRun(cfg, s, t)
  THEN LET x == Head(s.q)
           s1 == [s EXCEPT !.q = Tail(@), !.taken = @ + 1, !.batch = TRUE]
       IN {Norm(CASE x[1] = "v" -> [s1 EXCEPT !.cur[x[2]] = x[3]]
                  [] x[1] = "m" -> [s1 EXCEPT !.pend[x[2]].st = "taken"]
                  [] x[1] = "p" -> [s1 EXCEPT !.up = @ \cup {x[2]}])}
  ELSE {}

(* Which internal actions to consider before an event.  The others may as     *)
(* well wait: whatever the system could do with them done, it can do with   *)
(* them done later.                                                         *)
Flags == {"suspend", "resume", "issusp", "stop", "term"}
Lins(s, T) == UNION {Lin(s, t) : t \in T}
Inner(cfg, s, e) ==
  LET of(O) == {t \in cfg.threads : s.pend[t].o \in O}
      all == Take(cfg, s) \cup Lins(s, of(Flags))
             \cup (IF s.open = -1 /\ (s.batch \/ Rest(s)) THEN Lins(s, of({"post", "plan"})) ELSE {})
  IN CASE e.e \in {"sb", "park", "exit", "quiet"} -> all
       [] e.e = "wake" -> Lins(s, of(Flags))
       [] e.e = "ret" ->
            (* this thread may have run the executive: from now on it cannot    *)
            CASE cfg.opp /\ e.o \in {"notify", "resume"} -> all
              [] e.o = "post" -> Lins(s, {t \in of({"post"}) : s.pend[t].c = e.c})
              [] e.o \in {"plan", "allfin"} -> Lins(s, of({"plan"}))
              [] e.o \in {"suspend", "resume", "issusp"} -> Lins(s, of(Flags))
              [] e.o \in {"flush", "stop", "term"} -> all
              [] OTHER -> {}
       [] e.e = "call" /\ e.o = "allfin" -> Lins(s, of({"plan"}))
       [] OTHER -> {}

(* A request still to return whose item is last in the queue might as well   *)
(* not have put it there yet: that state allows all that this one does.     *)
Pending(s, x) ==
  CASE x[1] = "v" -> LET p == s.pend[x[4]] IN p.o = "post" /\ p.c = x[2] /\ p.v = x[3]
    [] x[1] = "p" -> LET p == s.pend[x[3]] IN p.o = "plan" /\ p.c = x[2]
    [] OTHER -> FALSE

RECURSIVE Undo(_)
Undo(s) ==
  IF s.q = <<>> THEN s
  ELSE LET x == s.q[Len(s.q)]
           t == x[Len(x)]
           n == s.puts - 1
       IN IF ~Pending(s, x) THEN s       (* a flush puts its mark at once: the earlier the better for it *)
          ELSE Undo([s EXCEPT !.q = SubSeq(@, 1, Len(@) - 1), !.puts = n,
                              !.oblig = IF @ > n THEN n ELSE @,
                              !.pend[t].st = "asked",
                              !.put = IF x[1] = "p" THEN @ \ {x[2]} ELSE @])

RECURSIVE Close(_, _, _, _)
Close(cfg, front, seen, e) ==
  IF front = {} THEN seen
  ELSE LET new == TLCEval((UNION {Inner(cfg, s, e) : s \in front}) \ seen)
       IN Close(cfg, new, TLCEval(seen \cup new), e)

(***************************************************************************)
(* Observable events; each gives the set of states it can lead to          *)
(***************************************************************************)
If(cond, s) == IF cond THEN {Undo(Norm(s))} ELSE {}

Call(cfg, s, e) ==
  LET t == e.t
      base == [o |-> e.o, st |-> "asked"]
      p == CASE e.o = "post" -> [o |-> e.o, st |-> "asked", c |-> e.c, v |-> e.v]
             [] e.o = "plan" -> [o |-> e.o, st |-> "asked", c |-> e.c]
             [] e.o = "waitplan" -> [o |-> e.o, st |-> "asked", need |-> s.put]
             [] e.o = "allfin" -> [o |-> e.o, st |-> "asked", need |-> s.begun,
                                   was |-> s.put # {} /\ s.put \subseteq s.fin]
             [] OTHER -> base
      s1 == [s EXCEPT !.pend[t] = p, !.ok[t] = ~s.susp \/ e.o \in {"stop", "term"}]
  IN If(s.pend[t].o = "none",
        CASE e.o = "notify" -> [s1 EXCEPT !.oblig = s.puts]
          [] e.o = "flush" -> [s1 EXCEPT !.q = Append(@, <<"m", t>>), !.puts = @ + 1, !.oblig = s.puts + 1]
          [] e.o \in {"stop", "term"} -> IF s.stop = "no" THEN [s1 EXCEPT !.stop = "asked"] ELSE s1
          [] OTHER -> s1)

Return(cfg, s, e) ==
  LET t == e.t
      p == s.pend[t]
      s1 == [s EXCEPT !.pend[t] = Idle, !.ok[t] = FALSE]
  IN IF p.o # e.o THEN {}
     ELSE CASE e.o = "post" -> If(p.st = "done" /\ e.r = 1, s1)
            [] e.o \in {"suspend", "resume"} -> If(p.st = "done" /\ (e.r = 1 \/ s.stop # "no"), s1)
            [] e.o = "plan" -> If(p.st = "done" /\ e.r = 1, s1)
            [] e.o = "flush" -> If(p.st = "rest", s1)
            [] e.o = "waitplan" -> If(s.fin # {} /\ p.need \subseteq s.fin, s1)
            [] e.o = "waitstop" -> If(s.stop # "no" /\ s.gone, s1)
            [] e.o \in {"stop", "term"} -> If(s.stop # "no" /\ s.open = -1 /\ s.gone, [s1 EXCEPT !.stop = "done"])
            [] e.o = "issusp" -> If(p.st = IF e.r = 1 THEN "yes" ELSE "no", s1)
            [] e.o = "allfin" -> If(IF e.r = 1 THEN s.fin # {} /\ p.need \subseteq s.fin
                                    ELSE ~p.was \/ ~(s.put \subseteq s.fin), s1)
            [] OTHER -> If(TRUE, s1)

StepBegins(cfg, s, e) ==
  If(s.open = -1 /\ MayRun(cfg, s, e.t), [s EXCEPT !.open = e.t, !.batch = FALSE])
StepEnds(cfg, s, e) == If(s.open = e.t, [s EXCEPT !.open = -1])

Seen(cfg, s, e) ==
  If(s.open = e.t /\ "echo" \in s.begun /\ s.cur[e.c] = e.v /\ s.sv[e.c] # e.v, [s EXCEPT !.sv[e.c] = e.v])
Answered(cfg, s, e) ==
  If(s.open = e.t /\ "echo" \in s.begun /\ s.sv[e.c] = e.v /\ s.dv[e.c] # e.v, [s EXCEPT !.dv[e.c] = e.v])
PlanStarts(cfg, s, e) ==
  If(s.open = e.t /\ e.p \in s.up \ s.begun, [s EXCEPT !.begun = @ \cup {e.p}])
PlanEnds(cfg, s, e) ==
  If(/\ s.open = e.t /\ e.p \in s.begun \ s.fin
     /\ e.p \in Long => s.cur[e.p] > 0
     /\ e.p = "echo" => s.cur["fin"] > 0,
     [s EXCEPT !.fin = @ \cup {e.p}])

(* the executive's thread goes to wait, comes back from it, ends            *)
Parks(cfg, s, e) == If(s.open # e.t, [s EXCEPT !.ok[e.t] = FALSE])
Wakes(cfg, s, e) == If(TRUE, [s EXCEPT !.ok[e.t] = ~s.susp \/ s.stop = "asked"])
Exits(cfg, s, e) == If(s.stop = "asked" /\ s.open # e.t, [s EXCEPT !.gone = TRUE, !.ok[e.t] = FALSE])

(* No thread can go on.  e.b: the clients still waiting, in which request.   *)
Blocked(e) == {e.b[i][1] : i \in DOMAIN e.b}
Quiet(cfg, s, e) ==
  If(/\ e.stuck = 0
     /\ s.open = -1
     /\ \A t \in DOMAIN s.pend : (s.pend[t].o # "none") <=> t \in Blocked(e)
     /\ \A i \in DOMAIN e.b : e.b[i][3] = "wait"
     /\ Rest(s) \/ s.stop # "no"
     /\ \A t \in Blocked(e) :
          LET p == s.pend[t]
          IN CASE p.o = "flush" -> s.susp \/ s.stop # "no"
               [] p.o = "waitplan" -> s.susp \/ s.stop # "no" \/ s.fin = {} \/ ~(s.put \subseteq s.fin)
                                      \/ s.oblig < s.puts
               [] p.o = "waitstop" -> s.stop = "no"
               [] OTHER -> FALSE
     /\ (~s.susp /\ s.stop = "no") => s.taken >= s.oblig,
     s)

Event(cfg, s, e) ==
  CASE e.e = "call" -> Call(cfg, s, e)
    [] e.e = "ret" -> Return(cfg, s, e)
    [] e.e = "sb" -> StepBegins(cfg, s, e)
    [] e.e = "se" -> StepEnds(cfg, s, e)
    [] e.e = "seen" -> Seen(cfg, s, e)
    [] e.e = "done" -> Answered(cfg, s, e)
    [] e.e = "pstart" -> PlanStarts(cfg, s, e)
    [] e.e = "pfin" -> PlanEnds(cfg, s, e)
    [] e.e = "park" -> Parks(cfg, s, e)
    [] e.e = "wake" -> Wakes(cfg, s, e)
    [] e.e = "exit" -> Exits(cfg, s, e)
    [] e.e = "quiet" -> Quiet(cfg, s, e)
    [] e.e = "end" -> {s}
    [] OTHER -> {}        (* killed, deadlocked, spinning, crashed *)

Observe(cfg, M, e) ==
  LET N == TLCEval(Close(cfg, M, M, e)) IN TLCEval(UNION {Event(cfg, s, e) : s \in N})
=============================================================================
