------------------------- MODULE PlexilSyntaxCheck -------------------------
(* Judges what the executive made of plan documents (file CASES).          *)
EXTENDS PlexilSyntax, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

Libs(c) == [x \in {IdOf(Get(c.libs[i], "Node")) : i \in 1..Len(c.libs)} |->
              LET is == {i \in 1..Len(c.libs) : IdOf(Get(c.libs[i], "Node")) = x}
              IN c.libs[CHOOSE i \in is : \A j \in is : j <= i]]

Fits(c, v, s) ==
  CASE v = "good" -> c.res = "ok"
    [] v = "bad" -> c.res = "refused" /\ c.after = "ok"
    [] OTHER -> \/ c.res = "ok"
                \/ c.res = "refused" /\ c.after = "ok"
                \/ c.res = "planerror" /\ c.after = "ok" /\ "D " \o NeverKnown \in s

VARIABLE i
Judge(k) ==
  LET c == Cases[k]
      s == TLCEval(PlanOk(c.doc, Libs(c)))
      v == Verdict(s)
  IN IF Fits(c, v, s) THEN PrintT(<<"ACCEPT", k, v>>) ELSE PrintT(<<"REJECT", k, v, s>>)

Init == i = 0
Next == i < Len(Cases) /\ Judge(i + 1) /\ i' = i + 1
=============================================================================
