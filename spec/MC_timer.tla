------------------------------ MODULE MC_timer ------------------------------
(* Every short history of two timers, of passing time and of wall-clock     *)
(* settings (C20).                                                          *)
EXTENDS MCProg
CONSTANT MaxSteps

T(op, a) == C("tm", op, a)
Acts == {"clickA", "clickB", "short", "long", "back", "copy"}
Act(s) == CASE s = "clickA" -> T("click", [x |-> "A"])
            [] s = "clickB" -> T("click", [x |-> "B"])
            [] s = "short" -> T("wait", [us |-> 7])
            [] s = "long" -> T("wait", [us |-> 1000001])
            [] s = "back" -> T("setclock", [us |-> -5000000])
            [] OTHER -> C("life", "copy", [x |-> "A", z |-> "B"])
(* intervals of A once the history is done *)
RECURSIVE Count2(_, _, _)
Count2(s, a, b) ==               \* clicks of A and of B, a timer started at construction counts as clicked
  IF s = <<>> THEN <<a, b>>
  ELSE CASE Head(s) = "clickA" -> Count2(Tail(s), a + 1, b)
         [] Head(s) = "clickB" -> Count2(Tail(s), a, b + 1)
         [] Head(s) = "copy" -> Count2(Tail(s), a, a)
         [] OTHER -> Count2(Tail(s), a, b)
Reads(x, k) == FlatMap(0..(k - 2), LAMBDA i : <<T("read", [x |-> x, form |-> "i", i |-> i])>>) \o <<T("read", [x |-> x, form |-> "tot"])>>
Prog(f, s) ==
  LET n == Count2(s, IF f = "true" THEN 1 ELSE 0, IF f = "true" THEN 0 ELSE 1)
  IN <<T("new", [z |-> "A", form |-> f]), T("wait", [us |-> 1000]), T("new", [z |-> "B", form |-> IF f = "true" THEN "default" ELSE "true"])>>
     \o [i \in 1..Len(s) |-> Act(s[i])] \o Reads("A", n[1]) \o Reads("B", n[2])
(* no two settings in a row, and not only waiting *)
Hist == {s \in Seqs(Acts, 1, MaxSteps) : (\E i \in 1..Len(s) : s[i] \in {"clickA", "clickB"}) /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = s[i + 1] /\ s[i] \in {"back", "copy"})}
Programs == Map({"true", "false"} \X Hist, LAMBDA q : Prog(q[1], q[2]))

(* time only grows, and the total never exceeds what has passed *)
Law == \A x \in DOMAIN heap : /\ \A i \in 1..Len(heap[x].iv) : heap[x].iv[i] >= 0
                             /\ TmTotal(heap[x]) <= Now
                             /\ heap[x].at <= Now
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
