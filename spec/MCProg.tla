------------------------------- MODULE MCProg -------------------------------
(* Exhaustive families of straight-line programs: every program of a finite *)
(* set is run call by call, each state checked, and exported at its end.    *)
EXTENDS MC
VARIABLES prog, pc
progvars == <<heap, scale, memo, prog, pc>>

PInit(P) == MCInit0 /\ heap = <<>> /\ pc = 1 /\ prog \in 1..Len(P)
Step(c) ==
  IF "mis" \in DOMAIN c
    THEN /\ Assert((Pre(heap, c.m, c.op, c.a) \/ Loose(heap, c.m, c.op, c.a)) \in BOOLEAN, c)
         /\ UNCHANGED <<heap, scale, memo>>
    ELSE IF "skip" \in DOMAIN c
    THEN /\ Assert(Pre(heap, c.m, c.op, c.a), <<"not conforming", c>>)
         /\ UNCHANGED <<heap, scale, memo>>
    ELSE /\ Assert(Pre(heap, c.m, c.op, c.a), <<"not conforming", c>>)
         /\ LET R == Apply(heap, c)
            IN /\ Assert(R.ok, <<"contract", c>>)
               /\ Assert(Framed(heap, R.h, c), <<"footprint", c>>)
               /\ heap' = R.h /\ memo' = R.m /\ scale' = scale
PNext(P) ==
  LET cs == P[prog] IN
  \/ pc <= Len(cs) /\ Step(cs[pc]) /\ pc' = pc + 1 /\ UNCHANGED prog
  \/ pc = Len(cs) + 1 /\ Emit(cs) /\ pc' = pc + 1 /\ UNCHANGED <<heap, scale, memo, prog>>
PView == <<prog, pc>>
=============================================================================
