------------------------------- MODULE Trace -------------------------------
(* Validates a recorded execution of the library (IOEnv.TRACE, one JSON     *)
(* event per line) against the specification.  Every event carries the call,*)
(* its arguments, its result r, and the projection d of every object whose  *)
(* observable state changed; an object that is not in d did not change.     *)
EXTENDS Machine, Json, IOUtils

VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
NLog == Len(Log)
vars == <<heap, scale, memo, l>>

ObsRet(e) == IF "r" \in DOMAIN e THEN <<e.r>> ELSE <<>>

Clean(e) == "exc" \notin DOMAIN e /\ "so" \notin DOMAIN e

Reset(e) == /\ e.m = "sys" /\ e.op = "reset"
            /\ heap' = <<>> /\ scale' = e.a.F /\ memo' = <<>>

End(e) == /\ e.m = "sys" /\ e.op = "end"
          /\ e.leak = 0
          /\ heap' = <<>> /\ UNCHANGED <<scale, memo>>

Explain(e) ==                     \* development and replay only
  IF IOEnv.DBG = "1" /\ l = NLog /\ e.m # "sys"
    THEN PrintT(<<"EXPECT", "pre", Pre(heap, e.m, e.op, e.a)>>)
         /\ (Pre(heap, e.m, e.op, e.a) =>
              LET R == Eff(heap, e.m, e.op, e.a, e)
              IN PrintT(<<"EXPECT", "contract", R.ok, "result", R.r, "observed", ObsRet(e),
                          "mismatch", [s \in {s \in DOMAIN R.h : ~(IF s \in DOMAIN e.d THEN Match(R.h, s, e.d[s]) ELSE Unchanged(heap, R.h, s))} |->
                                       IF R.h[s].k = "view" THEN <<VecOf(R.h, s)>> ELSE R.h[s]]>>))
    ELSE TRUE

(* "(...) = TRUE": TLC then evaluates the guard as an expression, not as an action *)
Call(e) ==
  /\ e.m # "sys"
  /\ "mis" \notin DOMAIN e
  /\ (Clean(e) /\ Pre(heap, e.m, e.op, e.a)) = TRUE
  /\ LET R == TLCEval(Eff(heap, e.m, e.op, e.a, e))
         h2 == R.h
     IN /\ (/\ R.ok
            /\ R.r = ObsRet(e)
            /\ DOMAIN e.d \subseteq DOMAIN h2
            /\ \A s \in DOMAIN h2 : IF s \in DOMAIN e.d THEN Match(h2, s, e.d[s]) ELSE Unchanged(heap, h2, s)) = TRUE
        /\ heap' = Adopt(heap, h2, e.d)
        /\ memo' = R.m
        /\ scale' = scale

(* A call made in a copy of the process: refused if it is outside its precondition, accepted otherwise. *)
(* (A refused call is stopped by an assertion or an exception before it touches foreign memory.)       *)
Misuse(e) ==
  /\ e.m # "sys"
  /\ "mis" \in DOMAIN e
  /\ (CASE e.out = "accepted" -> Pre(heap, e.m, e.op, e.a) \/ Loose(heap, e.m, e.op, e.a)
        [] e.out = "refused" -> ~Pre(heap, e.m, e.op, e.a)
        [] OTHER -> FALSE) = TRUE
  /\ DOMAIN e.d = {}
  /\ UNCHANGED <<heap, scale, memo>>

TraceInit == heap = <<>> /\ scale = 1 /\ memo = <<>> /\ l = 1
TraceNext == /\ l <= NLog
             /\ l' = l + 1
             /\ LET e == Log[l] IN (Explain(e) = TRUE) /\ (Reset(e) \/ End(e) \/ Call(e) \/ Misuse(e))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = NLog
=============================================================================
