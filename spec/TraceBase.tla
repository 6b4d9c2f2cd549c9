---- MODULE TraceBase ----
(* Validation of recorded executions.  One NDJSON line is one observed call (action) of the implementation; the
   trace module supplies the verdict on it, given the specification state, and the successor state.  Verdicts are
   total: a failing clause is reported by name and validation continues with the specification's own state.      *)
EXTENDS Base, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(e, F) == \A c \in F : PrintT("V|" \o ToString(e.case) \o "|" \o c)
Step(Fail(_, _), Succ(_, _)) ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
       /\ Report(e, IF e.ev = "crash" THEN {"crash"} ELSE Fail(e, st))
       /\ st' = IF e.ev = "crash" THEN st ELSE Succ(e, st)
  /\ l' = l + 1
Done == l = Len(Trace) + 1 => PrintT("D|" \o ToString(Len(Trace)))
====
