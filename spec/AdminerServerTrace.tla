------------------------- MODULE AdminerServerTrace -------------------------
(* Explanation of histories of the event server's adminer.                 *)
(*                                                                         *)
(* Serving of requests isn't observed.  Line is explained if some order of *)
(* serving gives what clients (or logging) have observed.                  *)
(*                                                                         *)
(* To keep the search small, request carries what is known of its end:     *)
(* out, res and (for sets) whether its configuration is observed by        *)
(* anyone.  Requests whose serving doesn't change anything are served as   *)
(* soon as they give the right answer, and sets which have no answer and   *)
(* aren't observed are taken as not being served.                          *)
EXTENDS AdminerServer, Sequences, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

vars == <<tid, l, svars>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ SInit(1)

Lost(q) == q.out \notin {"ok", "error"}

\* line of request r
Asked(r) == Traces[tid].reqs[r]

Idle(r) ==
    /\ reqs[r].st = "wait"
    /\ IF reqs[r].kind = "get"
       THEN Lost(Asked(r)) \/ conf = Asked(r).res
       ELSE ~reqs[r].ok

Useful(r) ==
    /\ reqs[r].st = "wait"
    /\ reqs[r].kind = "set" /\ reqs[r].ok
    /\ ~Lost(Asked(r)) \/ Asked(r).seen

Step ==
    \/ /\ Line.op = "req"
       /\ DoAsk(Line.r, Line.kind, Line.v, Line.ok)
    \/ /\ Line.op = "reqend"
       /\ Line.out \in {"ok", "error"}
       /\ reqs[Line.r].st = "served"
       /\ reqs[Line.r].out = Line.out
       /\ reqs[Line.r].res = Line.res
       /\ DoForget(Line.r)
    \/ /\ Line.op = "reqend"
       /\ Line.out \in {"cancelled", "connection"}
       /\ UNCHANGED svars
    \/ /\ Line.op = "logging"
       /\ applied = Line.v
       /\ UNCHANGED svars

TraceNext ==
    \/ /\ \E r \in DOMAIN reqs : Idle(r)
       /\ DoServe(CHOOSE r \in DOMAIN reqs : Idle(r))
       /\ UNCHANGED <<tid, l>>
    \/ /\ ~\E r \in DOMAIN reqs : Idle(r)
       /\ l <= Len(Lines)
       /\ \/ /\ Step
             /\ PrintT(<<"LINE", tid, l>>)
             /\ l' = l + 1
          \/ /\ \E r \in DOMAIN reqs : Useful(r) /\ DoServe(r)
             /\ UNCHANGED l
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<svars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
