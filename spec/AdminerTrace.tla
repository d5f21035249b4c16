---------------------------- MODULE AdminerTrace ----------------------------
(* Validation of histories of an adminer server and its clients.           *)
(*                                                                         *)
(* Traces[tid] = [lines : Seq].  Contents and results are numbers, unique  *)
(* except for contents of gets; -1 is unknown content, and the result of   *)
(* failures whose text isn't given by the server's callback.               *)
EXTENDS Adminer, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, causes, stopped

vars == <<tid, l, avars, causes, stopped>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ AInit
    /\ causes = {}
    /\ stopped = FALSE

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

TRequest ==
    /\ Line.op = "req"
    /\ DoRequest(Line.r, Line.c, Line.kind, Line.v)
    /\ UNCHANGED <<causes, stopped>>

TCall ==
    /\ Line.op = "call"
    /\ LET served == Cardinality(Served(Line.kind, Line.v))
           known == Cardinality(Servable(Line.kind, Line.v))
       IN Report({<<known = 0, "call without a request">>,
                  <<known > 0 /\ served >= known, "repeated call">>})
    /\ DoCall(Line.n, Line.kind, Line.v)
    /\ UNCHANGED <<causes, stopped>>

TReturn ==
    /\ Line.op = "return"
    /\ DoReturn(Line.n, Line.out, Line.res)
    /\ UNCHANGED <<causes, stopped>>

\* server without callbacks answers with an error
Missing(kind) == \E i \in DOMAIN Traces[tid].missing :
                    Traces[tid].missing[i] = kind

TAnswer ==
    /\ Line.op = "reqend"
    /\ LET r == Line.r
           c == reqs[r].c
           ns == Answers(r, Line.out, Line.res)
       IN IF Line.out \in {"ok", "error"} /\ ns # {}
          THEN DoAnswer(r, CHOOSE n \in ns : TRUE)
          ELSE /\ Report(
                  {<<Line.out = "ok", "result of another request">>,
                   <<Line.out = "error" /\ ~Missing(reqs[r].kind),
                     "error of another request">>,
                   <<Line.out = "other", "failure isn't a connection error">>,
                   <<Line.out = "connection" /\ c \notin causes /\ ~stopped,
                     "connection error of an open connection">>})
               /\ DoDrop(r)
    /\ UNCHANGED <<causes, stopped>>

TCause ==
    \/ /\ Line.op = "cause"
       /\ causes' = causes \union {Line.c}
       /\ UNCHANGED <<avars, stopped>>
    \/ /\ Line.op = "srvclose"
       /\ stopped' = TRUE
       /\ UNCHANGED <<avars, causes>>

TEnded ==
    /\ Line.op = "ended"
    /\ Report({<<Line.c \notin causes /\ ~stopped,
                 "connection ends without a reason">>})
    /\ DoEnded(Line.c)
    /\ UNCHANGED <<causes, stopped>>

\* nothing is on its way
TQuiet ==
    /\ Line.op = "quiet"
    /\ Report({<<\E r \in DOMAIN reqs : reqs[r].st = "wait",
                 "request isn't answered">>,
               <<\E c \in causes : c \notin ended /\ c # 0,
                 "end of connection isn't noticed">>,
               <<~Line.open /\ ~stopped, "server is closed">>})
    /\ UNCHANGED <<avars, causes, stopped>>

TClosed ==
    /\ Line.op = "closed"
    /\ Report({<<\E r \in DOMAIN reqs : reqs[r].st = "wait",
                 "request doesn't end with its connection">>,
               <<~Line.closed, "server isn't closed">>})
    /\ UNCHANGED <<avars, causes, stopped>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TRequest \/ TCall \/ TReturn \/ TAnswer \/ TCause \/ TEnded
          \/ TQuiet \/ TClosed
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<avars, causes, stopped, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
