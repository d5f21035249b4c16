---------------------------- MODULE EngineTrace ----------------------------
(* Validation of engine histories.                                         *)
(*                                                                         *)
(* Traces[tid] = [mods : Seq of subscriptions, contents : Seq of           *)
(* [type, sts], server : STRING, mono : BOOLEAN (clock is monotone),       *)
(* lines : Seq].  Events in lines are [srv, sess, inst, ts, sts, type, c]. *)
EXTENDS Engine, EventTypes, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, lastts, cancelled

TraceMods(x) == DOMAIN Traces[x].mods

ContentOf(x, c) ==
    IF c < 0
    THEN [type |-> <<"event", Traces[x].server, "engine">>, sts |-> 0]
    ELSE Traces[x].contents[c]

TraceMatch(x, m, c) == SubMatches(Traces[x].mods[m], ContentOf(x, c).type)

vars == <<tid, l, evars, lastts, cancelled>>

tvars == <<lastts, cancelled>>

Content(c) == ContentOf(tid, c)

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ EngineInit(tid, 0)
    /\ lastts = -1
    /\ cancelled = {}

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Range(s) == {s[i] : i \in DOMAIN s}

Src(x) == <<x[1], x[2]>>

------------------------------------------------------------------------------

IsStopped(evs) == Len(evs) = 1 /\ evs[1].c = Stopped

\* request with content c which is not yet processed
Find(c) ==
    IF \E r \in DOMAIN reqs : reqs[r].st = "pending" /\ c \in Range(reqs[r].cs)
    THEN CHOOSE r \in DOMAIN reqs :
            reqs[r].st = "pending" /\ c \in Range(reqs[r].cs)
    ELSE 0

InSession ==
    Line.op \in {"sstart", "proc"} \/ (Line.op = "breg" /\ ~IsStopped(Line.evs))

LineContent == CASE Line.op = "proc" -> Line.ev.c
                 [] Line.op = "breg" -> IF Line.evs = <<>> THEN 0
                                        ELSE Line.evs[1].c
                 [] OTHER -> 0

NeedBegin == InSession /\ ~cur.on

NeedResolve == InSession /\ cur.on /\ cur.req = 0 /\ Line.op # "sstart"

THide ==
    /\ \/ /\ NeedBegin
          /\ Report({<<~CanBegin, "session in a stopped engine">>})
          /\ DoBegin(0)
       \/ /\ NeedResolve
          /\ LET r == Find(LineContent)
             IN /\ Report({<<r = 0, "session of unknown request">>,
                           <<r # 0 /\ ~CanTake(r), "STARTED is not the first">>})
                /\ DoResolve(IF r = 0 THEN -1 ELSE r)
    /\ UNCHANGED tvars

------------------------------------------------------------------------------

\* clauses of an event at position i of the session
EventClauses(ev, i, c, s) ==
    {<<ev.srv # 1, "server id">>,
     <<ev.sess # s, "session number">>,
     <<ev.inst # i, "instance number">>,
     <<ev.c # c, "event or payload">>,
     <<ev.c = c /\ ev.type # Content(c).type, "event type">>,
     <<ev.c = c /\ ev.sts # Content(c).sts, "source timestamp">>}

BatchClauses(evs, cs, s) ==
    {<<Len(evs) # Len(cs), "number of events">>} \union
    UNION {EventClauses(evs[i], i, cs[i], s)
             : i \in 1..(IF Len(evs) < Len(cs) THEN Len(evs) ELSE Len(cs))}

TimeClauses(evs) ==
    {<<\E i, j \in DOMAIN evs : evs[i].ts # evs[j].ts,
       "timestamp is not shared">>,
     <<Traces[tid].mono /\ \E i \in DOMAIN evs : evs[i].ts < lastts,
       "timestamp decreases">>}

Cs(evs) == [i \in DOMAIN evs |-> evs[i].c]

TCall ==
    /\ Line.op = "regcall"
    /\ DoCall(Src(Line.src), Line.cs)
    /\ UNCHANGED tvars

TAnswer ==
    /\ Line.op = "regend"
    /\ IF Line.out = "cancelled"
       THEN /\ cancelled' = cancelled \union {Line.r}
            /\ UNCHANGED <<evars, lastts>>
       ELSE /\ LET q == reqs[Line.r]
               IN Report(
                    {<<~CanAnswer(Line.r, Line.out),
                       IF Line.out = "error" THEN "unexpected error"
                       ELSE "answer doesn't agree with the backend">>} \union
                    (IF Line.out = "ok" /\ q.st = "ok"
                     THEN BatchClauses(Line.evs, q.cs, q.evs[1]) ELSE {}))
            /\ DoAnswer(Line.r)
            /\ UNCHANGED tvars

TEmpty ==
    /\ Line.op = "regempty"
    /\ Report({<<phase = "run" /\ Line.out # "ok", "unexpected error">>,
               <<Line.out = "ok" /\ Line.evs # <<>>,
                 "events without register events">>})
    /\ UNCHANGED <<evars, tvars>>

TSessionStart ==
    /\ Line.op = "sstart"
    /\ ~NeedBegin
    /\ Report({<<~CanSessionStart(Line.m), "repeated session start">>,
               <<Line.sess # sess, "session number">>,
               <<cur.reg # "no", "overlapping sessions">>})
    /\ DoSessionStart(Line.m)
    /\ UNCHANGED tvars

TProcess ==
    /\ Line.op = "proc"
    /\ ~NeedBegin /\ ~NeedResolve
    /\ LET m == Line.m
           is == {i \in DOMAIN cur.evs : cur.evs[i].c = Line.ev.c}
           i == IF is = {} THEN 0 ELSE CHOOSE x \in is : TRUE
       IN IF i = 0
          THEN /\ Report({<<TRUE, "event is not in the session">>})
               /\ UNCHANGED evars
          ELSE /\ Report(
                    EventClauses(Line.ev, i, cur.evs[i].c, sess) \union
                    {<<Src(Line.src) # cur.evs[i].src, "source">>,
                     <<cur.reg # "no", "processing of registered session">>,
                     <<m \notin cur.started, "session is not started">>,
                     <<m \in cur.stopped, "session is stopped">>,
                     <<m \in cur.busy, "processing is not sequential">>,
                     <<~TraceMatch(tid, m, Line.ev.c), "subscription">>,
                     <<<<m, i>> \in cur.done, "event is processed again">>,
                     <<~CanProcess(m, i), "processing">>})
               /\ DoProcess(m, i)
    /\ UNCHANGED tvars

TProcessEnd ==
    /\ Line.op = "procend"
    /\ Report({<<~CanProcessEnd(Line.m), "processing">>})
    /\ DoProcessEnd(Line.m, Line.outs)
    /\ UNCHANGED tvars

TProcessFail ==
    /\ Line.op = "procfail"
    /\ DoClose
    /\ UNCHANGED tvars

TSessionStop ==
    /\ Line.op = "sstop"
    /\ Report({<<~cur.on, "stop of unknown session">>,
               <<Line.sess # sess, "session number">>,
               <<~CanSessionStop(Line.m),
                 "session is stopped before everything is processed">>})
    /\ DoSessionStop(Line.m)
    /\ UNCHANGED tvars

TBackend ==
    /\ Line.op = "breg"
    /\ ~NeedBegin /\ ~NeedResolve
    /\ LET evs == Line.evs
       IN IF IsStopped(evs)
          THEN /\ Report(BatchClauses(evs, <<Stopped>>, sess + 1) \union
                         TimeClauses(evs) \union
                         {<<phase = "run", "STOPPED while running">>,
                          <<phase = "stopped", "repeated STOPPED">>})
               /\ DoStop
          ELSE /\ Report(BatchClauses(evs, Cs(cur.evs), sess) \union
                         TimeClauses(evs) \union
                         {<<~Complete, "events aren't processed">>,
                          <<cur.stopped # TraceMods(tid),
                            "session is not stopped">>,
                          <<~CanBackend, "registering of session">>})
               /\ DoBackend
    /\ lastts' = IF Line.evs = <<>> THEN lastts ELSE Line.evs[1].ts
    /\ UNCHANGED cancelled

TBackendEnd ==
    /\ Line.op = "bregend"
    /\ IF phase = "stopped" THEN UNCHANGED evars ELSE DoBackendEnd(Line.out)
    /\ UNCHANGED tvars

TClosing ==
    /\ Line.op = "closing"
    /\ DoClose
    /\ UNCHANGED tvars

\* functions which modules use are passed once, with the same arguments
TCallee ==
    /\ Line.op = "api"
    /\ Report({<<Line.seen # (IF Line.call = "server" THEN <<>>
                              ELSE <<Line.call>>) \/
                 \E i \in DOMAIN Line.args : Line.args[i] # Line.arg,
                 "call of engine function is not passed">>,
               <<Line.out # Line.expected, "result of engine function">>})
    /\ UNCHANGED <<evars, tvars>>

\* enough time has passed
TQuiet ==
    /\ Line.op = "quiet"
    /\ Report({<<phase = "run" /\ ~Line.open,
                 "engine is closed without a reason">>,
               <<phase = "run" /\ Line.mods # Cardinality(TraceMods(tid)),
                 "module is closed without a reason">>,
               <<phase # "run" /\ Line.open,
                 "engine goes on after failure">>})
    /\ UNCHANGED <<evars, tvars>>

\* creation of the engine failed: no session is expected
TCreateFail ==
    /\ Line.op = "createfail"
    /\ Report({<<phase = "run", "engine is not created">>})
    /\ phase' = "stopped"
    /\ UNCHANGED <<run, sess, cur, reqs, last, tvars>>

TClosed ==
    /\ Line.op = "closed"
    /\ Report({<<~Line.closed, "engine doesn't close">>,
               <<Line.mods # 0, "module isn't closed">>,
               <<phase # "stopped", "STOPPED is not registered">>,
               <<\E r \in 2..Len(reqs) :
                    r \notin cancelled /\ reqs[r].st # "answered",
                 "registration doesn't terminate">>})
    /\ DoClosed
    /\ UNCHANGED tvars

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ /\ THide
             /\ UNCHANGED l
          \/ /\ \/ TCall \/ TAnswer \/ TEmpty \/ TSessionStart \/ TProcess
                \/ TProcessEnd \/ TProcessFail \/ TSessionStop \/ TBackend
                \/ TBackendEnd \/ TClosing \/ TCreateFail \/ TClosed
                \/ TCallee \/ TQuiet
             /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<evars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
