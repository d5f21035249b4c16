------------------------------ MODULE CliTrace ------------------------------
(* Validation of runs of the event manager.                                *)
EXTENDS Cli, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

vars == <<tid, l>>

Lines == Traces[tid].lines
Line == Lines[l]

Stride == 1000
Ev(e) == Traces[e \div Stride].events[e % Stride]

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Universe == UNION {[1..n -> {"a", "b", "c", "", "z"}] : n \in 0..3}

SameSubs(a, b) ==
    \/ a = b
    \/ \A t \in Universe : SubMatches(a, t) = SubMatches(b, t)

Interesting(cmd, e) ==
    /\ SubMatches(ExpSubs(cmd), Ev(e).type)
    /\ cmd.server.k # "none" =>
         Traces[tid].servers[Ev(e).srv + 1] = cmd.server.v

ConnClauses(cmd, conns) ==
    IF Len(conns) # 1 THEN {<<TRUE, "number of connections">>}
    ELSE LET c == conns[1]
             x == ExpConn(cmd)
         IN {<<c.name # x.name, "client name">>,
             <<c.token # x.token, "client token">>,
             <<c.server # x.server, "server id of connection">>,
             <<c.persisted # x.persisted, "persisted of connection">>,
             <<~SameSubs(c.subs, ExpSubs(cmd)), "subscription">>}

ReqClauses(cmd, reqs) ==
    LET x == ExpReqs(cmd)
    IN IF Len(reqs) # Len(x) THEN {<<TRUE, "number of requests">>}
       ELSE {<<\E i \in DOMAIN x : reqs[i].kind # x[i].kind,
               "kind of request">>} \union
            UNION {IF reqs[i].kind # x[i].kind THEN {}
                   ELSE {<<reqs[i][f] # x[i][f], "request: " \o f>> :
                           f \in DOMAIN x[i]} : i \in DOMAIN x}

CmdClauses(cmd) ==
    IF cmd.action = "invalid"
    THEN {<<Line.exc = "" /\ Line.code = 0, "invalid command is accepted">>,
          <<Line.conns # <<>>, "connection of invalid command">>}
    ELSE {<<Line.exc # "", "unexpected error">>,
          <<Line.exc = "" /\ Line.code # ExpCode(cmd), "exit code">>} \union
         (IF Line.exc # "" \/ Line.code = 2 THEN {}
          ELSE ConnClauses(cmd, Line.conns) \union
               ReqClauses(cmd, Line.reqs) \union
               {<<Line.out # ExpOut(cmd, Interesting), "output">>})

TraceInit == tid \in DOMAIN Traces /\ l = 1

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ Report(CmdClauses(Line.cmd))
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
