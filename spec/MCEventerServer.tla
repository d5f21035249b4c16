-------------------------- MODULE MCEventerServer --------------------------
(* Eventer server with two connections (one may have an invalid token),    *)
(* engines which start, close and are replaced at any time, and the events *)
(* which the engines get.                                                  *)
EXTENDS EventerServer, TLC

CONSTANTS MaxEngines, MaxReqs

VARIABLES
    n,          \* number of engines
    log         \* registered events <<engine, source, connection, kind>>

mcvars == <<svars, n, log>>

Init == SInit /\ n = 0 /\ log = <<>>

Record(src, k, kind) == log' = Append(log, <<eng, src, k, kind>>)

Start == /\ eng = 0 /\ n < MaxEngines
         /\ DoEngine(n + 1) /\ n' = n + 1 /\ UNCHANGED log

Close == eng # 0 /\ eopen /\ DoEngineClose /\ UNCHANGED <<n, log>>

Stop == eng # 0 /\ DoEngine(0) /\ UNCHANGED <<n, log>>

Connect == /\ Len(conns) < 2
           /\ \E v \in BOOLEAN : (Len(conns) = 0 => v) /\
                DoConnect(Len(conns) + 1, v)
           /\ UNCHANGED <<n, log>>

\* the server registers CONNECTED as soon as it gets the request
Hello == \E k \in DOMAIN conns :
           LET src == <<"EVENTER", k>>
           IN /\ CanHello(k, src) /\ DoHello(k, src)
              /\ Record(src, k, "CONNECTED") /\ UNCHANGED n

HelloFail == \E k \in DOMAIN conns :
               /\ conns[k].hello /\ ~conns[k].opened /\ ~conns[k].rejected
               /\ ~eopen
               /\ DoHelloFail(k) /\ UNCHANGED <<n, log>>

Open == \E k \in DOMAIN conns :
          CanOpen(k) /\ (eopen => conns[k].hello) /\ DoOpen(k)
            /\ UNCHANGED <<n, log>>

Fail == \E k \in DOMAIN conns : \E refused \in BOOLEAN :
          /\ conns[k].st = "connecting"
          /\ CanFail(k, refused) /\ DoFail(k) /\ UNCHANGED <<n, log>>

Request == \E k \in DOMAIN conns :
             /\ conns[k].st = "open" /\ Len(conns[k].reqs) < MaxReqs
             /\ DoRequest(k, Len(conns[k].reqs) + 1, TRUE)
             /\ UNCHANGED <<n, log>>

Pass == \E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
          LET src == <<"EVENTER", k>>
          IN /\ CanPass(k, r, src) /\ DoPass(k, r, src)
             /\ Record(src, k, "data") /\ UNCHANGED n

PassEnd == \E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
             \E o \in {"ok", "none", "error"} :
               /\ conns[k].reqs[r].st = "passed"
               /\ o = "error" => ~eopen
               /\ DoPassEnd(k, r, <<o, <<>>>>) /\ UNCHANGED <<n, log>>

Answer == \E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
            \E o \in {"ok", "none", "connection"} :
               /\ ~conns[k].reqs[r].over
               /\ CanAnswer(k, r, <<o, <<>>>>) /\ DoAnswer(k, r)
               /\ UNCHANGED <<n, log>>

Cause == \E k \in DOMAIN conns : ~conns[k].cause /\ DoCause({k})
           /\ UNCHANGED <<n, log>>

End == \E k \in DOMAIN conns : conns[k].st = "open" /\ CanEnd(k) /\ DoEnd(k)
         /\ UNCHANGED <<n, log>>

\* after the connection's requests
Bye == \E k \in DOMAIN conns :
         LET src == <<"EVENTER", k>>
         IN /\ conns[k].opened \/ conns[k].hello
            /\ CanBye(k, src) /\ DoBye(k, src)
            /\ Record(src, k, "DISCONNECTED") /\ UNCHANGED n

Next == Start \/ Close \/ Stop \/ Connect \/ Hello \/ HelloFail \/ Open \/ Fail
        \/ Request \/ Pass \/ PassEnd \/ Answer \/ Cause \/ End \/ Bye

Spec == Init /\ [][Next]_mcvars
             /\ WF_mcvars(Stop) /\ WF_mcvars(PassEnd) /\ WF_mcvars(Answer)
             /\ WF_mcvars(End) /\ WF_mcvars(Bye)

------------------------------------------------------------------------------

Of(k) == SelectSeq(log, LAMBDA x : x[3] = k)

Announced ==
    \A k \in DOMAIN conns :
        LET s == Of(k)
        IN /\ \A i \in DOMAIN s : s[i][4] = "CONNECTED" => i = 1
           /\ \A i \in DOMAIN s : s[i][4] = "DISCONNECTED" => i = Len(s)

SourcesDistinct ==
    \A i, j \in DOMAIN log : log[i][2] = log[j][2] <=> log[i][3] = log[j][3]

OnlyValid == \A k \in DOMAIN conns :
    ~conns[k].valid => Of(k) = <<>> /\ ~conns[k].opened

\* events of a connection opened during an engine begin with CONNECTED
HelloFirst ==
    \A k \in DOMAIN conns :
        (conns[k].opened /\ conns[k].steady) =>
            Of(k) # <<>> /\ Of(k)[1][4] = "CONNECTED"

RequestsEnd ==
    \A k \in 1..2 : \A r \in 1..MaxReqs :
        (k \in DOMAIN conns /\ r \in DOMAIN conns[k].reqs) ~>
            (k \in DOMAIN conns /\ r \in DOMAIN conns[k].reqs /\
               conns[k].reqs[r].over)
=============================================================================
