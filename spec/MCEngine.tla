------------------------------ MODULE MCEngine ------------------------------
(* Exhaustive check of the engine design: two modules (one reacts to all   *)
(* request events, the other also to derived ones), requests of two        *)
(* sources, failures of modules and of the backend, closing at any time.   *)
EXTENDS Engine, TLC

CONSTANTS NReqs, MaxOuts, BackendFailures

\* content of request r: 10 * r + i; derived: 100 and more
MCMods(x) == {1, 2}
MCMatch(x, m, c) == IF m = 1 THEN c < 100 ELSE c >= 0 /\ c % 2 = 0

VARIABLES
    next,       \* next content of derived events
    batches,    \* sequence of batches given to the backend
    accepted    \* numbers of accepted batches

mcvars == <<evars, next, batches, accepted>>

Init == EngineInit(0, 0) /\ next = 100 /\ batches = <<>> /\ accepted = {}

Batch == [i \in DOMAIN cur.evs |-> <<sess, i, cur.evs[i].c>>]

Call == /\ Len(reqs) <= NReqs
        /\ phase # "stopped" /\ phase # "closed"
        /\ \E n \in 1..2 :
             LET r == Len(reqs) + 1
             IN DoCall(<<"EVENTER", r>>, [i \in 1..n |-> 10 * r + i])
        /\ UNCHANGED <<next, batches, accepted>>

Begin == \E r \in DOMAIN reqs :
            /\ CanBegin /\ CanTake(r) /\ DoBegin(r)
            /\ UNCHANGED <<next, batches, accepted>>

SessionStart == \E m \in MCMods(0) : CanSessionStart(m) /\ DoSessionStart(m)
                  /\ UNCHANGED <<next, batches, accepted>>

Process == \E m \in MCMods(0) : \E i \in DOMAIN cur.evs :
             /\ CanProcess(m, i) /\ DoProcess(m, i)
             /\ UNCHANGED <<next, batches, accepted>>

ProcessEnd == \E m \in MCMods(0) : \E k \in 0..1 :
                /\ CanProcessEnd(m)
                /\ next + k <= 100 + MaxOuts
                /\ DoProcessEnd(m, [i \in 1..k |-> next + i])
                /\ next' = next + k
                /\ UNCHANGED <<batches, accepted>>

ProcessFail == /\ cur.on /\ cur.busy # {} /\ phase = "run" /\ DoClose
               /\ UNCHANGED <<next, batches, accepted>>

SessionStop == \E m \in MCMods(0) : CanSessionStop(m) /\ DoSessionStop(m)
                 /\ UNCHANGED <<next, batches, accepted>>

Backend == /\ CanBackend /\ DoBackend
           /\ batches' = Append(batches, Batch)
           /\ UNCHANGED <<next, accepted>>

BackendEnd == \E o \in {"ok", "none"} \union
                       (IF BackendFailures THEN {"error"} ELSE {}) :
                 /\ CanBackendEnd /\ DoBackendEnd(o)
                 /\ accepted' = IF o = "ok" THEN accepted \union {Len(batches)}
                                ELSE accepted
                 /\ UNCHANGED <<next, batches>>

Answer == \E r \in 2..Len(reqs), o \in {"ok", "none", "error"} :
             /\ reqs[r].st # "answered"
             /\ CanAnswer(r, o)
             /\ o = "error" => phase # "run"
             /\ DoAnswer(r)
             /\ UNCHANGED <<next, batches, accepted>>

Close == phase = "run" /\ DoClose /\ UNCHANGED <<next, batches, accepted>>

Stop == /\ CanStop /\ DoStop
        /\ batches' = Append(batches, <<<<sess + 1, 1, Stopped>>>>)
        /\ UNCHANGED <<next, accepted>>

Closed == phase = "stopped" /\ Answered /\ DoClosed
            /\ UNCHANGED <<next, batches, accepted>>

Next == Call \/ Begin \/ SessionStart \/ Process \/ ProcessEnd \/ ProcessFail
        \/ SessionStop \/ Backend \/ BackendEnd \/ Answer \/ Close \/ Stop
        \/ Closed

Spec == Init /\ [][Next]_mcvars
             /\ WF_mcvars(Begin) /\ WF_mcvars(SessionStart)
             /\ WF_mcvars(Process) /\ WF_mcvars(ProcessEnd)
             /\ WF_mcvars(SessionStop) /\ WF_mcvars(Backend)
             /\ WF_mcvars(BackendEnd) /\ WF_mcvars(Answer) /\ WF_mcvars(Stop)
             /\ WF_mcvars(Closed)

------------------------------------------------------------------------------

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

All == Flat(batches)

\* E01
IdsUniqueAscending ==
    \A i, j \in DOMAIN All : i < j =>
        \/ All[i][1] < All[j][1]
        \/ All[i][1] = All[j][1] /\ All[i][2] < All[j][2]

InstancesConsecutive ==
    \A b \in DOMAIN batches : \A i \in DOMAIN batches[b] : batches[b][i][2] = i

\* E02: everything is processed before the session is registered
AllProcessed ==
    cur.on /\ cur.reg # "no" => Complete

\* E03: each register event is in at most one batch
RegisteredOnce ==
    \A i, j \in DOMAIN All : All[i][3] = All[j][3] => i = j

\* E04
StartedFirst == batches # <<>> => batches[1][1][3] \in {Started, Stopped}

StoppedLast == \A b \in DOMAIN batches :
    batches[b][1][3] = Stopped => b = Len(batches) /\ Len(batches[b]) = 1

EveryCallTerminates ==
    \A r \in 2..(NReqs + 1) :
        (r \in DOMAIN reqs) ~> (r \in DOMAIN reqs /\ reqs[r].st = "answered")
=============================================================================
