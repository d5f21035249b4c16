------------------------------- MODULE Engine -------------------------------
(* Event server engine: processing sessions of the registration queue.     *)
(*                                                                         *)
(* Register events are identified by their content c (unique); a created   *)
(* event is [c, src] at position i (its instance) of the session.  Each    *)
(* step has a guard (Can..) and an effect (Do..).                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS
    Mods(_),          \* set of modules of a run
    Match(_, _, _)    \* subscription of module matches content

VARIABLES
    run,        \* identifier of the run (does not change)
    phase,      \* "run", "closing", "stopped", "closed"
    sess,       \* number of the last session
    cur,        \* session in progress
    reqs,       \* Seq of [src, cs, st, evs]; the first is the STARTED event
    last        \* [sess] of the last batch given to the backend

evars == <<run, phase, sess, cur, reqs, last>>

\* contents of events created by the engine itself
Started == -1
Stopped == -2

EngineSrc == <<"ENGINE", 0>>
ModSrc(m) == <<"MODULE", m>>

NoCur == [on |-> FALSE, req |-> 0, evs |-> <<>>, started |-> {},
          stopped |-> {}, done |-> {}, busy |-> {}, reg |-> "no"]

NewReq(src, cs) == [src |-> src, cs |-> cs, st |-> "pending", evs |-> <<>>]

EngineInit(k, s) ==
    /\ run = k
    /\ phase = "run"
    /\ sess = s
    /\ cur = NoCur
    /\ reqs = <<NewReq(EngineSrc, <<Started>>)>>
    /\ last = s

------------------------------------------------------------------------------

DoCall(src, cs) ==
    /\ reqs' = Append(reqs, NewReq(src, cs))
    /\ UNCHANGED <<run, phase, sess, cur, last>>

\* beginning of a session with a request which might not be known yet (0)
CanBegin == ~cur.on /\ phase \in {"run", "closing"}

CanTake(r) ==
    /\ r \in DOMAIN reqs
    /\ reqs[r].st = "pending"
    /\ r # 1 => reqs[1].st # "pending"      \* STARTED is the first

Evs(r) == [i \in DOMAIN reqs[r].cs |-> [c |-> reqs[r].cs[i],
                                         src |-> reqs[r].src]]

Begun(r) == [NoCur EXCEPT !.on = TRUE, !.req = r,
                          !.evs = IF r = 0 THEN <<>> ELSE Evs(r)]

DoBegin(r) ==
    /\ sess' = sess + 1
    /\ cur' = Begun(r)
    /\ reqs' = IF r = 0 THEN reqs ELSE [reqs EXCEPT ![r].st = "active"]
    /\ UNCHANGED <<run, phase, last>>

\* request of the session in progress becomes known
DoResolve(r) ==
    /\ cur' = [cur EXCEPT !.req = r,
                          !.evs = IF r \in DOMAIN reqs THEN Evs(r) ELSE <<>>]
    /\ reqs' = IF r \in DOMAIN reqs THEN [reqs EXCEPT ![r].st = "active"]
               ELSE reqs
    /\ UNCHANGED <<run, phase, sess, last>>

CanSessionStart(m) == cur.on /\ m \notin cur.started

DoSessionStart(m) ==
    /\ cur' = [cur EXCEPT !.started = @ \union {m}]
    /\ UNCHANGED <<run, phase, sess, reqs, last>>

CanProcess(m, i) ==
    /\ cur.on
    /\ cur.reg = "no"
    /\ m \in cur.started \ (cur.stopped \union cur.busy)
    /\ i \in DOMAIN cur.evs
    /\ Match(run, m, cur.evs[i].c)
    /\ <<m, i>> \notin cur.done
    /\ \A j \in 1..(i - 1) : Match(run, m, cur.evs[j].c) => <<m, j>> \in cur.done

DoProcess(m, i) ==
    /\ cur' = [cur EXCEPT !.busy = @ \union {m}, !.done = @ \union {<<m, i>>}]
    /\ UNCHANGED <<run, phase, sess, reqs, last>>

CanProcessEnd(m) == cur.on /\ m \in cur.busy

DoProcessEnd(m, outs) ==
    /\ cur' = [cur EXCEPT !.busy = @ \ {m},
                          !.evs = @ \o [i \in DOMAIN outs |->
                                          [c |-> outs[i], src |-> ModSrc(m)]]]
    /\ UNCHANGED <<run, phase, sess, reqs, last>>

Complete ==
    \A m \in Mods(run) : \A i \in DOMAIN cur.evs :
        Match(run, m, cur.evs[i].c) => <<m, i>> \in cur.done

CanSessionStop(m) ==
    /\ cur.on
    /\ m \in cur.started \ cur.stopped
    /\ cur.busy = {}
    /\ Complete

DoSessionStop(m) ==
    /\ cur' = [cur EXCEPT !.stopped = @ \union {m}]
    /\ UNCHANGED <<run, phase, sess, reqs, last>>

\* the session is given to the backend as one batch
CanBackend ==
    /\ cur.on
    /\ cur.reg = "no"
    /\ cur.busy = {}
    /\ cur.stopped = Mods(run)
    /\ Complete

DoBackend ==
    /\ cur' = [cur EXCEPT !.reg = "call"]
    /\ last' = sess
    /\ UNCHANGED <<run, phase, sess, reqs>>

\* outcome is "ok", "none" or "error"
CanBackendEnd == cur.on /\ cur.reg = "call"

DoBackendEnd(outcome) ==
    /\ reqs' = IF cur.req \notin DOMAIN reqs THEN reqs
               ELSE [reqs EXCEPT
                       ![cur.req].st = outcome,
                       ![cur.req].evs = <<sess, Len(reqs[cur.req].cs)>>]
    /\ cur' = IF outcome = "error" THEN [cur EXCEPT !.reg = "error"] ELSE NoCur
    /\ phase' = IF outcome = "error" /\ phase = "run" THEN "closing"
                ELSE phase
    /\ UNCHANGED <<run, sess, last>>

\* answer of a registration
CanAnswer(r, outcome) ==
    CASE outcome = "ok" -> reqs[r].st = "ok"
      [] outcome = "none" -> reqs[r].st = "none"
      [] outcome = "error" -> phase # "run" /\ reqs[r].st # "answered"

DoAnswer(r) ==
    /\ reqs' = [reqs EXCEPT ![r].st = "answered"]
    /\ UNCHANGED <<run, phase, sess, cur, last>>

\* closing is requested, or caused by a failure of a module
DoClose ==
    /\ phase' = IF phase = "run" THEN "closing" ELSE phase
    /\ UNCHANGED <<run, sess, cur, reqs, last>>

\* session in progress is abandoned, STOPPED is the only event of the last
\* session
CanStop == phase = "closing"

DoStop ==
    /\ phase' = "stopped"
    /\ sess' = sess + 1
    /\ last' = sess + 1
    /\ cur' = NoCur
    /\ UNCHANGED <<run, reqs>>

Answered == \A r \in 2..Len(reqs) : reqs[r].st = "answered"

DoClosed ==
    /\ phase' = "closed"
    /\ UNCHANGED <<run, sess, cur, reqs, last>>
=============================================================================
