------------------------------ MODULE MCServer ------------------------------
(* Exhaustive check of starting of the engine and shutdown of the server.  *)
(*                                                                         *)
(* Statuses of remote servers reach the server through channels.  The      *)
(* engine starts by itself as soon as it is created by its owner (blessed) *)
(* and nothing active is known; shutdown closes parts in the given order.  *)
EXTENDS Server, Sequences, FiniteSets

CONSTANTS Order,        \* order in which parts are closed
          Budget,       \* number of changes of the environment
          MaxRegs

VARIABLES chan,     \* r -> statuses which are on their way
          view,     \* r -> last known status, "none"
          runner,   \* engine runner exists
          open,     \* engine is open
          step,     \* number of parts which are closed
          regs, flushed, sent,  \* numbers of events
          left

mvars == <<chan, view, runner, open, step, regs, flushed, sent, left>>
vars == <<svars, mvars>>

GoodOrder == <<"engine", "clients", "server", "backend">>
OldOrder == <<"clients", "engine", "server", "backend">>

Statuses == {"STANDBY", "OPERATIONAL"}

Init ==
    /\ SInit
    /\ chan = [r \in Remotes |-> <<>>]
    /\ view = [r \in Remotes |-> "none"]
    /\ runner = FALSE /\ open = FALSE /\ step = 0
    /\ regs = 0 /\ flushed = 0 /\ sent = 0
    /\ left = Budget

Closed(x) == \E i \in 1..step : Order[i] = x
Closing(x) == phase = "stop" /\ step < Len(Order) /\ Order[step + 1] = x
Next1 == step' = step + 1

\* environment

Env ==
    /\ left > 0 /\ left' = left - 1
    /\ \/ DoBless(~blessed) /\ UNCHANGED <<chan, view, runner, step>>
       \/ \E r \in Remotes :
            \/ DoPresent(r, r \notin present)
               /\ UNCHANGED <<chan, view, runner, step>>
            \/ \E s \in Statuses :
                 /\ s # rstat[r]
                 /\ DoUp(r, r \in up, s)
                 /\ chan' = [chan EXCEPT ![r] =
                               IF links[r] > 0 THEN Append(@, s) ELSE @]
                 /\ UNCHANGED <<view, runner, step>>
            \/ r \notin up /\ DoUp(r, TRUE, rstat[r])
               /\ UNCHANGED <<chan, view, runner, step>>
            \/ /\ r \in up /\ links[r] > 0      \* connection is lost
               /\ DoLink(r, -1)
               /\ chan' = [chan EXCEPT ![r] = <<>>]
               /\ view' = [view EXCEPT ![r] = "none"]
               /\ UNCHANGED <<runner, step>>
       \/ phase = "run" /\ DoPhase("stop")
          /\ UNCHANGED <<chan, view, runner, step>>
    /\ UNCHANGED <<open, regs, flushed, sent>>

\* server

Start ==
    /\ phase = "init" /\ DoPhase("run")
    /\ UNCHANGED mvars

Connect(r) ==
    /\ phase # "end" /\ r \in Followed /\ links[r] = 0 /\ ~Closed("clients")
    /\ DoLink(r, 1)
    /\ chan' = [chan EXCEPT ![r] = <<rstat[r]>>]
    /\ UNCHANGED <<view, runner, open, step, regs, flushed, sent, left>>

Deliver(r) ==
    /\ chan[r] # <<>>
    /\ view' = [view EXCEPT ![r] = Head(chan[r])]
    /\ chan' = [chan EXCEPT ![r] = Tail(@)]
    /\ UNCHANGED <<svars, runner, open, step, regs, flushed, sent, left>>

CreateRunner ==
    /\ phase # "end" /\ blessed /\ ~runner /\ ~Closed("engine")
    /\ phase = "run"
    /\ runner' = TRUE
    /\ UNCHANGED <<svars, chan, view, open, step, regs, flushed, sent, left>>

StartEngine ==
    /\ runner /\ ~open
    /\ \A r \in Remotes : view[r] \in {"none", "STANDBY"}
    /\ DoCreate
    /\ open' = TRUE
    /\ regs' = regs + 1
    /\ UNCHANGED <<chan, view, runner, step, flushed, sent, left>>

Register ==
    /\ open /\ regs < MaxRegs
    /\ regs' = regs + 1
    /\ UNCHANGED <<svars, chan, view, runner, open, step, flushed, sent,
                   left>>

\* persisted events are announced to clients
Flush ==
    /\ flushed < regs
    /\ flushed' = regs
    /\ sent' = IF Closed("server") THEN sent ELSE regs
    /\ UNCHANGED <<svars, chan, view, runner, open, step, regs, left>>

\* engine runner is closed with its engine (STOPPED event) and flush
CloseRunner ==
    /\ runner' = FALSE
    /\ open' = FALSE
    /\ regs' = IF open THEN regs + 1 ELSE regs
    /\ flushed' = regs'
    /\ sent' = IF Closed("server") THEN sent ELSE regs'

Unbless ==
    /\ runner /\ ~blessed /\ phase = "run"
    /\ CloseRunner
    /\ UNCHANGED <<svars, chan, view, step, left>>

Shutdown ==
    \/ /\ Closing("engine") /\ CloseRunner /\ Next1
       /\ UNCHANGED <<svars, chan, view, left>>
    \/ /\ Closing("clients") /\ Next1
       /\ links' = [r \in Remotes |-> 0]
       /\ chan' = [r \in Remotes |-> <<>>]
       /\ view' = [r \in Remotes |-> "none"]
       /\ UNCHANGED <<phase, blessed, present, up, rstat, eng, runner, open,
                      regs, flushed, sent, left>>
    \/ /\ Closing("server") /\ Next1
       /\ UNCHANGED <<svars, chan, view, runner, open, regs, flushed, sent,
                      left>>
    \/ /\ Closing("backend") /\ Next1
       /\ UNCHANGED <<svars, chan, view, runner, open, regs, flushed, sent,
                      left>>
    \/ /\ phase = "stop" /\ step = Len(Order)
       /\ DoPhase("end")
       /\ UNCHANGED mvars

Server ==
    \/ Start \/ CreateRunner \/ StartEngine \/ Unbless
    \/ \E r \in Remotes : Connect(r) \/ Deliver(r)

Next == Env \/ Server \/ Register \/ Flush \/ Shutdown

Fairness == WF_vars(Server) /\ WF_vars(Shutdown)
            /\ \A r \in Remotes : WF_vars(Connect(r)) /\ WF_vars(Deliver(r))
            /\ WF_vars(StartEngine) /\ WF_vars(CreateRunner) /\ WF_vars(Unbless)

Spec == Init /\ [][Next]_vars /\ Fairness

TypeOK ==
    /\ \A r \in Remotes : links[r] \in 0..1
    /\ sent <= flushed /\ flushed <= regs

\* what is known isn't wrong for ever: without messages on their way it is
\* the status of the remote server
ViewIsExact ==
    \A r \in Remotes : chan[r] = <<>> =>
        view[r] = IF links[r] > 0 THEN rstat[r] ELSE "none"

\* engine isn't started next to a server which is known as active
StartsAlone ==
    [][eng' # eng =>
         \A r \in Remotes : ~(Active(r) /\ chan[r] = <<>>)]_vars

\* shutdown doesn't start what was waiting
NoLateStart ==
    [][eng' # eng /\ phase = "stop" =>
         \A r \in Remotes : r \in present /\ r \in up =>
            rstat[r] = "STANDBY" \/ links[r] > 0 \/ ~Closed("clients")]_vars

Delivered == Closed("server") => flushed = regs /\ sent = regs /\ ~open

BackendLast == Closed("backend") => Closed("server") /\ Closed("clients") /\ ~open

OneRunnerOpen == open => runner

Ends == phase = "stop" ~> phase = "end"

Serves == []<>(open \/ ~blessed \/ phase # "run"
               \/ \E r \in Remotes : view[r] = "OPERATIONAL" \/ chan[r] # <<>>)
=============================================================================
