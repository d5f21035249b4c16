------------------------------ MODULE MCRunner ------------------------------
(* Exhaustive check of Runner.tla with a program of the runner: remote     *)
(* activity, restarts, failures and closing occur at any time.             *)
EXTENDS Runner, Naturals

CONSTANTS Budget,       \* number of changes of the environment
          MaxRegs

VARIABLES pc, left, was

vars == <<rvars, pc, left, was>>

Init == RInit /\ pc = "wait" /\ left = Budget /\ was = "STANDBY"

Announce(s, next) ==
    /\ CanAnnounce(s) /\ DoAnnounce(s) /\ was' = status /\ pc' = next
    /\ UNCHANGED left

Step(next) == pc' = next /\ UNCHANGED <<left, was>>

\* program of the runner; stop interrupts it at any time
Program ==
    \/ pc = "wait" /\ ~stop /\ Announce("STARTING", "create")
    \/ pc = "create" /\ ~stop /\ CanCreate /\ DoCreate /\ Step("creating")
    \/ pc = "creating" /\ DoCreated /\ Step("created")
    \/ pc = "creating" /\ DoCreateFail /\ Step("stop")
    \/ pc = "created" /\ Announce("OPERATIONAL", "run")
    \/ pc = "run" /\ again /\ eng = "open" /\ ~stop /\ DoTell /\ Step("again")
    \/ pc = "again" /\ Announce("STOPPING", "rclose")
    \/ /\ pc \in {"wait", "create", "created", "run", "again"} /\ stop
       /\ IF eng = "none" THEN UNCHANGED rvars ELSE DoTell
       /\ Step("stop")
    \/ /\ pc \in {"rclose", "rclosed", "rflush"} /\ stop
       /\ UNCHANGED rvars /\ Step("stop")
    \/ pc = "stop" /\ Announce("STOPPING", "close")
    \/ /\ pc \in {"close", "rclose"}
       /\ IF eng = "none" THEN UNCHANGED rvars ELSE DoClosed
       /\ Step(IF pc = "close" THEN "closed" ELSE "rclosed")
    \/ /\ pc \in {"closed", "rclosed"}
       /\ DoFlush(regs)
       /\ Step(IF pc = "closed" THEN "flush" ELSE "rflush")
    \/ pc = "flush" /\ Announce("STANDBY", "end")
    \/ pc = "rflush" /\ ~stop /\ Announce("STANDBY", "wait")

Env ==
    \/ /\ left > 0
       /\ left' = left - 1
       /\ \/ DoRemote(~remote)
          \/ pc = "run" /\ ~again /\ DoAgain
          \/ ~stop /\ pc # "end" /\ DoStop
          \/ eng = "open" /\ pc \in {"created", "run"} /\ DoFail
       /\ UNCHANGED <<pc, was>>
    \/ /\ CanRegister /\ regs < MaxRegs
       /\ DoRegister
       /\ UNCHANGED <<pc, left, was>>

Next == Program \/ Env

Spec == Init /\ [][Next]_vars /\ WF_vars(Program)

TypeOK ==
    /\ status \in {"STANDBY", "STARTING", "OPERATIONAL", "STOPPING"}
    /\ eng \in {"none", "creating", "open", "failed", "closing"}
    /\ flushed <= regs

\* cycle of the announced status
Cycle ==
    [][status' # status =>
         \/ <<status, status'>> \in {<<"STANDBY", "STARTING">>,
                                     <<"STARTING", "OPERATIONAL">>,
                                     <<"OPERATIONAL", "STOPPING">>,
                                     <<"STOPPING", "STANDBY">>}
         \/ stop /\ status' = "STOPPING"]_vars

StandbyIsQuiet == status = "STANDBY" => eng = "none" /\ flushed = regs

OperationalHasEngine ==
    status = "OPERATIONAL" => eng \in {"open", "failed", "closing"}

NewEngineIsAlone ==
    [][eng' = "creating" /\ eng # "creating" => eng = "none"]_vars

\* engine is created only when it was allowed
Allowed == [][status' = "STARTING" /\ status # "STARTING" => ~remote]_vars

Closes == stop ~> (pc = "end" /\ status = "STANDBY" /\ eng = "none")

Starts == []<>(remote \/ stop \/ status = "OPERATIONAL" \/ pc = "creating")
=============================================================================
