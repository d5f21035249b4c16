---------------------------- MODULE MCComponent ----------------------------
(* Exhaustive check of the life cycle of a component.                      *)
(*                                                                         *)
(* The monitor decides about blessing and the active server, its decisions *)
(* are seen in order.  One loop connects to the server which was last seen *)
(* as active, creates a runner, waits, and closes runner and connection.   *)
(* Creation of the runner may take long; the decision to stop and the loss *)
(* of connection come at any time.                                         *)
EXTENDS Component, Sequences, FiniteSets

CONSTANTS Budget,       \* number of changes of the environment
          Retries       \* lost connection during creation is retried

VARIABLES chan,     \* decisions of monitor which are on their way
          loop,     \* "none", "connect", "create", "run", "close"
          target,   \* server of the loop
          lost,     \* connection of the loop is lost
          made,     \* runner of the loop, 0 for none
          last,     \* last runner
          left

mvars == <<chan, loop, target, lost, made, last, left>>
vars == <<cvars, mvars>>

Decisions == [on : BOOLEAN, a : Servers]

Init ==
    /\ CInit
    /\ chan = <<>> /\ loop = "none" /\ target = 0 /\ lost = FALSE
    /\ made = 0 /\ last = 0 /\ left = Budget

Allowed == phase = "run" /\ ready /\ seen.on /\ seen.a # 0
\* the loop has to give up
Stop == ~Allowed \/ seen.a # target

Env ==
    /\ left > 0 /\ left' = left - 1
    /\ \/ \E d \in Decisions :
            /\ chan' = Append(chan, d)
            /\ UNCHANGED <<cvars, loop, target, lost, made, last>>
       \/ DoReady(~ready) /\ UNCHANGED <<chan, loop, target, lost, made, last>>
       \/ \E r \in Servers \ {0} :
            /\ DoUp(r, r \notin up)
            /\ lost' = (lost \/ (r \in up /\ r = target /\
                                 loop \in {"create", "run"}))
            /\ UNCHANGED <<chan, loop, target, made, last>>
       \/ /\ loop \in {"create", "run"} /\ ~lost
          /\ lost' = TRUE
          /\ UNCHANGED <<cvars, chan, loop, target, made, last>>
       \/ /\ phase = "run" /\ DoPhase("closing")
          /\ UNCHANGED <<chan, loop, target, lost, made, last>>

See ==
    /\ chan # <<>>
    /\ DoSeen(Head(chan).on, Head(chan).a)
    /\ chan' = Tail(chan)
    /\ UNCHANGED <<loop, target, lost, made, last, left>>

Begin ==
    /\ loop = "none" /\ Allowed
    /\ loop' = "connect" /\ target' = seen.a /\ lost' = FALSE
    /\ UNCHANGED <<cvars, chan, made, last, left>>

Connect ==
    /\ loop = "connect" /\ ~Stop /\ target \in up
    /\ DoConn(target, 1)
    /\ loop' = "create" /\ lost' = FALSE
    /\ UNCHANGED <<chan, target, made, last, left>>

StartRunner ==
    /\ loop = "create" /\ made = 0
    /\ last' = last + 1 /\ made' = last'
    /\ DoCreate(last')
    /\ UNCHANGED <<chan, loop, target, lost, left>>

\* runner is created
Created ==
    /\ loop = "create" /\ made # 0 /\ ~Stop /\ ~lost
    /\ loop' = "run"
    /\ UNCHANGED <<cvars, chan, target, lost, made, last, left>>

GiveUp ==
    /\ loop \in {"create", "run"} /\ (Stop \/ lost)
    /\ \/ Retries \/ loop = "run" \/ ~lost
    /\ loop' = "close"
    /\ UNCHANGED <<cvars, chan, target, lost, made, last, left>>

\* the loop ends with a connection which is lost during creation
Die ==
    /\ ~Retries /\ loop = "create" /\ lost
    /\ conns' = [conns EXCEPT ![target] = @ - 1]
    /\ runners' = IF made # 0 THEN runners \ {made} ELSE runners
    /\ made' = 0
    /\ loop' = "dead"
    /\ UNCHANGED <<phase, ready, seen, up, chan, target, lost, last, left>>

\* the dead loop is replaced when another one is needed
Replace ==
    /\ loop = "dead" /\ Stop
    /\ loop' = "none"
    /\ UNCHANGED <<cvars, chan, target, lost, made, last, left>>

CloseRunner ==
    /\ loop = "close" /\ made # 0
    /\ DoClosed(made) /\ made' = 0
    /\ UNCHANGED <<chan, loop, target, lost, last, left>>

Disconnect ==
    /\ loop = "close" /\ made = 0
    /\ DoConn(target, -1)
    /\ loop' = IF Stop THEN "none" ELSE "connect"
    /\ UNCHANGED <<chan, target, lost, made, last, left>>

Abandon ==
    /\ loop = "connect" /\ Stop
    /\ loop' = "none"
    /\ UNCHANGED <<cvars, chan, target, lost, made, last, left>>

End ==
    /\ phase = "closing" /\ loop \in {"none", "dead"}
    /\ DoPhase("end")
    /\ UNCHANGED mvars

Component1 ==
    \/ See \/ Begin \/ Connect \/ StartRunner \/ Created \/ GiveUp \/ Die
    \/ Replace \/ CloseRunner \/ Disconnect \/ Abandon \/ End

Next == Env \/ Component1

Spec == Init /\ [][Next]_vars /\ WF_vars(Component1)

TypeOK ==
    /\ \A r \in Servers : conns[r] \in 0..1
    /\ loop \in {"none", "connect", "create", "run", "close", "dead"}

AtMostOne == Cardinality(runners) <= 1

OneConnection ==
    \A r \in Servers : \A q \in Servers : conns[r] + conns[q] < 2 \/ r = q

RunnerIsServed == made # 0 => made \in runners /\ conns[target] = 1

NothingAfterEnd == phase = "end" => runners = {} /\ \A r \in Servers : conns[r] = 0

StartsAllowed ==
    [][runners' \ runners # {} => target # 0 /\ conns[target] = 1]_vars

\* once nothing changes the component does what it has to
Converges ==
    <>[](IF Target # 0 THEN runners # {} /\ conns[Target] = 1 /\ loop = "run"
         ELSE runners = {} /\ \A r \in Servers : conns[r] = 0)

Ends == phase = "closing" ~> phase = "end"
=============================================================================
