-------------------------------- MODULE Sync --------------------------------
(* Copy of the history of a remote server.                                 *)
(*                                                                         *)
(* rem is the history of persisted events of the remote server, each given *)
(* by the number of its session; stored is the number of copied events,    *)
(* the first durable of which survive a crash of the local server.  state  *)
(* is the synchronisation state of the current connection.                 *)
EXTENDS Naturals, Sequences

VARIABLES rem, stored, durable, state

yvars == <<rem, stored, durable, state>>

\* phase: "none", "CONNECTED", "SYNCING", "SYNCED"
NewState == [on |-> FALSE, phase |-> "none",
             got |-> 0,         \* number of events obtained by queries
             upto |-> 0,        \* last event obtained by queries
             more |-> TRUE]     \* last query had more events

YInit == rem = <<>> /\ stored = 0 /\ durable = 0 /\ state = NewState

DoPersist(sessions) ==
    /\ rem' = rem \o sessions
    /\ UNCHANGED <<stored, durable, state>>

DoOpen ==
    /\ state' = [NewState EXCEPT !.on = TRUE]
    /\ UNCHANGED <<rem, stored, durable>>

DoClose ==
    /\ state' = [state EXCEPT !.on = FALSE]
    /\ UNCHANGED <<rem, stored, durable>>

\* whether event i is the last one of its session
SessionEnd(i) == i = Len(rem) \/ rem[i + 1] # rem[i]

\* events a..b are stored
CanStore(a, b) ==
    /\ a = stored + 1
    /\ a <= b /\ b <= Len(rem)
    /\ SessionEnd(b)

DoStore(b) ==
    /\ stored' = IF b > stored THEN b ELSE stored
    /\ UNCHANGED <<rem, durable, state>>

DoFlush ==
    /\ durable' = stored
    /\ UNCHANGED <<rem, stored, state>>

DoCrash ==
    /\ stored' = durable
    /\ state' = NewState
    /\ UNCHANGED <<rem, durable>>

\* result of a query with events up to i
DoResult(n, i, more) ==
    /\ state' = [state EXCEPT !.got = @ + n,
                              !.upto = IF n > 0 THEN i ELSE @,
                              !.more = more]
    /\ UNCHANGED <<rem, stored, durable>>

CanReport(phase, count) ==
    /\ state.on
    /\ CASE phase = "CONNECTED" -> state.phase = "none"
         [] phase = "SYNCING" -> state.phase = "CONNECTED" /\ state.got > 0
         [] phase = "SYNCED" ->
              /\ state.phase = IF state.got > 0 THEN "SYNCING" ELSE "CONNECTED"
              /\ ~state.more
              /\ count = state.got
              /\ stored >= state.upto
         [] OTHER -> FALSE

DoReport(phase) ==
    /\ state' = [state EXCEPT !.phase = phase]
    /\ UNCHANGED <<rem, stored, durable>>
=============================================================================
