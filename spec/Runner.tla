------------------------------- MODULE Runner -------------------------------
(* Life cycle of the engine and the announced status of the event server.  *)
EXTENDS Naturals

VARIABLES
    status,     \* last announced status
    eng,        \* "none", "creating", "open", "failed", "closing"
    remote,     \* a remote server is active
    stop,       \* the runner has to close
    again,      \* restart is requested
    regs,       \* number of registrations
    flushed     \* number of registrations which are flushed

rvars == <<status, eng, remote, stop, again, regs, flushed>>

RInit ==
    /\ status = "STANDBY"
    /\ eng = "none"
    /\ remote \in BOOLEAN
    /\ stop = FALSE /\ again = FALSE
    /\ regs = 0 /\ flushed = 0

DoRemote(x) ==
    /\ remote' = x
    /\ UNCHANGED <<status, eng, stop, again, regs, flushed>>

DoStop ==
    /\ stop' = TRUE
    /\ UNCHANGED <<status, eng, remote, again, regs, flushed>>

DoAgain ==
    /\ again' = TRUE
    /\ UNCHANGED <<status, eng, remote, stop, regs, flushed>>

\* engine is being created
CanCreate == status = "STARTING" /\ eng = "none"

DoCreate ==
    /\ eng' = "creating"
    /\ UNCHANGED <<status, remote, stop, again, regs, flushed>>

DoCreated ==
    /\ eng' = "open"
    /\ UNCHANGED <<status, remote, stop, again, regs, flushed>>

DoCreateFail ==
    /\ eng' = "none" /\ stop' = TRUE
    /\ UNCHANGED <<status, remote, again, regs, flushed>>

\* engine closes by itself
DoFail ==
    /\ eng' = "failed" /\ stop' = TRUE
    /\ UNCHANGED <<status, remote, again, regs, flushed>>

CanTell == eng \in {"open", "failed"} /\ (stop \/ again)

DoTell ==
    /\ eng' = "closing"
    /\ UNCHANGED <<status, remote, stop, again, regs, flushed>>

DoClosed ==
    /\ eng' = "none"
    /\ UNCHANGED <<status, remote, stop, again, regs, flushed>>

CanRegister == eng # "none"

DoRegister ==
    /\ regs' = regs + 1
    /\ UNCHANGED <<status, eng, remote, stop, again, flushed>>

DoFlush(n) ==
    /\ flushed' = n
    /\ UNCHANGED <<status, eng, remote, stop, again, regs>>

CanAnnounce(s) ==
    CASE s = "STARTING" -> /\ status = "STANDBY"
                           /\ eng = "none" /\ ~remote
      [] s = "OPERATIONAL" -> /\ status = "STARTING"
                              /\ eng \in {"open", "failed"}
      [] s = "STOPPING" -> \/ stop
                           \/ again /\ status = "OPERATIONAL"
      [] s = "STANDBY" -> /\ status = "STOPPING"
                          /\ eng = "none"
                          /\ flushed = regs
      [] OTHER -> FALSE

DoAnnounce(s) ==
    /\ status' = s
    /\ again' = (again /\ s # "STARTING")
    /\ UNCHANGED <<eng, remote, stop, regs, flushed>>
=============================================================================
