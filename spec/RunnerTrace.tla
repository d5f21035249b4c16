----------------------------- MODULE RunnerTrace -----------------------------
(* Validation of histories of the engine's life cycle.                     *)
(*                                                                         *)
(* Each line has t, which grows when (simulated) time passes.  Creation of *)
(* an engine is seen by its first access to the backend (create), modules  *)
(* by mcreated and mclosed.                                                *)
EXTENDS Runner, Sequences, Integers, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
    since,      \* time of the last change of remote
    busy,       \* announcing is in progress
    mods,       \* number of modules which aren't closed
    lost,       \* time since when OPERATIONAL engine is closing, 0
    starts,     \* number of registrations at start of each flush
    failed,     \* last flush has failed
    must,       \* there is a reason for closing which isn't ignored
    syncs       \* reports of synchronisation which aren't registered

tvars == <<since, busy, mods, lost, starts, failed, must, syncs>>
vars == <<tid, l, rvars, tvars>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ RInit /\ remote = FALSE
    /\ since = -1 /\ busy = FALSE /\ mods = 0 /\ lost = -1
    /\ starts = <<>> /\ failed = FALSE /\ must = FALSE /\ syncs = <<>>

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

\* time has passed since engine of OPERATIONAL status is closing
Lag == lost >= 0 /\ Line.t > lost /\ ~busy /\ status = "OPERATIONAL"

------------------------------------------------------------------------------

TRemote ==
    /\ Line.op = "remote"
    /\ DoRemote(Line.on)
    /\ since' = Line.t
    /\ UNCHANGED <<busy, mods, lost, starts, failed, must, syncs>>

TStop ==
    /\ Line.op = "stop"
    /\ DoStop
    \* failure of an engine which is being restarted may be ignored
    /\ must' = (must \/ status # "STOPPING")
    /\ UNCHANGED <<since, busy, mods, lost, starts, failed, syncs>>

TAgain ==
    /\ Line.op = "again"
    /\ DoAgain
    /\ UNCHANGED tvars

TCreate ==
    /\ Line.op = "create"
    /\ Report({<<~CanCreate, "engine is created out of order">>,
               <<mods # 0, "more than one engine">>})
    /\ DoCreate
    /\ UNCHANGED tvars

TModCreated ==
    /\ Line.op = "mcreated"
    /\ Report({<<status # "STARTING", "module is created out of order">>})
    /\ mods' = mods + 1
    /\ UNCHANGED <<rvars, since, busy, lost, starts, failed, must, syncs>>

TModClosed ==
    /\ Line.op = "mclosed"
    /\ mods' = mods - 1
    /\ UNCHANGED <<rvars, since, busy, lost, starts, failed, must, syncs>>

\* closing of the engine is seen by the state of its resource
TClosing ==
    /\ Line.op = "closing"
    /\ lost' = IF lost < 0 /\ status = "OPERATIONAL" THEN Line.t ELSE lost
    /\ UNCHANGED <<rvars, since, busy, mods, starts, failed, must, syncs>>

TStatus ==
    /\ Line.op = "status"
    /\ LET s == Line.s
           e == IF s = "OPERATIONAL" THEN "open"
                ELSE IF s = "STANDBY" /\ Line.closed THEN "none"
                ELSE eng
       IN /\ Report(
               {<<s = "STARTING" /\ status # "STANDBY", "status cycle">>,
                <<s = "OPERATIONAL" /\ status # "STARTING", "status cycle">>,
                <<s = "STOPPING" /\ status # "OPERATIONAL" /\ ~stop,
                  "status cycle">>,
                <<s = "STANDBY" /\ status # "STOPPING", "status cycle">>,
                <<s = "STARTING" /\ remote /\ since < Line.t,
                  "started while remote server is active">>,
                <<(s = "OPERATIONAL") # Line.eng, "engine of the status">>,
                <<s = "OPERATIONAL" /\ eng # "creating",
                  "OPERATIONAL without an engine">>,
                <<s = "OPERATIONAL" /\ Line.told /\ ~stop /\ ~again,
                  "OPERATIONAL after closing">>,
                <<s = "STOPPING" /\ ~stop /\ ~again,
                  "stopped without a reason">>,
                <<s = "STANDBY" /\ (mods # 0 \/ ~Line.closed),
                  "STANDBY before engine is closed">>,
                <<s = "STANDBY" /\ flushed # regs,
                  "STANDBY before events are flushed">>,
                <<s \in {"STARTING", "OPERATIONAL"} /\ ~Line.closed,
                  "more than one engine">>,
                <<Lag, "OPERATIONAL with closing engine">>})
          /\ status' = s
          /\ again' = (again /\ s # "STARTING")
          /\ eng' = e
          /\ UNCHANGED <<remote, stop, regs, flushed>>
          /\ busy' = TRUE
          /\ lost' = -1
    /\ UNCHANGED <<since, mods, starts, failed, must, syncs>>

TStatusEnd ==
    /\ Line.op = "statusend"
    /\ busy' = FALSE
    /\ lost' = IF lost >= 0 THEN Line.t ELSE lost
    /\ UNCHANGED <<rvars, since, mods, starts, failed, must, syncs>>

RemoveFirst(seq, x) ==
    LET i == CHOOSE i \in DOMAIN seq : seq[i] = x
    IN SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))

TReg ==
    /\ Line.op = "breg"
    /\ Report({<<status = "STANDBY", "registration while STANDBY">>,
               <<\E i \in DOMAIN Line.sync :
                   \A j \in DOMAIN syncs : syncs[j] # Line.sync[i],
                 "synced event without report">>,
               <<Lag, "OPERATIONAL with closing engine">>})
    /\ DoRegister
    /\ syncs' = IF Line.sync # <<>> /\ (\E j \in DOMAIN syncs :
                                          syncs[j] = Line.sync[1])
                THEN RemoveFirst(syncs, Line.sync[1])
                ELSE syncs
    /\ UNCHANGED <<since, busy, mods, lost, starts, failed, must>>

TFlush ==
    /\ Line.op = "flush"
    /\ starts' = Append(starts, regs)
    /\ UNCHANGED <<rvars, since, busy, mods, lost, failed, must, syncs>>

TFlushEnd ==
    /\ Line.op = "flushend"
    /\ DoFlush(IF starts[Line.n] > flushed THEN starts[Line.n] ELSE flushed)
    /\ UNCHANGED tvars

TFlushFail ==
    /\ Line.op = "flushfail"
    /\ failed' = TRUE
    /\ UNCHANGED <<rvars, since, busy, mods, lost, starts, must, syncs>>

TSync ==
    /\ Line.op = "sync"
    /\ syncs' = Append(syncs, Line.key)
    /\ UNCHANGED <<rvars, since, busy, mods, lost, starts, failed, must>>

TSyncEnd ==
    /\ Line.op = "syncend"
    /\ LET waiting == \E j \in DOMAIN syncs : syncs[j] = Line.key
       IN /\ Report({<<Line.must /\ Line.ok /\ waiting,
                       "synced event isn't registered">>,
                     <<~Line.ok /\ Line.up /\ Line.must,
                       "report of synchronisation fails">>})
          /\ syncs' = IF waiting THEN RemoveFirst(syncs, Line.key) ELSE syncs
    /\ UNCHANGED <<rvars, since, busy, mods, lost, starts, failed, must>>

TQuiet ==
    /\ Line.op = "quiet"
    /\ Report({<<~stop /\ ~Line.open, "closed without a reason">>,
               <<~stop /\ status \notin {"STANDBY", "OPERATIONAL"},
                 "transient status">>,
               <<~stop /\ ~remote /\ status # "OPERATIONAL",
                 "engine isn't started">>,
               <<~stop /\ again /\ status = "OPERATIONAL",
                 "engine isn't restarted">>,
               <<Lag, "OPERATIONAL with closing engine">>,
               <<must /\ Line.open, "failure of engine is ignored">>})
    /\ UNCHANGED <<rvars, tvars>>

TEnd ==
    /\ Line.op = "end"
    /\ Report({<<~Line.closed, "closing doesn't finish">>,
               <<~failed /\ status # "STANDBY", "last status">>,
               <<mods # 0, "module isn't closed">>})
    /\ UNCHANGED <<rvars, tvars>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TRemote \/ TStop \/ TAgain \/ TCreate \/ TModCreated
          \/ TModClosed \/ TClosing \/ TStatus \/ TStatusEnd \/ TReg
          \/ TFlush \/ TFlushEnd \/ TFlushFail \/ TSync \/ TSyncEnd
          \/ TQuiet \/ TEnd
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<rvars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
