---------------------------- MODULE ServerTrace ----------------------------
(* Validation of histories of whole event servers.                         *)
(*                                                                         *)
(* Traces[tid] = [lines : Seq], each line has its time in milliseconds.    *)
(* Events are given by their index in order of registration.  Remote 9     *)
(* stands for all components to which the server must not connect.         *)
EXTENDS Server, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
    act,        \* r -> time since which r is known as active, -1
    ever,       \* r -> last time when monitor announced it, -1 now
    causes,     \* kinds of failures
    closing,    \* main runner is closing
    mon,        \* with monitor
    bst,        \* "none", "open", "closing", "closed"
    mods,       \* number of modules which aren't closed
    nreg,       \* number of registered events
    own,        \* set of registered events (also those of other servers)
    persisted,  \* set of events which are announced as persisted
    started,    \* engines announced as started, minus stopped
    cl,         \* c -> [on, p, cut, due, s, seen]
    want,       \* ordinal of engine which has to be replaced
    ready,      \* [on, res, t]: readiness and token known to the monitor
    syn         \* r -> [full, st]: engine runs since it is connected, state
                \* of synchronization

tvars == <<act, ever, causes, closing, mon, bst, mods, nreg, own, persisted,
           started, cl, want, ready, syn>>
vars == <<tid, l, svars, tvars>>

Lines == Traces[tid].lines
Line == Lines[l]

\* time after which everything that is known has effect
Settled == 3000
\* time after which nothing is connected because of a former component
Forgotten == 20000

ServerRemotes == 1..9

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ SInit
    /\ act = [r \in Remotes |-> -1]
    /\ ever = [r \in Remotes |-> -2]
    /\ causes = {} /\ closing = FALSE /\ mon = FALSE
    /\ bst = "none" /\ mods = 0
    /\ nreg = 0 /\ own = {} /\ persisted = {} /\ started = 0
    /\ cl = <<>> /\ want = 0
    /\ ready = [on |-> FALSE, res |-> FALSE, t |-> 0]
    /\ syn = [r \in Remotes |-> [full |-> FALSE, st |-> ""]]

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Put(f, k, v) == [i \in DOMAIN f \union {k} |-> IF i = k THEN v ELSE f[i]]

BackendFails == causes \intersect {"backend", "flush", "register"} # {}

Known(c) == c \in DOMAIN cl

------------------------------------------------------------------------------
\* environment

\* time since which r is active and connected
Act(r, n, s) ==
    IF n > 0 /\ s # "STANDBY" THEN IF act[r] >= 0 THEN act[r] ELSE Line.t
    ELSE -1

TRemote ==
    \/ /\ Line.op \in {"rup", "rstatus"}
       /\ DoUp(Line.r, Line.op = "rup" \/ Line.r \in up, Line.s)
       /\ act' = [act EXCEPT ![Line.r] = Act(Line.r, links[Line.r], Line.s)]
       /\ UNCHANGED <<ever, causes, closing, mon, bst, mods, nreg, own,
                      persisted, started, cl, want, ready, syn>>
    \/ /\ Line.op = "rdown"
       /\ DoUp(Line.r, FALSE, rstat[Line.r])
       /\ act' = [act EXCEPT ![Line.r] = -1]
       /\ UNCHANGED <<ever, causes, closing, mon, bst, mods, nreg, own,
                      persisted, started, cl, want, ready, syn>>

TComp ==
    /\ Line.op = "comp"
    /\ DoPresent(Line.r, Line.on)
    /\ ever' = [ever EXCEPT ![Line.r] = IF Line.on THEN -1 ELSE Line.t]
    /\ UNCHANGED <<act, causes, closing, mon, bst, mods, nreg, own, persisted,
                   started, cl, want, ready, syn>>

TBless ==
    \/ Line.op = "bless" /\ DoBless(Line.on) /\ UNCHANGED tvars
    \/ Line.op = "rebless" /\ UNCHANGED <<svars, tvars>>

TStart ==
    /\ Line.op = "start"
    /\ DoPhase("run")
    /\ mon' = Line.mon
    /\ UNCHANGED <<act, ever, causes, closing, bst, mods, nreg, own, persisted,
                   started, cl, want, ready, syn>>

TCause ==
    /\ Line.op = "cause"
    /\ causes' = causes \union {Line.kind}
    /\ UNCHANGED <<svars, act, ever, closing, mon, bst, mods, nreg, own,
                   persisted, started, cl, want, ready, syn>>

TRestart ==
    /\ Line.op = "restart"
    /\ want' = Line.e
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, persisted, started, cl, ready, syn>>

\* server identifies itself to monitor server; orderly closing of monitor
\* server waits until the engine is closed
\* a component which isn't ready becomes ready again once its token is
\* released (which is waited for no more than 30 s)
TReady ==
    /\ Line.op = "ready"
    /\ Report({<<Line.on /\ ~ready.on /\ ready.res /\ Line.t - ready.t < 29000,
                 "ready before token is released">>})
    /\ ready' = [on |-> Line.on, res |-> Line.res,
                 t |-> IF ready.on # Line.on THEN Line.t ELSE ready.t]
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg, own,
                   persisted, started, cl, want, syn>>

TMonitor ==
    /\ \/ Line.op = "mclose"
       \/ /\ Line.op = "mgone"
          /\ Report({<<~Line.waited /\ causes = {"monitor"} /\ mods # 0,
                      "monitor connection is closed before engine">>})
       \/ /\ Line.op = "own"
          /\ Report({<<~Line.ok, "announced data">>})
    /\ UNCHANGED <<svars, tvars>>

TStop ==
    /\ Line.op = "stop"
    /\ DoPhase("stop")
    /\ UNCHANGED tvars

TClosing ==
    /\ Line.op = "closing"
    /\ Report({<<causes = {} /\ phase # "stop", "closes without a reason">>})
    /\ closing' = TRUE
    /\ UNCHANGED <<svars, act, ever, causes, mon, bst, mods, nreg, own,
                   persisted, started, cl, want, ready, syn>>

------------------------------------------------------------------------------
\* connections to remote servers

TRemoteConn ==
    /\ Line.op = "rconn"
    /\ LET r == Line.r
       IN /\ Report(
               {<<~Line.ok, "identification of eventer client">>,
                <<r = 9, "connection to a wrong component">>,
                <<r # 9 /\ (ever[r] = -2 \/
                            (ever[r] >= 0 /\ Line.t - ever[r] > Forgotten)),
                  "connection to a component which isn't present">>})
          /\ DoLink(r, 1)
          /\ act' = [act EXCEPT ![r] = Act(r, links[r] + 1, rstat[r])]
          /\ syn' = [syn EXCEPT ![r] = [full |-> started = 1, st |-> ""]]
    /\ UNCHANGED <<ever, causes, closing, mon, bst, mods, nreg, own, persisted,
                   started, cl, want, ready>>

\* closing of the server doesn't make remote servers inactive
TRemoteDisc ==
    /\ Line.op = "rdisc"
    /\ LET r == Line.r
       IN /\ DoLink(r, -1)
          /\ act' = IF closing THEN act
                    ELSE [act EXCEPT ![r] = Act(r, links[r] - 1, rstat[r])]
    /\ UNCHANGED <<ever, causes, closing, mon, bst, mods, nreg, own, persisted,
                   started, cl, want, ready, syn>>

------------------------------------------------------------------------------
\* backend and engine

TBackend ==
    \/ /\ Line.op = "bcreated"
       /\ bst' = "open"
       /\ UNCHANGED <<svars, act, ever, causes, closing, mon, mods, nreg, own,
                      persisted, started, cl, want, ready, syn>>
    \/ /\ Line.op = "bclosing"
       /\ Report(
            {<<"backend" \notin causes /\ ~closing,
               "backend is closed without a reason">>,
             <<"backend" \notin causes /\ mods # 0,
               "backend is closed before modules">>,
             <<~BackendFails /\ started # 0,
               "backend is closed before engine">>})
       /\ bst' = "closing"
       /\ UNCHANGED <<svars, act, ever, causes, closing, mon, mods, nreg, own,
                      persisted, started, cl, want, ready, syn>>
    \/ /\ Line.op = "bclosed"
       /\ bst' = "closed"
       /\ UNCHANGED <<svars, act, ever, causes, closing, mon, mods, nreg, own,
                      persisted, started, cl, want, ready, syn>>
    \/ /\ Line.op = "buse"
       /\ Report({<<"backend" \notin causes, "closed backend is used">>})
       /\ UNCHANGED <<svars, tvars>>

TCreate ==
    /\ Line.op = "create"
    /\ Report(
         {<<\E r \in Remotes : act[r] >= 0 /\ Line.t - act[r] > Settled,
            "engine starts next to an active server">>,
          <<mods # 0, "engine starts before modules are closed">>,
          <<phase = "end", "engine starts after the end">>})
    /\ DoCreate
    /\ UNCHANGED tvars

TModule ==
    /\ Line.op \in {"mcreated", "mclosed"}
    /\ mods' = IF Line.op = "mcreated" THEN mods + 1 ELSE mods - 1
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, nreg, own,
                   persisted, started, cl, want, ready, syn>>

TReg ==
    /\ Line.op = "reg"
    /\ LET k == Line.kinds
           Nums(s) == {nreg + i : i \in {j \in DOMAIN k : k[j] \in s}}
           starts == Cardinality(Nums({"STARTED"}))
           stops == Cardinality(Nums({"STOPPED"}))
       IN /\ Report({<<~BackendFails /\ started + starts > 1,
                       "STARTED without STOPPED">>,
                     <<phase = "end", "events after the end">>,
                     <<\E i \in DOMAIN Line.sync :
                          \/ Line.sync[i][1] \notin Remotes \ {9}
                          \/ Line.sync[i][2] \notin
                                {"CONNECTED", "SYNCING", "SYNCED"},
                       "event about synchronization">>})
          /\ syn' = [r \in Remotes |->
                LET is == {i \in DOMAIN Line.sync : Line.sync[i][1] = r}
                IN [full |-> syn[r].full /\ starts + stops = 0,
                    st |-> IF is = {} THEN syn[r].st
                           ELSE Line.sync[CHOOSE i \in is :
                                            \A j \in is : j <= i][2]]]
          /\ started' = IF stops > 0 THEN 0 ELSE IF starts > 0 THEN 1
                        ELSE started
          /\ nreg' = nreg + Len(k)
          /\ own' = own \union
                    {nreg + i : i \in DOMAIN k}
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods,
                   persisted, cl, want, ready>>

TNotify ==
    /\ Line.op = "notify"
    /\ Report({<<phase = "end", "announcement after the end">>})
    /\ persisted' = IF Line.p
                    THEN persisted \union {Line.evs[i] : i \in DOMAIN Line.evs}
                    ELSE persisted
    /\ cl' = [c \in DOMAIN cl |->
                IF cl[c].on /\ cl[c].p = Line.p
                THEN [cl[c] EXCEPT !.due = @ \o Line.evs] ELSE cl[c]]
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, started, want, ready, syn>>

------------------------------------------------------------------------------
\* clients of the server

TClientOpen ==
    /\ Line.op = "copen"
    /\ cl' = Put(cl, Line.c,
                 [on |-> TRUE, p |-> Line.p, due |-> <<>>, s |-> Line.s,
                  cut |-> Known(Line.c) /\ cl[Line.c].cut])
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, persisted, started, want, ready, syn>>

TClientCut ==
    /\ Line.op = "ccut"
    /\ cl' = IF Known(Line.c) THEN [cl EXCEPT ![Line.c].cut = TRUE]
             ELSE Put(cl, Line.c,
                      [on |-> FALSE, p |-> FALSE, due |-> <<>>, s |-> "",
                       cut |-> TRUE])
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, persisted, started, want, ready, syn>>

\* events which were announced before the client is known may come first
RECURSIVE Rest(_, _)
Rest(due, evs) ==
    IF evs = <<>> THEN due
    ELSE Rest(IF due # <<>> /\ due[1] = evs[1] THEN Tail(due) ELSE due,
              Tail(evs))

TClientEvents ==
    /\ Line.op = "cevents"
    /\ IF ~Known(Line.c) \/ ~cl[Line.c].on THEN UNCHANGED cl
       ELSE LET due == cl[Line.c].due
                evs == Line.evs
                rest == Rest(due, evs)
                took == Len(due) - Len(rest)
            IN /\ Report(
                    {<<\E i \in DOMAIN evs : evs[i] = 0, "unknown event">>,
                     <<took < Len(evs) /\
                         \E i \in DOMAIN evs : \E j \in DOMAIN rest :
                           evs[i] = rest[j],
                       "order of events at client">>,
                     <<cl[Line.c].p /\ \E i \in DOMAIN evs :
                         evs[i] \notin persisted,
                       "event which isn't persisted">>})
               /\ cl' = [cl EXCEPT ![Line.c].due = rest]
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, persisted, started, want, ready, syn>>

NextStatus(a, b) ==
    \/ b = "STOPPING"
    \/ a = "STOPPING" /\ b = "STARTING" /\ "flush" \in causes
    \/ a = "STANDBY" /\ b = "STARTING"
    \/ a = "STARTING" /\ b = "OPERATIONAL"
    \/ a = "STOPPING" /\ b = "STANDBY"

TClientStatus ==
    /\ Line.op = "cstatus"
    /\ IF ~Known(Line.c) \/ ~cl[Line.c].on THEN UNCHANGED cl
       ELSE /\ Report({<<~NextStatus(cl[Line.c].s, Line.s),
                         "order of statuses">>})
            /\ cl' = [cl EXCEPT ![Line.c].s = Line.s]
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, persisted, started, want, ready, syn>>

TClientClose ==
    /\ Line.op = "cclose"
    /\ LET c == cl[Line.c]
           fair == ~c.cut /\ ~Line.busy
       IN Report(
            {<<fair /\ ~closing, "connection of a client is closed">>,
             <<fair /\ c.due # <<>>, "event isn't delivered">>,
             <<fair /\ closing /\ ~BackendFails /\ ~(own \subseteq persisted),
               "connection is closed before events are persisted">>,
             <<fair /\ closing /\ ~BackendFails /\ started # 0,
               "connection is closed before engine">>})
    /\ cl' = [cl EXCEPT ![Line.c].on = FALSE]
    /\ UNCHANGED <<svars, act, ever, causes, closing, mon, bst, mods, nreg,
                   own, persisted, started, want, ready, syn>>

------------------------------------------------------------------------------
\* observations

MayRun ==
    \/ ~mon
    \/ blessed /\ \A r \in Remotes : links[r] > 0 => rstat[r] = "STANDBY"

TQuiet ==
    /\ Line.op = "quiet"
    /\ Report(
         {<<~Line.open /\ causes = {}, "server is closed">>,
          <<Line.open /\ causes \intersect {"backend", "monitor", "start"} # {},
            "server ignores a failure">>,
          <<Line.open # ~closing, "closing isn't announced">>,
          <<Line.open /\ MayRun /\ ~Line.eng, "engine isn't started">>})
    /\ IF ~Line.open \/ causes # {} THEN TRUE
       ELSE Report(
         {<<mon /\ ~blessed /\ Line.eng, "engine isn't stopped">>,
          <<MayRun /\ Line.e <= want, "engine isn't restarted">>,
          <<Line.eng /\ Line.e = want /\ want > 0, "engine isn't closed">>,
          <<Line.eng # (started = 1), "STARTED and STOPPED of engine">>,
          <<mon /\ \E r \in Followed \ {9} : links[r] # 1,
            "connection to remote server">>,
          <<\E r \in Remotes : links[r] > 1, "several connections">>,
          <<mon /\ ~ready.on, "server isn't ready">>,
          <<Line.eng /\ \E r \in Remotes : /\ links[r] = 1
                                         /\ syn[r].full
                                         /\ syn[r].st # "SYNCED",
            "synchronization isn't announced">>,
          <<\E c \in DOMAIN cl : cl[c].on /\ ~cl[c].cut /\
              cl[c].s # (IF Line.eng THEN "OPERATIONAL" ELSE "STANDBY"),
            "status at client">>})
    /\ UNCHANGED <<svars, tvars>>

TEnd ==
    /\ Line.op = "end"
    /\ Report({<<~Line.closed, "server isn't closed">>,
               <<~Line.bclosed, "backend isn't closed">>,
               <<mods # 0, "modules aren't closed">>,
               <<~BackendFails /\ started # 0, "engine isn't stopped">>,
               <<~BackendFails /\ ~(own \subseteq persisted),
                 "events aren't persisted">>})
    /\ DoPhase("end")
    /\ UNCHANGED tvars

TFinal ==
    /\ Line.op = "final"
    /\ Report({<<\E r \in Remotes : links[r] # 0,
                 "connection isn't closed">>,
               <<\E c \in DOMAIN cl : cl[c].on, "client isn't closed">>})
    /\ UNCHANGED <<svars, tvars>>

TStuck ==
    /\ Line.op = "stuck"
    /\ Report({<<TRUE, "doesn't finish">>})
    /\ UNCHANGED <<svars, tvars>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TRemote \/ TComp \/ TBless \/ TStart \/ TCause \/ TRestart
          \/ TStop \/ TMonitor \/ TReady \/ TClosing \/ TRemoteConn \/ TRemoteDisc \/ TBackend
          \/ TCreate \/ TModule \/ TReg \/ TNotify \/ TClientOpen
          \/ TClientCut \/ TClientEvents \/ TClientStatus \/ TClientClose
          \/ TQuiet \/ TEnd \/ TFinal \/ TStuck
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<svars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
