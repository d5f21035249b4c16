--------------------------- MODULE ComponentTrace ---------------------------
(* Validation of histories of components.                                  *)
(*                                                                         *)
(* Traces[tid] = [lines : Seq], each line has its time in milliseconds.    *)
EXTENDS Component, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
    changed,    \* time of the last change of what runner depends on
    decided,    \* time of the last decision about the runner
    token,      \* token of blessing
    lossAt,     \* time of the last loss of a connection
    causes,     \* reasons to close
    self,       \* time when the runner closed by itself, -1
    ks,         \* k -> [r, c, t] of runners
    cs,         \* c -> [r, last, s, from] of connections as the component sees them
    sent        \* r -> number of the last announced event

tvars == <<changed, decided, token, lossAt, causes, self, ks, cs, sent>>
vars == <<tid, l, cvars, tvars>>

Lines == Traces[tid].lines
Line == Lines[l]

TServers == 0..3

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ CInit
    /\ changed = 0
    /\ decided = 0 /\ token = 0 /\ lossAt = -1
    /\ causes = {} /\ self = -1
    /\ ks = <<>> /\ cs = <<>>
    /\ sent = [r \in Servers |-> 0]

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Put(f, k, v) == [i \in DOMAIN f \union {k} |-> IF i = k THEN v ELSE f[i]]

\* network is slower than this
Short == 3000

\* change of what runner depends on
Change ==
    /\ changed' = Line.t
    /\ token' = IF Line.op = "seen" THEN Line.tok ELSE token
    /\ decided' = IF ready' # ready \/ seen' # seen \/ token' # token
                  THEN Line.t ELSE decided
    /\ lossAt' = IF Line.op \in {"cut", "sdown", "sdisc"} THEN Line.t
                 ELSE lossAt
    /\ self' = IF /\ self >= 0
                  /\ Line.t - self < Short
                  /\ Line.op \notin {"sconn", "sdisc"}
               THEN -1 ELSE self
    /\ UNCHANGED <<causes, ks, cs, sent>>

Newest == Cardinality(DOMAIN cs)

------------------------------------------------------------------------------

TSeen ==
    /\ Line.op = "seen"
    /\ Report({<<phase = "end", "callback after the end">>})
    /\ DoSeen(Line.on, Line.a)
    /\ Change

TReady ==
    /\ Line.op = "ready"
    /\ DoReady(Line.on)
    /\ Change

TServer ==
    \/ /\ Line.op \in {"sup", "sdown"}
       /\ DoUp(Line.r, Line.op = "sup")
       /\ Change
    \/ /\ Line.op = "sstatus"
       /\ UNCHANGED <<cvars, tvars>>
    \/ /\ Line.op = "snotify"
       /\ sent' = [sent EXCEPT ![Line.r] = Line.i]
       /\ UNCHANGED <<cvars, changed, decided, token, lossAt, causes, self, ks, cs>>
    \/ /\ Line.op = "cut"
       /\ UNCHANGED cvars
       /\ Change
    \/ /\ Line.op \in {"sconn", "sdisc"}
       /\ Report({<<Line.op = "sconn" /\ ~Line.ok, "identification">>})
       /\ DoConn(Line.r, IF Line.op = "sconn" THEN 1 ELSE -1)
       /\ Change
    \/ /\ Line.op = "sreg"
       /\ Report({<<Line.k \in DOMAIN ks /\ ks[Line.k].r # Line.r,
                    "connection of the runner">>})
       /\ UNCHANGED <<cvars, tvars>>

TOwn ==
    /\ Line.op = "own"
    /\ Report({<<~Line.ok, "identification at monitor server">>})
    /\ UNCHANGED <<cvars, tvars>>

TCause ==
    /\ Line.op = "cause"
    /\ causes' = causes \union {Line.kind}
    /\ UNCHANGED <<cvars, changed, decided, token, lossAt, self, ks, cs, sent>>

TSelf ==
    /\ Line.op = "self"
    /\ self' = IF Line.t - changed > Short /\ causes = {} THEN Line.t ELSE -1
    /\ causes' = causes \union {"self"}
    /\ UNCHANGED <<cvars, changed, decided, token, lossAt, ks, cs, sent>>

------------------------------------------------------------------------------
\* runners

Allowed(r) ==
    \/ ready /\ seen.on /\ seen.a = r
    \* what is changing right now
    \/ decided >= Line.t - 1

TRunnerCb ==
    /\ Line.op = "rcb"
    /\ LET k == Line.k
           r == Line.r
       IN /\ Report({<<~Line.ok, "event server data">>,
                     <<runners # {}, "several runners">>,
                     <<phase = "end", "callback after the end">>,
                     <<~Allowed(r), "runner which isn't allowed">>,
                     <<Line.c < Newest, "runner of an earlier connection">>,
                     <<\E i \in DOMAIN ks : ks[i].c = Line.c,
                       "several runners of a connection">>})
          /\ DoCreate(k)
          /\ ks' = Put(ks, k, [r |-> r, c |-> Line.c, t |-> Line.t])
          /\ cs' = IF Line.c \in DOMAIN cs
                   THEN [cs EXCEPT ![Line.c].r = r,
                                   ![Line.c].from = sent[r]]
                   ELSE Put(cs, Line.c, [r |-> r, last |-> 0, s |-> "",
                                         from |-> sent[r]])
    /\ UNCHANGED <<changed, decided, token, lossAt, causes, self, sent>>

TRunner ==
    \/ /\ Line.op \in {"rnew", "rclosing"}
       /\ Report({<<Line.op = "rclosing" /\ causes = {} /\
                      decided < ks[Line.k].t - 1 /\
                      lossAt < ks[Line.k].t - Short,
                    "runner is closed without a reason">>})
       /\ UNCHANGED <<cvars, tvars>>
    \/ Line.op \in {"rerr", "rclosed"} /\ DoClosed(Line.k) /\ UNCHANGED tvars

------------------------------------------------------------------------------
\* callbacks

\* connection 0 stands for a server which isn't known yet
Client(c) == IF c \in DOMAIN cs THEN cs[c]
             ELSE [r |-> 0, last |-> 0, s |-> "", from |-> 0]

TStatus ==
    /\ Line.op = "cstatus"
    /\ Report({<<~Line.ok, "status of connection">>,
               <<Line.busy, "overlapping callbacks">>,
               <<Line.c < Newest, "callback of an earlier connection">>,
               <<phase = "end", "callback after the end">>})
    /\ cs' = Put(cs, Line.c, [Client(Line.c) EXCEPT !.s = Line.s])
    /\ UNCHANGED <<cvars, changed, decided, token, lossAt, causes, self, ks, sent>>

TEvents ==
    /\ Line.op = "cevents"
    /\ LET c == Client(Line.c)
           evs == Line.evs
       IN /\ Report(
               {<<Line.busy, "overlapping callbacks">>,
                <<Line.c < Newest, "callback of an earlier connection">>,
                <<phase = "end", "callback after the end">>,
                <<c.r # 0 /\ c.r # Line.r, "event of another server">>,
                <<\E i \in 1..(Len(evs) - 1) : evs[i + 1] # evs[i] + 1,
                  "order of events">>,
                <<c.last # 0 /\ evs[1] # c.last + 1, "order of events">>,
                <<c.last = 0 /\ c.r # 0 /\ evs[1] > c.from + 1,
                  "event is missing">>})
          /\ cs' = Put(cs, Line.c, [c EXCEPT !.r = Line.r,
                                             !.last = evs[Len(evs)]])
    /\ UNCHANGED <<cvars, changed, decided, token, lossAt, causes, self, ks, sent>>

TCloseReq ==
    /\ Line.op = "closereq"
    /\ Report({<<"mclose" \notin causes, "close request">>})
    /\ causes' = causes \union {"closereq"}
    /\ UNCHANGED <<cvars, changed, decided, token, lossAt, self, ks, cs, sent>>

------------------------------------------------------------------------------

TQuiet ==
    /\ Line.op = "quiet"
    /\ LET a == Target
           live == Line.live
       IN Report(
         {<<~Line.open /\ causes = {}, "component is closed">>,
          <<Line.open /\ causes \intersect {"monitor", "mclose"} # {},
            "component isn't closed">>,
          <<Line.open /\ self >= 0, "component isn't closed by its runner">>,
          <<Line.open # (phase = "run"), "closing isn't announced">>,
          <<Line.open /\ ~Line.state, "state">>,
          <<a # 0 /\ live = <<>>, "there is no runner">>,
          <<Len(live) > 1, "several runners">>,
          <<a = 0 /\ runners # {}, "runner isn't closed">>,
          <<runners # {} /\ live = <<>>, "runner without connection">>,
          <<live # <<>> /\ live[1] \in DOMAIN cs /\ cs[live[1]].r # a,
            "runner of another server">>,
          <<\E r \in Servers : conns[r] # IF r = a /\ a # 0 THEN 1 ELSE 0,
            "connections">>,
          <<live # <<>> /\ live[1] \in DOMAIN cs /\
              LET c == cs[live[1]]
              IN sent[c.r] > c.from /\ c.last # sent[c.r],
            "event isn't delivered">>,
          <<live # <<>> /\ live[1] \in DOMAIN cs /\ Len(Line.st) = 1 /\
              LET c == cs[live[1]]
              IN c.s \notin {"", Line.st[1]},
            "status">>})
    /\ UNCHANGED <<cvars, tvars>>

TClosing ==
    /\ Line.op = "closing"
    /\ Report({<<causes = {}, "closes without a reason">>,
               <<causes = {"mclose"} /\ (seen.on \/ seen.a # 0),
                 "close request is missing">>})
    /\ DoPhase("closing")
    /\ UNCHANGED tvars

TStop ==
    /\ Line.op = "stop"
    /\ causes' = causes \union {"stop"}
    /\ UNCHANGED <<cvars, changed, decided, token, lossAt, self, ks, cs, sent>>

TEnd ==
    /\ Line.op = "end"
    /\ Report({<<~Line.closed, "component isn't closed">>,
               <<runners # {}, "runner isn't closed">>})
    /\ DoPhase("end")
    /\ UNCHANGED tvars

TFinal ==
    /\ Line.op = "final"
    /\ Report({<<\E r \in Servers : conns[r] # 0,
                 "connection isn't closed">>,
               <<Line.mon, "monitor connection isn't closed">>})
    /\ UNCHANGED <<cvars, tvars>>

TStuck ==
    /\ Line.op = "stuck"
    /\ Report({<<TRUE, "doesn't finish">>})
    /\ UNCHANGED <<cvars, tvars>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TSeen \/ TReady \/ TServer \/ TOwn \/ TCause \/ TSelf
          \/ TRunnerCb \/ TRunner \/ TStatus \/ TEvents \/ TCloseReq
          \/ TQuiet \/ TClosing \/ TStop \/ TEnd \/ TFinal \/ TStuck
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<cvars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
