---------------------------- MODULE EventerTrace ----------------------------
(* Validation of histories of the eventer server and its clients.          *)
(*                                                                         *)
(* Traces[tid] = [events : Seq of [srv, type], status : STRING,            *)
(* lines : Seq].  Event with unknown content is 0.                         *)
EXTENDS Eventer, Integers, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, ids, over

TraceEvSrv(e) == e[1]
TraceEvType(e) == e[2]

vars == <<tid, l, nvars, ids, over>>

tvars == <<ids, over>>

\* events of the specification are <<server, type, index>>
Ev(i) == IF i \in DOMAIN Traces[tid].events
         THEN <<Traces[tid].events[i].srv, Traces[tid].events[i].type, i>>
         ELSE <<-1, <<>>, i>>

Evs(s) == [i \in DOMAIN s |-> Ev(s[i])]

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ EventerInit(Traces[tid].status)
    /\ ids = {}
    /\ over = FALSE

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Known(k) == k \in DOMAIN conns

------------------------------------------------------------------------------

TConnect ==
    /\ Line.op = "connect"
    /\ DoConnect([sub |-> Line.sub, srv |-> Line.srv, has_srv |-> Line.srv # 0,
                  persisted |-> Line.persisted, token |-> Line.token])
    /\ UNCHANGED tvars

TServerConn ==
    /\ Line.op = "srvconn"
    /\ IF ~Known(Line.k)
       THEN Report({<<TRUE, "client name">>}) /\ UNCHANGED nvars
       ELSE /\ Report({<<~CanPend(Line.k), "repeated connection">>,
                       <<Line.id \in ids, "connection id isn't unique">>,
                       <<Line.token # conns[Line.k].token, "client token">>,
                       <<Line.srv # conns[Line.k].srv, "requested server id">>,
                       <<Line.persisted # conns[Line.k].persisted,
                         "requested form">>})
            /\ DoPend(Line.k)
    /\ ids' = ids \union {Line.id}
    /\ UNCHANGED over

TAccept ==
    /\ Line.op = "accept"
    /\ DoAccept(Line.k)
    /\ UNCHANGED tvars

TReject ==
    /\ Line.op = "reject"
    /\ DoReject(Line.k)
    /\ UNCHANGED tvars

TOpened ==
    /\ Line.op = "opened"
    /\ Report({<<conns[Line.k].st = "rejected", "rejected client is connected">>,
               <<conns[Line.k].from = 0, "client isn't accepted">>,
               <<conns[Line.k].from > 0 /\ ~CanOpen(Line.k, Line.s),
                 "status of handshake">>})
    /\ DoOpen(Line.k, Line.s)
    /\ UNCHANGED tvars

TConnFail ==
    /\ Line.op = "connfail"
    /\ Report({<<Line.kind = "refused" /\ ~CanFail(Line.k, TRUE),
                 "client is refused">>,
               <<Line.kind # "refused" /\ ~CanFail(Line.k, FALSE)
                    /\ conns[Line.k].st # "rejected" /\ ~over,
                 "connecting fails">>})
    /\ DoFail(Line.k)
    /\ UNCHANGED tvars

TSetStatus ==
    /\ Line.op = "setstatus"
    /\ DoSetStatus(Line.s)
    /\ UNCHANGED tvars

TStatus ==
    /\ Line.op = "cstat"
    /\ Report({<<~CanStatus(Line.k, Line.s), "order of statuses">>,
               <<Line.s # Line.cur, "status of client">>})
    /\ DoStatus(Line.k)
    /\ UNCHANGED tvars

TAnnounce ==
    /\ Line.op = "announce"
    /\ DoAnnounce(Evs(Line.evs), Line.persisted, Line.ack)
    /\ UNCHANGED tvars

TAnnounceEnd ==
    /\ Line.op = "annend"
    /\ Report({<<Line.out = "error" /\ ~over, "announcing fails">>,
               <<Line.out = "ok" /\ ~CanAnnounceEnd(Line.n),
                 "announcement ends without acknowledgement">>})
    /\ DoAnnounceEnd(Line.n)
    /\ UNCHANGED tvars

TNotify ==
    /\ Line.op = "evcb"
    /\ LET c == conns[Line.k]
           evs == Evs(Line.evs)
       IN Report(
            {<<c.cl # "open", "notification of a closed client">>,
             <<evs = <<>>, "empty notification">>,
             <<c.busy # 0, "notifications overlap">>,
             <<\E i \in DOMAIN evs : evs[i][1] = -1, "content of event">>,
             <<\E i \in DOMAIN evs : evs[i][1] # -1 /\
                  Wanted(Line.k, <<evs[i]>>) = <<>>, "unwanted event">>,
             <<c.cl = "open" /\ c.busy = 0 /\ ~CanNotify(Line.k, evs),
               "notification isn't the next one">>})
    /\ DoNotify(Line.k)
    /\ UNCHANGED tvars

TNotifyEnd ==
    /\ Line.op = "evend"
    /\ CASE Line.out = "ok" -> DoNotifyEnd(Line.k)
         [] Line.out = "error" -> DoCause({Line.k})
         [] OTHER -> UNCHANGED nvars
    /\ UNCHANGED tvars

TRequest ==
    /\ Line.op = "req"
    /\ DoRequest(Line.k, Line.kind, Line.data)
    /\ UNCHANGED tvars

\* requests with this data
Find(k, kind, data, st) ==
    {r \in DOMAIN conns[k].reqs : /\ conns[k].reqs[r].kind = kind
                                  /\ conns[k].reqs[r].data = data
                                  /\ conns[k].reqs[r].st = st}

\* request of a canceled call may be served later
ServeSt(k, r) == conns[k].reqs[r].st

TServe ==
    /\ Line.op = "sreq"
    /\ IF ~Known(Line.k)
       THEN Report({<<TRUE, "client name">>}) /\ UNCHANGED nvars
       ELSE LET rs == Find(Line.k, Line.kind, Line.data, "sent")
                r == CHOOSE x \in rs : TRUE
            IN IF rs = {}
               THEN /\ Report({<<TRUE, "request wasn't sent or is repeated">>})
                    /\ UNCHANGED nvars
               ELSE /\ Report({<<~CanServe(Line.k, r),
                                 "order of requests">>})
                    /\ DoServe(Line.k, r)
    /\ UNCHANGED tvars

TServeEnd ==
    /\ Line.op = "sreqend"
    /\ LET rs == IF Known(Line.k)
                 THEN Find(Line.k, Line.kind, Line.data, "served") \union
                      Find(Line.k, Line.kind, Line.data, "dropped")
                 ELSE {}
       IN IF rs = {} THEN UNCHANGED nvars
          ELSE DoServeEnd(Line.k, CHOOSE x \in rs : TRUE, <<Line.out, Line.res>>)
    /\ UNCHANGED tvars

TAnswer ==
    /\ Line.op = "reqend"
    /\ LET k == Line.k
           r == Line.r
           q == conns[k].reqs[r]
       IN /\ Report(
               {<<Line.out = "other", "unexpected result or exception">>,
                <<Line.out = "sent" /\ ~CanSent(k, r),
                  "request on a closed connection">>,
                <<Line.out = "connection" /\ ~CanAnswer(k, r, <<"connection">>),
                  "unexpected connection error">>,
                <<Line.out \in {"ok", "none"} /\
                    ~CanAnswer(k, r, <<Line.out, Line.res>>),
                  "answer of other request">>})
          /\ IF Line.out = "cancelled" THEN UNCHANGED nvars ELSE DoAnswer(k, r)
    /\ over' = over
    /\ ids' = ids

TCause ==
    /\ Line.op = "cause"
    /\ DoCause({Line.ks[i] : i \in DOMAIN Line.ks})
    /\ UNCHANGED tvars

TDisc ==
    /\ Line.op = "disc"
    /\ IF ~Known(Line.k)
       THEN Report({<<TRUE, "client name">>}) /\ UNCHANGED nvars
       ELSE /\ Report({<<conns[Line.k].st # "up" /\
                            ~(conns[Line.k].st = "pending" /\ over),
                         "disconnected without connected">>,
                       <<conns[Line.k].st = "up" /\ ~conns[Line.k].cause,
                         "connection ends without a reason">>})
            /\ DoServerEnd(Line.k)
    /\ UNCHANGED tvars

TClientEnd ==
    /\ Line.op = "cended"
    /\ Report({<<~conns[Line.k].cause, "connection ends without a reason">>})
    /\ DoClientEnd(Line.k)
    /\ UNCHANGED tvars

Pending(k) == {r \in DOMAIN conns[k].reqs :
                 conns[k].reqs[r].res # <<"over">>}

TQuiet ==
    /\ Line.op = "quiet"
    /\ Report(
         {<<\E k \in DOMAIN conns : conns[k].cl = "connecting",
            "connecting doesn't end">>,
          <<\E k \in DOMAIN conns : conns[k].cl = "open" /\ ~conns[k].cause
                                      /\ conns[k].out # <<>>,
            "notification is missing">>,
          <<\E k \in DOMAIN conns : conns[k].cl = "open" /\ ~conns[k].cause
                                      /\ conns[k].pos # Len(hist),
            "status change is missing">>,
          <<\E n \in DOMAIN anns : ~anns[n].done,
            "announcement doesn't end">>,
          <<\E k \in DOMAIN conns : conns[k].cause
                /\ (conns[k].cl = "open" \/ conns[k].st = "up"),
            "connection doesn't end">>,
          <<\E i \in DOMAIN Line.clients :
               LET c == Line.clients[i]
               IN conns[c[1]].cl = "open" /\
                  (~c[3] \/ c[2] # hist[Len(hist)]),
            "status of client">>,
          <<{Line.infos[i] : i \in DOMAIN Line.infos} #
                {k \in DOMAIN conns : conns[k].st = "up"},
            "connection infos">>})
    /\ UNCHANGED <<nvars, tvars>>

TServerClose ==
    /\ Line.op = "srvclose"
    /\ DoCause(DOMAIN conns)
    /\ over' = TRUE
    /\ UNCHANGED ids

TClosed ==
    /\ Line.op = "closed"
    /\ Report({<<~Line.closed, "server doesn't close">>,
               <<\E k \in DOMAIN conns : conns[k].cl = "open",
                 "client doesn't close">>,
               <<\E k \in DOMAIN conns : conns[k].st = "up",
                 "disconnected is missing">>,
               <<\E k \in DOMAIN conns : conns[k].cl = "connecting",
                 "connecting doesn't end">>,
               <<\E k \in DOMAIN conns : \E r \in Pending(k) :
                    ~\E j \in DOMAIN Lines :
                        /\ Lines[j].op = "reqend" /\ Lines[j].k = k
                        /\ Lines[j].r = r,
                 "request doesn't end">>})
    /\ UNCHANGED <<nvars, tvars>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TConnect \/ TServerConn \/ TAccept \/ TReject \/ TOpened
          \/ TConnFail \/ TSetStatus \/ TStatus \/ TAnnounce \/ TAnnounceEnd
          \/ TNotify \/ TNotifyEnd \/ TRequest \/ TServe \/ TServeEnd
          \/ TAnswer \/ TCause \/ TDisc \/ TClientEnd \/ TQuiet
          \/ TServerClose \/ TClosed
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<nvars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
