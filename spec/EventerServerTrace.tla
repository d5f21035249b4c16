------------------------- MODULE EventerServerTrace -------------------------
(* Validation of histories of the event server's eventer server.           *)
(*                                                                         *)
(* Traces[tid] = [events : Seq of [srv, type], lines : Seq].               *)
EXTENDS EventerServer, EventTypes, Integers, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
    status,     \* last status set
    subs,       \* for each connection [sub, srv, persisted, out, busy, acked]
    anns,       \* announcements [ack, addr, done]
    regs,       \* registrations passed to engines <<connection, kind, request>>
    queries     \* Seq of [k, data, st, res, over]

tvars == <<status, subs, anns, regs, queries>>
vars == <<tid, l, svars, tvars>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ SInit
    /\ status = "STANDBY"
    /\ subs = <<>> /\ anns = <<>> /\ regs = <<>> /\ queries = <<>>

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

------------------------------------------------------------------------------
\* engine and status

TStatus ==
    /\ Line.op = "setstatus"
    /\ status' = Line.s
    /\ UNCHANGED <<svars, subs, anns, regs, queries>>

TEngine ==
    /\ Line.op = "engine"
    /\ DoEngine(Line.e)
    /\ UNCHANGED tvars

TEngineClose ==
    /\ Line.op = "engclose"
    /\ DoEngineClose
    /\ UNCHANGED tvars

------------------------------------------------------------------------------
\* connections

TConnect ==
    /\ Line.op = "connect"
    /\ DoConnect(Line.name, Line.valid)
    /\ subs' = Append(subs, [sub |-> Line.sub, srv |-> Line.srv,
                             persisted |-> Line.persisted,
                             out |-> <<>>, busy |-> 0, acked |-> {}])
    /\ UNCHANGED <<status, anns, regs, queries>>

TOpened ==
    /\ Line.op = "opened"
    /\ Report({<<~conns[Line.k].valid, "client with invalid token">>,
               <<conns[Line.k].rejected, "client is rejected">>,
               <<conns[Line.k].steady /\ ~conns[Line.k].hello,
                 "CONNECTED is missing">>,
               <<~CanOpen(Line.k), "connecting">>})
    /\ DoOpen(Line.k)
    /\ UNCHANGED tvars

TConnFail ==
    /\ Line.op = "connfail"
    /\ Report({<<~CanFail(Line.k, Line.refused),
                 "client with valid token is refused">>})
    /\ DoFail(Line.k)
    /\ UNCHANGED tvars

TCause ==
    /\ Line.op = "cause"
    /\ DoCause({Line.ks[i] : i \in DOMAIN Line.ks})
    /\ UNCHANGED tvars

TClientEnd ==
    /\ Line.op = "cended"
    /\ Report({<<~CanEnd(Line.k), "connection ends without a reason">>})
    /\ DoEnd(Line.k)
    /\ UNCHANGED tvars

------------------------------------------------------------------------------
\* registrations

\* connections which could have caused this registration (clients can share
\* a name)
Named(x) == {k \in DOMAIN conns : conns[k].name = x.name /\ x.k \in {0, k}}

\* connection and request with this data
WithData(data) ==
    {<<k, r>> \in UNION {{<<j, q>> : q \in DOMAIN conns[j].reqs}
                           : j \in DOMAIN conns} :
        conns[k].reqs[r].data = data}

TRegister ==
    /\ Line.op = "ereg"
    /\ Report({<<Line.e # eng, "engine isn't the current one">>,
               <<Line.src[1] # "EVENTER", "source type">>})
    /\ LET src == Line.src
           ks == Named(Line)
           k == CHOOSE x \in ks : TRUE
           ds == WithData(Line.data)
           d == CHOOSE x \in ds : TRUE
       IN CASE Line.kind \in {"CONNECTED", "DISCONNECTED"} /\ ks = {} ->
                 /\ Report({<<TRUE, "client name">>})
                 /\ regs' = Append(regs, <<0, "unknown", 0>>)
                 /\ UNCHANGED svars
            [] Line.kind = "CONNECTED" /\ ks # {} ->
                 /\ Report({<<Line.sts, "source timestamp">>,
                            <<~conns[k].valid, "client with invalid token">>,
                            <<~SrcFree(k, src), "source">>,
                            <<conns[k].hello, "repeated CONNECTED">>,
                            <<~CanHello(k, src), "CONNECTED">>})
                 /\ DoHello(k, src)
                 /\ regs' = Append(regs, <<k, "hello", 0>>)
            [] Line.kind = "DISCONNECTED" /\ ks # {} ->
                 /\ Report({<<Line.sts, "source timestamp">>,
                            <<~SrcFree(k, src), "source">>,
                            <<conns[k].bye, "repeated DISCONNECTED">>,
                            <<~conns[k].cause, "DISCONNECTED of a connected client">>,
                            <<~CanBye(k, src), "DISCONNECTED">>})
                 /\ DoBye(k, src)
                 /\ regs' = Append(regs, <<k, "bye", 0>>)
            [] Line.kind = "data" /\ ds # {} ->
                 /\ Report({<<conns[d[1]].reqs[d[2]].st # "sent",
                              "request is passed again">>,
                            <<~SrcFree(d[1], src), "source">>,
                            <<conns[d[1]].bye, "request after DISCONNECTED">>,
                            <<~CanPass(d[1], d[2], src), "order of requests">>})
                 /\ DoPass(d[1], d[2], src)
                 /\ regs' = Append(regs, <<d[1], "data", d[2]>>)
            [] OTHER ->
                 /\ Report({<<TRUE, "unknown events">>})
                 /\ regs' = Append(regs, <<0, "unknown", 0>>)
                 /\ UNCHANGED svars
    /\ UNCHANGED <<status, subs, anns, queries>>

TRegisterEnd ==
    /\ Line.op = "eregend"
    /\ LET x == regs[Line.i + 1]
       IN CASE x[2] = "hello" /\ Line.out = "error" -> DoHelloFail(x[1])
            [] x[2] = "data" /\ Line.out # "cancelled" ->
                 DoPassEnd(x[1], x[3], <<Line.out, Line.res>>)
            [] OTHER -> UNCHANGED svars
    /\ UNCHANGED tvars

TRequest ==
    /\ Line.op = "req"
    /\ DoRequest(Line.k, Line.data, Line.resp)
    /\ UNCHANGED tvars

TAnswer ==
    /\ Line.op = "reqend"
    /\ Report({<<Line.out = "other", "unexpected result or exception">>,
               <<Line.out = "connection" /\
                    ~CanAnswer(Line.k, Line.r, <<"connection">>),
                 "unexpected connection error">>,
               <<Line.out \in {"ok", "none"} /\
                    ~CanAnswer(Line.k, Line.r, <<Line.out, Line.res>>),
                 "answer">>})
    /\ DoAnswer(Line.k, Line.r)
    /\ UNCHANGED tvars

------------------------------------------------------------------------------
\* queries

TQuery ==
    /\ Line.op = "query"
    /\ queries' = Append(queries, [k |-> Line.k, data |-> Line.data,
                                   st |-> "sent", res |-> 0, over |-> FALSE])
    /\ UNCHANGED <<svars, status, subs, anns, regs>>

QueryOf(data) == {i \in DOMAIN queries : queries[i].data = data}

TBackendQuery ==
    /\ Line.op = "bquery"
    /\ LET is == QueryOf(Line.data)
           i == CHOOSE x \in is : TRUE
       IN IF is = {} \/ (is # {} /\ queries[i].st # "sent")
          THEN /\ Report({<<TRUE, "unknown or repeated query">>})
               /\ UNCHANGED queries
          ELSE queries' = [queries EXCEPT ![i].st = "passed"]
    /\ UNCHANGED <<svars, status, subs, anns, regs>>

TBackendQueryEnd ==
    /\ Line.op = "bqueryend"
    /\ LET is == QueryOf(Line.data)
           i == CHOOSE x \in is : TRUE
       IN IF is = {} THEN UNCHANGED <<svars, queries>>
          ELSE /\ queries' = [queries EXCEPT ![i].st = Line.out,
                                             ![i].res = Line.res]
               /\ IF Line.out = "error" THEN DoCause({queries[i].k})
                  ELSE UNCHANGED svars
    /\ UNCHANGED <<status, subs, anns, regs>>

TQueryEnd ==
    /\ Line.op = "queryend"
    /\ Report({<<Line.out = "other", "unexpected result or exception">>,
               <<Line.out = "connection" /\ ~conns[Line.k].cause,
                 "unexpected connection error">>,
               <<Line.out = "ok" /\ ~(queries[Line.i].st = "ok" /\
                                      queries[Line.i].res = Line.res),
                 "answer of a query">>})
    /\ queries' = [queries EXCEPT ![Line.i].over = TRUE]
    /\ UNCHANGED <<svars, status, subs, anns, regs>>

------------------------------------------------------------------------------
\* notifications (see Eventer.tla)

EventRec(e) == Traces[tid].events[e]

Wanted(k, evs) ==
    SelectSeq(evs, LAMBDA e :
        /\ SubMatches(subs[k].sub, EventRec(e).type)
        /\ subs[k].srv = 0 \/ subs[k].srv = EventRec(e).srv)

TAnnounce ==
    /\ Line.op = "announce"
    /\ LET n == Len(anns) + 1
           addr == {k \in DOMAIN conns :
                      /\ conns[k].st = "open"
                      /\ subs[k].persisted = Line.persisted
                      /\ Wanted(k, Line.evs) # <<>>}
       IN /\ anns' = Append(anns, [ack |-> Line.ack, addr |-> addr,
                                   done |-> FALSE])
          /\ subs' = [k \in DOMAIN subs |->
                        IF k \in addr
                        THEN [subs[k] EXCEPT !.out = Append(@,
                                [n |-> n, evs |-> Wanted(k, Line.evs)])]
                        ELSE subs[k]]
    /\ UNCHANGED <<svars, status, regs, queries>>

TNotify ==
    /\ Line.op = "evcb"
    /\ LET s == subs[Line.k]
           ok == s.busy = 0 /\ s.out # <<>> /\ s.out[1].evs = Line.evs
       IN /\ Report({<<conns[Line.k].st # "open",
                       "notification of a closed client">>,
                     <<~ok, "notification isn't the next one">>})
          /\ subs' = IF s.out = <<>> THEN subs
                     ELSE [subs EXCEPT ![Line.k].busy = Head(s.out).n,
                                       ![Line.k].out = Tail(@)]
    /\ UNCHANGED <<svars, status, anns, regs, queries>>

TNotifyEnd ==
    /\ Line.op = "evend"
    /\ subs' = [subs EXCEPT ![Line.k].acked = @ \union {subs[Line.k].busy},
                            ![Line.k].busy = 0]
    /\ UNCHANGED <<svars, status, anns, regs, queries>>

TAnnounceEnd ==
    /\ Line.op = "annend"
    /\ Report({<<Line.out # "ok", "announcing fails">>,
               <<anns[Line.n].ack /\ \E k \in anns[Line.n].addr :
                    Line.n \notin subs[k].acked /\ ~conns[k].cause,
                 "announcement ends without acknowledgement">>})
    /\ anns' = [anns EXCEPT ![Line.n].done = TRUE]
    /\ UNCHANGED <<svars, status, subs, regs, queries>>

------------------------------------------------------------------------------

TQuiet ==
    /\ Line.op = "quiet"
    /\ LET names == {Line.names[i] : i \in DOMAIN Line.names}
           up == {k \in DOMAIN conns : conns[k].st = "open" /\ ~conns[k].cause}
       IN Report(
            {<<\E k \in DOMAIN conns : conns[k].st = "connecting",
               "connecting doesn't end">>,
             <<\E k \in DOMAIN conns : conns[k].st = "open" /\ conns[k].cause,
               "connection doesn't end">>,
             <<\E k \in DOMAIN conns : ByeMissing(k),
               "DISCONNECTED is missing">>,
             <<\E k \in DOMAIN conns : RequestMissing(k),
               "request isn't passed to the engine">>,
             <<\E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
                 ~conns[k].reqs[r].over, "request doesn't end">>,
             <<\E i \in DOMAIN queries : ~queries[i].over,
               "query doesn't end">>,
             <<\E n \in DOMAIN anns : ~anns[n].done,
               "announcement doesn't end">>,
             <<\E k \in up : subs[k].out # <<>>, "notification is missing">>,
             <<\E i \in DOMAIN Line.status :
                 Line.status[i][2] # status, "status">>,
             <<\/ Len(Line.names) # Cardinality(up)
               \/ Cardinality({x[1] : x \in names}) # Len(Line.names)
               \/ \E k \in up :
                    ~\E x \in names :
                        /\ x[2] = conns[k].name
                        /\ conns[k].src \in {<<>>, x[1]},
               "names of clients">>})
    /\ UNCHANGED <<svars, tvars>>

TServerClose ==
    /\ Line.op = "srvclose"
    /\ DoCause(DOMAIN conns)
    /\ UNCHANGED tvars

TClosed ==
    /\ Line.op = "closed"
    /\ Report({<<~Line.closed, "server doesn't close">>,
               <<\E k \in DOMAIN conns : conns[k].st = "open",
                 "client doesn't close">>})
    /\ UNCHANGED <<svars, tvars>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TStatus \/ TEngine \/ TEngineClose \/ TConnect \/ TOpened
          \/ TConnFail \/ TCause \/ TClientEnd \/ TRegister \/ TRegisterEnd
          \/ TRequest \/ TAnswer \/ TQuery \/ TBackendQuery
          \/ TBackendQueryEnd \/ TQueryEnd \/ TAnnounce \/ TNotify
          \/ TNotifyEnd \/ TAnnounceEnd \/ TQuiet \/ TServerClose \/ TClosed
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<svars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
