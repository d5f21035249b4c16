-------------------------------- MODULE Wire --------------------------------
(* Wire form (HatEventer schema) of events, register events, queries,      *)
(* results and statuses, and natural order of events.                      *)
(*                                                                         *)
(* Data of the wire: record, sequence, string, boolean and                 *)
(*   [i |-> decimal string]  - integer                                     *)
(*   [b |-> bytes]           - bytes                                       *)
(*   [c |-> name, v |-> data] - choice ("null" if it has no data)          *)
(* Optional values are sequences of at most one element.  JSON data is     *)
(* represented by its canonical text.                                      *)
EXTENDS Naturals, Integers, Sequences

Int2Wire(i) == [i |-> i]
Int4Wire(w) == w.i

Choice(c, v) == [c |-> c, v |-> v]

Opt2Wire(f(_), x) == IF x = <<>> THEN Choice("none", "null")
                     ELSE Choice("value", f(x[1]))
Opt4Wire(f(_), w) == IF w.c = "none" THEN <<>> ELSE <<f(w.v)>>

Seq2Wire(f(_), s) == [i \in DOMAIN s |-> f(s[i])]

Id(x) == x

Ts2Wire(t) == [s |-> Int2Wire(t.s), us |-> Int2Wire(t.us)]
Ts4Wire(w) == [s |-> Int4Wire(w.s), us |-> Int4Wire(w.us)]

EventId2Wire(i) == [server |-> Int2Wire(i.server),
                    session |-> Int2Wire(i.session),
                    instance |-> Int2Wire(i.instance)]
EventId4Wire(w) == [server |-> Int4Wire(w.server),
                    session |-> Int4Wire(w.session),
                    instance |-> Int4Wire(w.instance)]

\* [kind |-> "binary", type, data] or [kind |-> "json", text]
Payload2Wire(p) ==
    IF p.kind = "binary"
    THEN Choice("binary", [type |-> p.type, data |-> [b |-> p.data]])
    ELSE Choice("json", p.text)
Payload4Wire(w) ==
    IF w.c = "binary"
    THEN [kind |-> "binary", type |-> w.v.type, data |-> w.v.data.b]
    ELSE [kind |-> "json", text |-> w.v]

Event2Wire(e) ==
    [id |-> EventId2Wire(e.id),
     type |-> e.type,
     timestamp |-> Ts2Wire(e.timestamp),
     sourceTimestamp |-> Opt2Wire(Ts2Wire, e.source_timestamp),
     payload |-> Opt2Wire(Payload2Wire, e.payload)]
Event4Wire(w) ==
    [id |-> EventId4Wire(w.id),
     type |-> w.type,
     timestamp |-> Ts4Wire(w.timestamp),
     source_timestamp |-> Opt4Wire(Ts4Wire, w.sourceTimestamp),
     payload |-> Opt4Wire(Payload4Wire, w.payload)]

Register2Wire(e) ==
    [type |-> e.type,
     sourceTimestamp |-> Opt2Wire(Ts2Wire, e.source_timestamp),
     payload |-> Opt2Wire(Payload2Wire, e.payload)]
Register4Wire(w) ==
    [type |-> w.type,
     source_timestamp |-> Opt4Wire(Ts4Wire, w.sourceTimestamp),
     payload |-> Opt4Wire(Payload4Wire, w.payload)]

Latest2Wire(p) ==
    Choice("latest", [eventTypes |-> Opt2Wire(Id, p.event_types)])

Timeseries2Wire(p) ==
    Choice("timeseries",
           [eventTypes |-> Opt2Wire(Id, p.event_types),
            tFrom |-> Opt2Wire(Ts2Wire, p.t_from),
            tTo |-> Opt2Wire(Ts2Wire, p.t_to),
            sourceTFrom |-> Opt2Wire(Ts2Wire, p.source_t_from),
            sourceTTo |-> Opt2Wire(Ts2Wire, p.source_t_to),
            order |-> Choice(p.order, "null"),
            orderBy |-> Choice(p.order_by, "null"),
            maxResults |-> Opt2Wire(Int2Wire, p.max_results),
            lastEventId |-> Opt2Wire(EventId2Wire, p.last_event_id)])

Server2Wire(p) ==
    Choice("server",
           [serverId |-> Int2Wire(p.server_id),
            persisted |-> p.persisted,
            maxResults |-> Opt2Wire(Int2Wire, p.max_results),
            lastEventId |-> Opt2Wire(EventId2Wire, p.last_event_id)])

Params2Wire(p) == CASE p.kind = "latest" -> Latest2Wire(p)
                    [] p.kind = "timeseries" -> Timeseries2Wire(p)
                    [] p.kind = "server" -> Server2Wire(p)

Params4Wire(w) ==
    CASE w.c = "latest" ->
            [kind |-> "latest",
             event_types |-> Opt4Wire(Id, w.v.eventTypes)]
      [] w.c = "timeseries" ->
            [kind |-> "timeseries",
             event_types |-> Opt4Wire(Id, w.v.eventTypes),
             t_from |-> Opt4Wire(Ts4Wire, w.v.tFrom),
             t_to |-> Opt4Wire(Ts4Wire, w.v.tTo),
             source_t_from |-> Opt4Wire(Ts4Wire, w.v.sourceTFrom),
             source_t_to |-> Opt4Wire(Ts4Wire, w.v.sourceTTo),
             order |-> w.v.order.c,
             order_by |-> w.v.orderBy.c,
             max_results |-> Opt4Wire(Int4Wire, w.v.maxResults),
             last_event_id |-> Opt4Wire(EventId4Wire, w.v.lastEventId)]
      [] w.c = "server" ->
            [kind |-> "server",
             server_id |-> Int4Wire(w.v.serverId),
             persisted |-> w.v.persisted,
             max_results |-> Opt4Wire(Int4Wire, w.v.maxResults),
             last_event_id |-> Opt4Wire(EventId4Wire, w.v.lastEventId)]

Result2Wire(r) == [events |-> Seq2Wire(Event2Wire, r.events),
                   moreFollows |-> r.more_follows]
Result4Wire(w) == [events |-> Seq2Wire(Event4Wire, w.events),
                   more_follows |-> w.moreFollows]

Status2Wire(s) == Choice(s, "null")
Status4Wire(w) == w.c

ToWire(kind, x) == CASE kind = "event" -> Event2Wire(x)
                     [] kind = "register" -> Register2Wire(x)
                     [] kind = "params" -> Params2Wire(x)
                     [] kind = "result" -> Result2Wire(x)
                     [] kind = "status" -> Status2Wire(x)
                     [] kind = "payload" -> Payload2Wire(x)

FromWire(kind, w) == CASE kind = "event" -> Event4Wire(w)
                       [] kind = "register" -> Register4Wire(w)
                       [] kind = "params" -> Params4Wire(w)
                       [] kind = "result" -> Result4Wire(w)
                       [] kind = "status" -> Status4Wire(w)
                       [] kind = "payload" -> Payload4Wire(w)

------------------------------------------------------------------------------
(* Natural order: events are [server, session, instance, timestamp] with   *)
(* integers; the first operand is the one which is registered earlier.     *)

SameId(a, b) == /\ a.server = b.server
                /\ a.session = b.session
                /\ a.instance = b.instance

IdLess(a, b) == \/ a.session < b.session
                \/ a.session = b.session /\ a.instance < b.instance

Before(a, b) == IF SameId(a, b) THEN FALSE
                ELSE IF a.server = b.server THEN IdLess(a, b)
                ELSE a.timestamp <= b.timestamp

After(a, b) == IF SameId(a, b) THEN FALSE
               ELSE IF a.server = b.server THEN IdLess(b, a)
               ELSE a.timestamp > b.timestamp
=============================================================================
