------------------------------- MODULE MCWire -------------------------------
(* Wire form can be read back, and natural order is an order on histories  *)
(* in which timestamps don't decrease on one server.                       *)
EXTENDS Wire, TLC

CONSTANT Big

VARIABLES kind, x, h

Opt(S) == {<<>>} \cup {<<i>> : i \in S}

N == IF Big THEN {"0", "1", "2"} ELSE {"0", "1"}

Tss == [s : {"0", "-1"}, us : {"0", "5"}]
SmallTs == {[s |-> "0", us |-> "5"], [s |-> "-1", us |-> "0"]}
Ids == [server : N, session : {"1", "3"}, instance : {"1"}]
Types == {<<>>, <<"a">>, <<"a", "">>}
Payloads == [kind : {"binary"}, type : {"", "t"}, data : {<<>>, <<0, 1>>}]
            \cup [kind : {"json"}, text : {"null", "[1]"}]
Events == [id : Ids, type : Types, timestamp : SmallTs,
           source_timestamp : Opt(SmallTs), payload : Opt(Payloads)]
Registers == [type : Types, source_timestamp : Opt(Tss),
              payload : Opt(Payloads)]
Params == [kind : {"latest"}, event_types : Opt({<<>>, <<<<"a">>>>})]
          \cup
          [kind : {"timeseries"}, event_types : Opt({<<>>, <<<<"a">>>>}),
           t_from : Opt({[s |-> "0", us |-> "5"]}),
           t_to : Opt({[s |-> "1", us |-> "5"]}),
           source_t_from : Opt({[s |-> "2", us |-> "5"]}),
           source_t_to : Opt({[s |-> "3", us |-> "5"]}),
           order : {"ascending", "descending"},
           order_by : {"timestamp", "sourceTimestamp"},
           max_results : Opt(N), last_event_id : Opt(Ids)]
          \cup
          [kind : {"server"}, server_id : N, persisted : BOOLEAN,
           max_results : Opt(N), last_event_id : Opt(Ids)]
Results == {[events |-> s, more_follows |-> m] :
                s \in {<<>>} \cup {<<e>> : e \in {i \in Events : i.type = <<>>}},
                m \in BOOLEAN}
Statuses == {"standby", "starting", "operational", "stopping"}

\* histories (in order of registration) for natural order
Ev == [server : {1, 2}, session : 1..2, instance : {1},
       timestamp : 1..(IF Big THEN 3 ELSE 2)]

Valid(s) ==
    \A i, j \in DOMAIN s :
        i < j => /\ ~SameId(s[i], s[j])
                 /\ s[i].server = s[j].server =>
                        IdLess(s[i], s[j]) /\ s[i].timestamp <= s[j].timestamp

Histories == {s \in (Ev \X Ev \X Ev) : Valid(s)}

Init == \/ kind = "event" /\ x \in Events /\ h = <<>>
        \/ kind = "register" /\ x \in Registers /\ h = <<>>
        \/ kind = "params" /\ x \in Params /\ h = <<>>
        \/ kind = "result" /\ x \in Results /\ h = <<>>
        \/ kind = "status" /\ x \in Statuses /\ h = <<>>
        \/ kind = "payload" /\ x \in Payloads /\ h = <<>>
        \/ kind = "order" /\ x = "null" /\ h \in Histories

Spec == Init /\ [][UNCHANGED <<kind, x, h>>]_<<kind, x, h>>

Inverse == kind # "order" => FromWire(kind, ToWire(kind, x)) = x

Again == kind # "order" =>
    ToWire(kind, FromWire(kind, ToWire(kind, x))) = ToWire(kind, x)

\* two events of a history are ordered in exactly one way, and the earlier
\* one is before the later one unless its timestamp (of other server) is later
Consistent ==
    kind = "order" =>
        \A i, j \in DOMAIN h : i < j =>
            /\ Before(h[i], h[j]) # After(h[i], h[j])
            /\ After(h[i], h[j]) =>
                /\ h[i].server # h[j].server
                /\ h[i].timestamp > h[j].timestamp

\* the order doesn't have cycles
Acyclic ==
    kind = "order" =>
        LET B(i, j) == IF i < j THEN Before(h[i], h[j])
                       ELSE After(h[j], h[i])
        IN /\ ~(B(1, 2) /\ B(2, 3) /\ B(3, 1))
           /\ ~(B(1, 3) /\ B(3, 2) /\ B(2, 1))
=============================================================================
