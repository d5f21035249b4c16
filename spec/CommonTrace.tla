---------------------------- MODULE CommonTrace ----------------------------
(* Validation of subscriptions, event type collections and timestamps.     *)
EXTENDS Subscriptions, Timestamps, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES
    tid, l,
    subs,      \* subscription name -> set of query types
    coll       \* content of the collection

vars == <<tid, l, subs, coll>>

Lines == Traces[tid].lines
Line == Lines[l]

Universe == RangeOf(Traces[tid].universe)

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ subs = <<>>
    /\ coll = {}

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Ok == Line.exc = ""

Exc == {<<~Ok, "unexpected error">>}

NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

------------------------------------------------------------------------------
\* subscriptions are numbered in order of creation

TNew ==
    /\ Line.op = "new"
    /\ Report(Exc)
    /\ subs' = Append(subs, RangeOf(Line.qs))
    /\ UNCHANGED coll

TInvalid ==       \* "*" which isn't last
    /\ Line.op = "invalid"
    /\ Report({<<Ok, "invalid query type is accepted">>})
    /\ UNCHANGED <<subs, coll>>

RECURSIVE FoldSubs(_, _, _)
FoldSubs(op(_, _), acc, others) ==
    IF others = <<>> THEN acc
    ELSE FoldSubs(op, op(acc, subs[Head(others)]), Tail(others))

TUnion ==
    /\ Line.op = "union"
    /\ Report(Exc)
    /\ subs' = Append(subs, FoldSubs(Union, subs[Line.a], Line.others))
    /\ UNCHANGED coll

TIntersection ==
    /\ Line.op = "intersection"
    /\ Report(Exc)
    /\ subs' = Append(subs, FoldSubs(Intersection, subs[Line.a], Line.others))
    /\ UNCHANGED coll

\* pairs <<event type, result>>
TMatches ==
    /\ Line.op = "matches"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<\E i \in DOMAIN Line.res :
                        Line.res[i][2] # SetMatches(subs[Line.a],
                                                    Line.res[i][1]),
                      "matches">>})
    /\ UNCHANGED <<subs, coll>>

TDisjoint ==
    /\ Line.op = "disjoint"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<Line.res # Disjoint(subs[Line.a], subs[Line.b]),
                      "isdisjoint">>})
    /\ UNCHANGED <<subs, coll>>

\* query types of a subscription describe the same set of event types
TQueryTypes ==
    /\ Line.op = "query_types"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<\E t \in Universe :
                        SetMatches(RangeOf(Line.res), t) #
                        SetMatches(subs[Line.a], t),
                      "get_query_types">>})
    /\ UNCHANGED <<subs, coll>>

TMatchesQuery ==
    /\ Line.op = "matches_query"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<Line.res # Matches(Line.q, Line.t),
                      "matches_query_type">>})
    /\ UNCHANGED <<subs, coll>>

------------------------------------------------------------------------------

TAdd ==
    /\ Line.op = "add"
    /\ Report(Exc)
    /\ coll' = CollectionAdd(coll, RangeOf(Line.qs), Line.v)
    /\ UNCHANGED subs

TRemove ==
    /\ Line.op = "remove"
    /\ Report(Exc)
    /\ coll' = CollectionRemove(coll, Line.v)
    /\ UNCHANGED subs

TGet ==
    /\ Line.op = "get"
    /\ Report(IF ~Ok THEN Exc
              ELSE LET want == CollectionGet(coll, Line.t)
                       got == RangeOf(Line.res)
                   IN {<<~(want \subseteq got), "missing value">>,
                       <<~(got \subseteq want), "value doesn't match">>,
                       <<~NoDup(Line.res), "repeated value">>})
    /\ UNCHANGED <<subs, coll>>

------------------------------------------------------------------------------
\* timestamps are [s, us] where s is a sequence of limbs (see Timestamps)

TBytes ==
    /\ Line.op = "bytes"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<Line.res # ToBytes(Line.t), "bytes">>,
                    <<Line.back # Line.t, "timestamp from bytes">>})
    /\ UNCHANGED <<subs, coll>>

TRound ==     \* wire, float
    /\ Line.op = "round"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<Line.back # Line.t, "round trip">>})
    /\ UNCHANGED <<subs, coll>>

TOrder ==
    /\ Line.op = "order"
    /\ Report(IF ~Ok THEN Exc
              ELSE LET lt == TsLess(Line.a, Line.b)
                       eq == Line.a = Line.b
                   IN {<<Line.lt # lt \/ Line.eq # eq, "order of timestamps">>,
                       <<Line.blt # lt \/ Line.beq # eq, "order of bytes">>})
    /\ UNCHANGED <<subs, coll>>

TDatetime ==
    /\ Line.op = "datetime"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<Line.res # CivilFromDays(Line.day) \o
                         <<Line.sod \div 3600, (Line.sod % 3600) \div 60,
                           Line.sod % 60, Line.t.us>>, "date-time">>,
                    <<Line.back # Line.t, "timestamp from date-time">>,
                    <<Line.naive # Line.t,
                      "timestamp from date-time without time zone">>,
                    <<Line.zoned # Line.t,
                      "timestamp from date-time in other time zone">>})
    /\ UNCHANGED <<subs, coll>>

TAddSeconds ==
    /\ Line.op = "addseconds"
    /\ Report(IF ~Ok THEN Exc
              ELSE {<<~(Line.res.us \in 0..999999), "microseconds">>,
                    <<Line.res # TsAdd(Line.t, Line.d), "add">>})
    /\ UNCHANGED <<subs, coll>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TNew \/ TInvalid \/ TUnion \/ TIntersection \/ TMatches
          \/ TDisjoint \/ TQueryTypes \/ TMatchesQuery \/ TAdd \/ TRemove
          \/ TGet \/ TBytes \/ TRound \/ TOrder \/ TDatetime \/ TAddSeconds
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<tid, subs, coll>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
