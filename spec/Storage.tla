------------------------------ MODULE Storage ------------------------------
(* LMDB storage: in-memory state, pending changes, flush snapshots and the  *)
(* durable database.                                                       *)
(*                                                                         *)
(* Events are referred to by integer identifiers; Ev(e) is the record      *)
(*   [srv, sess, inst, ts, has_sts, sts, type, payload]                    *)
(* A configuration is a record                                             *)
(*   [latest : subscription, conds : Seq of [subs, cond],                  *)
(*    parts : Seq of [order : {"T", "S"}, subs : subscription,             *)
(*                    min, max, dur : Int (-1 - not set)]]                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, EventTypes, Conditions

CONSTANT Ev(_)

VARIABLES
    conf,      \* current configuration
    open,      \* the backend is open
    last,      \* partial function: server -> last accepted event
    latest,    \* set of latest events (one for each type)
    pend,      \* sequence of accepted events kept by some storage and not
               \* yet included in a flush
    snap,      \* flush in progress: [on, last, latest, evs]
    disk       \* durable state: [last, latest, ts] where ts is a partial
               \* function from partition key to the set of events

svars == <<conf, open, last, latest, pend, snap, disk>>

NoSnap == [on |-> FALSE, last |-> <<>>, latest |-> {}, evs |-> <<>>]

EmptyFn == [x \in {} |-> 0]

EmptyDisk == [last |-> EmptyFn, latest |-> {}, ts |-> EmptyFn]

Range(s) == {s[i] : i \in DOMAIN s}

------------------------------------------------------------------------------
\* Event order

IdLess(a, b) ==   \* ids of the same server
    \/ Ev(a).sess < Ev(b).sess
    \/ Ev(a).sess = Ev(b).sess /\ Ev(a).inst < Ev(b).inst

\* natural order: b isn't greater than a, which is registered later
NotGreater(b, a) ==
    IF Ev(a).srv = Ev(b).srv THEN ~IdLess(a, b) ELSE Ev(b).ts <= Ev(a).ts

TsOf(order, e) == IF order = "T" THEN Ev(e).ts ELSE Ev(e).sts

------------------------------------------------------------------------------
\* Partitions

PartKey(part) == <<part.order, Range(part.subs)>>

Keeps(part, e) == /\ SubMatches(part.subs, Ev(e).type)
                  /\ part.order = "S" => Ev(e).has_sts

Stored(key) == IF key \in DOMAIN disk.ts THEN disk.ts[key] ELSE {}

PendIn(part) == {e \in Range(pend) \union
                       (IF snap.on THEN Range(snap.evs) ELSE {}) :
                   Keeps(part, e)}

------------------------------------------------------------------------------
\* Registration

Admitted(l, e) ==
    IF Ev(e).srv \in DOMAIN l
    THEN LET p == l[Ev(e).srv] IN IdLess(p, e) /\ Ev(p).ts <= Ev(e).ts
    ELSE Ev(e).sess > 0 \/ Ev(e).inst > 0

Accepted(l, e) == Admitted(l, e) /\ CondMatches(conf.conds, Ev(e))

SetLast(l, e) == [s \in DOMAIN l \union {Ev(e).srv} |->
                    IF s = Ev(e).srv THEN e ELSE l[s]]

\* new set of latest events after e is accepted
PutLatest(lt, e) ==
    IF ~SubMatches(conf.latest, Ev(e).type) THEN lt
    ELSE LET prev == {x \in lt : Ev(x).type = Ev(e).type}
         IN IF \A x \in prev : NotGreater(x, e)
            THEN (lt \ prev) \union {e}
            ELSE lt

InTs(e) == \E i \in DOMAIN conf.parts : Keeps(conf.parts[i], e)

RECURSIVE RegisterFold(_, _)
RegisterFold(st, batch) ==
    IF batch = <<>> THEN st
    ELSE LET e == Head(batch)
         IN RegisterFold(
              IF ~Accepted(st.last, e) THEN st
              ELSE LET lt == PutLatest(st.latest, e)
                   IN [last   |-> SetLast(st.last, e),
                       latest |-> lt,
                       pend   |-> IF e \in lt \/ InTs(e)
                                  THEN Append(st.pend, e) ELSE st.pend],
              Tail(batch))

Register(batch) ==
    /\ open
    /\ LET st == RegisterFold([last |-> last, latest |-> latest,
                               pend |-> pend], batch)
       IN /\ last' = st.last
          /\ latest' = st.latest
          /\ pend' = st.pend
    /\ UNCHANGED <<conf, open, snap, disk>>

------------------------------------------------------------------------------
\* Flush: pending changes are taken as one unit and written as one
\* transaction

FlushBegin ==
    /\ open
    /\ ~snap.on
    /\ snap' = [on |-> TRUE, last |-> last, latest |-> latest, evs |-> pend]
    /\ pend' = <<>>
    /\ UNCHANGED <<conf, open, last, latest, disk>>

Written(d, s) ==
    LET evs == Range(s.evs)
        changed == s.latest \intersect evs
        keys == {PartKey(conf.parts[i]) : i \in DOMAIN conf.parts}
        new(key) == {e \in evs : \E i \in DOMAIN conf.parts :
                        /\ PartKey(conf.parts[i]) = key
                        /\ Keeps(conf.parts[i], e)}
        old(key) == IF key \in DOMAIN d.ts THEN d.ts[key] ELSE {}
    IN [last   |-> s.last,
        latest |-> {e \in d.latest : \A c \in changed :
                        Ev(c).type # Ev(e).type} \union changed,
        ts     |-> [key \in DOMAIN d.ts \union keys |->
                        old(key) \union new(key)]]

FlushCommit ==
    /\ snap.on
    /\ disk' = Written(disk, snap)
    /\ snap' = NoSnap
    /\ UNCHANGED <<conf, open, last, latest, pend>>

\* complete flush as one step (nothing else observes the state between)
Flush ==
    /\ open
    /\ ~snap.on
    /\ disk' = Written(disk, [on |-> TRUE, last |-> last, latest |-> latest,
                              evs |-> pend])
    /\ pend' = <<>>
    /\ UNCHANGED <<conf, open, last, latest, snap>>

\* Memory backend: everything is registered
RECURSIVE RegisterAllFold(_, _)
RegisterAllFold(st, batch) ==
    IF batch = <<>> THEN st
    ELSE LET e == Head(batch)
         IN RegisterAllFold(
              [last   |-> SetLast(st.last, e),
               latest |-> PutLatest(st.latest, e),
               pend   |-> Append(st.pend, e)], Tail(batch))

RegisterAll(batch) ==
    /\ open
    /\ LET st == RegisterAllFold([last |-> last, latest |-> latest,
                                  pend |-> <<>>], batch)
       IN /\ last' = st.last
          /\ latest' = st.latest
          /\ disk' = Written(disk, [on |-> TRUE, last |-> st.last,
                                    latest |-> st.latest, evs |-> st.pend])
    /\ UNCHANGED <<conf, open, pend, snap>>

------------------------------------------------------------------------------
\* Cleanup: the oldest entries are removed from limited partitions

\* total order of entries in a partition
EntryLess(order, a, b) ==
    \/ TsOf(order, a) < TsOf(order, b)
    \/ /\ TsOf(order, a) = TsOf(order, b)
       /\ \/ Ev(a).srv < Ev(b).srv
          \/ Ev(a).srv = Ev(b).srv /\ IdLess(a, b)

Surplus(part, now, stored) ==
    LET n == Cardinality(stored)
        newer(e) == Cardinality({x \in stored :
                                   x = e \/ EntryLess(part.order, e, x)})
        \* newer(e): number of entries left before e is removed
    IN IF part.min < 0 /\ part.max < 0 /\ part.dur < 0 THEN {}
       ELSE {e \in stored :
               /\ newer(e) > (IF part.min < 0 THEN 0 ELSE part.min)
               /\ \/ part.max >= 0 /\ newer(e) > part.max
                  \/ part.dur >= 0 /\ TsOf(part.order, e) < now - part.dur}

Cleaned(d, now) ==
    [d EXCEPT !.ts =
        [key \in DOMAIN d.ts |->
            d.ts[key] \ UNION {IF PartKey(conf.parts[i]) = key
                               THEN Surplus(conf.parts[i], now, d.ts[key])
                               ELSE {} : i \in DOMAIN conf.parts}]]

Cleanup(now) ==
    /\ open
    /\ disk' = Cleaned(disk, now)
    /\ UNCHANGED <<conf, open, last, latest, pend, snap>>

------------------------------------------------------------------------------
\* Close, crash and reopen

Loaded(c, d) == {e \in d.latest : /\ CondMatches(c.conds, Ev(e))
                                  /\ SubMatches(c.latest, Ev(e).type)}

Close ==      \* orderly: everything pending is written
    /\ open
    /\ ~snap.on
    /\ disk' = Written(disk, [on |-> TRUE, last |-> last, latest |-> latest,
                              evs |-> pend])
    /\ pend' = <<>>
    /\ open' = FALSE
    /\ UNCHANGED <<conf, last, latest, snap>>

Crash ==      \* everything that isn't durable is lost
    /\ open
    /\ open' = FALSE
    /\ pend' = <<>>
    /\ snap' = NoSnap
    /\ UNCHANGED <<conf, last, latest, disk>>

Open(c) ==
    /\ ~open
    /\ open' = TRUE
    /\ conf' = c
    /\ last' = disk.last
    /\ latest' = Loaded(c, disk)
    /\ UNCHANGED <<pend, snap, disk>>

------------------------------------------------------------------------------
\* Query answers

LatestAnswer(has_types, types) ==
    {e \in latest : has_types => SubMatches(types, Ev(e).type)}

\* partition searched by a timeseries query, 0 if there is none
Selected(order, has_types, types) ==
    LET ok == {i \in DOMAIN conf.parts :
                 /\ conf.parts[i].order = order
                 /\ ~(has_types /\ Len(types) > 0 /\
                      SubDisjoint(types, conf.parts[i].subs))}
    IN IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j

\* q - [order_by, has_types, types, has_tf, tf, has_tt, tt, has_stf, stf,
\*      has_stt, stt]
TsFilter(q, e) ==
    /\ q.has_types => SubMatches(q.types, Ev(e).type)
    /\ q.has_tf => Ev(e).ts >= q.tf
    /\ q.has_tt => Ev(e).ts <= q.tt
    /\ q.has_stf => Ev(e).has_sts /\ Ev(e).sts >= q.stf
    /\ q.has_stt => Ev(e).has_sts /\ Ev(e).sts <= q.stt

TsContent(i) ==
    {e \in Stored(PartKey(conf.parts[i])) :
        CondMatches(conf.conds, Ev(e))} \union PendIn(conf.parts[i])

TsAnswer(q) ==
    LET i == Selected(q.order_by, q.has_types, q.types)
    IN IF i = 0 THEN {} ELSE {e \in TsContent(i) : TsFilter(q, e)}

\* events kept by the database
DiskKept == {e \in disk.latest \union UNION {disk.ts[k] : k \in DOMAIN disk.ts}
               : CondMatches(conf.conds, Ev(e))}

\* pending events kept by some storage
PendKept == {e \in Range(pend) \union
                   (IF snap.on THEN Range(snap.evs) ELSE {}) :
               e \in latest \/ InTs(e)}

\* stored events which nothing keeps once pending changes are written
Superseded ==
    LET after == Written(disk, [on |-> TRUE, last |-> last,
                                latest |-> latest, evs |-> pend])
        keep == after.latest \union
                UNION {after.ts[k] : k \in DOMAIN after.ts}
    IN DiskKept \ keep

SrvAnswer(srv, persisted) ==
    {e \in DiskKept \union (IF persisted THEN {} ELSE PendKept) :
        Ev(e).srv = srv}

LastId(srv) == IF srv \in DOMAIN last
               THEN <<Ev(last[srv]).sess, Ev(last[srv]).inst>>
               ELSE <<0, 0>>
=============================================================================
