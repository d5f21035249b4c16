----------------------------- MODULE MCStorage -----------------------------
(* Exhaustive check of the storage design with a small pool of events:     *)
(* every history of registrations, flushes (begin and commit are separate  *)
(* steps), cleanups, orderly closes, crashes and openings.                 *)
EXTENDS Storage, TLC

CONSTANTS MaxBatches, MaxCrashes, MaxNow

Pool == 1..6

MCEv(e) ==
    LET r(srv, sess, inst, ts, sts, type) ==
            [srv |-> srv, sess |-> sess, inst |-> inst, ts |-> ts,
             has_sts |-> sts >= 0, sts |-> sts, type |-> type,
             payload |-> [t |-> "none"]]
    IN CASE e = 1 -> r(0, 1, 1, 1, 2, <<"a">>)
         [] e = 2 -> r(0, 1, 2, 1, 1, <<"a">>)
         [] e = 3 -> r(0, 2, 1, 0, -1, <<"a">>)   \* timestamp goes back
         [] e = 4 -> r(0, 2, 1, 2, -1, <<"b">>)
         [] e = 5 -> r(1, 1, 1, 0, 2, <<"a">>)
         [] e = 6 -> r(1, 1, 2, 2, 0, <<"b">>)

Batches == {<<e>> : e \in Pool} \union {<<1, 5>>, <<2, 4>>, <<4, 2>>, <<6, 5>>}

Part(order, subs, min, max, dur) ==
    [order |-> order, subs |-> subs, min |-> min, max |-> max, dur |-> dur]

Confs == {
    [latest |-> <<<<"*">>>>, conds |-> <<>>,
     parts |-> <<Part("T", <<<<"*">>>>, -1, -1, -1),
                 Part("S", <<<<"a">>>>, -1, 1, -1)>>],
    [latest |-> <<<<"a">>>>, conds |-> <<>>,
     parts |-> <<Part("T", <<<<"b">>>>, 1, -1, 1)>>],
    [latest |-> <<>>, parts |-> <<>>,
     conds |-> <<[subs |-> <<<<"b">>>>,
                  cond |-> [type |-> "any", conditions |-> <<>>]]>>]}

VARIABLES
    hist,      \* states after each registered batch since the last opening
    reported,  \* number of batches of hist reported as durable
    snapped,   \* number of batches of hist included in the flush in progress
    crashes, nbatches

mcvars == <<svars, hist, reported, snapped, crashes, nbatches>>

Now == [last |-> last, latest |-> latest, pend |-> pend]

Empty == [last |-> EmptyFn, latest |-> {}, evs |-> <<>>]

\* what would be durable if everything until now was written
State(d, l, lt, evs) ==
    Written(d, [on |-> TRUE, last |-> l, latest |-> lt, evs |-> evs])

MCInit ==
    /\ conf \in Confs
    /\ open = TRUE
    /\ last = EmptyFn /\ latest = {} /\ pend = <<>>
    /\ snap = NoSnap
    /\ disk = EmptyDisk
    /\ hist = <<EmptyDisk>>
    /\ reported = 0 /\ snapped = 0 /\ crashes = 0 /\ nbatches = 0

\* durable state if everything registered until now was written at once
Virtual == LET d == IF snap.on THEN Written(disk, snap) ELSE disk
           IN State(d, last, latest, pend)

MCRegister ==
    /\ nbatches < MaxBatches
    /\ nbatches' = nbatches + 1
    /\ \E b \in Batches : Register(b)
    /\ hist' = Append(hist, Virtual')
    /\ UNCHANGED <<reported, snapped, crashes>>

MCFlushBegin ==
    /\ FlushBegin
    /\ snapped' = Len(hist) - 1
    /\ UNCHANGED <<hist, reported, crashes, nbatches>>

MCFlushCommit ==
    /\ FlushCommit
    /\ reported' = snapped
    /\ UNCHANGED <<hist, snapped, crashes, nbatches>>

\* cleanup changes all later states the same way
MCCleanup ==
    /\ ~snap.on
    /\ \E i \in DOMAIN conf.parts : conf.parts[i].max >= 0 \/
                                    conf.parts[i].dur >= 0
    /\ reported = Len(hist) - 1
    /\ Cleanup(MaxNow)
    /\ hist' = <<disk'>>
    /\ reported' = 0
    /\ snapped' = 0
    /\ UNCHANGED <<crashes, nbatches>>

MCCrash ==
    /\ crashes < MaxCrashes
    /\ crashes' = crashes + 1
    /\ Crash
    /\ UNCHANGED <<hist, reported, snapped, nbatches>>

MCClose ==
    /\ Close
    /\ reported' = Len(hist) - 1
    /\ UNCHANGED <<hist, snapped, crashes, nbatches>>

MCOpen ==
    /\ \E c \in Confs : Open(c)
    /\ hist' = <<disk>>
    /\ reported' = 0
    /\ snapped' = 0
    /\ UNCHANGED <<crashes, nbatches>>

MCNext == MCRegister \/ MCFlushBegin \/ MCFlushCommit \/ MCCleanup \/ MCCrash
          \/ MCClose \/ MCOpen

MCSpec == MCInit /\ [][MCNext]_mcvars

------------------------------------------------------------------------------

Same(a, b) ==
    /\ a.last = b.last
    /\ a.latest = b.latest
    /\ \A k \in DOMAIN a.ts \union DOMAIN b.ts :
         (IF k \in DOMAIN a.ts THEN a.ts[k] ELSE {}) =
         (IF k \in DOMAIN b.ts THEN b.ts[k] ELSE {})

\* S01: the database is in a state of a prefix which includes everything
\* reported as durable
DurablePrefix ==
    \E k \in 1..Len(hist) : k - 1 >= reported /\ Same(disk, hist[k])

\* S02: everything is unchanged by an orderly close and opening
CloseTransparent ==
    open => LET d == Virtual
            IN /\ d.last = last
               /\ Loaded(conf, d) = latest
               /\ \A i \in DOMAIN conf.parts :
                    LET key == PartKey(conf.parts[i])
                    IN {e \in d.ts[key] : CondMatches(conf.conds, Ev(e))} =
                       TsContent(i)

\* S03
LastIsGreatest ==
    open => \A e \in latest \union Range(pend) :
              /\ Ev(e).srv \in DOMAIN last
              /\ ~IdLess(last[Ev(e).srv], e)
              /\ Ev(e).ts <= Ev(last[Ev(e).srv]).ts

\* S04
OneLatest == \A a, b \in latest : Ev(a).type = Ev(b).type => a = b

LatestIsNewest ==
    open => \A e \in Range(pend) :
              SubMatches(conf.latest, Ev(e).type) =>
                \E x \in latest :
                   /\ Ev(x).type = Ev(e).type
                   /\ \/ x = e
                      \/ Ev(x).srv = Ev(e).srv /\ IdLess(e, x)
                      \/ Ev(x).srv # Ev(e).srv
                      \/ Ev(x).ts > Ev(e).ts

\* S05: pending and stored events are disjoint and keep the limits
TsValid ==
    \A i \in DOMAIN conf.parts :
        open => \A e \in TsContent(i) : Keeps(conf.parts[i], e)

\* S07
ServerComplete ==
    open => \A e \in latest \union UNION {TsContent(i) : i \in DOMAIN conf.parts} :
              e \in SrvAnswer(Ev(e).srv, FALSE) \union Superseded \/
              ~CondMatches(conf.conds, Ev(e))

\* S08: the newest entries stay
CleanupKeepsNewest ==
    [][MCCleanup =>
         \A i \in DOMAIN conf.parts :
           LET p == conf.parts[i]
               old == disk.ts[PartKey(p)]
               new == disk'.ts[PartKey(p)]
           IN PartKey(p) \in DOMAIN disk.ts =>
                /\ new \subseteq old
                /\ \A x \in new, y \in old \ new : EntryLess(p.order, y, x)
                /\ p.max >= 0 => Cardinality(new) <=
                                   (IF p.min > p.max THEN p.min ELSE p.max)
                /\ p.min >= 0 /\ Cardinality(old) >= p.min =>
                     Cardinality(new) >= p.min]_mcvars

\* last ids never decrease while open
LastMonotone ==
    [][(open /\ open' => \A s \in DOMAIN last :
         s \in DOMAIN last' /\ ~IdLess(last'[s], last[s]))]_mcvars

\* queries don't see the difference between pending and stored
FlushTransparent ==
    [][MCFlushBegin \/ MCFlushCommit =>
         /\ latest' = latest
         /\ \A i \in DOMAIN conf.parts : TsContent(i)' = TsContent(i)]_mcvars
=============================================================================
