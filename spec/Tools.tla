------------------------------- MODULE Tools -------------------------------
(* Tools which work on closed (or otherwise used) databases: copy,          *)
(* conversion of earlier versions and dump of records.                      *)
EXTENDS Storage, SequencesExt

VARIABLES
    other,     \* content of another database (a copy or a conversion)
    ident      \* identifier of the database, "" if there is none

tvars == <<other, ident>>

\* server without events has the greatest possible id unknown
MaxId(evs) == CHOOSE e \in evs : \A x \in evs : ~IdLess(e, x)

StoredEvents(d) == d.latest \union UNION {d.ts[k] : k \in DOMAIN d.ts}

------------------------------------------------------------------------------
\* Copy

Pruned(d, skip_latest, skip_ts) ==
    [last   |-> d.last,
     latest |-> IF skip_latest THEN {} ELSE d.latest,
     ts     |-> IF skip_ts THEN EmptyFn ELSE d.ts]

\* the original isn't changed, it can be in use
Copy(skip_latest, skip_ts) ==
    /\ other' = Pruned(disk, skip_latest, skip_ts)
    /\ UNCHANGED svars

\* continue with the other database
Switch ==
    /\ ~open
    /\ disk' = other
    /\ other' = disk
    /\ UNCHANGED <<conf, open, last, latest, pend, snap>>

------------------------------------------------------------------------------
\* Conversion

\* version 0.6 has no last event id, it's the greatest one of stored events
Converted(version, d) ==
    IF version = "v07" THEN d
    ELSE [d EXCEPT !.last =
            LET evs == StoredEvents(d)
            IN [s \in {Ev(e).srv : e \in evs} |->
                    MaxId({e \in evs : Ev(e).srv = s})]]

Convert(version) ==
    /\ ~open
    /\ other' = Converted(version, disk)
    /\ UNCHANGED svars

------------------------------------------------------------------------------
\* Opening creates partitions

ToolOpen(c, id) ==
    /\ ~open
    /\ id # "" /\ ident # "" => id = ident
    /\ ident' = IF ident = "" THEN id ELSE ident
    /\ open' = TRUE
    /\ conf' = c
    /\ last' = disk.last
    /\ latest' = Loaded(c, disk)
    /\ disk' = [disk EXCEPT !.ts =
                  [k \in DOMAIN disk.ts \union
                         {PartKey(c.parts[i]) : i \in DOMAIN c.parts} |->
                     IF k \in DOMAIN disk.ts THEN disk.ts[k] ELSE {}]]
    /\ UNCHANGED <<pend, snap, other>>

------------------------------------------------------------------------------
\* Dumps, -1 - without filter

InFilter(x, filter) == filter < 0 \/ x = filter

Asc(set) == SetToSortSeq(set, <)

DumpSettings == <<<<"VERSION", "0.9">>>> \o
                (IF ident = "" THEN <<>> ELSE <<<<"IDENTIFIER", ident>>>>)

Ident(e) == <<Ev(e).srv, Ev(e).sess, Ev(e).inst>>

DumpLastId(srv) ==
    LET s == Asc({x \in DOMAIN disk.last : InFilter(x, srv)})
    IN [i \in DOMAIN s |-> Ident(disk.last[s[i]])]

DumpLastTs(srv) ==
    LET s == Asc({x \in DOMAIN disk.last : InFilter(x, srv)})
    IN [i \in DOMAIN s |-> Ev(disk.last[s[i]]).ts]

DumpLatest(has_types, types) ==
    {e \in disk.latest : has_types => SubMatches(types, Ev(e).type)}

\* pids - function from partition identifiers to keys
DumpRefs(pids, srv) ==
    {[id |-> Ident(e), kind |-> "latest", type |-> Ev(e).type,
      pid |-> 0, ts |-> 0] : e \in {x \in disk.latest :
                                      InFilter(Ev(x).srv, srv)}} \union
    UNION {{[id |-> Ident(e), kind |-> "timeseries", type |-> <<>>,
             pid |-> p, ts |-> TsOf(pids[p][1], e)] :
                e \in {x \in Stored(pids[p]) : InFilter(Ev(x).srv, srv)}} :
           p \in DOMAIN pids}

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

DumpTs(pids, pid, srv, has_types, types) ==
    LET ps == Asc({p \in DOMAIN pids : InFilter(p, pid)})
        part(p) == SetToSortSeq(
            {e \in Stored(pids[p]) :
                /\ InFilter(Ev(e).srv, srv)
                /\ has_types => SubMatches(types, Ev(e).type)},
            LAMBDA a, b : EntryLess(pids[p][1], a, b))
    IN Flat([i \in DOMAIN ps |-> part(ps[i])])
=============================================================================
