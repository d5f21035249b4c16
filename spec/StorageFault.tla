---------------------------- MODULE StorageFault ----------------------------
(* Validation of concurrent and faulty histories of the LMDB backend:      *)
(* registrations, flush calls, notifications and queries overlap, writes   *)
(* fail and the process is killed.                                         *)
(*                                                                         *)
(* hist[k] is the state after the first k - 1 registered batches (in the   *)
(* order in which registrations started); a database reopened after a      *)
(* crash has to be in one of these states, which is not older than the     *)
(* newest state known to be durable.                                       *)
EXTENDS Storage, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Stride == 1000

TraceEv(e) == Traces[e \div Stride].events[e % Stride]

VARIABLES
    tid, l,
    hist,      \* Seq of [last, latest, pend], one more than batches
    batches,   \* Seq of batches in order of registration
    ended,     \* set of indices of batches whose registration returned
    nreg,      \* number of delivered registered notifications
    nflush,    \* number of delivered flushed notifications
    durable,   \* number of batches known to be durable
    fstart,    \* flush call -> number of batches which had to be flushed
    qstart,    \* query -> <<hist length, durable>> at the time of call
    mode       \* "open", "closing", "failed"

fvars == <<svars, tid, l, hist, batches, ended, nreg, nflush, durable, fstart,
           qstart, mode>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ conf = Traces[tid].conf
    /\ open = TRUE
    /\ last = EmptyFn /\ latest = {} /\ pend = <<>>
    /\ snap = NoSnap /\ disk = EmptyDisk
    /\ hist = <<[last |-> EmptyFn, latest |-> {}, pend |-> <<>>]>>
    /\ batches = <<>> /\ ended = {} /\ nreg = 0 /\ nflush = 0 /\ durable = 0
    /\ fstart = EmptyFn /\ qstart = EmptyFn /\ mode = "open"

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

MaxOf(a, b) == IF a > b THEN a ELSE b

MinOf2(a, b) == IF a < b THEN a ELSE b

NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

\* greatest n such that batches 1..n are ended
EndedPrefix == CHOOSE n \in 0..Len(batches) :
                  /\ 1..n \subseteq ended
                  /\ n = Len(batches) \/ (n + 1) \notin ended

------------------------------------------------------------------------------
\* State after the first k batches

Limited(part) == part.max >= 0 \/ part.dur >= 0

Content(k, part) == {e \in Range(hist[k + 1].pend) : Keeps(part, e)}

LastOf(k, srv) ==
    LET x == hist[k + 1].last
    IN IF srv \in DOMAIN x THEN <<Ev(x[srv]).sess, Ev(x[srv]).inst>>
       ELSE <<0, 0>>

\* c - answers of the reopened database
ConsistentTs(k, c) ==
    \A i \in DOMAIN conf.parts :
        LET full == Content(k, conf.parts[i])
            got == Range(c.ts[i])
        IN /\ got \subseteq full
           /\ Limited(conf.parts[i]) \/ got = full
           /\ NoDup(c.ts[i])

ConsistentSrv(c) ==
    LET all == Range(c.latest) \union UNION {Range(c.ts[i]) :
                                               i \in DOMAIN c.ts}
    IN \A s \in DOMAIN c.srv :
         /\ Range(c.srv[s]) = {e \in all : Ev(e).srv = s - 1}
         /\ NoDup(c.srv[s])

Known(c) == /\ 0 \notin Range(c.latest)
            /\ \A i \in DOMAIN c.ts : 0 \notin Range(c.ts[i])
            /\ \A i \in DOMAIN c.srv : 0 \notin Range(c.srv[i])

Consistent(k, c) ==
    /\ \A s \in DOMAIN c.last : c.last[s] = LastOf(k, s - 1)
    /\ Range(c.latest) = hist[k + 1].latest
    /\ NoDup(c.latest)
    /\ ConsistentTs(k, c)

CrashClauses(c) ==
    IF ~c.ok THEN {<<TRUE, "database can't be reopened">>}
    ELSE IF ~Known(c) THEN {<<TRUE, "unknown event after reopening">>}
    ELSE LET ks == {k \in 0..Len(batches) : Consistent(k, c)}
         IN {<<ks = {}, "not a state of a prefix of the history">>,
             <<ks # {} /\ \A k \in ks : k < durable,
               "flushed events are lost">>,
             <<~ConsistentSrv(c), "server query differs from storages">>}

------------------------------------------------------------------------------

TRegStart ==
    /\ Line.op = "regstart"
    /\ batches' = Append(batches, Line.batch)
    /\ hist' = Append(hist, RegisterFold(hist[Len(hist)], Line.batch))
    /\ UNCHANGED <<ended, nreg, nflush, durable, fstart, qstart, mode>>

TRegEnd ==
    /\ Line.op = "regend"
    /\ Report(IF Line.exc = ""
              THEN {<<Line.res # batches[Line.b], "register result">>,
                    <<nreg < Line.b, "registered without notification">>}
              ELSE {<<mode = "open", "unexpected error">>})
    /\ ended' = ended \union {Line.b}
    /\ UNCHANGED <<hist, batches, nreg, nflush, durable, fstart, qstart, mode>>

\* registration refused since the backend is closed
TRegRefused ==
    /\ Line.op = "regrefused"
    /\ Report({<<mode = "open", "unexpected error">>,
               <<Line.exc # "BackendClosedError", "error of closed backend">>})
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart, mode>>

TRegCb ==
    /\ Line.op = "regcb"
    /\ Report({<<nreg >= Len(batches) \/
                 (nreg < Len(batches) /\ batches[nreg + 1] # Line.batch),
                 "registered notification">>})
    /\ nreg' = nreg + 1
    /\ UNCHANGED <<hist, batches, ended, nflush, durable, fstart, qstart, mode>>

TFlushCb ==
    /\ Line.op = "flushcb"
    /\ Report({<<nflush >= Len(batches) \/
                 (nflush < Len(batches) /\
                  batches[nflush + 1] # Line.batch),
                 "flushed notification">>})
    /\ nflush' = nflush + 1
    /\ durable' = MaxOf(durable, MinOf2(nflush + 1, Len(batches)))
    /\ UNCHANGED <<hist, batches, ended, nreg, fstart, qstart, mode>>

TFlushStart ==
    /\ Line.op = "flushstart"
    /\ fstart' = Put(fstart, Line.f, EndedPrefix)
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, qstart, mode>>

TFlushEnd ==
    /\ Line.op = "flushend"
    /\ LET ok == Line.exc = ""
       IN /\ Report({<<ok /\ nflush < fstart[Line.f],
                       "flush returned before notifications">>,
                     <<~ok /\ mode = "open", "unexpected error">>,
                     <<~ok /\ Line.exc # "BackendClosedError",
                       "error of closed backend">>})
          /\ durable' = IF ok THEN MaxOf(durable, fstart[Line.f])
                        ELSE durable
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, fstart, qstart, mode>>

\* call on a closed backend
TClosedCall ==
    /\ Line.op = "closedcall"
    /\ Report({<<Line.exc # "BackendClosedError",
                 "error of closed backend">>})
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart, mode>>

TCrash ==
    /\ Line.op = "crash"
    /\ Report(CrashClauses(Line))
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart, mode>>

TClosing ==       \* orderly close is requested
    /\ Line.op = "closing"
    /\ mode' = IF mode = "open" THEN "closing" ELSE mode
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart>>

TFault ==         \* a write is made to fail
    /\ Line.op = "fault"
    /\ mode' = "failed"
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart>>

\* closed completely; orderly close flushes everything that was registered
\* before closing was requested
TClosed ==
    /\ Line.op = "closed"
    /\ Report({<<mode = "open", "closed by itself">>,
               <<mode = "closing" /\ nflush # Len(batches),
                 "close without flushed notification">>,
               <<Line.exc # "", "unexpected error">>})
    /\ durable' = IF mode = "closing" THEN Len(batches) ELSE durable
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, fstart, qstart, mode>>

TReopened ==      \* after an orderly close
    /\ Line.op = "reopened"
    /\ Report({<<Line.exc # "", "unexpected error">>})
    /\ mode' = "open"
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart>>

THang ==
    /\ Line.op = "hang"
    /\ Report({<<TRUE, "call does not terminate">>})
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart, mode>>

TQueryStart ==
    /\ Line.op = "qstart"
    /\ qstart' = Put(qstart, Line.q, <<Len(batches), durable>>)
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart, mode>>

TsFilterF(q, e) ==
    /\ q.has_types => SubMatches(q.types, Ev(e).type)
    /\ q.has_tf => Ev(e).ts >= q.tf
    /\ q.has_tt => Ev(e).ts <= q.tt
    /\ q.has_stf => Ev(e).has_sts /\ Ev(e).sts >= q.stf
    /\ q.has_stt => Ev(e).has_sts /\ Ev(e).sts <= q.stt

TsBefore(order, asc, a, b) ==
    LET x == IF asc THEN a ELSE b
        y == IF asc THEN b ELSE a
    IN \/ TsOf(order, x) < TsOf(order, y)
       \/ /\ TsOf(order, x) = TsOf(order, y)
          /\ Ev(x).srv = Ev(y).srv
          /\ IdLess(x, y)

OrderedOk(ans, before(_, _), max, res, more) ==
    LET got == Range(res)
    IN /\ NoDup(res)
       /\ got \subseteq ans
       /\ \A i, j \in DOMAIN res : i < j => ~before(res[j], res[i])
       /\ more = (Cardinality(ans) > Len(res))
       /\ Len(res) = IF max >= 0 /\ max < Cardinality(ans) THEN max
                     ELSE Cardinality(ans)
       /\ \A x \in ans \ got : \A i \in DOMAIN res : ~before(x, res[i])

\* a concurrent timeseries query sees some state between call and return
TsOk(q) ==
    LET i == Selected(q.order_by, q.has_types, q.types)
        ans(k) == IF i = 0 THEN {}
                  ELSE {e \in Content(k, conf.parts[i]) : TsFilterF(q, e)}
    IN \E k \in qstart[q.q][1]..Len(batches) :
         OrderedOk(ans(k), LAMBDA a, b : TsBefore(q.order_by, q.asc, a, b),
                   q.max, q.res, q.more)

\* a concurrent persisted server query sees some durable state
PersistedOk(q) ==
    LET ans(k) == {e \in hist[k + 1].latest \union
                      UNION {Content(k, conf.parts[i]) :
                               i \in DOMAIN conf.parts} : Ev(e).srv = q.srv}
    IN \E k \in qstart[q.q][2]..Len(batches) :
         OrderedOk(ans(k), IdLess, q.max, q.res, q.more)

TQueryEnd ==
    /\ Line.op = "qend"
    /\ Report(IF Line.exc # ""
              THEN {<<mode = "open", "unexpected error">>}
              ELSE {<<0 \in Range(Line.res), "unknown event">>,
                    <<0 \notin Range(Line.res) /\
                      ~(IF Line.kind = "ts" THEN TsOk(Line)
                        ELSE PersistedOk(Line)),
                      "answer of a concurrent query">>})
    /\ UNCHANGED <<hist, batches, ended, nreg, nflush, durable, fstart,
                   qstart, mode>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TRegStart \/ TRegEnd \/ TRegRefused \/ TRegCb \/ TFlushCb
          \/ TFlushStart \/ TFlushEnd \/ TClosedCall \/ TCrash \/ TClosing
          \/ TFault \/ TClosed \/ TReopened \/ THang \/ TQueryStart
          \/ TQueryEnd
       /\ l' = l + 1
       /\ UNCHANGED <<svars, tid>>
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<svars, tid, hist, batches, ended, nreg, nflush, durable,
                      fstart, qstart, mode>>

TraceSpec == TraceInit /\ [][TraceNext]_fvars
=============================================================================
