---------------------------- MODULE StorageTrace ----------------------------
(* Validation of sequential histories of the LMDB backend.                 *)
(*                                                                         *)
(* Traces[tid] = [events : Seq, lines : Seq]; event identifiers are        *)
(* tid * Stride + index, 0 is an event that was never registered.          *)
EXTENDS Storage, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Stride == 1000

TraceEv(e) == Traces[e \div Stride].events[e % Stride]

VARIABLES tid, l

vars == <<svars, tid, l>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ conf = [latest |-> <<>>, conds |-> <<>>, parts |-> <<>>]
    /\ open = FALSE
    /\ last = EmptyFn
    /\ latest = {}
    /\ pend = <<>>
    /\ snap = NoSnap
    /\ disk = EmptyDisk

\* print all failing clauses, clauses is a set of <<failed, name>>
Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

MinOf(a, b) == IF a < b THEN a ELSE b

NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

------------------------------------------------------------------------------

\* clauses of a result which is (a part of) an ordered answer
OrderedClauses(ans, before(_, _), max, limit, res, more) ==
    LET got == Range(res)
        known == 0 \notin got
    IN {<<~known, "unknown event">>,
        <<~NoDup(res), "repeated event">>,
        <<~(got \subseteq (ans \union {0})), "event is not in the answer">>,
        <<known /\ \E i, j \in DOMAIN res : i < j /\ before(res[j], res[i]),
          "order">>,
        <<more # (Cardinality(ans) > Len(res)), "more follows">>,
        <<max >= 0 /\ Len(res) > max, "too many events">>,
        <<Len(res) < MinOf(Cardinality(ans),
                           IF max >= 0 THEN MinOf(max, limit) ELSE limit),
          "missing events">>,
        <<known /\ \E x \in ans \ got : \E i \in DOMAIN res : before(x, res[i]),
          "skipped event">>}

Failing(clauses) == {c \in clauses : c[1]}

TsBefore(order, asc, a, b) ==
    LET x == IF asc THEN a ELSE b
        y == IF asc THEN b ELSE a
    IN \/ TsOf(order, x) < TsOf(order, y)
       \/ /\ TsOf(order, x) = TsOf(order, y)
          /\ Ev(x).srv = Ev(y).srv
          /\ IdLess(x, y)

TsClauses(q) ==
    OrderedClauses(IF q.none THEN {} ELSE TsAnswer(q),
                   LAMBDA a, b : TsBefore(q.order_by, q.asc, a, b),
                   q.max, q.limit, q.res, q.more)

SrvClauses(q) ==
    LET after(e) == ~q.has_lid \/ Ev(e).sess > q.lid[1] \/
                    (Ev(e).sess = q.lid[1] /\ Ev(e).inst > q.lid[2])
        most == {e \in SrvAnswer(q.srv, q.persisted) : after(e)}
        least == most \ Superseded
        c(ans) == OrderedClauses(ans, IdLess, q.max, q.limit, q.res, q.more)
    IN IF q.persisted \/ Failing(c(most)) = {} \/ Failing(c(least)) # {}
       THEN c(most) ELSE {}

LatestClauses(q) ==
    LET ans == LatestAnswer(q.has_types, q.types)
        got == Range(q.res)
    IN {<<0 \in got, "unknown event">>,
        <<~NoDup(q.res), "repeated event">>,
        <<~(got \subseteq (ans \union {0})), "event is not in the answer">>,
        <<~(ans \subseteq got), "missing events">>,
        <<q.more, "more follows">>}

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

\* q.pages is a sequence of [res, more], q.res is the unpaged result
PagesClauses(q) ==
    {<<Concat([i \in DOMAIN q.pages |-> q.pages[i].res]) # q.res,
       "pages are not a partition of the answer">>,
     <<\E i \in DOMAIN q.pages : Len(q.pages[i].res) > q.max,
       "page is too long">>,
     <<\E i \in DOMAIN q.pages :
         q.pages[i].more # (i < Len(q.pages) /\
            \E j \in DOMAIN q.pages : j > i /\ q.pages[j].res # <<>>),
       "more follows of a page">>}

------------------------------------------------------------------------------

Ok == Line.exc = ""

Exc == {<<~Ok, "unexpected error">>}

TOpen ==
    /\ Line.op = "open"
    /\ Report(Exc)
    /\ Open(Line.conf)

TReg ==
    /\ Line.op = "reg"
    /\ Report(Exc)
    /\ Register(Line.batch)

\* memory backend: both notifications are delivered before registration ends
TRegAll ==
    /\ Line.op = "regall"
    /\ Report(IF Ok THEN {<<Line.res # Line.batch, "register result">>,
                          <<Line.registered # <<Line.batch>>,
                            "registered notification">>,
                          <<Line.flushed # <<Line.batch>>,
                            "flushed notification">>}
              ELSE Exc)
    /\ RegisterAll(Line.batch)

TFlush ==
    /\ Line.op = "flush"
    /\ Report(Exc)
    /\ Flush

TCleanup ==
    /\ Line.op = "cleanup"
    /\ Report(Exc)
    /\ Cleanup(Line.now)

\* an orderly close; the state is kept while closed
TClose ==
    /\ Line.op = "close"
    /\ Report(Exc)
    /\ Close

\* opening which has to be refused
TRefused ==
    /\ Line.op = "refused"
    /\ Report({<<Ok, "open is not refused">>})
    /\ UNCHANGED svars

TLatest ==
    /\ Line.op = "latest"
    /\ Report(IF Ok THEN LatestClauses(Line) ELSE Exc)
    /\ UNCHANGED svars

TTs ==
    /\ Line.op = "ts"
    /\ Report(IF Ok THEN TsClauses(Line) ELSE Exc)
    /\ UNCHANGED svars

TSrv ==
    /\ Line.op = "srv"
    /\ Report(IF Ok THEN SrvClauses(Line) ELSE Exc)
    /\ UNCHANGED svars

TPages ==
    /\ Line.op = "pages"
    /\ Report(IF Ok THEN PagesClauses(Line) ELSE Exc)
    /\ UNCHANGED svars

(* events of earlier answers stay as they were given *)
TAgain ==
    /\ Line.op = "again"
    /\ Report({<<Line.res # Line.was, "given answer has changed">>})
    /\ UNCHANGED svars

TLastId ==
    /\ Line.op = "lastid"
    /\ Report(IF Ok THEN {<<LastId(Line.srv) # Line.id, "last event id">>}
              ELSE Exc)
    /\ UNCHANGED svars

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TOpen \/ TReg \/ TRegAll \/ TFlush \/ TCleanup \/ TClose \/ TRefused
          \/ TLatest \/ TTs \/ TSrv \/ TPages \/ TLastId \/ TAgain
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<svars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
