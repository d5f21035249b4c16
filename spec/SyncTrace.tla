----------------------------- MODULE SyncTrace -----------------------------
(* Validation of histories of synchronisation with a remote server.        *)
(*                                                                         *)
(* Traces[tid] = [token : STRING, lines : Seq].  Events are given by their *)
(* index in the history of the remote server, 0 or less for all others.    *)
EXTENDS Sync, Integers, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
    n,          \* number of the current connection
    causes,     \* connections which have a reason to end
    expected,   \* reports which the remote server has to get
    reported    \* number of the connection of the last report

tvars == <<n, causes, expected, reported>>
vars == <<tid, l, yvars, tvars>>

Lines == Traces[tid].lines
Line == Lines[l]

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ YInit
    /\ n = 0 /\ causes = {} /\ expected = <<>> /\ reported = 0

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

------------------------------------------------------------------------------

TPersist ==
    /\ Line.op = "persist"
    /\ DoPersist(Line.sess)
    /\ UNCHANGED tvars

TConnect ==
    /\ Line.op = "connect"
    /\ Report({<<state.on, "connecting while connected">>})
    /\ DoOpen
    /\ n' = Line.n
    /\ expected' = <<>>
    /\ UNCHANGED <<causes, reported>>

TRemoteConn ==
    /\ Line.op = "rconn"
    /\ Report({<<Line.n = n /\ Line.name # "event/local", "client name">>,
               <<Line.token # Traces[tid].token, "client token">>,
               <<~Line.persisted, "requested form">>,
               <<~Line.srv, "requested server id">>})
    /\ UNCHANGED <<yvars, tvars>>

TOpened ==
    /\ Line.op = "opened"
    /\ UNCHANGED <<yvars, tvars>>

TConnFail ==
    /\ Line.op = "connfail"
    /\ Report({<<Line.n \notin causes, "connecting fails">>})
    /\ DoClose
    /\ UNCHANGED tvars

TEnded ==
    /\ Line.op = "ended"
    /\ Report({<<Line.n \notin causes, "connection ends without a reason">>})
    /\ DoClose
    /\ UNCHANGED tvars

TCause ==
    /\ Line.op = "cause"
    /\ causes' = causes \union {Line.n}
    /\ UNCHANGED <<yvars, n, expected, reported>>

TStore ==
    /\ Line.op = "lreg"
    /\ LET s == Line.evs
           b == s[Len(s)]
           good == {i \in DOMAIN s : s[i] > 0}
       IN IF s = <<>> THEN UNCHANGED yvars
          ELSE /\ Report(
                    {<<\E i \in DOMAIN s : s[i] <= 0,
                       "unknown event or changed content">>,
                     <<\E i \in good : s[i] <= stored, "repeated event">>,
                     <<\E i \in DOMAIN s : \E j \in DOMAIN s :
                         i < j /\ s[i] > 0 /\ s[j] > 0 /\ s[i] >= s[j],
                       "order of events">>,
                     <<good # {} /\ \E x \in (stored + 1)..s[CHOOSE i \in good :
                            \A j \in good : s[i] >= s[j]] :
                         \A i \in good : s[i] # x,
                       "missing event">>,
                     <<b > 0 /\ ~SessionEnd(b), "part of a session">>})
               /\ IF good = {} THEN UNCHANGED yvars
                  ELSE DoStore(s[CHOOSE i \in good :
                                   \A j \in good : s[i] >= s[j]])
    /\ UNCHANGED tvars

TFlush ==
    /\ Line.op = "lflush"
    /\ DoFlush
    /\ UNCHANGED tvars

TCrash ==
    /\ Line.op = "lcrash"
    /\ DoCrash
    /\ expected' = <<>>
    /\ UNCHANGED <<n, causes, reported>>

TQuery ==
    /\ Line.op = "rquery"
    /\ Report({<<~Line.ok, "query parameters">>})
    /\ UNCHANGED <<yvars, tvars>>

\* the answer may be lost if the connection ends
TQueryEnd ==
    /\ Line.op = "rqueryend"
    /\ IF Line.n = n /\ state.on
       THEN DoResult(Len(Line.evs),
                     IF Line.evs = <<>> THEN 0 ELSE Line.evs[Len(Line.evs)],
                     Line.more)
       ELSE UNCHANGED yvars
    /\ UNCHANGED tvars

TSynced ==
    /\ Line.op = "synced"
    /\ Report(
         {<<Line.state = "SYNCED" /\ state.more, "SYNCED before the end">>,
          <<Line.state = "SYNCED" /\ stored < state.upto,
            "SYNCED before events are stored">>,
          <<Line.state = "SYNCED" /\ Line.count # state.got,
            "number of events">>,
          <<Line.state # "SYNCED" /\ Line.count # -1, "number of events">>,
          <<~CanReport(Line.state, Line.count), "order of reports">>,
          <<Line.n # n, "report of an earlier connection">>})
    /\ DoReport(Line.state)
    /\ expected' = Append(expected, <<Line.state, Line.count>>)
    /\ UNCHANGED <<n, causes, reported>>

TStatus ==
    /\ Line.op = "lstatus"
    /\ expected' = IF Line.s = "OPERATIONAL" /\ state.phase # "none"
                      /\ Line.n = n
                   THEN Append(expected, <<state.phase, -1>>)
                   ELSE expected
    /\ UNCHANGED <<yvars, n, causes, reported>>

TRemoteSynced ==
    /\ Line.op = "rsynced"
    /\ IF Line.n # n \/ ~state.on THEN UNCHANGED expected
       ELSE /\ Report({<<~Line.ok, "type of synced event">>,
                       <<expected = <<>> \/
                         (expected # <<>> /\
                          expected[1] # <<Line.state, Line.count>>),
                         "remote report">>})
            /\ expected' = IF expected = <<>> THEN expected
                           ELSE Tail(expected)
    /\ UNCHANGED <<yvars, n, causes, reported>>

TQuiet ==
    /\ Line.op = "quiet"
    /\ Report({<<~Line.open, "connection isn't established">>,
               <<Line.open /\ stored # Len(rem), "copy isn't complete">>,
               <<Line.open /\ state.phase # "SYNCED", "SYNCED is missing">>,
               <<Line.open /\ Line.state # state.phase, "synced state">>,
               <<Line.open /\ expected # <<>>, "remote report is missing">>})
    /\ UNCHANGED <<yvars, tvars>>

TStuck ==
    /\ Line.op = "stuck"
    /\ Report({<<TRUE, "doesn't finish">>})
    /\ UNCHANGED <<yvars, tvars>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TPersist \/ TConnect \/ TRemoteConn \/ TOpened \/ TConnFail
          \/ TEnded \/ TCause \/ TStore \/ TFlush \/ TCrash \/ TQuery
          \/ TQueryEnd \/ TSynced \/ TStatus \/ TRemoteSynced \/ TQuiet
          \/ TStuck
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<yvars, tvars, tid>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
