----------------------------- MODULE ToolsTrace -----------------------------
(* Validation of histories with database tools.                            *)
EXTENDS StorageTrace, Tools

VARIABLE pids    \* partition identifiers of the dumped database

toolvars == <<vars, tvars, pids>>

ToolsInit ==
    /\ TraceInit
    /\ other = EmptyDisk
    /\ ident = ""
    /\ pids = EmptyFn

TTopen ==
    /\ Line.op = "topen"
    /\ Report(Exc)
    /\ ToolOpen(Line.conf, Line.ident)
    /\ UNCHANGED pids

TCopy ==
    /\ Line.op = "copy"
    /\ Report(Exc \union {<<~Line.same, "original is changed">>})
    /\ Copy(Line.skip_latest, Line.skip_ts)
    /\ UNCHANGED <<ident, pids>>

TSwitch ==
    /\ Line.op = "switch"
    /\ Switch
    /\ UNCHANGED <<ident, pids>>

TToolRefused ==
    /\ Line.op = "tool_refused"
    /\ Report({<<Ok, "tool isn't refused">>,
               <<~Line.same, "refused tool changes a database">>})
    /\ UNCHANGED <<svars, tvars, pids>>

\* everything that the earlier version can't represent is forgotten
TLegacy ==
    /\ Line.op = "legacy"
    /\ UNCHANGED <<svars, other, pids>>
    /\ ident' = ""

TConvert ==
    /\ Line.op = "convert"
    /\ Report(Exc \union {<<~Line.same, "source is changed">>,
                          <<~Line.clean, "temporary database is left">>})
    /\ Convert(Line.version)
    /\ UNCHANGED <<ident, pids>>

PartitionClauses ==
    LET got == {<<p.order, Range(p.subs)>> : p \in Range(Line.res)}
        ids == [i \in DOMAIN Line.res |-> Line.res[i].pid]
    IN IF Line.pid < 0
       THEN {<<got # DOMAIN disk.ts, "partitions">>,
             <<Len(Line.res) # Cardinality(got), "repeated partition">>,
             <<~NoDup(ids), "repeated partition identifier">>}
       ELSE {<<\E p \in Range(Line.res) :
                  \/ p.pid # Line.pid
                  \/ p.pid \notin DOMAIN pids
                  \/ <<p.order, Range(p.subs)>> # pids[p.pid],
               "wrong partition">>,
             <<Len(Line.res) # (IF Line.pid \in DOMAIN pids THEN 1 ELSE 0),
               "number of partitions">>}

SetClauses(ans) ==
    {<<~NoDup(Line.res), "repeated record">>,
     <<~(Range(Line.res) \subseteq ans), "unexpected record">>,
     <<~(ans \subseteq Range(Line.res)), "missing record">>}

DumpClauses ==
    CASE Line.kind = "settings" -> {<<Line.res # DumpSettings, "settings">>}
      [] Line.kind = "last_event_id" ->
            {<<Line.res # DumpLastId(Line.srv), "last event ids">>}
      [] Line.kind = "last_timestamp" ->
            {<<Line.res # DumpLastTs(Line.srv), "last timestamps">>}
      [] Line.kind = "ref" -> SetClauses(DumpRefs(pids, Line.srv))
      [] Line.kind = "latest" ->
            SetClauses(DumpLatest(Line.has_types, Line.types))
      [] Line.kind = "partition" -> PartitionClauses
      [] Line.kind = "timeseries" ->
            {<<Line.res # DumpTs(pids, Line.pid, Line.srv, Line.has_types,
                                 Line.types), "timeseries">>}

TDump ==
    /\ Line.op = "dump"
    /\ Report(IF Ok THEN DumpClauses \union
                         {<<~Line.same, "database is changed">>}
              ELSE Exc)
    /\ pids' = IF Ok /\ Line.kind = "partition" /\ Line.pid < 0
               THEN [p \in {x.pid : x \in Range(Line.res)} |->
                        LET r == CHOOSE x \in Range(Line.res) : x.pid = p
                        IN <<r.order, Range(r.subs)>>]
               ELSE pids
    /\ UNCHANGED <<svars, tvars>>

ToolsNext ==
    \/ TraceNext /\ UNCHANGED <<tvars, pids>>
    \/ /\ l <= Len(Lines)
       /\ \/ TTopen \/ TCopy \/ TSwitch \/ TToolRefused \/ TLegacy \/ TConvert
          \/ TDump
       /\ l' = l + 1
       /\ UNCHANGED tid

ToolsSpec == ToolsInit /\ [][ToolsNext]_toolvars
=============================================================================
