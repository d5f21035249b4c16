----------------------------- MODULE WireTrace -----------------------------
(* Validation of wire forms and comparisons made by the real code.         *)
EXTENDS Wire, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

vars == <<tid, l>>

Lines == Traces[tid].lines
Line == Lines[l]

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

TraceInit == tid \in DOMAIN Traces /\ l = 1

\* wire: data which is decoded from encoded bytes; back: what the code
\* creates from it
TWire ==
    /\ Line.op = "wire"
    /\ Report(IF Line.exc # "" THEN {<<TRUE, "unexpected error">>}
              ELSE {<<Line.wire # ToWire(Line.kind, Line.x), "wire form">>,
                    <<Line.back # Line.x, "value from the wire form">>})

\* bytes of the wire form which are made by other implementation
TForeign ==
    /\ Line.op = "foreign"
    /\ Report(IF Line.exc # "" THEN {<<TRUE, "unexpected error">>}
              ELSE {<<Line.back # FromWire(Line.kind, Line.wire),
                      "value from the wire form of other implementation">>})

TCompare ==
    /\ Line.op = "compare"
    /\ Report({<<Line.lt # Before(Line.a, Line.b), "natural order (<)">>,
               <<Line.gt # After(Line.a, Line.b), "natural order (>)">>})

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TWire \/ TForeign \/ TCompare
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
