---------------------------- MODULE ClusterTrace ----------------------------
(* Validation of histories of real servers with LMDB backends.  Events of  *)
(* trace are known by their identifiers (events of different content have  *)
(* different identifiers).                                                 *)
EXTENDS Histories, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l,
          hist,     \* histories kept by each of servers
          kept,     \* events which the server can't lose any more
          ever,     \* events which the server had at any time
          phase,    \* down, starting, up, crashed
          inc,      \* number of starts of each of servers
          queries   \* histories at the start of queries

vars == <<tid, l, hist, kept, ever, phase, inc, queries>>

Trace == Traces[tid]
Lines == Trace.lines
Line == Lines[l]
Nodes == 1..Trace.nodes
Ev(e) == Trace.events[e]

Events(s) == [i \in DOMAIN s |-> Ev(s[i])]

IsCopyOf(s, original) ==
    IsPrefix(s, original) /\ WholeSessions(Events(s), Events(original))

Report(clauses) ==
    \A c \in clauses : c[1] => PrintT(<<"VERDICT", tid, l, c[2]>>)

TraceInit ==
    /\ tid \in DOMAIN Traces
    /\ l = 1
    /\ hist = [n \in 1..Traces[tid].nodes |->
                  [o \in 1..Traces[tid].nodes |-> <<>>]]
    /\ kept = [n \in 1..Traces[tid].nodes |-> {}]
    /\ ever = [n \in 1..Traces[tid].nodes |-> {}]
    /\ phase = [n \in 1..Traces[tid].nodes |-> "down"]
    /\ inc = [n \in 1..Traces[tid].nodes |-> 0]
    /\ queries = <<>>

---------------------------------------------------------------------------

TStart ==
    /\ Line.op = "start"
    /\ inc' = [inc EXCEPT ![Line.n] = @ + 1]
    /\ phase' = [phase EXCEPT ![Line.n] = "starting"]
    /\ UNCHANGED <<hist, kept, ever, queries>>

\* what the server has found on its disk
TOpen ==
    /\ Line.op = "open"
    /\ LET n == Line.n
           h == Line.hist
       IN /\ Report(
              {<<\E o \in Nodes : ~IsPrefix(h[o], hist[n][o]),
                 "history after the start is not a part of the previous one">>,
               <<\E o \in Nodes : /\ IsPrefix(h[o], hist[n][o])
                                  /\ ~IsCopyOf(h[o], hist[n][o]),
                 "session was recovered partially">>,
               <<\E e \in kept[n] : e \notin All(h),
                 "persisted event was lost">>,
               <<\E m \in Nodes \ {n} : ~IsPrefix(hist[m][n], h[n]),
                 "other server has events which their origin has lost">>,
               <<\E m \in Nodes \ {n} : ~IsPrefix(h[m], hist[m][m]),
                 "server has events which their origin doesn't have">>})
          /\ hist' = [hist EXCEPT ![n] = h]
          /\ kept' = [kept EXCEPT ![n] = All(h)]
    /\ phase' = [phase EXCEPT ![Line.n] = "up"]
    /\ UNCHANGED <<ever, inc, queries>>

TReg ==
    /\ Line.op = "reg"
    /\ LET n == Line.n
           es == Events(Line.evs)
           o == IF es = <<>> THEN 0 ELSE es[1].o
       IN IF es = <<>>
             THEN UNCHANGED <<hist, ever>>
          ELSE IF o = 0
             THEN /\ Report({<<TRUE, "event of unknown server">>})
                  /\ UNCHANGED <<hist, ever>>
          ELSE
             /\ Report(
                 {<<o = n /\ ~IsNextSession(n, Events(hist[n][n]), es),
                    "events are not the next session of the server">>,
                  <<o # n /\ ~IsPrefix(hist[n][o] \o Line.evs, hist[o][o]),
                    "copied events are not those which follow">>,
                  <<o # n /\ IsPrefix(hist[n][o] \o Line.evs, hist[o][o])
                          /\ ~IsCopyOf(hist[n][o] \o Line.evs, hist[o][o]),
                    "session was copied partially">>})
             /\ hist' = [hist EXCEPT ![n][o] = @ \o Line.evs]
             /\ ever' = [ever EXCEPT ![n] = @ \cup Elements(Line.evs)]
    /\ UNCHANGED <<kept, phase, inc, queries>>

TFlushed ==
    /\ Line.op = "flushed"
    /\ LET n == Line.n
           s == Elements(Line.evs)
       IN /\ Report({<<\E e \in s : e \notin All(hist[n]),
                       "persisted event is not in the history">>})
          /\ kept' = [kept EXCEPT ![n] = @ \cup s]
    /\ UNCHANGED <<hist, ever, phase, inc, queries>>

TCrash ==
    /\ Line.op = "crash"
    /\ phase' = [phase EXCEPT ![Line.n] = "crashed"]
    /\ UNCHANGED <<hist, kept, ever, inc, queries>>

TClose ==
    /\ Line.op = "close"
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

\* nothing is lost when a server is stopped
TClosed ==
    /\ Line.op = "closed"
    /\ kept' = IF phase[Line.n] = "up"
                   THEN [kept EXCEPT ![Line.n] = All(hist[Line.n])]
                   ELSE kept
    /\ phase' = [phase EXCEPT ![Line.n] = "down"]
    /\ UNCHANGED <<hist, ever, inc, queries>>

TNote ==
    /\ Line.op = "note"
    /\ LET n == Line.n
           s == Elements(Line.evs)
           current == Line.inc = inc[n]
       IN /\ Report(
              {<<\E e \in s : e \notin (IF current \/ Line.p
                                            THEN All(hist[n]) ELSE ever[n]),
                 IF current THEN "client was told about unknown event"
                            ELSE "event announced as persisted was lost">>})
          /\ kept' = IF Line.p THEN [kept EXCEPT ![n] = @ \cup s] ELSE kept
    /\ UNCHANGED <<hist, ever, phase, inc, queries>>

TRegistered ==
    /\ Line.op = "cres"
    /\ LET n == Line.n
           s == Elements(Line.evs)
       IN Report(
           {<<Line.must /\ ~Line.ok, "active server has refused events">>,
            <<~Line.own, "registered events differ from those requested">>,
            <<\E e \in s : Ev(e).o # n, "event of other server">>,
            <<\E e \in s : e \notin (IF Line.inc = inc[n]
                                         THEN All(hist[n]) ELSE ever[n]),
              "registered event is not in the history">>})
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

TQueryStart ==
    /\ Line.op = "qstart"
    /\ queries' = Append(queries,
                         [n |-> Line.n, all |-> All(hist[Line.n]),
                          kept |-> kept[Line.n], inc |-> inc[Line.n]])
    /\ UNCHANGED <<hist, kept, ever, phase, inc>>

TQueryEnd ==
    /\ Line.op = "qend"
    /\ LET n == Line.n
           q == queries[Line.q]
           h == hist[n]
           s == Elements(Line.evs)
           known == IF Line.p THEN q.kept ELSE q.all
           o == Line.o
       IN IF Line.inc # inc[n] \/ q.inc # inc[n]
             THEN TRUE
             ELSE Report(
                 {<<\E e \in known : /\ o # 0 => Ev(e).o = o
                                     /\ e \notin s,
                    "query has not returned event known at its start">>,
                  <<o = 0 /\ \E e \in s : e \notin All(h),
                    "query has returned unknown event">>,
                  <<o # 0 /\ ~IsPrefix(Line.evs, h[IF o = 0 THEN 1 ELSE o]),
                    "query of a server is not a part of its history">>})
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

---------------------------------------------------------------------------
(* Everything was repaired and enough time has passed.                     *)

TStatus ==
    /\ Line.op = "status"
    /\ LET active == Elements(Line.active)
       IN Report(
           {<<Len(Line.blessed) # 1, "nobody is blessed">>,
            <<active # Elements(Line.blessed),
              "active server is not the blessed one">>,
            <<Elements(Line.standby) # Nodes \ active,
              "other servers are not in standby">>})
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

\* what the active server knows about itself and others
TAnnounced ==
    /\ Line.op = "announced"
    /\ Report({<<Line.engine # "STARTED", "engine isn't announced as started">>,
               <<Elements(Line.synced) # Nodes \ {Line.n},
                 "other servers aren't announced as synchronized">>})
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

TFinal ==
    /\ Line.op = "final"
    /\ Report(
        {<<\E o \in Nodes : Line.hist[o] # hist[Line.n][o],
           "history differs from the registered one">>,
         <<\E o \in Nodes : hist[Line.n][o] # hist[o][o],
           "copy is not complete">>,
         <<\E e \in kept[Line.n] : e \notin All(Line.hist),
           "persisted event was lost">>})
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

TFailure ==
    /\ Line.op \in {"died", "stuck", "unreachable"}
    /\ Report({<<TRUE,
                 CASE Line.op = "died" -> "server has closed by itself"
                   [] Line.op = "stuck" -> "servers are stuck"
                   [] OTHER -> "server can't be reached">>})
    /\ UNCHANGED <<hist, kept, ever, phase, inc, queries>>

TraceNext ==
    \/ /\ l <= Len(Lines)
       /\ \/ TStart \/ TOpen \/ TReg \/ TFlushed \/ TCrash \/ TClose
          \/ TClosed \/ TNote \/ TRegistered \/ TQueryStart \/ TQueryEnd
          \/ TStatus \/ TAnnounced \/ TFinal \/ TFailure
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l = Len(Lines) + 1
       /\ PrintT(<<"DONE", tid>>)
       /\ l' = l + 1
       /\ UNCHANGED <<tid, hist, kept, ever, phase, inc, queries>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
