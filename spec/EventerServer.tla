--------------------------- MODULE EventerServer ---------------------------
(* Eventer server of the event server: connections are announced to the    *)
(* engine, register requests are passed to the engine.                     *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    eng,        \* current engine, 0 if there is none
    eopen,      \* current engine is open
    conns       \* Seq of connections

svars == <<eng, eopen, conns>>

\* st: "connecting", "open", "failed", "closed"
NewConn(name, valid) ==
    [name |-> name, valid |-> valid, st |-> "connecting",
     src |-> <<>>,
     hello |-> FALSE,       \* CONNECTED is registered
     bye |-> FALSE,         \* DISCONNECTED is registered
     rejected |-> FALSE,
     opened |-> FALSE,
     cause |-> FALSE,       \* there is a reason for connection to end
     steady |-> eopen,      \* engine is the same since the beginning
     csteady |-> FALSE,     \* engine is the same since the first cause
     served |-> 0,          \* last request passed to an engine
     reqs |-> <<>>]

SInit == eng = 0 /\ eopen = FALSE /\ conns = <<>>

Unsteady(c) ==
    [c EXCEPT !.steady = FALSE, !.csteady = FALSE]

WithGap(c) ==
    [c EXCEPT !.reqs = [r \in DOMAIN c.reqs |->
                          [c.reqs[r] EXCEPT !.gap = TRUE]]]

DoEngine(e) ==
    /\ eng' = e
    /\ eopen' = (e # 0)
    /\ conns' = [k \in DOMAIN conns |->
                   IF e = 0 THEN WithGap(Unsteady(conns[k]))
                   ELSE Unsteady(conns[k])]

DoEngineClose ==
    /\ eopen' = FALSE
    /\ conns' = [k \in DOMAIN conns |-> Unsteady(conns[k])]
    /\ UNCHANGED eng

DoConnect(name, valid) ==
    /\ conns' = Append(conns, NewConn(name, valid))
    /\ UNCHANGED <<eng, eopen>>

SrcFree(k, src) ==
    \/ conns[k].src = src
    \/ conns[k].src = <<>> /\ \A j \in DOMAIN conns : conns[j].src # src

CanHello(k, src) ==
    /\ conns[k].valid
    /\ ~conns[k].opened
    /\ ~conns[k].hello /\ ~conns[k].rejected
    /\ eng # 0 /\ eopen
    /\ conns[k].src = <<>>
    /\ SrcFree(k, src)

DoHello(k, src) ==
    /\ conns' = [conns EXCEPT ![k].hello = TRUE, ![k].src = src]
    /\ UNCHANGED <<eng, eopen>>

\* registering of CONNECTED failed
DoHelloFail(k) ==
    /\ conns' = [conns EXCEPT ![k].rejected = TRUE]
    /\ UNCHANGED <<eng, eopen>>

CanOpen(k) ==
    /\ conns[k].st = "connecting"
    /\ conns[k].valid
    /\ ~conns[k].rejected
    /\ conns[k].steady => conns[k].hello

DoOpen(k) ==
    /\ conns' = [conns EXCEPT ![k].st = "open", ![k].opened = TRUE]
    /\ UNCHANGED <<eng, eopen>>

\* connecting fails (refused: with an explanation of the server)
CanFail(k, refused) ==
    IF refused THEN ~conns[k].valid \/ conns[k].rejected
    ELSE conns[k].cause \/ ~conns[k].valid \/ conns[k].rejected

DoFail(k) ==
    /\ conns' = [conns EXCEPT ![k].st = "failed"]
    /\ UNCHANGED <<eng, eopen>>

DoRequest(k, data, resp) ==
    /\ conns' = [conns EXCEPT ![k].reqs =
                   Append(@, [data |-> data, resp |-> resp, st |-> "sent",
                              res |-> <<>>, over |-> FALSE,
                              gap |-> eng = 0])]
    /\ UNCHANGED <<eng, eopen>>

CanPass(k, r, src) ==
    /\ eng # 0
    /\ conns[k].opened
    /\ r > conns[k].served
    /\ conns[k].reqs[r].st = "sent"
    /\ \A q \in (conns[k].served + 1)..(r - 1) : conns[k].reqs[q].gap
    /\ ~conns[k].bye
    /\ SrcFree(k, src)

DoPass(k, r, src) ==
    /\ conns' = [conns EXCEPT ![k].reqs[r].st = "passed", ![k].served = r,
                              ![k].src = src]
    /\ UNCHANGED <<eng, eopen>>

\* first reason for the end
Caused(c) == [c EXCEPT !.cause = TRUE,
                       !.csteady = IF c.cause THEN @ ELSE eopen]

\* res is <<outcome, events>>
DoPassEnd(k, r, res) ==
    /\ LET c == [conns[k] EXCEPT !.reqs[r].st = "done", !.reqs[r].res = res]
       IN conns' = [conns EXCEPT ![k] = IF res[1] = "error" THEN Caused(c)
                                        ELSE c]
    /\ UNCHANGED <<eng, eopen>>

CanAnswer(k, r, res) ==
    LET q == conns[k].reqs[r]
    IN CASE res[1] = "connection" -> conns[k].cause
         [] res[1] = "sent" -> conns[k].st = "open"
         [] OTHER -> \/ q.st = "done" /\ q.res = res
                     \/ q.st = "sent" /\ q.gap /\ res[1] = "none"

DoAnswer(k, r) ==
    /\ conns' = [conns EXCEPT ![k].reqs[r].over = TRUE]
    /\ UNCHANGED <<eng, eopen>>

DoCause(ks) ==
    /\ conns' = [k \in DOMAIN conns |->
                   IF k \in ks THEN Caused(conns[k]) ELSE conns[k]]
    /\ UNCHANGED <<eng, eopen>>

CanEnd(k) == conns[k].cause

DoEnd(k) ==
    /\ conns' = [conns EXCEPT ![k].st = IF @ = "open" THEN "closed" ELSE @]
    /\ UNCHANGED <<eng, eopen>>

CanBye(k, src) ==
    /\ eng # 0 /\ eopen
    /\ conns[k].cause
    /\ conns[k].valid /\ ~conns[k].rejected
    /\ ~conns[k].bye
    /\ SrcFree(k, src)

DoBye(k, src) ==
    /\ conns' = [conns EXCEPT ![k].bye = TRUE, ![k].src = src]
    /\ UNCHANGED <<eng, eopen>>

\* once nothing happens any more
ByeMissing(k) ==
    /\ conns[k].opened \/ (conns[k].hello /\ ~conns[k].rejected)
    /\ conns[k].cause
    /\ conns[k].csteady
    /\ ~conns[k].bye

\* request was dropped while there was an engine
RequestMissing(k) ==
    /\ conns[k].opened
    /\ ~conns[k].cause
    /\ \E r \in DOMAIN conns[k].reqs :
         conns[k].reqs[r].st = "sent" /\ ~conns[k].reqs[r].gap
=============================================================================
