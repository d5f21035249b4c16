------------------------------ MODULE Eventer ------------------------------
(* Eventer protocol: server and its clients.                               *)
(*                                                                         *)
(* Messages of a connection are delivered in order and may be delayed      *)
(* arbitrarily; a connection may end at any time and then an arbitrary     *)
(* suffix of the messages is lost.  Each step has a guard (Can..) and an   *)
(* effect (Do..).                                                          *)
EXTENDS EventTypes, FiniteSets

CONSTANTS
    EvSrv(_),       \* server id of an event
    EvType(_)       \* type of an event

VARIABLES
    hist,       \* Seq of statuses of the server
    conns,      \* Seq of connections
    anns        \* Seq of announcements [ack, addr, done]

nvars == <<hist, conns, anns>>

\* st (server side): "new", "pending", "up", "rejected", "down"
\* cl (client side): "connecting", "open", "failed", "closed"
NewConn(p) ==
    [sub |-> p.sub, srv |-> p.srv, has_srv |-> p.has_srv,
     persisted |-> p.persisted, token |-> p.token,
     st |-> "new", cl |-> "connecting",
     cause |-> FALSE,       \* there is a reason for connection to end
     from |-> 0,            \* index of the last status when accepted
     pos |-> 0,             \* index of the last status seen by the client
     out |-> <<>>,          \* notifications which aren't delivered
     busy |-> 0,            \* announcement which the client processes
     acked |-> {},          \* processed announcements
     reqs |-> <<>>]         \* Seq of [kind, data, st, res]

EventerInit(status) ==
    /\ hist = <<status>>
    /\ conns = <<>>
    /\ anns = <<>>

------------------------------------------------------------------------------
\* handshake

DoConnect(p) ==
    /\ conns' = Append(conns, NewConn(p))
    /\ UNCHANGED <<hist, anns>>

CanPend(k) == conns[k].st = "new"

DoPend(k) ==
    /\ conns' = [conns EXCEPT ![k].st = "pending"]
    /\ UNCHANGED <<hist, anns>>

CanAccept(k) == conns[k].st = "pending"

DoAccept(k) ==
    /\ conns' = [conns EXCEPT ![k].st = "up", ![k].from = Len(hist)]
    /\ UNCHANGED <<hist, anns>>

DoReject(k) ==
    /\ conns' = [conns EXCEPT ![k].st = "rejected"]
    /\ UNCHANGED <<hist, anns>>

\* client gets the status of handshake
CanOpen(k, status) ==
    /\ conns[k].cl = "connecting"
    /\ conns[k].st \in {"up", "down"}
    /\ conns[k].from > 0
    /\ \E i \in conns[k].from..Len(hist) : hist[i] = status

DoOpen(k, status) ==
    /\ conns' = [conns EXCEPT
                   ![k].cl = "open",
                   ![k].pos = IF conns[k].from > 0 /\
                                 \E i \in conns[k].from..Len(hist) :
                                    hist[i] = status
                              THEN CHOOSE i \in conns[k].from..Len(hist) :
                                     /\ hist[i] = status
                                     /\ \A j \in conns[k].from..(i - 1) :
                                          hist[j] # status
                              ELSE Len(hist)]
    /\ UNCHANGED <<hist, anns>>

CanFail(k, refused) ==
    /\ conns[k].cl = "connecting"
    /\ IF refused THEN conns[k].st = "rejected"
       ELSE conns[k].cause

DoFail(k) ==
    /\ conns' = [conns EXCEPT ![k].cl = "failed"]
    /\ UNCHANGED <<hist, anns>>

------------------------------------------------------------------------------
\* status

DoSetStatus(status) ==
    /\ hist' = IF hist[Len(hist)] = status THEN hist ELSE Append(hist, status)
    /\ UNCHANGED <<conns, anns>>

CanStatus(k, status) ==
    /\ conns[k].cl = "open"
    /\ conns[k].pos < Len(hist)
    /\ hist[conns[k].pos + 1] = status

DoStatus(k) ==
    /\ conns' = [conns EXCEPT ![k].pos = IF @ < Len(hist) THEN @ + 1 ELSE @]
    /\ UNCHANGED <<hist, anns>>

------------------------------------------------------------------------------
\* notifications

Wanted(k, evs) ==
    SelectSeq(evs, LAMBDA e :
        /\ SubMatches(conns[k].sub, EvType(e))
        /\ ~conns[k].has_srv \/ conns[k].srv = EvSrv(e))

Addressed(evs, persisted) ==
    {k \in DOMAIN conns : /\ conns[k].st = "up"
                          /\ conns[k].persisted = persisted
                          /\ Wanted(k, evs) # <<>>}

DoAnnounce(evs, persisted, ack) ==
    LET n == Len(anns) + 1
        addr == Addressed(evs, persisted)
    IN /\ anns' = Append(anns, [ack |-> ack, addr |-> addr, done |-> FALSE])
       /\ conns' = [k \in DOMAIN conns |->
                      IF k \in addr
                      THEN [conns[k] EXCEPT
                              !.out = Append(@, [n |-> n,
                                                 evs |-> Wanted(k, evs)])]
                      ELSE conns[k]]
       /\ UNCHANGED hist

CanNotify(k, evs) ==
    /\ conns[k].cl = "open"
    /\ conns[k].busy = 0
    /\ conns[k].out # <<>>
    /\ Head(conns[k].out).evs = evs

DoNotify(k) ==
    /\ conns' = IF conns[k].out = <<>> THEN conns
                ELSE [conns EXCEPT ![k].busy = Head(conns[k].out).n,
                                   ![k].out = Tail(@)]
    /\ UNCHANGED <<hist, anns>>

CanNotifyEnd(k) == conns[k].busy # 0

DoNotifyEnd(k) ==
    /\ conns' = [conns EXCEPT ![k].acked = @ \union {conns[k].busy},
                              ![k].busy = 0]
    /\ UNCHANGED <<hist, anns>>

CanAnnounceEnd(n) ==
    /\ ~anns[n].done
    /\ anns[n].ack => \A k \in anns[n].addr :
                        n \in conns[k].acked \/ conns[k].cause

DoAnnounceEnd(n) ==
    /\ anns' = [anns EXCEPT ![n].done = TRUE]
    /\ UNCHANGED <<hist, conns>>

------------------------------------------------------------------------------
\* requests

DoRequest(k, kind, data) ==
    /\ conns' = [conns EXCEPT ![k].reqs =
                   Append(@, [kind |-> kind, data |-> data, st |-> "sent",
                              res |-> <<>>])]
    /\ UNCHANGED <<hist, anns>>

\* request r is passed to the server
CanServe(k, r) ==
    /\ conns[k].st = "up"
    /\ r \in DOMAIN conns[k].reqs
    /\ conns[k].reqs[r].st = "sent"
    /\ conns[k].reqs[r].kind = "register" =>
         \A q \in 1..(r - 1) :
            conns[k].reqs[q].kind = "register" => conns[k].reqs[q].st # "sent"

DoServe(k, r) ==
    /\ conns' = [conns EXCEPT ![k].reqs[r].st = "served"]
    /\ UNCHANGED <<hist, anns>>

\* res is <<outcome, result>>
DoServeEnd(k, r, res) ==
    /\ conns' = [conns EXCEPT ![k].reqs[r].st = "done",
                              ![k].reqs[r].res = res,
                              ![k].cause = @ \/ res[1] = "error"]
    /\ UNCHANGED <<hist, anns>>

CanAnswer(k, r, res) ==
    IF res[1] = "connection"
    THEN conns[k].cause
    ELSE conns[k].reqs[r].st = "done" /\ conns[k].reqs[r].res = res

\* request without response
CanSent(k, r) == conns[k].cl = "open"

DoAnswer(k, r) ==
    /\ conns' = [conns EXCEPT ![k].reqs[r] =
                   [@ EXCEPT !.st = IF @ = "sent" THEN "sent" ELSE "over",
                             !.res = <<"over">>]]
    /\ UNCHANGED <<hist, anns>>

------------------------------------------------------------------------------
\* end of connection

DoCause(ks) ==
    /\ conns' = [k \in DOMAIN conns |->
                   IF k \in ks THEN [conns[k] EXCEPT !.cause = TRUE]
                   ELSE conns[k]]
    /\ UNCHANGED <<hist, anns>>

CanServerEnd(k) == conns[k].st = "up" /\ conns[k].cause

DoServerEnd(k) ==
    /\ conns' = [conns EXCEPT ![k].st = "down"]
    /\ UNCHANGED <<hist, anns>>

CanClientEnd(k) == conns[k].cl = "open" /\ conns[k].cause

DoClientEnd(k) ==
    /\ conns' = [conns EXCEPT ![k].cl = "closed"]
    /\ UNCHANGED <<hist, anns>>
=============================================================================
