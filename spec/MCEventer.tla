------------------------------ MODULE MCEventer ------------------------------
(* Exhaustive check of the eventer protocol: two clients, announcements    *)
(* with and without acknowledgement, changes of status, requests of one    *)
(* client, ends of connections at any time.                                *)
EXTENDS Eventer, TLC

CONSTANTS MaxAnns, MaxStatus, MaxReqs, MaxEnds

MCEvSrv(e) == e % 2
MCEvType(e) == IF e < 3 THEN <<"a">> ELSE <<"b">>

VARIABLES
    got,        \* got[k]: notifications received by the client
    sent,       \* sequence of announced [evs, persisted, upto]
    first,      \* first[k]: number of announcements before acceptance
    served,     \* served[k]: requests in the order of serving
    ends        \* number of ended connections

mcvars == <<nvars, got, sent, first, served, ends>>
aux == <<got, sent, first, served, ends>>

Params == {[sub |-> <<<<"a">>>>, srv |-> 0, has_srv |-> FALSE,
            persisted |-> FALSE, token |-> ""],
           [sub |-> <<<<"*">>>>, srv |-> 1, has_srv |-> TRUE,
            persisted |-> FALSE, token |-> ""]}

Statuses == {"S", "O"}

Init == /\ EventerInit("S")
        /\ got = <<>> /\ sent = <<>> /\ first = <<>> /\ served = <<>>
        /\ ends = 0

Connect == /\ Len(conns) < 2
           /\ \E p \in Params :
                /\ DoConnect(p)
                /\ got' = Append(got, <<>>)
                /\ first' = Append(first, 0)
                /\ served' = Append(served, <<>>)
           /\ UNCHANGED <<sent, ends>>

Pend == \E k \in DOMAIN conns : CanPend(k) /\ DoPend(k) /\ UNCHANGED aux

Accept == \E k \in DOMAIN conns :
            /\ CanAccept(k) /\ DoAccept(k)
            /\ first' = [first EXCEPT ![k] = Len(sent)]
            /\ UNCHANGED <<got, sent, served, ends>>

Reject == \E k \in DOMAIN conns : CanAccept(k) /\ DoReject(k) /\ UNCHANGED aux

Open == \E k \in DOMAIN conns :
          LET i == conns[k].from
          IN /\ i > 0 /\ CanOpen(k, hist[i]) /\ DoOpen(k, hist[i])
             /\ UNCHANGED aux

Fail == \E k \in DOMAIN conns : \E refused \in BOOLEAN :
          CanFail(k, refused) /\ DoFail(k) /\ UNCHANGED aux

SetStatus == /\ Len(hist) < MaxStatus
             /\ \E s \in Statuses \ {hist[Len(hist)]} : DoSetStatus(s)
             /\ UNCHANGED aux

Status == \E k \in DOMAIN conns : \E s \in Statuses :
            CanStatus(k, s) /\ DoStatus(k) /\ UNCHANGED aux

Batches == {<<1, 2>>, <<3>>, <<2, 3, 1>>}

Announce == /\ Len(anns) < MaxAnns
            /\ \E evs \in Batches, ack \in BOOLEAN :
                 /\ DoAnnounce(evs, FALSE, ack)
                 /\ sent' = Append(sent, evs)
            /\ UNCHANGED <<got, first, served, ends>>

Notify == \E k \in DOMAIN conns :
            /\ conns[k].out # <<>>
            /\ LET evs == Head(conns[k].out).evs
               IN /\ CanNotify(k, evs)
                  /\ got' = [got EXCEPT ![k] = Append(@, evs)]
            /\ DoNotify(k)
            /\ UNCHANGED <<sent, first, served, ends>>

NotifyEnd == \E k \in DOMAIN conns :
               CanNotifyEnd(k) /\ DoNotifyEnd(k) /\ UNCHANGED aux

AnnounceEnd == \E n \in DOMAIN anns :
                 CanAnnounceEnd(n) /\ DoAnnounceEnd(n) /\ UNCHANGED aux

Request == \E k \in DOMAIN conns :
             /\ k = 1
             /\ conns[k].cl = "open"
             /\ Len(conns[k].reqs) < MaxReqs
             /\ \E kind \in {"register", "query"} :
                  DoRequest(k, kind, Len(conns[k].reqs) + 1)
             /\ UNCHANGED aux

Serve == \E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
           /\ CanServe(k, r) /\ DoServe(k, r)
           /\ served' = [served EXCEPT ![k] = Append(@, r)]
           /\ UNCHANGED <<got, sent, first, ends>>

ServeEnd == \E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
              /\ conns[k].reqs[r].st = "served"
              /\ DoServeEnd(k, r, <<"ok", r>>)
              /\ UNCHANGED aux

Answer == \E k \in DOMAIN conns : \E r \in DOMAIN conns[k].reqs :
            /\ conns[k].reqs[r].res # <<"over">>
            /\ \/ CanAnswer(k, r, <<"ok", r>>)
               \/ CanAnswer(k, r, <<"connection", 0>>) /\ conns[k].cl # "open"
            /\ DoAnswer(k, r)
            /\ UNCHANGED aux

Cause == /\ ends < MaxEnds
         /\ \E k \in DOMAIN conns : ~conns[k].cause /\ DoCause({k})
         /\ ends' = ends + 1
         /\ UNCHANGED <<got, sent, first, served>>

ServerEnd == \E k \in DOMAIN conns :
               CanServerEnd(k) /\ DoServerEnd(k) /\ UNCHANGED aux

ClientEnd == \E k \in DOMAIN conns :
               CanClientEnd(k) /\ DoClientEnd(k) /\ UNCHANGED aux

Next == Connect \/ Pend \/ Accept \/ Reject \/ Open \/ Fail \/ SetStatus
        \/ Status \/ Announce \/ Notify \/ NotifyEnd \/ AnnounceEnd \/ Request
        \/ Serve \/ ServeEnd \/ Answer \/ Cause \/ ServerEnd \/ ClientEnd

Spec == Init /\ [][Next]_mcvars
             /\ WF_mcvars(Pend) /\ WF_mcvars(Accept) /\ WF_mcvars(Open)
             /\ WF_mcvars(Fail) /\ WF_mcvars(Status) /\ WF_mcvars(Notify)
             /\ WF_mcvars(NotifyEnd) /\ WF_mcvars(AnnounceEnd)
             /\ WF_mcvars(Serve) /\ WF_mcvars(ServeEnd) /\ WF_mcvars(Answer)
             /\ WF_mcvars(ServerEnd) /\ WF_mcvars(ClientEnd)

------------------------------------------------------------------------------

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]

\* notifications which the client should get
Expected(k) ==
    LET all == [i \in 1..(Len(sent) - first[k]) |->
                  Wanted(k, sent[first[k] + i])]
    IN SelectSeq(all, LAMBDA evs : evs # <<>>)

\* P01
NotificationsExact ==
    \A k \in DOMAIN conns :
        /\ IsPrefix(got[k], Expected(k))
        /\ \A i \in DOMAIN got[k] : got[k][i] # <<>>

\* P02
RegistersInOrder ==
    \A k \in DOMAIN conns :
        /\ \A i, j \in DOMAIN served[k] :
             served[k][i] = served[k][j] => i = j
        /\ LET regs == SelectSeq(served[k], LAMBDA r :
                          conns[k].reqs[r].kind = "register")
           IN \A i, j \in DOMAIN regs : i < j => regs[i] < regs[j]

\* P03
OpenIsAccepted ==
    \A k \in DOMAIN conns :
        conns[k].cl = "open" => conns[k].from > 0 /\ conns[k].st # "rejected"

\* P04
AckMeansProcessed ==
    \A n \in DOMAIN anns : anns[n].ack /\ anns[n].done =>
        \A k \in anns[n].addr : n \in conns[k].acked \/ conns[k].cause

\* P01, P02, P03, P04
Delivered(k) ==
    \/ conns[k].cause
    \/ conns[k].cl = "failed"
    \/ /\ got[k] = Expected(k)
       /\ conns[k].pos = Len(hist)

EventuallyDelivered ==
    \A k \in 1..2 : <>[](k \in DOMAIN conns => Delivered(k))

EventuallyAnswered ==
    \A r \in 1..MaxReqs :
        <>[]((1 \in DOMAIN conns /\ r \in DOMAIN conns[1].reqs) =>
                conns[1].reqs[r].res = <<"over">>)

EventuallyDone ==
    \A n \in 1..MaxAnns : <>[](n \in DOMAIN anns => anns[n].done)
=============================================================================
