----------------------------- MODULE MCAdminer -----------------------------
(* Exhaustive check of the adminer protocol.                               *)
(*                                                                         *)
(* Requests and answers of a connection travel in order; the server serves *)
(* one request of a connection at a time; the client matches answers by    *)
(* conversation and ignores those of requests which it doesn't wait for.   *)
EXTENDS Adminer, Sequences, FiniteSets

CONSTANTS Conns, MaxReqs,
          Ignore,       \* answers of cancelled requests are ignored
          FailPending   \* requests fail once connection ends

VARIABLES up, down,     \* c -> messages on their way
          work,         \* c -> call of the server, 0 for none
          owner,        \* n -> request which call n serves
          lost          \* connections which were lost

mvars == <<up, down, work, owner, lost>>
vars == <<avars, mvars>>

Init ==
    /\ AInit
    /\ up = [c \in Conns |-> <<>>]
    /\ down = [c \in Conns |-> <<>>]
    /\ work = [c \in Conns |-> 0]
    /\ owner = <<>>
    /\ lost = {}

N == Cardinality(DOMAIN calls) + 1
R == Cardinality(DOMAIN reqs) + 1

\* sets have unique content, gets don't have any
Send(c) ==
    /\ R <= MaxReqs /\ c \notin ended
    /\ \E kind \in {"get", "set"} :
        DoRequest(R, c, kind, IF kind = "get" THEN 0 ELSE R)
    /\ up' = [up EXCEPT ![c] = Append(@, R)]
    /\ UNCHANGED <<down, work, owner, lost>>

Serve(c) ==
    /\ work[c] = 0 /\ up[c] # <<>> /\ c \notin lost
    /\ LET r == Head(up[c])
       IN /\ DoCall(N, reqs[r].kind, reqs[r].v)
          /\ owner' = APut(owner, N, r)
          /\ work' = [work EXCEPT ![c] = N]
          /\ up' = [up EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<down, lost>>

\* each result is unique
Return(c) ==
    /\ work[c] # 0
    /\ \E out \in {"ok", "error"} : DoReturn(work[c], out, 100 + work[c])
    /\ down' = IF c \in lost THEN down
               ELSE [down EXCEPT ![c] = Append(@, work[c])]
    /\ work' = [work EXCEPT ![c] = 0]
    /\ UNCHANGED <<up, owner, lost>>

Receive(c) ==
    /\ c \notin ended /\ down[c] # <<>>
    /\ down' = [down EXCEPT ![c] = Tail(@)]
    /\ LET n == Head(down[c])
           r == owner[n]
       IN IF reqs[r].st = "wait" THEN DoAnswer(r, n)
          ELSE IF Ignore THEN UNCHANGED avars
          ELSE DoEnded(c)
    /\ UNCHANGED <<up, work, owner, lost>>

Cancel ==
    /\ \E r \in DOMAIN reqs : reqs[r].st = "wait" /\ DoDrop(r)
    /\ UNCHANGED mvars

Lose(c) ==
    /\ c \notin lost
    /\ lost' = lost \union {c}
    /\ up' = [up EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<avars, down, work, owner>>

\* client notices the loss after everything it has received
Notice(c) ==
    /\ c \in lost /\ c \notin ended /\ down[c] = <<>>
    /\ DoEnded(c)
    /\ UNCHANGED mvars

Fail(c) ==
    /\ FailPending
    /\ c \in ended
    /\ \E r \in Waiting(c) : DoDrop(r)
    /\ UNCHANGED mvars

Next ==
    \/ Cancel
    \/ \E c \in Conns : \/ Send(c) \/ Serve(c) \/ Return(c) \/ Receive(c)
                        \/ Lose(c) \/ Notice(c) \/ Fail(c)

Spec == Init /\ [][Next]_vars
        /\ \A c \in Conns : /\ WF_vars(Serve(c)) /\ WF_vars(Return(c))
                            /\ WF_vars(Receive(c)) /\ WF_vars(Notice(c))
                            /\ WF_vars(Fail(c))

------------------------------------------------------------------------------

\* each request is answered by its own result
Own ==
    /\ \A n \in DOMAIN calls : calls[n].used => reqs[owner[n]].st # "wait"
    /\ \A n \in DOMAIN calls : owner[n] \in calls[n].all
    /\ \A n, m \in DOMAIN calls : owner[n] = owner[m] => n = m

\* matching by content doesn't allow more than one answer of a set
Unique ==
    \A r \in DOMAIN reqs :
        reqs[r].kind = "set" =>
            Cardinality({n \in DOMAIN calls : r \in calls[n].all}) <= 1

\* connection ends only because it is lost
NoSpuriousEnd == ended \subseteq lost

\* every request ends
Terminates == \A r \in 1..MaxReqs :
    (r \in DOMAIN reqs) ~> (r \in DOMAIN reqs /\ reqs[r].st # "wait")
=============================================================================
