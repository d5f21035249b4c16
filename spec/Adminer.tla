------------------------------ MODULE Adminer ------------------------------
(* Adminer: requests of clients and what the server has produced for them. *)
EXTENDS Integers

VARIABLES
    ended,      \* connections which have ended
    reqs,       \* r -> [c, kind, v, st], st is "wait", "done" or "gone"
    calls       \* n -> [kind, v, all, out, res, used], all are requests
                \* which may be answered by this call

avars == <<ended, reqs, calls>>

APut(f, k, v) == [i \in DOMAIN f \union {k} |-> IF i = k THEN v ELSE f[i]]

AInit == ended = {} /\ reqs = <<>> /\ calls = <<>>

DoRequest(r, c, kind, v) ==
    /\ reqs' = APut(reqs, r, [c |-> c, kind |-> kind, v |-> v, st |-> "wait"])
    /\ UNCHANGED <<ended, calls>>

\* requests which this call may serve
Servable(kind, v) == {r \in DOMAIN reqs : reqs[r].kind = kind /\ reqs[r].v = v}

Served(kind, v) == {n \in DOMAIN calls : calls[n].kind = kind /\ calls[n].v = v}

DoCall(n, kind, v) ==
    /\ calls' = APut(calls, n, [kind |-> kind, v |-> v,
                                all |-> Servable(kind, v),
                                out |-> "", res |-> 0, used |-> FALSE])
    /\ UNCHANGED <<ended, reqs>>

DoReturn(n, out, res) ==
    /\ calls' = [calls EXCEPT ![n].out = out, ![n].res = res]
    /\ UNCHANGED <<ended, reqs>>

\* calls which explain the answer of request r
Answers(r, out, res) ==
    {n \in DOMAIN calls : /\ r \in calls[n].all
                          /\ calls[n].out = out
                          /\ calls[n].res = res
                          /\ ~calls[n].used}

DoAnswer(r, n) ==
    /\ reqs' = [reqs EXCEPT ![r].st = "done"]
    /\ calls' = [calls EXCEPT ![n].used = TRUE]
    /\ UNCHANGED ended

\* request which ends without an answer
DoDrop(r) ==
    /\ reqs' = [reqs EXCEPT ![r].st = "gone"]
    /\ UNCHANGED <<ended, calls>>

DoEnded(c) == ended' = ended \union {c} /\ UNCHANGED <<reqs, calls>>

Waiting(c) == {r \in DOMAIN reqs : reqs[r].c = c /\ reqs[r].st = "wait"}
=============================================================================
