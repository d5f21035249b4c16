--------------------------- MODULE AdminerServer ---------------------------
(* Event server's adminer: configuration of logging.                       *)
(*                                                                         *)
(* Configuration is a number, 0 is the initial state of logging and        *)
(* First is the configuration of the server.                               *)
EXTENDS Integers

VARIABLES
    conf,       \* current configuration
    applied,    \* configuration which is applied to logging
    reqs        \* r -> [kind, v, ok, st, out, res]

svars == <<conf, applied, reqs>>

SPut(f, k, v) == [i \in DOMAIN f \union {k} |-> IF i = k THEN v ELSE f[i]]

SInit(first) == conf = first /\ applied = 0 /\ reqs = <<>>

DoAsk(r, kind, v, ok) ==
    /\ reqs' = SPut(reqs, r, [kind |-> kind, v |-> v, ok |-> ok, st |-> "wait",
                              out |-> "", res |-> 0])
    /\ UNCHANGED <<conf, applied>>

\* the whole request is served at once
DoServe(r) ==
    LET q == reqs[r]
        done(out, res) == [reqs EXCEPT ![r].st = "served", ![r].out = out,
                                       ![r].res = res]
    IN /\ q.st = "wait"
       /\ IF q.kind = "get"
          THEN reqs' = done("ok", conf) /\ UNCHANGED <<conf, applied>>
          ELSE IF q.ok
          THEN conf' = q.v /\ applied' = q.v /\ reqs' = done("ok", 0)
          ELSE reqs' = done("error", 0) /\ UNCHANGED <<conf, applied>>

DoForget(r) ==
    /\ reqs' = [i \in DOMAIN reqs \ {r} |-> reqs[i]]
    /\ UNCHANGED <<conf, applied>>
=============================================================================
