-------------------------------- MODULE Cli --------------------------------
(* Command lines of the event manager: what is sent to the server, what is  *)
(* printed and the exit code.                                               *)
(*                                                                          *)
(* Options are records [k, v] where k is "none" for an option which isn't   *)
(* given.  Times are given in eighths of a second.                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, EventTypes

Given(opt) == opt.k # "none"

OrElse(opt, default) == IF Given(opt) THEN opt.v ELSE default

ExpTime(opt) ==
    CASE opt.k = "none" -> [k |-> "none", s |-> 0, us |-> 0]
      [] opt.k = "now" -> [k |-> "now", s |-> 0, us |-> 0]
      [] opt.k = "time" -> [k |-> "time", s |-> opt.v \div 8,
                            us |-> (opt.v % 8) * 125000]

IsQuery(cmd) == cmd.action \in {"latest", "timeseries", "server"}

------------------------------------------------------------------------------
\* Connection

ExpSubs(cmd) ==
    IF cmd.action # "subscribe" THEN <<>>
    ELSE IF cmd.types = <<>> THEN <<<<"*">>>> ELSE cmd.types

ExpConn(cmd) ==
    [name |-> OrElse(cmd.name, "manager"),
     token |-> OrElse(cmd.token, "null"),
     server |-> IF cmd.action = "subscribe" THEN cmd.server
                ELSE [k |-> "none", v |-> 0],
     persisted |-> cmd.action = "subscribe" /\ cmd.persisted]

------------------------------------------------------------------------------
\* Requests

ExpPayload(cmd) ==
    LET kind == IF Given(cmd.ptype)
                THEN CASE cmd.ptype.v \in {"json", "yaml", "toml"} -> "json"
                       [] cmd.ptype.v = "binary" -> "binary"
                       [] cmd.ptype.v = "none" -> "none"
                ELSE IF cmd.path \in {"-", ".json", ".yaml", ".yml", ".toml"}
                     THEN "json" ELSE "binary"
    IN [k |-> kind,
        type |-> IF kind = "binary" THEN OrElse(cmd.btype, "") ELSE "",
        same |-> TRUE]

ExpReqs(cmd) ==
    CASE cmd.action = "register" ->
            <<[kind |-> "register", type |-> cmd.type,
               sts |-> ExpTime(cmd.sts), payload |-> ExpPayload(cmd)]>>
      [] cmd.action = "latest" ->
            <<[kind |-> "latest", has_types |-> cmd.has_types,
               types |-> cmd.types]>>
      [] cmd.action = "timeseries" ->
            <<[kind |-> "timeseries", has_types |-> cmd.has_types,
               types |-> cmd.types, tf |-> ExpTime(cmd.tf),
               tt |-> ExpTime(cmd.tt), stf |-> ExpTime(cmd.stf),
               stt |-> ExpTime(cmd.stt),
               order |-> OrElse(cmd.order, "DESCENDING"),
               order_by |-> OrElse(cmd.order_by, "TIMESTAMP"),
               max |-> cmd.max, lid |-> cmd.lid]>>
      [] cmd.action = "server" ->
            <<[kind |-> "server", server |-> cmd.server,
               persisted |-> cmd.persisted, max |-> cmd.max,
               lid |-> cmd.lid]>>
      [] OTHER -> <<>>

------------------------------------------------------------------------------
\* Output

\* Wanted(cmd, e) - is event of interest to the subscriber
ExpOut(cmd, Wanted(_, _)) ==
    CASE IsQuery(cmd) -> <<[events |-> cmd.result, more |-> cmd.more]>>
      [] cmd.action = "subscribe" ->
            LET all == [i \in DOMAIN cmd.batches |->
                          [events |->
                             IF cmd.batches[i].persisted # cmd.persisted
                             THEN <<>>
                             ELSE SelectSeq(cmd.batches[i].events,
                                            LAMBDA e : Wanted(cmd, e)),
                           more |-> FALSE]]
            IN SelectSeq(all, LAMBDA x : x.events # <<>>)
      [] OTHER -> <<>>

ExpCode(cmd) == IF cmd.action = "register" /\ ~cmd.ok THEN 1 ELSE 0
=============================================================================
