------------------------------- MODULE MCCli -------------------------------
(* Every command line with small option domains: a single option changes    *)
(* only what it names.                                                      *)
EXTENDS Cli

CONSTANT Full     \* complete domains

VARIABLE cmd

None(v) == [k |-> "none", v |-> v]

Times == {None(0), [k |-> "now", v |-> 0], [k |-> "time", v |-> 9],
          [k |-> "time", v |-> -1]}
Few == {None(0), [k |-> "time", v |-> 9]}
Ints == {None(0), [k |-> "int", v |-> 0], [k |-> "int", v |-> 2]}
Ids == {None(<<0, 0, 0>>), [k |-> "id", v |-> <<1, 2, 3>>]}
Orders == {None(""), [k |-> "word", v |-> "ASCENDING"],
           [k |-> "word", v |-> "DESCENDING"]}
OrderBys == {None(""), [k |-> "word", v |-> "TIMESTAMP"],
             [k |-> "word", v |-> "SOURCE_TIMESTAMP"]}
Names == {None(""), [k |-> "word", v |-> "x"]}
Types == {<<>>, <<<<"a", "*">>>>}
PTypes == {None("")} \union {[k |-> "word", v |-> v] :
                               v \in {"json", "yaml", "toml", "binary",
                                      "none"}}
Words == {None(""), [k |-> "word", v |-> "T"]}
Paths == {"-", ".json", ".yaml", ".yml", ".toml", ".bin", ""}

Answer == [result |-> <<1, 2>>, more |-> TRUE]

Latest == [action : {"latest"}, name : Names, token : Names,
           has_types : BOOLEAN, types : Types, result : {<<1, 2>>},
           more : {TRUE}]

Timeseries == [action : {"timeseries"}, name : {None("")},
               token : {None("")}, has_types : BOOLEAN, types : Types,
               tf : Times, tt : IF Full THEN Times ELSE {None(0)},
               stf : IF Full THEN Times ELSE Few, stt : {None(0)},
               order : Orders, order_by : OrderBys, max : Ints, lid : Ids,
               result : {<<1, 2>>}, more : {TRUE}]

Server == [action : {"server"}, name : Names, token : Names, server : {0, 1},
           persisted : BOOLEAN, max : Ints, lid : Ids, result : {<<1, 2>>},
           more : {TRUE}]

Registers == [action : {"register"}, name : Names, token : Names,
              type : {<<"a">>}, sts : Times, ptype : PTypes, btype : Words,
              path : Paths, ok : BOOLEAN]

Subscribes == [action : {"subscribe"}, name : Names, token : Names,
               types : Types, server : Ints, persisted : BOOLEAN,
               batches : {<<>>, <<[events |-> <<1>>, persisted |-> TRUE],
                                  [events |-> <<2>>, persisted |-> FALSE]>>}]

Init == \/ cmd \in Latest \/ cmd \in Timeseries \/ cmd \in Server
        \/ cmd \in Registers \/ cmd \in Subscribes

\* another value of a single option
Other(f, v) == [cmd EXCEPT ![f] = v]

Changed(c, d) == {f \in DOMAIN ExpReqs(c)[1] :
                    ExpReqs(c)[1][f] # ExpReqs(d)[1][f]}

Domains == [tf |-> Times, tt |-> Few, stf |-> Few, stt |-> Times,
            order |-> Orders, order_by |-> OrderBys, max |-> Ints,
            lid |-> Ids, has_types |-> BOOLEAN, types |-> Types,
            sts |-> Times]

Effective(f, v) ==
    CASE f = "order" -> OrElse(v, "DESCENDING")
      [] f = "order_by" -> OrElse(v, "TIMESTAMP")
      [] OTHER -> v

Next == \E f \in DOMAIN cmd \intersect DOMAIN Domains :
          \E v \in Domains[f] : cmd' = Other(f, v)

Spec == Init /\ [][Next]_cmd

OneOption ==
    [][\A f \in DOMAIN cmd \intersect DOMAIN Domains :
         (cmd' = Other(f, cmd'[f]) /\ Len(ExpReqs(cmd)) = 1) =>
           /\ Changed(cmd, cmd') =
                (IF Effective(f, cmd[f]) = Effective(f, cmd'[f])
                 THEN {} ELSE {f})
           /\ ExpConn(cmd) = ExpConn(cmd')]_cmd

WellFormed ==
    /\ cmd.action # "subscribe" => Len(ExpReqs(cmd)) = 1
    /\ cmd.action = "subscribe" => ExpReqs(cmd) = <<>>
    /\ (ExpCode(cmd) = 1) <=> (cmd.action = "register" /\ ~cmd.ok)
    /\ IsQuery(cmd) => ExpOut(cmd, LAMBDA c, e : TRUE)[1].events = <<1, 2>>
    /\ cmd.action = "register" =>
         LET p == ExpReqs(cmd)[1].payload
         IN /\ p.k = "none" <=> cmd.ptype.v = "none"
            /\ p.type # "" => p.k = "binary" /\ p.type = cmd.btype.v
            /\ Given(cmd.sts) <=> Given(ExpReqs(cmd)[1].sts)
=============================================================================
