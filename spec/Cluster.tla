------------------------------ MODULE Cluster ------------------------------
(* Servers of one installation as their users see them.                    *)
(*                                                                         *)
(* Each of the servers keeps history of its own events and copies of       *)
(* histories of other servers.  Only part of it is on the disk: a server   *)
(* which crashes starts again with what its disk contains.  The server     *)
(* which is blessed by the monitor creates events (in sessions, which are  *)
(* never split), others copy histories directly from their origin.         *)
EXTENDS Histories

CONSTANTS Nodes,          \* identifiers of servers
          CopyPersisted   \* copies are made of what is on the origin's disk

VARIABLES hist,       \* histories kept by a server, for each of origins
          disk,       \* and what of them is on its disk
          up,         \* servers which are running
          blessed,    \* server blessed by the monitor (or "none")
          active,     \* servers which create events
          acked       \* events announced as persisted, for each of servers

clusterVars == <<hist, disk, up, blessed, active, acked>>

---------------------------------------------------------------------------
Empty == [o \in Nodes |-> <<>>]

ClusterInit ==
    /\ hist = [n \in Nodes |-> Empty]
    /\ disk = [n \in Nodes |-> Empty]
    /\ up = Nodes
    /\ blessed = "none"
    /\ active = {}
    /\ acked = [n \in Nodes |-> {}]

Bless(n) ==
    /\ n \in up
    /\ blessed # n
    /\ blessed' = n
    /\ UNCHANGED <<hist, disk, up, active, acked>>

\* blessing is noticed with a delay, which is why two servers can be active
Activate(n) ==
    /\ n \in up
    /\ blessed = n
    /\ n \notin active
    /\ active' = active \cup {n}
    /\ UNCHANGED <<hist, disk, up, blessed, acked>>

Deactivate(n) ==
    /\ n \in active
    /\ blessed # n
    /\ active' = active \ {n}
    /\ UNCHANGED <<hist, disk, up, blessed, acked>>

Create(n, new) ==
    /\ n \in active
    /\ IsNextSession(n, hist[n][n], new)
    /\ hist' = [hist EXCEPT ![n][n] = @ \o new]
    /\ UNCHANGED <<disk, up, blessed, active, acked>>

Flush(n) ==
    /\ n \in up
    /\ disk[n] # hist[n]
    /\ disk' = [disk EXCEPT ![n] = hist[n]]
    /\ UNCHANGED <<hist, up, blessed, active, acked>>

\* events are announced after they are written
Announce(n) ==
    /\ n \in up
    /\ acked[n] # All(disk[n])
    /\ acked' = [acked EXCEPT ![n] = All(disk[n])]
    /\ UNCHANGED <<hist, disk, up, blessed, active>>

Source(o) == IF CopyPersisted THEN disk[o][o] ELSE hist[o][o]

\* one more session of origin o
Copy(n, o) ==
    /\ n # o
    /\ {n, o} \subseteq up
    /\ LET s == Source(o)
           have == hist[n][o]
       IN \E k \in DOMAIN s :
              /\ k > Len(have)
              /\ \A i \in Len(have) + 1 .. k :
                     s[i].s = s[Len(have) + 1].s
              /\ WholeSessions(SubSeq(s, 1, k), s)
              /\ hist' = [hist EXCEPT ![n][o] =
                              @ \o SubSeq(s, Len(have) + 1, k)]
    /\ UNCHANGED <<disk, up, blessed, active, acked>>

Down(n) ==
    /\ up' = up \ {n}
    /\ active' = active \ {n}
    /\ blessed' = IF blessed = n THEN "none" ELSE blessed
    /\ UNCHANGED acked

Crash(n) ==
    /\ n \in up
    /\ hist' = [hist EXCEPT ![n] = disk[n]]
    /\ UNCHANGED disk
    /\ Down(n)

Stop(n) ==
    /\ n \in up
    /\ disk' = [disk EXCEPT ![n] = hist[n]]
    /\ UNCHANGED hist
    /\ Down(n)

Start(n) ==
    /\ n \notin up
    /\ up' = up \cup {n}
    /\ UNCHANGED <<hist, disk, blessed, active, acked>>

---------------------------------------------------------------------------
(* Properties                                                              *)

\* copies never differ from the history they were made of
NoDivergence ==
    \A n, o \in Nodes : IsCopy(hist[n][o], hist[o][o])

\* position of an event says everything about its content
UniqueIds ==
    \A n, m \in Nodes : \A a \in All(hist[n]), b \in All(hist[m]) :
        (a.o = b.o /\ a.s = b.s /\ a.i = b.i) => a = b

OwnEvents ==
    \A n, o \in Nodes : \A e \in Elements(hist[n][o]) : e.o = o

\* what is announced as persisted survives
AckedSurvives == \A n \in Nodes : acked[n] \subseteq All(hist[n])

RecoveredDisk ==
    \A n, o \in Nodes : IsRecovered(disk[n][o], hist[n][o])

Complete == \A n, o \in Nodes : hist[n][o] = hist[o][o]

SingleActive == blessed # "none" /\ active = {blessed}
=============================================================================
