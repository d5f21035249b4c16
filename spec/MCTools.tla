------------------------------ MODULE MCTools ------------------------------
(* Exhaustive check of database tools: histories of MCStorage where the     *)
(* database is copied (closed or in use), converted and continued on the    *)
(* result.                                                                  *)
EXTENDS MCStorage, Tools

VARIABLE uses     \* number of tools used

mtvars == <<mcvars, tvars, uses>>

MaxUses == 2

MTInit == MCInit /\ other = EmptyDisk /\ ident = "" /\ uses = 0

MTStep ==
    /\ \/ MCRegister \/ MCFlushBegin \/ MCFlushCommit \/ MCCleanup \/ MCCrash
       \/ MCClose \/ MCOpen
    /\ UNCHANGED <<tvars, uses>>

MTCopy ==
    /\ uses < MaxUses
    /\ uses' = uses + 1
    /\ \E a, b \in BOOLEAN : Copy(a, b)
    /\ UNCHANGED <<hist, reported, snapped, crashes, nbatches, ident>>

MTConvert ==
    /\ uses < MaxUses
    /\ uses' = uses + 1
    /\ \E v \in {"v06", "v07"} : Convert(v)
    /\ UNCHANGED <<hist, reported, snapped, crashes, nbatches, ident>>

MTSwitch ==
    /\ other # EmptyDisk
    /\ Switch
    /\ hist' = <<disk'>>
    /\ reported' = 0
    /\ snapped' = 0
    /\ UNCHANGED <<crashes, nbatches, ident, uses>>

MTNext == MTStep \/ MTCopy \/ MTConvert \/ MTSwitch

MTSpec == MTInit /\ [][MTNext]_mtvars

------------------------------------------------------------------------------

\* a copy without skipped parts is the durable state, skipped parts are empty
\* and everything else is kept
CopyEquivalent ==
    [][MTCopy =>
         /\ other'.last = disk.last
         /\ other'.latest \in {{}, disk.latest}
         /\ \/ Same(other', disk)
            \/ other'.latest = {} /\ other'.ts = disk.ts
            \/ other'.latest = disk.latest /\ StoredEvents(other') =
                                              disk.latest
            \/ StoredEvents(other') = {}]_mtvars

\* the original isn't changed
OriginalKept == [][MTCopy \/ MTConvert => disk' = disk]_mtvars

\* every event is kept and last ids cover all of them
ConvertKeeps ==
    [][MTConvert =>
         /\ other'.latest = disk.latest
         /\ other'.ts = disk.ts
         /\ \A e \in StoredEvents(disk) :
              /\ Ev(e).srv \in DOMAIN other'.last
              /\ ~IdLess(other'.last[Ev(e).srv], e)]_mtvars
=============================================================================
