------------------------------- MODULE MCSync -------------------------------
(* Algorithm of synchronisation over a connection with delays, checked     *)
(* against the copy of Sync.tla.                                           *)
(*                                                                         *)
(* The client first asks for all events after its last one, storing whole  *)
(* sessions, meanwhile it keeps notifications; then the kept ones are      *)
(* stored, and afterwards each one as it arrives.                          *)
EXTENDS Sync, Integers, FiniteSets, TLC

CONSTANTS
    Sizes,      \* sizes of remote sessions
    MaxResults, \* of a query
    MaxFaults,
    FilterKept, \* kept notifications are filtered by event id
    KeepLast    \* incomplete last session waits for the next result

VARIABLES
    next,       \* next remote session
    chan,       \* messages to the client
    asked,      \* 0 or 1 + last event of the query which is not answered
    ph,         \* "off", "idle", "wait", "keep", "live"
    last,       \* last event obtained
    buf,        \* obtained events which aren't stored
    kept,       \* kept notifications
    faults,
    bad         \* an attempt of a wrong store or report

mcvars == <<yvars, next, chan, asked, ph, last, buf, kept, faults, bad>>
cvars == <<chan, asked, ph, last, buf, kept>>

SizesA == <<2, 1, 3>>
SizesB == <<1, 2, 2, 1>>
SizesC == <<1, 3, 2, 1, 2, 4, 1>>

Init == /\ YInit
        /\ next = 1 /\ chan = <<>> /\ asked = 0 /\ ph = "off" /\ last = 0
        /\ buf = <<>> /\ kept = <<>> /\ faults = 0 /\ bad = FALSE

Min(a, b) == IF a < b THEN a ELSE b

\* the remote server persists 1 or 2 sessions and announces each of them
Persist ==
    /\ next <= Len(Sizes)
    /\ \E n \in 1..2 :
         /\ next + n - 1 <= Len(Sizes)
         /\ LET first(s) == Len(rem) + 1 +
                    (IF s = 2 THEN Sizes[next] ELSE 0)
                Session(s) == [i \in 1..Sizes[next + s - 1] |-> next + s - 1]
                Msg(s) == [kind |-> "notify", a |-> first(s),
                           b |-> first(s) + Sizes[next + s - 1] - 1,
                           more |-> FALSE]
            IN /\ DoPersist(IF n = 1 THEN Session(1)
                            ELSE Session(1) \o Session(2))
               /\ chan' = IF ph = "off" THEN chan
                          ELSE IF n = 1 THEN Append(chan, Msg(1))
                          ELSE chan \o <<Msg(1), Msg(2)>>
         /\ next' = next + n
    /\ UNCHANGED <<asked, ph, last, buf, kept, faults, bad>>

Connect ==
    /\ ph = "off"
    /\ DoOpen
    /\ ph' = "idle" /\ chan' = <<>> /\ asked' = 0 /\ last' = stored
    /\ buf' = <<>> /\ kept' = <<>>
    /\ UNCHANGED <<next, faults, bad>>

Ask ==
    /\ ph = "idle"
    /\ asked' = last + 1
    /\ ph' = "wait"
    /\ IF state.phase = "none" THEN DoReport("CONNECTED") ELSE UNCHANGED yvars
    /\ UNCHANGED <<next, chan, last, buf, kept, faults, bad>>

\* server executes the query
Respond ==
    /\ asked > 0
    /\ LET b == Min(Len(rem), asked - 1 + MaxResults)
       IN chan' = Append(chan, [kind |-> "result", a |-> asked, b |-> b,
                                more |-> b < Len(rem)])
    /\ asked' = 0
    /\ UNCHANGED <<yvars, next, ph, last, buf, kept, faults, bad>>

\* number of first elements of s which are complete sessions
RECURSIVE WholePrefix(_)
WholePrefix(s) ==
    IF s = <<>> THEN 0
    ELSE IF rem[s[1]] = rem[s[Len(s)]] THEN 0
    ELSE LET n == Cardinality({i \in DOMAIN s : rem[s[i]] = rem[s[1]]})
         IN n + WholePrefix(SubSeq(s, n + 1, Len(s)))

Store(a, b) ==
    /\ bad' = (bad \/ ~CanStore(a, b))
    /\ stored' = IF b > stored THEN b ELSE stored

GetResult ==
    /\ ph = "wait" /\ chan # <<>> /\ Head(chan).kind = "result"
    /\ LET m == Head(chan)
           all == buf \o [i \in 1..(m.b - m.a + 1) |-> m.a + i - 1]
           n == IF m.more /\ KeepLast THEN WholePrefix(all) ELSE Len(all)
           got == m.b - m.a + 1
       IN /\ IF n > 0 THEN Store(all[1], all[n])
             ELSE UNCHANGED <<stored, bad>>
          /\ buf' = SubSeq(all, n + 1, Len(all))
          /\ last' = IF got > 0 THEN m.b ELSE last
          /\ state' = [state EXCEPT
                !.got = @ + got, !.upto = IF got > 0 THEN m.b ELSE @,
                !.more = m.more,
                !.phase = IF got > 0 THEN "SYNCING" ELSE @]
          /\ ph' = IF m.more THEN "idle" ELSE "keep"
    /\ chan' = Tail(chan)
    /\ UNCHANGED <<rem, durable, next, asked, kept, faults>>

GetNotify ==
    /\ ph # "off" /\ chan # <<>> /\ Head(chan).kind = "notify"
    /\ LET m == Head(chan)
       IN IF ph = "live"
          THEN /\ Store(m.a, m.b)
               /\ UNCHANGED <<kept, rem, durable, state>>
          ELSE /\ kept' = Append(kept, m)
               /\ UNCHANGED <<yvars, bad>>
    /\ chan' = Tail(chan)
    /\ UNCHANGED <<next, asked, ph, last, buf, faults>>

StoreKept ==
    /\ ph = "keep" /\ kept # <<>>
    /\ LET m == Head(kept)
           a == IF FilterKept /\ m.a <= last THEN last + 1 ELSE m.a
       IN IF a > m.b THEN UNCHANGED <<yvars, bad>>
          ELSE Store(a, m.b) /\ UNCHANGED <<rem, durable, state>>
    /\ kept' = Tail(kept)
    /\ UNCHANGED <<next, chan, asked, ph, last, buf, faults>>

Live ==
    /\ ph = "keep" /\ kept = <<>>
    /\ bad' = (bad \/ ~CanReport("SYNCED", state.got))
    /\ DoReport("SYNCED")
    /\ ph' = "live"
    /\ UNCHANGED <<next, chan, asked, last, buf, kept, faults>>

Off == ph' = "off" /\ chan' = <<>> /\ asked' = 0 /\ buf' = <<>> /\ kept' = <<>>
         /\ UNCHANGED last

Cut ==
    /\ ph # "off" /\ faults < MaxFaults
    /\ faults' = faults + 1
    /\ DoClose /\ Off
    /\ UNCHANGED <<next, bad>>

Flush == durable # stored /\ DoFlush /\ UNCHANGED <<cvars, next, faults, bad>>

Crash ==
    /\ faults < MaxFaults
    /\ faults' = faults + 1
    /\ DoCrash /\ Off
    /\ UNCHANGED <<next, bad>>

Next == Persist \/ Connect \/ Ask \/ Respond \/ GetResult \/ GetNotify
        \/ StoreKept \/ Live \/ Cut \/ Flush \/ Crash

Progress == Connect \/ Ask \/ Respond \/ GetResult \/ GetNotify \/ StoreKept
            \/ Live

Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Progress)

------------------------------------------------------------------------------

\* Y01, Y02: every store extends the prefix by whole sessions, every SYNCED
\* is truthful
Correct == ~bad

PrefixOfSessions == stored > 0 => SessionEnd(stored)

EventuallyComplete == <>[](stored = Len(rem) /\ state.phase = "SYNCED")
=============================================================================
