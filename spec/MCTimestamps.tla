---------------------------- MODULE MCTimestamps ----------------------------
(* Calendar: every day of four centuries follows the previous one; byte    *)
(* form orders like the timestamp; addition is exact.                      *)
EXTENDS Timestamps, TLC

CONSTANTS DaysBefore, LastDay

FirstDay == 0 - DaysBefore

VARIABLES day, a, b

Limbs == {0, 1, 255, 256, 32767, 32768, 65535}

Some == {<<x, y, y, z>> : x \in {32767, 32768}, y \in {0, 65535},
                          z \in {0, 255, 65535}}

Ts == [s : Some, us : {0, 255, 256, 999999}]

Init == day = FirstDay /\ a \in Ts /\ b \in Ts

Next == /\ a = CHOOSE x \in Ts : TRUE
        /\ b = a
        /\ day < LastDay
        /\ day' = day + 1
        /\ UNCHANGED <<a, b>>

Spec == Init /\ [][Next]_<<day, a, b>>

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)

DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

Follows(c, n) ==
    \/ n = <<c[1], c[2], c[3] + 1>> /\ c[3] < DaysIn(c[1], c[2])
    \/ n = <<c[1], c[2] + 1, 1>> /\ c[3] = DaysIn(c[1], c[2]) /\ c[2] < 12
    \/ n = <<c[1] + 1, 1, 1>> /\ c[2] = 12 /\ c[3] = 31

Calendar == Follows(CivilFromDays(day), CivilFromDays(day + 1))

Epoch == CivilFromDays(0) = <<1970, 1, 1>>

BytesOrdered == TsLess(a, b) <=> LexLess(ToBytes(a), ToBytes(b))

BytesInjective == a = b <=> ToBytes(a) = ToBytes(b)

\* adding a duration is adding 0 or more and is undone by its complement
AddOrdered == LET d == [s |-> <<0, 0, 0, 1>>, us |-> 999999]
                  r == TsAdd(a, d)
              IN /\ r.us \in 0..999999
                 /\ a.s[1] = 32767 => TsLess(a, r) \/ a.s = <<32767, 65535, 65535, 65535>>
                 /\ TsAdd(r, [s |-> <<65535, 65535, 65535, 65534>>,
                              us |-> 1]) =
                    TsAdd(a, [s |-> <<0, 0, 0, 0>>, us |-> 0])
=============================================================================
