----------------------------- MODULE Timestamps -----------------------------
(* Timestamps as [s, us] where s is the number of seconds since 1970 plus  *)
(* 2^63, written as 4 limbs of 16 bits (the most significant is first).    *)
EXTENDS Naturals, Integers, Sequences

Limb == 65536

\* 12 bytes, big endian
ToBytes(t) ==
    [i \in 1..8 |-> LET x == t.s[(i + 1) \div 2]
                    IN IF i % 2 = 1 THEN x \div 256 ELSE x % 256] \o
    <<t.us \div 16777216, (t.us \div 65536) % 256, (t.us \div 256) % 256,
      t.us % 256>>

LexLess(a, b) ==
    \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

TsLess(a, b) == \/ LexLess(a.s, b.s)
                \/ a.s = b.s /\ a.us < b.us

\* a + b + carry modulo 2^64
AddLimbs(a, b, carry) ==
    LET s4 == a[4] + b[4] + carry
        s3 == a[3] + b[3] + s4 \div Limb
        s2 == a[2] + b[2] + s3 \div Limb
        s1 == a[1] + b[1] + s2 \div Limb
    IN <<s1 % Limb, s2 % Limb, s3 % Limb, s4 % Limb>>

\* d is [s, us] - duration with s in two's complement and us \in 0..999999
TsAdd(t, d) ==
    LET us == t.us + d.us
    IN [s  |-> AddLimbs(t.s, d.s, us \div 1000000),
        us |-> us % 1000000]

------------------------------------------------------------------------------
\* Proleptic Gregorian calendar, day 0 is 1970-01-01

CivilFromDays(day) ==
    LET z == day + 719468
        era == z \div 146097               \* \div rounds down
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096)
                 \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN <<y, m, d>>
=============================================================================
