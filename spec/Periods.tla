------------------------------ MODULE Periods ------------------------------
(* TP-Validity-Period of 3GPP TS 23.040 9.2.3.12 and time stamps           *)
EXTENDS Integers, Sequences, FiniteSets

(* the period, in seconds, of each relative octet *)
Period == [v \in 0..255 |->
    IF v <= 143 THEN (v + 1) * 300
    ELSE IF v <= 167 THEN 43200 + (v - 143) * 1800
    ELSE IF v <= 196 THEN (v - 166) * 86400
    ELSE (v - 192) * 604800]
MinPeriod == 300
MaxPeriod == 63 * 604800
(* secs seconds and us microseconds is in the representable range *)
InRange(secs, us) == secs >= MinPeriod /\ (secs < MaxPeriod \/ (secs = MaxPeriod /\ us = 0))
(* v is the greatest representable period not above secs *)
IsFloor(v, secs) ==
    /\ v \in 0..255
    /\ Period[v] <= secs
    /\ v < 255 => Period[v + 1] > secs

(* semi-octet swapped two digit field *)
Bcd(n) == (n \div 10) + 16 * (n % 10)
UnBcd(o) == 10 * (o % 16) + (o \div 16)
BcdOk(o) == o % 16 < 10 /\ o \div 16 < 10
Abs(n) == IF n < 0 THEN -n ELSE n
(* the zone octet of an offset in minutes: quarters, sign in bit 3 *)
ZoneOctet(min) ==
    LET q == Abs(min) \div 15
    IN Bcd(q) + (IF min < 0 THEN 8 ELSE 0)
ZoneMinutes(o) ==
    LET q == 10 * (o % 8) + (o \div 16)
    IN IF (o \div 8) % 2 = 1 THEN -15 * q ELSE 15 * q
(* d = <<year, month, day, hour, minute, second>> *)
Stamp(d, min) == << Bcd(d[1] % 100), Bcd(d[2]), Bcd(d[3]), Bcd(d[4]), Bcd(d[5]),
                    Bcd(d[6]), ZoneOctet(min) >>

(* ---- calendar ------------------------------------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(d) == /\ d[2] \in 1..12
                /\ d[3] \in 1..MonthDays(d[1], d[2])
                /\ d[4] \in 0..23 /\ d[5] \in 0..59 /\ d[6] \in 0..59
(* days since 1970-01-01 of a civil date (years 1969..2105) *)
DaysTo(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
Civil(z0) ==       \* inverse of DaysTo: <<y, m, d>>
    LET z == z0 + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        y == yoe + era * 400
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN << IF m <= 2 THEN y + 1 ELSE y, m, d >>
(* a date shifted by minutes *)
ShiftMinutes(d, min) ==
    LET t == d[4] * 60 + d[5] + min
        dd == t \div 1440            \* floor: TLC's \div rounds down
        r == t - dd * 1440
        c == Civil(DaysTo(d[1], d[2], d[3]) + dd)
    IN << c[1], c[2], c[3], r \div 60, r % 60, d[6] >>
(* %y of the C library: 69..99 are 19xx *)
FullYear(yy) == IF yy >= 69 THEN 1900 + yy ELSE 2000 + yy
=============================================================================
