------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Instants and their UTC rendering.  TLC's integers have 32 bits, so an   *)
(* instant is [d |-> days since 1970-01-01, s |-> second of the day,       *)
(* n |-> nanosecond], with d negative before 1970.                         *)
(***************************************************************************)
EXTENDS Bytes

IsInstant(t) == t.d \in Int /\ t.s \in 0..86399 /\ t.n \in 0..999999999

Before(a, b) == \/ a.d < b.d
                \/ a.d = b.d /\ a.s < b.s
                \/ a.d = b.d /\ a.s = b.s /\ a.n < b.n
NotAfter(a, b) == ~Before(b, a)

(* 1970-01-01T00:00:00Z .. 9999-12-31T23:59:59.999999999Z *)
LastDay == 2932896
InRange(t) == t.d >= 0 /\ t.d <= LastDay

(* Whole seconds from a to b, rounded down; only if a is not after b and   *)
(* they are at most 10000 days apart.                                      *)
WholeSeconds(a, b) == (b.d - a.d) * 86400 + (b.s - a.s) - (IF b.n < a.n THEN 1 ELSE 0)

(* Gregorian calendar date of day number d >= 0. *)
Civil(d) ==
  LET z == d + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      day == doy - (153 * mp + 2) \div 5 + 1
      month == IF mp < 10 THEN mp + 3 ELSE mp - 9
      year == yoe + era * 400 + (IF month <= 2 THEN 1 ELSE 0)
  IN  [y |-> year, m |-> month, d |-> day]

(* Its inverse. *)
DayNumber(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy % 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - 719468

(* An independent definition: the calendar rules, day by day; MCCalendar   *)
(* compares the two over the whole range.                                  *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                     [] m \in {4, 6, 9, 11} -> 30
                     [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
NextDay(c) == IF c.d < MonthDays(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
              ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1]
              ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

(* YYYYMMDD *)
DayText(t) == LET c == Civil(t.d) IN DecimalW(c.y, 4) \o DecimalW(c.m, 2) \o DecimalW(c.d, 2)

(* YYYYMMDD'T'HHMMSS'Z' *)
BasicText(t) ==
  DayText(t) \o <<84>> \o DecimalW(t.s \div 3600, 2) \o DecimalW((t.s \div 60) % 60, 2)
             \o DecimalW(t.s % 60, 2) \o <<90>>

(* Whether a text is a YYYYMMDD'T'HHMMSS'Z', and the instant it names. *)
Num(s, i, j) == NumVal(SubSeq(s, i, j))
IsBasicText(s) ==
  /\ Len(s) = 16
  /\ \A i \in (1..16) \ {9, 16} : s[i] \in Digit
  /\ s[9] = 84 /\ s[16] = 90
  /\ Num(s, 5, 6) \in 1..12
  /\ Num(s, 7, 8) \in 1..MonthDays(Num(s, 1, 4), Num(s, 5, 6))
  /\ Num(s, 10, 11) <= 23 /\ Num(s, 12, 13) <= 59 /\ Num(s, 14, 15) <= 59
BasicInstant(s) ==
  [d |-> DayNumber(Num(s, 1, 4), Num(s, 5, 6), Num(s, 7, 8)),
   s |-> Num(s, 10, 11) * 3600 + Num(s, 12, 13) * 60 + Num(s, 14, 15), n |-> 0]

(* t plus n whole seconds, n < 2^30 *)
Plus(t, n) == LET x == t.s + n IN [d |-> t.d + (x \div 86400), s |-> x % 86400, n |-> t.n]

(* YYYY-MM-DD'T'HH:MM:SS'Z' *)
Rfc3339Text(t) ==
  LET c == Civil(t.d)
  IN  DecimalW(c.y, 4) \o <<45>> \o DecimalW(c.m, 2) \o <<45>> \o DecimalW(c.d, 2)
      \o <<84>> \o DecimalW(t.s \div 3600, 2) \o <<58>> \o DecimalW((t.s \div 60) % 60, 2)
      \o <<58>> \o DecimalW(t.s % 60, 2) \o <<90>>
=============================================================================
