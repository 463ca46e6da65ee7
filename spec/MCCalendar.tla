----------------------------- MODULE MCCalendar -----------------------------
(***************************************************************************)
(* Every day from 1970-01-01 to 9999-12-31 (or every Stride-th block of    *)
(* 1000 days): the arithmetic of Calendar agrees with the calendar rules   *)
(* applied day by day.                                                     *)
(***************************************************************************)
EXTENDS Calendar

CONSTANT Stride
VARIABLES day, date

Block == 1000

(* Many starting points, so that the days are checked side by side; that    *)
(* the blocks connect is what LinkOK says.                                  *)
Init == /\ day \in {Block * k : k \in {j \in 0..(LastDay \div Block) : j % Stride = 0}}
        /\ date = Civil(day)

Next == /\ day < LastDay
        /\ (day + 1) % Block # 0
        /\ day' = day + 1
        /\ date' = NextDay(date)

FirstOK == day = 0 => date = [y |-> 1970, m |-> 1, d |-> 1]
Agrees == date = Civil(day)
LinkOK == (day + 1) % Block = 0 /\ day < LastDay => NextDay(date) = Civil(day + 1)
LastOK == day = LastDay => date = [y |-> 9999, m |-> 12, d |-> 31]
InverseOK == DayNumber(date.y, date.m, date.d) = day
Texts == LET t == [d |-> day, s |-> (day * 719) % 86400, n |-> 0]
         IN  IsBasicText(BasicText(t)) /\ BasicInstant(BasicText(t)) = t
=============================================================================
