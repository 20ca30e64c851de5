----------------------------- MODULE MCCalendar -----------------------------
(* Day-by-day calendar (explicit state machine) against the closed form.      *)
EXTENDS Calendar, TLC
CONSTANTS Start, Days
VARIABLES n, y, m, d, doy, wd, wk, wy
vars == <<n, y, m, d, doy, wd, wk, wy>>
Leap(q) == (q % 4 = 0 /\ q % 100 # 0) \/ q % 400 = 0
MonthLen(q, k) == CASE k = 2 -> IF Leap(q) THEN 29 ELSE 28 [] k \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* 1 January of a common known year; weekday counted from 1970-01-01 (Thursday).
Init ==
  /\ y = Start /\ m = 1 /\ d = 1 /\ doy = 1
  /\ n = DayNumber(Start, 1, 1)
  /\ wd = Weekday(n) /\ wk = IsoWeek(n) /\ wy = YearOf(n - Weekday(n) + 3)
\* Days left in the year from tomorrow on, tomorrow included.
Tomorrow ==
  /\ n < DayNumber(Start, 1, 1) + Days
  /\ n' = n + 1 /\ wd' = (wd + 1) % 7
  /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y /\ doy' = doy + 1
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y /\ doy' = doy + 1
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ doy' = 1
  \* a Monday starts a week; week 1 is the one holding 4 January
  /\ IF wd' = 0
     THEN LET jan4near == (m' = 1 /\ d' <= 4) \/ (m' = 12 /\ d' >= 29)
          IN IF jan4near THEN wk' = 1 /\ wy' = (IF m' = 12 THEN y' + 1 ELSE y')
             ELSE wk' = wk + 1 /\ wy' = wy
     ELSE wk' = wk /\ wy' = wy
Done == n = DayNumber(Start, 1, 1) + Days /\ UNCHANGED vars
Next == Tomorrow \/ Done
Spec == Init /\ [][Next]_vars
ClosedFormAgrees ==
  /\ Civil(n) = [y |-> y, m |-> m, d |-> d]
  /\ DayNumber(y, m, d) = n
  /\ DayOfYear(n) = doy
  /\ Weekday(n) = wd
  /\ IsoWeek(n) = wk
  /\ TimeAdd([d |-> n, s |-> 0], -1) = [d |-> n - 1, s |-> 86399]
  /\ TimeAdd([d |-> n, s |-> 82800], 7200) = [d |-> n + 1, s |-> 3600]
=============================================================================
