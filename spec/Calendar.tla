------------------------------ MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar on day numbers (days since 1970-01-01), in    *)
(* closed form.  MCCalendar checks it against a day-by-day calendar.          *)
EXTENDS Integers, Sequences

\* Day number of year y, month m, day d.
DayNumber(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

Civil(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d]

YearOf(n) == Civil(n).y
MonthOf(n) == Civil(n).m
DayOf(n) == Civil(n).d
DayOfYear(n) == n - DayNumber(YearOf(n), 1, 1) + 1
\* Monday = 0.
Weekday(n) == (n + 3) % 7
IsoWeek(n) == LET th == n - Weekday(n) + 3 IN (th - DayNumber(YearOf(th), 1, 1)) \div 7 + 1
Quarter(n) == (MonthOf(n) + 2) \div 3

\* A time is [d |-> day number, s |-> second of the day].
TimeAdd(t, secs) == LET x == t.s + secs IN [d |-> t.d + x \div 86400, s |-> x % 86400]
TimeLE(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s <= b.s)
TimeLT(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s < b.s)
TimeHour(t) == t.s \div 3600
TimeUnit(t, unit) ==
  CASE unit = "year" -> YearOf(t.d)
    [] unit = "month" -> MonthOf(t.d)
    [] unit = "day" -> DayOf(t.d)
    [] unit = "dayofyear" -> DayOfYear(t.d)
    [] unit = "hour" -> t.s \div 3600
    [] unit = "minute" -> (t.s \div 60) % 60
    [] unit = "second" -> t.s % 60
    [] unit = "dayofweek" -> Weekday(t.d)
    [] unit = "week" -> IsoWeek(t.d)
    [] unit = "quarter" -> Quarter(t.d)
\* Units of a duration in seconds, counted in whole units (floor).
DurationUnit(secs, unit) ==
  CASE unit = "second" -> secs
    [] unit = "minute" -> secs \div 60
    [] unit = "hour" -> secs \div 3600
    [] unit = "day" -> secs \div 86400
    [] unit = "week" -> secs \div 604800
    [] unit = "year" -> secs \div 31536000
=============================================================================
