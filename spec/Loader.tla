------------------------------- MODULE Loader -------------------------------
(* C07. Gridded loaders as functions of the request.  Times and leads are in  *)
(* minutes (times since 1970-01-01 UTC).                                      *)
EXTENDS VLib, Calendar
TimeOf(m) == [d |-> m \div 1440, s |-> (m % 1440) * 60]
Valid(i, l) == i + l
\* Source time needed by each kind of time-addressed loader.
TargetTime(i, l) == Valid(i, l)
PersistenceTime(i, l) == i
\* Same day of year and hour of the day in another year (a day-366 request in a
\* common year is the first day of the next year).
YearTime(y, t) == (DayNumber(y, 1, 1) + DayOfYear(TimeOf(t).d) - 1) * 1440 + 60 * TimeHour(TimeOf(t))
ClimKey(unit, t) == TimeUnit(TimeOf(t), unit)
\* Post-processing steps, in order: p = [a, b, nanat]: values equal to nanat
\* become missing, the others v -> a*v + b.
Process(p, v) == IF v = NaN \/ (p.usenan /\ v = p.nanat) THEN NaN ELSE p.a * v + p.b
\* An interpolation stand-in: v -> 2v + c, missing values become f.
Interp(q, v) == IF v = NaN THEN q.fill ELSE 2 * v + q.c
=============================================================================
