------------------------------- MODULE MCCalendar -------------------------------
(* C23: the calendar counted year by year from the epoch and then day by day: the *)
(* closed form agrees with counting, and every day is emitted in two formats.     *)
EXTENDS Dates
CONSTANTS From0, To0
VARIABLES year, month, day, count, week
vars == <<year, month, day, count, week>>
YearLen(a) == IF Leap(a) THEN 366 ELSE 365
(* days from the epoch to the start of a year *)
YearStart(a) == IF a >= 1970 THEN FoldLeft(LAMBDA t, b : t + YearLen(1969 + b), 0, [i \in 1..(a - 1970) |-> i])
                ELSE FoldLeft(LAMBDA t, b : t - YearLen(1970 - b), 0, [i \in 1..(1970 - a) |-> i])
Init == /\ year \in From0..To0 /\ month = 1 /\ day = 1
        /\ count = YearStart(year) /\ week = (count + 4) % 7
Next == /\ ~(month = 12 /\ day = 31)
        /\ count' = count + 1 /\ week' = (week + 1) % 7
        /\ day' = (IF day = MonthLen(year, month) THEN 1 ELSE day + 1)
        /\ month' = (IF day < MonthLen(year, month) THEN month ELSE month + 1)
        /\ UNCHANGED year
Counted == IsDate(year, month, day) /\ Days(year, month, day) = count /\ WeekDay(count) = week
F == [y |-> year, mo |-> month, d |-> day, h |-> 0, mi |-> 0, s |-> 0, off |-> 0]
Sunday == DayNames[week + 1] = Dow(F)
(* quantified over singletons so that they are computed once *)
Read == \A a \in {Render("short", F)}, b \in {Render("rfc", F)} :
        \A u \in {ParseDate(a)}, v \in {ParseDate(b)} :
          /\ Unambiguous(F) => u = At(Unix(Norm(count, -60 * LocalOff(F))), "local", LocalOff(F))
          /\ v = At(Unix(Norm(count, 0)), "stated", 0)
          /\ PrintT(ToJson([s |-> a, want |-> u])) /\ PrintT(ToJson([s |-> b, want |-> v]))
=============================================================================
