--------------------------------- MODULE Dates ---------------------------------
(* Git's date formats.  An instant is a number of days since the epoch and a     *)
(* second of that day; its unix time is kept as a decimal string.                 *)
EXTENDS Strs
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
(* days since 1970-01-01: years start in March, eras have 400 years *)
Days(y, m, d) ==
  LET yy == y - (IF m <= 2 THEN 1 ELSE 0)
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
WeekDay(days) == (days + 4) % 7                          \* 0 is Sunday
DayNames == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonthNames == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>

Norm(days, secs) == [d |-> days + secs \div 86400, s |-> secs % 86400]
Pad(n, w) == Repeat("0", w - Len(ToString(n))) \o ToString(n)
(* the decimal number d * 86400 + s, in two parts because integers have 32 bits *)
Unix(i) ==
  LET low == 86400 * (i.d % 100) + i.s
      q == 864 * (i.d \div 100) + low \div 10000
      r == low % 10000
      pos(a, b) == IF a = 0 THEN ToString(b) ELSE ToString(a) \o Pad(b, 4)
  IN IF q >= 0 THEN pos(q, r)
     ELSE "-" \o (IF r = 0 THEN pos(-q, 0) ELSE pos(-q - 1, 10000 - r))

(* a local time: date, second of the day and the zone's offset in minutes *)
Instant(f) == Norm(Days(f.y, f.mo, f.d), f.h * 3600 + f.mi * 60 + f.s - f.off * 60)
Zone(off, sep) ==
  LET a == IF off < 0 THEN -off ELSE off IN (IF off < 0 THEN "-" ELSE "+") \o Pad(a \div 60, 2) \o sep \o Pad(a % 60, 2)
Clock(f) == Pad(f.h, 2) \o ":" \o Pad(f.mi, 2) \o ":" \o Pad(f.s, 2)
Ymd(f) == Pad(f.y, 4) \o "-" \o Pad(f.mo, 2) \o "-" \o Pad(f.d, 2)
Dow(f) == DayNames[WeekDay(Days(f.y, f.mo, f.d)) + 1]
Formats == {"iso", "strict", "zulu", "rfc", "short", "default", "local", "unix", "raw"}
Render(fmt, f) ==
  CASE fmt = "iso" -> Ymd(f) \o " " \o Clock(f) \o " " \o Zone(f.off, "")
    [] fmt = "strict" -> Ymd(f) \o "T" \o Clock(f) \o Zone(f.off, ":")
    [] fmt = "zulu" -> Ymd(f) \o "T" \o Clock(f) \o "Z"
    [] fmt = "rfc" -> Dow(f) \o ", " \o ToString(f.d) \o " " \o MonthNames[f.mo] \o " " \o Pad(f.y, 4) \o " " \o Clock(f) \o " " \o Zone(f.off, "")
    [] fmt = "short" -> Ymd(f)
    [] fmt = "default" -> Dow(f) \o " " \o MonthNames[f.mo] \o " " \o ToString(f.d) \o " " \o Clock(f) \o " " \o Pad(f.y, 4) \o " " \o Zone(f.off, "")
    [] fmt = "local" -> Dow(f) \o " " \o MonthNames[f.mo] \o " " \o ToString(f.d) \o " " \o Clock(f) \o " " \o Pad(f.y, 4)
    [] fmt = "unix" -> Unix(Instant(f))
    [] fmt = "raw" -> Unix(Instant(f)) \o " " \o Zone(f.off, "")

---------------------------------------------------------------------------
(* Recognition.  In a pattern Y M D h m s z x stand for digits of the year,      *)
(* month, day, hour, minute, second and the zone's hours and minutes, + for a     *)
(* sign, W and B for letters of a week day and a month; all else is itself.       *)
Fixed == {"YYYY-MM-DD hh:mm:ss +zzxx", "YYYY-MM-DDThh:mm:ss+zz:xx", "YYYY-MM-DDThh:mm:ssZ", "YYYY-MM-DD"}
Named == {"WWW, D BBB YYYY hh:mm:ss +zzxx", "WWW, DD BBB YYYY hh:mm:ss +zzxx",
          "WWW BBB D hh:mm:ss YYYY +zzxx", "WWW BBB DD hh:mm:ss YYYY +zzxx",
          "WWW BBB D hh:mm:ss YYYY", "WWW BBB DD hh:mm:ss YYYY"}
(* how the implementation of a format may be more lenient than git is precise:   *)
(* an hour of one digit                                                           *)
Loose == {"YYYY-MM-DD h:mm:ss +zzxx", "YYYY-MM-DDTh:mm:ss+zz:xx", "YYYY-MM-DDTh:mm:ssZ",
          "WWW, D BBB YYYY h:mm:ss +zzxx", "WWW, DD BBB YYYY h:mm:ss +zzxx",
          "WWW BBB D h:mm:ss YYYY +zzxx", "WWW BBB DD h:mm:ss YYYY +zzxx",
          "WWW BBB D h:mm:ss YYYY", "WWW BBB DD h:mm:ss YYYY"}
Fits(p, s) ==
  Len(p) = Len(s) /\ \A i \in 1..Len(p) :
    LET c == Ch(p, i) x == Ch(s, i) IN
    CASE c \in {"Y", "M", "D", "h", "m", "s", "z", "x"} -> x \in Digits
      [] c = "+" -> x \in {"+", "-"}
      [] c \in {"W", "B"} -> TRUE
      [] OTHER -> x = c
(* where each field stands in a pattern *)
Fields == {"Y", "M", "D", "h", "m", "s", "z", "x", "W", "B", "+"}
Patterns == Fixed \cup Named \cup Loose \cup {"+zzxx"}
Spans == TLCEval([p \in Patterns |-> [c \in Fields |->
           LET at == {q \in 1..Len(p) : Ch(p, q) = c}
           IN IF at = {} THEN <<1, 0>> ELSE <<CHOOSE a \in at : \A b \in at : a <= b, CHOOSE a \in at : \A b \in at : a >= b>>]])
Part(p, s, c) == LET a == Spans[p][c] IN IF a[2] = 0 THEN "" ELSE SubSeq(s, a[1], a[2])
Has(p, c) == Spans[p][c][2] # 0
Num(t) == FoldLeft(LAMBDA a, c : 10 * a + Ord(c) - 48, 0, Chars(t))
Caps == {Byte(64 + i) : i \in 1..26}
Lower(t) == Concat([i \in 1..Len(t) |-> IF Ch(t, i) \in Caps THEN Byte(Ord(Ch(t, i)) + 32) ELSE Ch(t, i)])
LowerNames(names) == [i \in DOMAIN names |-> Lower(names[i])]
LowMonths == TLCEval(LowerNames(MonthNames))
LowDays == TLCEval(LowerNames(DayNames))
PosIn(names, t) == IF \E i \in 1..Len(names) : names[i] = t THEN CHOOSE i \in 1..Len(names) : names[i] = t ELSE 0
FieldsOf(p, s) ==
  LET mon == IF Has(p, "B") THEN PosIn(LowMonths, Lower(Part(p, s, "B"))) ELSE Num(Part(p, s, "M"))
      zone == Num(Part(p, s, "z")) * 60 + Num(Part(p, s, "x"))
  IN [y |-> Num(Part(p, s, "Y")), mo |-> mon, d |-> Num(Part(p, s, "D")), h |-> Num(Part(p, s, "h")),
      mi |-> Num(Part(p, s, "m")), s |-> Num(Part(p, s, "s")), off |-> IF Part(p, s, "+") = "-" THEN -zone ELSE zone]
HasZone(p) == Has(p, "+") \/ LastCh(p) = "Z"
Possible(p, s, f) ==
  /\ IsDate(f.y, f.mo, f.d) /\ f.h < 24 /\ f.mi < 60 /\ f.s < 60
  /\ Has(p, "W") => PosIn(LowDays, Lower(Part(p, s, "W"))) # 0
(* what git never writes but an implementation may read *)
Odd(p, s, f) ==
  \/ p \in Loose
  \/ Has(p, "W") /\ Part(p, s, "W") # Dow(f)
  \/ Has(p, "B") /\ PosIn(MonthNames, Part(p, s, "B")) = 0
  \/ Has(p, "+") /\ (Num(Part(p, s, "z")) > 23 \/ Num(Part(p, s, "x")) > 59)
  \/ Has(p, "B") /\ HasPrefix(Part(p, s, "D"), "0")
RawParts(s) == LET i == Index(s, " ", 1) IN [unix |-> UpTo(s, i - 1), zone |-> From(s, i + 1)]
IsInt(t) == LET u == TrimPrefix(t, "-") IN u # "" /\ \A i \in 1..Len(u) : Ch(u, i) \in Digits
IntOf(t) == IF HasPrefix(t, "-") THEN LET u == Dec63(From(t, 2)) IN IF u = "" THEN "" ELSE IF u = "0" THEN "0" ELSE "-" \o u ELSE Dec63(t)

No == [is |-> "no", unix |-> "", zone |-> "", off |-> 0]
Unclear == [No EXCEPT !.is = "unclear"]
MinInt64 == "-9223372036854775808"
At(unix, zone, off) == [is |-> "yes", unix |-> unix, zone |-> zone, off |-> off]
(* The local zone of the process: five and a half hours ahead until 2012, eight    *)
(* hours behind since, one hour more in summer.  Near a change a local time may    *)
(* be skipped or repeated.                                                         *)
Changes(y) == {Days(y, 4, 10), Days(y, 10, 20)} \cup IF y \in {2011, 2012} THEN {Days(2012, 1, 1)} ELSE {}
LocalOff(f) ==
  LET day == Days(f.y, f.mo, f.d)
      summer == f.y \in 1800..2299 /\ day > Days(f.y, 4, 10) /\ day < Days(f.y, 10, 20)
  IN (IF f.y < 2012 THEN 330 ELSE -480) + IF summer THEN 60 ELSE 0
Unambiguous(f) == \A c \in Changes(f.y) : Days(f.y, f.mo, f.d) \notin (c - 1)..(c + 1)
AtLocal(f) == IF Unambiguous(f) THEN At(Unix(Instant([f EXCEPT !.off = LocalOff(f)])), "local", LocalOff(f)) ELSE Unclear
(* what a rendering denotes *)
Denoted(fmt, f) ==
  CASE fmt = "short" -> AtLocal([f EXCEPT !.h = 0, !.mi = 0, !.s = 0])
    [] fmt = "local" -> AtLocal(f)
    [] fmt = "zulu" -> At(Unix(Instant([f EXCEPT !.off = 0])), "stated", 0)
    [] fmt = "unix" -> At(Unix(Instant(f)), "any", 0)
    [] OTHER -> At(Unix(Instant(f)), "stated", f.off)
ParseDate(s) ==
  LET P == {r \in {[p |-> p, f |-> FieldsOf(p, s)] : p \in {p \in Patterns : Fits(p, s)}} : Possible(r.p, s, r.f)}
      r == CHOOSE r \in P : TRUE
      p == r.p
      f == r.f
      raw == RawParts(s)
      zf == FieldsOf("+zzxx", raw.zone)
  IN CASE s = "" -> [No EXCEPT !.is = "zero"]
       [] P # {} -> IF Odd(p, s, f) THEN Unclear
                    ELSE IF HasZone(p) THEN At(Unix(Instant(f)), "stated", f.off)
                    ELSE AtLocal(f)
       [] IsInt(s) -> IF s = MinInt64 THEN Unclear ELSE IF IntOf(s) = "" THEN No ELSE At(IntOf(s), "any", 0)
       [] HasSub(s, " ") /\ IsInt(raw.unix) /\ IntOf(raw.unix) # "" /\ Fits("+zzxx", raw.zone) ->
            IF Odd("+zzxx", raw.zone, zf) THEN Unclear ELSE At(IntOf(raw.unix), "stated", zf.off)
       [] HasSub(s, "  ") \/ HasPrefix(s, "+") \/ HasPrefix(s, MinInt64) \/ \E c \in {".", ","}, d \in Digits : HasSub(s, c \o d) -> Unclear
       [] OTHER -> No
=============================================================================
