------------------------------- MODULE Clock --------------------------------
(* Dates, and the line a generated module starts with. Times are days since  *)
(* the first of January 1970 and seconds of the day, in UTC.                 *)
EXTENDS Integers, Sequences, TLC

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31

(* The date of a day, counting in eras of 400 years which start in March.    *)
Civil(d) ==
  LET z   == d + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m,
       d |-> doy - (153 * mp + 2) \div 5 + 1]
WeekDay(d) == (d + 4) % 7                     \* 0 is a Sunday

DayNames == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonthNames == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>

Two(n)  == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Four(n) == (IF n < 1000 THEN "0" ELSE "") \o Two(n \div 100) \o Two(n % 100)

(* RFC 2822. A day below ten may be written with one digit or with two.      *)
Stamps(t) ==
  LET c == Civil(t.d)
      Text(day) == DayNames[WeekDay(t.d) + 1] \o ", " \o day \o " " \o MonthNames[c.m] \o " "
                     \o (IF c.y < 1000 THEN Four(c.y) ELSE ToString(c.y)) \o " "
                     \o Two(t.s \div 3600) \o ":" \o Two((t.s \div 60) % 60) \o ":" \o Two(t.s % 60) \o " +0000"
  IN  {Text(day) : day \in {ToString(c.d), Two(c.d)}}
Headers(version, t) == {"// Generated by packetc v" \o version \o " at " \o x : x \in Stamps(t)}
=============================================================================
