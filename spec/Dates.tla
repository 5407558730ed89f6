-------------------------------- MODULE Dates -------------------------------
(* Calendar days and the date expressions of the d: condition.                *)
(* A day is the number of days since 1 January 1970; a date is [y, m, d].     *)
EXTENDS Text

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
(* days before month m of a year *)
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthLen(y, m - 1)
BeforeYear(y) == LET p == y - 1 IN 365 * (y - 1970) + (p \div 4 - 492) - (p \div 100 - 19) + (p \div 400 - 4)
DayNum(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d - 1
YearOf(n) == LET y0 == 1970 + n \div 366
                 C == {y \in y0..(y0 + 2) : BeforeYear(y) <= n /\ n < BeforeYear(y + 1)}
             IN CHOOSE y \in C : TRUE
DateOf(n) == LET y == YearOf(n)
                 r == n - BeforeYear(y)
                 m == CHOOSE k \in 1..12 : BeforeMonth(y, k) <= r /\ (k = 12 \/ r < BeforeMonth(y, k + 1))
             IN [y |-> y, m |-> m, d |-> r - BeforeMonth(y, m) + 1]
DayOf(dt) == DayNum(dt.y, dt.m, dt.d)

MonthNames == << <<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>, <<106,117,110>>,
                 <<106,117,108>>, <<97,117,103>>, <<115,101,112>>, <<111,99,116>>, <<110,111,118>>, <<100,101,99>> >>
MonthOf(s) == LET S == {k \in 1..12 : MonthNames[k] = LowerS(s)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

FullYear(v) == IF v > 100 THEN v ELSE IF v < 70 THEN 2000 + v ELSE 1900 + v

(* An expression is digits, letters, digits *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i < Len(s) /\ IsDigit(s[i + 1]) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE AlphaEnd(_, _)
AlphaEnd(s, i) == IF i < Len(s) /\ ~IsDigit(s[i + 1]) THEN AlphaEnd(s, i + 1) ELSE i
(* one or two digits are a day of the month if possible, otherwise a year *)
IsDay(n) == Len(n) \in 1..2 /\ n[1] # 48 /\ Num(n) \in 1..31
IsYear(n) == (Len(n) = 2 /\ ~IsDay(n)) \/ Len(n) = 4

(* The first and last day an expression stands for, seen from a reference date *)
Span(s, ref, today) ==
  LET a == DigitsEnd(s, 0)
      b == AlphaEnd(s, a)
      n1 == SubSeq(s, 1, a)
      al == SubSeq(s, a + 1, b)
      n2 == SubSeq(s, b + 1, Len(s))
      mon == MonthOf(al)
      Day(y, m, d) == [lo |-> DayNum(y, m, d), hi |-> DayNum(y, m, d)]
      Month(y, m) == [lo |-> DayNum(y, m, 1), hi |-> DayNum(y, m, MonthLen(y, m))]
      (* the most recent such day, month or day of the month *)
      RecentDay(m, d) == Day(IF m > ref.m \/ (m = ref.m /\ d > ref.d) THEN ref.y - 1 ELSE ref.y, m, d)
      Back(k) == LET n == DayOf(today) - k IN [lo |-> n, hi |-> n]
  IN CASE al = <<>> /\ IsDay(n1) ->
             IF Num(n1) <= ref.d THEN Day(ref.y, ref.m, Num(n1))
             ELSE IF ref.m = 1 THEN Day(ref.y - 1, 12, Num(n1)) ELSE Day(ref.y, ref.m - 1, Num(n1))
       [] al = <<>> /\ IsYear(n1) -> LET y == FullYear(Num(n1)) IN [lo |-> DayNum(y, 1, 1), hi |-> DayNum(y, 12, 31)]
       [] al = <<>> /\ Len(n1) \in {6, 8} ->
             LET k == Len(n1)
             IN Day(FullYear(Num(SubSeq(n1, 1, k - 4))), Num(SubSeq(n1, k - 3, k - 2)), Num(SubSeq(n1, k - 1, k)))
       [] Len(al) = 1 -> Back(Num(n1) * (CASE al[1] = 100 -> 1 [] al[1] = 119 -> 7 [] al[1] = 109 -> 30 [] OTHER -> 365))
       [] mon # 0 /\ n1 = <<>> /\ n2 = <<>> -> Month(IF mon > ref.m THEN ref.y - 1 ELSE ref.y, mon)
       [] mon # 0 /\ IsDay(n1) /\ n2 = <<>> -> RecentDay(mon, Num(n1))
       [] mon # 0 /\ n1 = <<>> /\ IsDay(n2) -> RecentDay(mon, Num(n2))
       [] mon # 0 /\ IsYear(n1) /\ n2 = <<>> -> Month(FullYear(Num(n1)), mon)
       [] mon # 0 /\ n1 = <<>> /\ IsYear(n2) -> Month(FullYear(Num(n2)), mon)
       [] mon # 0 /\ IsYear(n1) /\ IsDay(n2) -> Day(FullYear(Num(n1)), mon, Num(n2))
       [] mon # 0 /\ IsDay(n1) /\ IsYear(n2) -> Day(FullYear(Num(n2)), mon, Num(n1))

(* d:period includes both ends; in the start-end forms the start day itself is *)
(* excluded; endpoints given backwards are swapped; the start is read as seen  *)
(* from the end.                                                              *)
DateHolds(day, s, today) ==
  LET h == LET S == {i \in 1..Len(s) : s[i] = 45} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
      st == SubSeq(s, 1, h - 1)
      en == SubSeq(s, h + 1, Len(s))
  IN IF h = 0 THEN LET sp == Span(s, today, today) IN sp.lo <= day /\ day <= sp.hi
     ELSE IF en = <<>> THEN day > Span(st, today, today).lo
     ELSE LET e == Span(en, today, today).hi IN
          IF st = <<>> THEN day <= e
          ELSE LET b == Span(st, DateOf(e), today).lo
               IN IF b <= e THEN b < day /\ day <= e ELSE e < day /\ day <= b
=============================================================================
