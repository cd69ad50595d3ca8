------------------------------- MODULE TimeMC -------------------------------
(* A clock that ticks day by day by the rules of the calendar, against the
   closed forms of Time; one time of day and zone per day.                   *)
EXTENDS Time
CONSTANTS From, To
VARIABLES n, y, m, d, w
Init == y = From /\ m = 1 /\ d = 1 /\ n = Days(From, 1, 1) /\ w = Weekday(n)
Next == /\ y < To
        /\ n' = n + 1 /\ w' = (w + 1) % 7
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<n, y, m, d, w>>
DayLaw == Days(y, m, d) = n /\ Civil(n) = <<y, m, d>> /\ Weekday(n) = w
EpochLaw == (<<y, m, d>> = <<1970, 1, 1>>) <=> (n = 0)
\* some time of this day, in some zone
Sec == ((n % 1009) * 8669 + 17) % 86400
Ms == (n % 997) + 2
Zone == ((n % 113) * 15) - 840
Zh == IF Zone < 0 THEN -((-Zone) \div 60) ELSE Zone \div 60
Zm == IF Zone < 0 THEN -((-Zone) % 60) ELSE Zone % 60
X == <<y, m, d>> \o ClockOf(Sec) \o <<Ms, Zh, Zm>>
IsoLaw == ParseIso(FmtIso(X)) = Ns(X)
ZoneLaw == LET i == InstOf(X) u == Fields(i[1], i[2]) \o <<Ms, 0, 0>> IN Diff(X, u) = <<0, 0>> /\ InstOf(u) = i
\* the same instant seen in a zone differs by the zone's offset
LocalLaw == LET o == Offset(Zone, TRUE, n, Sec) IN o \in {Zone, Zone + 60} /\ (m \in {1, 2, 12} /\ d \in 2..27 => o = Zone) /\ (m \in 4..9 /\ d \in 2..29 => o = Zone + 60)
DurLaw == LET s == Sec * 3 IN
          /\ ParseDur(Fmt("mm:ss.ms", s, Ms * 1000 + 999)) = <<N(1), N(s), N(Ms * 1000)>>
          /\ ParseDur(Fmt("mm:ss", s, 0)) = <<N(1), N(s), N(0)>>
          /\ (s >= 60 => ParseDur(Fmt("[h]:mm:ss.mmm", s, Ms * 1000)) = <<N(1), N(s), N(Ms * 1000)>>)
=============================================================================
