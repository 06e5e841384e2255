-------------------------------- MODULE MCTrad --------------------------------
(* C17: "--- / +++" pairs with all kinds of names, time stamps and successors.  *)
EXTENDS Feed
CONSTANTS Parts

Names1 == {"a", "a.bak", "dir/a", "/dev/null", "\"q\\tn\"", "\"bad", "", "a b", "b/../a", "/dev/null ", "/dev/nul", "\"\"", "a//b"}
Stamps1 == {"", "\t", "\t2020-02-02 10:00:00 +0000", "\t1970-01-01 00:00:00.000000000 +0000", "\t1970-01-01 00:00:00 +0000"}
Succ == {<<"@@ -1 +1 @@\n", "-x\n", "+y\n">>, <<"@@ -0,0 +1 @@\n", "+y\n">>, <<"@@ -1 +0,0 @@\n", "-x\n">>, <<"@@ -1 +1 @@", "">>, <<"@@ - bad text @@\n">>,
         <<"text\n">>, <<>>, <<"@@ -1 +1 @\n">>, <<"@@ -1 +1\n">>, <<"+++ c\n", "@@ -1 +1 @@\n", "-x\n", "+y\n">>, <<"@@@ -1 +1 @@\n">>}
Small == {<<"@@ -1 +1 @@\n", "-x\n", "+y\n">>, <<"@@ -0,0 +1 @@\n", "+y\n">>, <<"@@ -1 +0,0 @@\n", "-x\n">>}

(* every way to write the epoch, and near misses: all zones *)
HH(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Zones == {-720, -719, -600, -420, -300, -210, -1, 0, 1, 60, 330, 345, 599, 600, 720, 840, 1439, -1439, -1380}
ZoneStr(z, colon) == LET a == IF z < 0 THEN -z ELSE z IN
  (IF z < 0 THEN "-" ELSE "+") \o HH(a \div 60) \o colon \o HH(a % 60)
LocalOf(z, delta) ==       \* wall clock of the epoch plus delta seconds in zone z
  LET s == z * 60 + delta
      d == IF s < 0 THEN -1 ELSE IF s >= 86400 THEN 1 ELSE 0
      t == s - d * 86400
  IN (CASE d = -1 -> "1969-12-31" [] d = 0 -> "1970-01-01" [] d = 1 -> "1970-01-02")
     \o " " \o HH(t \div 3600) \o ":" \o HH((t \div 60) % 60) \o ":" \o HH(t % 60)
Fracs == {"", ".0", ".000000000", ".000000001", "."}
EpochStamps == {"\t" \o LocalOf(z, d) \o fr \o " " \o ZoneStr(z, c) : z \in Zones, d \in {-1, 0, 1, 60}, fr \in {"", ".000000000"}, c \in {"", ":"}}
OddStamps == {"\t1970-01-01 00:00:00" \o f \o " +0000" : f \in Fracs}
   \cup {"\t1970-01-01 00:00:00", "\t1970-01-01T00:00:00 +0000", " 1970-01-01 00:00:00 +0000", "\t1970-01-01 00:00:00 +00", "\t1970-01-01 00:00:00 Z",
         "\t1970-01-01 24:00:00 +0000", "\tx\t1970-01-01 00:00:00 +0000", "\t1970-01-01 00:00:00 +0000 ", "\t1970-01-01 00:60:00 +0000", "\t1971-01-01 00:00:00 +0000",
         "\t1970-02-01 00:00:00 +0000", "\t1970-01-01 00:00:00 0000", "\t1970-01-01 00:00:00 +00:00:00", "\t+0000",
         "\t1970-01-01 00:00:00 -0000", "\t1970-01-01 00:00:00.0 -0000", "\t1970-01-01 00:00:00 -00:00", "\t1970-01-01 00:00:00 +00:00",
         "\t1970-01-01 00:00:01 -0000", "\t1970-01-02 00:00:00 +2400", "\t1970-01-02 00:00:00 +24:00", "\t1969-12-31 00:00:00 -2400", "\t1970-01-01 00:00:00 *0000",
         "\t70-01-01 00:00:00 +0000", "\t1970-1-1 00:00:00 +0000",
         "\t1970-01-01 00:00 +0000", "\t1970-01-01 00:00:00.0000000000000 +0000", "\t1970-01-01 00:00:00.000 +00:00"}

Pair(o, so, n, sn) == <<"--- " \o o \o so \o "\n", "+++ " \o n \o sn \o "\n">>
ChunksOf(Part) ==
  CASE Part = "names" -> {Pair(o, so, n, sn) \o s : o \in Names1, so \in Stamps1, n \in Names1, sn \in Stamps1, s \in Small}
    [] Part = "succ" -> {p \o Pair(o, "", n, "") \o s : o \in {"a", "/dev/null"}, n \in {"a", "a.c"}, s \in Succ, p \in {<<>>, <<"junk\n">>, <<"--- x\n">>, <<"+++ y\n">>, <<"--- x\n", "+++ y\n">>}}
         \cup {<<l>> \o s : l \in {"--- a\n", "+++ a\n", "---a\n", " --- a\n", "-- a\n"}, s \in Succ}
    [] Part = "time" -> {Pair("a", so, "b", "\t2020-02-02 10:00:00 +0000") \o s : so \in EpochStamps \cup OddStamps, s \in Small}
         \cup {Pair("a", "\t2020-02-02 10:00:00 +0000", "b", sn) \o s : sn \in EpochStamps \cup OddStamps, s \in Small}

NonEmpty(ls) == SelectSeq(ls, LAMBDA l : l # "")
Init == \E p \in Parts : \E c \in ChunksOf(p) : ps = ParserStart(NonEmpty(c), TRUE) /\ fed = <<>>
Next == Parsing

(* a file is only ever started by an old/new pair followed by "@@ -" *)
OnlyPairs == Len(ps.files) <= Cardinality({i \in 1..(Len(ps.lines) - 2) :
   HasPrefix(ps.lines[i], "--- ") /\ HasPrefix(ps.lines[i + 1], "+++ ") /\ HasPrefix(ps.lines[i + 2], "@@ -")})
(* in every zone exactly the epoch itself marks a missing side *)
ASSUME EpochExact ==
  "time" \in Parts =>
    \A z \in Zones : \A d \in {-1, 0, 1, 60} :
      IsEpoch("x\t" \o LocalOf(z, d) \o " " \o ZoneStr(z, "") \o "\n") <=> d = 0
=============================================================================
