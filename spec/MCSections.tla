------------------------------ MODULE MCSections ------------------------------
(* C12: sequences of file sections, junk text and malformed sections.           *)
EXTENDS Feed
CONSTANT MaxSections, Full

Hunk == <<"@@ -1,2 +1,2 @@ fn\n", " c\n", "-o\n", "+n\n">>
Sec == [k \in {"mod", "two", "new", "del", "ren", "mode", "trad", "tradnew", "bin", "binrev", "nodata", "noeol", "empty", "cp", "tradtime", "newempty", "delempty"} |->
  CASE k = "mod" -> <<"diff --git a/m b/m\n", "index 1..2 100644\n", "--- a/m\n", "+++ b/m\n">> \o Hunk
    [] k = "two" -> <<"diff --git a/t b/t\n", "--- a/t\n", "+++ b/t\n">> \o Hunk \o <<"@@ -9 +9,0 @@\n", "-q\n">>
    [] k = "new" -> <<"diff --git a/m b/m\n", "new file mode 100644\n", "--- /dev/null\n", "+++ b/m\n", "@@ -0,0 +1 @@\n", "+x\n">>
    [] k = "del" -> <<"diff --git a/m b/m\n", "deleted file mode 100644\n", "--- a/m\n", "+++ /dev/null\n", "@@ -1 +0,0 @@\n", "-x\n">>
    [] k = "ren" -> <<"diff --git a/m b/r2\n", "similarity index 100%\n", "rename from m\n", "rename to r2\n">>
    [] k = "cp" -> <<"diff --git a/c1 b/c2\n", "copy from c1\n", "copy to c2\n">>
    [] k = "mode" -> <<"diff --git a/m b/m\n", "old mode 100644\n", "new mode 100755\n">>
    [] k = "trad" -> <<"--- m\n", "+++ m\n">> \o Hunk
    [] k = "tradnew" -> <<"--- /dev/null\n", "+++ m\n", "@@ -0,0 +1 @@\n", "+x\n">>
    [] k = "tradtime" -> <<"--- w\t2020-01-01 10:00:00 +0000\n", "+++ w\t2020-01-02 10:00:00 +0000\n">> \o Hunk
    [] k = "bin" -> <<"diff --git a/m b/m\n", "GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n">>
    [] k = "binrev" -> <<"diff --git a/y b/y\n", "GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n", "delta 3\n", "CcmZ?O\n", "\n">>
    [] k = "nodata" -> <<"diff --git a/z b/z\n", "Binary files a/z and b/z differ\n">>
    [] k = "noeol" -> <<"diff --git a/e b/e\n", "@@ -1 +1 @@\n", "-o\n", "\\ No newline at end of file\n", "+n\n", "\\ No newline at end of file\n">>
    [] k = "newempty" -> <<"diff --git a/m b/m\n", "new file mode 120000\n", "index 0000000..e69de29\n">>
    [] k = "delempty" -> <<"diff --git a/m b/m\n", "deleted file mode 100644\n", "index e69de29..0000000\n">>
    [] k = "empty" -> <<"diff --git a/m b/m\n", "index 0..0\n">>]
SecName == [k \in DOMAIN Sec |->
  CASE k = "mod" -> <<"m", "m">> [] k = "two" -> <<"t", "t">> [] k = "new" -> <<"", "m">>
    [] k = "del" -> <<"m", "">> [] k = "ren" -> <<"m", "r2">> [] k = "cp" -> <<"c1", "c2">> [] k = "mode" -> <<"m", "m">>
    [] k = "trad" -> <<"m", "m">> [] k = "tradnew" -> <<"", "m">> [] k = "tradtime" -> <<"w", "w">>
    [] k = "bin" -> <<"m", "m">> [] k = "binrev" -> <<"y", "y">> [] k = "nodata" -> <<"z", "z">>
    [] k = "noeol" -> <<"e", "e">> [] k = "empty" -> <<"m", "m">>
    [] k = "newempty" -> <<"", "m">> [] k = "delempty" -> <<"m", "">>]
FragCount == [k \in DOMAIN Sec |->
  CASE k = "two" -> 2 [] k \in {"mod", "new", "del", "trad", "tradnew", "tradtime", "noeol"} -> 1 [] OTHER -> 0]
(* text that is no part of any patch syntax *)
Plain == {"hello\n", "\n", "+++ x\n", "-- \n", "@@ odd\n", "@@ -x +y @@\n", "--- lone\n", "diff --cc q\n",
          "---\n", " diff --git a/b b/b\n", "@@ -1 @@\n"}
(* text that starts or continues a section, or has no newline *)
Tricky == {"index 1..2\n", "new file mode 100644\n", "\\ No newline at end of file\n", "Binary files a and b differ\n",
           "GIT binary patch\n", "tail", "literal 1\n", "rename to k\n", "old mode 9\n", "--- /dev/null\n", "+++ b/x\n", "diff --git a/u b/v\n"}
BrokenSec == [k \in {"orphan", "badhdr", "badhunk", "short", "badmode", "badbin", "nobin"} |->
  CASE k = "orphan" -> <<"@@ -1 +1 @@ x\n">>
    [] k = "badhdr" -> <<"diff --git a/o b/p\n", "text\n">>
    [] k = "badhunk" -> <<"diff --git a/o b/o\n", "@@ -1,2 +1 @@\n", "-o\n", "+n\n", "text\n">>
    [] k = "short" -> <<"--- h\n", "+++ h\n", "@@ -1,3 +1,3 @@\n", "-x\n">>
    [] k = "badmode" -> <<"diff --git a/o b/o\n", "new mode 8\n">>
    [] k = "badbin" -> <<"diff --git a/o b/o\n", "GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "x\n">>
    [] k = "nobin" -> <<"diff --git a/o b/o\n", "GIT binary patch\n", "x\n">>]

Init == FeedInit(<<>>)
Next ==
  \/ Parsing \/ EndInput
  \/ /\ Len(fed) < MaxSections
     /\ \/ \E k \in DOMAIN Sec : Deliver(k, Sec[k])
        \/ \E l \in Plain : Deliver(l, <<l>>)
        \/ \E l \in Tricky : Deliver(l, <<l>>)
        \/ \E k \in DOMAIN BrokenSec : Deliver(k, BrokenSec[k])

(* inputs made only of sections and plain text divide into exactly the sections;*)
(* "@@ -x"/"@@ -1" text directly after a header or fragment would belong to it  *)
InSec(k) == k \in DOMAIN Sec
(* likewise "---" lines directly after a git header without content *)
Bare == {"ren", "cp", "mode", "empty", "newempty", "delempty"}
Glue(a, b) == \/ InSec(a) /\ b \in {"@@ -x +y @@\n", "@@ -1 @@\n"}
              \/ a \in Bare /\ b \in {"trad", "tradnew", "tradtime", "+++ x\n", "--- lone\n"}
WellFormed == /\ \A i \in 1..Len(fed) : InSec(fed[i]) \/ fed[i] \in Plain
              /\ \A i \in 1..(Len(fed) - 1) :
                   /\ ~Glue(fed[i], fed[i + 1])
                   /\ ~(fed[i] = "--- lone\n" /\ fed[i + 1] = "+++ x\n")
Secs == SelectSeq(fed, InSec)
Division ==
  ps.mode = "done" /\ WellFormed =>
    /\ Len(ps.files) = Len(Secs)
    /\ \A i \in 1..Len(Secs) : /\ ps.files[i].old = SecName[Secs[i]][1]
                               /\ ps.files[i].new = SecName[Secs[i]][2]
                               /\ Len(ps.files[i].frags) = FragCount[Secs[i]]
NeverFails == WellFormed => ps.mode # "fail"
(* the preamble is everything before the first section *)
Preamble ==
  ps.mode = "done" /\ WellFormed =>
    LET firstSec == {i \in 1..Len(fed) : InSec(fed[i])}
    IN ps.pre = IF firstSec = {} THEN Len(fed) ELSE (CHOOSE i \in firstSec : \A j \in firstSec : i <= j) - 1
=============================================================================
