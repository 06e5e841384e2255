------------------------------- MODULE MCHeader -------------------------------
(* C15: sequences of git extended header lines after a "diff --git" line.       *)
EXTENDS Feed
CONSTANTS MaxLines, Heads, Lines1

HeadLines == [k \in {"same", "ren", "bare", "quoted", "badq", "nosep"} |->
  CASE k = "same" -> "diff --git a/f b/f\n"
    [] k = "ren" -> "diff --git a/f b/g\n"
    [] k = "bare" -> "diff --git \n"
    [] k = "quoted" -> "diff --git \"a/f\" \"b/f\"\n"
    [] k = "badq" -> "diff --git \"a/f\\q\" b/f\n"
    [] k = "nosep" -> "diff --git a/f\"b/f\"\n"]

Core ==
  {"old mode 100644\n", "new mode 100755\n", "new file mode 100600\n", "deleted file mode 120000\n",
   "copy from f\n", "copy to g\n", "rename from f\n", "rename to g\n", "rename old f\n", "rename new h\n",
   "similarity index 90%\n", "dissimilarity index 7%\n", "index 12ab..34cd\n", "index 0..9 100664\n",
   "--- a/f\n", "+++ b/f\n", "--- /dev/null\n", "+++ /dev/null\n", "+++ b/g\n"}
Odd ==
  {"old mode 8\n", "new mode \n", "new file mode -1\n", "old mode 17777777777\n", "new mode 20000000000\n", "old mode  644 \n",
   "deleted file mode x\n", "similarity index 101%\n", "similarity index -5%\n", "similarity index x%\n", "similarity index 100\n",
   "dissimilarity index %\n", "similarity index 2147483648%\n", "index 12ab\n", "index ..\n", "index a..b 9\n", "index a..b..c 644\n", "index 1..2  755\n",
   "copy from \"a\\tb\"\n", "rename to \"x\n", "rename from \n", "copy to /dev/null\n", "--- a/f\tstamp\n", "+++ \"b/f\"\n", "--- \n", "--- a//d//f\n",
   "+++ f\n", "--- a/x/y\n", "rename from a/f\n", "index a..b 644 x\n", "similarity index 0%\n", "old mode 0\n", "new mode 007\n", "OLD mode 1\n", "new file mode 100644"}
AllLines == Core \cup Odd
Ends == [k \in {"hunk", "text", "nodata", "next"} |->
  CASE k = "hunk" -> <<"@@ -1 +1 @@\n", "-x\n", "+y\n">>
    [] k = "text" -> <<"unknown line\n">>
    [] k = "nodata" -> <<"Binary files a/f and b/f differ\n">>
    [] k = "next" -> <<"diff --git a/n b/n\n">>]

Init == \E h \in Heads : FeedInit(<<HeadLines[h]>>)
IsEnd(c) == c \in DOMAIN Ends
Next ==
  \/ Parsing \/ EndInput
  \/ /\ Len(fed) < MaxLines /\ \A i \in 1..Len(fed) : ~IsEnd(fed[i])
     /\ \E l \in Lines1 : Deliver(l, <<l>>)
  \/ /\ \A i \in 1..Len(fed) : ~IsEnd(fed[i])
     /\ \E e \in DOMAIN Ends : Deliver(e, Ends[e])

(* declarative reading of a successful header: the last line of a kind counts   *)
Meta == SelectSeq(fed, LAMBDA l : ~IsEnd(l))
HasKind(k) == \E i \in 1..Len(Meta) : HasPrefix(Meta[i], k)
LastOf(K) == LET idx == {i \in 1..Len(Meta) : \E k \in K : HasPrefix(Meta[i], k)}
             IN IF idx = {} THEN "" ELSE TrimSuffix(Meta[CHOOSE i \in idx : \A j \in idx : i >= j], "\n")
Known(l) == KindOf(TrimSuffix(l, "\n")) \notin {"", "@@ -"}
Flags ==
  ps.mode = "done" /\ ps.files # <<>> /\ (\A i \in 1..Len(Meta) : Known(Meta[i])) =>
    LET f == ps.files[1] IN
    /\ f.isNew <=> HasKind("new file mode ")
    /\ f.isDel <=> HasKind("deleted file mode ")
    /\ f.isCopy <=> (HasKind("copy from ") \/ HasKind("copy to "))
    /\ f.isRen <=> (HasKind("rename "))
    /\ LET i == LastOf({"index "}) IN
       IF i = "" THEN f.ooid = "" /\ f.noid = ""
       ELSE HasPrefix(i, "index " \o f.ooid \o ".." \o f.noid)
    /\ LET m == LastOf({"new mode ", "new file mode "}) IN
       IF m = "" THEN f.nmode = 0
       ELSE f.nmode = Oct31(TrimSpace(TrimPrefix(TrimPrefix(m, "new mode "), "new file mode ")))
    /\ (f.isNew \/ f.old # "") /\ (f.isDel \/ f.new # "")
=============================================================================
