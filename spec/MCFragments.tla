------------------------------ MODULE MCFragments ------------------------------
(* C13: sequences of fragments under every kind of file header.                  *)
EXTENDS Feed
CONSTANTS MaxFrags
G == "diff --git a/f b/f\n"
Heads == <<
  <<G, "--- a/f\n", "+++ b/f\n">>, <<G>>, <<G, "new file mode 100644\n", "--- /dev/null\n", "+++ b/f\n">>,
  <<G, "new file mode 100644\n">>, <<G, "deleted file mode 100644\n", "--- a/f\n", "+++ /dev/null\n">>, <<G, "deleted file mode 100644\n">>,
  <<G, "old mode 100644\n", "new mode 100755\n">>, <<"diff --git a/f b/g\n", "rename from f\n", "rename to g\n", "--- a/f\n", "+++ b/g\n">>,
  <<"--- f\n", "+++ f\n">>, <<"--- /dev/null\n", "+++ f\n">>, <<"--- f\n", "+++ /dev/null\n">>,
  <<"--- f\t1970-01-01 00:00:00 +0000\n", "+++ f\n">>, <<"--- f\n", "+++ f\t1969-12-31 19:00:00.000 -0500\n">> >>
NoNL == "\\ No newline at end of file\n"
FragTab == [k \in {"add0", "del0", "chg", "ctx", "ins", "cut", "cut0", "noeol", "noold", "bignum", "blank", "fn", "dup", "onlyctx", "over", "zero", "delpos", "mark", "text"} |->
  CASE k = "add0" -> <<"@@ -0,0 +1 @@\n", "+a\n">>
    [] k = "del0" -> <<"@@ -1 +0,0 @@\n", "-a\n">>
    [] k = "chg" -> <<"@@ -3 +3 @@ c\n", "-a\n", "+b\n">>
    [] k = "ctx" -> <<"@@ -5,3 +5,3 @@\n", " c\n", "-a\n", "+b\n", " d\n">>
    [] k = "ins" -> <<"@@ -8,0 +9,2 @@\n", "+a\n", "+\n">>
    [] k = "cut" -> <<"@@ -8,2 +7,0 @@\n", "-a\n", "-b\n">>
    [] k = "cut0" -> <<"@@ -2 +0,0 @@\n", "-@@ -1 +1 @@\n">>
    [] k = "noeol" -> <<"@@ -20,2 +20,2 @@\n", " c\n", "-a\n", NoNL, "+b\n", NoNL>>
    [] k = "noold" -> <<"@@ -20 +20,2 @@\n", "-a\n", NoNL, "+b\n", "+c\n">>
    [] k = "bignum" -> <<"@@ -9223372036854775807 +9223372036854775806 @@\n", "-a\n", "+b\n">>
    [] k = "blank" -> <<"@@ -2,2 +2 @@ \n", "\n", "-\n">>
    [] k = "fn" -> <<"@@ -2 +2 @@ @@ -1 +1 @@ func(\t) \n", "--- a\n", "+++ b\n">>
    [] k = "dup" -> <<"@@ -3 +3 @@ c\n", "-a\n", "+c\n">>
    [] k = "onlyctx" -> <<"@@ -3 +3 @@ c\n", " a\n">>
    [] k = "over" -> <<"@@ -3 +3 @@ c\n", "-a\n", "+b\n", "+c\n">>
    [] k = "zero" -> <<"@@ -3,0 +3,0 @@ c\n">>
    [] k = "delpos" -> <<"@@ -0 +0,0 @@\n", "-a\n">>
    [] k = "mark" -> <<NoNL>>
    [] k = "text" -> <<"-- \n", "2.1\n">>]
Init == \E h \in 1..Len(Heads) : FeedInit(Heads[h])
Next == \/ Parsing \/ EndInput
        \/ Len(fed) < MaxFrags /\ \E k \in DOMAIN FragTab : Deliver(k, FragTab[k])
(* one file, and every fragment accepted stands for a delivered one, in order *)
Good == {"add0", "del0", "chg", "ctx", "ins", "cut", "cut0", "noeol", "noold", "bignum", "blank", "fn", "dup"}
InOrder == ps.mode = "done" /\ (\A i \in 1..Len(fed) : fed[i] \in Good) =>
  /\ fed = <<>> \/ Len(ps.files) = 1
  /\ \A j \in 1..Len(ps.files) : Len(ps.files[j].frags) = Len(fed)

=============================================================================
