-------------------------------- MODULE MCSlots --------------------------------
(* C13, C15-C18, C20: every short text in every place of the patch syntax that   *)
(* holds free text: numbers, names, time stamps, modes, sizes, data.             *)
EXTENDS Parser
CONSTANTS Groups, Extra                \* Extra: how much longer the texts get
H == "diff --git a/x b/x\n"
HT == H \o "--- a/x\n+++ b/x\n"
B == "-a\n+b\n"
Slot(g, p, s, al, m) == [group |-> g, pre |-> p, suf |-> s, alphabet |-> al, max |-> m]
Num == {"0", "1", "9", ",", "-", "+"}
Rng == {"0", "1", "2", ",", " ", "+", "x"}
Nm == {"a", "b", "/", " ", "\"", "\\"}
Esc == {"\\", "\"", "0", "3", "8", "n", "z"}
Tm == {":", "0", "9", "+", "-", " ", "."}
Slots == <<
  Slot("hunk", HT \o "@@ -", " +1 @@\n" \o B, Rng, 4),
  Slot("hunk", HT \o "@@ -1 +", " @@\n" \o B, Rng, 4),
  Slot("hunk", HT \o "@@ -1 ", "1 @@\n" \o B, {"+", " ", "-", ",", "@"}, 4),
  Slot("hunk", HT \o "@@ -1 +1", "\n" \o B, {"@", " ", "x", "\t", "\r"}, 5),
  Slot("hunk", HT \o "@@", "1 +1 @@\n" \o B, {" ", "-", "@", "+", "0"}, 4),
  Slot("hunk", HT \o "@@ -1,2 +1,2 @@\n", "", {" ", "-", "+", "\\", "\n", "a"}, 6),
  Slot("hunk", HT \o "@@ -1 +1 @@\n-a\n", "+b\n", {"\\", " ", "n", "\n"}, 5),
  Slot("hunk", HT \o "@@ -1 +1 @@\n-a\n\\ ", "\n+b\n", {" ", "x"}, 12),
  Slot("header", H \o "index ", "\n" \o B, {"a", ".", " ", "1", "0", "9"}, 5),
  Slot("header", H \o "index 1..2", "\n", {" ", "1", "0", "7", "8", "-"}, 5),
  Slot("header", H \o "old mode ", "\nnew mode 1\n", {"1", "0", "7", "8", " ", "-"}, 4),
  Slot("header", H \o "new file mode ", "\n", {"1", "0", "9", " ", "+", "\t"}, 4),
  Slot("header", H \o "similarity index ", "\n", {"0", "1", "9", "%", "-", "+", " "}, 4),
  Slot("header", H \o "old", " 100644\n", {" ", "m", "o", "d", "e"}, 5),
  Slot("header", H, "", {"i", "n", "\n", " ", "@", "-"}, 5),
  Slot("names", "diff --git ", "\n", Nm, 5),
  Slot("names", "diff --git a/", "\nold mode 1\n", Nm, 5),
  Slot("names", "diff --git a/x ", "\nnew file mode 1\n", Nm, 5),
  Slot("names", "diff --git \"a/", "\nold mode 1\n", Nm, 6),
  Slot("names", "diff --git \"a/x\" \"", "\nold mode 1\n", Nm, 5),
  Slot("names", "diff --git a/b b/b", "\nold mode 1\n", Nm, 5),
  Slot("names", "diff", " a/x b/x\nold mode 1\n", {" ", "-", "g", "i", "t"}, 5),
  Slot("names", H \o "rename from ", "\nrename to b\n", Nm, 4),
  Slot("names", H \o "rename from b\nrename to \"", "\n", Esc, 5),
  Slot("names", H \o "copy from \"", "\"\ncopy to c\n", Esc, 5),
  Slot("names", H \o "--- ", "\n+++ b/x\n@@ -1 +1 @@\n" \o B, Nm \cup {"\t"}, 4),
  Slot("names", H \o "--- a/x\n+++ \"b/", "\n@@ -1 +1 @@\n" \o B, Esc \cup {"\t"}, 4),
  Slot("trad", "--- ", "\n+++ b\n@@ -1 +1 @@\n" \o B, Nm \cup {"\t"}, 4),
  Slot("trad", "--- a\n+++ ", "\n@@ -1 +1 @@\n" \o B, Nm \cup {"\t"}, 4),
  Slot("trad", "--- a\t", "\n+++ b\n@@ -1 +1 @@\n" \o B, Tm, 4),
  Slot("trad", "--- a\t1970-01-01", "\n+++ b\n@@ -0,0 +1 @@\n+b\n", Tm, 3),
  Slot("trad", "--- a\t1970-01-01 00:00:00", "\n+++ b\n@@ -0,0 +1 @@\n+b\n", Tm, 4),
  Slot("trad", "--- a\t1970-01-01 00:00:00 +0", "\n+++ b\n@@ -0,0 +1 @@\n+b\n", Tm, 5),
  Slot("trad", "--- a\n+++ b\t1970-01-01 00:00:00 ", "0\n@@ -1 +0,0 @@\n-a\n", Tm, 4),
  Slot("trad", "--- \"a", "\n+++ b\n@@ -1 +1 @@\n" \o B, Esc \cup {"\t"}, 4),
  Slot("trad", "", "- a\n+++ b\n@@ -1 +1 @@\n" \o B, {"-", " ", "+", "\n"}, 5),
  Slot("trad", "--- a\n+++ b\n", "-1 +1 @@\n" \o B, {"@", " ", "\n", "-"}, 5),
  Slot("binary", H \o "GIT binary patch\nliteral ", "\nIcmZPo000310RR91\n\n", {"0", "1", "-", "+", " ", "x"}, 4),
  Slot("binary", H \o "GIT binary patch\n", " 1\nIcmZPo000310RR91\n\n", {"l", "d", " ", "\n", "x"}, 4),
  Slot("binary", H \o "GIT binary patch\nliteral 1\n", "\n\n", {"A", "B", "z", "0", "~", " "}, 6),
  Slot("binary", H \o "GIT binary patch\nliteral 1\nIcmZPo0003", "\n\n", {"1", "0", "R", "9", "\n", "\""}, 6),
  Slot("binary", H \o "GIT binary patch\nliteral 1\nIcmZPo000310RR91\n", "", {"\n", "l", "A", "0", " "}, 5),
  Slot("binary", H \o "GIT binary", "\nliteral 1\nIcmZPo000310RR91\n\n", {" ", "p", "a", "t", "c", "h"}, 4),
  Slot("binary", H \o "Binary files ", " differ\n", Nm, 3) >>
Ids == {k \in 1..Len(Slots) : Slots[k].group \in Groups}
VARIABLES slot, text
Init == slot = 0 /\ text = ""
Next == \/ slot = 0 /\ slot' \in Ids /\ text' = ""
        \/ slot > 0 /\ Len(text) < Slots[slot].max + Extra /\ slot' = slot /\ \E letter \in Slots[slot].alphabet : text' = text \o letter
Emit == slot = 0 \/ \A sl \in {Slots[slot]} : \A ls \in {Lines(sl.pre \o text \o sl.suf)} : \A pr \in {Parse(ls)} :
          /\ FilesConsistent(pr) /\ BlameIsFirst(pr)
          /\ PrintT(ToJson([in |-> ls, res |-> Result(pr), case |-> [kind |-> sl.group, free |-> FALSE, cuts |-> <<>>]]))
=============================================================================
