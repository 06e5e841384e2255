-------------------------------- MODULE MCBytes --------------------------------
(* C12, C13, C15-C18: every byte in every place of a few short patches, instead  *)
(* of the byte there or before it.                                               *)
EXTENDS Parser
CONSTANTS Groups, Bytes
AllBytes == 0..255
LetterK == {75}
H == "diff --git a/x b/x\n"
HT == H \o "--- a/x\n+++ b/x\n"
B == "@@ -1 +1 @@\n-a\n+b\n"
T(g, p, m, s) == [group |-> g, pre |-> p, mid |-> m, suf |-> s]
Texts == <<
  T("hunk", HT, "@@ -1,2 +10,2 @@ f\n c\n-a\n+b\n", "@@ -9 +9 @@\n-a\n+b\n"),
  T("hunk", HT \o "@@ -1 +1 @@\n", "-a\n\\ No newline at end of file\n+b\n\\ No", " newline at end of file\n"),
  T("header", H, "old mode 100644\nnew mode 0755\n", B), T("header", H, "index 1f..a0 644\n", "--- a/x\n+++ b/x\n" \o B),
  T("header", H, "new file mode 7\n", "index 1..2\n"), T("header", H, "deleted file mode 1\n", B),
  T("header", H, "similarity index 9%\nrename from x\n", "rename to y\n"), T("header", H, "dissimilarity index 9%\n", "copy from x\ncopy to y\n"),
  T("names", "", "diff --git a/x y b/x y\n", "old mode 1\nnew mode 2\n"), T("names", "", "diff --git \"a/\\tx\" b/y\n", "rename from c\nrename to d\n"),
  T("names", "", "diff --git a/x \"b/\\303x\"\n", "old mode 1\nnew mode 2\n"), T("names", H, "rename from a b\nrename to \"\\\"c\"\n", ""),
  T("names", H, "copy from \"\\001\"\ncopy to d/e\n", ""), T("names", H, "--- a/x\t\n+++ \"b/x\"\n", B),
  T("trad", "", "--- a/x\n+++ b/x y\n", B), T("trad", "text\n", "--- a\t1970-01-01 00:00:00 +0000\n", "+++ b\n@@ -0,0 +1 @@\n+a\n"),
  T("trad", "--- \"a\\\\\"\n", "+++ b\t1970-01-01 05:30:00.0 +05:30\n", "@@ -1 +0,0 @@\n-a\n"),
  T("binary", H, "GIT binary patch\nliteral 1\nIcmZPo000310RR91\n\ndelta 2\nA", "00000\n\n"), T("binary", H, "Binary files a and b differ\n", ""),
  T("binary", H \o "GIT binary patch\nliteral 1\nIcmZPo000310RR91\n", "\ndelta 2\nA00000\n\n", H) >>
Ids == {k \in 1..Len(Texts) : Texts[k].group \in Groups}
VARIABLES which, at
Init == which = 0 /\ at = 0
Next == \/ which = 0 /\ which' \in Ids /\ at' = 0
        \/ which > 0 /\ at = 0 /\ which' = which /\ at' \in 1..Len(Texts[which].mid)
Change(t, p, c, gone) == t.pre \o UpTo(t.mid, p - 1) \o Byte(c) \o From(t.mid, p + gone) \o t.suf
(* left open: what Go, but not git, takes for an escape; blanks and commas in time stamps *)
Open(t, p, c) == \/ c \in {85, 117, 120} /\ p > 1 /\ Ch(t.mid, p - 1) = "\\"
                 \/ c \in {32, 44} /\ \E q \in 1..(p - 1) : Ch(t.mid, q) = "\t" /\ t.group = "trad"
Emit == at = 0 \/ \A t \in {Texts[which]} : \A c \in {b \in Bytes : ~Open(t, at, b)} : \A gone \in {0, 1} :
          \A ls \in {Lines(Change(t, at, c, gone))} : \A pr \in {Parse(ls)} :
            /\ FilesConsistent(pr) /\ BlameIsFirst(pr)
            /\ PrintT(ToJson([in |-> ls, res |-> Result(pr), case |-> [kind |-> t.group, free |-> FALSE, cuts |-> <<>>]]))
=============================================================================
