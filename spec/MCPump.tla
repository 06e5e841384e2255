-------------------------------- MODULE MCPump --------------------------------
(* C20: inputs that repeat one piece (or two).  From some repetition on, every    *)
(* further repetition costs the parser the same number of steps and adds the     *)
(* same number of files, fragments, lines, bytes of names ..., so the machine is  *)
(* linear; the real parser is then run *)
(* with a great many repetitions.                                                *)
EXTENDS Parser
CONSTANTS Reps
H == "diff --git a/x b/x\n"
HT == H \o "--- a/x\n+++ b/x\n"
F1 == "@@ -1 +1 @@\n-a\n+b\n"
NoNL == "\\ No newline at end of file\n"
Case(p, u, s) == [pre |-> p, unit |-> u, mid |-> "", suf |-> s]
(* the piece is repeated as often again after the middle *)
Twice(p, u, m, s) == [pre |-> p, unit |-> u, mid |-> m, suf |-> s]
Modes == "\nold mode 100644\nnew mode 100755\n"
Cases == <<
  Case("", "a\n", ""), Case("", "\n", HT \o F1), Case("", "a", ""), Case("", "--- a\n", ""),
  Case("", "--- a\n+++ b\n", ""), Case("", "--- a\n+++ b\n" \o F1, ""), Case("", H, ""), Case("", H \o "index 1..2\n", "x"),
  Case("", HT \o F1, ""), Case(HT, F1, ""), Case(HT, F1, "@@ -1 +1 @@\n-a\n"), Case(HT \o "@@ -0,0 +1,99999999 @@\n", "+x\n", ""),
  Case(HT \o "@@ -99999999,99999999 +1 @@\n", "-x\n", ""), Case(HT \o "@@ -1,99999999 +1,99999999 @@\n", " \n", "@"),
  Case(HT \o "@@ -1,99999999 +1,99999999 @@\n", "\n", ""), Case(HT \o "@@ -1 +1 @@\n-a\n", NoNL, "+b\n"), Case(HT \o F1, NoNL, ""),
  Case(HT, "@@ -1 +1 @@\n", "-a\n+b\n"), Case(HT \o "@@ -1 +1 @@\n-", "ab", "\n+c\n"), Case(HT \o "@@ -1 +1 @@ ", " ", "\n-a\n+b\n"),
  Case(HT \o "@@ -1 +1 @@ ", " @@", "\n-a\n+b\n"), Case(HT \o "@@ -1 ", "+", "1 @@\n-a\n+b\n"), Case(HT \o "@@ -", "0", "1 +1 @@\n-a\n+b\n"),
  Case(HT \o "@@ -", "99999", "1 +1 @@\n-a\n+b\n"), Case(H, "index 1..2\n", ""), Case(H, "index 1..2 100644\n", F1), Case(H, "old mode 1\n", ""),
  Case(H \o "index ", ".", "\n"), Case(H \o "old mode ", " ", "1\n"), Case(H \o "similarity index ", "0", "9%\n"),
  Case("diff --git a", "/x", " b/y\n"), Case("diff --git a/", "/", "x b/x\nold mode 1\n"), Case("diff --git ", "a ", "\n"), Case("diff --git ", " ", "\n"),
  Case("diff --git \"a/", "\\001", "\" b/x\nrename from a\nrename to b\n"), Case("diff --git \"a/", "\\\\", "\" b/x\n"), Case("diff --git \"", "x", "\n"),
  Case("diff --git a/x \"", "\"", "\n"), Case(H \o "rename from ", "/", "\nrename to b\n"), Case(H \o "copy from \"", "\\\"", "\"\ncopy to b\n"),
  Case("--- ", "a/", "\n+++ b\n" \o F1), Case("--- \"", "\\t", "\"\n+++ b\n" \o F1), Case("--- a", "\t", "\n+++ b\n" \o F1),
  Case(H \o "GIT binary patch\nliteral 9\n", "A0000\n", "\n"), Case(H \o "GIT binary patch\nliteral 9\n", "A00000\n", "\n"),
  Case(H \o "GIT binary patch\nliteral 9\n", "zD0000D0000D0000D0000D0000D0000D0000D0000D0000D0000D0000D0000D0000\n", "\n"),
  Case(H \o "GIT binary patch\n", "literal 1\n", ""), Case(H \o "GIT binary patch\nliteral ", "0", "\n\n"), Case(H, "Binary files a and b differ\n", ""),
  Case("From ", "From ", "\n\n"), Case("commit 1\n", "Author: a <b@c>\n", "\n"), Case("commit 1\n\n", "    x\n", ""), Case("From: a <b@c>\n", "Subject: x\n", "\n"),
  Case("From: ", "a <", "\n\n"), Case("From: ", "=?UTF-8?q?a?= ", "\n\n"), Case("From: a <b@c>\nSubject: ", "[", "\n\n"), Case("From: a <b@c>\nSubject: ", "[]", "\n\n"),
  Case("From: a <b@c>\nSubject: ", "re:", "\n\n"), Case("From: a <b@c>\nSubject: =?UTF-8?q?", " =?UTF-8?q?", "\n\n"), Case("From: a <b@c>\nSubject: x\n", " y\n", "\n"),
  Case("From: a <b@c>\n\n", "---\n", ""), Case("From: \"", "\\", "\n\n"), Case("From: ", "(", "\n\n"), Case("From: ", "@", "\n\n"), Case("Date: ", "1", "\n\n"),
  Case("diff --git a/", "a ", "\n"), Case("diff --git a/", "a ", "/\n"), Case("diff --git a/", "a /", "\n"), Case("diff --git a/", "a b/", "\nrename from x\nrename to y\n"),
  Twice("diff --git a/", "a ", "z b/", "z" \o Modes), Twice("diff --git a/", "x/y ", "z b/", "z" \o Modes), Twice("diff --git a/", " b/", "z b/", "z" \o Modes),
  Twice("diff --git a/", "/n", " b/", Modes), Twice("diff --git a/d", "//n", "z b/d", "z" \o Modes), Twice("diff --git a/", "n", " b/", Modes), Twice("diff --git \"a/", "\\303\\251", "\" \"b/", "\"" \o Modes),
  Twice("diff --git \"a/", "\\t", "\" \"b/", "\"" \o Modes), Twice("diff --git a/", " ", "z b/", "z" \o Modes), Twice("diff --git \"a/\\\"", " ", "x\" \"b/\\\"", "x\"" \o Modes),
  Twice("diff --git a/x b/y\nsimilarity index 90%\nrename from ", "a ", "q\nrename to ", "r\n"), Twice("diff --git a/x b/y\ncopy from ", "d/", "q\ncopy to ", "r\n"),
  Twice("diff --git a/x b/x\nindex ", "0", "1..1", "\n"), Twice("diff --git a/x b/x\n--- a/", "x y ", "\t\n+++ b/", "\t\n" \o F1), Twice("--- ", "x y ", "\n+++ ", "\n" \o F1),
  Twice("--- \"", "x\\\\y", "\"\n+++ \"", "\"\n" \o F1), Twice("--- n", "-", "\n+++ n", "~\n" \o F1), Twice("--- d/n\t", "1970", "\n+++ d/n\t", "\n" \o F1),
  Twice(HT \o "@@ -1 +1 @@\n-", "ab", "\n+", "\n"), Twice(HT \o "@@ -1,99 +1,99 @@\n", " c\n", "-x\n+y\n", ""), Twice(HT \o F1, "@@ -7,2 +7,3 @@ f\n c\n-d\n+e\n+f\n", NoNL \o HT \o F1, ""),
  Twice("", HT \o F1 \o "\n", "--- u\n+++ u\n" \o F1, "text\n"), Twice("", H \o "new file mode 100644\n", H \o "deleted file mode 100644\n", ""),
  Twice("text\n", "diff --git a/m b/m\ndeleted file mode 100644\n", "diff --git a/m b/n\nrename from m\nrename to n\n", "diff --git a/m b/m\nnew file mode 100644\n"),
  Twice(H \o "GIT binary patch\nliteral 9\n", "A00000\n", "\ndelta 7\n", "\n"), Twice("", H \o "GIT binary patch\nliteral 1\nA00000\n\n", H \o "GIT binary patch\nliteral 1\nA00000\n\nliteral 2\nB00000\n\n", "x"),
  Case(H \o "rename from a", "//b", "\nrename to y\n"), Case(H \o "copy from x\ncopy to \"a", "//", "b\"\n"), Case("--- a", "//b", "\n+++ a\n" \o F1),
  Case(H, "index 1..2\n", "old mode 100644\nnew mode 100755\n--- a/x\n+++ b/x\n" \o F1), Case(H, "similarity index 7%\n", "rename from x\nrename to y\n"),
  Case(H \o "new mode 100755\n", "--- a/x\n+++ b/x\n", F1), Case(H, "rename from x\nrename to y\n", "similarity index 90%\n"), Case(H, "new file mode 100644\n", "index 1..2\n"),
  Case(HT \o F1, "text\n", HT \o F1), Case(H \o "Binary files a and b differ\n", H \o "new mode 1\nold mode 2\n", "x"),
  Case(H \o "index 1..2 ", "0", "644\n"), Case(HT \o "@@ -1,", "0", "1 +1 @@\n-a\n+b\n"), Case(H \o "similarity index ", "0", "90%\nrename from x\nrename to y\n"),
  Twice(HT \o "@@ -1 +1 @@ ", "fn ", "\n-a\n", "+b\n"), Twice("--- a\n", "--- a\n", "+++ a\n@@ -1 +1 @@\n-a\n+b\n", "\n"),
  (* fragments as long as their headers say *)
  Case(HT \o "@@ -0,0 +1,# @@\n", "+x\n", ""), Case(HT \o "@@ -1,# +0,0 @@\n", "-x\n", ""), Case(HT \o "@@ -1,# +1,# @@\n", "-x\n+y\n", F1),
  Case(HT \o "@@ -1,~ +1,~ @@\n", " c\n", "-x\n+y\n"), Case(HT \o "@@ -1,~ +1,~ @@\n-x\n+y\n", " c\n", F1), Twice(HT \o "@@ -1,! +1,! @@\n", " c\n", "-x\n+y\n", HT \o F1),
  Case(HT \o "@@ -1,! +1,~ @@\n", " c\n-d\n", "-x\n+y\n" \o NoNL), Case(HT \o "@@ -#,~ +#,~ @@\n-x\n+x\n", "\n", F1), Case("--- a\n+++ b\n@@ -1,~ +1,! @@\n-x\n", " c\n+d\n", "+y\n" \o F1),
  Case("--- /dev/null\n+++ b\n@@ -0,0 +1,# @@\n", "+x\n", NoNL \o HT \o F1), Case("--- a\n+++ /dev/null\n@@ -1,# +0,0 @@\n", "-x\n", NoNL),
  Case(HT \o "@@ -1,# +1,# @@\n", " x\n", ""), Case(HT \o "@@ -1,~ +1,# @@\n", " x\n", ""), Case(HT \o "@@ -1,# +1,~ @@\n", "-x\n+y\n", "") >>

(* in the first piece # stands for the number of repetitions, ~ for one more, ! for one more than twice as many *)
Number(s, n) == FoldLeft(LAMBDA a, i : a \o LET c == SubSeq(s, i, i) IN CASE c = "#" -> ToString(n) [] c = "~" -> ToString(n + 1) [] c = "!" -> ToString(2 * n + 1) [] OTHER -> c,
                         "", [i \in 1..Len(s) |-> i])

RECURSIVE RunCount(_, _)
RunCount(ps, n) == IF Finished(ps) THEN [ps |-> ps, n |-> n] ELSE RunCount(Step(ps), n + 1)
Sum(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
OverFrags(fs, F(_)) == Sum(fs, LAMBDA f : Sum(f.frags, F))
(* everything that can be counted in a result *)
Measure(ps) ==
  << Len(ps.files), OverFrags(ps.files, LAMBDA g : 1), OverFrags(ps.files, LAMBDA g : Len(g.lines)),
     OverFrags(ps.files, LAMBDA g : g.added), OverFrags(ps.files, LAMBDA g : g.deleted),
     OverFrags(ps.files, LAMBDA g : g.lead), OverFrags(ps.files, LAMBDA g : g.trail),
     OverFrags(ps.files, LAMBDA g : Len(g.comment)), OverFrags(ps.files, LAMBDA g : Sum(g.lines, LAMBDA l : Len(l.text))),
     Sum(ps.files, LAMBDA f : Len(f.old)), Sum(ps.files, LAMBDA f : Len(f.new)), Sum(ps.files, LAMBDA f : Len(f.ooid) + Len(f.noid)),
     Sum(ps.files, LAMBDA f : IF f.bin.method = "none" THEN 0 ELSE 1), Sum(ps.files, LAMBDA f : IF f.rev.method = "none" THEN 0 ELSE 1),
     Cardinality({i \in 1..Len(ps.files) : ps.files[i].isNew}), Cardinality({i \in 1..Len(ps.files) : ps.files[i].isDel}),
     IF ps.mode = "fail" THEN 0 ELSE ps.pre,
     Sum(ps.files, LAMBDA f : Len(f.bin.data) + Len(f.rev.data)), Sum(ps.files, LAMBDA f : f.omode + f.nmode), Sum(ps.files, LAMBDA f : f.score),
     Cardinality({i \in 1..Len(ps.files) : ps.files[i].isCopy}), Cardinality({i \in 1..Len(ps.files) : ps.files[i].isRen}),
     Cardinality({i \in 1..Len(ps.files) : ps.files[i].isBin}) >>
Text(c, n) == Number(c.pre, n) \o Repeat(c.unit, n) \o c.mid \o (IF c.mid = "" THEN "" ELSE Repeat(c.unit, n)) \o c.suf
Shape(c, n) == LET r == RunCount(ParserStart(Lines(Text(c, n)), TRUE), 0)
               IN [err |-> r.ps.mode = "fail", m |-> Measure(r.ps), steps |-> r.n]
VARIABLES which, hist
Init == which \in 1..Len(Cases) /\ hist = <<>>
Next == Len(hist) < Reps /\ hist' = Append(hist, Shape(Cases[which], Len(hist))) /\ UNCHANGED which
N == Len(hist)
Last1(k) == hist[N - k]
Slope(k) == [i \in DOMAIN Last1(k).m |-> Last1(k).m[i] - Last1(k + 1).m[i]]
Affine == N >= 8 =>
  /\ Last1(0).err = Last1(1).err
  /\ Slope(0) = Slope(1)
  /\ Last1(0).steps - Last1(1).steps = Last1(1).steps - Last1(2).steps
Emit == N = Reps => PrintT(ToJson([pre |-> Cases[which].pre, unit |-> Cases[which].unit, mid |-> Cases[which].mid, suf |-> Cases[which].suf,
                                   at |-> N - 1, err |-> Last1(0).err, m |-> Last1(0).m, slope |-> Slope(0)]))
=============================================================================
