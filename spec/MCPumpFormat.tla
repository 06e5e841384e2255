----------------------------- MODULE MCPumpFormat -----------------------------
(* C19, C28: patches that repeat a piece, parsed and formatted.  From some          *)
(* repetition on, each further one puts the same characters at the same place of *)
(* the formatted text (but for line counts), so the text of a patch of any size  *)
(* is known; and the files come back from it.                                    *)
EXTENDS Format
CONSTANTS Reps
H == "diff --git a/x b/x\n"
HT == H \o "--- a/x\n+++ b/x\n"
F1 == "@@ -1 +1 @@\n-a\n+b\n"
NoNL == "\\ No newline at end of file\n"
G(f) == H \o "GIT binary patch\n" \o f
Modes == "old mode 100644\nnew mode 100755\n"
Case(p, u, s) == [pre |-> p, unit |-> u, mid |-> "", suf |-> s]
Twice(p, u, m, s) == [pre |-> p, unit |-> u, mid |-> m, suf |-> s]
Full == DataLines([i \in 1..52 |-> (i * 37) % 256])[1]
Rest == DataLines([i \in 1..7 |-> i])[1]
Cases == <<
  Case(HT \o "@@ -0,0 +1,# @@\n", "+x\n", ""), Case(HT \o "@@ -1,# +0,0 @@\n", "-x\n", ""), Case(HT \o "@@ -1,# +1,# @@\n", "-x\n+y\n", F1),
  Case(HT \o "@@ -1,~ +1,~ @@\n", " c\n", "-x\n+y\n"), Case(HT \o "@@ -1,~ +1,~ @@\n-x\n+y\n", " c\n", F1), Twice(HT \o "@@ -1,! +1,! @@\n", " c\n", "-x\n+y\n", HT \o F1),
  Case(HT \o "@@ -1,! +1,~ @@\n", " c\n-d\n", "-x\n+y\n" \o NoNL), Case(HT \o "@@ -1,~ +1,~ @@ f\n-x\n+x\n", "\n", F1), Case(HT \o "@@ -1,~ +1,~ @@ f\n-x\n+x\n", " \n", F1),
  Case("--- a\n+++ b\n@@ -1,~ +1,! @@\n-x\n", " c\n+d\n", "+y\n" \o F1), Case("--- /dev/null\n+++ b\n@@ -0,0 +1,# @@\n", "+x\n", NoNL \o HT \o F1),
  Case("--- a\n+++ /dev/null\n@@ -1,# +0,0 @@\n", "-x\n", NoNL), Case(HT \o "@@ -1,~ +1 @@\n", "-x\n", "-z\n" \o NoNL \o "+y\n"), Case(HT \o "@@ -1 +1,~ @@\n-a\n", "+\n", "+y\n" \o NoNL),
  Case(HT \o "@@ -0,0 +1,# @@\n", "++\n", ""), Case(HT \o "@@ -0,0 +1,# @@\n", "+-- a\n", ""), Case(HT \o "@@ -1,# +0,0 @@\n", "--- a\n", HT \o F1), Case(HT \o "@@ -0,0 +1,# @@\n", "+x\r\n", ""),
  Case(HT, F1, ""), Case(HT \o F1, "@@ -5,2 +5,3 @@ f\n c\n-d\n+e\n+f\n", ""), Case("", HT \o F1, ""), Case("text\n", HT \o "@@ -1 +1 @@ c\n-a\n" \o NoNL \o "+b\n", ""), Case("", H \o Modes, ""),
  Case("", H \o "new file mode 100644\n", H \o "deleted file mode 100644\n"), Case("", "--- a\n+++ b\n" \o F1, ""), Case("", G("literal 1\n" \o Rest \o "\nliteral 2\n" \o Rest \o "\n"), HT \o F1),
  Case("", H \o "Binary files a/x and b/x differ\n", ""), Case("", "diff --git a/x b/y\nsimilarity index 90%\nrename from x\nrename to y\n", HT \o F1), Case("", H \o "new file mode 100644\nindex 0..1\n--- /dev/null\n+++ b/x\n@@ -0,0 +1 @@\n+a\n", ""),
  Case(HT \o "@@ -1 +1 @@\n-", "ab", "\n+c\n"), Case(HT \o "@@ -1 +1 @@\n-a\n+", Byte(255), "\n"), Case(HT \o "@@ -1 +1 @@\n-a\n+", "\r", "\n" \o NoNL), Case(HT \o "@@ -1 +1 @@ f", " f", "\n-a\n+b\n"), Case(HT \o "@@ -1 +1 @@ ", " @@ -1 +1", " @@\n-a\n+b\n"),
  Case(HT \o "@@ -1 +1 @@\n-", " ", "\n+\n"), Twice("diff --git a/", "n", " b/", "\n" \o Modes), Twice("diff --git a/", "d/", "n b/", "n\n" \o Modes), Twice("diff --git a/", "a b ", "c b/", "c\n" \o Modes),
  Twice("diff --git \"a/", "\\303\\251", "\" \"b/", "\"\n" \o Modes), Twice("diff --git \"a/", "\\t", "\" \"b/", "\"\n" \o Modes), Twice("diff --git \"a/", "\\\"", "x\" \"b/", "x\"\n" \o Modes), Twice("diff --git \"a/", "\\\\", "\" \"b/", "\"\n" \o Modes),
  Twice("diff --git \"a/p\\001", " ", "q\" \"b/p\\001", "q\"\n" \o Modes), Case("diff --git a/x b/y\nsimilarity index 90%\nrename from ", "n", "\nrename to y\n"), Case("diff --git a/x b/y\ncopy from x\ncopy to \"", "\\001", "\"\n"), Case("diff --git a/x b/y\nrename from x\nrename to ", "d/", "n\n"),
  Case("--- ", "n", "\n+++ y\n" \o F1), Case("--- x\n+++ \"", "\\n", "\"\n" \o F1), Case(H \o "index ", "0", "1..1\n" \o Modes), Case(H \o "index 1..", "f", " 100644\n--- a/x\n+++ b/x\n" \o F1),
  Case(G("literal 9\n"), Full, "\nliteral 0\n\n"), Case(G("literal 9\n"), Full, Rest \o "\n"), Case(G("delta 9\n" \o Full \o "\ndelta 9\n"), Full, "\n"), Case(G("delta 5\n"), Full \o Full \o Full, Rest \o "\nliteral 1\n" \o Rest \o "\n"),
  Case(G("literal 9\n"), "zz{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;z{Sv;\n", "\n"), Case(G("literal 9\n"), Repeat(Rest, 52), "\n"), Case(G("literal 9\n"), Repeat("A00000\n", 52), "\n"), Case(G("literal 9\n"), Repeat("D00000\n", 13), "\n"),
  Case(H \o "similarity index 90%\nrename from x\n", "rename to y\n", HT \o F1), Case(H, "index 1..2\n", Modes \o HT \o F1), Twice("", HT \o F1 \o "\n", "text\n", HT \o F1) >>

Number(s, n) == FoldLeft(LAMBDA a, i : a \o LET c == SubSeq(s, i, i) IN CASE c = "#" -> ToString(n) [] c = "~" -> ToString(n + 1) [] c = "!" -> ToString(2 * n + 1) [] OTHER -> c,
                         "", [i \in 1..Len(s) |-> i])
Counted(c) == HasSub(c.pre, "@@ -") /\ (HasSub(c.pre, "#") \/ HasSub(c.pre, "~") \/ HasSub(c.pre, "!"))
Text(c, n) == (IF Counted(c) THEN Number(c.pre, n) ELSE c.pre) \o Repeat(c.unit, n) \o c.mid \o (IF c.mid = "" THEN "" ELSE Repeat(c.unit, n)) \o c.suf
(* the counts that grow are put back as marks *)
Mark(s, n) == CASE s = ToString(n) -> "#" [] s = ToString(n + 1) -> "~" [] s = ToString(2 * n + 1) -> "!" [] OTHER -> s
Marked(f, n) == [f EXCEPT !.frags = [i \in 1..Len(f.frags) |-> [f.frags[i] EXCEPT !.olines = Mark(@, n), !.nlines = Mark(@, n)]]]
(* files whose text gives the same files again *)
Back(fs) == LET q == Parse(Lines(FormatAll(fs))) IN q.mode = "done" /\ q.files = fs
Shape(c, n) == LET r == Parse(Lines(Text(c, n))) IN
  [ok |-> r.mode = "done", back |-> Back(r.files), text |-> Concat([i \in 1..Len(r.files) |-> FormatFile(IF Counted(c) THEN Marked(r.files[i], n) ELSE r.files[i])])]

VARIABLES which, hist
From0 == 7                              \* counts of fragments that do not grow are smaller
Init == which \in 1..Len(Cases) /\ hist = <<>>
Next == Len(hist) < Reps /\ hist' = Append(hist, Shape(Cases[which], From0 + Len(hist))) /\ UNCHANGED which

RECURSIVE Common(_, _, _)
Common(a, b, i) == IF i <= Len(a) /\ i <= Len(b) /\ Ch(a, i) = Ch(b, i) THEN Common(a, b, i + 1) ELSE i - 1
Growth(a, b) == LET l == Common(a, b, 1) d == Len(b) - Len(a) IN
  IF d < 0 THEN [p |-> "", u |-> "?", s |-> ""] ELSE [p |-> UpTo(b, l), u |-> SubSeq(b, l + 1, l + d), s |-> From(b, l + d + 1)]
Grown(g, k) == g.p \o Repeat(g.u, k) \o g.s
N == Len(hist)
(* a text with as many lines as the one before grows in its lines, each side of    *)
(* the first one by itself, any other on each side of what is in the middle                              *)
Cut(l) == LET i == IF HasPrefix(l, "diff --git ") THEN Index(l, IF HasSub(l, " \"b/") THEN " \"b/" ELSE " b/", 1) ELSE 0 IN IF i = 0 THEN <<l>> ELSE <<UpTo(l, i - 1), From(l, i)>>
Pieces(t) == FoldLeft(LAMBDA a, l : a \o Cut(l), <<>>, Lines(t))
Halves(t, mid) == LET i == IF mid = "" THEN 0 ELSE Index(t, mid, 1) IN IF i = 0 THEN <<t>> ELSE <<UpTo(t, i - 1), From(t, i)>>
Split(t) == IF Len(Lines(hist[1].text)) = Len(Lines(hist[N].text)) THEN Pieces(t) ELSE Halves(t, Cases[which].mid)
Regular == N = Reps =>
  /\ hist[N].ok /\ hist[N - 1].ok /\ hist[N].back = hist[N - 1].back
  /\ \A a \in {Split(hist[N - 2].text)} : \A b \in {Split(hist[N - 1].text)} : \A c \in {Split(hist[N].text)} :
       Len(a) = Len(b) /\ Len(b) = Len(c) /\
       \A i \in DOMAIN a : \A g \in {Growth(a[i], b[i])} : Grown(g, 0) = a[i] /\ Grown(g, 1) = b[i] /\ Grown(g, 2) = c[i]
Emit == N = Reps => \A a \in {Split(hist[N - 1].text)} : \A b \in {Split(hist[N].text)} :
  PrintT(ToJson([pre |-> Cases[which].pre, unit |-> Cases[which].unit, mid |-> Cases[which].mid, suf |-> Cases[which].suf, counted |-> Counted(Cases[which]),
                 at |-> From0 + N - 2, back |-> hist[N].back, grow |-> [i \in DOMAIN a |-> Growth(a[i], b[i])]]))
=============================================================================
