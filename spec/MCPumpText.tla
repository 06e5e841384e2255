------------------------------ MODULE MCPumpText ------------------------------
(* C21, C22, C24: preambles and identities that repeat a piece.  From some         *)
(* repetition on, each further one puts the same characters at the same place of *)
(* the same fields, so what the code must make of a great many is known.         *)
EXTENDS PatchHeader
CONSTANTS Kinds, Reps
Case(k, m, p, u, s) == [kind |-> k, mode |-> m, pre |-> p, unit |-> u, suf |-> s]
Who == "Author: A <a@b>\n"
C1 == "commit 1\n" \o Who
M1 == "From: A <a@b>\nSubject: "
EAcute == Byte(195) \o Byte(169)
Pretty(p, u, s) == Case("pretty", "all", p, u, s)
PrettyCases == <<
  Pretty("commit ", "a", "\n" \o Who \o "\n    t"), Pretty("commit ", "a ", "\n" \o Who), Pretty("commit 1\nAuthor: ", "A ", "<a@b>\n\n    t"),
  Pretty("commit 1\nAuthor: A <", "a", "@b>\n\n    t"), Pretty("commit 1\nAuthor: A <a@", "b.", "c>\nCommit: C <c@d>\n"), Pretty(C1 \o "Commit: C", " D", " <c@d>\n\n    t"),
  Pretty("commit 1\nAuthor: ", " ", "A <a@b>\n"), Pretty("commit 1\nAuthor: A", "\t", "<a@b>\n\n    t"), Pretty("commit 1\n", "Merge: 1 2\n", Who \o "\n    t"),
  Pretty("commit 1\n", Who, "\n    t"), Pretty("commit 1\n", Who \o "Commit: C <c@d>\n", "\n    t"), Pretty("commit 1\n", "X: y\n", ""),
  Pretty(C1 \o "\n    ", "t ", "x\n\n    b"), Pretty(C1 \o "\n    ", "t", "\n    u"), Pretty(C1 \o "\n", "    t\n", "\n    b"), Pretty(C1 \o "\n", "    t\n", "    u"),
  Pretty(C1 \o "\n    t\n\n", "    b\n", ""), Pretty(C1 \o "\n    t\n\n", "    b\n", "\n    c"), Pretty(C1 \o "\n    t\n\n", "    b\n\n", "    c"), Pretty(C1 \o "\n    t\n", "\n", "    c"),
  Pretty(C1 \o "\n    t\n\n    b\n", "\n", "    c"), Pretty(C1 \o "\n    t\n\n    b\n", "    \n", "    c"), Pretty(C1 \o "\n    t\n\n    b\n", "\n\n    c\n", "x"),
  Pretty(C1 \o "\n    t\n\n", "    b\r\n", "    c"), Pretty(C1 \o "\r\n    t\r\n\r\n", "    b\r\n\r\n", "    c\r\n"), Pretty(C1 \o "\n    t\n\n    b", " ", "\n    c"),
  Pretty(C1 \o "\n    t\n\n", " ", "c\n    d"), Pretty(C1 \o "\n    t\n\n    ", "b", "\n    c"), Pretty(C1 \o "\n", "  ", "t\n    u\n\n    v"), Pretty(C1 \o "\n\tt\n\n", "\tb\n", "    c"),
  Pretty(C1 \o "\n    t\n\n", "    ---\n", "    c"), Pretty(C1 \o "\n    t\n\n", "        b\n", "    c\n"), Pretty(C1, "\n", "    t\n\n    b"), Pretty("", "\n", C1 \o "\n    t"),
  Pretty("", " ", C1), Pretty(C1 \o "\n    t", "\n", ""), Pretty(C1 \o "\n    t\n", "    \n", ""), Pretty(C1 \o "Date:", " ", "Tue Apr 2 22:30:00 2019 -0700\n\n    t"),
  Pretty(C1 \o "\n", "    " \o EAcute \o "\n", "\n    " \o EAcute), Pretty(C1 \o "\n    ", EAcute, ""), Pretty("", "x\n", ""), Pretty("commit", "\n", "1"), Pretty(C1, "no field\n", "") >>

Mail(m, p, u, s) == Case("mail", m, p, u, s)
Every(p, u, s) == << Mail("all", p, u, s), Mail("patch", p, u, s), Mail("space", p, u, s) >>
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
MailCases == <<
  Mail("all", "From ", "1", " Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nSubject: s\n\nb"), Mail("all", "From 1 ", "x ", "\nFrom: A <a@b>\nSubject: s"), Mail("patch", "From: ", "A ", "<a@b>\nSubject: s\n\nb"),
  Mail("patch", "From: A <", "a", "@b>\nSubject: s\n\nb"), Mail("space", "From: A <a@b", ".c", ">\nSubject: s\n\nb"), Mail("all", "From: A\n", " B\n", " <a@b>\nSubject: s\n\nb"),
  Mail("all", "From: A <a@b>\n", "X-Y: z\n", "Subject: s\n\nb"), Mail("all", "From: A <a@b>\nX-Y: z\n", "\tq\n", "Subject: s\n\nb"), Mail("all", "From: A <a@b>\nSubject: s\n", "Subject: t\n", "\nb"),
  Mail("all", "From: A <a@b>\n", "From: B <b@c>\n", "Subject: s\n\nb"), Mail("all", "From: A <a@b>\nDate:", " ", "Tue, 2 Apr 2019 22:30:00 -0700\nSubject: s\n\nb"),
  Mail("all", M1 \o "s\n\n", "b\n", ""), Mail("all", M1 \o "s\n\n", "b\n", "---\nc"), Mail("all", M1 \o "s\n\n", "b\n\n", "c"), Mail("all", M1 \o "s\n", "\n", "b"), Mail("all", M1 \o "s\n\nb\n", "\n", "c"),
  Mail("all", M1 \o "s\n\nb\n---\n", "c\n", ""), Mail("all", M1 \o "s\n\nb\n---\n", "---\n", "c"), Mail("all", M1 \o "s\n\nb\n---\n", "\n", "c"), Mail("all", M1 \o "s\n\n", "---\n", "c"),
  Mail("all", M1 \o "s\n\nb\n---\nc\n", " d |  2 +-\n", " 1 file changed"), Mail("all", M1 \o "s\n\n", "b\r\n", "---\r\nc\r\n"), Mail("all", M1 \o "s\n\n", "  b\n", "c"), Mail("all", M1 \o "s\n\n-", "-", "\nc"),
  Mail("all", M1 \o "s\n\nb", " ", "\n---\nc"), Mail("all", M1 \o "s\n\nb\n---", " ", "\nc"), Mail("all", M1 \o "s\n\n", "b", ""), Mail("all", M1 \o "s\n\nb\n---\n", "c", ""), Mail("all", M1 \o "s\n\nb\n", " ---\n", "c"),
  Mail("all", M1 \o "s\n\n", "From: B <b@c>\n", "b"), Mail("all", M1 \o "s\n\n", EAcute \o "\n", "---\n" \o EAcute), Mail("all", "", "\n", M1 \o "s"), Mail("all", M1 \o "s\n\nb", "\n", ""),
  Mail("all", "From 1\n", "From: A <a@b>\n", "Subject: s"), Mail("all", "From: A <a@b>\n", "no field\n", "\nb") >>
  \o Flat(<< Every(M1, "w ", "x\n\nb"), Every(M1, "w", "\n\nb"), Every(M1 \o "v\n", " w\n", "\nb"), Every(M1 \o "v\n", "\t\tw \n", "\nb"), Every(M1, "[PATCH] ", "s\n\nb"), Every(M1, "[PATCH]", "s\n\nb"),
             Every(M1, "[x] ", "s\n\nb"), Every(M1, "[x]", "\n\nb"), Every(M1, "Re: ", "s\n\nb"), Every(M1, "re:", "s"), Every(M1, "Re: [PATCH] ", "s\n\nb"), Every(M1, "[", "s\n\nb"), Every(M1, "[]", "s"),
             Every(M1 \o "[", "x", "] s\n\nb"), Every(M1 \o "[PATCH ", "x ", "1/2] s\n\nb"), Every(M1 \o "[PATCH", "H", "] s\n"), Every(M1, " ", "s\n\nb"), Every(M1 \o "[PATCH]", " ", "s\n\nb"), Every(M1 \o "[PATCH] s", " ", "t"),
             Every(M1 \o "Re:", " ", "s"), Every(M1, ": ", "s"), Every(M1 \o "[PATCH] s ", "[PATCH] ", "t"), Every(M1 \o "s: ", "re: ", "t"), Every(M1 \o "[x", "\t", "PATCH] s"), Every(M1 \o "[a] ", "[PATCH] ", "[b] s"),
             Every(M1 \o "=?UTF-8?q?a?=", " =?UTF-8?q?b?=", "\n\nb"), Every(M1 \o "=?UTF-8?q?a?=\n", " =?UTF-8?q?b?=\n", "\nb"), Every(M1 \o "[PATCH] =?UTF-8?q?a", "=20", "b?=\n\nb"),
             Every(M1 \o "[PATCH] =?UTF-8?q?a", "=C3=A9", "?=\n\nb"), Every(M1 \o "=?UTF-8?q?", "x", "?="), Every(M1 \o "=?UTF-8?q?", "_", "x?="), Every(M1, "[PATCH] ", "=?UTF-8?q?x?=\n\nb"), Every(M1, "v ", "=?UTF-8?q?x?=") >>)

Ident(p, u, s) == Case("identity", "all", p, u, s)
IdentCases == <<
  Ident("", "A ", "<a@b>"), Ident("", "A", " <a@b>"), Ident("A", " ", "B <a@b>"), Ident("A <", "a", "@b>"), Ident("A <a@", "b.", "c>"), Ident("A <a@b>", " ", ""), Ident("", "\t", "A <a@b>"),
  Ident("\"A ", "B ", "C\" <a@b>"), Ident("\"A", "\\\"", "B\" <a@b>"), Ident("\"A", "\\\\", "B\" <a@b>"), Ident("", "\"\"", "A <a@b>"), Ident("", "\"A\" ", "<a@b>"), Ident("A", "\\", "B <a@b>"),
  Ident("(", "x ", ") <a@b>"), Ident("", "(", "x) <a@b>"), Ident("(x", ")", " <a@b>"), Ident("(", "\\)", ") <a@b>"), Ident("(", "(x) ", ") <a@b>"), Ident("A (", "\"", ") <a@b>"), Ident("a@b ", "(x) ", ""),
  Ident("", "a", "@b"), Ident("a@", "b", ""), Ident("a@b", " c", ""), Ident("a", "@", "b"), Ident("A <", "<", "a@b>"), Ident("A <a@b", ">", ""), Ident("A <a@b> ", "<c@d> ", ""), Ident("A <", " ", "a>"),
  Ident("A <", "x ", "y>"), Ident("A <x>", " y", ""), Ident("A ", "<x>", ""), Ident("A", ",", " <a@b>"), Ident("", EAcute, " <a@b>"), Ident("A <", EAcute, "@b>"), Ident("<", "a", "@b>"), Ident("", "A", ""), Ident("", " ", ""),
  Ident("", "<", ""), Ident("", ">", "<a>"), Ident("<a@b> ", "A ", ""), Ident("A <a@b> ", "B", ""), Ident("A\n", "\n", "<a@b>"), Ident("A", ".", " <a@b>"), Ident("'", "'", "A' <a@b>") >>
Cases == IF Kinds = "pretty" THEN PrettyCases ELSE IF Kinds = "mail" THEN MailCases ELSE IdentCases

Of(c, n) == LET t == c.pre \o Repeat(c.unit, n) \o c.suf IN
  IF c.kind = "identity" THEN LET u == ParseIdentity(t) IN [is |-> IF u.ok THEN "yes" ELSE "no", u |-> u] ELSE ParseHeader(t, c.mode)
Texts(r) == IF Kinds = "identity" THEN <<r.u.name, r.u.email>>
            ELSE <<r.sha, r.author.name, r.author.email, r.committer.name, r.committer.email, r.title, r.prefix, r.body, r.appendix, r.message>>
VARIABLES which, hist
Init == which \in 1..Len(Cases) /\ hist = <<>>
Next == Len(hist) < Reps /\ hist' = Append(hist, Of(Cases[which], Len(hist))) /\ UNCHANGED which

RECURSIVE Common(_, _, _)
Common(a, b, i) == IF i <= Len(a) /\ i <= Len(b) /\ Ch(a, i) = Ch(b, i) THEN Common(a, b, i + 1) ELSE i - 1
(* where and what a further repetition adds *)
Growth(a, b) == LET l == Common(a, b, 1) d == Len(b) - Len(a) IN
  IF d < 0 THEN [p |-> "", u |-> "?", s |-> ""] ELSE [p |-> UpTo(b, l), u |-> SubSeq(b, l + 1, l + d), s |-> From(b, l + d + 1)]
Grown(g, k) == g.p \o Repeat(g.u, k) \o g.s
N == Len(hist)
Rest(r) == IF Kinds = "identity" THEN r.is ELSE <<r.is, r.adate, r.cdate, r.author.ok, r.committer.ok>>
Regular == N >= Reps - 1 => \A i \in DOMAIN Texts(hist[N]) : \A g \in {Growth(Texts(hist[N - 2])[i], Texts(hist[N - 1])[i])} :
  /\ Rest(hist[N]) = Rest(hist[N - 1])
  /\ Grown(g, 0) = Texts(hist[N - 2])[i] /\ Grown(g, 1) = Texts(hist[N - 1])[i] /\ Grown(g, 2) = Texts(hist[N])[i]
Emit == N = Reps => \A a \in {Texts(hist[N - 1])} : \A b \in {Texts(hist[N])} :
  PrintT(ToJson([pre |-> Cases[which].pre, unit |-> Cases[which].unit, suf |-> Cases[which].suf, mode |-> Cases[which].mode, kind |-> Kinds,
                 at |-> N - 2, want |-> hist[N], grow |-> [i \in DOMAIN a |-> Growth(a[i], b[i])]]))
=============================================================================
