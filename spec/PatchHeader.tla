------------------------------ MODULE PatchHeader ------------------------------
(* The preamble of a patch read line by line: git log's pretty forms and mail.   *)
(* A machine state is a record; HStep takes one line.                              *)
EXTENDS Identity, Dates

TrimBlanks(s) ==                        \* spaces and tabs at both ends
  LET I == {i \in 1..Len(s) : Ch(s, i) \notin {" ", "\t"}}
  IN IF I = {} THEN "" ELSE SubSeq(s, CHOOSE a \in I : \A b \in I : a <= b, CHOOSE a \in I : \A b \in I : a >= b)
IndentOf(line) == UpTo(line, Len(line) - Len(TrimLeft(line)))
FirstField(s) == LET i == Index(s, " ", 1) IN IF i > 1 THEN UpTo(s, i - 1) ELSE ""

Nobody == [ok |-> FALSE, name |-> "", email |-> ""]
Never == [No EXCEPT !.is = "zero"]
HStart == [pc |-> "first", sha |-> "", author |-> Nobody, adate |-> Never, committer |-> Nobody, cdate |-> Never,
           title |-> "", prefix |-> "", body |-> "", appendix |-> "",
           indent |-> "", gap |-> FALSE,          \* of the message being read
           held |-> "", from |-> "", date |-> "", subject |-> "", got |-> {}]   \* of the mail header being read
Bad(h) == [h EXCEPT !.pc = "failed"]

---------------------------------------------------------------------------
(* the message's lines *)
BodyStep(h, line) ==
  LET t == TrimPrefix(TrimRight(line), h.indent)
      into == IF h.pc = "appendix" THEN "appendix" ELSE "body"
      sep == IF h[into] = "" THEN "" ELSE IF h.gap THEN "\n\n" ELSE "\n"
  IN IF t = "" THEN [h EXCEPT !.gap = TRUE]
     ELSE IF h.pc = "mailbody" /\ t = "---" THEN [h EXCEPT !.pc = "appendix"]
     ELSE [h EXCEPT ![into] = @ \o sep \o t, !.gap = FALSE]
TitleStep(h, line) ==
  LET t == TrimSpace(line) IN
  IF t = "" THEN [h EXCEPT !.pc = IF h.title = "" THEN "unclear" ELSE "body"]
  ELSE IF h.title = "" THEN [h EXCEPT !.title = t, !.indent = IndentOf(line)]
  ELSE [h EXCEPT !.title = @ \o " " \o t]

(* git log's fields *)
FieldStep(h, line) ==
  LET after(k) == From(line, Len(k) + 1)
      who(k) == ParseIdentity(after(k))
      when(k) == ParseDate(TrimSpace(after(k)))
      set(f, u) == IF u.ok THEN [h EXCEPT ![f] = u] ELSE Bad(h)
      put(f, d) == CASE d.is = "no" -> Bad(h) [] d.is = "unclear" -> [h EXCEPT !.pc = "unclear"] [] OTHER -> [h EXCEPT ![f] = d]
  IN CASE TrimSpace(line) = "" -> [h EXCEPT !.pc = "title"]
       [] HasPrefix(line, "Author:") -> set("author", who("Author:"))
       [] HasPrefix(line, "Commit:") -> set("committer", who("Commit:"))
       [] HasPrefix(line, "Date:") -> put("adate", when("Date:"))
       [] HasPrefix(line, "AuthorDate:") -> put("adate", when("AuthorDate:"))
       [] HasPrefix(line, "CommitDate:") -> put("cdate", when("CommitDate:"))
       [] OTHER -> h

---------------------------------------------------------------------------
(* subjects *)
TagEnd(s, i) == IF Ch(s, i) = "[" THEN Index(s, "]", i) ELSE 0
IsReply(s, i) == i + 2 <= Len(s) /\ Ch(s, i) \in {"r", "R"} /\ Ch(s, i + 1) \in {"e", "E"} /\ Ch(s, i + 2) = ":"
RECURSIVE CleanFrom(_, _, _)
(* the first position that is not part of what is removed *)
CleanFrom(s, i, mode) ==
  IF i > Len(s) THEN i
  ELSE IF Ch(s, i) \in {" ", "\t", ":"} THEN CleanFrom(s, i + 1, mode)
  ELSE IF IsReply(s, i) THEN CleanFrom(s, i + 3, mode)
  ELSE LET e == TagEnd(s, i) IN
       IF e > 0 /\ (mode = "all" \/ HasSub(SubSeq(s, i, e), "PATCH")) THEN CleanFrom(s, e + 1, mode)
       ELSE i

EncStart == "=?UTF-8?q?"
HexDigits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"} |->
                IF Ord(c) <= 57 THEN Ord(c) - 48 ELSE Ord(c) - 55]
RECURSIVE Unquote(_)
Unquote(s) ==
  LET i == Index(s, "=", 1) IN
  IF i = 0 THEN s
  ELSE UpTo(s, i - 1) \o Byte(16 * HexDigits[Ch(s, i + 1)] + HexDigits[Ch(s, i + 2)]) \o Unquote(From(s, i + 3))
(* bytes that may stand in an encoded word as git writes it *)
WordChars == {Byte(a) : a \in 33..126} \ {"=", "?", "_"}
IsWord(w) ==
  /\ HasPrefix(w, EncStart) /\ HasSuffix(w, "?=") /\ Len(w) >= Len(EncStart) + 2
  /\ LET t == SubSeq(w, Len(EncStart) + 1, Len(w) - 2) IN
     \A i \in 1..Len(t) : \/ Ch(t, i) \in WordChars
                          \/ /\ Ch(t, i) = "=" /\ i + 2 <= Len(t)
                             /\ Ch(t, i + 1) \in DOMAIN HexDigits /\ Ch(t, i + 2) \in DOMAIN HexDigits
RECURSIVE Words(_)
Words(s) == LET i == Index(s, " ", 1) IN IF i = 0 THEN <<s>> ELSE <<UpTo(s, i - 1)>> \o Words(From(s, i + 1))
IsEncoded(s) == LET w == Words(s) IN \A i \in 1..Len(w) : IsWord(w[i])
DecodeWords(s) == Concat([i \in 1..Len(Words(s)) |-> Unquote(SubSeq(Words(s)[i], Len(EncStart) + 1, Len(Words(s)[i]) - 2))])
(* [t, clear]: encoded words at the end of a subject are decoded *)
Decode(s) ==
  LET i == Index(s, "=?", 1) IN
  IF i = 0 THEN [t |-> s, clear |-> TRUE]
  ELSE LET e == From(s, i) IN
       IF IsEncoded(e) /\ (i = 1 \/ Ch(s, i - 1) = " ") THEN [t |-> UpTo(s, i - 1) \o DecodeWords(e), clear |-> TRUE] ELSE [t |-> s, clear |-> ~HasSub(s, EncStart)]
CleanSubject(s, mode) ==
  LET n == IF mode = "space" THEN 1 ELSE CleanFrom(s, 1, mode)
      rest == Decode(From(s, n))
      cut == IF mode = "space" THEN TrimLeft(rest.t) ELSE rest.t
  IN [prefix |-> IF mode = "space" THEN "" ELSE TrimLeft(UpTo(s, n - 1)), title |-> TrimRight(cut), clear |-> rest.clear]

---------------------------------------------------------------------------
(* mail *)
Keep(h) ==                              \* the field held is complete
  LET i == Index(h.held, ":", 1)
      key == Lower(UpTo(h.held, i - 1))
      value == TrimBlanks(From(h.held, i + 1))
      g == [h EXCEPT !.held = "", !.got = @ \cup {key}]
  IN IF h.held = "" THEN h
     ELSE IF i = 0 THEN Bad(h)
     ELSE IF key = "" THEN [h EXCEPT !.pc = "unclear"]
     ELSE IF key \in {"from", "date", "subject"} \ h.got THEN [g EXCEPT ![key] = value]
     ELSE g
EndMail(h, mode) ==
  LET u == ParseIdentity(h.from)
      d == ParseDate(h.date)
      c == CleanSubject(h.subject, mode)
  IN IF h.pc = "unclear" THEN h
     ELSE IF h.pc = "failed" \/ (h.from # "" /\ ~u.ok) \/ d.is = "no" THEN Bad(h)
     ELSE IF d.is = "unclear" \/ ~c.clear THEN [h EXCEPT !.pc = "unclear"]
     ELSE [h EXCEPT !.pc = "mailbody", !.author = IF h.from = "" THEN Nobody ELSE u, !.adate = d,
                    !.prefix = c.prefix, !.title = c.title]
MailStep(h, line, mode) ==
  IF line = "" THEN EndMail(Keep(h), mode)
  ELSE IF Ch(line, 1) \in {" ", "\t"} THEN
    IF TrimBlanks(line) = "" THEN [h EXCEPT !.pc = "unclear"]
    ELSE IF h.held = "" THEN Bad(h)
    ELSE [h EXCEPT !.held = @ \o " " \o TrimBlanks(line)]
  ELSE LET k == Keep(h) IN IF k.pc # "mail" THEN k ELSE [k EXCEPT !.held = TrimBlanks(line)]

FirstStep(h, line, mode) ==
  CASE HasPrefix(line, "From ") -> [h EXCEPT !.pc = "mail", !.sha = FirstField(From(line, 6))]
    [] HasPrefix(line, "From:") -> MailStep([h EXCEPT !.pc = "mail"], line, mode)
    [] HasPrefix(line, "commit ") ->
         LET r == From(line, 8) IN [h EXCEPT !.pc = "fields", !.sha = IF FirstField(r) = "" THEN r ELSE FirstField(r)]
    [] OTHER -> Bad(h)

HStep(h, line, mode) ==
  CASE h.pc = "first" -> FirstStep(h, line, mode)
    [] h.pc = "fields" -> FieldStep(h, line)
    [] h.pc = "title" -> TitleStep(h, line)
    [] h.pc = "mail" -> MailStep(h, line, mode)
    [] h.pc \in {"body", "mailbody", "appendix"} -> BodyStep(h, line)
    [] OTHER -> h

(* the lines of the text without their ends *)
ScanLines(s) == LET L == Lines(s) IN [i \in 1..Len(L) |-> TrimSuffix(TrimSuffix(L[i], "\n"), "\r")]
HEnd(h, mode) ==
  IF h.pc = "mail" THEN LET k == Keep(h) IN IF k.got = {} /\ k.pc # "failed" THEN [k EXCEPT !.pc = "unclear"] ELSE EndMail(k, mode) ELSE h
HRun(ls, mode) == HEnd(FoldLeft(LAMBDA h, l : HStep(h, l, mode), HStart, ls), mode)
Outcome(h) ==
  [is |-> CASE h.pc = "first" -> "empty" [] h.pc = "failed" -> "no" [] h.pc = "unclear" -> "unclear" [] OTHER -> "yes",
   sha |-> h.sha, author |-> h.author, adate |-> h.adate, committer |-> h.committer, cdate |-> h.cdate,
   title |-> h.title, prefix |-> h.prefix, body |-> h.body, appendix |-> h.appendix,
   message |-> h.title \o (IF h.body = "" THEN "" ELSE "\n\n" \o h.body)]
ParseHeader(text, mode) ==
  LET t == TrimSpace(text) IN Outcome(IF t = "" THEN HStart ELSE HRun(ScanLines(t), mode))

---------------------------------------------------------------------------
(* The same messages, said without a machine.  ls are lines without their ends.  *)
IsBlank(l) == TrimSpace(l) = ""
Joined(ls, sep) == IF ls = <<>> THEN "" ELSE Concat([i \in 1..Len(ls) |-> IF i = 1 THEN ls[1] ELSE sep \o ls[i]])
TitleLen(ls) == CHOOSE n \in 0..Len(ls) : (n = Len(ls) \/ IsBlank(ls[n + 1])) /\ \A i \in 1..n : ~IsBlank(ls[i])
TitleOf(ls) == Joined([i \in 1..TitleLen(ls) |-> TrimSpace(ls[i])], " ")
(* lines cut on the right and by the indentation, runs of blank lines made one,   *)
(* none at the ends                                                               *)
CleanText(ls, indent) ==
  LET cut == [i \in 1..Len(ls) |-> TrimPrefix(TrimRight(ls[i]), indent)]
      Solid == {i \in 1..Len(ls) : cut[i] # ""}
      keep == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i :
                cut[i] # "" \/ (i > 1 /\ cut[i - 1] # "" /\ \E j \in Solid : j > i))
  IN Joined([a \in 1..Len(keep) |-> cut[keep[a]]], "\n")
BodyOf(ls) == LET n == TitleLen(ls) IN
  IF n = 0 THEN "" ELSE CleanText(SubSeq(ls, n + 1, Len(ls)), IndentOf(ls[1]))
SplitAt(ls) == LET C == {i \in 1..Len(ls) : TrimRight(ls[i]) = "---"} IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : i <= j
MailBody(ls) == CleanText(IF SplitAt(ls) = 0 THEN ls ELSE SubSeq(ls, 1, SplitAt(ls) - 1), "")
MailAppendix(ls) == IF SplitAt(ls) = 0 THEN "" ELSE CleanText(SubSeq(ls, SplitAt(ls) + 1, Len(ls)), "")
=============================================================================
