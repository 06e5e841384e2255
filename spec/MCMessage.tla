------------------------------- MODULE MCMessage -------------------------------
(* C21, C22: every message of a few lines, line by line, below each kind of       *)
(* header.  What the machine has read agrees with the direct definitions.         *)
EXTENDS PatchHeader
CONSTANTS Alphabet, Heads, MaxLines
Indented == {"", "    a", "    b c ", "      d", "  e", "\tf", "f", "    ---", "---", "    \t", "     ", "\t    g", "    Date: x"}
Mailed == {"", " ", "a", "b c  ", "  d", "---", "--- ", "----", " ---", "-- ", "--", "---\t\r", "--- a/x", "From: b", "\te"}
PrettyHeads == {<<"commit 12ab", "Author: A <a@b>", "">>, <<"commit 12ab", "">>}
MailHeads == {<<"From 12ab Mon", "From: A <a@b>", "Subject: x", "">>}
VARIABLES hd, msg, hs
vars == <<hd, msg, hs>>
Mode == "all"
Init == /\ hd \in Heads /\ msg = <<>>
        /\ hs = FoldLeft(LAMBDA a, b : HStep(a, b, Mode), HStart, hd)
(* git's messages do not start with a blank line *)
Next == /\ Len(msg) < MaxLines
        /\ \E ln \in Alphabet : /\ hs.pc = "title" /\ msg = <<>> => ~IsBlank(ln)
                                /\ msg' = Append(msg, ln)
                                /\ hs' = HStep(hs, ln, Mode)
        /\ UNCHANGED hd
IsPretty == HasPrefix(hd[1], "commit")
Ended == HEnd(hs, Mode)
Direct ==
  IF IsPretty THEN hs.title = TitleOf(msg) /\ hs.body = BodyOf(msg) /\ hs.appendix = ""
  ELSE hs.title = "x" /\ hs.body = MailBody(msg) /\ hs.appendix = MailAppendix(msg)
(* trimming the preamble changes nothing *)
Text == Joined(hd \o msg, "\n")
Emit == \A str \in {Text} : \A r \in {Outcome(Ended)} :
          ParseHeader(str, Mode) = r /\ PrintT(ToJson([s |-> str \o "\n", mode |-> Mode, want |-> r]))
=============================================================================
