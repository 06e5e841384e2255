-------------------------------- MODULE MCFields --------------------------------
(* C21, C22: every header of a few field lines in any order, also repeated,       *)
(* folded, malformed and unknown ones, followed by a message.                      *)
EXTENDS PatchHeader
CONSTANTS Firsts, Alphabet, Message, MaxLines
PrettyFirsts == {"commit 5d9790fec7d95aa223f3d20936340bf55ff3dcbe", "commit ab (HEAD -> main, tag: v1)", "commit x\r", "Commit ab", "commit", "diff x"}
PrettyFields ==
  {"Author: A B <a@b.c>", "Author:     Plain", "Author: <x@y>", "Author:", "Author:  \t", "Merge: 1 2", "Commit: C D <c@d>", "Commit: ",
   "Date:   Tue Apr 2 22:55:40 2019 -0700", "Date: yesterday", "Date: ", "AuthorDate: 2019-04-02T22:55:40-07:00\r", "CommitDate: Tue, 2 Apr 2019 22:55:40 -0700",
   "CommitDate: 2019-13-02", "AuthorDate: 1554270940 -0700", " Author: E <e@f>", "author: E <e@f>", "Notes: z"}
PrettyMessage == {<<>>, <<"", "    T", "    U", "", "    V">>, <<"   \t", "    T">>}
MailFirsts == {"From 5d9790fec7d95aa223f3d20936340bf55ff3dcbe Mon Sep 17 00:00:00 2001", "From x", "From: A B <a@b.c>", "From: \"B, A\"\t<a@b.c> ", "From: nobody", "From:"}
MailFields ==
  {"From: C <c@d>", "from: C <c@d>", "From:", "FROM: <x@y>", "Date: Tue, 2 Apr 2019 22:55:40 -0700", "date:2019-04-02", "Date: yesterday", "Date: ",
   "Subject: [PATCH v2 1/3] Re: a", "SUBJECT:  b", "subject:", " folded: c", "\td  ", "Subject: =?UTF-8?q?H=C3=A5=20b?=", " =?UTF-8?q?=E2=82=AC?=", "X-Any: From: q", "no colon", ": empty", "Subject : e"}
MailMessage == {<<>>, <<"", "T", "---", "V">>}
VARIABLES seen, hs
vars == <<seen, hs>>
Mode == "all"
Init == \E ln \in Firsts : seen = <<ln>> /\ hs = HStep(HStart, TrimSuffix(ln, "\r"), Mode)
Next == /\ Len(seen) <= MaxLines /\ hs.pc \in {"fields", "mail"}
        /\ \E ln \in Alphabet : seen' = Append(seen, ln) /\ hs' = HStep(hs, TrimSuffix(ln, "\r"), Mode)
(* a field once read stays, unless a later one of git log's replaces it *)
Forms == {<<"fields", "author">>, <<"fields", "committer">>, <<"mail", "from">>, <<"mail", "date">>, <<"mail", "subject">>}
Stays == [][hs.pc # "mail" \/ hs'.pc # "mail" \/ \A f \in {"from", "date", "subject"} : hs[f] # "" => hs'[f] = hs[f]]_vars
Unknown == [][hs.pc = "fields" /\ Len(seen') > 0 /\ seen'[Len(seen')] \in {"Merge: 1 2", "Notes: z", "author: E <e@f>"} => hs' = hs]_vars
Emit == \A m \in Message : \A str \in {Joined(seen \o m, "\n")} : \A r \in {ParseHeader(str, Mode)} :
          PrintT(ToJson([s |-> str, mode |-> Mode, want |-> r]))
=============================================================================
