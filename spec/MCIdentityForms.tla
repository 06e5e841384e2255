---------------------------- MODULE MCIdentityForms ----------------------------
(* C24: names and addresses written in every form, with quoting, escapes and     *)
(* white space; the parsed identity is the name and the address put in.           *)
EXTENDS Identity
CONSTANTS Gaps

AllGaps == {"", " ", "\t ", "\r\n "}
UUml == Byte(195) \o Byte(156)
Names == {"", "A", "A B", "a.b", UUml \o "n x", "A \"B\" C", "A\\B", "O'N, jr;", "A (b)", "(b) A", "A(b\\", "a>b", "a<b c", "\"", "\\\"", "A  B\tC"}
Addresses == {"x@y", "a.b+c@d-e.f", "@", "x@", "@y@z", UUml \o "@i"}
Escape(s, C) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in C THEN "\\" \o Ch(s, i) ELSE Ch(s, i)])
Quoted(s) == "\"" \o Escape(s, {"\"", "\\"}) \o "\""
HasAny(s, C) == IndexAny(s, C, 1) # 0
FirstWord(s) == LET i == IndexAny(s, Blank, 1) IN IF i = 0 THEN s ELSE UpTo(s, i - 1)
(* ways to write a name in front of an address *)
Written(n) == {Quoted(n)} \cup (IF HasAny(n, {"\"", "\\"}) THEN {} ELSE {n, Quoted(FirstWord(n)) \o From(n, Len(FirstWord(n)) + 1)})
Comment(n) == "(" \o Escape(n, {"\\", "(", ")"}) \o ")"
Cases ==
  [form : {"name <address>"}, n : Names, w : UNION {Written(n) : n \in Names}, a : Addresses]
  \cup [form : {"address (name)"}, n : Names, w : {Comment(n) : n \in Names}, a : Addresses]
  \cup [form : {"<address>", "address"}, n : {""}, w : {""}, a : Addresses]
  \cup [form : {"name <user>"}, n : Names, w : UNION {Written(n) : n \in Names}, a : {"u", "root", "", "a b"}]
Proper(k) == CASE k.form \in {"name <address>", "name <user>"} -> k.w \in Written(k.n)
               [] k.form = "address (name)" -> k.w = Comment(k.n)
               [] OTHER -> TRUE
(* angle brackets in front of a user name are read as its delimiters *)
Clear(k) == k.form # "name <user>" \/ ~HasAny(k.n, {"<", ">"})

VARIABLES who, gaps
Init == who \in {c \in Cases : Proper(c) /\ Clear(c)} /\ gaps \in [1..3 -> Gaps]
Next == FALSE /\ UNCHANGED <<who, gaps>>
(* a gap is needed between an address and what precedes or follows it *)
Gap(x) == IF x = "" THEN " " ELSE x
Text == CASE who.form \in {"name <address>", "name <user>"} -> gaps[1] \o who.w \o gaps[2] \o "<" \o who.a \o ">" \o gaps[3]
          [] who.form = "address (name)" -> gaps[1] \o who.a \o Gap(gaps[2]) \o who.w \o gaps[3]
          [] who.form = "<address>" -> gaps[1] \o "<" \o who.a \o ">" \o gaps[3]
          [] OTHER -> gaps[1] \o who.a \o gaps[3]
Name == NormSpace(who.n)
Want == LET u == IF IsUsable(Name) THEN Name ELSE who.a
        IN [ok |-> u # "" \/ who.a # "", name |-> u, email |-> who.a]
AsWritten == ParseIdentity(Text) = Want
Emit == PrintT(ToJson([s |-> Text, u |-> Want]))
=============================================================================
