-------------------------------- MODULE MCNames --------------------------------
(* C16: every short name over a hostile alphabet in every kind of git header.   *)
EXTENDS Feed
CONSTANTS Alphabet, MaxLen

FF == Byte(255)
Hostile == {"a", "b", " ", "/", "\"", "\\", "\t", "\n", FF, "1"}
Worded == {"K", "a", " ", "/", "\"", "\n"}     \* K stands for a long word (harness/long.go)
NameSet == {n \in UNION {{Concat(t) : t \in [1..k -> Alphabet]} : k \in 1..MaxLen} :
           /\ ~HasPrefix(n, "/") /\ ~HasSuffix(n, "/") /\ ~HasSub(n, "//")}
(* git's quoting, with and without core.quotePath: bytes above 127 may stay raw *)
Special(c) == c \in DOMAIN EscLetter \/ Ord(c) < 32 \/ Ord(c) = 127
GitQuote(n, all) ==
  IF \A i \in 1..Len(n) : ~(IF all THEN MustQuote(Ch(n, i)) ELSE Special(Ch(n, i))) THEN n
  ELSE "\"" \o Concat([i \in 1..Len(n) |->
         IF Ord(Ch(n, i)) > 127 /\ ~all THEN Ch(n, i) ELSE QuoteChar(Ch(n, i))]) \o "\""

DiffLine(o, n, q) == "diff --git " \o GitQuote("a/" \o o, q) \o " " \o GitQuote("b/" \o n, q) \o "\n"
(* names with a space get a trailing tab on --- and +++ lines *)
Side(p, n, q) == LET w == GitQuote(p \o n, q)
                 IN w \o (IF HasSub(n, " ") /\ Ch(w, 1) # "\"" THEN "\t" ELSE "") \o "\n"
Kinds == {"mode", "content", "create", "createEmpty", "delete", "deleteEmpty", "renTo", "renFrom", "copyTo", "binary", "nodata"}
Other == "o th"
Patch(k, n, q) ==
  CASE k = "mode" -> <<DiffLine(n, n, q), "old mode 100644\n", "new mode 100755\n">>
    [] k = "content" -> <<DiffLine(n, n, q), "index 1..2 100644\n", "--- " \o Side("a/", n, q), "+++ " \o Side("b/", n, q), "@@ -1 +1 @@\n", "-x\n", "+y\n">>
    [] k = "create" -> <<DiffLine(n, n, q), "new file mode 100644\n", "index 0..2\n", "--- /dev/null\n", "+++ " \o Side("b/", n, q), "@@ -0,0 +1 @@\n", "+y\n">>
    [] k = "createEmpty" -> <<DiffLine(n, n, q), "new file mode 100644\n", "index 0..2\n">>
    [] k = "delete" -> <<DiffLine(n, n, q), "deleted file mode 100644\n", "--- " \o Side("a/", n, q), "+++ /dev/null\n", "@@ -1 +0,0 @@\n", "-y\n">>
    [] k = "deleteEmpty" -> <<DiffLine(n, n, q), "deleted file mode 100644\n", "index 2..0\n">>
    [] k = "renTo" -> <<DiffLine(Other, n, q), "similarity index 100%\n", "rename from " \o GitQuote(Other, q) \o "\n", "rename to " \o GitQuote(n, q) \o "\n">>
    [] k = "renFrom" -> <<DiffLine(n, Other, q), "similarity index 90%\n", "rename from " \o GitQuote(n, q) \o "\n", "rename to " \o GitQuote(Other, q) \o "\n",
                         "--- " \o Side("a/", n, q), "+++ " \o Side("b/", Other, q), "@@ -1 +1 @@\n", "-x\n", "+y\n">>
    [] k = "copyTo" -> <<DiffLine(Other, n, q), "copy from " \o GitQuote(Other, q) \o "\n", "copy to " \o GitQuote(n, q) \o "\n">>
    [] k = "binary" -> <<DiffLine(n, n, q), "index 1..2 100644\n", "GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n">>
    [] k = "nodata" -> <<DiffLine(n, n, q), "index 1..2 100644\n", "Binary files x and y differ\n">>

(* fed[1] is the case: kind and name *)
Init == \E k \in Kinds, n \in NameSet, q \in BOOLEAN :
          ps = ParserStart(Patch(k, n, q), TRUE) /\ fed = <<k, n>>
Next == Parsing
Survives ==
  Finished(ps) =>
    LET k == fed[1]
        n == fed[2]
        f == ps.files[1]
    IN /\ ps.mode = "done" /\ Len(ps.files) = 1 /\ ps.pre = 0
       /\ f.old = (IF k \in {"create", "createEmpty"} THEN "" ELSE IF k \in {"renTo", "copyTo"} THEN Other ELSE n)
       /\ f.new = (IF k \in {"delete", "deleteEmpty"} THEN "" ELSE IF k = "renFrom" THEN Other ELSE n)
QuoteUnquote == LET n == fed[2] IN
  QuotedName("\"" \o Concat([i \in 1..Len(n) |-> QuoteChar(Ch(n, i))]) \o "\"").name = n
EmitName == Finished(ps) => PrintT(ToJson([in |-> ps.lines, res |-> Result(ps), name |-> fed[2], quoted |-> Quote(fed[2])]))
=============================================================================
