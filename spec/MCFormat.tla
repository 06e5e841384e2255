------------------------------- MODULE MCFormat -------------------------------
(* C19: every combination of well-formed git and traditional headers and bodies *)
(* parsed, formatted and parsed again, alone and concatenated.                   *)
EXTENDS Format
CONSTANT Parts
VARIABLES ps

FF == Byte(255)
NamePool == {"a", "a b", "q\"t", "x\ny", "d/e f", "b/a", "p\\", FF, "\tz", "\"", "dev/null", "a b/a"}
GQ(n) == Quote(n)
DiffLine(o, n) == "diff --git " \o GQ("a/" \o o) \o " " \o GQ("b/" \o n) \o "\n"
Sides(o, n) == <<"--- " \o (IF o = "" THEN DevNull ELSE GQ("a/" \o o)) \o "\n", "+++ " \o (IF n = "" THEN DevNull ELSE GQ("b/" \o n)) \o "\n">>
SB(o, n, f) == IF f = <<>> THEN <<>> ELSE Sides(o, n) \o f

BothFrags ==
  { <<"@@ -1 +1 @@\n", "-x\n", "+y\n">>,
    <<"@@ -1,3 +1,3 @@ void f(\r\n", " c\n", "-x\n", "+\n", "\n">>,
    <<"@@ -5,2 +5 @@ \t \n", "-x\n", "-\n", "\\ No newline at end of file\n", "+y\n", "\\ No newline at end of file\n">>,
    <<"@@ -9223372036854775806 +7,0 @@ @@ -1 +1 @@\n", "-" \o FF \o "\r\n", "@@ -0,0 +1 @@ x\n", "+\\ No newline at end of file\n">>,
    <<"@@ -1,2 +1,0 @@\n", "--- a/x\n", "-diff --git a/b b/c\n", "@@ -9 +9,2 @@\n", " k\n", "++++ b/x\n">>,
    <<"@@ -3 +3 @@\n", "-x\n", "+y">> }
AddFrags == { <<"@@ -0,0 +1 @@\n", "+x\n">>, <<"@@ -0,0 +1,2 @@ cm\n", "+\n", "+y\n", "\\ No newline at end of file\n">> }
DelFrags == { <<"@@ -1 +0,0 @@\n", "-x\n">>, <<"@@ -1,2 +0,0 @@\n", "- \n", "-y\n", "\\ No newline at end of file\n">> }
BinBodies ==
  { <<"GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n">>,
    <<"GIT binary patch\n", "delta 30\n">> \o DataLines([i \in 1..60 |-> (i * 91) % 256]) \o <<"\n", "literal 0\n">> \o DataLines([i \in 1..8 |-> 255]) \o <<"\n">>,
    <<"GIT binary patch\n", "literal 0\n", "\n", "delta 0\n", "\n">>,
    <<"Binary files q and r differ\n">> }
Modes == {<<>>, <<"old mode 100644\n", "new mode 100755\n">>, <<"old mode 120000\n", "new mode 0000644\n">>}
Idx(m) == {<<>>, <<"index 0a1b..ff00" \o m \o "\n">>}

Content ==        \* same name on both sides
  {<<DiffLine(n, n)>> \o mo \o i \o Sides(n, n) \o f : n \in {"a", "p\\", "a b"}, mo \in Modes, i \in Idx("") , f \in BothFrags}
  \cup {<<DiffLine(n, n)>> \o i \o Sides(n, n) \o f : n \in NamePool, i \in Idx(" 100644"), f \in BothFrags}
  \cup {<<DiffLine(n, n), "dissimilarity index 40%\n">> \o i \o Sides(n, n) \o f : n \in {"a"}, i \in Idx(" 100600"), f \in BothFrags}
  \cup {<<DiffLine(n, n)>> \o mo : n \in NamePool, mo \in Modes \ {<<>>}}
Rename ==
  {<<DiffLine(o, n)>> \o mo \o sc \o <<k \o " from " \o GQ(o) \o "\n", k \o " to " \o GQ(n) \o "\n">> \o i \o SB(o, n, b) :
     o \in {"a", "q\"t", "d/e f"}, n \in NamePool, mo \in {<<>>, <<"old mode 100644\n", "new mode 100755\n">>},
     sc \in {<<>>, <<"similarity index 100%\n">>, <<"similarity index 0%\n">>}, k \in {"copy", "rename"}, i \in Idx(""),
     b \in {<<>>, <<"@@ -1 +1 @@\n", "-x\n", "+y\n">>}}
Create ==
  {<<DiffLine(n, n), "new file mode " \o m \o "\n">> \o i \o SB("", n, b) :
     n \in NamePool, m \in {"100644", "120000", "000", "37777777"}, i \in Idx(""), b \in {<<>>} \cup AddFrags}
Delete ==
  {<<DiffLine(n, n), "deleted file mode " \o m \o "\n">> \o i \o SB(n, "", b) :
     n \in NamePool, m \in {"100644", "120000", "000"}, i \in Idx(""), b \in {<<>>} \cup DelFrags}
Binary ==
  {<<DiffLine(n, n)>> \o h \o i \o b : n \in {"a", "b/a", FF}, h \in {<<>>, <<"new file mode 100644\n">>, <<"deleted file mode 100644\n">>, <<"old mode 100644\n", "new mode 100755\n">>}, i \in Idx(""), b \in BinBodies}
  \cup {<<DiffLine(n, n)>> \o i \o b : n \in NamePool, i \in Idx(" 100644"), b \in BinBodies}
  \cup {<<DiffLine("a", n), "similarity index 55%\n", "rename from a\n", "rename to " \o GQ(n) \o "\n">> \o b : n \in NamePool, b \in BinBodies}
Trad ==
  {<<"--- " \o o \o "\t2020-02-02 10:00:00 +0000\n", "+++ " \o n \o "\t2020-02-02 10:00:00 +0000\n">> \o f :
     o \in {"a", "x/y z", GQ("q\"t")}, n \in {"a", "a.new", "w/v"}, f \in BothFrags}
  \cup {<<"--- " \o o \o "\n", "+++ " \o n \o "\n">> \o f : o \in {"/dev/null", "a\t1970-01-01 00:00:00 +0000"}, n \in {"k", "x/y", GQ("p\\")}, f \in AddFrags}
  \cup {<<"--- " \o o \o "\n", "+++ " \o n \o "\n">> \o f : n \in {"/dev/null", "a\t1970-01-01 00:00:00 +0000"}, o \in {"k", "x/y", GQ("p\\")}, f \in DelFrags}
(* several files in one patch *)
Firsts == {CHOOSE x \in Content : TRUE, CHOOSE x \in Rename : TRUE, CHOOSE x \in Create : TRUE, CHOOSE x \in Delete : TRUE, CHOOSE x \in Binary : TRUE,
           <<"diff --git a/m b/m\n", "old mode 1\n", "new mode 2\n">>, <<"diff --git a/e b/e\n", "new file mode 100644\n">>,
           <<"diff --git a/z b/z\n", "index 1..2 100644\n", "GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n">>,
           <<"diff --git a/z b/z\n", "Binary files a/z and b/z differ\n">>, <<"diff --git a/i b/i\n", "index 1..2\n">>,
           <<"--- t\n", "+++ t\n", "@@ -1 +1 @@\n", "-x\n", "+y\n">>, <<"--- /dev/null\n", "+++ t\n", "@@ -0,0 +1 @@\n", "+y\n", "\\ No newline at end of file\n">>}
Whole(c) == HasSuffix(Last(c), "\n")
Bytes == {<<DiffLine(n, n)>> \o b : n \in {"p" \o Byte(c) : c \in 1..255} \cup {Byte(c) \o "p" : c \in 1..255 \ {47}},
                                   b \in {<<"old mode 1\n", "new mode 2\n">>}}
         \cup {<<DiffLine(n, n), "new file mode 100644\n", "index 0..1\n">> \o Sides("", n) \o <<"@@ -0,0 +1 @@\n", "+x\n">> : n \in {"p" \o Byte(c) \o "7" : c \in 1..255}}
         \cup {<<DiffLine("k", n), "rename from k\n", "rename to " \o GQ(n) \o "\n">> : n \in {"p" \o Byte(c) \o "q" : c \in 1..255}}
Many == {x \o y \o z : x \in {c \in Firsts : Whole(c)}, y \in {c \in Firsts : Whole(c) /\ HasPrefix(c[1], "diff")}, z \in {c \in Firsts : HasPrefix(c[1], "diff")}}

(* every combination of the lines between the names and the content *)
Ops(o, n) == {<<"copy from " \o o \o "\n", "copy to " \o n \o "\n">>, <<"rename from " \o o \o "\n", "rename to " \o n \o "\n">>}
Scores == {<<>>} \cup {<<k \o " index " \o s \o "%\n">> : k \in {"similarity", "dissimilarity"}, s \in {"0", "1", "50", "99", "100"}}
OIDs == {"0a1b..ff00", "0a1b..0a1b", "0000000..e69de29", "e69de29..0000000",
         "0123456789012345678901234567890123456789..abcdefabcdefabcdefabcdefabcdefabcdefabcd",
         "0123456789012345678901234567890123456789012345678901234567890123..abcdefabcdefabcdefabcdefabcdefabcdefabcdabcdefabcdefabcdefabcdef"}
IndexLines == {<<>>} \cup {<<"index " \o o \o m \o "\n">> : o \in OIDs, m \in {"", " 100644", " 100755", " 120000", " 160000"}}
MetaBodies(o, n) == {<<>>, <<"GIT binary patch\n", "literal 3\n", "CcmZ?O\n", "\n">>, <<"Binary files a/" \o o \o " and b/" \o n \o " differ\n">>,
                     Sides(o, n) \o <<"@@ -1 +1 @@\n", "-x\n", "+y\n">>}
Meta == {<<DiffLine("o", "n")>> \o mo \o sc \o op \o i \o b : mo \in Modes, sc \in Scores, op \in Ops("o", "n"), i \in IndexLines, b \in MetaBodies("o", "n")}
        \cup {<<DiffLine("n", "n")>> \o mo \o sc \o i \o b : mo \in Modes, sc \in Scores, i \in IndexLines, b \in MetaBodies("n", "n")}

(* K stands for a long word (harness/long.go) *)
Worded == {"K", "aK b/K", "q\"K", "K/K.K", "\tK"}
WordFrags == {<<"@@ -1,2 +1 @@ K K\n", "-K\n", " cK\n">>, <<"@@ -1 +1 @@\n", "-x\n", "+K\n", "\\ No newline at end of file\n">>}
Words == {<<DiffLine(n, n), "index K..aK 100644\n">> \o Sides(n, n) \o f : n \in Worded, f \in WordFrags}
         \cup {<<DiffLine(o, n), "similarity index 90%\n", "rename from " \o GQ(o) \o "\n", "rename to " \o GQ(n) \o "\n">> \o SB(o, n, f) : o \in Worded, n \in Worded, f \in {<<>>} \cup WordFrags}
         \cup {<<DiffLine(n, n), "new file mode 100644\n">> \o SB("", n, <<"@@ -0,0 +1 @@ K\n", "+aK\n">>) : n \in Worded}
         \cup {<<DiffLine(n, n), "deleted file mode 100644\n">> : n \in Worded}
         \cup {<<"--- " \o GQ(o) \o "\tK\n", "+++ " \o GQ(n) \o "\n">> \o f : o \in Worded, n \in Worded, f \in WordFrags}

InputsOf(Part) == CASE Part = "content" -> Content [] Part = "rename" -> Rename [] Part = "create" -> Create \cup Delete
            [] Part = "binary" -> Binary [] Part = "trad" -> Trad [] Part = "many" -> Many [] Part = "bytes" -> Bytes [] Part = "words" -> Words [] Part = "meta" -> Meta
Init == \E p \in Parts : \E c \in InputsOf(p) : ps = ParserStart(c, TRUE)
Next == ~Finished(ps) /\ ps' = Step(ps)

Parses == ps.mode # "fail"
RoundTrip ==
  Finished(ps) =>
    /\ \A i \in 1..Len(ps.files) :
         LET q == Parse(Lines(FormatFile(ps.files[i])))
         IN q.mode = "done" /\ q.files = <<ps.files[i]>> /\ q.pre = 0
    /\ LET q == Parse(Lines(FormatAll(ps.files)))
       IN q.mode = "done" /\ q.files = ps.files /\ q.pre = 0
Emit == Finished(ps) => PrintT(ToJson([in |-> ps.lines, res |-> Result(ps), texts |-> TextsOf(ps.files)]))
=============================================================================
