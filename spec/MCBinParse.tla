------------------------------- MODULE MCBinParse -------------------------------
(* C18: binary payloads of every length around the line boundaries, and damage   *)
(* at every single character.                                                     *)
EXTENDS Feed
CONSTANTS Parts, Lens

Payload(n, k) == [i \in 1..n |->
  CASE k = "zero" -> 0 [] k = "ones" -> 255 [] OTHER -> ((i * 37) + (n * 11) + ((i * i) % 251)) % 256]
DL(n, k) == DataLines(Payload(n, k))
Hd == <<"diff --git a/f b/f\n", "GIT binary patch\n">>
Frag(m, n, k) == <<m \o " " \o ToString(n) \o "\n">> \o DL(n, k) \o <<"\n">>
Next1 == <<"diff --git a/g b/g\n", "old mode 1\n", "new mode 2\n">>

Good ==
  {Hd \o Frag(m, n, k) \o t : m \in {"literal", "delta"}, n \in Lens, k \in {"zero", "ones", "mix"}, t \in {<<>>, Next1}}
  \cup {Hd \o Frag("literal", n, "mix") \o Frag("delta", r, "ones") \o t : n \in {1, 3, 52, 53}, r \in Lens, t \in {<<>>, Next1}}
(* one damaged character in a small patch *)
Base(n) == Hd \o Frag("literal", n, "mix") \o Frag("delta", 5, "mix") \o Next1
Repl == {"", "A", "z", " ", "\"", "\n", "0", "~", ",", Byte(128), "0A", "\r"}
Damage ==
  {LET ls == Base(n) IN
   [ls EXCEPT ![i] = UpTo(@, j - 1) \o r \o From(@, j + 1)] :
     n \in {4, 54}, i \in 2..9, j \in 1..12, r \in Repl}
  \cup {LET ls == Base(n) IN [ls EXCEPT ![i] = UpTo(@, Len(@) - j) \o r \o From(@, Len(@) - j + 1)] :
          n \in {7, 52}, i \in 4..5, j \in {0, 1, 2, 5, 6}, r \in {"A", "\n", "00000", "0"}}
(* the header of the second fragment *)
Seconds ==
  {Hd \o Frag("literal", 5, "mix") \o <<h>> \o b \o t :
     h \in {"literal -5\n", "delta -1\n", "delta -0\n", "delta \n", "delta\n", "literal +5\n", "literal 05\n", "literal 5 \n", "literal  5\n", "Delta 5\n", "delta: 5\n",
            "delta 9223372036854775807\n", "delta 9223372036854775808\n", "literal -9223372036854775809\n", "literal 0x5\n", "delta 1_0\n", "literal 5\r\n", " delta 5\n"},
     b \in {DL(5, "mix") \o <<"\n">>, <<"\n">>, <<>>, <<"text\n">>}, t \in {<<>>, Next1}}
Headers ==
  Seconds \cup {<<"diff --git a/f b/f\n", mk>> \o b \o t :
     mk \in {"GIT binary patch\n", "GIT binary patch \n", "Binary files a and b differ\n", "Files a and b differ\n", "Binary files differ\n", " Binary files a and b differ\n",
             "Binary files a and b differ", "GIT binary patch", "Files x differ \n"},
     b \in {<<h>> \o DL(5, "mix") \o e :
              h \in {"literal 5\n", "delta 5\n", "literal 05\n", "literal \n", "literal\n", "literal -5\n", "literal -0\n", "literal +5\n", "literal 9223372036854775807\n",
                     "literal 9223372036854775808\n", "delta x\n", "Literal 5\n", "literal  5\n", "literal 5 \n", "literal 0\n", "delta 99999999999999999999\n"},
              e \in {<<"\n">>, <<>>, <<"\n", "delta 1\n", "A00000\n", "\n">>, <<"\n", "delta x\n">>, <<"\n", "delta 1\n">>, <<"\n", "literal 1\n", "A00000\n">>, <<"\n", "delta 0\n", "\n">>, <<"\n", "\n", "delta 1\n">>}}
           \cup {<<>>, <<"text\n">>, <<"\n">>, <<"literal 0\n", "\n">>, <<"literal 0\n">>},
     t \in {<<>>, Next1}}
(* bare data lines of every length byte and sequence length *)
LineCases ==
  {Hd \o <<"literal 1\n", lb \o Repeat("0", q) \o "\n", "\n">> \o Next1 :
      lb \in {Byte(c) : c \in 60..125}, q \in 0..16}
  \cup {Hd \o <<"literal 1\n", lb \o Repeat("0", q) \o "\n", "\n">> \o Next1 : lb \in {"Z", "a", "v", "w", "x", "y", "z", "{", "|", "}", "~", Byte(127), Byte(128), Byte(255)}, q \in {25, 30, 35, 55, 60, 64, 65, 66, 70, 75}}
  \cup {Hd \o <<"literal 1\n", "D000" \o Byte(c) \o "0\n", "\n">> \o Next1 : c \in 0..255}
  (* groups at and beyond the largest value of four bytes *)
  \cup {Hd \o <<"literal " \o ToString(n) \o "\n", LenByte(n) \o (IF n <= 4 THEN g ELSE a \o g) \o "\n", "\n">> \o Next1 :
          n \in 1..8, a \in {"00000", "|NsC1", "|NsC0"},
          g \in {"|NsC0", "|NsC1", "|NsC~", "|NsD0", "|NtC0", "|OsC0", "}0000", "~~~~~", "}NsC0", "|Ms~~", "{~~~~", "00000"}}

(* every sequence of a few whole lines after a fragment's header *)
Words == {"literal 0\n", "delta 3\n", "CcmZ?O\n", "HcmV?d00001\n", "\n", "text\n", "@@ -1 +1 @@\n", "Binary files a and b differ\n", "GIT binary patch\n"}
Orders == {Hd \o <<h>> \o b \o Next1 : h \in {"literal 0\n", "delta 4\n"}, b \in UNION {[1..k -> Words] : k \in 0..4}}

FixLines(ls) == Lines(Concat(ls))
InputsOf(Part) == (CASE Part = "good" -> Good [] Part = "damage" -> {FixLines(x) : x \in Damage}
                    [] Part = "headers" -> {FixLines(x) : x \in Headers} [] Part = "orders" -> Orders [] Part = "lines" -> {FixLines(x) : x \in LineCases})
Init == \E p \in Parts : \E c \in InputsOf(p) :
          ps = ParserStart(c, TRUE) /\ fed = <<p>>
Next == Parsing
(* every payload is decoded to exactly the bytes encoded *)
Exact ==
  fed[1] = "good" /\ Finished(ps) =>
    /\ ps.mode = "done" /\ ps.files[1].isBin
    /\ LET f == ps.files[1]
           n == ToInt(f.bin.size)
       IN /\ Len(f.bin.data) = n
          /\ \E k \in {"zero", "ones", "mix"} : f.bin.data = Payload(n, k)
          /\ f.rev # NoBin => f.rev.data = Payload(ToInt(f.rev.size), "ones")
=============================================================================
