-------------------------------- MODULE MCBody --------------------------------
(* C13: every short fragment body under every small fragment header.            *)
EXTENDS Feed
CONSTANTS MaxBody, MaxCount, WithNewDel

FileHeads == {<<"diff --git a/f b/f\n">>} \cup
  (IF WithNewDel THEN {<<"diff --git a/f b/f\n", "new file mode 100644\n">>,
                       <<"diff --git a/f b/f\n", "deleted file mode 100644\n">>} ELSE {})
HunkHead(a, b, c, d) ==
  "@@ -" \o ToString(a) \o "," \o ToString(b) \o " +" \o ToString(c) \o "," \o ToString(d) \o " @@ f()\n"
Hunks == {HunkHead(IF b = 0 THEN 0 ELSE 3, b, IF d = 0 THEN 6 ELSE 7, d) : b \in 0..MaxCount, d \in 0..MaxCount}
BodyLines == {" a\n", "-b\n", "+c\n", "\n", "\\ No newline at end of file\n", "+d", "@@ -9 +9 @@\n",
              "diff --git a/g b/g\n", "x\n", "\\ short\n", "--- a\n"}

Init == \E h \in FileHeads, k \in Hunks : FeedInit(Append(h, k))
Next == \/ Parsing \/ EndInput
        \/ /\ Len(fed) < MaxBody /\ \E l \in BodyLines : Deliver(l, <<l>>)

(* a fragment is only accepted if its body has exactly the announced lines *)
Body == [i \in 1..Len(fed) |-> Ch(fed[i], 1)]
FirstAccepted ==
  ps.files # <<>> /\ ps.files[1].frags # <<>> =>
    LET f == ps.files[1].frags[1]
        olds == Len(SelectSeq(f.lines, LAMBDA l : l.op # "+"))
        news == Len(SelectSeq(f.lines, LAMBDA l : l.op # "-"))
    IN /\ ToInt(f.olines) = olds /\ ToInt(f.nlines) = news
       /\ ps.files[1].isNew => olds = 0
       /\ ps.files[1].isDel => news = 0
       /\ \A i \in 1..Len(f.lines) :
            HasSuffix(f.lines[i].text, "\n") \/ i = Len(f.lines) \/ \E j \in 1..Len(fed) : Ch(fed[j], 1) = "\\"
=============================================================================
