-------------------------------- MODULE Format --------------------------------
(* The git diff representation of a parsed file.                                *)
EXTENDS Parser

NoEolMarker == "\\ No newline at end of file\n"
FormatLine(l) ==
  l.op \o l.text \o (IF HasSuffix(l.text, "\n") THEN "" ELSE "\n" \o NoEolMarker)
FormatFragHead(fr) ==
  "@@ -" \o fr.opos \o "," \o fr.olines \o " +" \o fr.npos \o "," \o fr.nlines \o " @@"
  \o (IF fr.comment = "" THEN "" ELSE " " \o fr.comment)
FormatFrag(fr) ==
  FormatFragHead(fr) \o "\n" \o Concat([i \in 1..Len(fr.lines) |-> FormatLine(fr.lines[i])])
FormatBin(b) ==
  b.method \o " " \o b.size \o "\n" \o Concat(DataLines(b.data)) \o "\n"

FormatModes(f) ==
  (IF f.isDel THEN "deleted file mode " \o OctStr(f.omode) \o "\n"
   ELSE IF f.omode # 0 /\ f.nmode # 0 THEN "old mode " \o OctStr(f.omode) \o "\n" ELSE "")
  \o (IF f.isNew THEN "new file mode " \o OctStr(f.nmode) \o "\n"
      ELSE IF f.omode # 0 /\ f.nmode # 0 THEN "new mode " \o OctStr(f.nmode) \o "\n" ELSE "")
FormatScore(f) ==
  IF f.score = 0 THEN ""
  ELSE (IF f.isCopy \/ f.isRen THEN "similarity" ELSE "dissimilarity")
       \o " index " \o ToString(f.score) \o "%\n"
FromTo(kind, f) ==
  (IF f.old = "" THEN "" ELSE kind \o " from " \o Quote(f.old) \o "\n")
  \o (IF f.new = "" THEN "" ELSE kind \o " to " \o Quote(f.new) \o "\n")
FormatIndex(f) ==
  IF f.ooid = "" \/ f.noid = "" THEN ""
  ELSE "index " \o f.ooid \o ".." \o f.noid
       \o (IF f.omode # 0 /\ ((f.nmode = 0 /\ ~f.isDel) \/ f.omode = f.nmode)
           THEN " " \o OctStr(f.omode) ELSE "") \o "\n"

FormatFile(f) ==
  LET an == Quote("a/" \o (IF f.old = "" THEN f.new ELSE f.old))
      bn == Quote("b/" \o (IF f.new = "" THEN f.old ELSE f.new))
  IN "diff --git " \o an \o " " \o bn \o "\n"
     \o FormatModes(f) \o FormatScore(f)
     \o (IF f.isCopy THEN FromTo("copy", f) ELSE "")
     \o (IF f.isRen THEN FromTo("rename", f) ELSE "")
     \o FormatIndex(f)
     \o (IF ~f.isBin THEN ""
         ELSE IF f.bin = NoBin THEN "Binary files " \o an \o " and " \o bn \o " differ\n"
         ELSE "GIT binary patch\n" \o FormatBin(f.bin)
              \o (IF f.rev = NoBin THEN "" ELSE FormatBin(f.rev)))
     \o (IF f.frags = <<>> THEN ""
         ELSE "--- " \o (IF f.old = "" THEN DevNull ELSE Quote("a/" \o f.old)) \o "\n"
              \o "+++ " \o (IF f.new = "" THEN DevNull ELSE Quote("b/" \o f.new)) \o "\n"
              \o Concat([i \in 1..Len(f.frags) |-> FormatFrag(f.frags[i])]))
(* the text of a file and of its parts *)
Texts(f) ==
  [text |-> FormatFile(f),
   frags |-> [i \in 1..Len(f.frags) |->
                [head |-> FormatFragHead(f.frags[i]), text |-> FormatFrag(f.frags[i])]],
   bins |-> (IF f.bin = NoBin THEN <<>> ELSE <<FormatBin(f.bin)>>) \o (IF f.rev = NoBin THEN <<>> ELSE <<FormatBin(f.rev)>>)]
TextsOf(fs) == [i \in 1..Len(fs) |-> Texts(fs[i])]
FormatAll(fs) == Concat([i \in 1..Len(fs) |-> FormatFile(fs[i])])
=============================================================================
