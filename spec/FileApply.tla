------------------------------- MODULE FileApply -------------------------------
(* Applying a whole file: which of the two appliers runs, or neither.  A file   *)
(* carries                                                                       *)
(*   [isBin, frags: text fragments, bin, rev: <<>> or a binary fragment, hdr]    *)
(* hdr stands for everything else (names, modes, kinds of change, object ids).   *)
EXTENDS Integers, Sequences
TA == INSTANCE TextApply
BA == INSTANCE BinaryApply

Contradictory(f) ==
  IF f.isBin THEN f.frags # <<>> \/ f.bin = <<>> ELSE f.bin # <<>>
Way(f) == IF Contradictory(f) THEN "refused"
          ELSE IF f.isBin THEN "binary" ELSE IF f.frags # <<>> THEN "text" ELSE "copy"

(* options: the limits given for binary data, in the order they are given; the   *)
(* last one counts, a negative one is none, and there is one by default          *)
DefaultLimit == 104857600
Effective(given) ==
  IF given = <<>> THEN BA!B(DefaultLimit)
  ELSE IF given[Len(given)] < 0 THEN BA!Unlimited ELSE BA!B(given[Len(given)])

FaStart(f) == [way |-> Way(f), ap |-> TA!ApStart, nth |-> 0, ba |-> BA!BaStart, ended |-> FALSE]
FaDone(st) == st.ended
(* src: lines; size: the number of bytes they have *)
FaStep(st, f, sorted, src, size, limit) ==
  CASE st.way = "refused" -> [st EXCEPT !.ended = TRUE]
    [] st.way \in {"text", "copy"} ->        \* a file without fragments is closed at once
         LET a == TA!FileStep(src, st.ap, sorted, st.nth) IN
         [st EXCEPT !.ap = a, !.ended = TA!FileDone(a),
                    !.nth = IF st.ap.pc # "idle" /\ a.pc = "idle" /\ a.err.kind = "" THEN @ + 1 ELSE @]
    [] st.way = "binary" ->
         IF st.ba.closed \/ st.ba.err # "" THEN [st EXCEPT !.ended = TRUE]
         ELSE IF st.ba.pc # "idle" THEN [st EXCEPT !.ba = BA!BaStep(@, f.bin, size, limit)]
         ELSE IF ~st.ba.used THEN [st EXCEPT !.ba = BA!BaBegin(@, f.bin, limit)]
         ELSE [st EXCEPT !.ba = BA!BaClose(@, size)]
(* what comes out *)
Nothing(st) == st.ap.out = <<>> /\ st.ba.out = <<>>
Failed(st) == st.way = "refused" \/ st.ap.err.kind # "" \/ st.ba.err # ""
=============================================================================
