----------------------------- MODULE MCFormatFile -----------------------------
(* C19: the files of recorded inputs, parsed, formatted and parsed again.  A     *)
(* well-formed patch always survives; what survives of a damaged one is decided  *)
(* by the specification and must survive in the implementation too.              *)
EXTENDS Format
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES ps, id
Init == \E i \in 1..Len(Cases) : id = i /\ ps = ParserStart(Cases[i].in, TRUE)
Next == ~Finished(ps) /\ ps' = Step(ps) /\ UNCHANGED id
Survives(f) == LET q == Parse(Lines(FormatFile(f))) IN q.mode = "done" /\ q.files = <<f>> /\ q.pre = 0
AllSurvive(fs) == LET q == Parse(Lines(FormatAll(fs))) IN q.mode = "done" /\ q.files = fs /\ q.pre = 0
Kept(fs) == SelectSeq(fs, Survives)
GoodSurvives == Finished(ps) /\ Cases[id].kind = "good" => \A i \in 1..Len(ps.files) : Survives(ps.files[i])
GoodTogether == Finished(ps) /\ Cases[id].kind = "good" => AllSurvive(ps.files)
Emit == Finished(ps) => LET ok == Kept(ps.files) IN
  PrintT(ToJson([in |-> ps.lines, res |-> Result(ps), ok |-> ok, texts |-> TextsOf(ok), all |-> AllSurvive(ok), case |-> Cases[id]]))
=============================================================================
