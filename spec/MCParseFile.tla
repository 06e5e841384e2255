------------------------------ MODULE MCParseFile ------------------------------
(* Inputs recorded in a file (random or mutated patches, or text produced by the *)
(* real formatter) run through the parser machine; the result is printed next to *)
(* the case for comparison with what the real parser returned.                    *)
EXTENDS Format
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES ps, id
Init == \E i \in 1..Len(Cases) : id = i /\ ps = ParserStart(Cases[i].in, TRUE)
Next == ~Finished(ps) /\ ps' = Step(ps) /\ UNCHANGED id
Sound == FilesConsistent(ps) /\ BlameIsFirst(ps)
StepsProgress == [][Progress(ps, ps')]_ps
FilesAppendOnly == [][IsPrefix(ps.files, ps'.files)]_ps
Emit == Finished(ps) => PrintT(ToJson([in |-> ps.lines, res |-> Result(ps), case |-> Cases[id]]))
=============================================================================
