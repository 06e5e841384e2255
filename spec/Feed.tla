--------------------------------- MODULE Feed ---------------------------------
(* The parser fed by an environment that decides, chunk by chunk, what comes    *)
(* next.  A chunk is a sequence of lines; one whose last line has no newline    *)
(* can only be the last.  Inputs are therefore explored as a tree of shared     *)
(* prefixes, and every complete path is printed with the parser's result.       *)
EXTENDS Parser
VARIABLES ps, fed                      \* fed: the chunks delivered so far
feedVars == <<ps, fed>>

FeedInit(first) == ps = ParserStart(first, FALSE) /\ fed = <<>>
Open(p) == IF p.lines = <<>> THEN TRUE ELSE HasSuffix(Last(p.lines), "\n")
(* deliver a chunk (name or number c, lines ls) *)
Deliver(c, ls) ==
  /\ ~Finished(ps) /\ ~Ready(ps) /\ Open(ps)
  /\ ps' = [ps EXCEPT !.lines = @ \o ls]
  /\ fed' = Append(fed, c)
EndInput ==
  /\ ~Finished(ps) /\ ~Ready(ps)
  /\ ps' = [ps EXCEPT !.closed = TRUE] /\ UNCHANGED fed
Parsing ==
  /\ ~Finished(ps) /\ Ready(ps)
  /\ ps' = Step(ps) /\ UNCHANGED fed

Emit == Finished(ps) => PrintT(ToJson([in |-> ps.lines, res |-> Result(ps)]))
Sound == FilesConsistent(ps) /\ BlameIsFirst(ps)
StepsProgress == [][ps'.lines = ps.lines /\ ps'.closed = ps.closed => Progress(ps, ps')]_ps
(* completed files are never touched again *)
FilesAppendOnly == [][IsPrefix(ps.files, ps'.files)]_ps
=============================================================================
