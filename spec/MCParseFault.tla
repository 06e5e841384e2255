------------------------------ MODULE MCParseFault ------------------------------
(* C09 for the parser: after any number of lines of any sequence of sections the *)
(* reader fails instead of delivering more.                                      *)
EXTENDS MCSections
VARIABLES broken, ends          \* ends: the line after each completed file
InitF == FeedInit(<<>>) /\ broken = FALSE /\ ends = <<>>
FeedMore ==
  \/ Parsing
  \/ /\ Len(fed) < MaxSections
     /\ \/ \E k \in DOMAIN Sec : Deliver(k, Sec[k])
        \/ \E l \in Plain : Deliver(l, <<l>>)
        \/ \E k \in DOMAIN BrokenSec : Deliver(k, BrokenSec[k])
\* part of one more section, then nothing
Partial == /\ Len(fed) < MaxSections /\ ~Ready(ps)
           /\ \E k \in DOMAIN Sec \cup DOMAIN BrokenSec :
                LET ls == IF k \in DOMAIN Sec THEN Sec[k] ELSE BrokenSec[k] IN
                \E n \in 1..(Len(ls) - 1) :
                  /\ ps' = [ps EXCEPT !.lines = @ \o SubSeq(ls, 1, n)]
                  /\ fed' = Append(fed, "cut")
Cut == fed # <<>> /\ Last(fed) = "cut"
NextF == /\ ~broken
         /\ \/ ~Cut /\ FeedMore /\ UNCHANGED broken
            \/ Cut /\ Parsing /\ UNCHANGED broken
            \/ ~Cut /\ ~Finished(ps) /\ Partial /\ UNCHANGED broken
            \/ ~Finished(ps) /\ ~Ready(ps) /\ broken' = TRUE /\ ps' = Fail(ps, "io") /\ UNCHANGED fed
         /\ ends' = IF Len(ps'.files) > Len(ps.files) THEN Append(ends, ps'.pos) ELSE ends
(* the parser returns the failure with the files completed before it *)
FilesStay == [][ps'.err = "io" => ps'.files = ps.files]_ps
(* nothing in the text is to blame for a failing reader *)
SoundF == FilesConsistent(ps) /\ (ps.err = "io" \/ BlameIsFirst(ps))
EmitF == broken \/ ps.mode = "fail" => PrintT(ToJson([in |-> ps.lines, io |-> broken, files |-> Result(ps).files,
                                 least |-> Cardinality({i \in 1..Len(ends) : ends[i] + 4 <= Len(ps.lines)})]))
=============================================================================
