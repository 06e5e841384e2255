------------------------------ MODULE MCFileApply ------------------------------
(* C26: every combination of contents a file can carry, against several sources. *)
EXTENDS FileApply, TLC, Json, SequencesExt
ln(o, t) == [op |-> o, text |-> t]
Texts == <<
  <<>>,
  <<TA!MkFrag(1, 1, <<ln("-", "1\n"), ln("+", "x\n")>>)>>,
  <<TA!MkFrag(2, 2, <<ln(" ", "2\n"), ln("-", "3"), ln("+", "4\n")>>)>>,
  <<TA!MkFrag(3, 3, <<ln("-", "3"), ln("+", "z")>>), TA!MkFrag(1, 1, <<ln(" ", "1\n"), ln("+", "y\n")>>)>>,
  <<TA!MkFrag(1, 0, <<ln("-", "1\n"), ln("-", "2\n"), ln("-", "3")>>)>>,
  <<TA!MkFrag(0, 1, <<ln("+", "new\n")>>)>>,
  <<TA!MkFrag(1, 1, <<ln(" ", "1\n")>>)>>,
  <<[TA!MkFrag(1, 1, <<ln("-", "1\n")>>) EXCEPT !.nlines = 1]>> >>
Lit(n, ok) == [method |-> "literal", size |-> BA!B(n), intact |-> ok, actual |-> BA!B(n), delta |-> <<>>]
Bins == <<
  <<>>, Lit(4, TRUE), Lit(0, TRUE), Lit(4, FALSE),
  BA!Intact("delta", <<5, 6, 145, 2, 3, 3, 65, 66, 67>>),
  BA!Intact("delta", <<0, 2, 2, 65, 66>>),
  BA!Intact("delta", <<5, 1, 145, 2, 3>>),
  [Lit(4, TRUE) EXCEPT !.method = "?"],
  [Lit(4, TRUE) EXCEPT !.size = BA!B(DefaultLimit + 1)],
  BA!Intact("delta", <<5, 129, 128, 128, 50, 145, 2, 3>>) >>
Headers == {"none", "names", "new", "delete", "rename", "copy", "mode",
            "submodule", "symlink", "dir", "odd",
            "same", "wild1", "wild2"}
Sources == << <<>>, <<"1\n", "2\n", "3">>, <<"1\n">>, <<"~1,40000\n", "~2,90000\n", "~3,7000">> >>
Bytes == <<0, 5, 2, 137002>>
Options == {<<>>, <<-1>>, <<3>>, <<0>>, <<DefaultLimit + 1>>, <<3, -1>>, <<-1, 3>>, <<4, 3>>, <<3, 4>>, <<2, 300>>,
            <<-7, 5, 2>>, <<0, DefaultLimit + 1>>, <<DefaultLimit + 1, DefaultLimit>>}
NoFile == [isBin |-> FALSE]
VARIABLES src, file, opts, st
vars == <<src, file, opts, st>>
Init == src = 0 /\ file = NoFile /\ opts = <<>> /\ st = FaStart([isBin |-> FALSE, frags |-> <<>>, bin |-> <<>>])
Pick == /\ src = 0 /\ src' \in 1..Len(Sources) /\ opts' \in Options
        /\ \E b \in BOOLEAN, t \in 1..Len(Texts), m \in 1..Len(Bins), r \in {1, 2, 5}, h \in Headers :
             /\ opts' \in {<<>>, <<3>>} \/ (b /\ t = 1 /\ r = 1 /\ h \in {"none", "delete", "submodule"})
             /\ \E f \in {[isBin |-> b, frags |-> Texts[t], bin |-> Bins[m], rev |-> Bins[r], hdr |-> h]} :
               file' = f /\ st' = FaStart(f)
Size == BA!B(Bytes[src])
Work == /\ src > 0 /\ ~FaDone(st)
        /\ st' = FaStep(st, file, TA!SortFrags(file.frags), Sources[src], Size, Effective(opts))
        /\ UNCHANGED <<src, file, opts>>
Next == Pick \/ Work

Over == src > 0 /\ FaDone(st)
RefusedWritesNothing == Over /\ st.way = "refused" => Nothing(st)
CopyIsSource == Over /\ st.way = "copy" =>
  ~Failed(st) /\ TA!OutLines(Sources[src], <<>>, st.ap.out) = Sources[src]
TextAsDefined == Over /\ st.way = "text" =>
  LET fs == TA!SortFrags(file.frags) IN
  /\ st.ba.out = <<>>
  /\ ~Failed(st) <=> TA!Applies(Sources[src], fs)
  /\ ~Failed(st) => TA!OutLines(Sources[src], fs, st.ap.out) = TA!Patched(Sources[src], fs)
BinaryAlone == Over /\ st.way = "binary" => st.ap.out = <<>> /\ BA!Bounded(st.ba)
Emit == Over => PrintT(ToJson([src |-> Sources[src], size |-> Size, limit |-> Effective(opts), opts |-> opts, file |-> file,
                               sorted |-> TA!SortFrags(file.frags), way |-> st.way,
                               ap |-> [out |-> st.ap.out, err |-> st.ap.err], ba |-> st.ba]))
=============================================================================
