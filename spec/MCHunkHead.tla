------------------------------ MODULE MCHunkHead ------------------------------
(* C13: fragment header syntax: numbers, separators, section comments.          *)
EXTENDS Feed
CONSTANTS Nums, Rest
Ends == {" @@", " @@ c", " @@  x y \t", "@@", " @@ @@ -1 +1 @@", " @", " @@c", " @@ \r", ""}
Seps == {" +", " + ", "+", " -", "  +", " +1 +"}
Starts == {"@@ -", "@@ ", "@@ --", "@@  -", "@@ -+"}
(* one component is varied freely, the others are regular *)
Heads == {s \o a \o p \o b \o e \o "\n" :
            s \in Starts, a \in {"1", "1,1"}, p \in Seps, b \in {"1", "1,1"}, e \in Ends}
  \cup {"@@ -" \o a \o " +" \o b \o " @@\n" : a \in Nums, b \in Rest}
  \cup {"@@ -" \o a \o " +" \o b \o " @@ z\n" : a \in Rest, b \in Nums}
  \cup {"@@ -" \o a \o " +" \o a \o " @@" : a \in {"1", "1,0"}}
Bodies == {<<"-x\n", "+y\n">>, <<"-x\n">>, <<"+y\n">>, <<" c\n", "+y">>, <<>>}
Preface == {<<"diff --git a/f b/f\n">>, <<"--- a\n", "+++ b\n">>, <<>>}
Init == \E f \in Preface, h \in Heads : FeedInit(f \o <<h>>)
Next == \/ Parsing \/ EndInput
        \/ /\ fed = <<>> /\ \E b \in Bodies : Deliver("b", b)
=============================================================================
