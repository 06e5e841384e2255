------------------------------ MODULE MCBinLimit ------------------------------
(* C07: fragments around a size limit.                                          *)
EXTENDS BinaryApply
CONSTANT Parts
DefaultLimit == <<0, 50, 0>>                             \* 100 MiB
ASSUME DefaultLimit = B(104857600)
Src == B(64)

Literal(size, actual) == [method |-> "literal", size |-> size, intact |-> TRUE, actual |-> actual, delta |-> <<>>]
(* a delta that produces n bytes in chunks and announces m *)
RECURSIVE Chunks(_)
Chunks(n) == IF n = 0 THEN <<>> ELSE IF n > 64 THEN <<144, 64>> \o Chunks(n - 64) ELSE <<144, n>>
Delta(n, m) == LET d == SizeBytes(Src) \o SizeBytes(m) \o Chunks(n) IN Intact("delta", d)
Declared(fr, size) == [fr EXCEPT !.size = size]

Limits == {0, 1, 3, 4, 5, 6, 7, 64, 65, 127, 128, 300}
Around(n) == {n - 1, n, n + 1, n + 500} \cap Nat
Case(fr, limit, how) == [fr |-> fr, src |-> Src, limit |-> limit, how |-> how]
(* limits that do not fit into 31, 32 or 42 bits *)
Top == <<Base - 1, Base - 1, Base - 1>>
WideLimits == {<<Base - 1, 1023, 0>>, <<0, 1024, 0>>, <<Base - 1, 2047, 0>>, <<0, 2048, 0>>, <<5, 2048, 0>>, <<0, 524288, 0>>,
               <<0, 0, 1>>, <<0, 0, 1048576>>, Top}
Wide ==
  UNION {{[Case(fr, Zero, "set") EXCEPT !.limit = l] :
             fr \in {Literal(B(5), B(5)), Delta(70, B(70)), Literal(l, B(5)), Delta(3, l)}
                  \cup {Literal(s, B(5)) : s \in {IF l = Top THEN l ELSE Plus(l, B(1)), B(2147483647), <<5, 2048, 0>>, Top}}
                  \cup {Delta(3, s) : s \in {IF l = Top THEN l ELSE Plus(l, B(1)), <<5, 2048, 0>>, Top}}} : l \in WideLimits}
Exact == Wide \cup
  {Case(Literal(B(s), B(s)), B(n), "set") : n \in Limits, s \in UNION {Around(m) : m \in Limits}}
  \cup {Case(Literal(B(s), B(s + e)), B(n), "set") : n \in Limits, s \in UNION {Around(m) : m \in Limits}, e \in {1, 1000}}
  \cup {Case(Delta(s, B(s)), B(n), "set") : n \in Limits, s \in UNION {Around(m) : m \in Limits}}
  \cup {Case(Delta(s, B(s + e)), B(n), "set") : n \in Limits, s \in UNION {Around(m) : m \in Limits}, e \in {1, 2000}}
  \cup {Case(Delta(s + e, B(s)), B(n), "set") : n \in Limits, s \in UNION {Around(m) : m \in Limits}, e \in {1, 200}}
  \cup {Case(Declared(Delta(s, B(s)), B(d)), B(n), "set") : n \in Limits, s \in {0, 3, 64}, d \in {4, 5, 6, 9, 400}}
NoLimit ==
  {Case(fr, Unlimited, "negative") : fr \in {Literal(B(s), B(s)) : s \in {0, 1, 70, 5000}}
     \cup {Delta(s, B(s)) : s \in {0, 1, 70, 5000}} \cup {Delta(3, DefaultLimit), Delta(3, <<0, 0, 100>>)}}
Default ==
  {Case(fr, DefaultLimit, "default") : fr \in {Literal(B(s), B(s)) : s \in {0, 1, 70, 5000}}
     \cup {Delta(s, B(s)) : s \in {0, 1, 70}}
     \cup {Delta(3, Plus(DefaultLimit, B(1))), Delta(3, <<0, 0, 100>>), Delta(3, DefaultLimit)}
     \cup {Literal(Plus(DefaultLimit, B(1)), B(5)), Literal(<<5, 5, 5>>, B(5)),
           Declared(Delta(3, B(3)), Plus(DefaultLimit, B(1)))}}
(* many megabytes: whole limit used, one byte over, and small declarations with huge content *)
Mega == Intact("delta", SizeBytes(B(16777215)) \o SizeBytes(DefaultLimit)
               \o <<240, 255, 255, 255, 240, 255, 255, 255, 240, 255, 255, 255,
                    240, 255, 255, 255, 240, 255, 255, 255, 240, 255, 255, 255, 176, 6, 0>>)
MegaMore == [Mega EXCEPT !.delta = SizeBytes(B(16777215)) \o SizeBytes(Plus(DefaultLimit, B(1))) \o <<240, 255, 255, 255>>,
                         !.size = B(12), !.actual = B(12)]
Huge ==
  {[Case(Literal(DefaultLimit, DefaultLimit), DefaultLimit, "default") EXCEPT !.src = Zero],
   [Case(Mega, DefaultLimit, "default") EXCEPT !.src = B(16777215)],
   [Case(MegaMore, DefaultLimit, "default") EXCEPT !.src = B(16777215)],
   Case(Literal(Plus(DefaultLimit, B(1)), Plus(DefaultLimit, B(1))), DefaultLimit, "default"),
   Case(Literal(Plus(DefaultLimit, B(1)), Plus(DefaultLimit, B(1))), Unlimited, "negative"),
   Case(Literal(Plus(DefaultLimit, B(1)), Plus(DefaultLimit, B(1))), Plus(DefaultLimit, B(1)), "set")}
Bombs ==
  {Case(Literal(B(s), B(400000000)), l, h) : s \in {0, 10, 1000}, l \in {B(2000)}, h \in {"set"}}
  \cup {Case([Literal(B(s), B(400000000)) EXCEPT !.method = "delta"], l, "set") : s \in {0, 10, 1000}, l \in {B(2000)}}
  \cup {Case(Literal(B(10), B(400000000)), Unlimited, "negative"),
        Case([Literal(B(10), B(400000000)) EXCEPT !.method = "delta"], Unlimited, "negative"),
        Case([Literal(B(10), B(400000000)) EXCEPT !.method = "delta"], DefaultLimit, "default")}

Cases == (IF "exact" \in Parts THEN Exact \cup NoLimit \cup Default ELSE {})
         \cup (IF "huge" \in Parts THEN Huge ELSE {}) \cup (IF "bombs" \in Parts THEN Bombs ELSE {})
VARIABLES job, ba
Init == \E x \in Cases : job = x /\ ba = BaBegin(BaStart, x.fr, x.limit)
Next == ba.pc # "idle" /\ ba' = BaStep(ba, job.fr, job.src, job.limit) /\ UNCHANGED job
Done == ba.pc = "idle"
NeverTooMuch == Bounded(ba)
(* neither the announced nor the written bytes exceed the limit *)
Within == job.limit # Unlimited => Leq(ba.most, job.limit) /\ Leq(Total(ba.out), job.limit)
(* the limit only matters to what exceeds it *)
Refused == Done => ((ba.err = "limit") <=>
             (job.limit # Unlimited /\ (\/ Less(job.limit, job.fr.size)
                                      \/ /\ job.fr.method = "delta" /\ Inflates(job.fr)
                                         /\ Less(job.limit, ReadSize(job.fr.delta, ReadSize(job.fr.delta, 1).next).n))))
NothingOnRefusal == ba.err = "limit" => ba.out = <<>>
Emit == Done => PrintT(ToJson([fr |-> job.fr, src |-> job.src, ba |-> ba, limit |-> job.limit, how |-> job.how]))
=============================================================================
