---------------------------- MODULE MC_Metrics ----------------------------
(***************************************************************************)
(* All judgment maps of up to Documents documents (up to renaming) and all *)
(* rankings of them (C03, C04, C05; C06 with few documents).  A ranking    *)
(* grows by one document per step.  The script of a judgment map evaluates *)
(* every ranking, each as a query of its own.                              *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Documents, Grades, Cutoffs, Which, Levels

VARIABLES J, R, told
mvars == <<bld, sto, evs, mem, J, R, told>>

Ds == { RInt(i) : i \in 1..Documents }
\* judged at most once: "-" stands for unjudged; documents are interchangeable, so their grades may be sorted
GradeSeq == SetToSeq(Grades)
Sorted == { f \in [1..Documents -> 0..Len(GradeSeq)] : (\A i \in 1..(Documents - 1) : f[i] <= f[i + 1]) /\ \E i \in 1..Documents : f[i] > 0 }
JudgmentsOf(f) == [d \in { RInt(i) : i \in { i \in 1..Documents : f[i] > 0 } } |-> RParse(GradeSeq[f[RToInt(d)]])]

Ms == SetToSeq(IF Which = "C06" THEN MetricNames ELSE { m \in MetricNames : PropOf(m) = Which })
Ks(m) == SetToSeq(IF m \in NoCutoff THEN {"0"} ELSE Cutoffs)

MInit == LInit /\ J \in { JudgmentsOf(f) : f \in Sorted } /\ R = <<>> /\ told = FALSE
Retrieve == /\ ~told /\ \E d \in Ds : d \notin { R[i] : i \in DOMAIN R } /\ R' = Append(R, d)
            /\ UNCHANGED <<lvars, J, told>>

Rankings == SetToSeq(Arrangements(Ds, Documents) \ { <<>> })
TrueRecs == LET js == SetToSeq(DOMAIN J) IN FlattenSeq([i \in DOMAIN Rankings |-> [j \in DOMAIN js |-> <<RInt(i), js[j], J[js[j]]>>]])
PredRecs == FlattenSeq([i \in DOMAIN Rankings |-> [j \in DOMAIN Rankings[i] |-> <<RInt(i), Rankings[i][j], RInt(10 - j)>>]])
Script == << [op |-> "from", kind |-> "true", recs |-> TrueRecs, as |-> "t"], [op |-> "from", kind |-> "pred", recs |-> PredRecs, as |-> "p"] >>
          \o FlattenSeq([i \in DOMAIN Ms |-> LET m == Ms[i] ks == Ks(m)
                           IN  [j \in DOMAIN ks |-> [op |-> "eval", t |-> "t", p |-> "p", m |-> m, k |-> ks[j], as |-> m \o ks[j]]]])
Tell == ~told /\ R = <<>> /\ told' = TRUE /\ Emit("u64", Script) /\ UNCHANGED <<lvars, J, R>>
MNext == Retrieve \/ Tell

-----------------------------------------------------------------------------
\* What the definitions imply
S(m, k) == Score(m, k, J, R)
InRange == \A i \in DOMAIN Ms : \A k \in { Ks(Ms[i])[j] : j \in DOMAIN Ks(Ms[i]) } :
             LET v == S(Ms[i], k) IN IsFin(v) /\ RLe("0", v) /\ Bounded(Ms[i], v)
SetLaws == \A k \in Cutoffs :
             LET p == S("precision", k)
                 r == S("recall", k)
                 f == S("f1", k)
                 h == S("hits", k)
             IN  /\ S("success", k) = (IF h = "0" THEN "0" ELSE "1")
                 /\ RLe(RMin(p, r), f) /\ RLe(f, RMax(p, r))
                 /\ (f = "0" <=> h = "0")
                 /\ RMul(r, RInt(NRel(J))) = h
                 /\ k = "0" => RMul(p, RInt(Len(R))) = h
                 /\ k # "0" => RMul(p, k) = h
                 /\ (NRel(J) > 0 /\ k = RInt(NRel(J))) => S("r_precision", "0") = p /\ p = r
RankLaws == \A k \in Cutoffs :
             /\ RLe(S("ap", k), S("recall", k))
             /\ (S("rr", k) = "0" <=> S("hits", k) = "0")
             /\ (NRel(J) = 1 => S("ap", k) = S("rr", k))
             /\ (S("ap", k) = "1" <=> (NRel(J) > 0 /\ S("recall", k) = "1" /\ \A i \in 1..NRel(J) : Rel(J, R[i])))
             /\ (NNon(J) = 0 => S("bpref", "0") = S("recall", "0"))
\* by definition of an ideal ranking
IsIdeal == \A i, j \in DOMAIN GainSeq(J, R) : i < j => RLe(GainSeq(J, R)[j], GainSeq(J, R)[i])
DcgLaws == \A k \in Cutoffs : \A w \in {"jarvelin", "burges"} :
             LET n == NDCG(w, J, R, k)
             IN  /\ RLe(DCG(w, J, R, k), IDCG(w, J, k))
                 /\ (IsIdeal /\ DOMAIN J \subseteq { R[i] : i \in DOMAIN R }) => n = "1"
                 /\ (Levels = "binary" => DCG("jarvelin", J, R, k) = DCG("burges", J, R, k))
\* C06, as relations between steps
Lower(k, n) == k # "0" /\ RLe(k, RInt(n))
Monotone == (\A i \in 1..(Len(R) - 1) :
                 RLt(GainSeq(J, R)[i], GainSeq(J, R)[i + 1]) =>
                   LET Q == [R EXCEPT ![i] = R[i + 1], ![i + 1] = R[i]]
                   IN  \A j \in DOMAIN Ms : \A k \in Cutoffs : NotLower(Score(Ms[j], k, J, Q), Score(Ms[j], k, J, R)))
KeepsTop == [][\A i \in DOMAIN Ms : \A k \in Cutoffs :
                 (Ms[i] \notin NoCutoff /\ Lower(k, Len(R))) => Score(Ms[i], k, J, R') = Score(Ms[i], k, J, R)]_mvars
CutoffBeyond == (\A i \in DOMAIN Ms : \A k \in Cutoffs :
                 (Ms[i] \notin {"precision", "f1", "r_precision", "bpref"} /\ RLe(RInt(Documents), k)) => S(Ms[i], k) = S(Ms[i], "0"))
\* equal views, equal scores: here against the ranking without its unjudged documents below
ViewsDecide == (\A i \in DOMAIN Ms : \A k \in Cutoffs :
                 LET Q == SelectSeq(R, LAMBDA d : Judged(J, d))
                 IN  View(Ms[i], k, J, Q) = View(Ms[i], k, J, R) => Score(Ms[i], k, J, Q) = Score(Ms[i], k, J, R))
=============================================================================
