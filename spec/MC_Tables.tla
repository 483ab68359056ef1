----------------------------- MODULE MC_Tables -----------------------------
(***************************************************************************)
(* Score tables in every arrangement (C20, C21): Files tables of the same  *)
(* scores of Rows topics, the later ones with every order of the topics    *)
(* and every choice and order of the columns.  The report is that of the   *)
(* tables in plain order.                                                  *)
(***************************************************************************)
EXTENDS Cli, Json, CSV, IOUtils

CONSTANTS Files, Rows, Metrics4,
          Free       \* TRUE: the first table is rearranged, too

VARIABLES cs, told
mvars == <<fs, full, seen, cs, told>>

TopicIds == <<"q10", "9", "Q", "q2">>
\* the score of a topic for a system: no two rows or columns alike
ScoreOf(m, t, i) == CASE m = "ap" -> <<"0.5", "0.25", "0.875", "0.125", "1.0", "0.75", "0.0", "0.625", "0.375", "0.0625", "0.9375", "0.1875">>[((t * 5 + i * 7) % 12) + 1]
                      [] m = "rr" -> <<"0.0", "1", "0.5", "0.3333333333333333", "0.25", "0.2", "0.75", "1e-1">>[((t * 3 + i * i) % 8) + 1]
                      [] m = "ap@3" -> <<"0.1", "0.7", "0.4", "0.6", "0.2">>[((t * t + i * 2) % 5) + 1]
                      [] OTHER -> <<"3", "7", "5", "2", "11">>[((t * 2 + i * 3 + i * t) % 5) + 1]

RECURSIVE Arrangements(_)
Arrangements(S) == { <<>> } \cup UNION { { <<x>> \o a : a \in Arrangements(S \ {x}) } : x \in S }
TopicOrders  == { a \in Arrangements(1..Rows) : Len(a) = Rows }
ColumnOrders == Arrangements(Metrics4) \ { <<>> }
TableOf(i, ts, ms) == [t |-> "csv", sep |-> ",",
                       rows |-> << <<"query_id">> \o ms >> \o [j \in DOMAIN ts |-> <<TopicIds[ts[j]]>> \o [c \in DOMAIN ms |-> ScoreOf(ms[c], ts[j], i)]]]
Plain1 == [j \in 1..Rows |-> j]

MInit == fs = <<>> /\ full = <<>> /\ seen = <<>> /\ cs = <<>> /\ told = FALSE
\* the first table has all columns unless Free
Add == /\ Len(cs) < Files
       /\ \E ts \in IF Free \/ cs # <<>> THEN TopicOrders ELSE { Plain1 } :
          \E ms \in IF Free \/ cs # <<>> THEN ColumnOrders ELSE { a \in ColumnOrders : Len(a) = Cardinality(Metrics4) } :
            cs' = Append(cs, TableOf(Len(cs) + 1, ts, ms))
       /\ UNCHANGED <<fs, full, seen, told>>
Name(i) == <<"b.csv", "a.csv", "d.csv", "c.csv">>[i]
Run == [op |-> "compare", files |-> [i \in DOMAIN cs |-> Name(i)], tab |-> FALSE, mode |-> "any", nres |-> "50", niters |-> "50", extra |-> "",
        fault |-> [kind |-> "none"]]
\* CompareValid over these tables
Valid == /\ \A i \in DOMAIN cs : TableOk(cs[i], ",")
         /\ Len(cs) > 1 => /\ \A i \in DOMAIN cs : Header(cs[i]) = Header(cs[1]) /\ UniqueTopics(cs[i]) /\ Topics(cs[i]) = Topics(cs[1])
                           /\ Common(cs) # <<>>
Tell == /\ Len(cs) = Files /\ told' = TRUE
        /\ CSVWrite("%1$s", <<ToJson([files |-> [i \in DOMAIN cs |-> [path |-> Name(i), c |-> cs[i]]],
                                      run |-> Run @@ [expect |-> IF Valid THEN "ok" ELSE "fail"]])>>, IOEnv.OUT)
        /\ UNCHANGED <<fs, full, seen, cs>>
MNext == ~told /\ (Add \/ Tell)

-----------------------------------------------------------------------------
\* a table's meaning does not depend on its arrangement
Meaning == \A i \in DOMAIN cs : \A m \in Range2(MetricCols(cs[i])) : \A t \in 1..Rows :
             ScoresOf(cs[i], m)[TopicIds[t]] = PredScore(ScoreOf(m, t, i)).v
\* what is common, in the first table's order
CommonIs == (cs # <<>> /\ Valid) =>
              /\ Range2(Common(cs)) = { m \in Metrics4 : \A i \in DOMAIN cs : m \in Range2(MetricCols(cs[i])) }
              /\ \A a, b \in DOMAIN Common(cs) : a < b => ColOf(cs[1], Common(cs)[a]) < ColOf(cs[1], Common(cs)[b])
\* the aligned scores are those of the plain arrangement
Aligned == (Len(cs) > 1 /\ Valid) =>
             LET base == [i \in DOMAIN cs |-> TableOf(i, Plain1, SetToSeq(Metrics4))]
             IN  \A m \in Range2(Common(cs)) : Joined(cs, m) = Joined(base, m)
\* swapping two systems swaps the means and negates mean, effect size and t
Swapped == (Len(cs) = 2 /\ Valid) =>
             LET sc == <<cs[2], cs[1]>>
             IN  \A m \in Range2(Common(cs)) :
                   LET a == TRow(m, Joined(cs, m))
                       b == TRow(m, Joined(sc, m))
                   IN  Wide(DiffsOf(Joined(cs, m))) =>
                         /\ \A c \in {2, 4, 5} : a[c][2] = RNeg(b[c][2])
                         /\ \A c \in {3, 6, 7} : a[c] = b[c]
\* the variations add up, and the effect sizes are antisymmetric
Anova == (Len(cs) > 2 /\ Valid) =>
           \A m \in Range2(Common(cs)) :
             LET X == Joined(cs, m)
                 S == SumsOfSquares(X, Len(cs))
             IN  RAdd(S.A, RAdd(S.B, S.E)) = SSDev(Flat(X))
=============================================================================
