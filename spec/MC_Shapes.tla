----------------------------- MODULE MC_Shapes -----------------------------
(***************************************************************************)
(* All shapes of tables, ragged ones included, against all numbers of      *)
(* systems (C17), filled in several ways.                                  *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS MaxTopics, MaxSystems

VARIABLES shape, m, fill, told
mvars == <<bld, sto, evs, mem, shape, m, fill, told>>

MInit == LInit /\ shape = <<>> /\ m \in 0..MaxSystems /\ fill \in {"any", "additive", "constant", "rows"} /\ told = FALSE
Row == Len(shape) < MaxTopics /\ \E w \in 0..MaxSystems : shape' = Append(shape, w) /\ UNCHANGED <<lvars, m, fill, told>>
Cell(j, i) == CASE fill = "any" -> RInt((i * i + 3 * j * i) % 7) [] fill = "additive" -> RInt(2 * i + j) [] fill = "constant" -> "2" [] fill = "rows" -> RInt(j)
X == [j \in DOMAIN shape |-> [i \in 1..shape[j] |-> Cell(j, i)]]
Script == << [op |-> "anova", x |-> X, m |-> m, levels |-> <<"1:-1", "0">>], [op |-> "tukey", x |-> X, m |-> m],
             [op |-> "rtukey", x |-> X, m |-> m, sets |-> << <<"n", "5">> >>, via |-> "new"],
             [op |-> "rtukey", x |-> X, m |-> m, sets |-> <<>>, via |-> "from"] >>
Tell == Emit("str", Script) /\ told' = TRUE /\ UNCHANGED <<lvars, shape, m, fill>>
MNext == ~told /\ (Row \/ Tell)

Y == [j \in DOMAIN X |-> [i \in DOMAIN X[j] |-> RParse(X[j][i])]]
Refused == (AExpect(Y, m) = {"InvalidArgument"}) <=> (Len(shape) < 2 \/ m < 2 \/ \E j \in DOMAIN shape : shape[j] # m)
NothingToTest == (fill # "any" /\ AExpect(Y, m) # {"InvalidArgument"}) => AExpect(Y, m) = {"Uncomputable"}
=============================================================================
