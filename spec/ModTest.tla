------------------------------ MODULE ModTest ------------------------------
(* Known values of the definitions in the other modules. *)
EXTENDS Resample, Trec
C(a, b) == RClose(a, b, "1e-12", "1e-14")
ASSUME C(TTail2("2", 5), "0.10193947882985835")
ASSUME C(TTail2("1.5", 10), "0.16450732644544014")
ASSUME C(FTail("3", 2, 10), "0.09536743164062497")
ASSUME C(FTail("2.5", 3, 7), "0.14350945627893932")
ASSUME C(FTail("2.5", 4, 9), "0.11671494271656874")
ASSUME C(FTail("0.7", 9, 4), "0.6992440886196072")
ASSUME PrintT(BootTail(<<"1", "2", "-1", "3">>))
ASSUME PrintT(BootTail(<<"1/2", "2", "-1", "3", "0", "1", "1", "1">>))
ASSUME PrintT(TukeyTails(3, << <<"1", "2", "3">>, <<"0", "2", "2">>, <<"1", "1", "4">> >>))
ASSUME PrintT(ReadFile("pred", << "q  x\td 1 1.25e2 t", "q 0 d 1 .", "q 0 d 1 5. z", "q 0 d 1 .5e-1 z", "q 0 d 1 0.1" >>))
ASSUME PrintT(ReadFile("true", << "q 0 d -3", "q 0 d 2147483648", "q 0 d +7 xx", "q 0 d 1.0" , "q 0 d">>))
ASSUME PrintT(ParseMetric("ndcg@18446744073709551615")) /\ PrintT(ParseMetric("ndcg@18446744073709551616"))
ASSUME PrintT(ParseMetric("bpref@5")) /\ PrintT(ParseMetric("ap@+5")) /\ PrintT(ParseMetric("ap@05"))
J == ("a" :> "3" @@ "b" :> "0" @@ "c" :> "1" @@ "e" :> "2")
R == <<"x", "b", "c", "a", "y">>
ASSUME \A m \in MetricNames : PrintT(<<m, Score(m, "3", J, R)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
