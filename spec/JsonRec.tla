------------------------------ MODULE JsonRec ------------------------------
(***************************************************************************)
(* JSON records (C22).  A JSON object is a sequence of <<name, type,       *)
(* value>>; types: "str", "int" (written without fraction or exponent),    *)
(* "real", "null", "bool", "list".                                         *)
(***************************************************************************)
EXTENDS Num

Field(fs, n) == fs[CHOOSE i \in DOMAIN fs : fs[i][1] = n]
FieldNames   == {"query_id", "doc_id", "score"}
ScoreField(kind, f) ==
  IF kind = "true" THEN f[2] = "int" /\ RLe("0", f[3]) /\ RLt(f[3], RPow2("32"))
  ELSE f[2] \in {"int", "real"}
ReadableRec(kind, fs) ==
  /\ FieldNames \subseteq { fs[i][1] : i \in DOMAIN fs }
  /\ Field(fs, "query_id")[2] = "str" /\ Field(fs, "doc_id")[2] = "str"
  /\ ScoreField(kind, Field(fs, "score"))
RecNear(kind, v, x) == IF kind = "true" THEN RCmp(v, x) = 0 ELSE IsFin(v) /\ RClose(v, x, "1e-15", "0")

=============================================================================
