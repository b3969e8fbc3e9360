-------------------------------- MODULE World --------------------------------
(* Everything a user holds: laws, materials, geometries, sections, profiles. *)
(* Questions change nothing: neither what is held nor what was answered.     *)
(* Makers add something new and leave everything else as it is.              *)
EXTENDS Integers, Sequences, FiniteSets
(* what the world begins with: name and kind *)
Base == << <<"el", "law">>, <<"ep", "law">>, <<"pr", "law">>, <<"bl", "law">>, <<"sa", "law">>, <<"po", "law">>, <<"us", "law">>,
           <<"in", "law">>, <<"pa", "law">>,
           <<"ce04", "mat">>, <<"ce23", "mat">>, <<"cmc", "mat">>, <<"re04", "mat">>, <<"re23", "mat">>, <<"rmc", "mat">>, <<"gen", "mat">>, <<"pre", "mat">>,
           <<"plain", "geo">>, <<"rc", "geo">>, <<"gg", "geo">>, <<"bar", "bar">>,
           <<"fib", "sec">>, <<"mar", "sec">>, <<"two", "sec">>,
           <<"IPE300", "profile">>, <<"UPN200", "profile">>, <<"HEB200", "profile">>, <<"L", "profile">> >>
Start == [i \in DOMAIN Base |-> Base[i][2]]
Questions ==
  [law |-> {"stress", "stresslist", "stressint", "stress1", "tangent", "tangentint", "tangent1", "secant", "secantlist", "ult", "ulty", "marin", "marinu", "marintan", "marintanu"},
   mat |-> {"values", "lawstress", "lawult"},
   geo |-> {"area", "extents", "svg", "split", "splitup", "split2", "parts"},
   bar |-> {"values", "svg"},
   sec |-> {"gross", "bend", "bendn", "curve", "own", "ownlist", "stress", "stresslist", "modulus", "nm", "nmm", "mm", "plan", "limit", "cracked"},
   profile |-> {"polygon", "cut", "class", "values", "names"}]
(* makers: what they make *)
Makers ==
  [law |-> [initial |-> "law", parallel |-> "law", generic |-> "mat"],
   mat |-> [surface |-> "geo", point |-> "bar"],
   geo |-> [translate |-> "geo", rotate |-> "geo", mirror |-> "geo", copy |-> "geo", addbar |-> "geo", addline |-> "geo", addcircle |-> "geo",
            plus |-> "geo", minus |-> "geo", fibres |-> "sec", polynomials |-> "sec", compound |-> "geo"],
   bar |-> [translate |-> "bar", rotate |-> "bar", mirror |-> "bar", copy |-> "bar", plus |-> "geo"],
   sec |-> [none |-> "none"],
   profile |-> [surface |-> "geo"]]
(* operations on the object i of a population s, with a partner j *)
Asks(s) == {<<"ask", i, q, 0>> : i \in DOMAIN s, q \in UNION {Questions[k] : k \in DOMAIN Questions}}
AskOK(s, op) == op[3] \in Questions[s[op[2]]]
MakeOK(s, op) == op[3] \in DOMAIN Makers[s[op[2]]] \ {"none"}
Partner(s, i, m) ==
  CASE m \in {"plus", "minus"} -> {j \in DOMAIN s : s[j] \in {"geo", "bar"}}
    [] m = "parallel" -> {j \in DOMAIN s : s[j] = "law"}
    [] m \in {"copy", "addbar", "addline", "addcircle"} \/ (s[i] = "profile" /\ m = "surface") -> {j \in DOMAIN s : s[j] = "mat"}
    [] OTHER -> {0}
(* a maker may be refused (a geometry without area, a law that cannot be put  *)
(* in parallel, ...): then nothing is added                                  *)
Step(s, op, done) == IF op[1] = "make" /\ done THEN Append(s, Makers[s[op[2]]][op[3]]) ELSE s
=============================================================================
