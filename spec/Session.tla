------------------------------ MODULE Session ------------------------------
(* The session of a user: the design code and the national annex in force    *)
(* and the materials made so far.  Step is the whole behaviour; MC_Session   *)
(* explores it, Trace_Session judges the library with it.                    *)
EXTENDS Integers, Sequences, FiniteSets

Codes == {"mc2010", "mc2020", "ec2_2004", "ec2_2023"}
(* a code is named by its abbreviation in any case, or is the module itself *)
Spell == [mc2010   |-> {"mc2010", "MC2010", "Mc2010", "mC2010"},
          mc2020   |-> {"mc2020", "MC2020", "Mc2020"},
          ec2_2004 |-> {"ec2_2004", "EC2_2004", "Ec2_2004", "eC2_2004"},
          ec2_2023 |-> {"ec2_2023", "EC2_2023", "Ec2_2023", "EC2_2023"}]
Modules == [mc2010 |-> "module:mc2010", mc2020 |-> "module:mc2020",
            ec2_2004 |-> "module:ec2_2004", ec2_2023 |-> "module:ec2_2023"]
(* modules of the user: a complete code without materials of its own, one   *)
(* that covers no material, one that only covers concrete                    *)
Own == [user |-> "module:user", nomat |-> "module:nomat", onlyc |-> "module:onlyc"]
Bad == {"", " ", "ec2", "EC2-2004", " ec2_2004", "mc2010 ", "mc1990", "None", "ec2_2004.",
        "module:incomplete", "module:math", "number:2010", "list:ec2_2004"}
Name(a) == CASE \E c \in Codes : a \in Spell[c] \cup {Modules[c]} ->
                  CHOOSE c \in Codes : a \in Spell[c] \cup {Modules[c]}
             [] \E u \in DOMAIN Own : a = Own[u] -> CHOOSE u \in DOMAIN Own : a = Own[u]
             [] OTHER -> "invalid"
Args == UNION {Spell[c] \cup {Modules[c]} : c \in Codes} \cup {Own[u] : u \in DOMAIN Own} \cup Bad
(* classes of the materials of each code *)
Class == [mc2010 |-> [concrete |-> "ConcreteMC2010", steel |-> "ReinforcementMC2010"],
          ec2_2004 |-> [concrete |-> "ConcreteEC2_2004", steel |-> "ReinforcementEC2_2004"],
          ec2_2023 |-> [concrete |-> "ConcreteEC2_2023", steel |-> "ReinforcementEC2_2023"],
          mc2020 |-> [concrete |-> "none", steel |-> "none"],
          user |-> [concrete |-> "none", steel |-> "none"],
          onlyc |-> [concrete |-> "none", steel |-> "ValueError"],
          nomat |-> [concrete |-> "ValueError", steel |-> "ValueError"],
          none |-> [concrete |-> "ValueError", steel |-> "ValueError"],
          invalid |-> [concrete |-> "ValueError", steel |-> "ValueError"]]
LowerAnnex == [fi |-> "fi", FI |-> "fi", No |-> "no", nO |-> "no", DE |-> "de"]

Start == [code |-> "none", annex |-> "none", objs |-> <<>>]

(* An operation is <<name, argument>>; "-" is an omitted argument. *)
Res(s, r) == [s |-> s, r |-> r]
Make(s, kind, a) ==
  LET c == IF a \in {"-", "nil"} THEN s.code ELSE Name(a)   \* explicit code, else the global one
      k == Class[c][kind]
  IN IF k \in {"none", "ValueError"} THEN Res(s, k)
     ELSE Res([s EXCEPT !.objs = Append(@, k)], k)
Step(s, op) ==
  CASE op[1] = "set" -> IF op[2] \in {"-", "nil"} THEN Res([s EXCEPT !.code = "none"], "ok")
                        ELSE IF Name(op[2]) = "invalid" THEN Res(s, "ValueError")
                        ELSE Res([s EXCEPT !.code = Name(op[2])], "ok")
    [] op[1] = "annex" -> Res([s EXCEPT !.annex = LowerAnnex[op[2]]], "ok")
    [] op[1] = "list" -> Res(s, "codes")
    [] op[1] = "concrete" -> Make(s, "concrete", op[2])
    [] op[1] = "steel" -> Make(s, "steel", op[2])
    [] op[1] = "read" -> Res(s, s.objs[op[2]])     \* an earlier material is what it was
Ops(s) == {<<"set", a>> : a \in Args \cup {"-", "nil"}}
     \cup {<<"annex", a>> : a \in DOMAIN LowerAnnex}
     \cup {<<"list", "-">>}
     \cup {<<k, a>> : k \in {"concrete", "steel"}, a \in Args \cup {"-", "nil"}}
     \cup {<<"read", i>> : i \in DOMAIN s.objs}
=============================================================================
