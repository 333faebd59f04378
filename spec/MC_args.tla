------------------------------- MODULE MC_args -------------------------------
(* Every short command line, every option type, every order of registering  *)
(* (C17).                                                                   *)
EXTENDS MCProg
CONSTANT MaxArgs

Tok(s, d, c) == [s |-> s, d |-> d, c |-> c]
Alphabet == {Tok("--n", 2, "str"), Tok("--nn", 2, "str"), Tok("-v", 1, "str"), Tok("5", 0, "int"), Tok("-3", 1, "int"), Tok("2.5", 0, "dbl"), Tok("a b", 0, "str"), Tok("--help", 2, "str")}
Lines == {av \in Seqs(Alphabet, 0, MaxArgs) : WellFormed(NoHelp(av))}
Given(av) == ArgEntries(NoHelp(av))
ClassOf(av, fl) == IF fl \in Flags(Given(av)) THEN FirstOf(Given(av), fl)[3] ELSE "none"
Reads(c, ty) == CASE ty \in {"bool", "str"} -> TRUE [] ty = "int" -> c \in {"int", "none"} [] OTHER -> c \in {"int", "dbl", "none"}
Defaults == [int |-> <<"7", "-1">>, dbl |-> <<"0.125", "3">>, str |-> <<"none", "x y">>, bool |-> <<"false", "true">>]
Ask(fl, ty, k) == C("ap", "parse", [x |-> "P", ty |-> ty, flag |-> fl, def |-> Defaults[ty][k]] @@ (IF k = 1 THEN [help |-> "Some help"] ELSE <<>>))
Fresh(av) == <<C("ap", "new", [z |-> "P", form |-> "argv", argv |-> av])>>
Types == <<"int", "dbl", "str", "bool">>
Prog(av) ==
  LET can(fl) == SelectSeq(Types, LAMBDA ty : Reads(ClassOf(av, fl), ty))
  IN \* each option by itself, both defaults
     Flat([i \in 1..Len(can("--n")) |-> Fresh(av) \o <<Ask("--n", can("--n")[i], 1)>> \o Fresh(av) \o <<Ask("--n", can("--n")[i], 2)>>])
     \* three options together, in either order; one of them asked for twice
     \o Flat([i \in 1..Len(can("-v")) |-> LET cn == can("--n")
                                             n == cn[(i % Len(cn)) + 1]
                                             c2 == can("--nn")
                                             m == c2[((i + 1) % Len(c2)) + 1]
                                         IN Fresh(av) \o <<Ask("-v", can("-v")[i], 1), Ask("--n", n, 2), Ask("--nn", m, 1), Ask("--absent", "str", 1)>>
                                            \o Fresh(av) \o <<Ask("--nn", m, 2), Ask("--n", n, 1), Ask("-v", can("-v")[i], 2), Ask("--n", n, 2)>>])
     \o <<C("ap", "show", [x |-> "P", form |-> "options"]), C("ap", "show", [x |-> "P", form |-> "errors"]), C("ap", "show", [x |-> "P", form |-> "help"])>>
Programs == <<<<C("ap", "new", [z |-> "P", form |-> "default"]), Ask("--n", "int", 1), Ask("--v", "bool", 2), C("ap", "show", [x |-> "P", form |-> "options"])>>>> \o Map(Lines, Prog)

(* a line without repeated flags and without --help is good until an option is registered twice *)
Law == "P" \in DOMAIN heap =>
         LET p == heap["P"] IN
         /\ DOMAIN p.seen = DOMAIN p.helps
         /\ \A fl \in DOMAIN p.seen : fl \in DOMAIN p.vals /\ p.vals[fl][1] # "" /\ p.vals[fl][1] # p.seen[fl] => p.seen[fl] \in {"true", "false"}
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
