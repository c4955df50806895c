------------------------------- MODULE ConnMC --------------------------------
(* Configurations and environments built option by option; every one is      *)
(* printed to be realised against the code.                                  *)
EXTENDS Conn, Json
CONSTANT MaxSet
VARIABLES role, cfg, env, n
vars == <<role, cfg, env, n>>
C == [role |-> role, cfg |-> cfg, env |-> env]
Unset == [o \in Options |-> "unset"]
Order == <<"host", "port", "database", "username", "password", "require", "verify", "rootcert", "cert", "key">>
Last == LET S == {k \in DOMAIN Order : cfg[Order[k]] # "unset" \/ env[Order[k]] # "unset"} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k

Init == /\ role \in Roles /\ n = 0
        /\ \E d \in Dialects \cup {"unset"}, e \in Dialects \cup {"unset"} :
              cfg = [Unset EXCEPT !.dialect = d] /\ env = [Unset EXCEPT !.dialect = e]
(* in the order of the options, so that every combination is reached once *)
SetOne == /\ n < MaxSet /\ n' = n + 1 /\ UNCHANGED role
          /\ \E k \in DOMAIN Order : k > Last /\
                \E x \in CfgValues(Order[k]) \cup {"unset"}, y \in EnvValues(Order[k]) \cup {"unset"} :
                   /\ <<x, y>> # <<"unset", "unset">>
                   /\ cfg' = [cfg EXCEPT ![Order[k]] = x] /\ env' = [env EXCEPT ![Order[k]] = y]
Next == SetOne
Spec == Init /\ [][Next]_vars

Without(f, o) == [f EXCEPT ![o] = "unset"]
(* an explicit option makes the environment's one irrelevant *)
Precedence == \A o \in Options : cfg[o] # "unset" =>
                 LET D == [C EXCEPT !.env = Without(env, o)]
                 IN Meaning(C) = Meaning(D) /\ Need(C) = Need(D) /\ \A f \in Files : MeantFile(C, f) = MeantFile(D, f)
(* the environment alone never lowers what is required, unless it says so itself *)
NeverWeaker == env.verify = "unset" => \A o \in Options : Need(C) >= Need([C EXCEPT !.env = Without(env, o)])
Emit == PrintT("CASE " \o ToJson(C))
=============================================================================
