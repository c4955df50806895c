-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* Connection settings: what a configuration and an environment mean.      *)
(* A case is [role, cfg, env]: cfg and env map every option to a symbol.   *)
(* "unset" everywhere at first; options are then chosen one at a time.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Roles == {"plan", "sample", "destination"}
Dialects == {"mysql", "postgres", "sqlite"}
Plain == {"host", "port", "database", "username", "password"}
Files == {"rootcert", "cert", "key"}
Options == Plain \cup Files \cup {"dialect", "require", "verify"}

CfgValues(o) == CASE o = "dialect" -> Dialects
                  [] o = "require" -> {"yes", "no"}
                  [] o = "verify" -> {"none", "cert", "identity"}
                  [] o \in {"database", "username", "password"} -> {"cfg", "empty"}
                  [] OTHER -> {"cfg"}
EnvValues(o) == CASE o = "dialect" -> Dialects
                  [] o = "require" -> {"yes"}
                  [] o = "verify" -> {"none", "cert", "identity"}
                  [] OTHER -> {"env"}

(* -------------------------------------------------------- what is meant *)
Eff(c, o, default) == IF c.cfg[o] # "unset" THEN c.cfg[o] ELSE IF c.env[o] # "unset" THEN c.env[o] ELSE default
Dialect(c) == Eff(c, "dialect", "mysql")
Tls(c) == Eff(c, "require", "no") = "yes"
Rank(level) == CASE level = "none" -> 1 [] level = "cert" -> 2 [] level = "identity" -> 3
Need(c) == IF Tls(c) THEN Rank(Eff(c, "verify", "none")) ELSE 0
Refused(c) == Dialect(c) = "sqlite" /\ Tls(c)          \* nothing weaker than what was asked for
None(v) == IF v = "empty" THEN "none" ELSE v
Meaning(c) ==
    [dialect |-> Dialect(c),
     host |-> IF Dialect(c) = "sqlite" THEN "none" ELSE Eff(c, "host", "default"),
     port |-> IF Dialect(c) = "sqlite" THEN "none" ELSE Eff(c, "port", "default"),
     database |-> IF Dialect(c) = "mysql" THEN "none" ELSE None(Eff(c, "database", "none")),
     username |-> IF Dialect(c) = "sqlite" THEN "none" ELSE None(Eff(c, "username", "none")),
     password |-> IF Dialect(c) = "sqlite" THEN "none" ELSE None(Eff(c, "password", "none"))]
MeantFile(c, o) == IF Tls(c) THEN Eff(c, o, "none") ELSE "none"

(* -------------------------------------------- what the driver was given *)
(* seen: [refused, dialect, host, .., password, strength, rootcert, cert, key] *)
ConnBad(c, seen) ==
    IF Refused(c) THEN (IF seen.refused THEN {} ELSE {"conn.tls"})
    ELSE IF seen.refused THEN {"conn.refused"}
    ELSE UNION {IF seen[o] = Meaning(c)[o] THEN {} ELSE {"conn." \o o} : o \in DOMAIN Meaning(c)}
         \cup (IF seen.strength < Need(c) THEN {"conn.tls"} ELSE {})
         \cup UNION {IF ~Tls(c) \/ seen[o] = MeantFile(c, o) THEN {} ELSE {"conn." \o o} : o \in Files}

(* sessions: the statements run on one new connection, in order *)
SessionsBad(want, seen) == IF \A n \in DOMAIN seen : seen[n] = want THEN {} ELSE {"conn.session"}
=============================================================================
