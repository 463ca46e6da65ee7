----------------------------- MODULE MCSecrets ------------------------------
(***************************************************************************)
(* The flow of secrets through a call: which stages hold which secret,     *)
(* what leaves the library at each of them - requests, errors, results -   *)
(* and which secrets are in it.  Every stage may fail.  Bug plants a flow  *)
(* that must not be; the rule of C18 has to notice it.                     *)
(***************************************************************************)
EXTENDS Secrets, FiniteSets, SequencesExt, TLC

CONSTANT Bug

Stages == {"load", "valid", "email", "token", "pem", "pkcs8", "blob", "result"}

VARIABLES kind, form, stage, held, leaks, requests, over
vars == <<kind, form, stage, held, leaks, requests, over>>

Init == /\ kind \in {"sa", "file", "hmac", "bound"}
        /\ form \in BOOLEAN
        /\ stage = "load"
        /\ held = CASE kind \in {"sa", "file"} -> {"pem"}
                    [] kind = "hmac" -> {"hmac"}
                    [] OTHER -> {}
        /\ leaks = {}
        /\ requests = <<>>
        /\ over = FALSE

Seen(S, channel) == {[secret |-> x, channel |-> channel, scheme |-> "", host |-> "", ep |-> "",
                      place |-> "other"] : x \in S}

(* An error of a stage, with what it quotes of the secrets at hand.        *)
Quoted == CASE Bug = "quotes key" /\ stage \in {"load", "pem"} -> held \cap {"pem"}
            [] Bug = "quotes answer" /\ stage = "token" -> {"token"}
            [] Bug = "quotes request" /\ stage = "blob" -> held \cap {"token"}
            [] Bug = "quotes secret" /\ stage = "valid" -> held \cap {"hmac"}
            [] OTHER -> {}
Fail == /\ ~over
        /\ over' = TRUE
        /\ leaks' = leaks \cup Seen(Quoted, "error")
        /\ UNCHANGED <<kind, form, stage, held, requests>>

(* What is printed where a secret is used.                                 *)
Printed == CASE Bug = "prints key" /\ stage = "pkcs8" -> held \cap {"pem"}
             [] Bug = "prints token" /\ stage = "blob" -> held \cap {"token"}
             [] OTHER -> {}

Sent(scheme, host, ep, S, place) ==
  /\ requests' = Append(requests, [scheme |-> scheme, host |-> host])
  /\ leaks' = leaks \cup Seen(Printed, "output") \cup
              {[secret |-> x, channel |-> "request", scheme |-> scheme, host |-> host,
                           ep |-> ep, place |-> place] : x \in S}

To(s, keep) == stage' = s /\ held' = keep /\ UNCHANGED <<kind, form, over>>
Quiet == /\ leaks' = leaks \cup Seen(Printed, "output")
         /\ UNCHANGED requests

Load == /\ stage = "load" /\ ~over
        /\ IF Bug = "asks metadata" THEN Sent("http", "metadata", "email", {}, "other") ELSE Quiet
        /\ To("valid", held)
(* Calls that no key makes valid, and keys that cannot be used like this.  *)
Valid == /\ stage = "valid" /\ ~over
         /\ kind # "hmac"
         /\ Quiet
         /\ To(IF kind = "bound" THEN "email" ELSE "pem", held)
AskEmail == /\ stage = "email" /\ ~over
            /\ Sent("http", "metadata", "email",
                    IF Bug = "token to metadata" THEN {"token"} ELSE {}, "other")
            /\ To("token", held)
AskToken == /\ stage = "token" /\ ~over
            /\ Sent("http", "metadata", "token", {}, "other")
            /\ To("blob", held \cup {"token"})
Pem == stage = "pem" /\ ~over /\ Quiet /\ To("pkcs8", held)
Pkcs8 == stage = "pkcs8" /\ ~over /\ Quiet /\ To("result", held)
AskSign == /\ stage = "blob" /\ ~over
           /\ Sent(IF Bug = "plain" THEN "http" ELSE "https",
                   IF Bug = "elsewhere" THEN "iam.example" ELSE IamHost,
                   "sign", held \cap {"token"},
                   IF Bug = "token in target" THEN "other" ELSE "authorization")
           /\ To("result", held)
Result == /\ stage = "result" /\ ~over
          /\ over' = TRUE
          /\ leaks' = leaks \cup Seen(IF Bug = "token in field" /\ form THEN held \cap {"token"} ELSE {},
                                      IF form THEN "field" ELSE "url")
          /\ UNCHANGED <<kind, form, stage, held, requests>>

Next == Load \/ Valid \/ AskEmail \/ AskToken \/ Pem \/ Pkcs8 \/ AskSign \/ Result \/ Fail
Spec == Init /\ [][Next]_vars

Kept == NoLeak([leaks |-> SetToSeq(leaks), requests |-> requests,
                keytype |-> IF kind = "bound" THEN "bound" ELSE "other"])
Allowed == \A x \in leaks : x.secret = "token"
=============================================================================
