------------------------------ MODULE Secrets -------------------------------
(***************************************************************************)
(* Where secrets may flow.  A call (or a session of calls) carries the     *)
(* occurrences of secrets that were found in anything observable:          *)
(*   c.leaks: sequence of [secret, channel, scheme, host, ep, place]       *)
(* secret in {"pem", "hmac", "token"}; channel in {"url", "field",         *)
(* "error", "output", "request"} (output: what the process printed while   *)
(* the call was made, and the text of a value that has one, formatted); of *)
(* a request: its scheme, the host it went to, the  *)
(* endpoint ("email", "token", "sign" or "other") and the place in it      *)
(* ("authorization" or "other").  c.requests: all requests that were made. *)
(* c.keytype: "bound", or another kind of key, or "none".                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

IamHost == "iamcredentials.googleapis.com"

MayFlow(x) == /\ x.secret = "token"
              /\ x.channel = "request"
              /\ x.scheme = "https"
              /\ x.host = IamHost
              /\ x.ep = "sign"
              /\ x.place = "authorization"

(* C18 *)
NoLeak(c) == /\ \A i \in 1..Len(c.leaks) : MayFlow(c.leaks[i])
             /\ c.keytype # "bound" => Len(c.requests) = 0
=============================================================================
