----------------------------- MODULE MCKeyFile ------------------------------
(***************************************************************************)
(* Loading a key, step by step - the file is opened, read, parsed, its     *)
(* members are looked up - and signing with it, for every document of up   *)
(* to four members out of the families below.  Checked: what C16 asks.     *)
(* Bug plants a mistake in the loader, which the rule has to notice.       *)
(* Every document is also written to CALLS; the conformance check renders  *)
(* it as JSON text and loads it with the real library.                     *)
(*                                                                         *)
(* Private key texts are represented by the names of keys here.            *)
(***************************************************************************)
EXTENDS KeyFile, IOUtils, Json

CONSTANTS MaxMembers, Bug

ModelSign(key, m) == HexDigest(B(key) \o <<0>> \o m)
ModelSigValid(key, m, sig) == Hex(sig) = ModelSign(key, m)

GoodKeys == {"rsa1", "rsa2"}
Members ==
  {[n |-> ClientEmail, t |-> "string", v |-> B(v)] : v \in {"sa@example.com", " a ", ""}}
  \cup {[n |-> PrivateKey, t |-> "string", v |-> B(v)] : v \in GoodKeys \cup {"public"}}
  \cup {[n |-> n, t |-> t, v |-> <<>>] : n \in {ClientEmail, PrivateKey}, t \in {"number", "null", "object"}}
  \cup {[n |-> B(n), t |-> "string", v |-> B("rsa2")] :
          n \in {"Client_Email", "PRIVATE_KEY", "private_key_id", "email"}}
  \cup {[n |-> B("type"), t |-> "array", v |-> <<>>]}

RECURSIVE Lists(_)
Lists(k) == IF k = 0 THEN {<<>>}
            ELSE LET L == Lists(k - 1)
                 IN  L \cup {Append(l, m) : l \in {x \in L : Len(x) = k - 1}, m \in Members}
Distinct(l) == \A i, j \in 1..Len(l) : l[i].n = l[j].n => i = j

Object(l) == [readable |-> TRUE, utf8 |-> TRUE, json |-> TRUE, root |-> "object", members |-> l]
Two == <<[n |-> ClientEmail, t |-> "string", v |-> B("sa@example.com")],
         [n |-> PrivateKey, t |-> "string", v |-> B("rsa1")]>>
Docs == {Object(l) : l \in {x \in Lists(MaxMembers) : Distinct(x)}}
        \cup {[Object(<<>>) EXCEPT !.root = r] : r \in {"array", "string", "number", "null", "bool"}}
        \cup {[Object(Two) EXCEPT !.readable = FALSE], [Object(Two) EXCEPT !.utf8 = FALSE],
              [Object(Two) EXCEPT !.json = FALSE], [Object(<<>>) EXCEPT !.json = FALSE]}

NowT == [d |-> 19675, s |-> 80000, n |-> 0]
Plain == [op |-> "url", now |-> NowT, at |-> [some |-> TRUE, t |-> NowT],
          expires |-> Plus(NowT, 3600), method |-> B("GET"), bucket |-> B("bucket"),
          object |-> B("object"), region |-> [some |-> FALSE], headers |-> <<>>,
          query |-> <<>>, blob |-> FALSE, requests |-> <<>>]

NameOf(v) == IF \E k \in GoodKeys : B(k) = v THEN CHOOSE k \in GoodKeys : B(k) = v ELSE ""
KeyOf(email, pem) == [t |-> "sa", account |-> email, pub |-> NameOf(pem), can |-> NameOf(pem) # ""]
Unsigned == [kind |-> "none", url |-> <<>>]

-----------------------------------------------------------------------------
VARIABLES pc, doc, email, pem, call
vars == <<pc, doc, email, pem, call>>

Init == /\ pc = "open" /\ doc \in Docs /\ email = <<>> /\ pem = <<>>
        /\ call = Unsigned

Step(from, to, ok) == pc = from /\ pc' = IF ok THEN to ELSE "failed"

Open == /\ Step("open", "read", doc.readable)
        /\ UNCHANGED <<doc, email, pem, call>>
Read == /\ Step("read", "parse", doc.utf8 \/ Bug = "lossy")
        /\ UNCHANGED <<doc, email, pem, call>>
Parse == /\ Step("parse", "email", doc.json /\ doc.root = "object")
         /\ UNCHANGED <<doc, email, pem, call>>

Fold(n) == IF Bug = "anycase" THEN LowerCase(n) ELSE n
Found(n) == SelectSeq(doc.members, LAMBDA m : Fold(m.n) = n)
FoundAs(n) == IF Found(n) = <<>> THEN "none" ELSE Found(n)[1].t
TakenFrom(n) ==
  CASE FoundAs(n) = "string" -> Found(n)[1].v
    [] OTHER -> <<>>
Takes(n) == CASE Bug = "coerce" -> FoundAs(n) # "none"
              [] Bug = "default" -> FoundAs(n) \in {"none", "string"}
              [] OTHER -> FoundAs(n) = "string"

Email == /\ Step("email", "key", Takes(ClientEmail))
         /\ email' = IF Bug = "trim" THEN Trim(TakenFrom(ClientEmail)) ELSE TakenFrom(ClientEmail)
         /\ UNCHANGED <<doc, pem, call>>
Key == /\ Step("key", "made", Takes(PrivateKey) /\ (Bug = "early" => NameOf(TakenFrom(PrivateKey)) # ""))
       /\ pem' = TakenFrom(PrivateKey)
       /\ UNCHANGED <<doc, email, call>>

(* The arguments as the rule sees them: the key is the one the document    *)
(* holds, not the one the loader made.                                     *)
Text(n) == IF StringMember(doc, n) THEN MemberText(doc, n) ELSE <<>>
Asked == Plain @@ [key |-> KeyOf(Text(ClientEmail), Text(PrivateKey)), doc |-> doc, sure |-> TRUE, doubt |-> FALSE,
                   pem |-> Text(PrivateKey),
                   ref |-> Client(Plain @@ [key |-> KeyOf(Text(ClientEmail), Text(PrivateKey))],
                                  ModelSign)]
Sign == /\ pc = "made"
        /\ pc' = "done"
        /\ call' = Asked @@ [res |-> Client(Plain @@ [key |-> KeyOf(email, pem)], ModelSign)]
        /\ UNCHANGED <<doc, email, pem>>
Fail == /\ pc = "failed"
        /\ pc' = "done"
        /\ call' = Asked @@ [res |-> [kind |-> "keyerr", url |-> <<>>]]
        /\ UNCHANGED <<doc, email, pem>>

Next == Open \/ Read \/ Parse \/ Email \/ Key \/ Sign \/ Fail
Spec == Init /\ [][Next]_vars

Faithful == pc = "done" => KeyFaithful(call)

(* Both outcomes, and a key that loads but cannot sign, are among the      *)
(* documents.                                                              *)
ASSUME /\ \E d \in Docs : Loads(d)
       /\ \E d \in Docs : d.root = "object" /\ d.json /\ ~Loads(d)

ASSUME Dump == IF "CALLS" \in DOMAIN IOEnv
               THEN ndJsonSerialize(IOEnv.CALLS, SetToSeq(Docs)) ELSE TRUE
=============================================================================
