----------------------------- MODULE TraceToken ------------------------------
(***************************************************************************)
(* Judges sessions recorded from the real library with bound-token keys:   *)
(* one behaviour per session, in which its events are shown one by one to  *)
(* the observer of TokenSource.                                            *)
(*                                                                         *)
(* A session is [now, sources, events].  sources: of each key made by a    *)
(* constructor, the authority of its metadata host.  Events, as recorded:  *)
(*   start   call, src, c (the arguments, as in SignedUrl or Form)         *)
(*   req     rid, scheme, to (the authority that was contacted), method,   *)
(*           path, flavor (the values of Metadata-Flavor), auth (those of  *)
(*           Authorization), extra (whether there is a body), members (of  *)
(*           a JSON object in the body), payload, call (whose region the   *)
(*           message names)                                                *)
(*   tlsfail to                                                            *)
(*   resp    rid, sent (whether a complete HTTP answer was sent), status,  *)
(*           body, json, root, members                                     *)
(*   gone, ret, cancel, quiet, tick, end                                   *)
(* A member is [n, t, v, k]: its name, the type of its value, the octets   *)
(* of a string, the value of an integer ("big" when above 10^9, "huge"     *)
(* when the sum with any time of our days overflows 63 bits).              *)
(***************************************************************************)
EXTENDS Form, TokenSource, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

-----------------------------------------------------------------------------
(* Requests. *)

MetaPath == B("/computeMetadata/v1/instance/service-accounts/default/")
EmailPath == MetaPath \o B("email")
TokenPath == MetaPath \o B("token")
Iam == B("iamcredentials.googleapis.com:443")
SignPrefix == B("/v1/projects/-/serviceAccounts/")
SignSuffix == B(":signBlob")
Bearer == B("Bearer ")

HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x

IsMeta(e) == e.path \in {EmailPath, TokenPath}
IsSign(e) == /\ e.to = Iam
             /\ HasPrefix(e.path, SignPrefix)
             /\ HasSuffix(e.path, SignSuffix)

MetaEvent(s, e) ==
  [e |-> "meta", rid |-> e.rid, kind |-> IF e.path = EmailPath THEN "email" ELSE "token",
   srcs |-> {k \in DOMAIN s.sources : s.sources[k] = e.to},
   ok |-> /\ e.scheme = "http"
          /\ e.method = B("GET")
          /\ e.flavor = <<B("Google")>>
          /\ e.auth = <<>>
          /\ ~e.extra]

PayloadText(e) ==
  IF Len(e.members) = 1 /\ e.members[1].n = B("payload") /\ e.members[1].t = "string"
     /\ IsBase64(e.members[1].v)
  THEN [some |-> TRUE, v |-> UnBase64(e.members[1].v)]
  ELSE [some |-> FALSE]

SignEvent(s, e) ==
  LET p == PayloadText(e)
      mid == SubSeq(e.path, Len(SignPrefix) + 1, Len(e.path) - Len(SignSuffix))
      ok == /\ e.scheme = "https"
            /\ e.method = B("POST")
            /\ WellEscaped(mid)
            /\ Len(e.auth) = 1
            /\ HasPrefix(e.auth[1], Bearer)
            /\ p.some
  IN  [e |-> "sign", rid |-> e.rid, known |-> e.call # "", call |-> e.call, ok |-> ok,
       acct |-> IF ok THEN Dec(mid) ELSE <<>>,
       token |-> IF ok THEN Drop(e.auth[1], Len(Bearer)) ELSE <<>>,
       payload |-> IF ok THEN p.v ELSE <<>>]

-----------------------------------------------------------------------------
(* Answers.  Whatever the properties leave open is "maybe".                *)

Success(e) == e.sent /\ e.status \in 200..299

Member(e, n) == SelectSeq(e.members, LAMBDA m : m.n = B(n))
MemberOf(e, n, t) == Len(Member(e, n)) = 1 /\ Member(e, n)[1].t = t

EmailValid(e) == CASE ~Success(e) \/ ~e.text -> "no"
                   [] e.body = <<>> -> "maybe"
                   [] OTHER -> "yes"

TokenValid(e) ==
  CASE ~Success(e) \/ ~e.json -> "no"
    [] e.root # "object" -> "no"
    [] ~MemberOf(e, "access_token", "string") -> "no"
    [] ~MemberOf(e, "token_type", "string") -> "no"
    [] Member(e, "token_type")[1].v # B("Bearer") -> "no"
    [] MemberOf(e, "expires_in", "huge") -> "maybe"
    [] MemberOf(e, "expires_in", "wholefloat") -> "maybe"
    [] ~(MemberOf(e, "expires_in", "int") \/ MemberOf(e, "expires_in", "big")) -> "no"
    [] OTHER -> "yes"

SignValid(e) ==
  CASE ~Success(e) \/ ~e.json -> "no"
    [] e.root # "object" -> "no"
    [] ~MemberOf(e, "signedBlob", "string") -> "no"
    [] ~MemberOf(e, "keyId", "string") -> "maybe"
    [] Member(e, "signedBlob")[1].v = <<>> -> "maybe"
    [] IsBase64(Member(e, "signedBlob")[1].v) -> "yes"
    [] \E i \in 1..Len(Member(e, "signedBlob")[1].v) :
          Member(e, "signedBlob")[1].v[i] \notin DOMAIN B64Val \cup {45, 95, 61, 9, 10, 13, 32} -> "no"
    [] OTHER -> "maybe"

NoExp == [inf |-> FALSE, t |-> [s |-> 0, n |-> 0]]

(* kind: what was asked for *)
RespEvent(kind, now, e) ==
  LET r(valid, v, exp) == [e |-> "resp", rid |-> e.rid, valid |-> valid, v |-> v, exp |-> exp]
  IN  CASE kind = "email" -> r(EmailValid(e), e.body, NoExp)
        [] kind = "token" ->
             LET x == Member(e, "expires_in")
                 a == Member(e, "access_token")
                 v == IF a # <<>> THEN a[1].v ELSE <<>>
             IN  IF MemberOf(e, "expires_in", "int")
                 THEN r(TokenValid(e), v, [inf |-> FALSE, t |-> [now EXCEPT !.s = @ + x[1].k]])
                 ELSE r(TokenValid(e), v, [inf |-> TRUE, t |-> now])
        [] kind = "sign" ->
             LET b == Member(e, "signedBlob")
                 v == IF b = <<>> THEN <<>> ELSE b[1].v
             IN  r(SignValid(e), IF v # <<>> /\ IsBase64(v) THEN UnBase64(v) ELSE <<>>, NoExp)
        [] OTHER -> r("no", <<>>, NoExp)

-----------------------------------------------------------------------------
(* Results. *)

Unlike == [acct |-> <<>>, msg |-> <<0>>, sig |-> <<>>]

UrlSigned(c, res) ==
  LET u == [c EXCEPT !.res = res]
  IN  IF ~Parsed(u) THEN Unlike
      ELSE LET w == RequestFor(res.url, c.method, c.headers)
           IN  IF ~Complete(w) THEN Unlike
               ELSE LET cred == Value1(QueryPairs(w.query), QCredential)
                        acct == SubSeq(cred, 1, FirstPos(cred, 47) - 1)
                        sig == Value1(QueryPairs(w.query), QSignature)
                    IN  IF IsLowerHex(sig)
                        THEN [acct |-> acct, msg |-> MessageOf(w, acct), sig |-> UnHex(sig)]
                        ELSE Unlike

FormSigned(c, res) ==
  LET f == [c EXCEPT !.res = res]
  IN  IF \E n \in SigningFields : ~HasField(f, n) THEN Unlike
      ELSE LET cred == FieldText(f, "x-goog-credential")
               sig == FieldText(f, "x-goog-signature")
           IN  IF FirstPos(cred, 47) > 0 /\ IsLowerHex(sig)
               THEN [acct |-> SubSeq(cred, 1, FirstPos(cred, 47) - 1),
                     msg |-> FieldText(f, "policy"), sig |-> UnHex(sig)]
               ELSE Unlike

RetEvent(s, e) ==
  LET c == s.events[CHOOSE j \in 1..Len(s.events) :
                      s.events[j].e = "start" /\ s.events[j].call = e.call].c
      x == IF c.op = "url" THEN UrlSigned(c, e.res) ELSE FormSigned(c, e.res)
  IN  IF e.res.kind # "ok" THEN [e |-> "ret", call |-> e.call, kind |-> e.res.kind]
      ELSE [e |-> "ret", call |-> e.call, kind |-> "ok", acct |-> x.acct, msg |-> x.msg,
            sig |-> x.sig]

-----------------------------------------------------------------------------
(* The event of TokenSource that a recorded one is; m: some explanation of *)
(* the events before (what was asked for is the same in all of them).      *)
Bad(c) == IF c.op = "url" THEN ~Valid(c) ELSE ~FormValid(c)

KindOf(s, rid) ==
  LET r == {s.events[j] : j \in {x \in 1..Len(s.events) : s.events[x].e = "req"
                                                          /\ s.events[x].rid = rid}}
      q == CHOOSE x \in r : TRUE
  IN  IF r = {} THEN "none"
      ELSE IF IsSign(q) THEN "sign"
      ELSE IF q.path = EmailPath THEN "email"
      ELSE IF q.path = TokenPath THEN "token" ELSE "none"

EventOf(s, now, e) ==
  CASE e.e = "start" -> [e |-> "start", call |-> e.call, src |-> e.src, bad |-> Bad(e.c)]
    [] e.e = "req" -> IF IsSign(e) THEN SignEvent(s, e)
                      ELSE IF IsMeta(e) THEN MetaEvent(s, e)
                      ELSE [e |-> "stray"]
    [] e.e = "tlsfail" -> IF e.to = Iam THEN [e |-> "tick", now |-> now] ELSE [e |-> "stray"]
    [] e.e = "resp" -> RespEvent(KindOf(s, e.rid), now, e)
    [] e.e = "gone" -> [e |-> "gone", rid |-> e.rid]
    [] e.e = "ret" -> RetEvent(s, e)
    [] e.e = "cancel" -> [e |-> "cancel", call |-> e.call, quiet |-> e.quiet]
    [] e.e = "tick" -> [e |-> "tick", now |-> e.now]
    [] e.e = "quiet" -> [e |-> "quiet"]
    [] e.e = "end" -> [e |-> "end", left |-> e.left]

VARIABLES tr, upto, expl, fault

Init == /\ tr \in 1..Len(Trace)
        /\ upto = 0
        /\ expl = {InitState(Trace[tr].now, DOMAIN Trace[tr].sources)}
        /\ fault = FALSE

(* Once something has been forgiven there may be more and more to reckon   *)
(* with: then there is nothing more to say about the session.              *)
TooMany == 400

Observe ==
  /\ ~fault
  /\ upto < Len(Trace[tr].events)
  /\ upto' = upto + 1
  /\ tr' = tr
  /\ LET s == Trace[tr]
         some == CHOOSE m \in expl : TRUE
         e == EventOf(s, some.now, s.events[upto + 1])
         M == After(expl, e)
         tags == IF M # {} THEN {} ELSE Broken(expl, e)
         N == IF M # {} THEN M ELSE IF Prop \in tags THEN {} ELSE Forgiven(expl, e)
         over == N = {} \/ Cardinality(N) > TooMany
     IN  /\ fault' = over
         /\ expl' = IF over THEN {} ELSE N
         /\ IF M # {} /\ ~over THEN TRUE
            ELSE PrintT(<<IF over THEN "FAULT" ELSE "FORGIVEN", tr, upto + 1, tags>>)
         /\ IF Prop \in tags THEN PrintT(<<"REJECTED", tr>>) ELSE TRUE

Next == Observe
=============================================================================
