----------------------------- MODULE SignedUrl ------------------------------
(***************************************************************************)
(* Signed URLs: which requests are valid, what the client (the library)    *)
(* makes of a valid one, and what must be true of whatever it returns.     *)
(*                                                                         *)
(* A call is a record                                                      *)
(*   [now, at, expires, method, bucket, object, region, headers, query,    *)
(*    blob, key, res, requests]                                            *)
(* now, expires: instants; at: [some, t]; region: [some, v]; headers and   *)
(* query: sequences of <<name, value>>; key: [t, account, pub, can] with t *)
(* in {"sa", "hmac", "bound"}, pub the name of the account's public key    *)
(* and can whether the key material is usable; res: [kind, url]; requests: *)
(* the requests made for it, each [scheme, host, ep].                      *)
(***************************************************************************)
EXTENDS V4

Methods == {B("DELETE"), B("GET"), B("HEAD"), B("POST"), B("PUT")}
MaxExpires == 604800

(* RFC 9110, section 5.6.2 *)
TokenChar == Upper \cup Lower \cup Digit
             \cup {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}

HeaderNameOK(n) == n # <<>> /\ \A i \in 1..Len(n) : n[i] \in TokenChar
HeaderValueOK(v) == \A i \in 1..Len(v) : v[i] \in 32..126 \/ v[i] = 9

DotSegment(s) == s = <<46>> \/ s = <<46, 46>>
Carried(bucket, object) ==
  /\ ~DotSegment(bucket)
  /\ LET seg == Split(object, 47) IN \A i \in 1..Len(seg) : ~DotSegment(seg[i])

Start(c) == IF c.at.some THEN c.at.t ELSE c.now

(* WholeSeconds is only evaluated for instants that are near each other. *)
TimesOK(c) == /\ InRange(Start(c))
              /\ NotAfter(Start(c), c.expires)
              /\ c.expires.d - Start(c).d <= 8
              /\ WholeSeconds(Start(c), c.expires) <= MaxExpires

KeyCanSign(c) == /\ c.key.can
                 /\ \/ c.key.t = "sa" /\ ~c.blob
                    \/ c.key.t = "bound" /\ c.blob

Valid(c) == /\ c.method \in Methods
            /\ \A i \in 1..Len(c.headers) :
                 HeaderNameOK(c.headers[i][1]) /\ HeaderValueOK(c.headers[i][2])
            /\ Carried(c.bucket, c.object)
            /\ TimesOK(c)
            /\ KeyCanSign(c)

-----------------------------------------------------------------------------
Region(reg) == IF reg.some THEN reg.v ELSE B("auto")

Scope(t, reg) == Join(<<DayText(t), Region(reg), StorageService, Goog4Request>>, Slash)

Credential(account, t, reg) == account \o Slash \o Scope(t, reg)

SortedNames(S) == StableSort(SetToSeq(S), LexLess)

SignedNames(headers) ==
  Join(SortedNames({HostHeader} \cup {LowerCase(headers[i][1]) : i \in 1..Len(headers)}), <<59>>)

(* The client.  SignText(key, m) is the hexadecimal signature it obtains.  *)
ClientUrl(c, SignText(_, _)) ==
  LET t == Start(c)
      path == Slash \o Enc(c.bucket) \o Slash \o EncPath(c.object)
      ps == c.query \o
            << <<QAlgorithm, Algorithm>>,
               <<QCredential, Credential(c.key.account, t, c.region)>>,
               <<QDate, BasicText(t)>>,
               <<QExpires, Decimal(WholeSeconds(t, c.expires))>>,
               <<QSignedHeaders, SignedNames(c.headers)>> >>
      query == CanonicalQuery(ps)
      req == [method |-> c.method, path |-> path, query |-> query,
              headers |-> << <<B("Host"), HostName>> >> \o c.headers]
      msg == StringToSign(Algorithm, BasicText(t), Scope(t, c.region),
                          CanonicalRequest(req, SignedNames(c.headers)))
  IN  SubSeq(UrlPrefix, 1, Len(UrlPrefix) - 1) \o path \o <<63>> \o query \o <<38>>
      \o QSignature \o <<61>> \o SignText(c.key.pub, msg)

Client(c, SignText(_, _)) ==
  IF Valid(c) THEN [kind |-> "ok", url |-> ClientUrl(c, SignText)]
  ELSE [kind |-> "err", url |-> <<>>]

-----------------------------------------------------------------------------
(* What must be true of a finished call. *)

Ok(c) == c.res.kind = "ok"
Parsed(c) == /\ UrlFormed(c.res.url)
             /\ WellEscaped(UrlPath(c.res.url))
             /\ WellEscaped(UrlQuery(c.res.url))
Pairs(c) == QueryPairs(UrlQuery(c.res.url))
Wire(c) == RequestFor(c.res.url, c.method, c.headers)
Accepted(c, req) == c.key.pub # "" /\ SignatureAccepted(req, c.key.account, c.key.pub)

(* C01 *)
Verifies(c) == Ok(c) => /\ Parsed(c)
                        /\ Accepted(c, Wire(c))

(* C02 *)
PathChar == Unreserved \cup {33, 36, 37, 38, 39, 40, 41, 42, 43, 44, 47, 58, 59, 61, 64}
Addresses(c) ==
  Ok(c) =>
    /\ Carried(c.bucket, c.object)
    /\ UrlFormed(c.res.url)
    /\ LET p == Drop(UrlPath(c.res.url), 1)
           k == FirstPos(p, 47)
       IN  /\ k > 0
           /\ WellEscaped(p)
           /\ \A i \in 1..Len(p) : p[i] \in PathChar
           /\ Dec(SubSeq(p, 1, k - 1)) = c.bucket
           /\ Dec(Drop(p, k)) = c.object

(* C03 *)
Times(ps, p) == Cardinality({i \in 1..Len(ps) : ps[i] = p})
QueryChar == Unreserved \cup {37, 38, 61}
CarriesQuery(c) ==
  Ok(c) =>
    /\ UrlFormed(c.res.url)
    /\ LET q == UrlQuery(c.res.url)
           ps == QueryPairs(q)
       IN  /\ WellEscaped(q)
           /\ \A i \in 1..Len(q) : q[i] \in QueryChar
           /\ \A i \in 1..Len(QRequired) : Has1(ps, QRequired[i])
           /\ Has1(ps, QSignature)
           /\ Len(ps) = Len(c.query) + Len(QRequired) + 1
           /\ \A i \in 1..Len(c.query) : Times(ps, c.query[i]) = Times(c.query, c.query[i])

(* C04 *)
HeaderList(c) == Ok(c) =>
  /\ Parsed(c)
  /\ Has1(Pairs(c), QSignedHeaders)
  /\ Value1(Pairs(c), QSignedHeaders) = SignedNames(c.headers)
  /\ Accepted(c, Wire(c))

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
SetAt(s, i, x) == [s EXCEPT ![i] = x]

(* Every request that differs from w in one place that the signature binds.*)
Tampered(w) ==
  LET n == Len(w.headers)
      h(i) == w.headers[i]
      Same(i, j) == LowerCase(h(i)[1]) = LowerCase(h(j)[1])
  IN  {[w EXCEPT !.method = m] : m \in Methods \ {w.method}}
      \cup {[w EXCEPT !.headers = DropAt(w.headers, i)] : i \in 1..n}
      \cup {[w EXCEPT !.headers = SetAt(w.headers, i, <<h(i)[1], h(i)[2] \o <<120>>>>)] : i \in 1..n}
      \cup {[w EXCEPT !.headers = SetAt(w.headers, i, <<h(i)[1], LowerCase(h(i)[2])>>)] :
              i \in {j \in 1..n : LowerCase(h(j)[2]) # h(j)[2]}}
      \cup {[w EXCEPT !.headers = SetAt(w.headers, i, <<h(i)[1], <<>>>>)] :
              i \in {j \in 1..n : Trim(h(j)[2]) # <<>>}}
      \cup {[w EXCEPT !.headers = Append(w.headers, h(i))] : i \in 1..n}
      \cup {[w EXCEPT !.headers = SetAt(SetAt(w.headers, i, <<h(i)[1], h(j)[2]>>),
                                        j, <<h(j)[1], h(i)[2]>>)] :
              <<i, j>> \in {p \in (1..n) \X (1..n) :
                              p[1] < p[2] /\ Trim(h(p[1])[2]) # Trim(h(p[2])[2])}}
      \cup {[w EXCEPT !.path = @ \o <<120>>], [w EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)]}
      \cup LET parts == Split(w.query, 38)
               sig(i) == HasPrefix(parts[i], QSignature)
           IN  {[w EXCEPT !.query = Join(DropAt(parts, i), <<38>>)] :
                  i \in {j \in 1..Len(parts) : ~sig(j)}}
               \cup {[w EXCEPT !.query = Join(SetAt(parts, i, parts[i] \o <<48>>), <<38>>)] :
                  i \in {j \in 1..Len(parts) : ~sig(j)}}
               \cup {[w EXCEPT !.query = @ \o B("&x=1")]}

(* A change that leaves the meaning of the request alone is no tampering. *)
Meaning(w) == <<w.method, IF WellEscaped(w.path) THEN Dec(w.path) ELSE w.path,
                IF WellEscaped(w.query) THEN QueryPairs(w.query) ELSE <<<<w.query>>>>,
                [n \in {LowerCase(w.headers[i][1]) : i \in 1..Len(w.headers)} |->
                   HeaderValue(w.headers, n)]>>

HeadersBound(c) ==
  /\ HeaderList(c)
  /\ Ok(c) => LET w == Wire(c)
              IN  \A x \in Tampered(w) : Meaning(x) # Meaning(w) => ~Accepted(c, x)

(* C05 *)
Window(c) ==
  /\ Ok(c) =>
       /\ TimesOK(c)
       /\ Parsed(c)
       /\ Has1(Pairs(c), QDate)
       /\ Has1(Pairs(c), QExpires)
       /\ Value1(Pairs(c), QDate) = BasicText(Start(c))
       /\ Value1(Pairs(c), QExpires) = Decimal(WholeSeconds(Start(c), c.expires))
  /\ Valid(c) => Ok(c)

(* C06 *)
UrlScope(c) ==
  Ok(c) =>
    /\ Parsed(c)
    /\ Has1(Pairs(c), QAlgorithm)
    /\ Has1(Pairs(c), QCredential)
    /\ Has1(Pairs(c), QDate)
    /\ Value1(Pairs(c), QAlgorithm) = Algorithm
    /\ Value1(Pairs(c), QCredential) = Credential(c.key.account, Start(c), c.region)
    /\ Value1(Pairs(c), QDate) = BasicText(Start(c))

(* C20; nothing is asked of the signing service for an invalid request *)
SignedIffValid(c) ==
  /\ Ok(c) <=> Valid(c)
  /\ ~Valid(c) => \A i \in 1..Len(c.requests) : c.requests[i].ep # "sign"

(* C17 *)
Supported(c) == \/ c.key.t = "sa" /\ ~c.blob
                \/ c.key.t = "bound" /\ c.blob
(* A record without whole, or with whole = TRUE, has the result in full.   *)
Whole(c) == "whole" \in DOMAIN c => c.whole
UrlTotal(c) == /\ c.res.kind \in {"ok", "err", "keyerr"}
               /\ Ok(c) => Supported(c)
               /\ Ok(c) /\ Whole(c) => /\ Parsed(c)
                                     /\ Has1(Pairs(c), QSignature)
                                     /\ Value1(Pairs(c), QSignature) # <<>>
=============================================================================
