--------------------------------- MODULE V4 ---------------------------------
(***************************************************************************)
(* The GOOG4-RSA-SHA256 signing process as a server carries it out on a    *)
(* request it receives, from the published description (Cloud Storage      *)
(* documentation: signed URLs, canonical requests, string to sign).  It is *)
(* written from that description, not from the library.                    *)
(*                                                                         *)
(* A request is [method, path, query, headers]: method, path and query as  *)
(* octets of the request line, headers a sequence of <<name, value>> in    *)
(* the order of the message, Host included.                                *)
(***************************************************************************)
EXTENDS Calendar, Crypto

LF == <<10>>
Slash == <<47>>

Algorithm == B("GOOG4-RSA-SHA256")
Goog4Request == B("goog4_request")
StorageService == B("storage")
UnsignedPayload == B("UNSIGNED-PAYLOAD")
HostName == B("storage.googleapis.com")
HostHeader == B("host")

QAlgorithm == B("X-Goog-Algorithm")
QCredential == B("X-Goog-Credential")
QDate == B("X-Goog-Date")
QExpires == B("X-Goog-Expires")
QSignedHeaders == B("X-Goog-SignedHeaders")
QSignature == B("X-Goog-Signature")
QRequired == <<QAlgorithm, QCredential, QDate, QExpires, QSignedHeaders>>

-----------------------------------------------------------------------------
(* The query as a sequence of <<name, value>>, decoded.  In a signed URL a  *)
(* plus sign is a plus sign.                                               *)
QueryPairs(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET parts == Split(q, 38)
       IN  T([i \in 1..Len(parts) |->
                LET p == FirstPos(parts[i], 61)
                IN  IF p = 0 THEN <<Dec(parts[i]), <<>>>>
                    ELSE <<Dec(SubSeq(parts[i], 1, p - 1)), Dec(Drop(parts[i], p))>>])

PairsNamed(ps, n) == SelectSeq(ps, LAMBDA p : p[1] = n)
Has1(ps, n) == Len(PairsNamed(ps, n)) = 1
Value1(ps, n) == PairsNamed(ps, n)[1][2]

(* Insertion sort: stable, so equal names keep the order of the request.   *)
StableSort(s, Less(_, _)) ==
  FoldLeft(LAMBDA acc, x :
             LET pos == Cardinality({i \in 1..Len(acc) : ~Less(x, acc[i])})
             IN  SubSeq(acc, 1, pos) \o <<x>> \o SubSeq(acc, pos + 1, Len(acc)),
           <<>>, s)

CanonicalQuery(ps) ==
  LET enc == T([i \in 1..Len(ps) |-> <<Enc(ps[i][1]), Enc(ps[i][2])>>])
      sorted == StableSort(enc, LAMBDA x, y : LexLess(x[1], y[1]))
  IN  Join(T([i \in 1..Len(sorted) |-> sorted[i][1] \o <<61>> \o sorted[i][2]]), <<38>>)

(* The values of one header, as HTTP carries them, joined with commas.     *)
HeaderNamed(hs, n) == SelectSeq(hs, LAMBDA h : LowerCase(h[1]) = n)
HeaderValue(hs, n) ==
  LET v == HeaderNamed(hs, n) IN Join(T([i \in 1..Len(v) |-> Trim(v[i][2])]), <<44>>)

CanonicalHeaders(hs, names) ==
  Cat(T([i \in 1..Len(names) |-> names[i] \o <<58>> \o HeaderValue(hs, names[i]) \o LF]))

(* Segment by segment: a slash that is part of a segment stays escaped. *)
CanonicalPath(path) ==
  LET seg == Split(path, 47) IN Join(T([i \in 1..Len(seg) |-> Enc(Dec(seg[i]))]), Slash)

(* names: the content of X-Goog-SignedHeaders *)
CanonicalRequest(req, names) ==
  Join(<< req.method,
          CanonicalPath(req.path),
          CanonicalQuery(SelectSeq(QueryPairs(req.query), LAMBDA p : p[1] # QSignature)),
          CanonicalHeaders(req.headers, Split(names, 59)),
          names,
          UnsignedPayload >>, LF)

StringToSign(algorithm, date, scope, canonical) ==
  Join(<<algorithm, date, scope, HexDigest(canonical)>>, LF)

-----------------------------------------------------------------------------
(* What the server computes for a request that carries all parameters. *)
Complete(req) ==
  /\ WellEscaped(req.path)
  /\ WellEscaped(req.query)
  /\ LET ps == QueryPairs(req.query)
     IN  /\ \A i \in 1..Len(QRequired) : Has1(ps, QRequired[i])
         /\ Has1(ps, QSignature)
         /\ FirstPos(Value1(ps, QCredential), 47) > 0

MessageOf(req, account) ==
  LET ps == QueryPairs(req.query)
      cred == Value1(ps, QCredential)
  IN  StringToSign(Value1(ps, QAlgorithm), Value1(ps, QDate),
                   Drop(cred, Len(account) + 1),
                   CanonicalRequest(req, Value1(ps, QSignedHeaders)))

(* All headers named in X-Goog-SignedHeaders are there, Host among them,   *)
(* and every x-goog- header of the request is named.                       *)
HeadersSigned(req, names) ==
  LET listed == Range(Split(names, 59))
      present == {LowerCase(req.headers[i][1]) : i \in 1..Len(req.headers)}
  IN  /\ HostHeader \in listed
      /\ listed \subseteq present
      /\ \A n \in present : HasPrefix(n, B("x-goog-")) => n \in listed

(* account: its e-mail; key: the name of its public key *)
SignatureAccepted(req, account, key) ==
  /\ Complete(req)
  /\ LET ps == QueryPairs(req.query)
         sig == Value1(ps, QSignature)
     IN  /\ Value1(ps, QAlgorithm) = Algorithm
         /\ HasPrefix(Value1(ps, QCredential), account \o Slash)
         /\ HeadersSigned(req, Value1(ps, QSignedHeaders))
         /\ IsLowerHex(sig)
         /\ SigValid(key, MessageOf(req, account), UnHex(sig))

(* The time window: from X-Goog-Date for X-Goog-Expires seconds. *)
InWindow(req, t) ==
  LET ps == QueryPairs(req.query)
      from == Value1(ps, QDate)
      for == Value1(ps, QExpires)
  IN  /\ IsBasicText(from)
      /\ IsDecimal(for) /\ Len(for) <= 6 /\ NumVal(for) <= 604800
      /\ NotAfter(BasicInstant(from), t)
      /\ NotAfter(t, Plus(BasicInstant(from), NumVal(for)))

(* The server lets the request through at time t. *)
Accepts(req, account, key, t) == SignatureAccepted(req, account, key) /\ InWindow(req, t)

-----------------------------------------------------------------------------
(* URLs of the library's form. *)
UrlPrefix == B("https://storage.googleapis.com/")
UrlFormed(u) == /\ HasPrefix(u, UrlPrefix)
                /\ FirstPos(u, 63) > 0
                /\ FirstPos(u, 35) = 0
UrlPath(u) == SubSeq(u, Len(UrlPrefix), FirstPos(u, 63) - 1)
UrlQuery(u) == Drop(u, FirstPos(u, 63))

(* The request somebody makes with URL u: Host is added by every client.   *)
RequestFor(u, method, headers) ==
  [method |-> method, path |-> UrlPath(u), query |-> UrlQuery(u),
   headers |-> << <<B("Host"), HostName>> >> \o headers]
=============================================================================
