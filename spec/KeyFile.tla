------------------------------ MODULE KeyFile -------------------------------
(***************************************************************************)
(* Loading a service account key.  A document is                           *)
(*   [readable, utf8, json, root, members]                                 *)
(* readable: the file can be read (TRUE for a string); utf8, json: its     *)
(* content is UTF-8 text, and a JSON text; root: the type of the JSON      *)
(* value; members: of a root object, a sequence of [n, t, v], t the type   *)
(* of the member and v its octets when it is a string, else <<>>.          *)
(***************************************************************************)
EXTENDS SignedUrl

StringMember(doc, n) == \E i \in 1..Len(doc.members) : doc.members[i].n = n
                                                      /\ doc.members[i].t = "string"
MemberText(doc, n) ==
  doc.members[CHOOSE i \in 1..Len(doc.members) : doc.members[i].n = n].v

ClientEmail == B("client_email")
PrivateKey == B("private_key")

Loads(doc) == /\ doc.readable
              /\ doc.utf8
              /\ doc.json
              /\ doc.root = "object"
              /\ StringMember(doc, ClientEmail)
              /\ StringMember(doc, PrivateKey)

(* C16: c.doc is the document the key was loaded from, c.ref the result of *)
(* the same call with a key made directly from its two texts, c.pem the    *)
(* private key text among them; c.sure: it is beyond doubt whether that    *)
(* text is a PEM PKCS#8 RSA key (c.key.can).  When c.doubt, it is open     *)
(* what the text means as JSON (repeated members, a byte order mark, ...); *)
(* then c.ref is the result with the same text given the other way.        *)
SameEitherWay(c) == c.res.kind = c.ref.kind /\ c.res.url = c.ref.url

KeyFaithful(c) ==
  IF c.doubt THEN SameEitherWay(c)
  ELSE IF ~Loads(c.doc) THEN c.res.kind = "keyerr"
  ELSE /\ MemberText(c.doc, ClientEmail) = c.key.account
       /\ MemberText(c.doc, PrivateKey) = c.pem
       /\ c.res.kind = c.ref.kind
       /\ c.res.url = c.ref.url
       /\ c.sure => (Ok(c) <=> c.key.can)
       /\ Ok(c) => /\ Parsed(c)
                   /\ c.sure \/ c.key.pub # "" => Accepted(c, Wire(c))
                   /\ Has1(Pairs(c), QCredential)
                   /\ Value1(Pairs(c), QCredential)
                        = Credential(c.key.account, Start(c), c.region)
=============================================================================
