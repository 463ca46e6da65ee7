------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Text as sequences of octets (0..255), and the encodings which the       *)
(* protocol uses.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]

(* A sequence, unchanged; TLC evaluates its elements once. *)
T(s) == <<>> \o s

(* The octets of an ASCII literal. *)
B(s) == T([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

Upper == 65..90
Lower == 97..122
Digit == 48..57
(* RFC 3986, section 2.3. *)
Unreserved == Upper \cup Lower \cup Digit \cup {45, 46, 95, 126}

HexUpper == B("0123456789ABCDEF")
HexLower == B("0123456789abcdef")
IsHexDigit(b) == b \in Digit \/ b \in 65..70 \/ b \in 97..102
HexVal(b) == CASE b \in Digit -> b - 48
               [] b \in 65..70 -> b - 55
               [] b \in 97..102 -> b - 87

LowerCase(s) == T([i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]])

(* Concatenation of a sequence of texts; by halves, so that it stays cheap. *)
RECURSIVE Cat(_)
Cat(ss) == CASE Len(ss) = 0 -> <<>>
             [] Len(ss) = 1 -> ss[1]
             [] OTHER -> LET m == Len(ss) \div 2
                         IN  Cat(SubSeq(ss, 1, m)) \o Cat(SubSeq(ss, m + 1, Len(ss)))

Join(ss, sep) ==
  Cat(T([i \in 1..Len(ss) |-> IF i = 1 THEN ss[1] ELSE sep \o ss[i]]))

(* The positions of octet b in s, ascending. *)
Positions(s, b) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = b)

(* Split at every occurrence of octet b; always at least one piece. *)
Split(s, b) ==
  LET p == Positions(s, b)
      n == Len(p)
  IN  T([k \in 1..(n + 1) |->
           SubSeq(s, (IF k = 1 THEN 0 ELSE p[k-1]) + 1,
                     (IF k = n + 1 THEN Len(s) + 1 ELSE p[k]) - 1)])

(* Position of the first b in s, 0 if there is none. *)
FirstPos(s, b) == IF \E i \in 1..Len(s) : s[i] = b
                  THEN CHOOSE i \in 1..Len(s) : s[i] = b /\ \A j \in 1..(i-1) : s[j] # b
                  ELSE 0

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Trim(s) ==
  LET ws(b) == b \in {32, 9}
      keep == {i \in 1..Len(s) : ~ws(s[i])}
  IN  IF keep = {} THEN <<>>
      ELSE IF ~ws(s[1]) /\ ~ws(s[Len(s)]) THEN s
      ELSE LET lo == CHOOSE i \in keep : \A j \in keep : i <= j
               hi == CHOOSE i \in keep : \A j \in keep : j <= i
           IN  SubSeq(s, lo, hi)

(* Lexicographic order of octets. *)
LexLess(a, b) ==
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
  IN  IF \A i \in 1..m : a[i] = b[i] THEN Len(a) < Len(b)
      ELSE LET i == CHOOSE i \in 1..m : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
           IN  a[i] < b[i]

-----------------------------------------------------------------------------
(* Percent-encoding (RFC 3986, section 2.1), upper-case hexadecimal. *)
EncTable == [b \in 0..255 |->
               IF b \in Unreserved THEN <<b>>
               ELSE <<37, HexUpper[(b \div 16) + 1], HexUpper[(b % 16) + 1]>>]

Enc(s) == IF \A i \in 1..Len(s) : s[i] \in Unreserved THEN s
          ELSE Cat(T([i \in 1..Len(s) |-> EncTable[s[i]]]))

(* The same for a path, whose slashes are delimiters. *)
EncPath(s) == IF \A i \in 1..Len(s) : s[i] \in Unreserved \cup {47} THEN s
              ELSE Cat(T([i \in 1..Len(s) |-> IF s[i] = 47 THEN <<47>> ELSE EncTable[s[i]]]))

WellEscaped(s) ==
  \A i \in 1..Len(s) : s[i] = 37 =>
     i + 2 <= Len(s) /\ IsHexDigit(s[i+1]) /\ IsHexDigit(s[i+2])

(* Only for WellEscaped texts. *)
Dec(s) ==
  IF \A i \in 1..Len(s) : s[i] # 37 THEN s
  ELSE LET idx == SelectSeq([i \in 1..Len(s) |-> i],
                            LAMBDA i : /\ ~(i > 1 /\ s[i-1] = 37)
                                       /\ ~(i > 2 /\ s[i-2] = 37))
       IN  T([j \in 1..Len(idx) |->
                IF s[idx[j]] = 37
                THEN 16 * HexVal(s[idx[j]+1]) + HexVal(s[idx[j]+2])
                ELSE s[idx[j]]])

-----------------------------------------------------------------------------
Hex(s) == T([i \in 1..(2 * Len(s)) |->
               LET b == s[(i + 1) \div 2]
               IN  HexLower[(IF i % 2 = 1 THEN b \div 16 ELSE b % 16) + 1]])

IsLowerHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : s[i] \in Digit \cup 97..102

UnHex(s) == T([i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2*i-1]) + HexVal(s[2*i])])

(* Decimal, at least w digits. *)
RECURSIVE DecimalW(_, _)
DecimalW(n, w) == IF n < 10 /\ w <= 1 THEN <<48 + n>>
                  ELSE DecimalW(n \div 10, w - 1) \o <<48 + (n % 10)>>
Decimal(n) == DecimalW(n, 1)

IsDecimal(s) == /\ Len(s) >= 1
                /\ \A i \in 1..Len(s) : s[i] \in Digit
                /\ (Len(s) > 1 => s[1] # 48)

(* Only for short decimal texts (below 2^31). *)
NumVal(s) == FoldLeft(LAMBDA a, b : 10 * a + (b - 48), 0, s)

-----------------------------------------------------------------------------
(* Base64 (RFC 4648, section 4, with padding). *)
B64Alphabet == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")

Base64(s) ==
  LET n == Len(s)
      groups == (n + 2) \div 3
      at(i) == IF i <= n THEN s[i] ELSE 0
      quad(g) == LET a == at(3*g-2)  b == at(3*g-1)  c == at(3*g)
                 IN  << B64Alphabet[(a \div 4) + 1],
                        B64Alphabet[((a % 4) * 16 + (b \div 16)) + 1],
                        IF 3*g-1 <= n THEN B64Alphabet[((b % 16) * 4 + (c \div 64)) + 1] ELSE 61,
                        IF 3*g <= n THEN B64Alphabet[(c % 64) + 1] ELSE 61 >>
  IN  Cat(T([g \in 1..groups |-> quad(g)]))

B64Val == [b \in Range(B64Alphabet) |-> (CHOOSE i \in 1..64 : B64Alphabet[i] = b) - 1]

IsBase64(s) ==
  /\ Len(s) % 4 = 0
  /\ LET n == Len(s)
         pad == IF n = 0 THEN 0 ELSE IF s[n] # 61 THEN 0 ELSE IF s[n-1] # 61 THEN 1 ELSE 2
     IN  /\ \A i \in 1..(n - pad) : s[i] \in DOMAIN B64Val
         \* canonical: the bits that the padding cuts off are zero
         /\ pad = 1 => B64Val[s[n-1]] % 4 = 0
         /\ pad = 2 => B64Val[s[n-2]] % 16 = 0

UnBase64(s) ==
  LET n == Len(s)
      pad == IF n = 0 THEN 0 ELSE IF s[n] # 61 THEN 0 ELSE IF s[n-1] # 61 THEN 1 ELSE 2
      v(i) == IF s[i] = 61 THEN 0 ELSE B64Val[s[i]]
      len == (n \div 4) * 3 - pad
  IN  T([i \in 1..len |->
         LET g == (i - 1) \div 3
             r == (i - 1) % 3
             a == v(4*g+1)  b == v(4*g+2)  c == v(4*g+3)  d == v(4*g+4)
         IN  CASE r = 0 -> a * 4 + (b \div 16)
               [] r = 1 -> (b % 16) * 16 + (c \div 4)
               [] r = 2 -> (c % 4) * 64 + d])
=============================================================================
