------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The two cryptographic primitives.  Whenever TLC evaluates them it uses  *)
(* real SHA-256 and real RSASSA-PKCS1-v1_5 verification                    *)
(* (spec/java/CryptoOverrides.java); the bodies below only say what is     *)
(* assumed of them.  Models that have no real keys substitute SigValid.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

(* Lower-case hexadecimal SHA-256 of a text: a function, assumed injective *)
(* on the texts that occur.                                                *)
HexDigest(m) == CHOOSE h \in Seq(0..255) : Len(h) = 64

(* sig is the RSASSA-PKCS1-v1_5 / SHA-256 signature of msg under the       *)
(* public key of that name: nobody makes one without the private key.      *)
SigValid(key, msg, sig) == CHOOSE b \in BOOLEAN : TRUE
=============================================================================
