------------------------------- MODULE SshNames -------------------------------
(* The names of the OpenSSH key format as byte sequences. *)
EXTENDS Sequences
NMagic == <<111, 112, 101, 110, 115, 115, 104, 45, 107, 101, 121, 45, 118, 49, 0>>
NRsa == <<115, 115, 104, 45, 114, 115, 97>>
NEd == <<115, 115, 104, 45, 101, 100, 50, 53, 53, 49, 57>>
NDsa == <<115, 115, 104, 45, 100, 115, 115>>
NEcPrefix == <<101, 99, 100, 115, 97, 45>>
NEcMiddle == <<115, 104, 97, 50, 45>>
NNone == <<110, 111, 110, 101>>
NBcrypt == <<98, 99, 114, 121, 112, 116>>
P256 == <<110, 105, 115, 116, 112, 50, 53, 54>>
P384 == <<110, 105, 115, 116, 112, 51, 56, 52>>
P521 == <<110, 105, 115, 116, 112, 53, 50, 49>>
P224 == <<110, 105, 115, 116, 112, 50, 50, 52>>
Aes128 == <<97, 101, 115, 49, 50, 56, 45, 99, 116, 114>>
Aes192 == <<97, 101, 115, 49, 57, 50, 45, 99, 116, 114>>
Aes256 == <<97, 101, 115, 50, 53, 54, 45, 99, 116, 114>>
NCurves == {P256, P521, P224}
NKnown == NCurves \cup {P384}
NCiphers == {Aes128, Aes192, Aes256}
=============================================================================
