--------------------------------- MODULE Curves ---------------------------------
(* The parameters of the library's prime-field curves (SEC 2, FIPS 186, GB/T   *)
(* 32918.5, Pallas).                                                           *)
EXTENDS Weier

K1 == [p |-> HexNat("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
       a |-> 0, b |-> 7,
       n |-> HexNat("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
       g |-> <<HexNat("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
               HexNat("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")>>]
R1 == [p |-> HexNat("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
       a |-> HexNat("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
       b |-> HexNat("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
       n |-> HexNat("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
       g |-> <<HexNat("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
               HexNat("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")>>]
SM2C == [p |-> HexNat("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff"),
       a |-> HexNat("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc"),
       b |-> HexNat("28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93"),
       n |-> HexNat("fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"),
       g |-> <<HexNat("32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7"),
               HexNat("bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")>>]

PALLAS == [p |-> HexNat("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"),
           a |-> 0, b |-> 5,
           n |-> HexNat("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
           g |-> <<1, HexNat("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")>>]

Params(alg) == CASE alg = "K1" -> K1 [] alg = "R1" -> R1 [] alg = "SM2" -> SM2C [] alg = "PASTA" -> PALLAS
Weierstrass == {"K1", "R1", "SM2"}

ASSUME \A alg \in {"K1", "R1", "SM2", "PASTA"} : LET C == Params(alg) IN OnCurve(C, C.g) /\ Mul(C, C.n, C.g) = Inf
===============================================================================
