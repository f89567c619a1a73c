-------------------------------- MODULE NumCheck --------------------------------
(* Agreement of the Java evaluation of Num with its TLA+ definitions.          *)
(* NumPure is Num under a name that the overrides do not apply to.             *)
EXTENDS Num
P == INSTANCE NumPure

VARIABLES a, b
Init == a \in 0 .. 40 /\ b \in 0 .. 40
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Primes == {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41}
M == b + 1
S == <<a, b, (a * 7) % 256, (b * 13 + a) % 256>>
W == 16
X == (a * 1597 + b) % 65536
Y == (b * 2741 + 5 * a) % 65536

Same ==
  /\ (a \doteq b) = P!\doteq(a, b) /\ (a \prec b) = P!\prec(a, b) /\ (a \preceq b) = P!\preceq(a, b)
  /\ a ++ b = P!++(a, b) /\ a -- b = P!--(a, b) /\ a ** b = P!**(a, b)
  /\ (a - b) // M = P!//(a - b, M) /\ (a - b) %% M = P!%%(a - b, M)
  /\ AddM(a, b, 7) = P!AddM(a, b, 7) /\ SubM(a, b, 7) = P!SubM(a, b, 7) /\ MulM(a, b, 31) = P!MulM(a, b, 31)
  /\ NegM(a, M) = P!NegM(a, M)
  /\ Pow(b % 4, a % 12) = P!Pow(b % 4, a % 12)
  /\ PowM(a, b, 37) = P!PowM(a, b, 37)
  /\ InvM(a, M) = P!InvM(a, M)
  /\ M \in Primes => LET r == SqrtM(a, M) q == P!SqrtM(a, M)
                     IN IF q = -1 THEN r = -1 ELSE r \in 0 .. M - 1 /\ (r * r) % M = a % M
  /\ Bit(X, b % 16) = P!Bit(X, b % 16) /\ BitLen(X) = P!BitLen(X) /\ BitsBE(X) = P!BitsBE(X)
  /\ NatBE(<<a, b, 200>>) = P!NatBE(<<a, b, 200>>) /\ NatLE(<<a, b, 100>>) = P!NatLE(<<a, b, 100>>)
  /\ BytesBE(X, 3) = P!BytesBE(X, 3) /\ BytesLE(Y, 3) = P!BytesLE(Y, 3)
  /\ WXor(X, Y) = P!WXor(X, Y) /\ WAnd(X, Y) = P!WAnd(X, Y) /\ WOr(X, Y) = P!WOr(X, Y)
  /\ WNot(W, X) = P!WNot(W, X) /\ WAdd(W, X, Y) = P!WAdd(W, X, Y) /\ WXor3(X, Y, a) = P!WXor3(X, Y, a)
  /\ WShr(X, b % 17) = P!WShr(X, b % 17) /\ WShl(W, X % 256, b % 9) = P!WShl(W, X % 256, b % 9)
  /\ WRotl(12, X % 4096, b) = P!WRotl(12, X % 4096, b) /\ WRotr(12, Y % 4096, a) = P!WRotr(12, Y % 4096, a)
  /\ WAdd5(W, X, Y, a, b, 65535) = P!WAdd5(W, X, Y, a, b, 65535)
  /\ WAdd4(W, X, Y, a, b) = P!WAdd4(W, X, Y, a, b) /\ WAdd3(W, X, Y, a) = P!WAdd3(W, X, Y, a)
  /\ WordsBE(S, 2) = P!WordsBE(S, 2) /\ WordsLE(S, 2) = P!WordsLE(S, 2)
  /\ UnwordsBE(<<X, Y>>, 2) = P!UnwordsBE(<<X, Y>>, 2) /\ UnwordsLE(<<X, Y>>, 2) = P!UnwordsLE(<<X, Y>>, 2)
  /\ Fold(LAMBDA x, y : 2 * x + y, b, S) = P!Fold(LAMBDA x, y : 2 * x + y, b, S)
  /\ FoldN(LAMBDA x, y : 3 * x - y, b, a % 5, b % 7) = P!FoldN(LAMBDA x, y : 3 * x - y, b, a % 5, b % 7)
================================================================================
