-------------------------------- MODULE Bls12381 -------------------------------
(* BLS12-381: its parameters and the map of messages to G2 (RFC 9380,          *)
(* BLS12381G2_XMD:SHA-256_SSWU_RO_).                                           *)
EXTENDS Bls

BlsP == HexNat("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
BLS381 == [p |-> BlsP, r |-> HexNat("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
           w |-> 48, b |-> 4, b2 |-> <<4, 4>>,
           g |-> <<HexNat("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
                   HexNat("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")>>]

XorSeq(a, b) == Strict([i \in 1 .. Len(a) |-> WXor(a[i], b[i])])
ExpandXmd(msg, dst, len) ==
  LET dstp == dst \o <<Len(dst)>>
      b0 == Strict(SHA256(Zeros(64) \o msg \o BytesBE(len, 2) \o <<0>> \o dstp))
      b1 == Strict(SHA256(b0 \o <<1>> \o dstp))
      bs == Fold(LAMBDA acc, i : Append(acc, Strict(SHA256(XorSeq(b0, acc[i - 1]) \o <<i>> \o dstp))), <<b1>>,
                 [i \in 1 .. (len \div 32) - 1 |-> i + 1])
  IN Fold(LAMBDA acc, b : acc \o b, <<>>, bs)
\* Two elements of GF(p^2).
HashToField(msg, dst) ==
  LET s == Strict(ExpandXmd(msg, dst, 256))
      e(i) == NatBE(SubSeq(s, 64 * i + 1, 64 * i + 64)) %% BlsP
  IN << Strict(<<e(0), e(1)>>), Strict(<<e(2), e(3)>>) >>

SswuA == <<0, 240>>
SswuB == <<1012, 1012>>
SswuZ == <<BlsP -- 2, BlsP -- 1>>
\* The simplified SWU map to y^2 = x^3 + SswuA x + SswuB.
Sswu(u) ==
  LET p == BlsP
      zu == FMul(p, SswuZ, FSqr(p, u))
      t == FAdd(p, FSqr(p, zu), zu)
      ba == FMul(p, FNeg(p, SswuB), FInv(p, SswuA))
      x1 == IF FIsZero(t) THEN FMul(p, SswuB, FInv(p, FMul(p, SswuZ, SswuA))) ELSE FMul(p, ba, FAdd(p, FOne, FInv(p, t)))
      g1 == G2Rhs(p, SswuA, SswuB, x1)
      sq == FIsSquare(p, g1)
      x == IF sq THEN x1 ELSE FMul(p, zu, x1)
      y == FSqrt(p, IF sq THEN g1 ELSE G2Rhs(p, SswuA, SswuB, x))[1]
  IN Strict(<<x, IF FSgn0(u) = FSgn0(y) THEN y ELSE FNeg(p, y)>>)

\* The 3-isogeny to G2's curve.
IsoXNum == LET c == HexNat("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6") IN
  << <<c, c>>,
     <<0, HexNat("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a")>>,
     <<HexNat("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e"),
       HexNat("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d")>>,
     <<HexNat("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1"), 0>> >>
IsoXDen == << <<0, BlsP -- 72>>, <<12, BlsP -- 12>>, <<1, 0>> >>
IsoYNum == LET c == HexNat("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706") IN
  << <<c, c>>,
     <<0, HexNat("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be")>>,
     <<HexNat("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c"),
       HexNat("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f")>>,
     <<HexNat("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10"), 0>> >>
IsoYDen == << <<BlsP -- 432, BlsP -- 432>>, <<0, BlsP -- 216>>, <<18, BlsP -- 18>>, <<1, 0>> >>
Poly(cs, x) == Fold(LAMBDA acc, c : FAdd(BlsP, FMul(BlsP, acc, x), c), FZero, [i \in 1 .. Len(cs) |-> cs[Len(cs) + 1 - i]])
Iso(P) ==
  IF P = Inf THEN Inf
  ELSE LET p == BlsP xd == Poly(IsoXDen, P[1]) yd == Poly(IsoYDen, P[1])
       IN IF FIsZero(xd) \/ FIsZero(yd) THEN Inf
          ELSE Strict(<<FMul(p, Poly(IsoXNum, P[1]), FInv(p, xd)), FMul(p, P[2], FMul(p, Poly(IsoYNum, P[1]), FInv(p, yd)))>>)

HEff == HexNat("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
HashToG2(msg, dst) ==
  LET us == HashToField(msg, dst)
      Q == G2AddA(BlsP, SswuA, Sswu(us[1]), Sswu(us[2]))
  IN G2Mul(BlsP, HEff, Iso(Q))

\* BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_ and ..._AUG_
NulDst == HexBytes("424c535f5349475f424c53313233383147325f584d443a5348412d3235365f535357555f524f5f4e554c5f")
AugDst == HexBytes("424c535f5349475f424c53313233383147325f584d443a5348412d3235365f535357555f524f5f4155475f")
\* The point that is signed; pub is the signer's public key.
BlsHash(alg, pub, msg) == IF alg = "BLSA" THEN HashToG2(pub \o msg, AugDst) ELSE HashToG2(msg, NulDst)

ASSUME /\ OnCurve(G1Curve(BLS381), BLS381.g) /\ MulG(G1Curve(BLS381), BLS381.r) = Inf
\* RFC 9380, J.10.1: the hash of the empty message.
ASSUME LET dst == HexBytes("515555582d5630312d435330322d776974682d424c53313233383147325f584d443a5348412d3235365f535357555f524f5f")
           H0 == HashToG2(<<>>, dst) Q == Sswu(<<5, 7>>) I == Iso(Q)
       IN /\ H0[1][1] \doteq HexNat("0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a")
          /\ H0[1][2] \doteq HexNat("05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d")
          /\ G2Mul(BlsP, BLS381.r, H0) = Inf
          /\ G2On(BlsP, SswuA, SswuB, Q) /\ G2On(BlsP, FZero, <<4, 4>>, I)
===============================================================================
