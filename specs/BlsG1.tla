--------------------------------- MODULE BlsG1 ---------------------------------
(* The maps of messages and field elements to G1 (RFC 9380,                    *)
(* BLS12381G1_XMD:SHA-256_SSWU_RO_ and ..._NU_) and to G2 by one element, and   *)
(* the uncompressed encodings of points.                                       *)
EXTENDS Bls12381

Sswu1A == HexNat("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
Sswu1B == HexNat("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
Sswu1Z == 11
E1 == [p |-> BlsP, a |-> Sswu1A, b |-> Sswu1B, n |-> BLS381.r, g |-> Inf]
\* The simplified SWU map to y^2 = x^3 + Sswu1A x + Sswu1B.
Sswu1(u) ==
  LET p == BlsP
      zu == MulM(Sswu1Z, MulM(u, u, p), p)
      t == AddM(MulM(zu, zu, p), zu, p)
      ba == MulM(NegM(Sswu1B, p), InvM(Sswu1A, p), p)
      x1 == IF t \doteq 0 THEN MulM(Sswu1B, InvM(MulM(Sswu1Z, Sswu1A, p), p), p) ELSE MulM(ba, AddM(1, InvM(t, p), p), p)
      y1 == SqrtM(Rhs(E1, x1), p)
      x2 == MulM(zu, x1, p)
      x == IF y1 \doteq -1 THEN x2 ELSE x1
      y == IF y1 \doteq -1 THEN SqrtM(Rhs(E1, x2), p) ELSE y1
  IN Strict(<<x, IF Bit(u, 0) = Bit(y, 0) THEN y ELSE NegM(y, p)>>)

\* The 11-isogeny to y^2 = x^3 + 4.
Iso1XNum ==
  <<HexNat("11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7"),
     HexNat("17294ed3e943ab2f0588bab22147a81c7c17e75b2f6a8417f565e33c70d1e86b4838f2a6f318c356e834eef1b3cb83bb"),
     HexNat("d54005db97678ec1d1048c5d10a9a1bce032473295983e56878e501ec68e25c958c3e3d2a09729fe0179f9dac9edcb0"),
     HexNat("1778e7166fcc6db74e0609d307e55412d7f5e4656a8dbf25f1b33289f1b330835336e25ce3107193c5b388641d9b6861"),
     HexNat("e99726a3199f4436642b4b3e4118e5499db995a1257fb3f086eeb65982fac18985a286f301e77c451154ce9ac8895d9"),
     HexNat("1630c3250d7313ff01d1201bf7a74ab5db3cb17dd952799b9ed3ab9097e68f90a0870d2dcae73d19cd13c1c66f652983"),
     HexNat("d6ed6553fe44d296a3726c38ae652bfb11586264f0f8ce19008e218f9c86b2a8da25128c1052ecaddd7f225a139ed84"),
     HexNat("17b81e7701abdbe2e8743884d1117e53356de5ab275b4db1a682c62ef0f2753339b7c8f8c8f475af9ccb5618e3f0c88e"),
     HexNat("80d3cf1f9a78fc47b90b33563be990dc43b756ce79f5574a2c596c928c5d1de4fa295f296b74e956d71986a8497e317"),
     HexNat("169b1f8e1bcfa7c42e0c37515d138f22dd2ecb803a0c5c99676314baf4bb1b7fa3190b2edc0327797f241067be390c9e"),
     HexNat("10321da079ce07e272d8ec09d2565b0dfa7dccdde6787f96d50af36003b14866f69b771f8c285decca67df3f1605fb7b"),
     HexNat("6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229")>>
Iso1XDen ==
  <<HexNat("8ca8d548cff19ae18b2e62f4bd3fa6f01d5ef4ba35b48ba9c9588617fc8ac62b558d681be343df8993cf9fa40d21b1c"),
     HexNat("12561a5deb559c4348b4711298e536367041e8ca0cf0800c0126c2588c48bf5713daa8846cb026e9e5c8276ec82b3bff"),
     HexNat("b2962fe57a3225e8137e629bff2991f6f89416f5a718cd1fca64e00b11aceacd6a3d0967c94fedcfcc239ba5cb83e19"),
     HexNat("3425581a58ae2fec83aafef7c40eb545b08243f16b1655154cca8abc28d6fd04976d5243eecf5c4130de8938dc62cd8"),
     HexNat("13a8e162022914a80a6f1d5f43e7a07dffdfc759a12062bb8d6b44e833b306da9bd29ba81f35781d539d395b3532a21e"),
     HexNat("e7355f8e4e667b955390f7f0506c6e9395735e9ce9cad4d0a43bcef24b8982f7400d24bc4228f11c02df9a29f6304a5"),
     HexNat("772caacf16936190f3e0c63e0596721570f5799af53a1894e2e073062aede9cea73b3538f0de06cec2574496ee84a3a"),
     HexNat("14a7ac2a9d64a8b230b3f5b074cf01996e7f63c21bca68a81996e1cdf9822c580fa5b9489d11e2d311f7d99bbdcc5a5e"),
     HexNat("a10ecf6ada54f825e920b3dafc7a3cce07f8d1d7161366b74100da67f39883503826692abba43704776ec3a79a1d641"),
     HexNat("95fc13ab9e92ad4476d6e3eb3a56680f682b4ee96f7d03776df533978f31c1593174e4b4b7865002d6384d168ecdd0a"),
     HexNat("1")>>
Iso1YNum ==
  <<HexNat("90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33"),
     HexNat("134996a104ee5811d51036d776fb46831223e96c254f383d0f906343eb67ad34d6c56711962fa8bfe097e75a2e41c696"),
     HexNat("cc786baa966e66f4a384c86a3b49942552e2d658a31ce2c344be4b91400da7d26d521628b00523b8dfe240c72de1f6"),
     HexNat("1f86376e8981c217898751ad8746757d42aa7b90eeb791c09e4a3ec03251cf9de405aba9ec61deca6355c77b0e5f4cb"),
     HexNat("8cc03fdefe0ff135caf4fe2a21529c4195536fbe3ce50b879833fd221351adc2ee7f8dc099040a841b6daecf2e8fedb"),
     HexNat("16603fca40634b6a2211e11db8f0a6a074a7d0d4afadb7bd76505c3d3ad5544e203f6326c95a807299b23ab13633a5f0"),
     HexNat("4ab0b9bcfac1bbcb2c977d027796b3ce75bb8ca2be184cb5231413c4d634f3747a87ac2460f415ec961f8855fe9d6f2"),
     HexNat("987c8d5333ab86fde9926bd2ca6c674170a05bfe3bdd81ffd038da6c26c842642f64550fedfe935a15e4ca31870fb29"),
     HexNat("9fc4018bd96684be88c9e221e4da1bb8f3abd16679dc26c1e8b6e6a1f20cabe69d65201c78607a360370e577bdba587"),
     HexNat("e1bba7a1186bdb5223abde7ada14a23c42a0ca7915af6fe06985e7ed1e4d43b9b3f7055dd4eba6f2bafaaebca731c30"),
     HexNat("19713e47937cd1be0dfd0b8f1d43fb93cd2fcbcb6caf493fd1183e416389e61031bf3a5cce3fbafce813711ad011c132"),
     HexNat("18b46a908f36f6deb918c143fed2edcc523559b8aaf0c2462e6bfe7f911f643249d9cdf41b44d606ce07c8a4d0074d8e"),
     HexNat("b182cac101b9399d155096004f53f447aa7b12a3426b08ec02710e807b4633f06c851c1919211f20d4c04f00b971ef8"),
     HexNat("245a394ad1eca9b72fc00ae7be315dc757b3b080d4c158013e6632d3c40659cc6cf90ad1c232a6442d9d3f5db980133"),
     HexNat("5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e715475224b"),
     HexNat("15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604")>>
Iso1YDen ==
  <<HexNat("16112c4c3a9c98b252181140fad0eae9601a6de578980be6eec3232b5be72e7a07f3688ef60c206d01479253b03663c1"),
     HexNat("1962d75c2381201e1a0cbd6c43c348b885c84ff731c4d59ca4a10356f453e01f78a4260763529e3532f6102c2e49a03d"),
     HexNat("58df3306640da276faaae7d6e8eb15778c4855551ae7f310c35a5dd279cd2eca6757cd636f96f891e2538b53dbf67f2"),
     HexNat("16b7d288798e5395f20d23bf89edb4d1d115c5dbddbcd30e123da489e726af41727364f2c28297ada8d26d98445f5416"),
     HexNat("be0e079545f43e4b00cc912f8228ddcc6d19c9f0f69bbb0542eda0fc9dec916a20b15dc0fd2ededda39142311a5001d"),
     HexNat("8d9e5297186db2d9fb266eaac783182b70152c65550d881c5ecd87b6f0f5a6449f38db9dfa9cce202c6477faaf9b7ac"),
     HexNat("166007c08a99db2fc3ba8734ace9824b5eecfdfa8d0cf8ef5dd365bc400a0051d5fa9c01a58b1fb93d1a1399126a775c"),
     HexNat("16a3ef08be3ea7ea03bcddfabba6ff6ee5a4375efa1f4fd7feb34fd206357132b920f5b00801dee460ee415a15812ed9"),
     HexNat("1866c8ed336c61231a1be54fd1d74cc4f9fb0ce4c6af5920abc5750c4bf39b4852cfe2f7bb9248836b233d9d55535d4a"),
     HexNat("167a55cda70a6e1cea820597d94a84903216f763e13d87bb5308592e7ea7d4fbc7385ea3d529b35e346ef48bb8913f55"),
     HexNat("4d2f259eea405bd48f010a01ad2911d9c6dd039bb61a6290e591b36e636a5c871a5c29f4f83060400f8b49cba8f6aa8"),
     HexNat("accbb67481d033ff5852c1e48c50c477f94ff8aefce42d28c0f9a88cea7913516f968986f7ebbea9684b529e2561092"),
     HexNat("ad6b9514c767fe3c3613144b45f1496543346d98adf02267d5ceef9a00d9b8693000763e3b90ac11e99b138573345cc"),
     HexNat("2660400eb2e4f3b628bdd0d53cd76f2bf565b94e72927c1cb748df27942480e420517bd8714cc80d1fadc1326ed06f7"),
     HexNat("e0fa1d816ddc03e6b24255e0d7819c171c40f65e273b853324efcd6356caa205ca2f570f13497804415473a1d634b8f"),
     HexNat("1")>>
Poly1(cs, x) == Fold(LAMBDA acc, c : AddM(MulM(acc, x, BlsP), c, BlsP), 0, [i \in 1 .. Len(cs) |-> cs[Len(cs) + 1 - i]])
Iso1(P) ==
  IF P = Inf THEN Inf
  ELSE LET p == BlsP xd == Poly1(Iso1XDen, P[1]) yd == Poly1(Iso1YDen, P[1])
       IN IF xd \doteq 0 \/ yd \doteq 0 THEN Inf
          ELSE Strict(<<MulM(Poly1(Iso1XNum, P[1]), InvM(xd, p), p), MulM(P[2], MulM(Poly1(Iso1YNum, P[1]), InvM(yd, p), p), p)>>)

G1C == G1Curve(BLS381)
HEff1 == HexNat("d201000000010001")
ClearG1(P) == Mul(G1C, HEff1, P)
MapToG1(u) == ClearG1(Iso1(Sswu1(u)))
Field1(msg, dst, n) ==
  LET s == Strict(ExpandXmd(msg, dst, 64 * n)) IN Strict([i \in 1 .. n |-> NatBE(SubSeq(s, 64 * i - 63, 64 * i)) %% BlsP])
EncodeToG1(msg, dst) == MapToG1(Field1(msg, dst, 1)[1])
HashToG1(msg, dst) ==
  LET us == Field1(msg, dst, 2) IN ClearG1(Iso1(Add(E1, Sswu1(us[1]), Sswu1(us[2]))))
ClearG2(P) == G2Mul(BlsP, HEff, P)
EncodeToG2(msg, dst) == LET us == Field1(msg, dst, 2) IN ClearG2(Iso(Sswu(us)))
BLS381G2 == << <<HexNat("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
                 HexNat("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")>>,
               <<HexNat("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
                 HexNat("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")>> >>

---------------------------------------------------------------------------
(* 2 w or 4 w bytes: x and y, the greater coefficient first; infinity is     *)
(* zeros, and in the flagged form has its flag.                              *)

G1XY(P) == IF P = Inf THEN Zeros(96) ELSE BytesBE(P[1], 48) \o BytesBE(P[2], 48)
G2XY(P) ==
  IF P = Inf THEN Zeros(192)
  ELSE BytesBE(P[1][2], 48) \o BytesBE(P[1][1], 48) \o BytesBE(P[2][2], 48) \o BytesBE(P[2][1], 48)
Num48(s, i) == NatBE(SubSeq(s, 48 * i + 1, 48 * i + 48))
AllZero(s) == \A i \in 1 .. Len(s) : s[i] = 0
G1OfXY(s) ==
  IF Len(s) # 96 THEN <<>> ELSE IF AllZero(s) THEN <<Inf>>
  ELSE LET P == <<Num48(s, 0), Num48(s, 1)>> IN IF OnCurve(G1C, P) THEN <<P>> ELSE <<>>
G2OfXY(s) ==
  IF Len(s) # 192 THEN <<>> ELSE IF AllZero(s) THEN <<Inf>>
  ELSE LET c(i) == Num48(s, i)
           P == << <<c(1), c(0)>>, <<c(3), c(2)>> >>
       IN IF (\A i \in 0 .. 3 : c(i) \prec BlsP) /\ G2On(BlsP, FZero, BLS381.b2, P) THEN <<P>> ELSE <<>>
G1Cofactor == HexNat("396c8c005555e1568c00aaab0000aaab")
InG1(P) == Mul(G1C, BLS381.r, P) = Inf
InG2(P) == G2Mul(BlsP, BLS381.r, P) = Inf
\* The flagged forms; their flags are zero but for infinity.
G1Unc(P) == IF P = Inf THEN Flag(Zeros(96), 64) ELSE G1XY(P)
G2Unc(P) == IF P = Inf THEN Flag(Zeros(192), 64) ELSE G2XY(P)
G1OfUnc(s) ==
  IF Len(s) # 96 THEN <<>> ELSE IF s = Flag(Zeros(96), 64) THEN <<Inf>>
  ELSE IF s[1] >= 32 \/ AllZero(s) THEN <<>>
  ELSE LET P == G1OfXY(s) IN IF P # <<>> /\ InG1(P[1]) THEN P ELSE <<>>
G2OfUnc(s) ==
  IF Len(s) # 192 THEN <<>> ELSE IF s = Flag(Zeros(192), 64) THEN <<Inf>>
  ELSE IF s[1] >= 32 \/ AllZero(s) THEN <<>>
  ELSE LET P == G2OfXY(s) IN IF P # <<>> /\ InG2(P[1]) THEN P ELSE <<>>

\* RFC 9380, J.9.1: the hash of the empty message.
ASSUME LET dst == HexBytes("515555582d5630312d435330322d776974682d424c53313233383147315f584d443a5348412d3235365f535357555f524f5f")
           H0 == HashToG1(<<>>, dst) Q == Sswu1(5) O == Sswu1(0)
       IN /\ H0[1] \doteq HexNat("052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1")
          /\ H0[2] \doteq HexNat("08ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265")
          /\ InG1(H0) /\ OnCurve(E1, Q) /\ OnCurve(E1, O) /\ OnCurve(G1C, Iso1(Q)) /\ OnCurve(G1C, Iso1(O))
ASSUME G2On(BlsP, FZero, BLS381.b2, BLS381G2) /\ InG2(BLS381G2)
===============================================================================
