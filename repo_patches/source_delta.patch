From 271991486304f8dd786b053dea8464597d68b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 01/59] fix: Point_add reported sums with x = 0 as the point at
 infinity

---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..9380f7f 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -380,7 +380,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 71fcebcaee58930251922d0ffd018359cecbacc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 02/59] fix: PointDecompress returned a non-point when x has no
 point or is not reduced

---
 secp256k1.go | 4 +++-
 secp256r1.go | 4 +++-
 sm2_std.go   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..9b7c588 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -259,7 +259,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this x coordinate")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..cffaeb7 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -56,7 +56,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this x coordinate")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..ff3261c 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1627,7 +1627,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this x coordinate")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
-- 
2.43.0


From f1b758f3860f56cdf20d1f023f6d42d3e10e4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 03/59] fix: RecoverPubkey panicked or failed on out-of-range
 r, s, on r without a point and on a zero digest

---
 secp256k1.go | 11 +++++++++++
 secp256r1.go | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index 9b7c588..7ff374d 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -296,6 +296,12 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 
 	curve := secp256k1
 
+	for _, part := range [][]byte{sig[:32], sig[32:64]} {
+		if n := new(big.Int).SetBytes(part); n.Sign() == 0 || n.Cmp(curve.N) >= 0 {
+			return nil, errors.New("invalid signature")
+		}
+	}
+
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
 
 	G.Curve = curve
@@ -303,6 +309,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	G.Y = curve.Gy
 
 	for k := 0; k < 2; k ++ {
+		s = new(big.Int)
 		if k == 0 {
 			buf2[0] = 0x02
 		}
@@ -324,6 +331,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			return nil, errors.New("invalid signature")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -338,6 +348,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/secp256r1.go b/secp256r1.go
index cffaeb7..cc1ba97 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -93,12 +93,19 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 
 	curve := secp256r1
 
+	for _, part := range [][]byte{sig[:32], sig[32:64]} {
+		if n := new(big.Int).SetBytes(part); n.Sign() == 0 || n.Cmp(curve.N) >= 0 {
+			return nil, errors.New("invalid signature")
+		}
+	}
+
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
 
 	for k := 0; k < 2; k ++ {
+		s = new(big.Int)
 		if k == 0 {
 			buf2[0] = 0x02
 		}
@@ -120,6 +127,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			return nil, errors.New("invalid signature")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -132,6 +142,7 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-- 
2.43.0


From 9f4ec0cb5a7ce2c0778debc88573a787dab55fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 04/59] fix: RecoverPubkey of SM2 used the ECDSA equation and
 panicked or never recovered the signer's key

---
 sm2_std.go | 87 +++++++++++++++++++-----------------------------------
 1 file changed, 30 insertions(+), 57 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index ff3261c..11ca18e 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1655,71 +1655,44 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		return nil, errors.New("invalid data")
 	}
 
-	buf2 := make([]byte, 33)
-	hash := make([]byte, 32)
-	s := new(big.Int)
-	R := new(ecdsa.PublicKey)
-	G := new(ecdsa.PublicKey)
-
-	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
-
 	curve := sm2_std
+	r := new(big.Int).SetBytes(sig[:32])
+	s := new(big.Int).SetBytes(sig[32:64])
+	t := new(big.Int).Add(r, s)
+	t.Mod(t, curve.N)
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
-	G.Curve = curve
-	G.X = curve.Gx
-	G.Y = curve.Gy
-
-	for k := 0; k < 2; k ++ {
-		if k == 0 {
-			buf2[0] = 0x02
-		}
-
-		if k == 1 {
-			buf2[0] = 0x03
-		}
-
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
-
-		R.Curve = curve
-		R.X = new(big.Int).SetBytes(buf1[1:33])
-		R.Y = new(big.Int).SetBytes(buf1[33:])
+	if r.Sign() == 0 || s.Sign() == 0 || t.Sign() == 0 || r.Cmp(curve.N) >= 0 || s.Cmp(curve.N) >= 0 || sig[64] > 1 {
+		return nil, errors.New("invalid signature")
+	}
 
-		point1 := new(ecdsa.PublicKey)
-		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
+	// r = e + x(R) and R = s*G + (r+s)*P, so P = (r+s)^-1 * (R - s*G)
+	x := new(big.Int).Sub(r, new(big.Int).SetBytes(msg))
+	xBytes := x.Mod(x, curve.N).Bytes()
+	buf := make([]byte, 33)
+	buf[0] = 0x02 + sig[64]
+	copy(buf[33-len(xBytes):], xBytes)
 
-		point2 := new(ecdsa.PublicKey)
-		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
+	R := PointDecompress(buf, ECC_CURVE_SM2_STANDARD)
+	if R == nil {
+		return nil, errors.New("invalid signature")
+	}
 
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+	sGx, sGy := curve.ScalarBaseMult(s.Bytes())
+	sGy.Sub(curve.P, sGy)
 
-		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
-		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
+	pub := new(ecdsa.PublicKey)
+	pub.Curve = curve
+	pub.X, pub.Y = curve.Add(new(big.Int).SetBytes(R[1:33]), new(big.Int).SetBytes(R[33:]), sGx, sGy)
+	pub.X, pub.Y = curve.ScalarMult(pub.X, pub.Y, t.ModInverse(t, curve.N).Bytes())
 
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-			pubkey := make([]byte, 64)
-			x := point2.X.Bytes()
-			y := point2.Y.Bytes()
-			copy(pubkey[32-len(x):32], x)
-			copy(pubkey[64-len(y):], y)
+	if sm2_std_verify(pub, msg, nil, r, s) {
+		pubkey := make([]byte, 64)
+		x := pub.X.Bytes()
+		y := pub.Y.Bytes()
+		copy(pubkey[32-len(x):32], x)
+		copy(pubkey[64-len(y):], y)
 
-			return pubkey, nil
-		}
+		return pubkey, nil
 	}
 	return nil, errors.New("failed to decompress")
 }
\ No newline at end of file
-- 
2.43.0


From a9da5c48c0f647e748298b364836cbce2aa6ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 05/59] fix: Verify accepted public keys that are not points of
 the curve, or panicked on them

---
 sm2_std.go | 4 ++++
 utils.go   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 11ca18e..6cf526f 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1132,6 +1132,10 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
+	if !pointOnCurve(c, pub.X, pub.Y) {
+		return false
+	}
+
 	t := new(big.Int).Add(r, s)
 	t.Mod(t, N)
 	if t.Sign() == 0 {
diff --git a/utils.go b/utils.go
index a28b04e..0044347 100644
--- a/utils.go
+++ b/utils.go
@@ -182,6 +182,12 @@ const (
 	aesIV = "IV for ECDSA CTR"
 )
 
+// pointOnCurve reports whether x and y are the reduced coordinates of a point of c.
+func pointOnCurve(c elliptic.Curve, x, y *big.Int) bool {
+	p := c.Params().P
+	return x.Cmp(p) < 0 && y.Cmp(p) < 0 && c.IsOnCurve(x, y)
+}
+
 func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	// See [NSA] 3.4.2
 	c := pub.Curve
@@ -193,6 +199,9 @@ func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
+	if !pointOnCurve(c, pub.X, pub.Y) {
+		return false
+	}
 	e := hashToInt(hash, c)
 	return verifyGeneric(pub, c, e, r, s)
 }
-- 
2.43.0


From e28bea4efd84af5e9956d25a13fba66ec187903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 06/59] fix: adding an SM2 point to itself gave a wrong result

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index 6cf526f..6d36e54 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From 49a4127834a0d2291bc80d11e59a54a03d412c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 07/59] fix: point operations panicked on or computed with
 inputs that are not points of the curve

---
 eccset.go  | 55 ++++++++++++++++++++++++++++++------------------------
 ecdsa.go   | 51 +++++++++++++++++++++++++++++++++++++-------------
 sm2_std.go |  6 +-----
 3 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..6ed161d 100644
--- a/eccset.go
+++ b/eccset.go
@@ -394,13 +394,13 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
-		return MulBaseG_Add(pointin, scalar, "secp256k1")
+		return MulBaseG_Add(pointCoordinates(pointin, typeChoose), scalar, "secp256k1")
 		break
 	case ECC_CURVE_SECP256R1:
-		return MulBaseG_Add(pointin, scalar, "secp256r1")
+		return MulBaseG_Add(pointCoordinates(pointin, typeChoose), scalar, "secp256r1")
 		break
 	case ECC_CURVE_SM2_STANDARD:
-		return MulBaseG_Add(pointin, scalar, "sm2_std")
+		return MulBaseG_Add(pointCoordinates(pointin, typeChoose), scalar, "sm2_std")
 		break
 	case ECC_CURVE_ED25519:
 		var point1, s, point2 [32]byte
@@ -424,46 +424,56 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 	return nil, false
 }
 
+// pointCoordinates returns x||y of a point given as x||y, 04||x||y or in
+// compressed form, and nil if the input is none of these.
+func pointCoordinates(point []byte, typeChoose uint32) []byte {
+	switch {
+	case len(point) == 64:
+		return point
+	case len(point) == 65 && point[0] == 0x04:
+		return point[1:]
+	case len(point) == 33:
+		if point = PointDecompress(point, typeChoose); point != nil {
+			return point[1:]
+		}
+	}
+	return nil
+}
+
 func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	if typeChoose == ECC_CURVE_ED25519 {
 		if len(point1) != 32 || len(point2) != 32 {
 			return nil, FAILURE
 		}
 	} else {
-		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
-		} else if len(point1) == 65 {
-			point1 = point1[1:]
-		} else if len(point1) != 64 {
+		point1 = pointCoordinates(point1, typeChoose)
+		if point1 == nil {
 			return nil, FAILURE
 		}
 
-		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
-		} else if len(point2) == 65 {
-			point2 = point2[1:]
-		} else if len(point2) != 64 {
+		point2 = pointCoordinates(point2, typeChoose)
+		if point2 == nil {
 			return nil, FAILURE
 		}
 	}
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -494,11 +504,8 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 			return nil, FAILURE
 		}
 	} else {
-		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
-		} else if len(pointin) == 65 {
-			pointin = pointin[1:]
-		} else if len(pointin) != 64 {
+		pointin = pointCoordinates(pointin, typeChoose)
+		if pointin == nil {
 			return nil, FAILURE
 		}
 
@@ -509,21 +516,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 9380f7f..bf83506 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -286,6 +286,31 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	return sm2_std_decrypt(priv, cipher)
 }
 
+// curvePoint decodes the point x||y of the named curve and returns nil if
+// there is no such point.
+func curvePoint(point []byte, name string) *ecdsa.PublicKey {
+	p := new(ecdsa.PublicKey)
+	switch name {
+	case "secp256k1":
+		p.Curve = secp256k1
+	case "secp256r1":
+		p.Curve = secp256r1
+	case "sm2_std":
+		p.Curve = sm2_std
+	default:
+		return nil
+	}
+	if len(point) != 64 {
+		return nil
+	}
+	p.X = new(big.Int).SetBytes(point[:32])
+	p.Y = new(big.Int).SetBytes(point[32:])
+	if !pointOnCurve(p.Curve, p.X, p.Y) {
+		return nil
+	}
+	return p
+}
+
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
 
 	var curve *curveParam
@@ -293,9 +318,10 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 	var sm2Curve *sm2_stdCurve
 	privateKeyBig := new(big.Int).SetBytes(scalar)
 	priv := new(ecdsa.PrivateKey)
-	p := new(ecdsa.PublicKey)
-	p.X = new(big.Int).SetBytes(pointin[:32])
-	p.Y = new(big.Int).SetBytes(pointin[32:])
+	p := curvePoint(pointin, name)
+	if p == nil {
+		return nil, false
+	}
 
 	priv.D = privateKeyBig
 	if name == "secp256k1" {
@@ -359,13 +385,11 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 
 	var x_big, y_big *big.Int
 
-	p1 := new(ecdsa.PublicKey)
-	p1.X = new(big.Int).SetBytes(point1[:32])
-	p1.Y = new(big.Int).SetBytes(point1[32:])
-
-	p2 := new(ecdsa.PublicKey)
-	p2.X = new(big.Int).SetBytes(point2[:32])
-	p2.Y = new(big.Int).SetBytes(point2[32:])
+	p1 := curvePoint(point1, name)
+	p2 := curvePoint(point2, name)
+	if p1 == nil || p2 == nil {
+		return nil, false
+	}
 
 	if name == "secp256k1" {
 		k1curve = secp256k1
@@ -405,9 +429,10 @@ func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
 	var sm2Curve *sm2_stdCurve
 	privateKeyBig := new(big.Int).SetBytes(scalar)
 	priv := new(ecdsa.PrivateKey)
-	p := new(ecdsa.PublicKey)
-	p.X = new(big.Int).SetBytes(pointin[:32])
-	p.Y = new(big.Int).SetBytes(pointin[32:])
+	p := curvePoint(pointin, name)
+	if p == nil {
+		return nil, false
+	}
 
 	priv.D = privateKeyBig
 	if name == "secp256k1" {
diff --git a/sm2_std.go b/sm2_std.go
index 6d36e54..5fe140b 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -193,15 +193,11 @@ var sm2_stdPrecomputed = [9 * 2 * 15 * 2]uint32{
 }
 
 func sm2_stdGetScalar(b *[32]byte, a []byte) {
-	var scalarBytes []byte
-
 	n := new(big.Int).SetBytes(a)
 	if n.Cmp(sm2_std.N) >= 0 {
 		n.Mod(n, sm2_std.N)
-		scalarBytes = n.Bytes()
-	} else {
-		scalarBytes = a
 	}
+	scalarBytes := n.Bytes()
 	for i, v := range scalarBytes {
 		b[len(scalarBytes)-(1+i)] = v
 	}
-- 
2.43.0


From 6a905d98ca524bcb1d3f9b48266e97e820bd884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 08/59] fix: Decryption reported SUCCESS for altered
 ciphertexts and panicked on short ones

---
 eccset.go  | 3 +++
 ecdsa.go   | 2 +-
 sm2_std.go | 8 +++++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index 6ed161d..dc4de27 100644
--- a/eccset.go
+++ b/eccset.go
@@ -245,6 +245,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
diff --git a/ecdsa.go b/ecdsa.go
index bf83506..f06268d 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -275,7 +275,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index 5fe140b..bcfb5da 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1229,11 +1229,17 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) < 1+96 || data[0] != 0x04 {
+		return nil, errors.New("Decrypt: failed to decrypt")
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
 	x := new(big.Int).SetBytes(data[:32])
 	y := new(big.Int).SetBytes(data[32:64])
+	if !pointOnCurve(curve, x, y) {
+		return nil, errors.New("Decrypt: failed to decrypt")
+	}
 	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())
 
 	x2Buf := make([]byte, 32)
@@ -1257,7 +1263,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From c1115458c8a8aa7256defaf378f3269a5f22a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 09/59] fix: Encryption accepted public keys that are not
 points of the curve

---
 eccset.go | 3 +++
 ecdsa.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/eccset.go b/eccset.go
index dc4de27..62a975a 100644
--- a/eccset.go
+++ b/eccset.go
@@ -218,6 +218,9 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
diff --git a/ecdsa.go b/ecdsa.go
index f06268d..5c6ffab 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -250,6 +250,9 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	pubk.Curve = sm2_std
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
 	pubk.Y = new(big.Int).SetBytes(pubkey[32:])
+	if !pointOnCurve(sm2_std, pubk.X, pubk.Y) {
+		return nil, ErrPublicKeyIllegal
+	}
 
 	return sm2_std_encrypt(pubk, plain)
 }
-- 
2.43.0


From a3ede5b5c1c19454361c4d41c41fb0d8df9bc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 10/59] fix: SM2 signing with the key n-1 panicked, and r = 0
 or r+k = n was not retried

---
 sm2_std.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index bcfb5da..f2b8738 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1060,6 +1060,10 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 	if N.Sign() == 0 {
 		return nil, nil, 0, ErrUnknownCurve
 	}
+	if d1 := new(big.Int).Add(priv.D, big.NewInt(1)); d1.Cmp(N) == 0 {
+		// 1+d has no inverse
+		return nil, nil, 0, ErrPrivateKeyIllegal
+	}
 	var k , ry *big.Int
 
 	for {
@@ -1079,10 +1083,7 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 				v = 0x00
 			}
 
-			if r.Sign() != 0 {
-				break
-			}
-			if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {
+			if t := new(big.Int).Add(r, k); r.Sign() != 0 && t.Cmp(N) != 0 {
 				break
 			}
 		}
-- 
2.43.0


From 35f0830841158ae3e568585fcbfad8046cfb8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 11/59] fix: SM2 verification accepted a signature whose nonce
 point is the point at infinity

---
 sm2_std.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index f2b8738..d71e3d9 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1140,10 +1140,12 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
-	var x *big.Int
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y := c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
-- 
2.43.0


From 951f1f247782d79786730d479cc53eb1835e3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 12/59] fix: key agreement panicked on malformed keys and
 accepted points off the curve

---
 sm2_std.go | 61 ++++++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index d71e3d9..3fb0c24 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1343,6 +1343,17 @@ func ka_check(value byte, Zinitiator, Zresponder, Rinitiator, Rresponder []byte,
 }
 
 
+// ka_point reports whether point encodes a point of the curve as x||y.
+func ka_point(point []byte) bool {
+	return curvePoint(point, "sm2_std") != nil
+}
+
+// ka_prikey reports whether key is a private key in [1, n-1].
+func ka_prikey(key []byte) bool {
+	d := new(big.Int).SetBytes(key)
+	return len(key) == 32 && d.Sign() != 0 && d.Cmp(sm2_std.N) < 0
+}
+
 func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
 	tmpPrikeyInitiator = make([]byte, 32)
 
@@ -1368,21 +1379,22 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 								Sin []byte,
 								keylen uint16,) (key, Sout []byte, err error){
 
-	if tmpPubkeyResponder == nil || len(tmpPubkeyResponder) != 64 {
+	if !ka_point(tmpPubkeyResponder) {
 		err = errors.New("invalid responder's tmp public key")
 		return
 	}
 
-	var x, y big.Int
-	x.SetBytes(tmpPubkeyResponder[:32])
-	y.SetBytes(tmpPubkeyResponder[32:])
+	if !ka_point(pubkeyInitiator) {
+		err = errors.New("invalid initiator public key")
+		return
+	}
 
-	if !sm2_std.IsOnCurve(&x, &y) {
-		err = errors.New("invalid responder's tmp public key")
+	if !ka_point(pubkeyResponder) {
+		err = errors.New("invalid responder public key")
 		return
 	}
 
-	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
+	if !ka_point(tmpPubkeyInitiator) {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
@@ -1390,14 +1402,14 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	copy(tmp1Bytes, tmpPubkeyInitiator[16:32])
 	tmp1Bytes[0] |= 0x80
 
-	if tmpPrikeyInitiator == nil || len(tmpPrikeyInitiator) != 32 {
+	if !ka_prikey(tmpPrikeyInitiator) {
 		err = errors.New("invalid initiator's tmp private key")
 		return
 	}
 	tmp1 := new(big.Int).SetBytes(tmp1Bytes)
 	tmp2 := new(big.Int).Mul(tmp1, new(big.Int).SetBytes(tmpPrikeyInitiator))
 
-	if prikeyInitiator == nil || len(prikeyInitiator) != 32 {
+	if !ka_prikey(prikeyInitiator) {
 		err = errors.New("invalid initiator private key")
 		return
 	}
@@ -1420,17 +1432,9 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
-	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
-		err = errors.New("invalid initiator public key")
-		return
-	}
 	pubInit := new(ecdsa.PublicKey)
 	pubInit.X = new(big.Int).SetBytes(pubkeyInitiator[:32])
 	pubInit.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
-	if pubkeyResponder == nil || len(pubkeyResponder) != 64 {
-		err = errors.New("invalid responder public key")
-		return
-	}
 	pubResp := new(ecdsa.PublicKey)
 	pubResp.X = new(big.Int).SetBytes(pubkeyResponder[:32])
 	pubResp.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
@@ -1481,17 +1485,18 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 								tmpPubkeyInitiator []byte,
 								random []byte,
 								keylen uint16) (key, tmpPubkeyResponder, Sinner, Souter []byte, err error){
-	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
+	if !ka_point(tmpPubkeyInitiator) {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
 
-	var x, y big.Int
-	x.SetBytes(tmpPubkeyInitiator[:32])
-	y.SetBytes(tmpPubkeyInitiator[32:])
+	if !ka_point(pubkeyInitiator) {
+		err = errors.New("invalid initiator public key")
+		return
+	}
 
-	if !sm2_std.IsOnCurve(&x, &y) {
-		err = errors.New("invalid initiator's tmp public key")
+	if !ka_point(pubkeyResponder) {
+		err = errors.New("invalid responder public key")
 		return
 	}
 
@@ -1528,7 +1533,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	tmp1 := new(big.Int).SetBytes(tmp1Bytes)
 	tmp2 := new(big.Int).Mul(tmp1, new(big.Int).SetBytes(tmpPriResponder))
 
-	if prikeyResponder == nil || len(prikeyResponder) != 32 {
+	if !ka_prikey(prikeyResponder) {
 		err = errors.New("invalid responder private key")
 		return
 	}
@@ -1551,17 +1556,9 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
-	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
-		err = errors.New("invalid initiator public key")
-		return
-	}
 	pubInit := new(ecdsa.PublicKey)
 	pubInit.X = new(big.Int).SetBytes(pubkeyInitiator[:32])
 	pubInit.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
-	if pubkeyResponder == nil || len(pubkeyResponder) != 64 {
-		err = errors.New("invalid responder public key")
-		return
-	}
 	pubResp := new(ecdsa.PublicKey)
 	pubResp.X = new(big.Int).SetBytes(pubkeyResponder[:32])
 	pubResp.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
-- 
2.43.0


From 4e26f2551f336e560e60e375ee889b4a12be45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 13/59] fix: key agreement returned short keys for lengths of
 8192 bytes and more

---
 sm2_std.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 3fb0c24..317e9bf 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1271,7 +1271,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1286,9 +1286,9 @@ func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit
 	var hlen1 uint32
 
 	if keyLengthbit % 256 == 0 {
-		hlen1 = uint32(keyLengthbit / 256)
+		hlen1 = keyLengthbit / 256
 	} else {
-		hlen1 = uint32(keyLengthbit / 256) + 1
+		hlen1 = keyLengthbit/256 + 1
 	}
 
 	for i := uint32(1); i <= hlen1; i ++ {
@@ -1456,7 +1456,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1580,7 +1580,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From b9a002e5cbb676fd816106d7eab915f9365251e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 14/59] fix: key agreement derived a key from the point at
 infinity

---
 sm2_std.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 317e9bf..ff78df3 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1430,6 +1430,10 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	point2.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
+	if tmp1.Sign() == 0 || (point1.X.Sign() == 0 && point1.Y.Sign() == 0) {
+		err = errors.New("shared point is the point at infinity")
+		return
+	}
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
 	pubInit := new(ecdsa.PublicKey)
@@ -1554,6 +1558,10 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	point2.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
+	if tmp1.Sign() == 0 || (point1.X.Sign() == 0 && point1.Y.Sign() == 0) {
+		err = errors.New("shared point is the point at infinity")
+		return
+	}
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
 	pubInit := new(ecdsa.PublicKey)
-- 
2.43.0


From 26a4420baf9b1010e857b4e08ad83f60dd08c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 15/59] fix: key agreement returned the key although the
 confirmation failed

---
 eccset.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index 62a975a..a12d725 100644
--- a/eccset.go
+++ b/eccset.go
@@ -281,8 +281,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -308,8 +307,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -336,8 +334,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
-- 
2.43.0


From 9fc65175036335fcc0e3673c8bc94961d8c26466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 16/59] fix: CURVE25519_SHA256 clamped the caller's private key
 in place

---
 eddsa/curve25519_sha256.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..bb753d1 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -144,6 +144,7 @@ func clamp(k []byte) {
 }
 
 func Keygen(P, s, k []byte) {
+	k = append([]byte{}, k...)
 	clamp(k)
 	core(P, s, k, nil)
 }
-- 
2.43.0


From df3dc1cbc6d9549b69ea283bee7d069f4478cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 17/59] fix: X25519 and CURVE25519_SHA256 refused their own
 signatures of empty messages

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index bb753d1..e98a92b 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -67,7 +67,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..e350429 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -605,7 +605,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From 38016477339c68651e982f6cda876ec99588293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 18/59] fix: Ed25519 and X25519 verification accepted S+L in
 place of S

---
 eddsa/curve25519.go |  2 +-
 eddsa/ed25519.go    | 12 +++++++++++-
 eddsa/x25519.go     |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/eddsa/curve25519.go b/eddsa/curve25519.go
index 1735074..207cd68 100644
--- a/eddsa/curve25519.go
+++ b/eddsa/curve25519.go
@@ -102,7 +102,7 @@ func CURVE25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !scIsReduced(sig[32:]) {
 		return false
 	}
 
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..2e80a56 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -92,6 +92,16 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	return signature, nil
 }
 
+// scIsReduced reports whether the scalar s is below the order of the base point.
+func scIsReduced(s []byte) bool {
+	for i := 31; i >= 0; i-- {
+		if s[i] != order[i] {
+			return s[i] < order[i]
+		}
+	}
+	return false
+}
+
 func ED25519_verify(pubkey, message, sig []byte) bool {
 	publicKey := make([]byte, 32)
 
@@ -99,7 +109,7 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !scIsReduced(sig[32:]) {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index e350429..a467f67 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -572,7 +572,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 	var A edwards25519.ExtendedGroupElement
 	var R edwards25519.ProjectiveGroupElement
 
-	if sm[63] & 224 != 0 {
+	if !scIsReduced(sm[32:64]) {
 		return false
 	}
 	var pk [32]byte
-- 
2.43.0


From 9f3c19cc39e39a22b4e76839b5b0b927958eea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 19/59] fix: raw Ed25519 signing clamped the key that GenPubkey
 uses as it is

---
 eddsa/ed25519.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 2e80a56..97558d2 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -57,9 +57,6 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
-- 
2.43.0


From bc42d0af62744d17fda279f9e669df335a2e0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 20/59] fix: Ed25519 and X25519 multiplied the base point
 wrongly by scalars of 256 bits

---
 eddsa/ed25519.go | 14 ++++++++++++--
 eddsa/x25519.go  |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 97558d2..e7663e8 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -33,7 +33,7 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 
 	var A edwards25519.ExtendedGroupElement
 	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes = scReduce32(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -43,6 +43,15 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 }
 
 
+// scReduce32 reduces a 32-byte scalar, because the multiplication routines
+// do not support all scalars of 256 bits.
+func scReduce32(scalar []byte) (out [32]byte) {
+	var wide [64]byte
+	copy(wide[:], scalar[:32])
+	edwards25519.ScReduce(&out, &wide)
+	return
+}
+
 func ED25519_sign(prikey, message []byte) ([]byte, error) {
 
 	if prikey == nil || len(prikey) != 32 {
@@ -174,7 +183,8 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	reduced := scReduce32(scalar[:])
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &reduced)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index a467f67..14a841b 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -28,7 +28,7 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 
 	var A edwards25519.ExtendedGroupElement
 	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes = scReduce32(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From a1ce5e44f850efd19e173b30ac69bcb2741eee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 21/59] fix: Ed25519 point decoding accepted encodings that RFC
 8032 does not allow

---
 eddsa/edwards25519/edwards25519.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eddsa/edwards25519/edwards25519.go b/eddsa/edwards25519/edwards25519.go
index 873a01f..62476fa 100755
--- a/eddsa/edwards25519/edwards25519.go
+++ b/eddsa/edwards25519/edwards25519.go
@@ -616,6 +616,13 @@ func (p *ExtendedGroupElement) FromBytes(s *[32]byte) bool {
 
 	var tmpX, tmp2 [32]byte
 
+	FeToBytes(&tmpX, &p.Y)
+	tmpX[31] |= s[31] & 0x80
+	if tmpX != *s {
+		// y is not reduced
+		return false
+	}
+
 	FeSquare(&vxx, &p.X)
 	FeMul(&vxx, &vxx, &v)
 	FeSub(&check, &vxx, &u)
@@ -633,6 +640,9 @@ func (p *ExtendedGroupElement) FromBytes(s *[32]byte) bool {
 	}
 
 	if FeIsNegative(&p.X) != (s[31] >> 7) {
+		if FeIsNonZero(&p.X) == 0 {
+			return false
+		}
 		FeNeg(&p.X, &p.X)
 	}
 
-- 
2.43.0


From 126435a963ffa882c05cd0883e28b5181106919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 22/59] fix: Ed25519 point operations computed with inputs that
 are not points

---
 eccset.go        |  5 ++++-
 eddsa/ed25519.go | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/eccset.go b/eccset.go
index a12d725..463f6b9 100644
--- a/eccset.go
+++ b/eccset.go
@@ -406,6 +406,9 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return MulBaseG_Add(pointCoordinates(pointin, typeChoose), scalar, "sm2_std")
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsPoint(pointin) {
+			return nil, false
+		}
 		var point1, s, point2 [32]byte
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
@@ -445,7 +448,7 @@ func pointCoordinates(point []byte, typeChoose uint32) []byte {
 
 func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	if typeChoose == ECC_CURVE_ED25519 {
-		if len(point1) != 32 || len(point2) != 32 {
+		if !eddsa.IsPoint(point1) || !eddsa.IsPoint(point2) {
 			return nil, FAILURE
 		}
 	} else {
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index e7663e8..5cb61c8 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -172,6 +172,16 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// IsPoint reports whether the bytes are the encoding of a curve point.
+func IsPoint(point []byte) bool {
+	var (
+		P   edwards25519.ExtendedGroupElement
+		buf [32]byte
+	)
+	copy(buf[:], point)
+	return len(point) == 32 && P.FromBytes(&buf)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
-- 
2.43.0


From 603030e0afcd796b6b68daca420d6f5a5ba180aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 23/59] fix: BLS accepted the private key 0, and signed with
 keys that GenPubkey refuses

---
 bls12_381/bls12-381.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index df04c7e..cba8747 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -12,7 +12,7 @@ const BLS12_381_ORDER = "73eda753299d7d483339d80809a1d80553bda402fffe5bfefffffff
 func isScalarLegal(scalar []byte) bool {
 	curveOrder, _ := new(big.Int).SetString(BLS12_381_ORDER, 16)
 	scalarBig := new(big.Int).SetBytes(scalar)
-	if scalarBig.Cmp(curveOrder) >= 0 {
+	if scalarBig.Sign() == 0 || scalarBig.Cmp(curveOrder) >= 0 {
 		return false
 	}
 	return true
@@ -43,6 +43,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key lenth!")
 	}
+	if !isScalarLegal(privateKey) {
+		return nil, errors.New("invalid private key data")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
-- 
2.43.0


From c4ed98e5f4e57505dbd025306d4a792cc6ca91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 24/59] fix: BLS verification panicked on malformed public keys
 and accepted the identity as a key

---
 bls12_381/bls12-381.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index cba8747..be1a259 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -59,7 +59,9 @@ func Verify(publicKey, message, signature []byte) bool {
 		return false
 	}
 	pk := NullOwcryptG1()
-	pk.UnmarshalBinary(publicKey)
+	if err := pk.UnmarshalBinary(publicKey); err != nil || pk.Equal(pk.Null()) {
+		return false
+	}
 	err := scheme.Verify(pk, message, signature)
 
 	if err != nil {
-- 
2.43.0


From 0c586b3c5b247b2348dc54e2cc4f661b48e52bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 25/59] fix: BLS point addition panicked on malformed input and
 never reported infinity

---
 bls12_381/bls12-381.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index be1a259..3520c70 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -103,16 +103,22 @@ func scalarMulG(scalar []byte) (*g1pubs.PublicKey, error) {
 
 func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
 
-	pin, _ := newPK(pointin)
-
-	pScalar, _ := scalarMulG(scalar)
-
-	pout := g1pubs.NewPublicKeyFromG1(pin.GetPoint().Add(pScalar.GetPoint()).ToAffine())
+	pin := NullOwcryptG1()
+	if len(pointin) != 48 || len(scalar) != 32 || pin.UnmarshalBinary(pointin) != nil {
+		return nil, false
+	}
 
-	poutBytes := pout.Serialize()
+	pout := NullOwcryptG1()
+	pout.Mul(NewScalar(scalar), nil)
+	pout.Add(pout, pin)
 
-	if new(big.Int).SetBytes(poutBytes[:]).Cmp(big.NewInt(0)) == 0 {
+	if pout.Equal(pout.Null()) {
 		return nil, true
 	}
-	return poutBytes[:], false
-}
\ No newline at end of file
+
+	poutBytes, err := pout.MarshalBinary()
+	if err != nil {
+		return nil, false
+	}
+	return poutBytes, false
+}
-- 
2.43.0


From c2d8b6e5a703a224afd0e4d744685567cdf11358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 26/59] fix: BLS aggregation accepted members with trailing
 bytes

---
 bls12_381/bls12-381.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 3520c70..72ba7ef 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -74,6 +74,12 @@ func AggregateSignatures(sigs ...[]byte) ([]byte, error) {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
 
+	for _, s := range sigs {
+		if len(s) != 96 {
+			return nil, errors.New("invalid signature length")
+		}
+	}
+
 	return scheme.AggregateSignatures(sigs...)
 }
 
-- 
2.43.0


From 41b24ffd629afdbfce88601f7c31339a0efcd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 27/59] fix: BLS AUG verification wrote the message behind the
 caller's public key

---
 eccset.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eccset.go b/eccset.go
index 463f6b9..1d75f2f 100644
--- a/eccset.go
+++ b/eccset.go
@@ -98,7 +98,10 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 		signature, err = bls12_381.Sign(prikey, message)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		pubkey, _ := GenPubkey(prikey, typeChoose)
+		pubkey, code := GenPubkey(prikey, typeChoose)
+		if code != SUCCESS {
+			return nil, 0, code
+		}
 		message = append(pubkey, message...)
 		message = append([]byte(AUG_SCHEME_DST), message...)
 		signature, err = bls12_381.Sign(prikey, message)
@@ -178,8 +181,7 @@ func Verify(pubkey []byte, ID []byte, message []byte, signature []byte, typeChoo
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		message = append(pubkey, message...)
-		message = append([]byte(AUG_SCHEME_DST), message...)
+		message = append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_PASTA:
-- 
2.43.0


From 4c5fe253ac24375eccdcf2b3b192f7402f4b78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 28/59] fix: Pasta accepted the private keys 0 and n and above

---
 pasta/const.go |  6 ++++++
 pasta/pasta.go | 11 +++++++----
 pasta/utils.go |  5 +++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pasta/const.go b/pasta/const.go
index bb83d73..1fb471f 100644
--- a/pasta/const.go
+++ b/pasta/const.go
@@ -9,6 +9,12 @@ const (
 	MaxSpongeWidth = byte(0x05)
 )
 
+// modulus of the field and order of the group, big endian
+const (
+	fieldModulus = "\x40\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x22\x46\x98\xfc\x09\x4c\xf9\x1b\x99\x2d\x30\xed\x00\x00\x00\x01"
+	groupOrder   = "\x40\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x22\x46\x98\xfc\x09\x94\xa8\xdd\x8c\x46\xeb\x21\x00\x00\x00\x01"
+)
+
 var GroupCoeffB = Field{0xa1a55e68ffffffed, 0x74c2a54b4f4982f3, 0xfffffffffffffffd, 0x3fffffffffffffff}
 var FieldOne = Field{0x34786d38fffffffd, 0x992c350be41914ad, 0xffffffffffffffff, 0x3fffffffffffffff}
 var FieldThree = Field{0x6b0ee5d0fffffff5, 0x86f76d2b99b14bd0, 0xfffffffffffffffe, 0x3fffffffffffffff}
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..d672c14 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -9,7 +9,7 @@ import (
 // publicKey  : big endian X || Y
 // all data is in big int field
 func GenPublicKey(privateKey []byte) ([]byte, error) {
-	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 {
+	if !isReduced(privateKey, groupOrder) || ScalarEq(BigEndianBytesToFqMontgomeryArray(privateKey), ScalarZero) {
 		return nil, errors.New("invalid private key")
 	}
 
@@ -126,12 +126,15 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	pointTmp, err := GenPublicKey(scalar)
+
+	var r, p, q Affine
+	err := q.FromBigEndianBytes(pointin)
 	if err != nil {
 		return nil, err
 	}
-
-	return PointAdd(pointTmp, pointin)
+	GeneratePubkey(&p, BigEndianBytesToFqMontgomeryArray(scalar))
+	AffineAdd(&r, p, q)
+	return r.ToBigEndianBytes(), nil
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
diff --git a/pasta/utils.go b/pasta/utils.go
index 0bdc01b..be58e39 100644
--- a/pasta/utils.go
+++ b/pasta/utils.go
@@ -46,6 +46,11 @@ func FpMontgomeryArrayToBigEndianBytes(in [4]uint64) (out []byte) {
 	return
 }
 
+// isReduced reports whether in is a 32-byte big-endian number below modulus.
+func isReduced(in []byte, modulus string) bool {
+	return len(in) == 32 && string(in) < modulus
+}
+
 func BytesArrayTo32LengthBytesArray(in []byte) [32]byte {
 	if len(in) != 32 {
 		return [32]byte{}
-- 
2.43.0


From f0fb20eae83f5e0f4c42bad54cc7c5a6903f5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 29/59] fix: Pasta point decoding ignored 65-byte points, bad
 prefixes, non-points and unreduced coordinates

---
 pasta/crypto.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..b7b9b48 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -80,7 +80,9 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, no point with this x coordinate")
+		}
 	} else {
 		var x_mont, y_mont [4]uint64
 		var tmp [32]byte
@@ -89,14 +91,19 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
+		if !isReduced(p[:32], fieldModulus) || !isReduced(p[32:], fieldModulus) {
+			return errors.New("invalid input data p, coordinate is not reduced")
+		}
+		copy(tmp[:], reverseBytes(p[:32]))
+		FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
+		copy(tmp[:], reverseBytes(p[32:]))
+		FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		a.X.Set(x_mont)
 		a.Y.Set(y_mont)
+		if AffineIsZero(*a) == 1 || !AffineIsOnCurve(*a) {
+			return errors.New("invalid input data p, not a point of the curve")
+		}
 	}
 
 	return nil
@@ -133,7 +140,10 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+	}
+	if !isReduced(p[1:], fieldModulus) {
+		return errors.New("invalid input data p, coordinate is not reduced")
 	}
 
 	var tmp [32]byte
-- 
2.43.0


From 7d7f785c869a8274045bb082ada7853b5b1cf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 30/59] fix: Pasta nonces were confined to a 1/16 of the group
 order

---
 pasta/pasta.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index d672c14..8685083 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -28,7 +28,10 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 	var k Scalar
 	for {
 		rand.Read(kBytes[:])
-		kBytes[0] &= 0x03
+		kBytes[0] &= 0x7f
+		if !isReduced(kBytes[:], groupOrder) {
+			continue
+		}
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
 		var k_nonzero uint64
-- 
2.43.0


From d541367ef7f967c510bdfdfe303f29e4542fb9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 31/59] fix: Pasta verification accepted r and s that are not
 reduced

---
 pasta/pasta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 8685083..16562e9 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -80,6 +80,10 @@ func Verify(publicKey, msg, sig []byte) bool {
 		return false
 	}
 
+	if !isReduced(sig[:32], fieldModulus) || !isReduced(sig[32:], groupOrder) {
+		return false
+	}
+
 	var r_mont, s_mont Scalar
 	r_mont.Set(BigEndianBytesToFpMontgomeryArray(sig[:32]))
 	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))
-- 
2.43.0


From 7ba120cffaad180932f280c3094e9fdf10d054c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 32/59] fix: Pasta group addition of equal points in different
 coordinates, and negation

---
 pasta/crypto.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index b7b9b48..07ae114 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -433,11 +433,6 @@ func GroupAdd(r *Group, p, q Group) {
 		return
 	}
 
-	if FieldEq(p.X, q.X) == 1 && FieldEq(p.Y, q.Y) == 1 && FieldEq(p.Z, q.Z) == 1 {
-		GroupDbl(r, p)
-		return
-	}
-
 	var z1z1, z2z2 Field
 	FieldSq(&z1z1, p.Z)
 	FieldSq(&z2z2, q.Z)
@@ -450,6 +445,11 @@ func GroupAdd(r *Group, p, q Group) {
 	FieldMul(&r.Y, p.Z, z1z1)
 	FieldMul(&s2, q.Y, r.Y)
 
+	if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {
+		GroupDbl(r, p)
+		return
+	}
+
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
 	FieldAdd(&r.Z, h, h)
@@ -512,7 +512,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From 2b30485f07b1c930349dfb7a4d8d84eeb64e7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 33/59] fix: Pasta point operations reported SUCCESS for
 infinity and for malformed points

---
 eccset.go      | 14 ++++++++++----
 pasta/pasta.go | 12 ++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/eccset.go b/eccset.go
index 1d75f2f..606ca06 100644
--- a/eccset.go
+++ b/eccset.go
@@ -424,8 +424,8 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
-		return pointout, false
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		return pointout, err == pasta.ErrInfinity
 	default:
 		return nil, false
 	}
@@ -497,7 +497,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -554,7 +557,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 16562e9..bc17d55 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -5,6 +5,9 @@ import (
 	"errors"
 )
 
+// ErrInfinity is returned by the point operations whose result is the point at infinity.
+var ErrInfinity = errors.New("result is the point at infinity")
+
 // privateKey : big endian
 // publicKey  : big endian X || Y
 // all data is in big int field
@@ -141,6 +144,9 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	}
 	GeneratePubkey(&p, BigEndianBytesToFqMontgomeryArray(scalar))
 	AffineAdd(&r, p, q)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
@@ -159,6 +165,9 @@ func PointAdd(point1, point2 []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineAdd(&r, p, q)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 	return r.ToBigEndianBytes(), nil
 }
 
@@ -174,6 +183,9 @@ func PointMul(pointin, scalar []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineScalarMul(&r, BigEndianBytesToFqMontgomeryArray(scalar), p)
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
 
 	return r.ToBigEndianBytes(), nil
 }
-- 
2.43.0


From 69620b115fdfa4c0c1d8301f18ab81fa85546634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 34/59] fix: Pasta field functions wrote their result to a copy
 of the output array

SelectZnz, ToBytes, FromBytes, MSat, DivStepPreComp, DivStep and FqSetOne
took their output arrays by value, so that callers never saw a result.
---
 pasta/pasta_fp.go | 12 ++++++------
 pasta/pasta_fq.go | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pasta/pasta_fp.go b/pasta/pasta_fp.go
index cc89fc4..eed9611 100644
--- a/pasta/pasta_fp.go
+++ b/pasta/pasta_fp.go
@@ -1170,7 +1170,7 @@ func FiatPastaFpNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFpSelectZnz(out1 *[4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFpCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFpCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1195,7 +1195,7 @@ func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFpToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1354,7 +1354,7 @@ func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFpFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFpFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1457,7 +1457,7 @@ func FiatPastaFpSetOne(out1 *[4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpMSat(out1 [5]uint64) {
+func FiatPastaFpMSat(out1 *[5]uint64) {
 	out1[0] = uint64(0x992d30ed00000001)
 	out1[1] = uint64(0x224698fc094cf91b)
 	out1[2] = 0x0
@@ -1475,7 +1475,7 @@ func FiatPastaFpMSat(out1 [5]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpDivStepPreComp(out1 [4]uint64) {
+func FiatPastaFpDivStepPreComp(out1 *[4]uint64) {
 	out1[0] = uint64(0xeb9f9ebd71876582)
 	out1[1] = uint64(0x61d4a765274d339b)
 	out1[2] = uint64(0x4bf06d486f0671ed)
@@ -1511,7 +1511,7 @@ func FiatPastaFpDivStepPreComp(out1 [4]uint64) {
  *   out4: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  *   out5: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpDivStep(out1 *uint64, out2, out3 [5]uint64, out4, out5 [4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
+func FiatPastaFpDivStep(out1 *uint64, out2, out3 *[5]uint64, out4, out5 *[4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
 	var x1 uint64
 	var x2, x3 FiatPastaFpUint1
 	var x4 uint64
diff --git a/pasta/pasta_fq.go b/pasta/pasta_fq.go
index 04c0a57..de4ae31 100644
--- a/pasta/pasta_fq.go
+++ b/pasta/pasta_fq.go
@@ -1166,7 +1166,7 @@ func FiatPastaFqNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFqSelectZnz(out1 *[4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFqCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFqCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1191,7 +1191,7 @@ func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFqToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1350,7 +1350,7 @@ func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFqFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1436,7 +1436,7 @@ func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSetOne(out1 [4]uint64) {
+func FiatPastaFqSetOne(out1 *[4]uint64) {
 	out1[0] = uint64(0x5b2b3e9cfffffffd)
 	out1[1] = uint64(0x992c350be3420567)
 	out1[2] = uint64(0xffffffffffffffff)
@@ -1453,7 +1453,7 @@ func FiatPastaFqSetOne(out1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqMSat(out1 [5]uint64) {
+func FiatPastaFqMSat(out1 *[5]uint64) {
 	out1[0] = uint64(0x8c46eb2100000001)
 	out1[1] = uint64(0x224698fc0994a8dd)
 	out1[2] = 0x0
@@ -1471,7 +1471,7 @@ func FiatPastaFqMSat(out1 [5]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqDivStepPreComp(out1 [4]uint64) {
+func FiatPastaFqDivStepPreComp(out1 *[4]uint64) {
 	out1[0] = uint64(0xe6083b32dccd2992)
 	out1[1] = uint64(0x624453584f3bdab6)
 	out1[2] = uint64(0xba6367a9c5d2c08e)
@@ -1507,7 +1507,7 @@ func FiatPastaFqDivStepPreComp(out1 [4]uint64) {
  *   out4: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  *   out5: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqDivStep(out1 *uint64, out2, out3 [5]uint64, out4, out5 [4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
+func FiatPastaFqDivStep(out1 *uint64, out2, out3 *[5]uint64, out4, out5 *[4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
 	var x1 uint64
 	var x2, x3 FiatPastaFqUint1
 	var x4 uint64
-- 
2.43.0


From 8c937e2aeaa6cb358f97d73527b9e02c9270fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 35/59] fix: SM3 Sum changed the hash state and hashed its
 argument instead of appending to it

---
 sm3/sm3.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..237126a 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -159,24 +159,18 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 }
 
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
+	// work on a copy, so that the caller can keep writing and summing
+	d := *sm3
+	d.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)
+	msg := d.pad()
 
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	d.update(msg, len(msg)/d.BlockSize())
 
+	var out [32]byte
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], d.digest[i])
 	}
-	return out
-
+	return append(in, out[:]...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From 3dd9cf92d3a648f15033331a0b30d9ad2d9e3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 36/59] fix: Clone of a SHAKE256 or SHA-3 object that is being
 read panicked or lost its place

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..2d82e1b 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[d.rate-len(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 2a0f4e2b8042e7f8052dcb29c651e8c2be4f1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 37/59] fix: Hash with BLAKE2S panicked on, or truncated,
 digest lengths above 32

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 5656b21fceb414a54a9559f91836cf50a5ce9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 38/59] fix: KeyAgreement_initiator_step1 returned an SM2 key
 pair for every algorithm selector

---
 eccset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eccset.go b/eccset.go
index 606ca06..b94fc37 100644
--- a/eccset.go
+++ b/eccset.go
@@ -260,6 +260,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 
 ///////////////////////////////////////////////////////////密钥协商////////////////////////////////////////////////////////
 func KeyAgreement_initiator_step1(typeChoose uint32) (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
+	if typeChoose != ECC_CURVE_SM2_STANDARD {
+		return nil, nil
+	}
 	tmpPrikeyInitiator, tmpPubkeyInitiator = sm2_std_ka_initiaor_step1()
 	return
 }
-- 
2.43.0


From 601b07bc3dea9c90a8f6353e53c1aae5f9204112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 39/59] fix: CURVE25519_SHA256 signed with the unclamped nonce

Keygen no longer clamps its argument in place, so the nonce has to be
clamped before it is used in the signature equation.
---
 eddsa/curve25519_sha256.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index e98a92b..3eec523 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -47,6 +47,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	digest.Write(m)
 	digest.Write(s)
 	x := digest.Sum(nil)
+	clamp(x)
 
 	Y := make([]byte, 32)
 
-- 
2.43.0


From 43d9cea74122b680ffaa91980ed94cd4d04a4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 40/59] fix: SM2 field reduction underflowed for some operands,
 so a valid point could be taken for a non-point

---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index ff78df3..4aa6bf7 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -819,7 +819,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x10000000 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -833,7 +833,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x10000000 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0


From 1e55b8089c3fde208e427c6e9af9c1262a6bbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 41/59] fix: Ed25519 point decoding left the limbs of y too
 large for additions

The check for reduced encodings passed y itself to FeToBytes, which changes its argument.
---
 eddsa/edwards25519/edwards25519.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eddsa/edwards25519/edwards25519.go b/eddsa/edwards25519/edwards25519.go
index 62476fa..f1f821b 100755
--- a/eddsa/edwards25519/edwards25519.go
+++ b/eddsa/edwards25519/edwards25519.go
@@ -616,7 +616,9 @@ func (p *ExtendedGroupElement) FromBytes(s *[32]byte) bool {
 
 	var tmpX, tmp2 [32]byte
 
-	FeToBytes(&tmpX, &p.Y)
+	// FeToBytes changes the limbs of its input beyond what FeAdd allows for
+	y := p.Y
+	FeToBytes(&tmpX, &y)
 	tmpX[31] |= s[31] & 0x80
 	if tmpX != *s {
 		// y is not reduced
-- 
2.43.0


From 840f7730c1104d49c0b57537fc9e306bec1d18b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 42/59] fix: CURVE25519_SHA256 signed and verified wrongly when
 the public key is the base point

---
 eddsa/curve25519_sha256.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 3eec523..372b679 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -560,7 +560,13 @@ func core(Px, s, k, Gx []byte) {
 	pack(&dx, Px)
 
 	/* calculate s such that s abs(P) = G  .. assumes G is std base point */
-	if s != nil {
+	if s != nil && isBase(Px) {
+		/* the formulas below do not hold for P = G and P = -G */
+		for i := range s {
+			s[i] = 0
+		}
+		s[0] = 1
+	} else if s != nil {
 		xToY2(&t2, &t1, &dx)      /* t1 = Py^2  */
 		recip(&t3, z[1], 0)       /* where Q=P+G ... */
 		mul(&t2, x[1], &t3)       /* t2 = Qx  */
@@ -621,8 +627,29 @@ func Sign(v, h, x, s []byte) bool {
 	return w != 0
 }
 
+/* isBase reports whether P is the x coordinate of the base point  */
+func isBase(P []byte) bool {
+	for i := 1; i < 32; i++ {
+		if P[i] != 0 {
+			return false
+		}
+	}
+	return P[0] == 9
+}
+
 func Verify(Y, v, h, P []byte) {
 	/* Y = v abs(P) + h G  */
+	if isBase(P) {
+		/* the formulas below do not hold for abs(P) = G, but then Y = (v + h) G  */
+		tmp := make([]byte, 32)
+		k := make([]byte, 32)
+		copy(k, h)
+		divmod(tmp, k, 32, order, 32)
+		mulaSmall(k, k, 0, v, 32, 1)
+		core(Y, nil, k, nil)
+		return
+	}
+
 	d := make([]byte, 32)
 	p := [2]*long10{
 		&long10{},
-- 
2.43.0


From 4e38dd132987330efff00a48aa6a41b25ce7302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 43/59] fix: pasta accepted message field elements that are not
 reduced

---
 pasta/mina.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pasta/mina.go b/pasta/mina.go
index 4fe6b6a..cf4bbbe 100644
--- a/pasta/mina.go
+++ b/pasta/mina.go
@@ -1,6 +1,9 @@
 package pasta
 
-import "encoding/json"
+import (
+	"encoding/json"
+	"errors"
+)
 
 type MinaMessage struct {
 	TransactionPrefix []Field  `json:"transactionPrefix"`
@@ -22,6 +25,13 @@ func NewMinaMessage(input []byte) (*MinaMessage, error) {
 	if err != nil {
 		return nil, err
 	}
+	for _, fields := range [][]Field{minaMessage.TransactionPrefix, minaMessage.TransactionSuffix, minaMessage.SpongeIV[:]} {
+		for _, f := range fields {
+			if !isReduced(f.ToBigEndianBytes(), fieldModulus) {
+				return nil, errors.New("invalid message, field element is not reduced")
+			}
+		}
+	}
 	return &minaMessage, nil
 }
 
-- 
2.43.0


From d87efd82f262f424ddedfd46a361a0d9f4eb9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 44/59] fix: pasta Verify accepted a nonce point at infinity

---
 pasta/pasta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index bc17d55..33c2af0 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -120,6 +120,9 @@ func Verify(publicKey, msg, sig []byte) bool {
 
 	var r Group
 	GroupAdd(&r, sg, neg_epub)
+	if IsZero(r) == 1 {
+		return false
+	}
 
 	var raff Affine
 	AffineFromGroup(&raff, r)
-- 
2.43.0


From 79325ec6cbd42408db1f4b9ff66312505f252a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 45/59] fix: BLS12-381 chooses its field arithmetic once,
 instead of racing on a package variable in the first calls

---
 bls12_381/bls/arithmetic_decl.go | 9 ++++++---
 bls12_381/bls/bls12_381.go       | 1 -
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bls12_381/bls/arithmetic_decl.go b/bls12_381/bls/arithmetic_decl.go
index fab5743..341f50e 100644
--- a/bls12_381/bls/arithmetic_decl.go
+++ b/bls12_381/bls/arithmetic_decl.go
@@ -3,20 +3,23 @@
 package bls
 
 import (
+	"sync"
+
 	"golang.org/x/sys/cpu"
 )
 
 var mul func(c, a, b *fe) = mulADX
 var mulAssign func(a, b *fe) = mulAssignADX
 
+var cfgArchOnce sync.Once
+
 func cfgArch() {
-	if !x86ArchitectureSet {
+	cfgArchOnce.Do(func() {
 		if !(cpu.X86.HasADX && cpu.X86.HasBMI2) || forceNonADXArch {
 			mul = mulNoADX
 			mulAssign = mulAssignNoADX
 		}
-		x86ArchitectureSet = true
-	}
+	})
 }
 
 func square(c, a *fe) {
diff --git a/bls12_381/bls/bls12_381.go b/bls12_381/bls/bls12_381.go
index 195c5c0..4d8354e 100644
--- a/bls12_381/bls/bls12_381.go
+++ b/bls12_381/bls/bls12_381.go
@@ -267,4 +267,3 @@ var cofactorEFFG2 = new(big.Int).SetBytes(
 */
 
 var forceNonADXArch bool
-var x86ArchitectureSet bool = false
-- 
2.43.0


From 42a39192401eb8525e4d904bb80942579b7c963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 46/59] fix: sha3 ended processes of -race builds when
 absorbing a block at the end of an allocation

---
 sha3/xor_unaligned.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sha3/xor_unaligned.go b/sha3/xor_unaligned.go
index 929a486..cfb0c71 100755
--- a/sha3/xor_unaligned.go
+++ b/sha3/xor_unaligned.go
@@ -9,6 +9,11 @@ package sha3
 
 import "unsafe"
 
+// xorInUnaligned reads only the first len(buf) bytes behind the pointer that it
+// converts; the pointer checks of race detector builds, which ended the process
+// when an allocation ended before maxRate bytes, do not see that.
+//
+//go:nocheckptr
 func xorInUnaligned(d *state, buf []byte) {
 	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))
 	n := len(buf)
-- 
2.43.0


From 5f787b3b903c5ba9953cfa63e508532fd38390f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 47/59] fix: BLS12-381 pairing engine's AddPairInv changed the
 sign of the caller's point

---
 bls12_381/bls/pairing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/pairing.go b/bls12_381/bls/pairing.go
index 97adc55..6cfa041 100644
--- a/bls12_381/bls/pairing.go
+++ b/bls12_381/bls/pairing.go
@@ -62,8 +62,9 @@ func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
 
 // AddPairInv adds a G1, G2 point pair to pairing engine. G1 point is negated.
 func (e *Engine) AddPairInv(g1 *PointG1, g2 *PointG2) *Engine {
-	e.G1.Neg(g1, g1)
-	e.AddPair(g1, g2)
+	ng1 := e.G1.New()
+	e.G1.Neg(ng1, g1)
+	e.AddPair(ng1, g2)
 	return e
 }
 
-- 
2.43.0


From 7e90712486fff9d187e8aa2cbe778d0892d79c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 48/59] fix: BLS12-381 OwcryptGT.Null was zero, which is not an
 element of the group

---
 bls12_381/gt.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 5d3b11a..0e3e15a 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -26,11 +26,8 @@ func (k *OwcryptGT) Equal(kk kyber.Point) bool {
 	return k.f.Equal(kk.(*OwcryptGT).f)
 }
 
-const gtLength = 576
-
 func (k *OwcryptGT) Null() kyber.Point {
-	var zero [gtLength]byte
-	k.f, _ = bls.NewGT().FromBytes(zero[:])
+	k.f = bls.NewGT().One()
 	return k
 }
 
-- 
2.43.0


From cd86329a4cefbcb3b49b9e5e788c4bb081ff02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 49/59] fix: BLS12-381 OwcryptGT.Sub subtracted field elements
 instead of dividing

---
 bls12_381/gt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 0e3e15a..00a0865 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -60,7 +60,9 @@ func (k *OwcryptGT) Add(a, b kyber.Point) kyber.Point {
 func (k *OwcryptGT) Sub(a, b kyber.Point) kyber.Point {
 	aa := a.(*OwcryptGT)
 	bb := b.(*OwcryptGT)
-	bls.NewGT().Sub(k.f, aa.f, bb.f)
+	inv := bls.NewGT().New()
+	bls.NewGT().Inverse(inv, bb.f)
+	bls.NewGT().Mul(k.f, aa.f, inv)
 	return k
 }
 
-- 
2.43.0


From 09782e7eb875e080d0b92be93a775d541d046baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 50/59] fix: BLS12-381 OwcryptG2.Hash and Pick returned the
 receiver for input without a scheme prefix

---
 bls12_381/g2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index c445d50..8e03205 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -146,6 +146,9 @@ func (k *OwcryptG2) Hash(m []byte) kyber.Point {
 	} else if strings.Index(string(m), aug_scheme_dst) == 0 {
 		pg2, _ := bls.NewG2(nil).HashToCurve(m[len(aug_scheme_dst):], m[:len(aug_scheme_dst)])
 		k.p = pg2
+	} else {
+		pg2, _ := bls.NewG2(nil).HashToCurve(m, Domain)
+		k.p = pg2
 	}
 
 	return k
-- 
2.43.0


From edd721ef1b42f955e23552a7b65a0cb1e6d953a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 51/59] fix: BLS12-381 E.One did not set its receiver

---
 bls12_381/bls/gt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bls12_381/bls/gt.go b/bls12_381/bls/gt.go
index 9e2c27f..3c3262a 100644
--- a/bls12_381/bls/gt.go
+++ b/bls12_381/bls/gt.go
@@ -20,8 +20,7 @@ func (e *E) Set(e2 *E) *E {
 
 // One sets a new target group element to one
 func (e *E) One() *E {
-	e = new(fe12).one()
-	return e
+	return e.one()
 }
 
 // IsOne returns true if given element equals to one
-- 
2.43.0


From 39609f0bab010f0a0d99b05406309252b6cbfef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 52/59] fix: BLS12-381 hash to curve accepted domains longer
 than 255 bytes

---
 bls12_381/bls/hash_to_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/hash_to_field.go b/bls12_381/bls/hash_to_field.go
index 60f8234..bd46fdb 100644
--- a/bls12_381/bls/hash_to_field.go
+++ b/bls12_381/bls/hash_to_field.go
@@ -22,10 +22,10 @@ func hashToFpXMDSHA256(msg []byte, domain []byte, count int) ([]*fe, error) {
 
 func expandMsgSHA256XMD(msg []byte, domain []byte, outLen int) ([]byte, error) {
 	h := sha256.New()
-	domainLen := uint8(len(domain))
-	if domainLen > 255 {
+	if len(domain) > 255 {
 		return nil, fmt.Errorf("invalid domain length")
 	}
+	domainLen := uint8(len(domain))
 	// DST_prime = DST || I2OSP(len(DST), 1)
 	// b_0 = H(Z_pad || msg || l_i_b_str || I2OSP(0, 1) || DST_prime)
 	_, _ = h.Write(make([]byte, h.BlockSize()))
-- 
2.43.0


From efe82ac4138806adb3838dc64a126dd76dba777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 53/59] fix: BLS12-381 MultiExp shifted the caller's scalars
 down to zero

---
 bls12_381/bls/g1.go | 1 +
 bls12_381/bls/g2.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index a273890..44726e4 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -455,6 +455,7 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	powers = append([]*big.Int{}, powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index 99feffd..b46e749 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -459,6 +459,7 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	powers = append([]*big.Int{}, powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
-- 
2.43.0


From e4948c3400df018b11ab75c804b5145b9958f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 54/59] fix: BLS12-381 MultiExp ignored the high bits of
 scalars longer than the group order

---
 bls12_381/bls/g1.go | 5 +++++
 bls12_381/bls/g2.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index 44726e4..5b4678f 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -461,6 +461,11 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
 	}
 	bucketSize, numBits := (1<<c)-1, uint32(g.Q().BitLen())
+	for _, power := range powers {
+		if l := uint32(power.BitLen()); l > numBits {
+			numBits = l
+		}
+	}
 	windows := make([]*PointG1, numBits/c+1)
 	bucket := make([]*PointG1, bucketSize)
 	acc, sum := g.New(), g.New()
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index b46e749..392357b 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -465,6 +465,11 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
 	}
 	bucketSize, numBits := (1<<c)-1, uint32(g.Q().BitLen())
+	for _, power := range powers {
+		if l := uint32(power.BitLen()); l > numBits {
+			numBits = l
+		}
+	}
 	windows := make([]*PointG2, numBits/c+1)
 	bucket := make([]*PointG2, bucketSize)
 	acc, sum := g.New(), g.New()
-- 
2.43.0


From d163b340e0964d2299357a62dcafb3686124e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 55/59] fix: BLS12-381 OwcryptG2.String named group G1

---
 bls12_381/g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index 8e03205..ec323ce 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -131,7 +131,7 @@ func (k *OwcryptG2) MarshalSize() int {
 
 func (k *OwcryptG2) String() string {
 	b, _ := k.MarshalBinary()
-	return "bls12-381.G1: " + hex.EncodeToString(b)
+	return "bls12-381.G2: " + hex.EncodeToString(b)
 }
 
 const (
-- 
2.43.0


From c4036abbd00cdaeef11ec82331417d2424b4f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 56/59] fix: BLS12-381 UnmarshalBinary of an invalid encoding
 left a point that ended the process when used

---
 bls12_381/g1.go | 9 ++++++---
 bls12_381/g2.go | 9 ++++++---
 bls12_381/gt.go | 5 ++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/bls12_381/g1.go b/bls12_381/g1.go
index 7824caa..c865d43 100644
--- a/bls12_381/g1.go
+++ b/bls12_381/g1.go
@@ -97,9 +97,12 @@ func (k *OwcryptG1) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG1) UnmarshalBinary(buff []byte) error {
-	var err error
-	k.p, err = bls.NewG1().FromCompressed(buff)
-	return err
+	p, err := bls.NewG1().FromCompressed(buff)
+	if err != nil {
+		return err
+	}
+	k.p = p
+	return nil
 }
 
 func (k *OwcryptG1) MarshalTo(w io.Writer) (int, error) {
diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index ec323ce..2e1dff0 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -103,9 +103,12 @@ func (k *OwcryptG2) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG2) UnmarshalBinary(buff []byte) error {
-	var err error
-	k.p, err = bls.NewG2(nil).FromCompressed(buff)
-	return err
+	p, err := bls.NewG2(nil).FromCompressed(buff)
+	if err != nil {
+		return err
+	}
+	k.p = p
+	return nil
 }
 
 func (k *OwcryptG2) MarshalTo(w io.Writer) (int, error) {
diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 00a0865..d4f2fdf 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -88,8 +88,11 @@ func (k *OwcryptGT) MarshalTo(w io.Writer) (int, error) {
 
 func (k *OwcryptGT) UnmarshalBinary(buf []byte) error {
 	fe12, err := bls.NewGT().FromBytes(buf)
+	if err != nil {
+		return err
+	}
 	k.f = fe12
-	return err
+	return nil
 }
 
 func (k *OwcryptGT) UnmarshalFrom(r io.Reader) (int, error) {
-- 
2.43.0


From e4b48d619d7b1af1b7af1b5981a5a03df7654694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 57/59] fix: Pallas Decompress did not invert Compress, one
 used Montgomery form and the other did not

---
 pasta/crypto.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 07ae114..10ca297 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -148,9 +148,7 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 
 	var tmp [32]byte
 	copy(tmp[:], reverseBytes(p[1:]))
-	var x_mont [4]uint64
-	FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-	c.X.Set(x_mont)
+	c.X.Set(BytesArrayToU64Array(tmp))
 	return nil
 }
 
@@ -567,7 +565,9 @@ func Compress(compressed *Compressed, pt Affine) {
 }
 
 func Decompress(pt *Affine, compressed Compressed) bool {
-	pt.X.Set(compressed.X.ToU64Array())
+	var x_mont [4]uint64
+	FiatPastaFpToMontgomery(&x_mont, compressed.X.ToU64Array())
+	pt.X.Set(x_mont)
 
 	var x2, x3, y2 [4]uint64
 	FiatPastaFpSquare(&x2, pt.X)
-- 
2.43.0


From 7ab0d72598727aa8047a05a285e3daa5e757fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 58/59] fix: EC-KCDSA verification accepted forged signatures
 under two public keys of composite order

---
 eddsa/curve25519_sha256.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 372b679..8d4ba19 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -15,7 +15,10 @@
 
 package eddsa
 
-import "crypto/sha256"
+import (
+	"bytes"
+	"crypto/sha256"
+)
 
 func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 	if prikey == nil || len(prikey) != 32 {
@@ -136,6 +139,12 @@ var base2y = &long10{
 	39999547, 18689728, 59995525, 1648697, 57546132, 24010086, 19059592, 5425144, 63499247, 16420658,
 }
 
+/* the x coordinate of G + (0, 0)  */
+var baseInverse = []byte{
+	18, 199, 113, 28, 199, 113, 28, 199, 113, 28, 199, 113, 28, 199, 113, 28, 199, 113, 28, 199, 113,
+	28, 199, 113, 28, 199, 113, 28, 199, 113, 28, 71,
+}
+
 type long10 [10]int64
 
 func clamp(k []byte) {
@@ -639,14 +648,28 @@ func isBase(P []byte) bool {
 
 func Verify(Y, v, h, P []byte) {
 	/* Y = v abs(P) + h G  */
-	if isBase(P) {
-		/* the formulas below do not hold for abs(P) = G, but then Y = (v + h) G  */
+	isZero, isBaseInverse := bytes.Equal(P[:32], make([]byte, 32)), bytes.Equal(P[:32], baseInverse)
+	if isBase(P) || isZero || isBaseInverse {
+		/* the formulas below do not hold for P = (0, 0), abs(P) = G and abs(P) = G + (0, 0), but then
+		 * Y = h G or (v + h) G, to which (0, 0) is added if v is odd and abs(P) is not G  */
 		tmp := make([]byte, 32)
 		k := make([]byte, 32)
 		copy(k, h)
 		divmod(tmp, k, 32, order, 32)
-		mulaSmall(k, k, 0, v, 32, 1)
+		if !isZero {
+			w := make([]byte, 32)
+			copy(w, v)
+			divmod(tmp, w, 32, order, 32)
+			mulaSmall(k, k, 0, w, 32, 1)
+		}
 		core(Y, nil, k, nil)
+		if !isBase(P) && v[0]&1 != 0 {
+			/* (x, y) + (0, 0) = (1/x, -y/x^2)  */
+			var x, t long10
+			unpack(&x, Y)
+			recip(&t, &x, 0)
+			pack(&t, Y)
+		}
 		return
 	}
 
-- 
2.43.0


From a3059e9ce2c17f7fba33d9f4c68817afff20e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 59/59] fix: count the bits of long SM3 messages in 64 bits
 where int has 32

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 237126a..9889ac6 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -147,7 +147,7 @@ func (sm3 *SM3) Reset() {
 
 func (sm3 *SM3) Write(p []byte) (int, error) {
 	toWrite := len(p)
-	sm3.length += uint64(len(p) * 8)
+	sm3.length += uint64(len(p)) * 8
 
 	msg := append(sm3.unhandleMsg, p...)
 	nblocks := len(msg) / sm3.BlockSize()
-- 
2.43.0

