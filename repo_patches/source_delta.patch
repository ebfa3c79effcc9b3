From 052269cf29192d789e7bca55723bec8b9d744c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 01/14] fix: CheckWIF panicked on texts decoding to fewer than
 four bytes

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..c38bc26 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* At least one byte of payload and the 4 bytes of the checksum */
+	if len(bytes) < 5 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From 5d9d18fc3eaae99286fe68b621a89a94af7070c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 02/14] fix: sums and products of private keys with leading
 zeros were refused or got a malformed WIF

---
 private_key.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/private_key.go b/private_key.go
index c38bc26..69d7f2f 100644
--- a/private_key.go
+++ b/private_key.go
@@ -152,7 +152,15 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Add(p1.Key, p2.Key)
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
+	if pKey.Sign() == 0 {
+		return nil, errors.New("resulting private key is zero")
+	}
+
 	hexa := bigIntToHex(pKey)
+	/* Private keys are 64 hex digits long */
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -173,7 +181,15 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mul(p1.Key, p2.Key)
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
+	if pKey.Sign() == 0 {
+		return nil, errors.New("resulting private key is zero")
+	}
+
 	hexa := bigIntToHex(pKey)
+	/* Private keys are 64 hex digits long */
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
-- 
2.43.0


From 3b6a9f03f780e44f371951fbbe9f6b89b2a3c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 03/14] fix: PrivateFromHex accepted empty, short, long and
 out-of-range keys

---
 private_key.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/private_key.go b/private_key.go
index 69d7f2f..566b7cf 100644
--- a/private_key.go
+++ b/private_key.go
@@ -11,6 +11,11 @@ import (
 	"github.com/mr-tron/base58"
 )
 
+// isValidPrivateKey checks if the key is between 1 and secp256k1.N - 1
+func isValidPrivateKey(key *big.Int) bool {
+	return key != nil && key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
+}
+
 // CheckWIF checks if the wif checksum is valid
 func CheckWIF(wif string) bool {
 	bytes, err := base58.Decode(wif)
@@ -75,8 +80,17 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 // PrivateFromHex imports a private key from its hex value
 func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
+	/* A private key is 32 bytes long */
+	if len(hexa) != 64 {
+		return nil, errors.New("invalid private key length")
+	}
+
 	var p PrivateKey
-	p.Key, _ = new(big.Int).SetString(hexa, 16)
+	key, ok := new(big.Int).SetString(hexa, 16)
+	if !ok || !isValidPrivateKey(key) {
+		return nil, errors.New("invalid private key")
+	}
+	p.Key = key
 	p.Hex = hexa
 	/* Add network byte to the hex value */
 	hexa = network.PrivKeyPrefix + hexa
-- 
2.43.0


From 7ec54926c9ae2a4c331a72c41a5beaa99511e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:13 +0000
Subject: [PATCH 04/14] fix: PrivateFromWIF imported a wrong key from
 compressed WIFs and accepted foreign networks, wrong lengths and out-of-range
 keys

---
 private_key.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index 566b7cf..1f1bc35 100644
--- a/private_key.go
+++ b/private_key.go
@@ -65,13 +65,31 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
-	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
+	/* The key must follow the network byte of the network */
+	if !strings.HasPrefix(hexa, strings.ToLower(network.PrivKeyPrefix)) {
+		return nil, errors.New("wif is for a different network")
+	}
+	hexa = hexa[len(network.PrivKeyPrefix):len(hexa)]
+
+	/* The keys of compressed public keys are followed by 01 */
+	if len(hexa) == 66 && hexa[64:66] == "01" {
+		hexa = hexa[0:64]
+	}
+	if len(hexa) != 64 {
+		return nil, errors.New("wif invalid")
+	}
+
+	key, ok := new(big.Int).SetString(hexa, 16)
+	if !ok || !isValidPrivateKey(key) {
+		return nil, errors.New("wif invalid")
+	}
+
 	var privateKey PrivateKey
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
-	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	privateKey.Key = key
 	privateKey.Network = network
 
 	return &privateKey, nil
-- 
2.43.0


From 2e850b7167b2a5751b48089e1e91c883dd4beac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 05/14] fix: identical private keys were not recognised when
 imported from a compressed and an uncompressed WIF

---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index 1f1bc35..3c8d871 100644
--- a/private_key.go
+++ b/private_key.go
@@ -176,7 +176,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -205,7 +205,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From 8565b515860eef0eee2e506d15b0baa8525be04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 06/14] fix: PublicFromHex panicked on short or non-hex texts
 and accepted off-curve points, signs and trailing garbage

---
 public_key.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..113dfc8 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,19 +18,35 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	/* Only hex digits, and 33 bytes (compressed) or 65 bytes (uncompressed) */
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+		if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 ||
+			!secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 
+		if publicKey.X.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
-- 
2.43.0


From 44d989648203a078251266fd0a55c14a4eb53bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 07/14] fix: PublicFromHex wrote to the shared curve
 parameters, a data race between concurrent calls

---
 public_key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 113dfc8..a769307 100644
--- a/public_key.go
+++ b/public_key.go
@@ -47,7 +47,11 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY writes to the A parameter of its curve, which is shared */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0


From a7da328c548ded06182e2fa56fa1db9254d8f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 08/14] fix: GetPublicKey exited the process for the key N-1,
 accepted out-of-range keys and exposed the generator point

---
 public_key.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/public_key.go b/public_key.go
index a769307..3cada4b 100644
--- a/public_key.go
+++ b/public_key.go
@@ -80,12 +80,28 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if !isValidPrivateKey(p.Key) {
+		return nil, false
+	}
+
+	/* kG = -((N - k)G), and the ladder cannot compute (N - 1)G: always use the smaller of k and N - k */
+	k := p.Key
+	negK := new(big.Int).Sub(secp256k1.N, k)
+	negate := negK.Cmp(k) < 0
+	if negate {
+		k = negK
+	}
+
+	R, valid := secp256k1.ScalarMult(k, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* R may share its coordinates with secp256k1.G */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
+	if negate {
+		publicKey.Y.Sub(secp256k1.P, publicKey.Y)
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From c30ae511d1791ca37107febca4a6b5a3d8f8c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:56 +0000
Subject: [PATCH 09/14] fix: AddPublicKeys exited the process when adding
 opposite points

---
 public_key.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/public_key.go b/public_key.go
index 3cada4b..5f45db4 100644
--- a/public_key.go
+++ b/public_key.go
@@ -216,6 +216,13 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		Y: p2.Y,
 	}
 
+	if !secp256k1.IsOnCurve(point1) || !secp256k1.IsOnCurve(point2) {
+		return nil, errors.New("point is not on curve")
+	}
+	if point1.X.Cmp(point2.X) == 0 && point1.Y.Cmp(point2.Y) != 0 {
+		return nil, errors.New("sum is the point at infinity")
+	}
+
 	r, onCurve := secp256k1.AddPoints(point1, point2)
 	if !onCurve {
 		return nil, errors.New("point is not on curve")
-- 
2.43.0


From acfbf00535f9cf40e17234ef0e68b1e2c977dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 10/14] fix: NewMnemonic emitted the bits in reverse order and
 computed wrong checksums

---
 mnemonic.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..bcc088e 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -110,14 +110,17 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	}
 
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	/* The checksum covers all the bytes of the entropy, leading zeros included */
+	entropyBytes := make([]byte, entropyLength/8)
+	copy(entropyBytes[len(entropyBytes)-len(entropy.Bytes()):], entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
 
 	hashInt := new(big.Int).SetBytes(hash)
 
-	hashBinary := fmt.Sprintf("%b", hashInt)
+	hashBinary := fmt.Sprintf("%0256b", hashInt)
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -127,19 +130,10 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	}
 
 	b = b + checksumBinary
-	binary, _ := new(big.Int).SetString(b, 2)
 
 	var phrase []string
 	for i := 0; i < len(b); i += 11 {
-		str := ""
-		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
-				str += "0"
-			} else {
-				str += "1"
-			}
-		}
-		n, _ := new(big.Int).SetString(str, 2)
+		n, _ := new(big.Int).SetString(b[i:i+11], 2)
 		phrase = append(phrase, wordlist[n.Int64()])
 	}
 
-- 
2.43.0


From bc874dc2360cebdcf0c26c269f83f261e01918fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 11/14] fix: NewMnemonic panicked on word lists of fewer than
 2048 words

---
 mnemonic.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index bcc088e..c1234f1 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -13,6 +13,11 @@ import (
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
+	/* 11 bits per word */
+	if len(wordlist) != 2048 {
+		return nil, errors.New("invalid wordlist")
+	}
+
 	words := strings.Split(mnemonic, " ")
 	binary := ""
 	for _, word := range words {
@@ -76,7 +81,8 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	/* 11 bits per word */
+	if len(wordlist) != 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
-- 
2.43.0


From 177d4716dc3134b249352e6691898075ccfbb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 12/14] fix: NewSeedFromMnemonic wrote the secret entropy to
 the log

---
 mnemonic.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index c1234f1..a7c87f2 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
 )
@@ -46,7 +45,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
 		}
-		log.Println(n)
 		nInt, _ := new(big.Int).SetString(n, 2)
 		hexa := bigIntToHex(nInt)
 		hash += hexa
@@ -73,8 +71,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
 	return nil, nil
 }
 
-- 
2.43.0


From 252f822fcdfb015f2c5d2b49fe45ea2b69f89768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 13/14] fix: NewSeedFromMnemonic panicked on or mis-validated
 mnemonics of other than 24 words

---
 mnemonic.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index a7c87f2..0520d69 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -18,6 +18,12 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 	}
 
 	words := strings.Split(mnemonic, " ")
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
+	}
+
 	binary := ""
 	for _, word := range words {
 		index := -1
@@ -39,6 +45,11 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
+	/* One checksum bit for every 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	checksum := binary[len(binary)-checksumLength:]
+	binary = binary[:len(binary)-checksumLength]
+
 	hash := ""
 	for i := 0; i < len(binary); i += 4 {
 		n := ""
@@ -50,10 +61,8 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		hash += hexa
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
-
 	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	decoded, err := hex.DecodeString(hash)
 	if err != nil {
 		return nil, err
 	}
@@ -61,13 +70,9 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 	shaHash := sha.Sum(nil)
 
 	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
-
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
-	}
+	shaHashBinary := fmt.Sprintf("%0256b", shaHashBig)
 
-	if shaHashHex[0:2] != checksum {
+	if shaHashBinary[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-- 
2.43.0


From 8891f788b6abdcbfb89c902d63de2fe8403e64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 14/14] fix: NewSeedFromMnemonic returned no seed for valid
 mnemonics

---
 mnemonic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 0520d69..9e1bf9e 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,11 +3,14 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
@@ -76,7 +79,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0

