From 956832cfbb3bcfba405ef0a3472c261daa21135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 01/21] fix: DecodeParts length check wrapped around for
 PUSHDATA2/PUSHDATA4

The prefix size was added in uint16/uint32 arithmetic, so lengths 0xfffd..0xffff
(0xfffffffb..0xffffffff) passed the check and panicked on slicing, even for
scripts produced by EncodeParts.
---
 script/OpPushdata.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..15a394d 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,8 +102,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
-			if len(b) < int(3+l) {
+			l := int(binary.LittleEndian.Uint16(b[1:]))
+			if len(b) < 3+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[3 : 3+l]
@@ -114,8 +114,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
-			if len(b) < int(5+l) {
+			l := int(binary.LittleEndian.Uint32(b[1:]))
+			if len(b) < 5+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[5 : 5+l]
-- 
2.43.0


From 9ccda0d6354c965909a1bf685a9c09047ab8c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/21] fix: script classification panicked on empty scripts
 and empty pushes

---
 script/Script.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 9504ad5..da0911a 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -222,6 +222,7 @@ func (s *Script) IsP2PK() bool {
 
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
+		len(parts[1]) > 0 &&
 		parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
@@ -251,8 +252,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return len(b) > 0 && b[0] == 0x6a ||
+		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
@@ -266,16 +267,16 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
-		return false
-	}
-
-	for i := 1; i < len(parts)-2; i++ {
+	for i := 0; i < len(parts); i++ {
 		if len(parts[i]) < 1 {
 			return false
 		}
 	}
 
+	if isSmallIntOp(parts[0][0]) == false {
+		return false
+	}
+
 	return isSmallIntOp(parts[len(parts)-2][0]) &&
 		parts[len(parts)-1][0] == OpCHECKMULTISIG
 }
-- 
2.43.0


From 6623b6e05bd4cc2e7ae99327056ce8db2db23187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 03/21] fix: GetPublicKeyHash panicked or returned data for
 scripts that are not P2PKH

---
 script/Script.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index da0911a..bbcb7df 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -291,14 +291,9 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if !s.IsP2PKH() {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-	parts, err := DecodeParts((*s)[2:])
-	if err != nil {
-		return nil, err
-	}
-
-	return parts[0], nil
+	return (*s)[3:23], nil
 }
-- 
2.43.0


From 4b5b8ccc67f832894ce2a21eae15f5396dc50d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 04/21] fix: NewP2PKHFromPubKeyHashStr built malformed scripts
 from hashes that are not 20 bytes

---
 script/Script.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index bbcb7df..5337016 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -85,6 +85,10 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 		return nil, err
 	}
 
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
+	}
+
 	b := []byte{
 		OpDUP,
 		OpHASH160,
-- 
2.43.0


From 73e98fa7b63cec05ee7d2450ea5eec1289597704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 05/21] fix: parsing truncated or hostile transactions panicked

DecodeVarInt indexed past the end of short input, and script lengths of 2^63
and above wrapped to negative ints that passed the length checks.
---
 transaction/Transaction.go   |  6 ++++++
 transaction/input/Input.go   | 10 +++++++---
 transaction/output/Output.go |  9 ++++++---
 utils/VarInt.go              |  8 ++++++++
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..0a4e31b 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to contain the input count")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to contain the output count")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..dde3263 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -56,14 +56,18 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 	offset := 36
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script length")
+	}
 	offset += size
 
-	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
-
-	if len(bytes) < totalLength {
+	// 4 bytes for nSeq
+	if len(bytes) < offset+4 || l > uint64(len(bytes)-offset-4) {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
+	totalLength := offset + int(l) + 4
+
 	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..2fa1c30 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -39,14 +39,17 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	offset := 8
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script length")
+	}
 	offset += size
 
-	totalLength := offset + int(l)
-
-	if len(bytes) < totalLength {
+	if l > uint64(len(bytes)-offset) {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
+	totalLength := offset + int(l)
+
 	s := script.Script(bytes[offset:totalLength])
 	o.LockingScript = &s
 
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..1d0de09 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -27,8 +27,16 @@ func VarInt(i uint64) []byte {
 
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
+// If the bytes are empty or the VarInt is truncated, the size is 0.
 // See http://learnmeabitcoin.com/glossary/varint
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 ||
+		(b[0] == 0xff && len(b) < 9) ||
+		(b[0] == 0xfe && len(b) < 5) ||
+		(b[0] == 0xfd && len(b) < 3) {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
 		result = binary.LittleEndian.Uint64(b[1:9])
-- 
2.43.0


From 892035d25a2969105cd05a98b4236c48806a551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 06/21] fix: scripts of a parsed transaction shared the parse
 buffer

Appending to one parsed script overwrote the scripts following it.
---
 transaction/input/Input.go   | 3 ++-
 transaction/output/Output.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index dde3263..c06360a 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -68,7 +68,8 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 	totalLength := offset + int(l) + 4
 
-	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	// copy, so that the script does not share memory with the buffer
+	i.UnlockingScript = script.NewFromBytes(append([]byte{}, bytes[offset:offset+int(l)]...))
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 2fa1c30..4a3771f 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -50,7 +50,8 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	totalLength := offset + int(l)
 
-	s := script.Script(bytes[offset:totalLength])
+	// copy, so that the script does not share memory with the buffer
+	s := script.Script(append([]byte{}, bytes[offset:totalLength]...))
 	o.LockingScript = &s
 
 	return &o, totalLength, nil
-- 
2.43.0


From cbf3e992994e57958581789eb66f776e813a54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/21] fix: BuildMerkleRootFromCoinbase overwrote memory
 behind the coinbase hash

---
 block/BuildMerkleRootFromCoinbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..891674e 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -13,7 +13,8 @@ func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) [
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-		concat := append(acc, branch...)
+		concat := append([]byte{}, acc...)
+		concat = append(concat, branch...)
 		hash := crypto.Sha256d(concat)
 		acc = hash[:]
 	}
-- 
2.43.0


From 39994b673ea8b23b68f71e92eee032d58b698985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 08/21] fix: ToBytesWithClearedInputs dropped the outpoint and
 sequence of the indexed input

---
 transaction/Transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 0a4e31b..cacfedf 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -245,8 +245,11 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	for i, in := range bt.GetInputs() {
 		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
+			// s is the outpoint, an empty script and the 4 byte sequence number
+			h = append(h, s[:len(s)-5]...)
 			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
 			h = append(h, scriptPubKey...)
+			h = append(h, s[len(s)-4:]...)
 		} else {
 			h = append(h, s...)
 		}
-- 
2.43.0


From 2c82bea777466b1b943192f3fcd2953d65be871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 09/21] fix: NewFromString accepted addresses with a wrong
 checksum

---
 script/address/Address.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..811ac1e 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -40,9 +41,12 @@ func addressToPubKeyHashStr(address string) (string, error) {
 
 	switch decoded[0] {
 	case 0x00: // Pubkey hash (P2PKH address)
-		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
-
+		fallthrough
 	case 0x6f: // Testnet pubkey hash (P2PKH address)
+		cksum := checksum(decoded[:len(decoded)-4])
+		if !bytes.Equal(decoded[len(decoded)-4:], cksum[:]) {
+			return "", fmt.Errorf("invalid checksum for '%s'", address)
+		}
 		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
 
 	case 0x05: // Script hash (P2SH address)
-- 
2.43.0


From aea7f5814e9c1584f4b3c4b1fea399fd4d7ab1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 10/21] fix: ValidateAddress accepted addresses with missing or
 extra leading 1s

---
 script/address/AddressValidation.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..eaaf6ad 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -69,6 +69,17 @@ func validA58(a58 []byte) (bool, error) {
 	if err := a.set58(a58); err != nil {
 		return false, err
 	}
+	// every leading '1' encodes exactly one leading zero byte
+	for i := 0; i < len(a58) || i < len(a); i++ {
+		one := i < len(a58) && a58[i] == tmpl[0]
+		zero := i < len(a) && a[i] == 0
+		if one != zero {
+			return false, errors.New("bad length")
+		}
+		if !one {
+			break
+		}
+	}
 	if a[0] != 0 && a[0] != 0x6f {
 		return false, errors.New("not version 0 or 6f")
 	}
-- 
2.43.0


From 44ecae96dde8b4f5d2708aa1298b3c38bcc8ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 11/21] fix: DecodeBIP276 could not decode what EncodeBIP276
 produced and panicked on other text

Network and version were read in the opposite order and in decimal, empty data
was refused, and text of another format indexed a nil match.
---
 script/address/BIP276.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..85a0e44 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -34,7 +34,7 @@ const NetworkTestnet = 2
 // EncodeBIP276 is used to encode specific (non-standard) scripts in BIP276 format.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func EncodeBIP276(prefix string, network int, version int, data []byte) string {
-	if version == 0 || version > 255 || network == 0 || network > 255 {
+	if version < 1 || version > 255 || network < 1 || network > 255 {
 		return "ERROR"
 	}
 
@@ -53,19 +53,27 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
 
+	if res == nil {
+		err = errors.New("Invalid format")
+		return
+	}
+
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	var n, v uint64
+	if n, err = strconv.ParseUint(res[2], 16, 8); err != nil {
 		return
 	}
+	network = int(n)
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	if v, err = strconv.ParseUint(res[3], 16, 8); err != nil {
 		return
 	}
+	version = int(v)
 
 	if data, err = hex.DecodeString(res[4]); err != nil {
 		return
-- 
2.43.0


From c8eefd787a9fc14041716d19cebf14fc1111e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/21] fix: Decrypt destroyed the ciphertext it was given

---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 62c2ae61ec3188245c5ac251381d5fa5500d3e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 13/21] fix: malformed or out of range compact bits panicked

---
 block/Difficulty.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..99ed5a4 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if bn.Sign() < 0 || len(b) > len(dst) {
+		return "", fmt.Errorf("bits %s are negative or exceed 256 bits", bits)
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, fmt.Errorf("bits must be 4 bytes long, got %d", len(binaryBits))
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
@@ -97,7 +104,13 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
+	b, err := hex.DecodeString(bits)
+	if err != nil {
+		return 0.0, err
+	}
+	if len(b) != 4 {
+		return 0.0, fmt.Errorf("bits must be 4 bytes long, got %d", len(b))
+	}
 	ib := binary.BigEndian.Uint32(b)
 	return targetToDifficulty(toCompactSize(ib))
 }
-- 
2.43.0


From e7f485bc1774f3999404cfea83d79d5e1abcfa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 14/21] fix: NewRedeemScriptFromElectrum panicked on malformed
 redeem scripts

---
 script/RedeemScript.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..ab6af70 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -43,10 +43,16 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
+	if len(parts) < 3 {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
 
+	for _, part := range parts {
+		if len(part) == 0 {
+			return nil, errors.New("Empty part in redeemScript")
+		}
+	}
+
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
 		return nil, errors.New("Must have 2 or more required signatures for multisig")
@@ -71,6 +77,10 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 			return nil, errors.New("All Electrum pubkeys should start with 0xff")
 		}
 
+		if len(pubkey) != 1+78+4 {
+			return nil, errors.New("Electrum pubkeys should be an extended key and a derivation path of 2 items")
+		}
+
 		pubkey = pubkey[1:]
 		xpub := address.Base58EncodeMissingChecksum(pubkey[0:78])
 
-- 
2.43.0


From 6142a620c7c33646e1c24fcc61693f1e6bd20ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 15/21] fix: Decode32Byte panicked on fewer than 32 bytes

---
 utils/ByteManipulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..af10477 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,10 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) < 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
+
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From 32b7376a5509ff05227fcd741822f11150fae9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 16/21] fix: signing or unlocking an input index out of range
 panicked

---
 transaction/SignatureHash.go | 4 ++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..251cec1 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,9 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) || bt.Inputs[inputNumber] == nil {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index cacfedf..1418f54 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -297,7 +297,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From c28eb4aaf3d2fdb3bc4b1fdba3a00b0ce5e4c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 17/21] fix: SignAuto reported success when a matching input
 could not be signed

---
 transaction/signature/InternalSigner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index a83e38a..7a13083 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -63,7 +63,9 @@ func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transa
 
 		// check if able to sign (public key matches pubKeyHash in script)
 		if pubKeyHashStr == pubKeyHashStrFromPriv {
-			is.Sign(uint32(i), unsignedTx)
+			if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From a1dca228f198a2ade018adf412ecf98f978ca3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 18/21] fix: IsCoinbase accepted a null previous id with an
 ordinary output index

---
 transaction/Transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 1418f54..0318442 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -185,7 +185,7 @@ func (bt *Transaction) IsCoinbase() bool {
 		return false
 	}
 
-	if bt.Inputs[0].PreviousTxOutIndex == 0xFFFFFFFF || bt.Inputs[0].SequenceNumber == 0xFFFFFFFF {
+	if bt.Inputs[0].PreviousTxOutIndex == 0xFFFFFFFF {
 		return true
 	}
 
-- 
2.43.0


From 3bd178a4781d7365eddc1dc9b3397b7e2c8478fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 19/21] fix: NewFromASM of the empty text gave a one-byte
 script

---
 script/Script.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 5337016..7895a0c 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -34,6 +34,11 @@ func NewFromASM(str string) (*Script, error) {
 
 	s := &Script{}
 
+	// the text form of the empty script has no words
+	if str == "" {
+		return s, nil
+	}
+
 	for _, section := range sections {
 		if val, ok := opCodeStrings[section]; ok {
 			s.AppendOpCode(val)
-- 
2.43.0


From c8736fc88b22bee59a1914c0920788be7cc2cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:36 +0000
Subject: [PATCH 20/21] fix: DifficultyFromBits ignores the shift of compact
 exponents below three

big.Int.Exp returns 1 for a negative exponent, so the mantissa was used
unshifted and the reported difficulty was up to 2^24 times too small.
---
 block/Difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 99ed5a4..58aa175 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -117,6 +117,9 @@ func DifficultyFromBits(bits string) (float64, error) {
 
 func toCompactSize(bits uint32) *big.Int {
 	t := big.NewInt(int64(bits % 0x01000000))
+	if exponent := uint(bits / 0x01000000); exponent < 3 {
+		return t.Rsh(t, 8*(3-exponent))
+	}
 	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
 
 	return t
-- 
2.43.0


From 651bef8bea6c02f8e4e7a77ce7c60c9774a6697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 21/21] fix: printing an input without unlocking script
 panicked

---
 transaction/input/Input.go   | 9 +++++++--
 transaction/output/Output.go | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index c06360a..0ce77e7 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -95,12 +95,17 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
-	return fmt.Sprintf(`prevTxHash:   %x
+	var us script.Script
+	if i.UnlockingScript != nil {
+		us = *i.UnlockingScript
+	}
+
+	return fmt.Sprintf(`prevTxHash:   %s
 prevOutIndex: %d
 scriptLen:    %d
 script:       %x
 sequence:     %x
-`, i.PreviousTxID, i.PreviousTxOutIndex, len(*i.UnlockingScript), i.UnlockingScript, i.SequenceNumber)
+`, i.PreviousTxID, i.PreviousTxOutIndex, len(us), us, i.SequenceNumber)
 }
 
 // ToBytes encodes the Input into a hex byte array.
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 4a3771f..9f022ee 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -158,10 +158,15 @@ func (o *Output) GetLockingScriptHexString() string {
 }
 
 func (o *Output) String() string {
+	var ls script.Script
+	if o.LockingScript != nil {
+		ls = *o.LockingScript
+	}
+
 	return fmt.Sprintf(`value:     %d
 scriptLen: %d
 script:    %x
-`, o.Satoshis, len(*o.LockingScript), o.LockingScript)
+`, o.Satoshis, len(ls), ls)
 }
 
 // ToBytes encodes the Output into a byte array.
-- 
2.43.0

