From beef731a1e715eba57c2204772eea19977728012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 01/19] fix: truncate derived AES keys to the requested key
 length

AES-192 keys need one and a half cipher blocks; derivationKey returned two
full blocks, so a 192-bit BDK produced a 256-bit initial key (and 256-bit
working keys).
---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..2d9c53d 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -138,7 +138,8 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
-	return derivedKey, nil
+	// the derived key is the leftmost bits of the last block (AES-192 uses half of it)
+	return derivedKey[:derivedKeyLen], nil
 }
 
 // Create key derivation data
-- 
2.43.0


From 9eccd35dc69c7724d103e10f99baba4e7310da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 02/19] fix: report AES transaction counter exhaustion at
 0xFFFF0000

The last valid counter was advanced to 0xFFFF0001, which has 17 one bits,
instead of being reported as exhausted.
---
 pkg/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..49b02b0 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -52,7 +52,7 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
-	if tc > tcMax {
+	if tc >= tcMax {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
-- 
2.43.0


From cf90e76b4653b7c257cad0371867446f93f9f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 03/19] fix: advance KSNs without overwriting the caller's KSN

GenerateNextAesKsn and GenerateNextDesKsn wrote the next counter into the
slice they were given, so a caller keeping the KSN of the current
transaction silently lost it.
---
 pkg/util.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/util.go b/pkg/util.go
index 49b02b0..fe75e05 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -76,7 +76,8 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-	result := append(ksn[:8], tcMsb...)
+	// the capped slice makes append copy: the caller's KSN stays as it was
+	result := append(ksn[:8:8], tcMsb...)
 	return result, nil
 }
 
@@ -121,15 +122,16 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
+	result := append([]byte(nil), ksn...)
 	{
-		length := len(ksn)
-		ksn[length-1] = byte(tc)
-		ksn[length-2] = byte(tc >> 8)
-		ksn[length-3] &= 0xE0
-		ksn[length-3] |= byte(tc >> 16)
+		length := len(result)
+		result[length-1] = byte(tc)
+		result[length-2] = byte(tc >> 8)
+		result[length-3] &= 0xE0
+		result[length-3] |= byte(tc >> 16)
 	}
 
-	return ksn, nil
+	return result, nil
 }
 
 func IsValidAesKsn(ksn []byte) bool {
-- 
2.43.0


From 0653b5a45fcbe5e35004a179d11083876fd7d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 04/19] fix: reject key serial numbers of impossible length
 when advancing

Short KSNs made GenerateNextAesKsn and GenerateNextDesKsn panic; KSNs of
other lengths were advanced in bytes that key derivation does not read, so
every transaction would have used the same key.
---
 pkg/util.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index fe75e05..e6067c3 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 )
 
 const (
@@ -13,6 +14,14 @@ const (
 	MaxTypeHmac  = "hmac"
 )
 
+const (
+	aesKsnLen = 12
+
+	// TDES key serial numbers shorter than 10 bytes are padded with leading FF bytes
+	desKsnMinLen = 4
+	desKsnMaxLen = 10
+)
+
 func HexDecode(data string) []byte {
 	if len(data) == 0 {
 		return nil
@@ -49,6 +58,10 @@ func GetAesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) != aesKsnLen {
+		return nil, fmt.Errorf("key serial number length must be %d bytes", aesKsnLen)
+	}
+
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
@@ -93,6 +106,10 @@ func GetDesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) < desKsnMinLen || len(ksn) > desKsnMaxLen {
+		return nil, fmt.Errorf("key serial number length must be %d to %d bytes", desKsnMinLen, desKsnMaxLen)
+	}
+
 	var tcMax uint32 = 0x1FF800
 	tc := GetDesTcFromKsn(ksn)
 
-- 
2.43.0


From c0530054fc6dcfcd72a13b63d7f1a39ce434d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 05/19] fix: do not write working counters into the caller's
 AES KSN

createDerivationData appended to a sub-slice of the KSN and so overwrote
the KSN's counter bytes while deriving: concurrent calls sharing a KSN
derived wrong keys, and longer slices were corrupted.
---
 pkg/aes/aes_internal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 2d9c53d..8e901d5 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -188,7 +188,9 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	default:
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		data.InitialKeyID = make([]byte, 0, derivationIdLength+transactionCounterLength)
+		data.InitialKeyID = append(data.InitialKeyID, initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength]...)
+		data.InitialKeyID = append(data.InitialKeyID, tcBuf...)
 	}
 
 	return &data, nil
-- 
2.43.0


From 48794f4c12176e2dee51a1db47e71ce1ea630bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 06/19] fix: reject AES key serial numbers of wrong length

Every AES function sliced the KSN unchecked and panicked on short ones;
KSNs of other lengths took their counter from the wrong bytes.
---
 pkg/aes/aes.go          | 10 +++++++++-
 pkg/aes/aes_internal.go | 13 +++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..43d7f98 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -45,7 +45,11 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
+	if len(ksn) < initialKeyIdLength {
+		return nil, fmt.Errorf("initial key id length must be %d bytes", initialKeyIdLength)
+	}
+
+	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:initialKeyIdLength], 0)
 	if err != nil {
 		return nil, err
 	}
@@ -71,6 +75,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if err := checkKeySerialNumber(ksn); err != nil {
+		return nil, err
+	}
+
 	transactionKey := make([]byte, len(ik))
 	copy(transactionKey, ik)
 
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 8e901d5..2b5e9e1 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/moov-io/dukpt/encryption"
 	"github.com/moov-io/dukpt/pkg"
@@ -14,6 +15,7 @@ const (
 	derivationIdLength       = 4
 	initialKeyIdLength       = derivationKeyIdLength + derivationIdLength
 	transactionCounterLength = 4
+	keySerialNumberLength    = initialKeyIdLength + transactionCounterLength
 )
 
 // Key types and bits for AES
@@ -250,7 +252,18 @@ func checkWorkingKeyLength(keyLen int, keyType string) error {
 	return nil
 }
 
+func checkKeySerialNumber(ksn []byte) error {
+	if len(ksn) != keySerialNumberLength {
+		return fmt.Errorf("key serial number length must be %d bytes", keySerialNumberLength)
+	}
+	return nil
+}
+
 func generateDerivationKey(params derivationParams) ([]byte, error) {
+	if err := checkKeySerialNumber(params.Ksn); err != nil {
+		return nil, err
+	}
+
 	tc := pkg.GetAesTcFromKsn(params.Ksn)
 	derivationData, err := createDerivationData(params.KeyUsage, params.KeyType, params.Ksn, tc)
 	if err != nil {
-- 
2.43.0


From 7b0c3d4db59d94816e7d98aedb9170e4d6eb9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 07/19] fix: treat initial vectors of any length alike when
 encrypting and decrypting

---
 pkg/aes/aes.go          | 23 ++---------------------
 pkg/aes/aes_internal.go |  8 ++++++++
 pkg/des/des.go          | 21 ++-------------------
 pkg/des/des_internal.go |  8 ++++++++
 4 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 43d7f98..06ff806 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -330,14 +330,6 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	}
-
 	repeatCnt := len(plaintext) / aes.BlockSize
 	if len(plaintext)%aes.BlockSize > 0 {
 		repeatCnt++
@@ -352,7 +344,7 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCEncrypter(block, iv)
+	mode := cipher.NewCBCEncrypter(block, serializeInitialVector(iv))
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -398,17 +390,6 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	} else if len(iv) > aes.BlockSize {
-		iv = iv[:aes.BlockSize]
-	}
-
 	repeatCnt := len(ciphertext) / aes.BlockSize
 	if len(ciphertext)%aes.BlockSize > 0 {
 		repeatCnt++
@@ -423,7 +404,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCDecrypter(block, iv)
+	mode := cipher.NewCBCDecrypter(block, serializeInitialVector(iv))
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 2b5e9e1..bf9edef 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -277,3 +277,11 @@ func generateDerivationKey(params derivationParams) ([]byte, error) {
 
 	return newKey, nil
 }
+
+// Initial vector of one block: zero by default, extended with zero bytes if short, cut if long
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, aes.BlockSize)
+	copy(ivBytes, iv)
+
+	return ivBytes
+}
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..46973e8 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -311,15 +311,7 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 	ciphertext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
-	}
-
-	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), serializeInitialVector(iv))
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -382,16 +374,7 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 	plaintext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-
-	if len(iv) > desBlockLen {
-		iv = iv[:desBlockLen]
-	}
-
-	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), serializeInitialVector(iv))
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..64a97dc 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -28,6 +28,14 @@ func serializeKeySerialNumber(ksn []byte) []byte {
 	return ksnBytes
 }
 
+// Initial vector of one block: zero by default, extended with zero bytes if short, cut if long
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, desBlockLen)
+	copy(ivBytes, iv)
+
+	return ivBytes
+}
+
 // Extract transaction counter value from KSN. The transaction counter is the last 21 bits of the KSN.
 func removeTransactionCounter(ksn []byte) {
 	if len(ksn) != keySerialLen {
-- 
2.43.0


From 218eab4d4cf9b5e8edc105abc4230dcca16ab0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 08/19] fix: reject TDES keys of wrong length instead of
 padding or cutting them

---
 pkg/des/des.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 46973e8..f7d169d 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -66,6 +66,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ik) != keyLen {
+		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
@@ -195,6 +199,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -270,6 +278,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -334,6 +346,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if len(currentKey) != keyLen {
+		return "", fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
-- 
2.43.0


From da29e998eebaf5fce99021545338adc47933ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 09/19] fix: reject TDES key serial numbers longer than 10
 bytes

---
 pkg/des/des.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index f7d169d..e0139a2 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -31,6 +31,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
 	}
 
+	if len(ksn) > keySerialLen {
+		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
+	}
+
 	ksnBytes := serializeKeySerialNumber(ksn)
 	removeTransactionCounter(ksnBytes)
 
@@ -69,6 +73,9 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 	if len(ik) != keyLen {
 		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
 	}
+	if len(ksn) > keySerialLen {
+		return nil, fmt.Errorf("key serial number length must be at most %d bytes", keySerialLen)
+	}
 
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
-- 
2.43.0


From 21964fc4e8f6804360bb197fba4486c8f21d2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 10/19] fix: decode PIN blocks in upper case hex so that VISA3
 blocks decrypt

---
 pkg/des/des.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index e0139a2..e97d112 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -183,7 +183,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
+	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 69e8388a645f85044fc5c8f50d35ae1d628dd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 11/19] fix: decrypt PINs of 10 to 12 digits in ISO-0 like
 formats instead of crashing

---
 pkg/des/des.go          |  2 +-
 pkg/des/des_internal.go | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index e97d112..24b3ee2 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -183,7 +183,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
+	pinstr, err := decodePinblock(formatter, strings.ToUpper(format), pinBlock, pan)
 	if err != nil {
 		return "", err
 	}
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index 64a97dc..f6b8d21 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -4,7 +4,11 @@ import (
 	"bytes"
 	"crypto/des" //nolint:gosec
 	"fmt"
+	"strings"
+
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/dukpt/pkg"
+	"github.com/moov-io/pinblock/formats"
 )
 
 const (
@@ -147,3 +151,38 @@ func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 
 	return cipher.Decrypt(ciphertext)
 }
+
+// Extract PIN from clear PIN block
+//
+// The PIN length in the blocks of ISO-0 and its variants is a hex digit (up to C), but their formatters can only
+// read decimal digits. A longer PIN is therefore checked as if it had 9 digits and extracted here.
+func decodePinblock(formatter formats.Format, format string, pinblock []byte, pan string) (string, error) {
+	pinLen := int(pinblock[0] & 0x0F)
+
+	switch format {
+	case "ISO-0", "ISO-3", "ANSI", "ECI1", "VISA1", "VISA4":
+		if pinLen > 12 {
+			return "", fmt.Errorf("pin length must be between 4 and 12 digits")
+		}
+	default:
+		return formatter.Decode(strings.ToUpper(pkg.HexEncode(pinblock)), pan)
+	}
+
+	if pinLen <= 9 {
+		return formatter.Decode(strings.ToUpper(pkg.HexEncode(pinblock)), pan)
+	}
+
+	shortened := append([]byte{}, pinblock...)
+	shortened[0] = shortened[0]&0xF0 | 0x09
+	if _, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(shortened)), pan); err != nil {
+		return "", err
+	}
+
+	// the 12 rightmost PAN digits excluding the check digit
+	block := pkg.HexDecode("0000" + pan[len(pan)-13:len(pan)-1])
+	for i := range block {
+		block[i] ^= pinblock[i]
+	}
+
+	return pkg.HexEncode(block)[2 : 2+pinLen], nil
+}
-- 
2.43.0


From 592f869361d7b3a9459d4aa855eb0e44255661bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 12/19] fix: decrypt on the decrypt_pin and decrypt_data routes

---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From 3e810e2190e39c422d7674ff955a6057c2329791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 13/19] fix: answer failed HTTP requests with an error status
 and message

---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 pkg/server/routing.go  |  6 +++---
 pkg/server/service.go  | 12 ++++++------
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 92eba46..777a868 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -252,10 +252,10 @@ func codeFrom(err error) int {
 		return http.StatusBadRequest
 	}
 
-	switch err {
-	case ErrNotFound:
+	switch {
+	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
-	case ErrAlreadyExists:
+	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..6964557 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -94,7 +94,7 @@ func (s *service) GetMachines() []*Machine {
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	var nextKsn []byte
@@ -134,7 +134,7 @@ func (s *service) DeleteMachine(ik string) error {
 func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -158,7 +158,7 @@ func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -182,7 +182,7 @@ func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error)
 func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -215,7 +215,7 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -235,7 +235,7 @@ func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 func (s *service) DecryptData(ik, ciphertext, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
-- 
2.43.0


From f2c64cc5895cd8b27ba959883321399beb2d3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 14/19] fix: serialize updates of stored machines and hand out
 copies of them

---
 pkg/server/service.go | 53 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 6964557..f8c07c5 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
@@ -30,6 +31,10 @@ type Service interface {
 // service a concrete implementation of the service.
 type service struct {
 	store Repository
+
+	// mtx guards the fields of the stored machines, which are shared with the store.
+	// Machines given to and returned from the service are copies.
+	mtx sync.RWMutex
 }
 
 // NewService creates a new concrete service
@@ -70,7 +75,12 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	stored := *m
+
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
 
@@ -79,22 +89,38 @@ func (s *service) CreateMachine(m *Machine) error {
 
 // GetMachine returns a machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+	found := *f
+	return &found, nil
 }
 
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
+	stored := s.store.FindAllMachines()
+	machines := make([]*Machine, 0, len(stored))
+	for i := range stored {
+		found := *stored[i]
+		machines = append(machines, &found)
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	m, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", ErrNotFound, ik)
 	}
 
 	var nextKsn []byte
@@ -110,24 +136,29 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		}
 	}
 
-	// update machine
-	m.CurrentKSN = pkg.HexEncode(nextKsn)
-
 	params := UnifiedParams{
 		Algorithm:    m.Algorithm,
 		AlgorithmKey: m.AlgorithmKey,
-		KSN:          m.CurrentKSN,
+		KSN:          pkg.HexEncode(nextKsn),
 		IK:           ik,
 	}
-	m.TransactionKey, err = TransactionKey(params)
+	transactionKey, err := TransactionKey(params)
 	if err != nil {
 		return nil, err
 	}
 
-	return m, err
+	// update machine
+	m.CurrentKSN = params.KSN
+	m.TransactionKey = transactionKey
+
+	updated := *m
+	return &updated, nil
 }
 
 func (s *service) DeleteMachine(ik string) error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.store.DeleteMachine(ik)
 }
 
-- 
2.43.0


From 25fd20187653c2d0d198e9e9ff1cb98b8091ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 15/19] fix: derive the transaction key of a created machine
 for its current KSN

---
 pkg/server/service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index f8c07c5..328ef80 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -69,7 +69,11 @@ func (s *service) CreateMachine(m *Machine) error {
 	m.InitialKey = ik
 
 	// getting transaction key
+	if m.CurrentKSN == "" {
+		m.CurrentKSN = m.KeySerialNumber
+	}
 	params.IK = ik
+	params.KSN = m.CurrentKSN
 	m.TransactionKey, err = TransactionKey(params)
 	if err != nil {
 		return err
-- 
2.43.0


From f84d08a226d4b62451d94dd8685e3bd337b9c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 16/19] fix: accept the documented lower case AES key types on
 the command line

---
 cmd/dukptcli/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..99a793b 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
-- 
2.43.0


From a2887b33aec5bab86fd61bdafdcc2abc8a550e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 17/19] fix: generate HMACs in the unified call and the command
 line for AES key types

---
 pkg/server/service.go | 14 --------------
 pkg/server/wrapper.go |  9 +++++++++
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 328ef80..d67d6d8 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -6,7 +6,6 @@ import (
 	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
-	"github.com/moov-io/dukpt/pkg/aes"
 )
 
 var (
@@ -231,19 +230,6 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 		MacType:      macType,
 	}
 
-	// workaround for hmac
-	if macType == pkg.MaxTypeHmac && m.Algorithm == pkg.AlgorithmAes {
-		if m.AlgorithmKey == aes.KeyAES128Type {
-			params.AlgorithmKey = aes.KeyHMAC128Type
-		}
-		if m.AlgorithmKey == aes.KeyAES192Type {
-			params.AlgorithmKey = aes.KeyHMAC192Type
-		}
-		if m.AlgorithmKey == aes.KeyAES256Type {
-			params.AlgorithmKey = aes.KeyHMAC256Type
-		}
-	}
-
 	return GenerateMac(params)
 }
 
diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 0039e42..77692d3 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -109,6 +109,15 @@ func GenerateMac(params UnifiedParams) (string, error) {
 		if params.MacType == pkg.MaxTypeCmac {
 			buf, err = aes.GenerateCMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		} else {
+			// workaround for hmac
+			switch params.AlgorithmKey {
+			case aes.KeyAES128Type:
+				params.AlgorithmKey = aes.KeyHMAC128Type
+			case aes.KeyAES192Type:
+				params.AlgorithmKey = aes.KeyHMAC192Type
+			case aes.KeyAES256Type:
+				params.AlgorithmKey = aes.KeyHMAC256Type
+			}
 			buf, err = aes.GenerateHMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		}
 	} else {
-- 
2.43.0


From 87125df9f06e852e3581fadae56685ffe41694b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 18/19] fix: reject malformed hex parameters in the unified
 calls

---
 pkg/server/wrapper.go | 59 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 77692d3..a70b48f 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -1,7 +1,10 @@
 package server
 
 import (
+	"encoding/hex"
 	"errors"
+	"fmt"
+
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
 	"github.com/moov-io/dukpt/pkg/des"
@@ -31,6 +34,16 @@ func (p UnifiedParams) ValidateAlgorithm() error {
 	return nil
 }
 
+// validateHex checks hex encoded params, as pkg.HexDecode makes nothing of malformed ones
+func validateHex(values ...string) error {
+	for _, value := range values {
+		if _, err := hex.DecodeString(value); err != nil {
+			return fmt.Errorf("malformed hex parameter: %w", err)
+		}
+	}
+	return nil
+}
+
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
@@ -38,9 +51,14 @@ func InitialKey(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.BKD, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
-
 	} else {
+		if err = validateHex(params.BKD, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = des.DerivationOfInitialKey(pkg.HexDecode(params.BKD), pkg.HexDecode(params.KSN))
 	}
 
@@ -55,8 +73,14 @@ func TransactionKey(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.IK, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DeriveCurrentTransactionKey(pkg.HexDecode(params.IK), pkg.HexDecode(params.KSN))
 	} else {
+		if err = validateHex(params.IK, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = des.DeriveCurrentTransactionKey(pkg.HexDecode(params.IK), pkg.HexDecode(params.KSN))
 	}
 
@@ -71,8 +95,14 @@ func EncryptPin(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN); err != nil {
+			return "", err
+		}
 		buf, err = aes.EncryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.PIN, params.PAN, params.AlgorithmKey)
 	} else {
+		if err = validateHex(params.TK); err != nil {
+			return "", err
+		}
 		buf, err = des.EncryptPin(pkg.HexDecode(params.TK), params.PIN, params.PAN, params.Format)
 	}
 
@@ -87,8 +117,14 @@ func DecryptPin(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN, params.PIN); err != nil {
+			return "", err
+		}
 		buf, err = aes.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.PIN), params.PAN, params.AlgorithmKey)
 	} else {
+		if err = validateHex(params.TK, params.PIN); err != nil {
+			return "", err
+		}
 		buf, err = des.DecryptPin(pkg.HexDecode(params.TK), pkg.HexDecode(params.PIN), params.PAN, params.Format)
 	}
 
@@ -107,6 +143,9 @@ func GenerateMac(params UnifiedParams) (string, error) {
 			return "", errors.New("invalid mac type")
 		}
 		if params.MacType == pkg.MaxTypeCmac {
+			if err = validateHex(params.TK, params.KSN); err != nil {
+				return "", err
+			}
 			buf, err = aes.GenerateCMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		} else {
 			// workaround for hmac
@@ -118,9 +157,15 @@ func GenerateMac(params UnifiedParams) (string, error) {
 			case aes.KeyAES256Type:
 				params.AlgorithmKey = aes.KeyHMAC256Type
 			}
+			if err = validateHex(params.TK, params.KSN); err != nil {
+				return "", err
+			}
 			buf, err = aes.GenerateHMAC(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), params.Plaintext, params.AlgorithmKey, params.Action)
 		}
 	} else {
+		if err = validateHex(params.TK); err != nil {
+			return "", err
+		}
 		buf, err = des.GenerateMac(pkg.HexDecode(params.TK), params.Plaintext, params.Action)
 	}
 
@@ -135,8 +180,14 @@ func EncryptData(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = aes.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.IV), params.Plaintext, params.AlgorithmKey, params.Action)
 	} else {
+		if err = validateHex(params.TK, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)
 	}
 
@@ -151,8 +202,14 @@ func DecryptData(params UnifiedParams) (string, error) {
 	var err error
 
 	if params.Algorithm == pkg.AlgorithmAes {
+		if err = validateHex(params.TK, params.KSN, params.Ciphertext, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = aes.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.AlgorithmKey, params.Action)
 	} else {
+		if err = validateHex(params.TK, params.Ciphertext, params.IV); err != nil {
+			return "", err
+		}
 		buf, err = des.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.Action)
 	}
 
-- 
2.43.0


From 9f2009ce634ab7faed160bdaa0c609f82242fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 19/19] fix: answer 404 for an unknown machine whatever its
 name

---
 pkg/server/routing.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 777a868..bce24ae 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -242,17 +242,13 @@ func codeFrom(err error) int {
 		return http.StatusOK
 	}
 
-	errString := fmt.Sprintf("%#v", err)
-	if el, ok := err.(base.ErrorList); ok {
-		errString = el.Error()
-	}
-	switch {
-	case
-		strings.Contains(errString, errInvalidMachine.Error()):
+	if el, ok := err.(base.ErrorList); ok && strings.Contains(el.Error(), errInvalidMachine.Error()) {
 		return http.StatusBadRequest
 	}
 
 	switch {
+	case errors.Is(err, errInvalidMachine):
+		return http.StatusBadRequest
 	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
 	case errors.Is(err, ErrAlreadyExists):
-- 
2.43.0

