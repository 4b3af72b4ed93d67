From 8a9c71a59c4922ab02fcaa04457d59f4743cc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 01/32] fix: reject vouchers whose header has no device
 certificate chain hash

---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From e6f6019d41c4dc39692701b90fe451fadd4c834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 02/32] fix: reject GetOVNextEntry requests when the voucher
 has no entries

---
 core/do/to2/listener-to2-62-GetOVNextEntry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index ffb8e71..4efdd6d 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -61,7 +61,7 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if getOVNextEntry.GetOVNextEntry > session.NumOVEntries-1 {
+	if getOVNextEntry.GetOVNextEntry >= session.NumOVEntries {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "GetOVNextEntry is out of bound!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
-- 
2.43.0


From c0d058b5de9c4a1a7d6288d2f86b9d9916d092fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 03/32] fix: use the specified key lengths for the AES-CCM-16
 cipher suites

---
 core/shared/enc.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..73b79ce 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From a4e5a45738a921052d7d31700a1a870ffabe4a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 04/32] fix: corrupt encrypted messages of the AES-CCM cipher
 suites too

---
 core/shared/conformance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index eb59242..30c8228 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -215,7 +215,7 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 			encryptedBytes = Conf_RandomCborBufferFuzzing(encryptedBytes)
 		}
 
-	case CIPHER_A128GCM, CIPHER_A256GCM:
+	case CIPHER_A128GCM, CIPHER_A256GCM, CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256:
 		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB)-1)]
 
 		encryptedBytes, err = encryptEMB(payload, sessionKeyInfo, cipherSuite)
-- 
2.43.0


From cc5751a68811a9812e278023377c8054a990963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 05/32] fix: encode ECDH coordinates and shared secret at fixed
 width

---
 core/shared/kex.crypto.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..40c84fb 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 32))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 32))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 48))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 48))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -305,7 +305,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 32)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -350,7 +350,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 48)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0


From 59cf5fbeb6799f747102fdc07bd3aad73b572746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 06/32] fix: reject ProveOVHdr without owner key or nonce

---
 core/device/to2/req-to2-60-HelloDevice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..ba42f4a 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -60,6 +60,10 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
+	if probableOwnerPubKey == nil || proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing owner public key or nonce")
+	}
+
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 9c6c92172bb76f7db9b6732cf3d429e5b7f1db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 07/32] fix: fail TO2 pre-setup on an unexpected voucher entry
 number

---
 testexec/do.to2.64.execute.go | 4 +++-
 testexec/do.to2.66.execute.go | 4 +++-
 testexec/do.to2.68.execute.go | 4 +++-
 testexec/do.to2.70.execute.go | 3 ++-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index f841de1..15bb374 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +34,7 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("server returned unexpected OVEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 76b9293..19f5827 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +34,7 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("server returned unexpected OVEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index def4810..f606995 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"fmt"
+
 	"log"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
@@ -34,7 +36,7 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("server returned unexpected OVEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 7ae34bc..dfd927c 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -2,6 +2,7 @@ package testexec
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -34,7 +35,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("server returned unexpected OVEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
-- 
2.43.0


From b2a737902707da4c1f44dbc9f2dd29c4a832c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 08/32] fix: answer an undecodable TO2 Done message only once

---
 core/do/to2/listener-to2-70-Done.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..2e84742 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -57,12 +57,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-		if testcomListener != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
-		}
-
-		log.Println("Done70: Error decoding request..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From c0bae9d41c905830dbb9002b562e9756b0db0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 09/32] fix: record device test failures under the protocol
 they occur in

---
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/do/to2/listener-to2-70-Done.go        | 6 +++---
 core/rv/listener-to1.go                    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..29deb00 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -71,7 +71,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	pkType, ok := fdoshared.SgTypeToFdoPkType[session.EASigInfo.SgType]
 	if !ok {
 		log.Println("ProveToRV32: Unknown signature type. ")
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 2e84742..949bb99 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -81,14 +81,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 
 	done271Bytes, err := fdoshared.AddEncryptionWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING {
 		done271Bytes, err = fdoshared.Conf_Fuzz_AddWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
 		}
 	}
@@ -98,7 +98,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		testcomListener.To2.CompleteTestRun()
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
 		}
 	}
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index e5d57bf..dda4739 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -209,7 +209,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if !bytes.Equal(pb.EatNonce[:], session.NonceTO1Proof[:]) {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To1)
 		return
 	}
 
-- 
2.43.0


From 0651f82efc50fcfcf0bb86e8773c92bdd3b8b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 10/32] fix: name the handled message in protocol errors

---
 core/do/to2/common.go                      | 4 ++--
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/rv/listener-to0.go                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..6ffe562 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -113,11 +113,11 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 }
 
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
-	if !fdoshared.CheckHeaders(w, r, fdoshared.TO2_64_PROVE_DEVICE) {
+	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
 
-	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, currentCmd)
 	if !headerIsOk {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error getting session header!")
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 29deb00..6fc0b71 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -24,7 +24,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, fdoshared.TO2_60_HELLO_DEVICE, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index f1987b1..4bf9d57 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -109,7 +109,7 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	/* ----- Process Body ----- */
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_20_HELLO, "Failed to read body!", http.StatusBadRequest)
+		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to read body!", http.StatusBadRequest)
 		return
 	}
 
-- 
2.43.0


From 57b8e7b81b9099df88b0b8256f9d8d3c65e84e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 11/32] fix: finish the TO1 test run on early failure

---
 testexec/rvt.to1.execute.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e235f8e..4d6c381 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -14,6 +14,7 @@ import (
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
 	reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid)
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -141,6 +142,4 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			reqtDB.ReportTest(reqte.Uuid, rv32test, *rvtTestState)
 		}
 	}
-
-	reqtDB.FinishRun(reqte.Uuid)
 }
-- 
2.43.0


From 3eb96118ac09d10e52aa129b4eeb5088cf6067f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:36 +0000
Subject: [PATCH 12/32] fix: unknown session id is reported as an error, not as
 a nil session

---
 core/do/dbs/session.db.go | 4 +++-
 core/rv/session.db.go     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..2902fec 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -1,7 +1,9 @@
 package dbs
 
 import (
+	"encoding/hex"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/dgraph-io/badger/v4"
@@ -131,7 +133,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, fmt.Errorf("The session entry with id %s does not exist", hex.EncodeToString(entryId))
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..ee4fa8e 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -1,7 +1,9 @@
 package rv
 
 import (
+	"encoding/hex"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/dgraph-io/badger/v4"
@@ -86,7 +88,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, fmt.Errorf("The session entry with id %s does not exist", hex.EncodeToString(entryId))
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From d5dfcf58bfe6a853a0a5fba998cafb31d6579224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 13/32] fix: ResetDB and ResetUsers delete every record in one
 transaction

---
 core/shared/testcom/dbs/listener.db.go | 26 +++++++++++++++-----------
 dbs/user.db.go                         | 18 ++++++++++--------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index f85ef2f..206ab02 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -169,24 +169,28 @@ func (h *ListenerTestDB) ResetDB() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.ValidForPrefix(h.prefix) || iterTxn.ValidForPrefix(h.mapperGuidPrefix); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+	// The mapping prefix starts with the entry prefix, so this covers both
+	var keys [][]byte
+	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+		Prefix: h.prefix,
+	})
+	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+		keys = append(keys, iterTxn.Item().KeyCopy(nil))
+	}
+	iterTxn.Close()
 
+	for _, k := range keys {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
 		err := dbtxn.Delete(k)
 		if err != nil {
-			log.Println("Error creating delete mapping... " + hex.EncodeToString(k))
-		}
-
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete mapping... " + hex.EncodeToString(k))
+			return errors.New("Failed to create delete req. " + err.Error())
 		}
+	}
 
+	err := dbtxn.Commit()
+	if err != nil {
+		return errors.New("Failed to commit delete req. " + err.Error())
 	}
 
 	return nil
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8bd1558..08b2ec0 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -80,25 +80,27 @@ func (h *UserTestDB) ResetUsers() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
+	var keys [][]byte
 	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
 		Prefix: h.prefix,
 	})
-	defer iterTxn.Close()
 	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+		keys = append(keys, iterTxn.Item().KeyCopy(nil))
+	}
+	iterTxn.Close()
 
+	for _, k := range keys {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
 		err := dbtxn.Delete(k)
 		if err != nil {
-			log.Println("Error creater delete req... " + hex.EncodeToString(k))
+			return errors.New("Failed to create delete req. The error is: " + err.Error())
 		}
+	}
 
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete req... " + hex.EncodeToString(k))
-		}
+	err := dbtxn.Commit()
+	if err != nil {
+		return errors.New("Failed to commit delete req. The error is: " + err.Error())
 	}
 
 	return nil
-- 
2.43.0


From 866d548dce4325489164c69f20a9b100741ba043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 14/32] fix: updating a session keeps it expiring

---
 core/do/dbs/session.db.go | 3 ++-
 core/rv/session.db.go     | 3 ++-
 dbs/session.db.go         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 2902fec..d983b95 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -112,7 +112,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10) // Set would store it without expiry
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index ee4fa8e..8b9e1ef 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -67,7 +67,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10) // Set would store it without expiry
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/dbs/session.db.go b/dbs/session.db.go
index 44a8f8f..c007841 100644
--- a/dbs/session.db.go
+++ b/dbs/session.db.go
@@ -79,7 +79,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(MAX_SESSION_TIME) // Set would store it without expiry
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From b664037dce0a21ccc247f859c0919e7d12bbf523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 15/32] fix: a failing random source fails session creation

---
 core/do/dbs/session.db.go | 6 +++++-
 core/rv/session.db.go     | 6 +++++-
 dbs/session.db.go         | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index d983b95..db13a11 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -82,7 +82,11 @@ func (h *SessionDB) NewSessionEntry(sessionInst SessionEntry) ([]byte, error) {
 		return []byte{}, errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	randomEntryId, _ := uuid.NewRandom()
+	randomEntryId, err := uuid.NewRandom()
+	if err != nil {
+		return []byte{}, errors.New("Failed to generate session id. The error is: " + err.Error())
+	}
+
 	sessionEntryId := []byte("session-" + randomEntryId.String())
 
 	dbtxn := h.db.NewTransaction(true)
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index 8b9e1ef..b7b1b52 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -37,7 +37,11 @@ func (h *SessionDB) NewSessionEntry(sessionInst SessionEntry) ([]byte, error) {
 		return []byte{}, errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	randomEntryId, _ := uuid.NewRandom()
+	randomEntryId, err := uuid.NewRandom()
+	if err != nil {
+		return []byte{}, errors.New("Failed to generate session id. The error is: " + err.Error())
+	}
+
 	sessionEntryId := []byte("session-" + randomEntryId.String())
 
 	dbtxn := h.db.NewTransaction(true)
diff --git a/dbs/session.db.go b/dbs/session.db.go
index c007841..71a04df 100644
--- a/dbs/session.db.go
+++ b/dbs/session.db.go
@@ -47,7 +47,11 @@ func (h *SessionDB) NewSessionEntry(sessionInst SessionEntry) ([]byte, error) {
 		return []byte{}, errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	randomEntryId, _ := uuid.NewRandom()
+	randomEntryId, err := uuid.NewRandom()
+	if err != nil {
+		return []byte{}, errors.New("Failed to generate session id. The error is: " + err.Error())
+	}
+
 	randomEntryIdString := randomEntryId.String()
 	sessionEntryId := append(h.prefix, []byte(randomEntryIdString)...)
 
-- 
2.43.0


From f0b6eaf41c4ae5819b50c4897855d11b6cd01d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 16/32] fix: test run bookkeeping stops when the test entry can
 not be read

---
 core/shared/testcom/dbs/reqt.db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..39cc282 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -125,6 +125,7 @@ func (h *RequestTestDB) StartNewRun(rvteid []byte) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
@@ -143,6 +144,7 @@ func (h *RequestTestDB) FinishRun(rvteid []byte) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	rvte.InProgress = false
@@ -159,6 +161,7 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	rvte.CurrentTestRun.Tests[testID] = testResult
@@ -174,6 +177,7 @@ func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-- 
2.43.0


From cecedad88bcfbb22729398fe2b703d6b4fe1524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 17/32] fix: a session whose user can not be loaded is not
 logged in

---
 api/user.other.api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/user.other.api.go b/api/user.other.api.go
index ca7386f..4473144 100644
--- a/api/user.other.api.go
+++ b/api/user.other.api.go
@@ -26,7 +26,11 @@ func (h *UserAPI) isLoggedIn(r *http.Request) (bool, *dbs.SessionEntry, *dbs.Use
 		return false, nil, nil
 	}
 
-	userInst, _ := h.UserDB.Get(sessionInst.Email)
+	userInst, err := h.UserDB.Get(sessionInst.Email)
+	if err != nil {
+		log.Println("User does not exists. " + err.Error())
+		return false, nil, nil
+	}
 
 	return sessionInst.LoggedIn, sessionInst, userInst
 }
-- 
2.43.0


From 7eb2290823e3d3caa5a64975e1e9a3f098cb3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 18/32] fix: a failed test run removal is reported

---
 api/testapi/device.api.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 8d33942..4dc151e 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -316,7 +316,12 @@ func (h *DeviceTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	err = h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Failed to remove test run!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
-- 
2.43.0


From c0f9e06a3629af6f8d92bc63504f02bfda9e0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 19/32] fix: a failing final voucher entry fails voucher
 generation

---
 core/device/genvoucher_with_provided_keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/device/genvoucher_with_provided_keys.go b/core/device/genvoucher_with_provided_keys.go
index 6aa440b..80f9915 100644
--- a/core/device/genvoucher_with_provided_keys.go
+++ b/core/device/genvoucher_with_provided_keys.go
@@ -139,6 +139,9 @@ func NewVirtualDeviceAndVoucherWithKeys(
 				chosenSgType,
 				fdoTestID,
 			)
+			if err != nil {
+				return nil, err
+			}
 
 			finalOvEntryPrivateKeyBytes = marshalledPrivKey
 		} else {
-- 
2.43.0


From d28f966fe0c5033cbb0eaf6c04e300489e65cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 20/32] fix: voucher header and owner key errors are handled

---
 api/testapi/device.api.go                  |  7 ++++++-
 core/do/to0/req-to0-22-OwnerSign.go        |  5 ++++-
 core/do/to2/listener-to2-64-ProveDevice.go | 13 +++++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 4dc151e..d72f8d4 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -137,7 +137,12 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	ovHeader, _ := newVand.Voucher.GetOVHeader()
+	ovHeader, err := newVand.Voucher.GetOVHeader()
+	if err != nil {
+		log.Println("Failed to decode voucher header. " + err.Error())
+		commonapi.RespondError(w, "Failed to decode voucher! "+err.Error(), http.StatusBadRequest)
+		return
+	}
 
 	deviceListenerInsts := listenertestsdeps.NewDevice_RequestListenerInst(*newVand, ovHeader.OVGuid)
 	err = h.ListenerDB.Save(deviceListenerInsts)
diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 86db877..06e7f38 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -134,7 +134,10 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 
 	iopEnabled := h.ctx.Value(fdoshared.CFG_ENV_INTEROP_ENABLED).(bool)
 	if fdoTestId == testcom.NULL_TEST && iopEnabled {
-		voucherHeader, _ := h.voucherDBEntry.Voucher.GetOVHeader()
+		voucherHeader, err := h.voucherDBEntry.Voucher.GetOVHeader()
+		if err != nil {
+			return nil, nil, errors.New("OwnerSign22: Error decoding voucher header. " + err.Error())
+		}
 
 		authzHeader, err := fdoshared.IopGetAuthz(h.ctx, fdoshared.IopDO)
 		if err != nil {
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 6fc0b71..b71fee0 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -104,9 +104,18 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	// ----- RESPONSE ----- //
 
-	lastOvEntryPubKey, _ := session.Voucher.GetFinalOwnerPublicKey()
+	lastOvEntryPubKey, err := session.Voucher.GetFinalOwnerPublicKey()
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error reading owner public key..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
+	ownerHeader, err := session.Voucher.GetOVHeader()
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error reading voucher header..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
 
-	ownerHeader, _ := session.Voucher.GetOVHeader()
 	setupDevicePayload := fdoshared.TO2SetupDevicePayload{
 		RendezvousInfo:       ownerHeader.OVRvInfo,
 		ReplacementGuid:      session.Guid,
-- 
2.43.0


From ace88e0b714f67a9d1f463a1c84a41ff272d3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 21/32] fix: failed removal of a request test run is reported

---
 api/testapi/do.api.go              | 7 ++++++-
 api/testapi/rv.api.go              | 7 ++++++-
 core/shared/testcom/dbs/reqt.db.go | 9 +++++----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index f696cd1..70d84e3 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -408,7 +408,12 @@ func (h *DOTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Failed to remove test run!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 877cbd7..c237911 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -222,7 +222,12 @@ func (h *RVTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Failed to remove test run!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 39cc282..6112f08 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -173,11 +173,10 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 	}
 }
 
-func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
+func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) error {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-		return
+		return fmt.Errorf("%s test entry can not be found. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 
 	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
@@ -191,6 +190,8 @@ func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
 
 	err = h.Save(*rvte)
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		return fmt.Errorf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
 	}
+
+	return nil
 }
-- 
2.43.0


From aefe126b11584641cca2b797525325a1baad877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 22/32] fix: reject answers whose HTTP status is not 200 in
 every protocol step

---
 core/device/to1/req-to1-30-HelloRV.go                | 6 ++++++
 core/device/to1/req-to1-32-ProveToRV.go              | 6 ++++++
 core/device/to2/req-to2-60-HelloDevice.go            | 2 ++
 core/device/to2/req-to2-62-GetOVNextEntry.go         | 2 ++
 core/device/to2/req-to2-64-ProveDevice.go            | 2 ++
 core/device/to2/req-to2-66-DeviceServiceInfoReady.go | 2 ++
 core/device/to2/req-to2-68-DeviceServiceInfo.go      | 2 ++
 core/device/to2/req-to2-70-Done.go                   | 2 ++
 core/do/to0/req-to0-20-Hello.go                      | 5 +++++
 core/do/to0/req-to0-22-OwnerSign.go                  | 5 +++++
 10 files changed, 34 insertions(+)

diff --git a/core/device/to1/req-to1-30-HelloRV.go b/core/device/to1/req-to1-30-HelloRV.go
index 8f0b633..c956033 100644
--- a/core/device/to1/req-to1-30-HelloRV.go
+++ b/core/device/to1/req-to1-30-HelloRV.go
@@ -2,6 +2,8 @@ package to1
 
 import (
 	"errors"
+	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -53,5 +55,9 @@ func (h *To1Requestor) HelloRV30(fdoTestID testcom.FDOTestID) (*fdoshared.HelloR
 		return nil, &testState, errors.New("HelloRV30: Received FDO Error: " + fdoError.Error())
 	}
 
+	if httpStatusCode != http.StatusOK {
+		return nil, &testState, fmt.Errorf("HelloRV30: Server answered with HTTP status %d", httpStatusCode)
+	}
+
 	return &helloRVAck31, &testState, nil
 }
diff --git a/core/device/to1/req-to1-32-ProveToRV.go b/core/device/to1/req-to1-32-ProveToRV.go
index 3a97849..4cb2b17 100644
--- a/core/device/to1/req-to1-32-ProveToRV.go
+++ b/core/device/to1/req-to1-32-ProveToRV.go
@@ -2,6 +2,8 @@ package to1
 
 import (
 	"errors"
+	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -75,5 +77,9 @@ func (h *To1Requestor) ProveToRV32(helloRVAck31 fdoshared.HelloRVAck31, fdoTestI
 		return nil, &testState, errors.New("RVRedirect33: Received FDO Error: " + fdoError.Error())
 	}
 
+	if httpStatusCode != http.StatusOK {
+		return nil, &testState, fmt.Errorf("RVRedirect33: Server answered with HTTP status %d", httpStatusCode)
+	}
+
 	return &rvRedirect33, &testState, nil
 }
diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index ba42f4a..c548461 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -48,6 +48,8 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		if err == nil {
 			return nil, nil, fmt.Errorf("HelloDevice60: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("HelloDevice60: Server answered with HTTP status %d", httpStatusCode)
 	}
 
 	h.AuthzHeader = authzHeader
diff --git a/core/device/to2/req-to2-62-GetOVNextEntry.go b/core/device/to2/req-to2-62-GetOVNextEntry.go
index c756896..97e3b67 100644
--- a/core/device/to2/req-to2-62-GetOVNextEntry.go
+++ b/core/device/to2/req-to2-62-GetOVNextEntry.go
@@ -37,6 +37,8 @@ func (h *To2Requestor) GetOVNextEntry62(entryNum uint8, fdoTestID testcom.FDOTes
 		if err == nil {
 			return nil, nil, fmt.Errorf("GetOVNextEntry62: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("GetOVNextEntry62: Server answered with HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-64-ProveDevice.go b/core/device/to2/req-to2-64-ProveDevice.go
index 771008a..0d0a09d 100644
--- a/core/device/to2/req-to2-64-ProveDevice.go
+++ b/core/device/to2/req-to2-64-ProveDevice.go
@@ -88,6 +88,8 @@ func (h *To2Requestor) ProveDevice64(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		if err == nil {
 			return nil, nil, fmt.Errorf("ProveDevice64: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
 		}
+
+		return nil, nil, fmt.Errorf("ProveDevice64: Server answered with HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
index f1494e8..68d86e2 100644
--- a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
+++ b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
@@ -54,6 +54,8 @@ func (h *To2Requestor) DeviceServiceInfoReady66(fdoTestID testcom.FDOTestID) (*f
 		if err == nil {
 			return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: Server answered with HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-68-DeviceServiceInfo.go b/core/device/to2/req-to2-68-DeviceServiceInfo.go
index 5352d3d..8cf2455 100644
--- a/core/device/to2/req-to2-68-DeviceServiceInfo.go
+++ b/core/device/to2/req-to2-68-DeviceServiceInfo.go
@@ -46,6 +46,8 @@ func (h *To2Requestor) DeviceServiceInfo68(deviceServiceInfo68 fdoshared.DeviceS
 		if err == nil {
 			return nil, nil, fmt.Errorf("DeviceServiceInfo68: Server returned error (HTTP %d): (ErrorCID %d) %s", httpStatusCode, fdoErrInst.EMErrorCID, fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("DeviceServiceInfo68: Server answered with HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-70-Done.go b/core/device/to2/req-to2-70-Done.go
index e30f7e5..7fc8c38 100644
--- a/core/device/to2/req-to2-70-Done.go
+++ b/core/device/to2/req-to2-70-Done.go
@@ -54,6 +54,8 @@ func (h *To2Requestor) Done70(fdoTestID testcom.FDOTestID) (*fdoshared.Done271,
 		if err == nil {
 			return nil, nil, fmt.Errorf("Done70: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("Done70: Server answered with HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/do/to0/req-to0-20-Hello.go b/core/do/to0/req-to0-20-Hello.go
index 26f88f9..d739a01 100644
--- a/core/do/to0/req-to0-20-Hello.go
+++ b/core/do/to0/req-to0-20-Hello.go
@@ -3,6 +3,7 @@ package to0
 import (
 	"errors"
 	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -38,6 +39,10 @@ func (h *To0Requestor) Hello20(fdoTestID testcom.FDOTestID) (*fdoshared.HelloAck
 		return nil, nil, fmt.Errorf("Hell20: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
 	}
 
+	if httpStatusCode != http.StatusOK {
+		return nil, nil, fmt.Errorf("Hell20: Server answered with HTTP status %d", httpStatusCode)
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &helloAck21)
 	if err != nil {
 		return nil, nil, errors.New("Hell20: Failed to unmarshal HelloAck21. " + err.Error())
diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 06e7f38..09704bd 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -123,6 +124,10 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, fmt.Errorf("server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
 	}
 
+	if httpStatusCode != http.StatusOK {
+		return nil, nil, fmt.Errorf("OwnerSign22: Server answered with HTTP status %d", httpStatusCode)
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &acceptOwner23)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Failed to unmarshal AcceptOwner23. " + err.Error())
-- 
2.43.0


From f293ad1f8df9d0a5b70ac5fdbc60360a41f34440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 23/32] fix: corrupt a part of the COSE signature that the
 signature covers

---
 core/shared/conformance.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index 30c8228..6a127a8 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -251,15 +251,13 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 type Conf_CoseSign_Field string
 
 const (
-	Conf_CoseSign_Field_Protected   Conf_CoseSign_Field = "string"
-	Conf_CoseSign_Field_Unprotected Conf_CoseSign_Field = "number"
-	Conf_CoseSign_Field_Payload     Conf_CoseSign_Field = "map"
-	Conf_CoseSign_Field_Signature   Conf_CoseSign_Field = "array"
+	Conf_CoseSign_Field_Protected Conf_CoseSign_Field = "string"
+	Conf_CoseSign_Field_Payload   Conf_CoseSign_Field = "map"
+	Conf_CoseSign_Field_Signature Conf_CoseSign_Field = "array"
 )
 
 var Conf_CoseSign_Field_List []Conf_CoseSign_Field = []Conf_CoseSign_Field{
 	Conf_CoseSign_Field_Protected,
-	Conf_CoseSign_Field_Unprotected,
 	Conf_CoseSign_Field_Payload,
 	Conf_CoseSign_Field_Signature,
 }
@@ -270,8 +268,6 @@ func Conf_Fuzz_CoseSignature(coseSignature CoseSignature) CoseSignature {
 	switch chosenType {
 	case Conf_CoseSign_Field_Protected:
 		coseSignature.Protected = NewRandomBuffer(NewRandomInt(5, 49))
-	case Conf_CoseSign_Field_Unprotected:
-		coseSignature.Unprotected = UnprotectedHeader{}
 	case Conf_CoseSign_Field_Payload:
 		coseSignature.Payload = Conf_RandomCborBufferFuzzing(coseSignature.Payload)
 	default:
-- 
2.43.0


From 89f04c9efbc5680f067bdc7b1637cff9b088b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 24/32] fix: judge the answer in the positive 33, 60, 64 and 66
 tests

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.64.execute.go | 2 +-
 testexec/do.to2.66.execute.go | 2 +-
 testexec/rvt.to1.execute.go   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index ed9dc2f..a401203 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -26,7 +26,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		switch fdoTestId {
 		case testcom.FIDO_DOT_60_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.HelloDevice60(fdoTestId)
+			_, _, err := to2requestor.HelloDevice60(testcom.NULL_TEST)
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index 15bb374..0893fe3 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -70,7 +70,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		switch testId {
 		case testcom.FIDO_DOT_64_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.ProveDevice64(testId)
+			_, _, err := to2requestor.ProveDevice64(testcom.NULL_TEST)
 			if err != nil {
 				errTestState = testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 19f5827..8c4318b 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -74,7 +74,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 		switch testId {
 		case testcom.FIDO_DOT_66_POSITIVE:
-			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
+			_, _, err := to2requestor.DeviceServiceInfoReady66(testcom.NULL_TEST)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index 4d6c381..992bfe6 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -112,7 +112,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_33_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.ProveToRV32(*helloRvAck31, rv32test)
+			_, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
-- 
2.43.0


From 71eac6cb8dc60c1e5b80142068512837c385b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 25/32] fix: fail the response checks of TO0 on a failing HTTP
 status

---
 core/do/to0/common.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/do/to0/common.go b/core/do/to0/common.go
index 3a05092..33c5c0b 100644
--- a/core/do/to0/common.go
+++ b/core/do/to0/common.go
@@ -3,6 +3,7 @@ package to0
 import (
 	"context"
 	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -42,6 +43,10 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 
 	switch fdoTestID {
 	case testcom.FIDO_RVT_21_CHECK_RESP:
+		if httpStatusCode != http.StatusOK {
+			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Expected HTTP status code to be 200. Got %d", httpStatusCode))
+		}
+
 		fdoErrInst, err := fdoshared.DecodeErrorResponse(bodyBytes)
 		if err == nil {
 			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
@@ -56,6 +61,10 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 		return testcom.NewSuccessTestState(fdoTestID)
 
 	case testcom.FIDO_RVT_23_CHECK_RESP:
+		if httpStatusCode != http.StatusOK {
+			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Expected HTTP status code to be 200. Got %d", httpStatusCode))
+		}
+
 		fdoErrInst, err := fdoshared.DecodeErrorResponse(bodyBytes)
 		if err == nil {
 			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
-- 
2.43.0


From 2e5c7718ac295e1a808cd21ff2fee74b3a57bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 26/32] fix: report failed TO2 set-ups under the test they
 belong to

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.62.execute.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index a401203..b5599f2 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -14,7 +14,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		if err != nil {
 			errTestState := testcom.NewFailTestState(fdoTestId, "Error getting voucher for TO2 60. "+err.Error())
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, fdoTestId, errTestState)
 			return
 		}
 
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index eb22bed..7cc139a 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -20,7 +20,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Error:  "Error getting voucher for TO2 60. " + err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 			return
 		}
 
@@ -35,7 +35,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Passed: false,
 				Error:  "Error running TO2 GetOVNextEntry62 tests. Failed to run HelloDevice60. " + err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 			return
 		}
 
-- 
2.43.0


From 4078481bbc52348537aab08ead70e46130f57b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 27/32] fix: reject COSE keys with a missing or mistyped curve
 or modulus

---
 core/shared/signing.cose.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/signing.cose.go b/core/shared/signing.cose.go
index 74b743c..089c185 100644
--- a/core/shared/signing.cose.go
+++ b/core/shared/signing.cose.go
@@ -71,9 +71,15 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 
 			xy := append(x, y...)
 			rawPublicKey = append([]byte{0x04}, xy...)
-			algId = cosePubKey.CrvOrN.(CoseAlg)
+			algId, ok = cosePubKey.CrvOrN.(CoseAlg)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Curve is not a COSE curve identifier")
+			}
 		case CoseRSA:
-			rawPublicKey = cosePubKey.CrvOrN.([]byte)
+			rawPublicKey, ok = cosePubKey.CrvOrN.([]byte)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. RSA modulus is not a byte string")
+			}
 			algId = cosePubKey.Alg
 		case CoseOKP:
 			return nil, errors.New("unsupported COSE key type: OKP")
-- 
2.43.0


From 0233c35dcd658e85f82f950c796dbb4ae318c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 28/32] fix: reject ASYMKEX with an owner key that is not RSA

---
 core/shared/kex.crypto.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 40c84fb..4e42621 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -390,8 +390,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. Owner public key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -400,8 +405,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivateKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. Owner private key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivateKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From 902ca9f253d1c0d4fda0381eaa299104ce838fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 29/32] fix: reject an ECDH key exchange that is not a point on
 the curve

---
 core/shared/kex.crypto.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 4e42621..4f3b13b 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -282,6 +282,9 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			X:     new(big.Int).SetBytes(deviceX),
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange for ECDH256 is not a point on the curve")
+		}
 
 		ownerX := kexA.XAKeyExchange[2:34]
 		ownerY := kexA.XAKeyExchange[36:68]
@@ -327,6 +330,9 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			X:     new(big.Int).SetBytes(deviceX),
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange for ECDH384 is not a point on the curve")
+		}
 
 		ownerX := kexA.XAKeyExchange[2:50]
 		ownerY := kexA.XAKeyExchange[52:100]
-- 
2.43.0


From 285c2128ef6e33ff76371a4cb2f7b6be744176b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 30/32] fix: reject encrypted blocks without an algorithm or a
 proper IV

---
 core/shared/enc.crypto.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 73b79ce..132faa7 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil {
+		return nil, errors.New("error! Encrypted block has no IV")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -385,6 +388,10 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 	plaintext := make([]byte, len(inner.Ciphertext))
 	switch *innerProtected.Alg {
 	case int(CIPHER_COSE_AES128_CTR):
+		if len(*nonceIvBytes) != block.BlockSize() {
+			return nil, errors.New("error! Unexpected IV length")
+		}
+
 		stream := cipher.NewCTR(block, *nonceIvBytes)
 		stream.XORKeyStream(plaintext, inner.Ciphertext)
 	default:
@@ -490,11 +497,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil {
+		return nil, errors.New("error! Encrypted block has no IV")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
@@ -516,6 +526,10 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 			return []byte{}, errors.New("Error generating new GCM instance. " + err.Error())
 		}
 
+		if len(*nonceIvBytes) != aesgcm.NonceSize() {
+			return []byte{}, errors.New("error! Unexpected nonce length")
+		}
+
 		prepPlaintext, err := aesgcm.Open(nil, *nonceIvBytes, embInst.Ciphertext, aadBytes)
 		if err != nil {
 			return []byte{}, errors.New("Error decrypting EMB GCM. " + err.Error())
-- 
2.43.0


From d6310e5bda363a3d9890396dd72e8ce70e0ff2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 31/32] fix: reject an owner that proves a voucher without
 entries

---
 main.go                       | 8 ++++++++
 testexec/do.to2.62.execute.go | 8 ++++++++
 testexec/do.to2.64.execute.go | 4 ++++
 testexec/do.to2.66.execute.go | 4 ++++
 testexec/do.to2.68.execute.go | 4 ++++
 testexec/do.to2.70.execute.go | 4 ++++
 6 files changed, 32 insertions(+)

diff --git a/main.go b/main.go
index e1f0049..63f3192 100644
--- a/main.go
+++ b/main.go
@@ -447,6 +447,10 @@ func main() {
 								return fmt.Errorf("error decoding TO1D payload! %s", err.Error())
 							}
 
+							if len(to1dPayload.To1dRV) == 0 {
+								return fmt.Errorf("TO1D payload has no owner addresses")
+							}
+
 							rvdns := to1dPayload.To1dRV[0].RVDNS
 							rvipd := to1dPayload.To1dRV[0].RVIP
 							rvport := to1dPayload.To1dRV[0].RVPort
@@ -522,6 +526,10 @@ func main() {
 								return nil
 							}
 
+							if len(ovEntries) == 0 {
+								return fmt.Errorf("server returned a voucher without entries")
+							}
+
 							lastOvEntry := ovEntries[len(ovEntries)-1]
 							loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index 7cc139a..3d919e2 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -73,6 +73,14 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				return
 			}
 
+			if len(ovEntries) == 0 {
+				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					Passed: false,
+					Error:  "Server returned a voucher without entries",
+				})
+				return
+			}
+
 			lastOvEntry := ovEntries[len(ovEntries)-1]
 			loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index 0893fe3..178ea5c 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -45,6 +45,10 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, fmt.Errorf("server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 8c4318b..02636ac 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -45,6 +45,10 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, fmt.Errorf("server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index f606995..7c73f21 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -47,6 +47,10 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, fmt.Errorf("server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index dfd927c..f4e294d 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -46,6 +46,10 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, fmt.Errorf("server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From 3aad8f2d245ce3105e7467bba8d6614da9969e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 32/32] fix: reject ProveDevice64 without EUPHNonce

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index b71fee0..248cd01 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -95,6 +95,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "ProveDevice64 has no EUPHNonce", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	// KEX
 	sessionKey, err := fdoshared.DeriveSessionKey(session.XAKex, eatPayload.EatFDO.XBKeyExchange, false, privateKeyInst)
 	if err != nil {
-- 
2.43.0

