From 193bdf9d522e26f9433c5919c16e374e71db55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 01/29] fix: remove the process-wide indentation counter of the
 BER encoder

It was modified by every conversion, so validators running concurrently
raced on it, and it was never read.
---
 validator/lib/ber.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..4bcfeac 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -10,8 +10,6 @@ import (
   https://github.com/fullsailor/pkcs7/blob/master/ber.go
 */
 
-var encodeIndent = 0
-
 type asn1Object interface {
 	encodeTo(writer *bytes.Buffer) error
 }
@@ -22,7 +20,6 @@ type asn1Structured struct {
 }
 
 func (s asn1Structured) encodeTo(out *bytes.Buffer) error {
-	encodeIndent++
 	inner := new(bytes.Buffer)
 	for _, obj := range s.content {
 		err := obj.encodeTo(inner)
@@ -30,7 +27,6 @@ func (s asn1Structured) encodeTo(out *bytes.Buffer) error {
 			return err
 		}
 	}
-	encodeIndent--
 	out.Write(s.tagBytes)
 	encodeLength(out, inner.Len())
 	out.Write(inner.Bytes())
-- 
2.43.0


From d7806109a6632e3cbfe37c68bff1c272560851a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 02/29] fix: bound reads and recursion of the BER decoder

Truncated tags and lengths (for instance 1f, 30 82 or 30 80) read past the
end of the input, and deeply nested input exhausted the stack; both ended
the process.
---
 validator/lib/ber.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 4bcfeac..92ec09d 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -10,6 +10,9 @@ import (
   https://github.com/fullsailor/pkcs7/blob/master/ber.go
 */
 
+// Nesting of constructed values is limited so that hostile input cannot exhaust the stack.
+const maxBERDepth = 256
+
 type asn1Object interface {
 	encodeTo(writer *bytes.Buffer) error
 }
@@ -60,7 +63,7 @@ func BER2DER(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +134,13 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
+	if depth > maxBERDepth {
+		return nil, 0, errors.New("ber2der: BER structure nested too deeply")
+	}
+	if len(ber) <= offset {
+		return nil, 0, errors.New("ber2der: unexpected end of BER data")
+	}
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
 	b := ber[offset]
@@ -139,10 +148,13 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if len(ber) <= offset {
+			return nil, 0, errors.New("ber2der: unexpected end of BER tag")
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -170,6 +182,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if len(ber)-offset < numberOfBytes {
+			return nil, 0, errors.New("ber2der: unexpected end of BER length")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -211,7 +226,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From a544d68e21ca3cb9e5cad3f1b5e663be21f00640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 03/29] fix: report conversion errors instead of using a
 partial DER encoding

BER2DER ignored the error of its encoder, and DecodeManifest ignored the
error of BER2DER and went on with an empty content.
---
 validator/lib/ber.go      | 8 ++++++--
 validator/lib/manifest.go | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 92ec09d..171c65e 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -31,7 +31,9 @@ func (s asn1Structured) encodeTo(out *bytes.Buffer) error {
 		}
 	}
 	out.Write(s.tagBytes)
-	encodeLength(out, inner.Len())
+	if err := encodeLength(out, inner.Len()); err != nil {
+		return err
+	}
 	out.Write(inner.Bytes())
 	return nil
 }
@@ -67,7 +69,9 @@ func BER2DER(ber []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	obj.encodeTo(out)
+	if err := obj.encodeTo(out); err != nil {
+		return nil, err
+	}
 
 	// if offset < len(ber) {
 	//  return nil, fmt.Errorf("ber2der: Content longer than expected. Got %d, expected %d", offset, len(ber))
diff --git a/validator/lib/manifest.go b/validator/lib/manifest.go
index abf271e..a77e8df 100644
--- a/validator/lib/manifest.go
+++ b/validator/lib/manifest.go
@@ -101,7 +101,10 @@ func (cf *DecoderConfig) DecodeManifest(data []byte) (*RPKIManifest, error) {
 		return nil, err
 	}
 
-	fullbytes, _ = BER2DER(fullbytes)
+	fullbytes, err = BER2DER(fullbytes)
+	if err != nil {
+		return nil, err
+	}
 	var mc ManifestContent
 	_, err = asn1.Unmarshal(fullbytes, &mc)
 	if err != nil {
-- 
2.43.0


From b89a76087b1f015012b48b6d5d5c6da342526e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 04/29] fix: do not index signer infos of a CMS that has none

A signed object without signer infos made Validate and GetSigningTime
panic, so any publication point could stop the validator.
---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..039838b 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -330,6 +330,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer info")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -417,6 +420,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer info")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From ffc989fa8e7755be889269ab3085918c50a4d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 05/29] fix: verify CMS signatures with PKCS #1 v1.5 padding
 checks

RSAPublicDecrypt looks for the first ff 00 in the decrypted block and
trailing bytes of the digest structure are ignored, so signatures can be
forged for keys with a small public exponent.
---
 validator/lib/cms.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 039838b..28b12a0 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -370,12 +370,9 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New("Public key is not RSA")
 	}
 
-	decryptedHash, err := DecryptSignatureRSA(cms.SignedData.SignerInfos[0].Signature, pubKey)
+	err = rsa.VerifyPKCS1v15(pubKey, crypto.SHA256, signedAttributesHash, cms.SignedData.SignerInfos[0].Signature)
 	if err != nil {
-		return errors.New(fmt.Sprintf("CMS signature decoding error: %v", err))
-	}
-	if !bytes.Equal(signedAttributesHash, decryptedHash) {
-		return errors.New(fmt.Sprintf("CMS encrypted digest (%x) and calculated digest (%x) are different", decryptedHash, signedAttributesHash))
+		return errors.New(fmt.Sprintf("CMS signature does not verify: %v", err))
 	}
 
 	return nil
-- 
2.43.0


From 4cdad12b4defa80641823556ba10db554f6e4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 06/29] fix: refuse addresses that do not fit their family

A prefix longer than its address family allows got a nil mask, and an
address of an unknown family became a nil network, which crashed the
resource checks of every certificate validated against it.
---
 validator/lib/cert.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..531d0f5 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, errors.New(fmt.Sprintf("Address of %v bits does not fit its family", addr.BitLength))
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -271,6 +274,9 @@ func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, e
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, errors.New(fmt.Sprintf("Address of %v bits does not fit its family", addr.BitLength))
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		if max {
@@ -328,7 +334,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +353,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
-- 
2.43.0


From aaa53ecd2e6cbf2f18bf22102fc94006fc3b5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 07/29] fix: check the ROA envelope and its AS number

DecodeROA ignored the error of decoding the encapsulated content and
accepted AS numbers outside 0..2^32-1, which were truncated on output. An
entry without a usable range was recorded as invalid twice.
---
 validator/lib/roa.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..6be00c6 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -4,6 +4,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"sort"
 	"time"
@@ -198,6 +199,7 @@ func ValidateIPRoaCertificateList(entries []*ROAEntry, cert *RPKICertificate) ([
 		err, min, max := GetRangeIP(entry.IPNet)
 		if err != nil {
 			invalids = append(invalids, entry)
+			continue
 		}
 		valid, checkParent := cert.IsIPRangeInCertificate(min, max)
 		if valid {
@@ -218,6 +220,9 @@ func (roa *RPKIROA) ValidateIPRoaCertificate(cert *RPKICertificate) ([]*ROAEntry
 func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 	entries := make([]*ROAEntry, 0)
 	asn := roacontent.ASID
+	if asn < 0 || asn > math.MaxUint32 {
+		return entries, asn, fmt.Errorf("AS number %d is out of range", asn)
+	}
 	//fmt.Printf("ROAContent %v %v AS: %v\n", len(fullbytes), err, roacontent.ASID)
 	for _, addrblock := range roacontent.IpAddrBlocks {
 		for _, addr := range addrblock.Addresses {
@@ -273,6 +278,9 @@ func (cf *DecoderConfig) DecodeROA(data []byte) (*RPKIROA, error) {
 
 	var rawroa ROA
 	_, err = asn1.Unmarshal(c.SignedData.EncapContentInfo.FullBytes, &rawroa)
+	if err != nil {
+		return nil, err
+	}
 
 	var inner asn1.RawValue
 	_, err = asn1.Unmarshal(rawroa.EContent.Bytes, &inner)
-- 
2.43.0


From 822472c200b8f083f2d0ba168c4c8fc15a960db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 08/29] fix: walk the ancestors of inherited resources and
 refuse unresolved ones

The walk looked up the issuer's issuer at every step instead of moving up,
and a resource still unresolved at the top was accepted.
---
 validator/pki/pki.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..1c16428 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -499,8 +499,9 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	// Check IPs
 	validIPs, invalidIPs, checkParent := cert.ValidateIPCertificate(parentCert)
 	chain := parent.Parent
+	childCert := parentCert
 	for chain != nil && len(checkParent) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := childCert.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not valid", key, ski))
@@ -515,14 +516,18 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validIPs = append(validIPs, validTmp...)
 		invalidIPs = append(invalidIPs, invalidTmp...)
 		checkParent = checkParentTmp
+		childCert = chainCert
 		chain = chain.Parent
 	}
 
+	invalidIPs = append(invalidIPs, checkParent...)
+
 	// Check ASNs
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
 	chain = parent.Parent
+	childCert = parentCert
 	for chain != nil && len(checkParentASN) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := childCert.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not valid", key)))
@@ -535,9 +540,12 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validASNs = append(validASNs, validTmp...)
 		invalidASNs = append(invalidASNs, invalidTmp...)
 		checkParentASN = checkParentTmp
+		childCert = chainCert
 		chain = chain.Parent
 	}
 
+	invalidASNs = append(invalidASNs, checkParentASN...)
+
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
 		//return errors.New(fmt.Sprintf("%x contains invalid IP addresses: %v", ski, invalids))
-- 
2.43.0


From 152e0eeaaba467eae311997a68d7de2f9fa878f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 09/29] fix: check that a CRL belongs to its place before
 applying it

The check ran after the CRL had revoked certificates, and dereferenced nil
for a CRL whose issuer is unknown or that has no grandparent.
---
 validator/pki/pki.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 1c16428..5e04fd5 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -355,10 +355,14 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
-		valid, res, err := v.AddCRL(crl)
-		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
+		if pkifile.Parent == nil || pkifile.Parent.Parent == nil {
+			return false, nil, nil, fmt.Errorf("CRL %s has no parent", pkifile.Path)
+		}
+		issuer, ok := v.Objects[string(crlAuthorityKeyId(crl))]
+		if !ok || issuer.File == nil || pkifile.Parent.Parent.Path != issuer.File.Path {
 			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
 		}
+		valid, res, err := v.AddCRL(crl)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
 		}
@@ -641,7 +645,8 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 	return valid, pathCert, res_mft, err
 }
 
-func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
+// Returns the key identifier of the issuer of a CRL
+func crlAuthorityKeyId(crl *pkix.CertificateList) []byte {
 	var aki []byte
 	for _, ext := range crl.TBSCertList.Extensions {
 		if ext.Id.Equal(librpki.AuthorityKeyIdentifier) {
@@ -650,6 +655,11 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 			}
 		}
 	}
+	return aki
+}
+
+func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
+	aki := crlAuthorityKeyId(crl)
 
 	_, hasParentValid := v.ValidObjects[string(aki)]
 	parent, hasParent := v.Objects[string(aki)]
-- 
2.43.0


From 518e49a1364cafa38cd58d57f08d4797164485ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 10/29] fix: invalidate the manifests of an invalidated
 certificate

---
 validator/pki/pki.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 5e04fd5..5740da8 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -392,6 +392,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		res, hasCert := v.Objects[ski]
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
+		delete(v.ValidManifest, ski)
 		delete(v.ValidCRL, ski)
 		invalidated[ski] = true
 
-- 
2.43.0


From c71be2a57246278e6ea2a4df889b9d7f457b4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 11/29] fix: judge manifest staleness at the validator's time

---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 5740da8..302b8d1 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -890,7 +890,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 					if ok && res != nil && res.Resource != nil {
 						cert, ok := res.Resource.(*librpki.RPKIManifest)
 						if ok {
-							if time.Now().After(cert.Content.NextUpdate) || time.Now().Before(cert.Content.ThisUpdate) {
+							if sm.Validator.Time.After(cert.Content.NextUpdate) || sm.Validator.Time.Before(cert.Content.ThisUpdate) {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-- 
2.43.0


From 81899d0776fc5b70cf2e50efdf9ce6d41bde66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 12/29] fix: give every validator its own decoder configuration

All validators shared the default one, so configuring a validator changed
every other one and the package's Decode functions.
---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 302b8d1..2120f22 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -238,7 +238,7 @@ func NewValidator() *Validator {
 		ValidManifest: make(map[string]*Resource),
 		Manifest:      make(map[string]*Resource),
 
-		DecoderConfig: librpki.DefaultDecoderConfig,
+		DecoderConfig: &librpki.DecoderConfig{ValidateStrict: librpki.DefaultDecoderConfig.ValidateStrict},
 
 		Time: time.Now().UTC(),
 	}
-- 
2.43.0


From 3dc5809e470955fca7c61425be1ecabe1d618d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 13/29] fix: do not use a nil logger

The logger of a manager is optional, but some failures logged without
checking that there is one.
---
 validator/pki/pki.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 2120f22..50b5561 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -802,10 +802,14 @@ func (sm *SimpleManager) InvalidateManifestParent(file *PKIFile, mftError error)
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
 
 			} else {
-				sm.Log.Debugf("Could not invalidate certificate because incorrect resource")
+				if sm.Log != nil {
+					sm.Log.Debugf("Could not invalidate certificate because incorrect resource")
+				}
 			}
 		} else {
-			sm.Log.Debugf("Could not invalidate certificate because not found in list")
+			if sm.Log != nil {
+				sm.Log.Debugf("Could not invalidate certificate because not found in list")
+			}
 		}
 	}
 }
@@ -823,10 +827,14 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
 
 			} else {
-				sm.Log.Debugf("Could not invalidate certificate because incorrect resource")
+				if sm.Log != nil {
+					sm.Log.Debugf("Could not invalidate certificate because incorrect resource")
+				}
 			}
 		} else {
-			sm.Log.Debugf("Could not invalidate certificate because not found in list")
+			if sm.Log != nil {
+				sm.Log.Debugf("Could not invalidate certificate because not found in list")
+			}
 		}
 	}
 }
@@ -894,10 +902,14 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-							sm.Log.Debugf("Resource is not a manifest, not invalidating")
+							if sm.Log != nil {
+								sm.Log.Debugf("Resource is not a manifest, not invalidating")
+							}
 						}
 					} else {
-						sm.Log.Debugf("Could not fetch Parent Resource, not invalidating")
+						if sm.Log != nil {
+							sm.Log.Debugf("Could not fetch Parent Resource, not invalidating")
+						}
 					}
 				}
 				if bytes.Compare(data.Sha256, file.ManifestHash) != 0 {
-- 
2.43.0


From fca3c65c46f1bea79b02929ccbb8c2804c7d5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 14/29] fix: use unambiguous keys for certificates of an issuer

The key identifier and the decimal serial were concatenated, so a CRL of an
issuer whose key identifier ends in digits could revoke certificates of
another one.
---
 validator/pki/pki.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 50b5561..0a03742 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -7,6 +7,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 	"time"
 
@@ -426,6 +427,11 @@ func (v *Validator) AddTAL(tal *librpki.RPKITAL) ([]*PKIFile, *Resource, error)
 	return files, res, nil
 }
 
+// Key of a certificate in the tables by issuer and serial number
+func serialKey(aki []byte, serial *big.Int) string {
+	return fmt.Sprintf("%x/%s", aki, serial)
+}
+
 func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []*PKIFile, *Resource, error) {
 	pathCert := ExtractPathCert(cert)
 
@@ -457,7 +463,7 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 	if hasParent && parent != nil && valid {
 		parent.Childs = append(parent.Childs, res)
 
-		v.CertsSerial[aki+cert.Certificate.SerialNumber.String()] = res
+		v.CertsSerial[serialKey(cert.Certificate.AuthorityKeyId, cert.Certificate.SerialNumber)] = res
 	}
 
 	if valid {
@@ -496,7 +502,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	// Check presence in revocation lists
-	_, revoked := v.Revoked[string(aki)+cert.Certificate.SerialNumber.String()]
+	_, revoked := v.Revoked[serialKey(aki, cert.Certificate.SerialNumber)]
 	if revoked {
 		return NewCertificateErrorRevocation(cert)
 	}
@@ -688,7 +694,7 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := string(aki) + revoked.SerialNumber.String()
+				key := serialKey(aki, revoked.SerialNumber)
 				child, found := v.CertsSerial[key]
 				if found {
 					childConv := child.Resource.(*librpki.RPKICertificate)
-- 
2.43.0


From e43cba24b7601fb0ea8c87d3851b256b97844c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 15/29] fix: verify the hash and form of RRDP snapshots and
 deltas

The hash stated in the notification was never compared, truncated or
foreign documents were taken as empty ones, and the error of a withdrawal
was dropped.
---
 sync/lib/rrdp.go | 52 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..484ea40 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -2,10 +2,13 @@ package syncpki
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
+	"encoding/hex"
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"strings"
@@ -71,12 +74,15 @@ func ParseRoot(data string) (Notification, error) {
 	r := bytes.NewBufferString(data)
 	decoder := xml.NewDecoder(r)
 
+	var found bool
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			// EOF
+		t, err := decoder.Token()
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return n, err
+		}
 
 		switch se := t.(type) {
 		case xml.StartElement:
@@ -87,9 +93,13 @@ func ParseRoot(data string) (Notification, error) {
 				if err != nil {
 					return n, errors.New("XML does not conform to schema")
 				}
+				found = true
 			}
 		}
 	}
+	if !found {
+		return n, errors.New("XML is not a notification")
+	}
 	return n, nil
 }
 
@@ -102,11 +112,15 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 	byteStr := bytes.NewBufferString(data)
 	decoder := xml.NewDecoder(byteStr)
 
+	var found bool
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
+		t, err := decoder.Token()
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return publish, withdraw, err
+		}
 
 		switch se := t.(type) {
 		case xml.StartElement:
@@ -128,6 +142,7 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 				if err != nil {
 					return publish, withdraw, errors.New("XML does not conform to schema")
 				}
+				found = true
 			case "snapshot":
 				err := decoder.DecodeElement(&s, &se)
 
@@ -144,12 +159,25 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 				if err != nil {
 					return publish, withdraw, errors.New("XML does not conform to schema")
 				}
+				found = true
 			}
 		}
 	}
+	if !found {
+		return publish, withdraw, errors.New("XML is neither a snapshot nor a delta")
+	}
 	return publish, withdraw, nil
 }
 
+// Checks a document against the hash stated for it in the notification
+func checkRRDPHash(data string, node ElNode) error {
+	hash := sha256.Sum256([]byte(data))
+	if !strings.EqualFold(hex.EncodeToString(hash[:]), node.Hash) {
+		return fmt.Errorf("hash of %s is %x, the notification states %q", node.URI, hash, node.Hash)
+	}
+	return nil
+}
+
 type RRDPFile func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, curId int64, args ...interface{}) error
 
 type RRDPSystem struct {
@@ -253,6 +281,12 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 			Category: "http",
 		}, nil)
 
+		err = checkRRDPHash(data, root.Snapshot)
+		if err != nil {
+			sHub.CaptureException(err)
+			return err
+		}
+
 		publish, withdraw, err := ParseNode(data)
 		if err != nil {
 			sHub.CaptureException(err)
@@ -322,6 +356,12 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Category: "http",
 			}, nil)
 
+			err = checkRRDPHash(data, elNode)
+			if err != nil {
+				sHub.CaptureException(err)
+				return err
+			}
+
 			deltaPublish, deltaWithdraw, err := ParseNode(data)
 			if err != nil {
 				sHub.CaptureException(err)
@@ -351,7 +391,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From ed3945fec3788a729441fc71e93e9a6cce67e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 16/29] fix: report failures to read the output of rsync

---
 sync/lib/rsync.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 030e595..f872f9f 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -133,7 +133,10 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		}
 	}
 
-	err = scanner.Err()
+	scanErr := scanner.Err()
 	err = cmd.Wait()
+	if err == nil {
+		err = scanErr
+	}
 	return files, err
 }
-- 
2.43.0


From 36346faae282a76bae93a406b1ee3ca1c7fd827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 17/29] fix: read a repository from the directory it is mapped
 to

---
 sync/lib/fetch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index be2fed2..e3c6f9d 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strings"
 	"time"
 
@@ -118,7 +119,7 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
 	newPath := GetLocalPath(file.Repo, s.MapDirectory)
-	files, err := ioutil.ReadDir(file.Repo)
+	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
 		return fmt.Errorf("Unable to read dir %q: %v", file.Repo, err)
 	}
@@ -128,7 +129,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 			continue
 		}
 
-		data, sha256, err := FetchFile(newPath+fileDir.Name(), true)
+		data, sha256, err := FetchFile(filepath.Join(newPath, fileDir.Name()), true)
 		if err != nil {
 			return fmt.Errorf("FetchFile failed: %v", err)
 		}
-- 
2.43.0


From 11aaba7b2750c6af3495b0eb4161432a847b3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 18/29] fix: refuse rsync modules that are no path components

A certificate could name the module '..', and other schemes were taken as
rsync.
---
 sync/lib/utils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..b394a94 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -22,10 +22,18 @@ type SubMap struct {
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
 	if len(rsync) > len("rsync://") {
+		if !isRsyncURL(rsync) {
+			return "", "", fmt.Errorf("%q is not an rsync URL", rsync)
+		}
 		rsyncDomain := strings.Split(rsync[8:], "/")
 		if len(rsyncDomain) < 2 {
 			return "", "", errors.New("rsync url does not contain module")
 		}
+		for _, part := range rsyncDomain[:2] {
+			if part == "" || part == "." || part == ".." {
+				return "", "", fmt.Errorf("rsync url %q contains illegal path element", rsync)
+			}
+		}
 		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
 	} else {
 		return "", "", errors.New("Wrong size")
-- 
2.43.0


From 8281bfe32a6624bc532cc87c9525cc2ee87c421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 19/29] fix: keep network names inside the cache directory

Directories were created before the name was checked, the check missed a
trailing '..', rsync targets were not checked at all, and names that are no
rsync URL or collide with an existing file ended the process.
---
 cmd/octorpki/octorpki.go | 55 ++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..4dd623d 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -324,17 +324,17 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+	fp, err := cachePath(rsyncURL)
+	if err != nil {
+		return err
+	}
 
-	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
-	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
-		return fmt.Errorf("Path %q contains illegal path element", filePath)
+	err = os.MkdirAll(filepath.Dir(fp), os.ModePerm)
+	if err != nil {
+		return fmt.Errorf("Failed to create directories: %v", err)
 	}
 
-	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
 		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
@@ -342,11 +342,19 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	return nil
 }
 
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+// cachePath returns the place of an rsync URL in the cache directory.
+func cachePath(rsyncURL string) (string, error) {
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
 	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
+		return "", err
 	}
+
+	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
+	if !filepath.IsLocal(filePath) || filepath.Clean(filePath) == "." || strings.Contains(filePath, "..\\") {
+		return "", fmt.Errorf("Path %q contains illegal path element", filePath)
+	}
+
+	return filepath.Join(*Basepath, filePath), nil
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
@@ -529,24 +537,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
-func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
-	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Unable to extract file path from rsync url: %v", err)
-	}
-
-	return fPath
-}
-
 func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan := s.tracer.StartSpan("sync", opentracing.ChildOf(span.Context()))
 	defer rSpan.Finish()
@@ -554,9 +544,12 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
-	downloadPath := mustExtractFilePathFromRsyncURL(uri)
+	path, err := cachePath(uri)
+	if err != nil {
+		s.rsyncError(uri, path, err, rSpan)
+		return
+	}
 
-	path := filepath.Join(*Basepath, downloadPath)
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
 
-- 
2.43.0


From 8eecd1b9fe3058a1e781f1ec6a0e1a1f8a3cd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 20/29] fix: require RRDP objects to be inside the domain of
 their server

The domain was searched anywhere in the URI, and an unknown domain allowed
everything.
---
 cmd/octorpki/octorpki.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 4dd623d..f1005fa 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -358,12 +358,13 @@ func cachePath(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
+	var rsync string
 	if len(args) > 0 {
-		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
-			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
-			return nil
-		}
+		rsync, _ = args[0].(string)
+	}
+	if rsync == "" || !strings.HasPrefix(path, rsync) {
+		log.Errorf("rrdp: %s is outside directory %s", path, rsync)
+		return nil
 	}
 
 	err := s.WriteRsyncFileOnDisk(path, data)
-- 
2.43.0


From 7bf0c65bd14df90d7c21d16a8c7b22000891cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 21/29] fix: limit the size of downloaded trust anchors

---
 cmd/octorpki/octorpki.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index f1005fa..ece7d97 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -672,7 +672,6 @@ func (s *OctoRPKI) getHTTP(uri string, tfSpan opentracing.Span, sHub *sentry.Hub
 		Category: "http",
 	}
 
-	// maybe add a limit in the client? To avoid downloading huge files (that wouldn't be certs)
 	resp, err := s.HTTPFetcher.Client.Do(req)
 	if err != nil {
 		sbc.Level = sentry.LevelError
@@ -695,7 +694,8 @@ func (s *OctoRPKI) getHTTP(uri string, tfSpan opentracing.Span, sHub *sentry.Hub
 
 	sHub.AddBreadcrumb(sbc, nil)
 
-	data, err := ioutil.ReadAll(resp.Body)
+	// GHSA-g9wh-3vrx-r7hg: Do not process responses that are excessively large
+	data, err := ioutil.ReadAll(http.MaxBytesReader(nil, resp.Body, syncpki.ResponseLimit))
 	tfSpan.LogKV("size", len(data))
 	if err != nil {
 		sHub.CaptureException(err)
-- 
2.43.0


From 94d31cc15f263d99682c038b92de57edb8352edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 22/29] fix: close and limit the replies of Certificate
 Transparency logs

Replies were read without limit and never closed, and ctrpki's client had no
timeout.
---
 cmd/ctrpki/ctrpki.go |  2 +-
 cmd/octorpki/ct.go   | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9cfbe10..d8f8930 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -72,7 +72,7 @@ func main() {
 		validator.Time = vt
 	}
 
-	ctclient, err := client.New(*CertificateTransparency, http.DefaultClient, jsonclient.Options{
+	ctclient, err := client.New(*CertificateTransparency, &http.Client{Timeout: time.Second * 60}, jsonclient.Options{
 		Logger:    log.StandardLogger(),
 		UserAgent: "Cloudflare-RPKI-CT/1.0 (+https://github.com/cloudflare/cfrpki)",
 	})
diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e2c19cd..e552bbe 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -25,18 +25,29 @@ var (
 	CertTransparencyTimeout = flag.Int("ct.timeout", 50, "CT timeout in seconds")
 )
 
+const maxCTResponse = 1 << 20
+
 func SingleSendCertificateTransparency(httpclient *http.Client, path string, msg *ct.AddChainRequest) error {
 	buf := bytes.NewBuffer([]byte{})
 	enc := json.NewEncoder(buf)
 	enc.Encode(msg)
 
 	resp, err := httpclient.Post(fmt.Sprintf("%v/ct/v1/add-chain", path), "application/json", buf)
-	if err == nil {
-		respStr, _ := io.ReadAll(resp.Body)
-		log.Debugf("Sent %v certs %v %v %v", len(msg.Chain), path, string(respStr), err)
+	if err != nil {
+		return err
+	}
+	defer resp.Body.Close()
+
+	respStr, err := io.ReadAll(io.LimitReader(resp.Body, maxCTResponse))
+	if err != nil {
+		return err
+	}
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("CT log %v replied: %v", path, resp.Status)
 	}
+	log.Debugf("Sent %v certs %v %v", len(msg.Chain), path, string(respStr))
 
-	return err
+	return nil
 }
 
 func BatchCertificateTransparency(httpclient *http.Client, path string, d chan *ct.AddChainRequest) {
-- 
2.43.0


From ed263f743fc919cf17a67a898c67b13899e1362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 23/29] fix: do not use files that are not available

The store answers with nothing for a file that is missing, which the server
and the CT submission dereferenced. Ancestors of a chain that are not valid
are skipped too.
---
 cmd/ctrpki/ctrpki.go     | 16 +++++++++++-----
 cmd/octorpki/ct.go       | 16 +++++++++++-----
 cmd/octorpki/octorpki.go |  6 +++---
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index d8f8930..229b6b9 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -161,7 +161,18 @@ func main() {
 
 		for _, cert := range certs {
 			var dataBytes []byte
+			if cert == nil {
+				continue
+			}
 			data, err := s.GetFile(cert)
+			if err != nil {
+				log.Error(err)
+				continue
+			}
+			if data == nil {
+				log.Errorf("%v is not available", cert.Path)
+				continue
+			}
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
@@ -172,11 +183,6 @@ func main() {
 			} else {
 				dataBytes = data.Data
 			}
-
-			if err != nil {
-				log.Error(err)
-				continue
-			}
 			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 		}
 
diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e552bbe..a2fad9a 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -88,7 +88,18 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 
 		for _, cert := range certs {
 			var dataBytes []byte
+			if cert == nil {
+				continue
+			}
 			data, err := s.Fetcher.GetFile(cert)
+			if err != nil {
+				log.Error(err)
+				continue
+			}
+			if data == nil {
+				log.Errorf("%v is not available", cert.Path)
+				continue
+			}
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
@@ -100,11 +111,6 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-
 			chain = append(chain, dataBytes)
 		}
 
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index ece7d97..0832375 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -794,7 +794,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				if obj.File != nil {
 					path = obj.File.ComputePath()
 					resData, err := s.Fetcher.GetFileConv(obj.File, false)
-					if err == nil {
+					if err == nil && resData != nil {
 						hashBytes := sha256.Sum256(resData.Data)
 						hash = hex.EncodeToString(hashBytes[:])
 					}
@@ -882,7 +882,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
@@ -947,7 +947,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
-- 
2.43.0


From 048cf515501be2324d1923077fa50cfc9dba11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 24/29] fix: lock the state shared with the HTTP handlers

The handlers read the ROA list, the time of the last computation and the
statistics while the main loop replaces them. The resource list was sent with
its lock held, so a slow client stopped the main loop.
---
 cmd/octorpki/octorpki.go | 75 +++++++++++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 0832375..fff6c85 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -206,7 +206,9 @@ type OctoRPKI struct {
 	TalsFetch    map[string]*librpki.RPKITAL
 	TalNames     []string
 	LastComputed time.Time
-	Key          *ecdsa.PrivateKey
+	// LastComputedMu protects LastComputed
+	LastComputedMu sync.RWMutex
+	Key            *ecdsa.PrivateKey
 
 	Stable            atomic.Bool // Indicates something has been added to the fetch list (rsync or rrdp)
 	HasPreviousStable atomic.Bool
@@ -281,6 +283,28 @@ type octoRPKIStats struct {
 	ValidationDuration time.Duration
 	iterations         atomic.Uint64
 	ROAsTALsCount      []ROAsTAL
+	mu                 sync.RWMutex // protects ValidationDuration and ROAsTALsCount
+}
+
+func (st *octoRPKIStats) setValidationDuration(d time.Duration) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	st.ValidationDuration = d
+}
+
+func (st *octoRPKIStats) setROAsTALsCount(counts []ROAsTAL) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	st.ROAsTALsCount = counts
+}
+
+func (st *octoRPKIStats) get() (time.Duration, []ROAsTAL) {
+	st.mu.RLock()
+	defer st.mu.RUnlock()
+
+	return st.ValidationDuration, st.ROAsTALsCount
 }
 
 func newOctoRPKIStats() *octoRPKIStats {
@@ -772,7 +796,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 	resourcesMap := make(map[string]*schemas.OutputRes)
 	resourcesjson.Metadata.Generated = int(time.Now().UTC().UnixNano() / 1000000000)
-	s.stats.ROAsTALsCount = make([]ROAsTAL, 0)
+	roasTALsCount := make([]ROAsTAL, 0)
 	for i, tal := range s.Tals {
 		eSpan := s.tracer.StartSpan("extract", opentracing.ChildOf(span.Context()))
 		eSpan.SetTag("tal", tal.Path)
@@ -935,7 +959,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			resourcesjson.Resources = append(resourcesjson.Resources, curResource)
 		}
 
-		s.stats.ROAsTALsCount = append(s.stats.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
+		roasTALsCount = append(roasTALsCount, ROAsTAL{TA: talname, Count: counttal})
 		MetricROAsCount.With(prometheus.Labels{"ta": talname}).Set(float64(counttal))
 
 		// Complete: Manifests
@@ -990,8 +1014,9 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 
 		eSpan.Finish()
 	}
+	s.stats.setROAsTALsCount(roasTALsCount)
 	curTime := time.Now()
-	s.LastComputed = curTime
+	s.setLastComputed(curTime)
 	validTime := curTime.Add(*ValidityDuration)
 	roalist.Metadata = prefixfile.MetaData{
 		Counts:    counts,
@@ -1128,9 +1153,10 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	s.setROAList(s.generateROAList(pkiManagers, span))
 
 	t2 := time.Now()
-	s.stats.ValidationDuration = t2.Sub(t1)
-	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
-	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
+	duration := t2.Sub(t1)
+	s.stats.setValidationDuration(duration)
+	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(duration.Seconds()))
+	MetricLastValidation.Set(float64(s.getLastComputed().Unix()))
 
 	return ctData
 }
@@ -1194,6 +1220,20 @@ func (s *OctoRPKI) getROAList() *prefixfile.ROAList {
 	return s.ROAList
 }
 
+func (s *OctoRPKI) setLastComputed(t time.Time) {
+	s.LastComputedMu.Lock()
+	defer s.LastComputedMu.Unlock()
+
+	s.LastComputed = t
+}
+
+func (s *OctoRPKI) getLastComputed() time.Time {
+	s.LastComputedMu.RLock()
+	defer s.LastComputedMu.RUnlock()
+
+	return s.LastComputed
+}
+
 func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 	if !s.Stable.Load() && *WaitStable && !s.HasPreviousStable.Load() {
 		w.WriteHeader(http.StatusServiceUnavailable)
@@ -1201,7 +1241,7 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	upTo := s.LastComputed.Add(*ValidityDuration)
+	upTo := s.getLastComputed().Add(*ValidityDuration)
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
 	w.Header().Set("Content-Type", "application/json")
@@ -1240,8 +1280,9 @@ func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
 	enc := json.NewEncoder(w)
 
 	s.ResourcesMu.RLock()
-	defer s.ResourcesMu.RUnlock()
-	enc.Encode(s.Resources)
+	resources := s.Resources
+	s.ResourcesMu.RUnlock()
+	enc.Encode(resources)
 }
 
 func (s *OctoRPKI) ServeHealth(w http.ResponseWriter, r *http.Request) {
@@ -1306,13 +1347,15 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
+	validationDuration, roasTALsCount := s.stats.get()
+
 	ir := InfoResult{
 		TAs:                ias,
-		ROACount:           len(s.ROAList.Data),
-		ROAsTALs:           s.stats.ROAsTALsCount,
+		ROACount:           len(s.getROAList().Data),
+		ROAsTALs:           roasTALsCount,
 		Stable:             s.Stable.Load(),
-		LastValidation:     int(s.LastComputed.Unix()),
-		ValidationDuration: s.stats.ValidationDuration.Seconds(),
+		LastValidation:     int(s.getLastComputed().Unix()),
+		ValidationDuration: validationDuration.Seconds(),
 		Iteration:          int(s.stats.iterations.Load()),
 	}
 	enc := json.NewEncoder(w)
@@ -1595,7 +1638,7 @@ func (s *OctoRPKI) validationLoop() {
 		}
 
 		if s.Stable.Load() {
-			MetricLastStableValidation.Set(float64(s.LastComputed.Unix()))
+			MetricLastStableValidation.Set(float64(s.getLastComputed().Unix()))
 			MetricState.Set(float64(1))
 
 			pSpan.SetTag("iterations", iterationsUntilStable)
@@ -1621,7 +1664,7 @@ func (s *OctoRPKI) mustOutput() {
 }
 
 func (s *OctoRPKI) output() error {
-	fc, err := json.Marshal(s.ROAList)
+	fc, err := json.Marshal(s.getROAList())
 	if err != nil {
 		return fmt.Errorf("unable to marshal ROA list: %v", err)
 	}
-- 
2.43.0


From bca1cf58681b555abb555282f7432d58528f13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 25/29] fix: run at least one fetch worker

With -max_concurrent_retrievals=0 the first round never ended.
---
 cmd/octorpki/octorpki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index fff6c85..b79648c 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1501,6 +1501,10 @@ func main() {
 		*CertTransparencyThreads = 1
 	}
 
+	if *MaxConcurrentRetrievals < 1 {
+		*MaxConcurrentRetrievals = 1
+	}
+
 	s.validationLoop()
 }
 
-- 
2.43.0


From f8282079f1a898d39284fe2692d7cd5966b525cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 26/29] fix: report failures while listing a repository over
 the API

---
 sync/api/fetch.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index bb5b14c..d15b9cc 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -3,6 +3,7 @@ package cfrpki
 import (
 	"context"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"strings"
 
@@ -81,7 +82,10 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 			}
 		}
 
-		data, _ := librpki.BER2DER(resource.Data)
+		data, err := librpki.BER2DER(resource.Data)
+		if err != nil {
+			return fmt.Errorf("librpki.BER2DER failed: %v", err)
+		}
 
 		callback(
 			&pki.PKIFile{
@@ -97,5 +101,8 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 
 		resource, err = resources.Recv()
 	}
+	if err != nil && err != io.EOF {
+		return err
+	}
 	return nil
 }
-- 
2.43.0


From 18df4132f7057c8de39a446b588cceeabaf3d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 27/29] fix: refuse manifests that name the parent directory
 itself

---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 0a03742..b53ee43 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -777,7 +777,7 @@ func ExtractPathManifest(mft *librpki.RPKIManifest) ([]*PKIFile, error) {
 		path := string(curFile)
 		// GHSA-8459-6rc9-8vf8: Prevent file path references to parent
 		// directories.
-		if strings.Contains(path, "../") || strings.Contains(path, "..\\") {
+		if strings.Contains(path+"/", "../") || strings.Contains(path, "..\\") {
 			return nil, fmt.Errorf("Path %q contains illegal path element", path)
 		}
 		item := PKIFile{
-- 
2.43.0


From a28876e815a432e090fb0e85df2bdce31fde4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 28/29] fix: invalidate every certificate with a revoked serial
 number

---
 validator/pki/pki.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index b53ee43..80c72c4 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -694,16 +694,13 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := serialKey(aki, revoked.SerialNumber)
-				child, found := v.CertsSerial[key]
-				if found {
-					childConv := child.Resource.(*librpki.RPKICertificate)
-					if childConv.Certificate.SerialNumber.Cmp(revoked.SerialNumber) == 0 {
-						v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-					}
+				v.Revoked[serialKey(aki, revoked.SerialNumber)] = true
+			}
+			for _, child := range parent.Childs {
+				childConv, ok := child.Resource.(*librpki.RPKICertificate)
+				if ok && v.Revoked[serialKey(aki, childConv.Certificate.SerialNumber)] {
+					v.InvalidateObject(childConv.Certificate.SubjectKeyId)
 				}
-
-				v.Revoked[key] = true
 			}
 			parent.Childs = append(parent.Childs, res)
 		}
-- 
2.43.0


From af68bf8041c0a7ba3ffa5ab6a721a1248297d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 29/29] fix: do not copy symbolic links with rsync

A repository that publishes a symbolic link made later writes below its
name leave the cache directory.
---
 sync/lib/rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index f872f9f..7cf685b 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -69,7 +69,7 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
-	cmd := exec.CommandContext(ctx, bin, "-vrlt", uri, dirPath)
+	cmd := exec.CommandContext(ctx, bin, "-vrt", uri, dirPath)
 	log.Debugf("Command ran: %v", cmd)
 
 	stdout, err := cmd.StdoutPipe()
-- 
2.43.0

