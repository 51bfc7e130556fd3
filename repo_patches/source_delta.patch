From d19164b130c5cab4d8c3627f19d864619a8666c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 01/89] fix: reject WIN_CERTIFICATE lengths that do not match
 the data

WinCertPkcs1.decode accepted a dwLength below the header size (a negative
read then swallowed the whole stream) and WinCertUefiGuid.decode accepted a
dwLength beyond the buffer (the certificate was silently truncated).
---
 edk2toollib/uefi/wincert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..0562838 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -161,6 +161,9 @@ class WinCertPkcs1(object):
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
+        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
+            raise ValueError("Invalid certificate length")
+
         if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
             raise ValueError("Invalid file stream size")
 
@@ -408,7 +411,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From dcbcc5948d5f4049212efc66f0257502120705ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:16 +0000
Subject: [PATCH 02/89] fix: FmpAuthHeaderClass.IsSigned recognizes a PKCS7
 certificate

The certificate type is a uuid.UUID and was compared with a bytes value, so
the method returned False for every signed buffer; an invalid buffer raised
instead of returning False as documented.
---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..cc438b9 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -93,10 +93,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From 2e5d028f85a17b76a796fe3dc1a3520f96412381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 03/89] fix: a capsule decode drops the nested header of an
 earlier decode

Decoding a capsule without a nested header into an object that had one left
the old nested header in place, and Encode emitted the old payload.
---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 1 +
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index cc438b9..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..721e715 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..4f8ac4e 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -121,6 +121,7 @@ class UefiCapsuleHeaderClass(object):
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From ebf12df0ff33e5057464f89e30c4e3fc61fe5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 04/89] fix: capsule and payload headers keep an extended
 header

A HeaderSize larger than the structure was decoded but its extra bytes were
not encoded again, so the sizes written did not match the data; a HeaderSize
beyond the buffer was accepted.
---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 10 ++++++++--
 edk2toollib/uefi/uefi_capsule_header.py     | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..2899197 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -49,6 +49,7 @@ class FmpPayloadHeaderClass(object):
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
         self.Payload = b""
+        self._ExtendedHeader = b""
 
     def Encode(self) -> bytes:
         r"""Serializes the Header + payload.
@@ -59,7 +60,11 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        # HeaderSize may be larger than the structure, any extended header follows it.
+        ExtendedSize = self.HeaderSize - self._StructSize
+        ExtendedHeader = self._ExtendedHeader[:ExtendedSize].ljust(ExtendedSize, b"\x00")
+
+        return FmpPayloadHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -82,12 +87,13 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4f8ac4e..55c8dfc 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -62,6 +62,7 @@ class UefiCapsuleHeaderClass(object):
         self.InitiateReset = False
         self.CapsuleImageSize = self.HeaderSize
         self.Payload = b""
+        self._ExtendedHeader = b""
         self.FmpCapsuleHeader = None
 
     def Encode(self) -> bytes:
@@ -88,7 +89,11 @@ class UefiCapsuleHeaderClass(object):
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        # HeaderSize may be larger than the structure, any extended header follows it.
+        ExtendedSize = self.HeaderSize - self._StructSize
+        ExtendedHeader = self._ExtendedHeader[:ExtendedSize].ljust(ExtendedSize, b"\x00")
+
+        return UefiCapsuleHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -109,7 +114,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
@@ -120,6 +125,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
-- 
2.43.0


From 495e68ef87deda5202cc5c6022083ee58567db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 05/89] fix: a decoded FMP capsule header counts every item
 once

---
 edk2toollib/uefi/fmp_capsule_header.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 721e715..77c8493 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -295,8 +295,9 @@ class FmpCapsuleHeaderClass(object):
             raise ValueError
 
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        # the counts follow the items as they are added
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
-- 
2.43.0


From ebf1e4d7141709bac3cea27df587662be1bd3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 06/89] fix: reject an X509 signature data size that cannot
 hold the owner GUID

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..d80c357 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -183,7 +183,7 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Steam")
 
-        if decodesize == 0:
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:  # size of the guid
             raise ValueError("Invalid Decode Size")
 
         # only populate from file stream those parts that are complete in the file stream
-- 
2.43.0


From 53d979def3b12896803e7d3a9dc8e96c2c85d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 07/89] fix: an encoded signature list without signatures
 decodes again

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index d80c357..5417abb 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -659,7 +659,9 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        # an empty list may have a signature size of 0
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or data_size % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
-- 
2.43.0


From 4903f9df7849668e4b17b915961240979b481786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 08/89] fix: merging into an empty signature list takes over
 the signature size

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 5417abb..b9f56bb 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -835,7 +835,7 @@ class EfiSignatureList(CommonUefiStructure):
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From 6ba0b6ccb2daf78b84b4adfbcc51cddb95e9ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 09/89] fix: canonicalizing a signature database leaves the
 database unchanged

---
 .../uefi/authenticated_variables_structure_support.py    | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index b9f56bb..3288f71 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1011,13 +1011,12 @@ class EfiSignatureDatabase(CommonUefiStructure):
         x509eslList = None
 
         for Esl in self.esl_list:
-            if Esl.signature_data_list is None:  # discard empty EfiSignatureLists
+            if not Esl.signature_data_list:  # discard empty EfiSignatureLists
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
-                if sha256esl is None:
-                    sha256esl = Esl  # initialize it
-                else:
-                    sha256esl.MergeSignatureList(Esl)
+                if sha256esl is None:  # merge into a new list, this database stays as it is
+                    sha256esl = EfiSignatureList(typeguid=Esl.signature_type)
+                sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
                 if x509eslList is None:
                     x509eslList = [Esl]  # initialize it
-- 
2.43.0


From 0b5922375334e8e3e3921b881fa134290932a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 10/89] fix: canonical signature database drops duplicate
 certificates

---
 .../uefi/authenticated_variables_structure_support.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 3288f71..f8f74f9 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1039,14 +1039,17 @@ class EfiSignatureDatabase(CommonUefiStructure):
             duplicatesDb.esl_list.append(dupes)
 
         if x509eslList is not None:
-            x509eslList.sort(key=attrgetter("signature_data_list"))
+            def contents(esl: EfiSignatureList) -> list[bytes]:
+                return [data.signature_data for data in esl.signature_data_list]
+
+            x509eslList.sort(key=contents)
+            previous = None
             for esl in x509eslList:
-                if not canonicalDb.esl_list:
-                    canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                if contents(esl) == previous:
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
+                previous = contents(esl)
 
         return (canonicalDb, duplicatesDb)
 
-- 
2.43.0


From 49210ded34eeeb5dcb36f3c6a603ddd6601e4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 11/89] fix: reject an authenticated variable without a
 supported certificate

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index f8f74f9..ac5d965 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1309,6 +1309,8 @@ class EfiVariableAuthentication2(CommonUefiStructure):
             raise Exception("Invalid File Steam")
         self.time = EfiTime(decodefs=fs)
         self.auth_info = WinCert.factory(fs)
+        if self.auth_info is None:
+            raise Exception("Invalid or unsupported certificate type")
         self.payload = None
         self.sig_list_payload = None
 
-- 
2.43.0


From 0a11c5466d9181775f319e4efc746bf4988b988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 12/89] fix: a lock policy name without terminator is reported
 for odd lengths too

---
 edk2toollib/uefi/edk2/variable_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..3eba765 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -55,7 +55,7 @@ class VariableLockOnVarStatePolicy(object):
             raise ValueError("Buffer too short!")
 
         string_end = None
-        for i in range(0, len(buffer), 2):
+        for i in range(0, len(buffer) - 1, 2):
             if buffer[i] == 0 and buffer[i + 1] == 0:
                 string_end = i + 2
                 break
-- 
2.43.0


From a91e9ef512096429400285f5789abddc008b7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 13/89] fix: variable policy names are little-endian CHAR16
 without byte order mark

---
 edk2toollib/uefi/edk2/variable_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 3eba765..0339d07 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -63,7 +63,7 @@ class VariableLockOnVarStatePolicy(object):
         if string_end is None:
             raise ValueError("String end not detected!")
 
-        self.Name = buffer[:string_end].decode("utf-16").strip("\x00")
+        self.Name = buffer[:string_end].decode("utf-16-le").strip("\x00")
 
         return buffer[string_end:]
 
@@ -228,7 +228,7 @@ class VariablePolicyEntry(object):
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
         if self.OffsetToName != self.Size:
-            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
+            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
-- 
2.43.0


From 84ca98ef3b8686d7c3195317c291f39c2b37f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 14/89] fix: reject variable policy entries whose sizes do not
 fit and forget an earlier decode

---
 edk2toollib/uefi/edk2/variable_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 0339d07..92a079a 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -225,8 +225,13 @@ class VariablePolicyEntry(object):
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
 
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
+            raise ValueError("Sizes do not fit the buffer!")
+
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
+        self.LockPolicy = None
         if self.OffsetToName != self.Size:
             self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
-- 
2.43.0


From 1cc77756d8007beefa00bc00cd868ff3429061ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 15/89] fix: a variable name starting with a byte order mark
 keeps it

---
 edk2toollib/uefi/edk2/variable_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..2da1858 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -151,7 +151,7 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
+        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16-le")
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
@@ -180,7 +180,7 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Name = file.read(self.NameSize).decode("utf-16-le")[:-1]  # Strip the terminating char.
         self.Data = file.read(self.DataSize)
 
         file.seek(orig_seek)
-- 
2.43.0


From bbac31a94ac552b9fa9d80a2a2c4dbed55d913b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 16/89] fix: variables are not written past the end of the
 variable store

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..97d56b8 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -108,6 +108,8 @@ class VariableStore(object):
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
+        # The size of the store includes its own header.
+        var_size += self.var_store_header.StructSize
         if var_size > self.var_store_header.Size:
             raise Exception(
                 "Total variable size %d is too large to fit in VarStore %d!" % (var_size, self.var_store_header.Size)
-- 
2.43.0


From 4f1c9ba1eef9a5f0a7db14c8343a104caf786e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 17/89] fix: reading variables stops at the end of the variable
 store

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 97d56b8..7aa1f63 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -61,9 +61,12 @@ class VariableStore(object):
 
         # Now we're finally ready to read some variables.
         self.variables = []
+        store_end = self.rom_file.tell() + self.var_store_header.Size
+        var_struct_size = self.get_new_var_class().StructSize
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
         try:
-            while True:
+            # A full store has no terminating header.
+            while self.rom_file.tell() + var_struct_size <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
 
                 # Seek past the current variable in the store.
-- 
2.43.0


From 29226771c121e7ce2f67e3a8f2021cb2fa3392a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 18/89] fix: BmpColorMap.Print gets its logger

---
 edk2toollib/uefi/bmp_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..2e3d4f8 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
-- 
2.43.0


From 50db4c76734f1cb44d09ddf544553ca801701f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 19/89] fix: an empty BmpObject can be created and written

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 2e3d4f8..37bb547 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = self.Size
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From d52de1c8b9fb76b493296d1d888841b0d4dbee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 20/89] fix: BmpObject.Write writes the padding it read

---
 edk2toollib/uefi/bmp_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 37bb547..4134ddc 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -331,7 +331,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From e3d39471f94a1f7a0d5d11a59e77b1daf9b15bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 21/89] fix: a bitmap whose Size contradicts the data is
 rejected

---
 edk2toollib/uefi/bmp_object.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 4134ddc..9e8624d 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -211,11 +211,11 @@ class BmpObject(object):
         if self.Size < self.HeaderSize:
             raise Exception("Size can't be smaller than HeaderSize")
 
-        if (end - fs.tell()) < (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE):
-            raise Exception(
-                "Invalid file stream size (Size) 0x%X Less Than 0x%X"
-                % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
-            )
+        if (end - offset) < self.Size:
+            raise Exception("Invalid file stream size (Size) 0x%X Less Than 0x%X" % ((end - offset), self.Size))
+
+        if self.Size < self.ImageOffset or self.Size < fs.tell() - offset:
+            raise Exception("Size can't be smaller than the headers and ImageOffset")
 
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
@@ -239,7 +239,7 @@ class BmpObject(object):
             self._PaddingLength = StartOfImageData - fs.tell()
             self._Padding = fs.read(self._PaddingLength)
 
-        self.ImageData = fs.read(self.Size - self.ImageOffset)
+        self.ImageData = fs.read(offset + self.Size - fs.tell())
 
         if (end - fs.tell()) > 0:
             raise Exception("Extra Data at the end of BMP file - 0x%X bytes" % (end - fs.tell()))
-- 
2.43.0


From 904730c97e08dfb332b8a4208ea4dca28023f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 22/89] fix: reading a bitmap drops color map and padding of an
 earlier one

---
 edk2toollib/uefi/bmp_object.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 9e8624d..a603a2f 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -217,6 +217,9 @@ class BmpObject(object):
         if self.Size < self.ImageOffset or self.Size < fs.tell() - offset:
             raise Exception("Size can't be smaller than the headers and ImageOffset")
 
+        self.ColorMapList = []
+        self._Padding = None
+        self._PaddingLength = 0
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
             # Handle any color maps
-- 
2.43.0


From a99e75540976c2bc019880613402f8913abdddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 23/89] fix: DMAR struct and scope lengths that do not add up
 are rejected

---
 edk2toollib/acpi/dmar_parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..469fe1e 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -35,6 +35,8 @@ class DMARTable(object):
         while len(self.data) > 0:
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
+            if not 0 < remapping_header.Length <= len(self.data):
+                raise Exception("Remapping struct length %d does not fit the DMAR table" % remapping_header.Length)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
 
             # Parse remapping struct
@@ -215,6 +217,8 @@ class DMARTable(object):
                 header_byte_array = header_byte_array[device_scope.Length :]
                 bytes_left -= device_scope.Length
                 self.DeviceScope.append(device_scope)
+            if bytes_left != 0:
+                raise Exception("Device scopes do not add up to the remapping struct length %d" % self.Length)
 
         def toXml(self) -> ET.Element:
             """Converts the object to an xml representation."""
@@ -279,6 +283,8 @@ class DMARTable(object):
                 header_byte_array = header_byte_array[device_scope.Length :]
                 bytes_left -= device_scope.Length
                 self.DeviceScope.append(device_scope)
+            if bytes_left != 0:
+                raise Exception("Device scopes do not add up to the remapping struct length %d" % self.Length)
 
         def getPath(self) -> str:
             """Generates and returns the path."""
@@ -353,6 +359,8 @@ class DMARTable(object):
                 header_byte_array = header_byte_array[device_scope.Length :]
                 bytes_left -= device_scope.Length
                 self.DeviceScope.append(device_scope)
+            if bytes_left != 0:
+                raise Exception("Device scopes do not add up to the remapping struct length %d" % self.Length)
 
         def toXml(self) -> ET.Element:
             """Converts the object to an xml representation."""
@@ -400,6 +408,8 @@ class DMARTable(object):
             (self.Type, self.Length, self.Reserved, self.RegisterBaseAddress, self.ProximityDomain) = (
                 struct.unpack_from(DMARTable.RHSAStruct.STRUCT_FORMAT, header_byte_array)
             )
+            if self.Length != struct.calcsize(DMARTable.RHSAStruct.STRUCT_FORMAT):
+                raise Exception("Invalid RHSA length %d" % self.Length)
 
         def toXml(self) -> ET.Element:
             """Converts the object to an xml representation."""
@@ -479,6 +489,9 @@ class DMARTable(object):
 
             assert self.Type < 6, "Reserved Device Scope Type Found"
 
+            if self.Length % 2 or not DMARTable.DeviceScopeHeaderLength <= self.Length <= len(header_byte_array):
+                raise Exception("Invalid device scope length %d" % self.Length)
+
             if self.Type == 1:
                 self.TypeString = "PCI Endpoint Device"
             elif self.Type == 2:
@@ -493,7 +506,7 @@ class DMARTable(object):
                 print("Reserved Device Scope Type Found")
                 sys.exit(-1)
 
-            number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) / 2
+            number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) // 2
             offset = 6
             self.Path = list()
             while number_path_entries > 0:
-- 
2.43.0


From 208c8b445ad9341cb77375ea6744e21855fbf748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 24/89] fix: decoding into a used IVRS table or IVHD drops the
 earlier contents

---
 edk2toollib/acpi/ivrs_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..bb573d1 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -31,6 +31,8 @@ class IVRS_TABLE(object):
 
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
+        self.SubStructs = list()
+        self.IVMD_list = list()
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
 
         # Start from the end of ACPI header, but store the parsed length for verification
@@ -304,6 +306,9 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.IOMMUEFRImage = None
+            self.Reserved = 0
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
-- 
2.43.0


From 73db52dad88f816a4c7bda7d45df8428ab791944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 25/89] fix: a select device entry of an IVRS table is not
 named reserved

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index bb573d1..ac06771 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -704,7 +704,7 @@ class IVRS_TABLE(object):
                     self.Type,
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
-- 
2.43.0


From 0b3febd8203d0c5187f2fba61423461f29ef7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 26/89] fix: an ACPI device entry whose UID exceeds the data is
 rejected

---
 edk2toollib/acpi/ivrs_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index ac06771..cc73db0 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -1234,6 +1234,8 @@ class IVRS_TABLE(object):
                 ],
             )
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.dte_var_len + self.UIDLength
+            if len(header_byte_array) < self.Length:
+                raise Exception("Device entry of %d bytes exceeds the data" % self.Length)
             if self.UIDFormat == 0:
                 self.UID = None
             elif self.UIDFormat == 1:
-- 
2.43.0


From eaf666c605bc552033db18def51818ad9a8163b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 27/89] fix: the TPM simulator connection works on Python 3 and
 with partial reads

---
 edk2toollib/tpm/tpm2_simulator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..ce391d9 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -65,13 +65,18 @@ class TpmSimulator(object):
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
-        self.tpmSock.send(data)
+        print("RAW -->: " + data.hex())
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        data = b""
+        while len(data) < count:
+            received = self.tpmSock.recv(count - len(data))
+            if not received:
+                raise ConnectionError("TPM simulator closed the connection after %d of %d bytes" % (len(data), count))
+            data += received
+        print("RAW <--: " + data.hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From c6f6575b93fcf6179f751da2482decd6d416d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 28/89] fix: the size in a TPM command follows elements updated
 later

---
 edk2toollib/tpm/tpm2_stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_stream.py b/edk2toollib/tpm/tpm2_stream.py
index 002171e..31b36ec 100644
--- a/edk2toollib/tpm/tpm2_stream.py
+++ b/edk2toollib/tpm/tpm2_stream.py
@@ -122,13 +122,14 @@ class Tpm2CommandStream(object):
 
     def get_size(self) -> int:
         """Returns the stream size."""
+        # Elements may have been updated after they were added
+        self.stream_size = self.header.get_size() + sum(element.get_size() for element in self.stream_elements)
         return self.stream_size
 
     def add_element(self, element: "Tpm2StreamElement") -> None:
         """Adds an element to the stream list."""
         self.stream_elements.append(element)
-        self.stream_size += element.get_size()
-        self.header.update_size(self.stream_size)
+        self.header.update_size(self.get_size())
 
     def get_stream(self) -> str:
         r"""Serializes the Header + elements.
@@ -136,4 +137,5 @@ class Tpm2CommandStream(object):
         Returns:
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        self.header.update_size(self.get_size())
         return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
-- 
2.43.0


From 15537bba208030e72b321c188c0d515b2563ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 29/89] fix: a PC Card device path node can be decoded

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From 0f9a87b34b0879a30f98527b6c2a3992d6060ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 30/89] fix: device path node lengths below the header or above
 the data are rejected

---
 edk2toollib/uefi/device_path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..71fbd25 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -1082,14 +1082,14 @@ class DevicePathFactory(object):
 
         while offset < len(binary):
             header = EfiDevicePathProtocol.decode(binary[offset:])
+            if header.dev_length < EfiDevicePathProtocol._dp_struct_size or offset + header.dev_length > len(binary):
+                # dev_length is user controlled after all..
+                raise ValueError(f"Invalid Header Length: {header}")
+
             device_path_class = DevicePathFactory._find_implementation(header)
             device_path = device_path_class.from_binary(header)
             device_paths.append(device_path)
 
-            if header.dev_length == 0:
-                # dev_length is user controlled after all..
-                raise ValueError(f"Invalid Header Length: {header}")
-
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From c7ab162af045c7a540873142645cd89dc1ffc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 31/89] fix: device path nodes of unknown types are kept as
 unimplemented

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 71fbd25..f48902d 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -963,7 +963,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
-- 
2.43.0


From aaa0275eca6fa23b44cd1d4a150417f6ba93d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 32/89] fix: a firmware policy element at stream offset 0 is
 read from there

---
 edk2toollib/windows/policy/firmware_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..4e9407d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -285,7 +285,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -365,7 +365,7 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
         LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
@@ -445,7 +445,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From f593d3a1e614e0897624f43f192aedc71aa6b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 33/89] fix: a firmware policy string with characters outside
 the BMP can be read back

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4e9407d..a0cdb02 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -368,10 +368,10 @@ class PolicyString:
         if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = fs.read(StringLength)
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
-        return cls(String=LocalString)
+        return cls(String=bytes.decode(StringBytes, encoding="utf_16_le"))
 
     @classmethod
     def FromBytes(cls: "PolicyString", b: bytes, bOffset: int = 0) -> "PolicyString":
@@ -386,10 +386,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = b[bOffset : bOffset + StringLength]
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
-        return cls(String=LocalString)
+        return cls(String=bytes.decode(StringBytes, encoding="utf_16_le"))
 
     def Print(self, prefix: str = "") -> None:
         """Prints the contents of the Policy String.
-- 
2.43.0


From f5533697f81a82e119bff1cc564f9f760dc123ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 34/89] fix: adding an equal firmware policy rule again is
 detected

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index a0cdb02..5d45358 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -275,6 +275,10 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Types are equal when their numbers are."""
+        return isinstance(other, PolicyValueType) and self.vt == other.vt
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -354,6 +358,10 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Policy strings are equal when their strings are."""
+        return isinstance(other, PolicyString) and self.String == other.String
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -432,6 +440,10 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Values are equal when type and value are."""
+        return isinstance(other, PolicyValue) and self.valueType == other.valueType and self.value == other.value
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
-- 
2.43.0


From 57c7c016541e0054b8ba4d07baa5eda2e9793a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:54 +0000
Subject: [PATCH 35/89] fix: !else and !elseif after a true !ifdef or !ifndef
 are inactive

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..a5529d6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From 50ccb1e4359b412c61cec9016274a4b574a9dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 36/89] fix: comparing with a computed truth value in a
 condition no longer crashes

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a5529d6..f350a02 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -245,7 +245,7 @@ class BaseParser(object):
 
         # check to make sure we only have digits from here on out
         if (isinstance(value, str) and value.upper() in ["TRUE", "FALSE"]) or (
-            isinstance(value, str) and value2.upper() in ["TRUE", "FALSE"]
+            isinstance(value2, str) and value2.upper() in ["TRUE", "FALSE"]
         ):
             self.Logger.error(f"Invalid comparison: {value} {cond} {value2}")
             self.Logger.debug(f"Invalid comparison: {value} {cond} {value2}")
-- 
2.43.0


From 09940ecc3fe7cd6caf28720512f08e10c499ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:18 +0000
Subject: [PATCH 37/89] fix: a GUID text followed by anything else is not a
 GUID

---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..2bade9e 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -34,7 +34,7 @@ class GuidParser:
         r"\s*,\s*{{\s*0[xX]{Hex}{{1,2}}\s*,\s*0[xX]{Hex}{{1,2}}"
         r"\s*,\s*0[xX]{Hex}{{1,2}}\s*,\s*0[xX]{Hex}{{1,2}}"
         r"\s*,\s*0[xX]{Hex}{{1,2}}\s*,\s*0[xX]{Hex}{{1,2}}"
-        r"\s*,\s*0[xX]{Hex}{{1,2}}\s*,\s*0[xX]{Hex}{{1,2}}\s*}}\s*}}".format(Hex=_HexChar)
+        r"\s*,\s*0[xX]{Hex}{{1,2}}\s*,\s*0[xX]{Hex}{{1,2}}\s*}}\s*}}\s*;?".format(Hex=_HexChar)
     )
     GuidCFormatRegEx = re.compile(r"{}".format(_GuidCFormatPattern))
 
@@ -55,7 +55,7 @@ class GuidParser:
 
         """
         guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +68,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
-- 
2.43.0


From a24a9a179aa4f85b8649eff1ac5dfea4e3ab2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 38/89] fix: ParseGuid takes the prefix 0X and tabs, and
 refuses what is not a hexadecimal number

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index f350a02..b7bbca4 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -9,6 +9,7 @@
 
 import logging
 import os
+import re
 from typing import Optional, Union
 from warnings import warn
 
@@ -764,11 +765,16 @@ class BaseParser(object):
         Raises:
             (RuntimeError): if missing any of the 11 parts, or it isn't long enough.
         """
-        entries = line.lstrip(" {").rstrip(" }").split(",")
+        entries = line.lower().replace("\t", " ").lstrip(" {").rstrip(" }").split(",")
         if len(entries) != 11:
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
             )
+        for index, entry in enumerate(entries):
+            start = r" *(\{ *)?" if index == 3 else " *"
+            end = r"([ }].*)?" if index == 10 else " *"
+            if not re.fullmatch(start + "(0x)?[0-9a-f]+" + end, entry):
+                raise RuntimeError(f"Invalid GUID found {line}. {entry} is not a hexadecimal number")
         gu = entries[0].lstrip(" 0").lstrip("x").strip()
         # pad front until 8 chars
         while len(gu) < 8:
-- 
2.43.0


From 7231d683016f3aac3e4ce81ec8d6e4ebb9c87db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 39/89] fix: a "$" that starts no variable and an unclosed "$("
 are left alone, and each variable is replaced where it stands

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index b7bbca4..621dfc8 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -383,11 +383,15 @@ class BaseParser(object):
 
         replace = len(tokens) > 1 and tokens[0].lower() in ["!if", "!elseif"]
         # use line to avoid change by handling above
-        rep = line.count("$")
+        rep = line.count("$(")
         index = 0
+        position = 0  # in result, of line[index:]
         while rep > 0:
             start = line.find("$(", index)
             end = line.find(")", start)
+            if start < 0 or end < 0:
+                break
+            position += start - index
 
             token = line[start + 2 : end]
             replacement_token = line[start : end + 1]
@@ -397,8 +401,11 @@ class BaseParser(object):
                 # prevent circular variable replacement
                 if f"$({token})" in v:
                     v = ""
-                result = result.replace(replacement_token, v, 1)
+                result = result[:position] + v + result[position + len(replacement_token) :]
+            else:
+                v = replacement_token
 
+            position += len(v)
             index = end + 1
             rep = rep - 1
 
-- 
2.43.0


From 45ab15d47f6a37f23db4e1a79886768027dca96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 40/89] fix: StripComment removes leading blanks of lines with
 a comment too

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 621dfc8..f1465f1 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -892,7 +892,7 @@ class HashFileParser(BaseParser):
 
             result.append(char)
 
-        return "".join(result).rstrip()
+        return "".join(result).strip()
 
     def ParseNewSection(self, line: str) -> tuple[bool, str]:
         """Parses a new section line.
-- 
2.43.0


From 257cb862e7e6f67eabe70aafebfffd8cde4c3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 41/89] fix: GetContainingModules finds the outermost roots in
 any order and accepts a root

---
 edk2toollib/uefi/edk2/path_utilities.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..34377ad 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -344,16 +344,11 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
@@ -368,7 +363,8 @@ class Edk2Path(object):
             # Return the file path given since it is a module .inf file
             modules = [str(input_path)]
 
-        if not modules:
+        # A root path itself has no directory to search.
+        if not modules and input_path != path:
             # Continue to ascend directories up to a maximum root path.
             #
             # This handles cases like:
-- 
2.43.0


From 7fb0a367d699bec83c023c8198043b4e1cc3ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 42/89] fix: InfParser takes only the word DEFINE for a
 definition and accepts empty variables

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..36bc278 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -120,8 +120,11 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
-            if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            if len(sline.strip()) < 1:
+                continue
+
+            if sline.strip().startswith(("DEFINE ", "DEFINE\t")):
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -254,14 +257,17 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
-            if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+            line = self.ReplaceVariables(line).strip()
+
+            if line == "":
+                continue
+
+            if line.strip().startswith(("DEFINE ", "DEFINE\t")):
+                tokens = line.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            line = self.ReplaceVariables(line)
-
             match = self.SECTION_LIBRARY.findall(line)
             if match:
                 current_section = "LibraryClasses"
-- 
2.43.0


From 10da4aa263a996a2532134e6e27fa93885838ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 43/89] fix: InfParser scoped dictionaries follow section
 headings only and drop flags

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 36bc278..9ae85f2 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -52,8 +52,8 @@ class InfParser(HashFileParser):
     """
 
     SECTION_REGEX = re.compile(r"\[(.*)\]")
-    SECTION_LIBRARY = re.compile(r"libraryclasses(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
-    SECTION_SOURCE = re.compile(r"sources(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_LIBRARY = re.compile(r"(?<=[\[, \t])libraryclasses(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_SOURCE = re.compile(r"(?<=[\[, \t])sources(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
 
     def __init__(self) -> "InfParser":
         """Inits an empty parser."""
@@ -268,12 +268,12 @@ class InfParser(HashFileParser):
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            match = self.SECTION_LIBRARY.findall(line)
+            match = line.startswith("[") and self.SECTION_LIBRARY.findall(line)
             if match:
                 current_section = "LibraryClasses"
                 arch_list = match
                 continue
-            match = self.SECTION_SOURCE.findall(line)
+            match = line.startswith("[") and self.SECTION_SOURCE.findall(line)
             if match:
                 current_section = "Sources"
                 arch_list = match
@@ -290,15 +290,15 @@ class InfParser(HashFileParser):
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(line.partition("|")[0].strip())
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [line.partition("|")[0].strip()]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From fc494df28fd4dbd27d944194b76562dcef0e2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 44/89] fix: the token number of a structured PCD does not
 include the brace

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..4455cf5 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -153,7 +153,7 @@ class PcdDeclarationEntry:
         self.default_value = op[1].strip()
         # if we don't know what the type and id, it's because it's structured
         self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
-        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
+        self.id = op[3].strip(" \t{") if len(op) > 2 else "STRUCTURED_PCD"
 
 
 class DecParser(HashFileParser):
-- 
2.43.0


From 602fc75ec1b204da7976c0ff49ab97f83113cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 45/89] fix: An FDF file with many consecutive comment, blank
 or inactive lines no longer exceeds the recursion limit

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 32 ++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..c725b6c 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -44,27 +44,27 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From 3631519198e17b98449ac9d53c0eb058265bb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 46/89] fix: A flash device named like a firmware volume is no
 longer missing from an FDF file's FDs

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index c725b6c..5c70df3 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -143,7 +143,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
-- 
2.43.0


From b0a366ed118ea47c1d0456a1975cece8a4639323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 47/89] fix: A variable of an FDF file whose name or value
 contains DEFINE is no longer cut

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 5c70df3..846ab07 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -129,14 +129,16 @@ class FdfParser(HashFileParser):
 
             if InDefinesSection:
                 if sline.count("=") == 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                    if sline.startswith(("DEFINE ", "DEFINE\t")):
+                        sline = sline.replace("DEFINE", "", 1)
+                    tokens = sline.split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
-            elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            elif sline.strip().startswith(("DEFINE ", "DEFINE\t")):
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 41b488ded8b17a41ebe307cc35e2cd1d78ea5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 48/89] fix: An INF statement of an FDF file may have a tab
 behind its keyword

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 846ab07..ca0a8ef 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -155,7 +155,7 @@ class FdfParser(HashFileParser):
                     if section not in self.FVs:
                         self.FVs[section] = {"Dict": {}, "Infs": [], "Files": {}}
                     # ex: INF  MdeModulePkg/Core/RuntimeDxe/RuntimeDxe.inf
-                    if sline.upper().startswith("INF "):
+                    if sline.upper().startswith(("INF ", "INF\t")):
                         InfValue = sline[3:].strip()
                         self.FVs[section]["Infs"].append(InfValue)
                     # ex: FILE FREEFORM = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {
-- 
2.43.0


From c18a24e201dbb5a38ef0cbce03fd412a59001062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 49/89] fix: A variable of an FDF file is defined from its line
 on, also within the Defines section

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index ca0a8ef..88eda3c 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -133,6 +133,7 @@ class FdfParser(HashFileParser):
                         sline = sline.replace("DEFINE", "", 1)
                     tokens = sline.split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
+                    self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
-- 
2.43.0


From bd90ee7ffc45716866f19a63996029b434dd8889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 50/89] fix: A second FILE statement of the same name no longer
 discards the sections of the first

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 88eda3c..74daff5 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -168,7 +168,7 @@ class FdfParser(HashFileParser):
 
                         currentType = file_def[0].strip()  # get the type FILE
                         currentName = file_def[1].strip()  # get the name (guid or otherwise)
-                        if currentType not in self.FVs[section]:
+                        if currentName not in self.FVs[section]["Files"]:
                             self.FVs[section]["Files"][currentName] = {}
                         self.FVs[section]["Files"][currentName]["type"] = currentType
 
-- 
2.43.0


From 86cf24f7f8afc747d12f7becaa8f3758e37b9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 51/89] fix: Declaring a library instance again no longer
 discards the other instances of its scope

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..05110ea 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -354,10 +354,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                instances = self.ScopedLibraryDict.setdefault(key, [])
+                if value in instances:
+                    instances.remove(value)
+                instances.insert(0, value)
 
         return
 
-- 
2.43.0


From 6413c9d66c57cf400b02a96c1046e1a646c4b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 52/89] fix: Paths behind an !include of a DSC file are
 relative to the including file again

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 05110ea..499d43f 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -281,6 +281,7 @@ class DscParser(HashFileParser):
         """
         if len(lines) == 0:
             return
+        target_file = self.TargetFilePath
         for index in range(len(lines)):
             # we try here so that we can catch exceptions from individual lines
             try:
@@ -297,6 +298,9 @@ class DscParser(HashFileParser):
                     # otherwise, let the user know that we failed in the DSC
                     self.Logger.warning(f"DSC Parser (No-Fail Mode): {raw_line}")
                     self.Logger.warning(e)
+            finally:
+                # paths behind an included file are relative to this file again
+                self.TargetFilePath = target_file
 
     def __ProcessDefines(self, lines: list) -> None:
         """Goes through a file once to look for [Define] sections.
@@ -308,6 +312,7 @@ class DscParser(HashFileParser):
         """
         if len(lines) == 0:
             return
+        target_file = self.TargetFilePath
         for raw_line in lines:
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
@@ -319,6 +324,9 @@ class DscParser(HashFileParser):
                 # otherwise, raise the exception and act normally
                 if not self._no_fail_mode:
                     raise
+            finally:
+                # paths behind an included file are relative to this file again
+                self.TargetFilePath = target_file
 
     def _parse_libraries(self) -> None:
         """Builds a lookup table of all possible library instances depending on scope.
-- 
2.43.0


From 3ecf2482a7a57475453a2e75dcbd5b5f087085ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 53/89] fix: A DSC line is a section heading only if it starts
 with a bracket

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index f1465f1..1754480 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -900,7 +900,7 @@ class HashFileParser(BaseParser):
         Args:
           line (str): line representing a new section.
         """
-        if line.count("[") == 1 and line.count("]") == 1:  # new section
+        if line.strip().startswith("[") and line.count("[") == 1 and line.count("]") == 1:  # new section
             section = line.strip().lstrip("[").split(".")[0].split(",")[0].rstrip("]").strip()
             self.CurrentFullSection = line.strip().lstrip("[").split(",")[0].rstrip("]").strip()
             return (True, section)
-- 
2.43.0


From de3e1ef09dcbc70bbabbbe19cbdff6e8e37a8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 54/89] fix: PCDs of a DSC file are listed once, and only those
 of active lines

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 499d43f..26aead5 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -492,6 +492,7 @@ class DscParser(HashFileParser):
         # expand all the lines and include other files
         file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
+        self.Pcds = []
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
-- 
2.43.0


From 1c44b5798ebd16967a75bdc5c0dd152837041eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 55/89] fix: A condition of a DSC file uses PCDs by their whole
 names, also in !elseif and any capitalisation

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 26aead5..da76a07 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -63,10 +63,8 @@ class DscParser(HashFileParser):
 
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
-        if line.startswith("!if"):
-            for token in re.split(r"[^\w\.]", line):
-                if token in self.PcdValueDict:
-                    line = line.replace(token, self.PcdValueDict[token])
+        if line.lower().startswith(("!if", "!elseif")):
+            line = re.sub(r"[\w\.]+", lambda token: self.PcdValueDict.get(token.group(), token.group()), line)
         return line
 
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
-- 
2.43.0


From be3e81949afc743d22190734df3ba574d885536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 56/89] fix: Blanks between the supported architectures of a
 DSC file are no part of them

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index da76a07..9530f9e 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -398,7 +398,7 @@ class DscParser(HashFileParser):
                         line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" {"), arch, library_override_dict))
+                            self.Components.append((line.strip(" {"), arch.strip(), library_override_dict))
                     else:
                         self.Components.append((line.strip(" {"), scope, library_override_dict))
 
-- 
2.43.0


From c57555d1e5e86f7777e808b1c79bc2b92fe12034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 57/89] fix: A tab before the brace of a DSC component is no
 part of its path

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 9530f9e..df1c812 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -394,13 +394,13 @@ class DscParser(HashFileParser):
 
                 for scope in current_scopes:
                     # Components without a specific scope (common or empty) are added to all current scopes
-                    if os.path.isabs(line.strip(" {")):
-                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
+                    if os.path.isabs(line.strip(" \t{")):
+                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" {"), arch.strip(), library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch.strip(), library_override_dict))
                     else:
-                        self.Components.append((line.strip(" {"), scope, library_override_dict))
+                        self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
         except StopIteration:
             return
-- 
2.43.0


From f6857f5eab1fbdffee7930afb393d289ea526820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 58/89] fix: Components of a common section use the library
 instances of their architecture

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..6e1af98 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -182,7 +182,7 @@ class InstancedInfTable(TableGenerator):
 
             # scope for libraries need to contain the MODULE_TYPE also, so we will append it, if it exists
             if "MODULE_TYPE" in infp.Dict:
-                scope += f".{infp.Dict['MODULE_TYPE']}".lower()
+                scope = f"{scope}.{infp.Dict['MODULE_TYPE']}".lower()
 
             inf_entries += self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
 
-- 
2.43.0


From efa899bded1b085aa5040db3d20507f5d7cc71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 59/89] fix: Libraries are linked to all that use them, under
 whichever class

---
 edk2toollib/database/tables/instanced_inf_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 6e1af98..28e34b9 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -138,12 +138,14 @@ class InstancedInfTable(TableGenerator):
         session.commit()
 
         all_libraries = {
-            (library.path, library.arch, library.cls, library.component): library
+            (library.path, library.arch, library.component): library
             for library in session.query(InstancedInf).filter_by(env=env_id).all()
         }
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
+            # An instance has a single row per component, even if it is used for multiple library classes
+            paths = dict.fromkeys(path for _, path in inf["LIBRARIES_USED"])
+            libraries = [all_libraries.get((path, row.arch, row.component)) for path in paths]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
         session.commit()
-- 
2.43.0


From 3b7e3e906f2ab73790d154b6306ef881f8a9be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 60/89] fix: Overridden and NULL library instances are listed
 by the path closest to them

---
 .../database/tables/instanced_inf_table.py       | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 28e34b9..7e57866 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -233,11 +233,11 @@ class InstancedInfTable(TableGenerator):
         #
         if inf == component:
             for null_lib in override_dict["NULL"]:
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._to_closest_path(null_lib))
                 library_class_list.append("NULL")
 
             for null_lib in self._get_null_lib_instances(scope, library_dict):
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._to_closest_path(null_lib))
                 library_class_list.append("NULL")
 
         #
@@ -306,7 +306,7 @@ class InstancedInfTable(TableGenerator):
         # 1. If a Library class instance (INF) is specified in the Edk2 II [Components] section (an override),
         #    and the library supports the module, then it will be used.
         if library_class_name in override_dict:
-            return override_dict[library_class_name]
+            return self._to_closest_path(override_dict[library_class_name])
 
         # 2/3. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH).$(MODULE_TYPE)] section,
         #      and the library supports the module, then it will be used.
@@ -360,12 +360,14 @@ class InstancedInfTable(TableGenerator):
         for library_instance in library_instance_list:
             infp = self.inf(library_instance)
             if module.lower() in [phase.lower() for phase in infp.SupportedPhases]:
-                # Ensure the returned path is relative to the closest package path
-                library_instance = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(library_instance)
-                library_instance = self.pathobj.GetEdk2RelativePathFromAbsolutePath(library_instance)
-                return library_instance
+                return self._to_closest_path(library_instance)
         return None
 
+    def _to_closest_path(self, inf: str) -> str:
+        """Ensures the path of an INF is relative to the closest package path."""
+        inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+        return self.pathobj.GetEdk2RelativePathFromAbsolutePath(inf)
+
     def _get_null_lib_instances(
         self,
         scope: str,
-- 
2.43.0


From 4524172c55ab847b40ccbc06aceb66505827c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 61/89] fix: A repository whose path is a prefix of another's
 name does not own its INF files

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 7e57866..aa31e3b 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -112,7 +112,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
-- 
2.43.0


From 33c15291193f0b4f1297b3ce262704b01cd7ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 62/89] fix: The instanced INF table reads INF files anew each
 time it parses a platform

---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index aa31e3b..4aea0aa 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -47,6 +47,7 @@ class InstancedInfTable(TableGenerator):
 
     def parse(self, session: Session, pathobj: Edk2Path, env_id: str, env: dict) -> None:
         """Parse the workspace and update the database."""
+        self._parsed_infs = {}
         self.pathobj = pathobj
         self.ws = Path(self.pathobj.WorkspacePath)
         self.env = env
-- 
2.43.0


From 74a21fa1347658a1aeaaebdd80d13c7214aba48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 63/89] fix: A failure while the output of a command is read
 does not leave the command waiting

---
 edk2toollib/utility_functions.py | 37 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..981f00f 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,27 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # even on failure, as the process waits as long as nobody reads the rest of its output
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From 068f9b323b35dad290ad5436cd817d76ed55948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 64/89] fix: A command whose output is not captured does not
 block on its output

---
 edk2toollib/utility_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 981f00f..574f574 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -198,7 +198,8 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        # nobody reads the output if it is not captured
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From 0c22a5599d47aa260fa4324682cf21a524701824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 65/89] fix: RunPythonScript finds and runs scripts in
 directories with blanks

---
 edk2toollib/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 574f574..de55a72 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -260,10 +260,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -278,6 +276,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From f992495bdde75e4583263ed34ac41ece95e0bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 66/89] fix: The row of a source file gets its license and
 number of lines even if it was there already

---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..444594e 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From 05a9e50aa2579eb4ffd56b95381f3f0f8c7e6fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 67/89] fix: A submodule whose path is a prefix of another
 directory's name does not own its packages

---
 edk2toollib/database/tables/package_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..8354130 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From bfd1c411f51d270473882e372ef1b3ac53ec5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 68/89] fix: The environment table works for a repository
 without commits

---
 edk2toollib/database/tables/environment_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/environment_table.py b/edk2toollib/database/tables/environment_table.py
index c617bac..7864da4 100644
--- a/edk2toollib/database/tables/environment_table.py
+++ b/edk2toollib/database/tables/environment_table.py
@@ -29,7 +29,7 @@ class EnvironmentTable(TableGenerator):
 
         try:
             version = git.Repo(pathobj.WorkspacePath).head.commit.hexsha
-        except git.InvalidGitRepositoryError:
+        except (git.InvalidGitRepositoryError, ValueError):  # ValueError: there is no commit yet
             version = "UNKNOWN"
 
         entry = Environment(
-- 
2.43.0


From 57ed09b9308d8d52e56a53b5be5c0b7c468364c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 69/89] fix: A repository name may contain .git

---
 edk2toollib/database/tables/package_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8354130..1ebdada 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -35,9 +35,9 @@ class PackageTable(TableGenerator):
     def get_repo_name(repo: git.Repo) -> str:
         """Get the name of the repository."""
         if "origin" in repo.remotes:
-            return repo.remotes.origin.url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes.origin.url.split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         elif len(repo.remotes) > 0:
-            return repo.remotes[0].url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes[0].url.split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         return "BASE"
 
     def parse(self, session: Session, pathobj: Edk2Path, id: str, env: dict) -> None:
-- 
2.43.0


From b41d831fffacc7ef80601560691fe8314076d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 70/89] fix: refuse INF names, tags, file names and keys that
 end in a line feed

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..3332a20 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not re.fullmatch(r"[\w-]*", value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..21241a1 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not re.fullmatch(r"[\w-]*", value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -204,7 +204,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not re.fullmatch(r"[\w-]*", value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -357,7 +357,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not re.fullmatch(r"[\.\w-]*", Filename):
             raise ValueError("Filename has invalid chars.")
 
         if Filename not in self.Files:
@@ -403,7 +403,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not re.fullmatch(r"\w+", Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -418,7 +418,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not re.fullmatch(r"\w+", Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From 10efc28926f2ee00c564f85bbe6df6aeb1df8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 71/89] fix: refuse firmware versions that are no unsigned
 32-bit integers

---
 edk2toollib/windows/capsule/inf_generator.py  | 2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 3332a20..ab5349b 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -237,7 +237,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if a < 0 or a > 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 21241a1..8bbc4d0 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -227,7 +227,10 @@ class InfFirmware(object):
     @VersionInt.setter
     def VersionInt(self, value: int) -> None:
         """Sets the VersionInt value from a string."""
-        self._version_int = int(value, base=0)
+        version = int(value, base=0)
+        if version < 0 or version > 0xFFFFFFFF:
+            raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
+        self._version_int = version
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
-- 
2.43.0


From f367aa22f8534937a1e97054d9ccf8ca6606bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 72/89] fix: write quotation marks within INF strings twice

---
 edk2toollib/windows/capsule/inf_generator.py  | 7 ++++---
 edk2toollib/windows/capsule/inf_generator2.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index ab5349b..a56cfe0 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -330,10 +330,11 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             Arch=self.Arch,
             DriverVersion=self.VersionString,
             EsrtGuid=self.EsrtGuid,
-            Provider=self.Provider,
-            MfgName=self.Manufacturer,
+            # a quotation mark within a quoted string is written twice
+            Provider=self.Provider.replace('"', '""'),
+            MfgName=self.Manufacturer.replace('"', '""'),
             OsBuildVersion=OS_BUILD_VERSION_DIRID13_SUPPORT,
-            Description=self.Description,
+            Description=self.Description.replace('"', '""'),
             Rollback=RollbackString,
             FirmwareCopyFilesSection=copy_files,
             FirmwareAddRegSection=add_reg,
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 8bbc4d0..8983433 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -430,7 +430,8 @@ class InfStrings(object):
         LocalizedStrings = ""
         LongestKey = max(len(Key) for Key in self.LocalizableStrings.keys())
         for Key, Value in self.LocalizableStrings.items():
-            LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value, width=LongestKey)
+            # a quotation mark within a quoted string is written twice
+            LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value.replace('"', '""'), width=LongestKey)
 
         NonLocalizedStrings = ""
         LongestKey = max(len(Key) for Key in self.NonLocalizableStrings.keys())
-- 
2.43.0


From 1ebc445d3f55ceeb58fd3dd9cf01b4a32ab6a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 73/89] fix: blanks around the target OS version stay out of
 the INF

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 8983433..c468fc6 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -65,7 +65,7 @@ class InfHeader(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Name(self) -> str:
@@ -301,7 +301,7 @@ class InfFirmwareSections(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Arch(self) -> str:
-- 
2.43.0


From 57a145def5a41f5a85d2939d2df9c82bb46f1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 74/89] fix: write ESRT GUIDs in registry format, however they
 are given

---
 edk2toollib/windows/capsule/inf_generator.py  | 5 ++---
 edk2toollib/windows/capsule/inf_generator2.py | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index a56cfe0..e5eba61 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -202,9 +202,8 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        # if this works it is valid...otherwise throws exception; the INF has it in registry format
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionString(self) -> str:
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index c468fc6..dc3b655 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -216,8 +216,7 @@ class InfFirmware(object):
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
         """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
-- 
2.43.0


From c7ca8d72e686182d2477a61dde62a431e2e13c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 75/89] fix: a firmware whose tag is refused leaves no section
 in the INF

---
 edk2toollib/windows/capsule/inf_generator2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index dc3b655..e0d623c 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -322,8 +322,8 @@ class InfFirmwareSections(object):
             InfFirmware (InfFirmware): an InfFirmware object representing a firmware section to be added to
                 this collection of sections.
         """
-        self.Sections[InfFirmware.Tag] = InfFirmware
         self.InfStrings.AddLocalizableString(f"{InfFirmware.Tag}Desc", InfFirmware.Description)
+        self.Sections[InfFirmware.Tag] = InfFirmware
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmwareSections object.
-- 
2.43.0


From a1e28541b7af8a772b72b0533f263d6dbe201987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 76/89] fix: make a catalogue in the current folder

---
 edk2toollib/windows/capsule/cat_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/cat_generator.py b/edk2toollib/windows/capsule/cat_generator.py
index 698c364..b6a6140 100644
--- a/edk2toollib/windows/capsule/cat_generator.py
+++ b/edk2toollib/windows/capsule/cat_generator.py
@@ -119,7 +119,7 @@ class CatGenerator(object):
                 "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
             )
 
-        OutputFolder = os.path.dirname(OutputCatFile)
+        OutputFolder = os.path.dirname(OutputCatFile) or None
         # Make Cat file
         cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
         ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
-- 
2.43.0


From 06c9b98a3a98da6e578cf48536a3897f7ffdb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 77/89] fix: escape what no XML document can hold in JUnit
 reports

---
 edk2toollib/log/junit_report_format.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..2751808 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,9 +15,21 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import re
 import time
-from typing import IO
-from xml.sax.saxutils import escape
+from typing import IO, Optional
+from xml.sax import saxutils
+
+# what no XML document can hold, not even as a reference
+_NOT_XML = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def escape(data: str, entities: Optional[dict] = None) -> str:
+    """Escapes text for the report, so that it is read back as it is.
+
+    Characters that XML cannot hold are replaced by U+FFFD.
+    """
+    return saxutils.escape(_NOT_XML.sub("\ufffd", data), entities or {})
 
 
 class JunitReportError(object):
-- 
2.43.0


From b5c763249e64338339dcf0a33b337c3903aaa9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 78/89] fix: keep line ends and tabs in JUnit reports

---
 edk2toollib/log/junit_report_format.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 2751808..21efe58 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -29,7 +29,12 @@ def escape(data: str, entities: Optional[dict] = None) -> str:
 
     Characters that XML cannot hold are replaced by U+FFFD.
     """
-    return saxutils.escape(_NOT_XML.sub("\ufffd", data), entities or {})
+    entities = dict(entities or {})
+    # XML parsers read a carriage return as a line feed, and in attributes line ends and tabs as blanks
+    entities["\r"] = "&#13;"
+    if '"' in entities:
+        entities.update({"\n": "&#10;", "\t": "&#9;"})
+    return saxutils.escape(_NOT_XML.sub("\ufffd", data), entities)
 
 
 class JunitReportError(object):
-- 
2.43.0


From 80caee8f4c642f8440559f6d32e7da311d875210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 79/89] fix: write a JUnit report only once it is complete

---
 edk2toollib/log/junit_report_format.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 21efe58..69d78d5 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,6 +15,7 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import io
 import re
 import time
 from typing import IO, Optional
@@ -214,11 +215,12 @@ class JunitTestReport(object):
 
     def Output(self, filepath: str) -> None:
         """Write report to file."""
-        f = open(filepath, "w", encoding="utf-8")
-        f.write("")
+        # a test case without a result raises, which must not leave half a report behind
+        f = io.StringIO()
         f.write('<?xml version="1.0" encoding="UTF-8"?>')
         f.write("<testsuites>")
         for a in self.TestSuites:
             a.Output(f)
         f.write("</testsuites>")
-        f.close()
+        with open(filepath, "w", encoding="utf-8") as out:
+            out.write(f.getvalue())
-- 
2.43.0


From d2ddf5f10c0d61242b8d362aec8b46bc67cf91e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 80/89] fix: log the record a filter returns

---
 edk2toollib/log/ansi_handler.py   | 2 ++
 edk2toollib/log/file_handler.py   | 2 ++
 edk2toollib/log/string_handler.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..f398c8c 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -297,6 +297,8 @@ class ColoredStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv  # a filter may return another record to log (Python 3.12)
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/file_handler.py b/edk2toollib/log/file_handler.py
index e09d9ca..3729fc4 100644
--- a/edk2toollib/log/file_handler.py
+++ b/edk2toollib/log/file_handler.py
@@ -26,6 +26,8 @@ class FileHandler(logging.FileHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv  # a filter may return another record to log (Python 3.12)
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index a4f3941..2e9fed2 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -31,6 +31,8 @@ class StringStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, LogRecord):
+            record = rv  # a filter may return another record to log (Python 3.12)
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
-- 
2.43.0


From 5e0361c0278e2d34cfda8f2e7149fab4020743f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 81/89] fix: append to a string handler's stream wherever it
 was sought to

---
 edk2toollib/log/string_handler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index 2e9fed2..5e48a50 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -41,6 +41,14 @@ class StringStreamHandler(logging.StreamHandler):
                 self.release()
         return rv
 
+    def emit(self, record: LogRecord) -> None:
+        """Adds the record at the end of the stream, wherever it has been sought to."""
+        position = self.stream.tell()
+        end = self.stream.seek(0, io.SEEK_END)
+        logging.StreamHandler.emit(self, record)
+        if position < end:
+            self.stream.seek(position)
+
     def readlines(self, hint: int = -1) -> list[str]:
         """Reads lines from stream and returns them."""
         return self.stream.readlines(hint)
-- 
2.43.0


From 57a8b5f44b704f33df3e65cb12e486fa9f5d7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 82/89] fix: restore a record that cannot be formatted

---
 edk2toollib/log/ansi_handler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index f398c8c..454505b 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -231,11 +231,12 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            return logging.Formatter.format(self, record)
+        finally:
+            # other handlers get the same record, even if it cannot be formatted here
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From eab4432c19c93ef24b1137a607c54c7abe9deccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 83/89] fix: do not lose text to be converted outside Windows

---
 edk2toollib/log/ansi_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 454505b..1dc720f 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -421,7 +421,7 @@ class ColoredStreamHandler(logging.StreamHandler):
 
     def convert_ansi(self, paramstring: str, command: str) -> None:
         """Converts an ANSI command to a win32 command."""
-        if self.convert:
+        if self.convert and self.win32_calls is not None:
             params = self.extract_params(command, paramstring)
             self.call_win32(command, params)
 
-- 
2.43.0


From f0368ac0450d5f2015908fb40265b4d16a90af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:58 +0000
Subject: [PATCH 84/89] fix: let PrintByteList print to a given stream

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index de55a72..bc2f34c 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -478,7 +478,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From 8a5b84435f282c636dc9276f4f5e7e883de76bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 85/89] fix: pad the last row of a hex dump for the separator
 it lacks

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index bc2f34c..520a070 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -547,7 +547,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From ef0f3c49dcd0731678e981416e8814bf61d658f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 86/89] fix: dump a certificate's bytes to the given stream

---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 0562838..5602e3d 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -191,7 +191,7 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
         cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        hexdump(cdl, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
-- 
2.43.0


From fc20a72daf7c8c57aeb790ca3acc295a743d8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 87/89] fix: override lines without a colon, or with one in the
 path, were not read as documented

---
 edk2toollib/uefi/edk2/parsers/override_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..dad97a9 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -136,10 +136,10 @@ class OverrideParser(object):
         result = {}
 
         # Split the override string into pieces.
-        # First the #OVERRIDE, which is separated by a :.
+        # First the #OVERRIDE, which is separated by the first :.
         # Then everything else by |.
-        line_parts = line_contents.split(":")
-        line_parts = [part.strip() for part in line_parts[1].split("|")]
+        entry = line_contents.partition(":")[2]
+        line_parts = [part.strip() for part in entry.split("|")]
 
         # Step 1: Check version and number of blocks in this entry
         try:
-- 
2.43.0


From fe9c86e9975693d167c786ce9b904eba8dc9d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 88/89] fix: target.txt values with an equals sign were dropped

---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..46091a8 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -48,7 +48,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if "=" in sline:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From 60550768c038bafc06d89f312cef163a5ac99128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 89/89] fix: the GUID of a package was not listed in upper case
 like all others

---
 edk2toollib/uefi/edk2/guid_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 67265ff..379168f 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -116,7 +116,7 @@ class GuidList:
             results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
 
         try:
-            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"], filename))
+            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"].upper(), filename))
         except Exception:
             logging.warning("Failed to find Package Guid from dec file: " + filename)
         return results
-- 
2.43.0

