From 92a24ec664e9a7a08c37d5043496c31d141e7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 01/44] fix: MAC Finalize into a SecureVector did not check
 that the tag fits the output

---
 CEX/CMAC.cpp     | 5 +++++
 CEX/GMAC.cpp     | 5 +++++
 CEX/HMAC.cpp     | 5 +++++
 CEX/Poly1305.cpp | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index ceb5d9f..bd42096 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -181,6 +181,11 @@ size_t CMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 	Reset();
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5f8b7ee..2c6b01c 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -188,6 +188,11 @@ size_t GMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index ae456cc..2a9a5ac 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -191,6 +191,11 @@ size_t HMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 1d5f692..c0a74ce 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -186,6 +186,11 @@ size_t Poly1305::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
-- 
2.43.0


From 4f6e2e653847329810d8d832fded0a9e1b9f1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 02/44] fix: GCM Transform encrypted with a spent or missing
 key stream before refusing to run uninitialized

---
 CEX/GCM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..5b2e07c 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -325,6 +325,11 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
 	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the the block-size!");
 
+	if (IsInitialized() == false)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	m_gcmState->Counter += Length;
 
 	if (IsEncryption() == true)
-- 
2.43.0


From fac0b0980f3ecaeeeeae5fc6ffcc696a06773d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 03/44] fix: the random generators filled a Length sized
 temporary with the size of the whole output

---
 CEX/ACP.cpp | 2 +-
 CEX/CSR.cpp | 2 +-
 CEX/ECP.cpp | 2 +-
 CEX/HCR.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index f7a6a96..92b3f7d 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -83,7 +83,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..66854fa 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ad990af..9defa3c 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -81,7 +81,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..c80a3f7 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From 31357c4808177b7af61a6844b9392d898640f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 04/44] fix: KDF expansion into a SecureVector applied the
 output offset to its Length sized temporary

---
 CEX/HKDF.cpp   | 2 +-
 CEX/KDF2.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..e7b5c30 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -303,7 +303,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..142508e 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -301,7 +301,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..fc04976 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -294,7 +294,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From 222afd621edcd4844df38f5fdc83677cc7bc3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 05/44] fix: KPA cleared only an eighth of its state words on
 reset and destruction

---
 CEX/KPA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..a45dd86 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -72,7 +72,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
@@ -92,7 +92,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
-- 
2.43.0


From 500e57a60c9fc203544dea9c1ad54c69fd9c7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 06/44] fix: SecureStream released its key salt without erasing
 it

---
 CEX/SecureStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..e5338be 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -142,6 +142,8 @@ void SecureStream::Destroy()
 		m_streamPosition = 0;
 		MemoryTools::Clear(m_streamData, 0, m_streamData.size());
 		m_streamData.clear();
+		MemoryTools::Clear(m_keySalt, 0, m_keySalt.size());
+		m_keySalt.clear();
 	}
 }
 
-- 
2.43.0


From a3c6e184ec17c8222ab330523fafb40d354e64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:30 +0000
Subject: [PATCH 07/44] fix: the signature schemes underflowed on a signature
 shorter than their signature size

---
 CEX/Dilithium.cpp | 36 +++++++++++++++++++++++++++---------
 CEX/ECDSABase.cpp |  6 ++++++
 CEX/SPXBase.h     |  6 ++++++
 CEX/XmssCore.cpp  |  8 ++++++++
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index c99e577..569550d 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -345,23 +345,41 @@ bool Dilithium::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_
 	{
 		case DilithiumParameters::DLTMS1P2544:
 		{
-			Message.resize(Signature.size() - DLTMBase::Params2544::DILITHIUM_SIGNATURE_SIZE);
-			DLTMBase::Params2544 x;
-			res = DLTMBase::Verify(x, Message, Signature, m_publicKey->Polynomial());
+			res = (Signature.size() >= DLTMBase::Params2544::DILITHIUM_SIGNATURE_SIZE);
+
+			if (res == true)
+			{
+				Message.resize(Signature.size() - DLTMBase::Params2544::DILITHIUM_SIGNATURE_SIZE);
+				DLTMBase::Params2544 x;
+				res = DLTMBase::Verify(x, Message, Signature, m_publicKey->Polynomial());
+			}
+
 			break;
 		}
 		case DilithiumParameters::DLTMS3P4016:
 		{
-			Message.resize(Signature.size() - DLTMBase::Params4016::DILITHIUM_SIGNATURE_SIZE);
-			DLTMBase::Params4016 x;
-			res = DLTMBase::Verify(x, Message, Signature, m_publicKey->Polynomial());
+			res = (Signature.size() >= DLTMBase::Params4016::DILITHIUM_SIGNATURE_SIZE);
+
+			if (res == true)
+			{
+				Message.resize(Signature.size() - DLTMBase::Params4016::DILITHIUM_SIGNATURE_SIZE);
+				DLTMBase::Params4016 x;
+				res = DLTMBase::Verify(x, Message, Signature, m_publicKey->Polynomial());
+			}
+
 			break;
 		}
 		case DilithiumParameters::DLTMS5P4880:
 		{
-			Message.resize(Signature.size() - DLTMBase::Params4880::DILITHIUM_SIGNATURE_SIZE);
-			DLTMBase::Params4880 x;
-			res = DLTMBase::Verify(x, Message, Signature, m_publicKey->Polynomial());
+			res = (Signature.size() >= DLTMBase::Params4880::DILITHIUM_SIGNATURE_SIZE);
+
+			if (res == true)
+			{
+				Message.resize(Signature.size() - DLTMBase::Params4880::DILITHIUM_SIGNATURE_SIZE);
+				DLTMBase::Params4880 x;
+				res = DLTMBase::Verify(x, Message, Signature, m_publicKey->Polynomial());
+			}
+
 			break;
 		}
 		default:
diff --git a/CEX/ECDSABase.cpp b/CEX/ECDSABase.cpp
index 83f3287..de624ae 100644
--- a/CEX/ECDSABase.cpp
+++ b/CEX/ECDSABase.cpp
@@ -131,6 +131,12 @@ bool ECDSABase::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t>
 
 bool ECDSABase::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, std::unique_ptr<IDigest> &Digest)
 {
+	if (Signature.size() < EC25519::EC25519_SIGNATURE_SIZE)
+	{
+		MemoryTools::Clear(Message, 0, Message.size());
+		return false;
+	}
+
 	const size_t MSGLEN = Signature.size() - EC25519::EC25519_SIGNATURE_SIZE;
 	std::vector<uint8_t> tmpm(MSGLEN);
 	bool res;
diff --git a/CEX/SPXBase.h b/CEX/SPXBase.h
index be32fae..547b515 100644
--- a/CEX/SPXBase.h
+++ b/CEX/SPXBase.h
@@ -860,6 +860,12 @@ public:
 	template<typename T>
 	static bool Verify(T &Params, std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey)
 	{
+		// a signature is at least SPX_BYTES in length
+		if (Signature.size() < Params.SPX_BYTES)
+		{
+			return false;
+		}
+
 		// verifies a given signature-message pair under a given public key
 		const size_t MSGLEN = Signature.size() - Params.SPX_BYTES;
 		std::vector<uint8_t> buf(Params.SPX_N + SPX_ADDR_BYTES + Params.SPX_WOTS_LEN * Params.SPX_N);
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 585456d..7f9a8f1 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -868,6 +868,10 @@ int32_t XMSSCore::XmssSignOpen(std::vector<uint8_t> &Message, size_t &MsgLength,
 	{
 		res = -1;
 	}
+	else if (SigLength < params.SignatureSize)
+	{
+		res = -1;
+	}
 	else
 	{
 		res = XmssCoreSignOpen(params, Message, MsgLength, Signature, SigLength, PublicKey);
@@ -946,6 +950,10 @@ int32_t XMSSCore::XmssMtSignOpen(std::vector<uint8_t> &Message, size_t &MsgLengt
 	{
 		res = -1;
 	}
+	else if (SigLength < params.SignatureSize)
+	{
+		res = -1;
+	}
 	else
 	{
 		res = XmssMtCoreSignOpen(params, Message, MsgLength, Signature, SigLength, PublicKey);
-- 
2.43.0


From 13743fe3cbc6e72a6d782ffd9cd52a339c20591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:03 +0000
Subject: [PATCH 08/44] fix: enumeration names that did not convert, or
 converted to another member

---
 CEX/AsymmetricParameters.cpp | 16 +++++++++++++-
 CEX/ExceptionTypes.cpp       |  7 ++++++
 CEX/Kdfs.cpp                 | 42 ++++++++++++++++++++++++++++++++++++
 CEX/SymmetricCiphers.cpp     |  5 ++++-
 4 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..a28bd9f 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -29,6 +29,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::ECDSAS2P25519S:
 		name = std::string("ECDSAS2P25519S");
 		break;
+	case AsymmetricParameters::KYBERS1P1632:
+		name = std::string("KYBERS1P1632");
+		break;
 	case AsymmetricParameters::KYBERS3P2400:
 		name = std::string("KYBERS3P2400");
 		break;
@@ -59,6 +62,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::SPXPS5S256SHAKE:
 		name = std::string("SPXPS5S256SHAKE");
 		break;
+	case AsymmetricParameters::SPXPS6S512SHAKE:
+		name = std::string("SPXPS6S512SHAKE");
+		break;
 	case AsymmetricParameters::XMSSSHA2256H10:
 		name = std::string("XMSSSHA2256H10");
 		break;
@@ -231,6 +237,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::ECDSAS2P25519S;
 	}
+	else if (Name == std::string("KYBERS1P1632"))
+	{
+		tname = AsymmetricParameters::KYBERS1P1632;
+	}
 	else if (Name == std::string("KYBERS3P2400"))
 	{
 		tname = AsymmetricParameters::KYBERS3P2400;
@@ -271,9 +281,13 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::SPXPS5S256SHAKE;
 	}
+	else if (Name == std::string("SPXPS6S512SHAKE"))
+	{
+		tname = AsymmetricParameters::SPXPS6S512SHAKE;
+	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index 086dca2..c925318 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -29,6 +29,9 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoKdfException:
 		name = std::string("CryptoKdfException");
 		break;
+	case ExceptionTypes::CryptoKmsException:
+		name = std::string("CryptoKmsException");
+		break;
 	case ExceptionTypes::CryptoMacException:
 		name = std::string("CryptoMacException");
 		break;
@@ -84,6 +87,10 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoKdfException;
 	}
+	else if (Name == std::string("CryptoKmsException"))
+	{
+		tname = ExceptionTypes::CryptoKmsException;
+	}
 	else if (Name == std::string("CryptoMacException"))
 	{
 		tname = ExceptionTypes::CryptoMacException;
diff --git a/CEX/Kdfs.cpp b/CEX/Kdfs.cpp
index 4f8b3c7..d1a4a3b 100644
--- a/CEX/Kdfs.cpp
+++ b/CEX/Kdfs.cpp
@@ -35,6 +35,24 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::SCBKDF512:
 			name = std::string("SCBKDF512");
 			break;
+		case Kdfs::HKDS128:
+			name = std::string("HKDS128");
+			break;
+		case Kdfs::HKDS256:
+			name = std::string("HKDS256");
+			break;
+		case Kdfs::HKDS512:
+			name = std::string("HKDS512");
+			break;
+		case Kdfs::SHAKE128:
+			name = std::string("SHAKE128");
+			break;
+		case Kdfs::SHAKE256:
+			name = std::string("SHAKE256");
+			break;
+		case Kdfs::SHAKE512:
+			name = std::string("SHAKE512");
+			break;
 		case Kdfs::SCBKDF1024:
 			name = std::string("SCBKDF1024");
 			break;
@@ -86,6 +104,30 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::SCBKDF512;
 	}
+	else if (Name == std::string("HKDS128"))
+	{
+		tname = Kdfs::HKDS128;
+	}
+	else if (Name == std::string("HKDS256"))
+	{
+		tname = Kdfs::HKDS256;
+	}
+	else if (Name == std::string("HKDS512"))
+	{
+		tname = Kdfs::HKDS512;
+	}
+	else if (Name == std::string("SHAKE128"))
+	{
+		tname = Kdfs::SHAKE128;
+	}
+	else if (Name == std::string("SHAKE256"))
+	{
+		tname = Kdfs::SHAKE256;
+	}
+	else if (Name == std::string("SHAKE512"))
+	{
+		tname = Kdfs::SHAKE512;
+	}
 	else if (Name == std::string("SCBKDF1024"))
 	{
 		tname = Kdfs::SCBKDF1024;
diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..3abc3ef 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -83,6 +83,9 @@ std::string SymmetricCipherConvert::ToName(SymmetricCiphers Enumeral)
 		case SymmetricCiphers::TSX512:
 			name = std::string("TSX512");
 			break;
+		case SymmetricCiphers::TSXR96K512:
+			name = std::string("TSXR96K512");
+			break;
 		case SymmetricCiphers::TSX1024:
 			name = std::string("TSX1024");
 			break;
@@ -101,7 +104,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From e9bd92265b09ceee909f4e684e8f2396f45f2f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 09/44] fix: the factories built CSX512 as ChaChaP20 and the
 SHA2-512 HCR with SHA2-256

---
 CEX/PrngFromName.cpp         | 2 +-
 CEX/StreamCipherFromName.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/PrngFromName.cpp b/CEX/PrngFromName.cpp
index 41c0cba..567eafa 100644
--- a/CEX/PrngFromName.cpp
+++ b/CEX/PrngFromName.cpp
@@ -48,7 +48,7 @@ IPrng* PrngFromName::GetInstance(Prngs PrngType, Providers ProviderType)
 			}
 			case Prngs::HCRS512:
 			{
-				rptr = new HCR(SHA2Digests::SHA2256, ProviderType);
+				rptr = new HCR(SHA2Digests::SHA2512, ProviderType);
 				break;
 			}
 			default:
diff --git a/CEX/StreamCipherFromName.cpp b/CEX/StreamCipherFromName.cpp
index 89c56b5..8112572 100644
--- a/CEX/StreamCipherFromName.cpp
+++ b/CEX/StreamCipherFromName.cpp
@@ -42,12 +42,12 @@ IStreamCipher* StreamCipherFromName::GetInstance(StreamCiphers StreamCipherType)
 			}
 			case StreamCiphers::CSX512:
 			{
-				cptr = new ChaChaP20(false);
+				cptr = new CSX512(false);
 				break;
 			}
 			case StreamCiphers::CSXR80K512:
 			{
-				cptr = new ChaChaP20(true);
+				cptr = new CSX512(true);
 				break;
 			}
 			case StreamCiphers::RCS:
-- 
2.43.0


From adbad6efcbf18fdd43fe3640b160a82b92b38a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 10/44] fix: TSX512, TSX1024, Dilithium, ECDSA and ZeroOne
 reported the enumeral of another type

---
 CEX/Dilithium.cpp | 2 +-
 CEX/ECDSA.cpp     | 2 +-
 CEX/TSX1024.cpp   | 2 +-
 CEX/TSX512.cpp    | 2 +-
 CEX/ZeroOne.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index 569550d..82983ed 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -89,7 +89,7 @@ Dilithium::~Dilithium()
 
 const AsymmetricPrimitives Dilithium::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::Dilithium;
 }
 
 const bool Dilithium::IsInitialized()
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 3af96b7..daf8016 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -105,7 +105,7 @@ ECDSA::~ECDSA()
 
 const AsymmetricPrimitives ECDSA::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::ECDSA;
 }
 
 const bool ECDSA::IsInitialized()
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..1bb6e06 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX1024::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX1024, auth);
 
 	return tmpn;
 }
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..2b704ad 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX512::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX512, auth);
 
 	return tmpn;
 }
diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index dcc1d6f..464e29c 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -17,7 +17,7 @@ ZeroOne::~ZeroOne()
 
 const PaddingModes ZeroOne::Enumeral() 
 { 
-	return PaddingModes::None; 
+	return PaddingModes::ZeroOne; 
 }
 
 const std::string ZeroOne::Name() 
-- 
2.43.0


From 481ab34aa8678f6181860cd7327d4caa624523d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 11/44] fix: AsymmetricSecureKey used the 1024 bit cipher for
 its authenticated 256 bit policy

---
 CEX/AsymmetricSecureKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..3be6f47 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -267,7 +267,7 @@ IStreamCipher* AsymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
 		}
 		case SecurityPolicy::SPL256AE:
 		{
-			cpr = StreamCipherFromName::GetInstance(Enumeration::StreamCiphers::TSXR120K512);
+			cpr = StreamCipherFromName::GetInstance(Enumeration::StreamCiphers::TSXR72K256);
 			break;
 		}
 		case SecurityPolicy::SPL512:
-- 
2.43.0


From 438913f3a03281d05fb4e8f9ff39113c34fdc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:47 +0000
Subject: [PATCH 12/44] fix: the secure key containers derived the key of the
 1024 bit policies with SHAKE-256

---
 CEX/AsymmetricSecureKey.cpp | 2 ++
 CEX/SymmetricSecureKey.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 3be6f47..c554184 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -330,6 +330,8 @@ void AsymmetricSecureKey::GetSystemKey(SecurityPolicy Policy, const SecureVector
 		}
 		case SecurityPolicy::SPL512:
 		case SecurityPolicy::SPL512AE:
+		case SecurityPolicy::SPL1024:
+		case SecurityPolicy::SPL1024AE:
 		{
 			mode = ShakeModes::SHAKE512;
 			break;
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..7d34a2c 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -607,6 +607,8 @@ void SymmetricSecureKey::GetSystemKey(SecurityPolicy Policy, const SecureVector<
 		}
 		case SecurityPolicy::SPL512:
 		case SecurityPolicy::SPL512AE:
+		case SecurityPolicy::SPL1024:
+		case SecurityPolicy::SPL1024AE:
 		{
 			mode = ShakeModes::SHAKE512;
 			break;
-- 
2.43.0


From 0c99e1ed7ff99d0d7c896d1b6ac9be441d45b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:40 +0000
Subject: [PATCH 13/44] fix: the tree parameter readers copied the distribution
 code without testing the size of their input

---
 CEX/BlakeParams.cpp  |  8 +++++++-
 CEX/KeccakParams.cpp | 11 ++++++++++-
 CEX/SHA2Params.cpp   |  6 ++++++
 CEX/SkeinParams.cpp  |  8 +++++++-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 67ab6d7..ba9465f 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -64,6 +64,12 @@ BlakeParams::BlakeParams(const std::vector<uint8_t> &TreeArray)
 	}
 
 	std::memcpy(&m_outputSize, &TreeArray[0], 1);
+
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	std::memcpy(&m_keyLen, &TreeArray[1], 1);
 	std::memcpy(&m_fanOut, &TreeArray[2], 1);
 	std::memcpy(&m_maxDepth, &TreeArray[3], 1);
@@ -190,7 +196,7 @@ int32_t BlakeParams::GetHashCode()
 
 size_t BlakeParams::GetHeaderSize()
 {
-	return m_outputSize;
+	return ((m_outputSize == 32) ? 32 : 64);
 }
 
 void BlakeParams::Reset()
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 69d305e..6593a4f 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -55,7 +55,10 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	CEXASSERT(TreeArray.size() >= GetHeaderSize(), "The TreeArray buffer is too int16_t!");
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
@@ -64,6 +67,12 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 6d0649d..e86ae38 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -68,6 +68,12 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 5b6aeb9..046bc98 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -65,7 +65,7 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved3(0),
 	m_dstCode(0)
 {
-	if (TreeArray.size() < GetHeaderSize())
+	if (TreeArray.size() < HDR_SIZE)
 	{
 		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
 	}
@@ -79,6 +79,12 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeFanout, &TreeArray[18], 1);
 	std::memcpy(&m_reserved2, &TreeArray[19], 1);
 	m_reserved3 = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	if (m_outputSize < HDR_SIZE || TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
-- 
2.43.0


From 5692c2a4ca776011b86130dd3674995213077d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:40 +0000
Subject: [PATCH 14/44] fix: the key containers read past the end of a
 truncated key stream

---
 CEX/AsymmetricKey.cpp      |  5 +++++
 CEX/SymmetricKey.cpp       | 10 ++++++++++
 CEX/SymmetricSecureKey.cpp | 10 ++++++++++
 3 files changed, 25 insertions(+)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4bf5a0c..9989e20 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -133,6 +133,11 @@ void AsymmetricKey::Reset()
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
+	if (KeyStream.size() < 4)
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	AsymmetricKey* tmpk = new AsymmetricKey(SecureVector<uint8_t>(KeyStream.begin() + 3, KeyStream.end()), 
 		static_cast<AsymmetricPrimitives>(KeyStream[2]),
 		static_cast<AsymmetricKeyTypes>(KeyStream[0]),
diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index d5eea77..23c7db7 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -216,10 +216,20 @@ SymmetricKey* SymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 6)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() < static_cast<size_t>(klen) + nlen + ilen + 6)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 7d34a2c..59c44b4 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -414,10 +414,20 @@ SymmetricKey* SymmetricSecureKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 6)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() < static_cast<size_t>(klen) + nlen + ilen + 6)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
-- 
2.43.0


From ff6997ba4d6de419565a89747e3028a1f4e18baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 15/44] fix: SecureRandom::Generate wrote past the end of a
 small output vector

---
 CEX/SecureRandom.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..ce97490 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -126,6 +126,11 @@ std::vector<uint8_t> SecureRandom::Generate(size_t Length)
 
 void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -159,6 +164,11 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 
 void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
-- 
2.43.0


From efe25879d55333903bae5daaad61dbec80766410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 16/44] fix: the signed bounded random functions returned zero
 for rejected negative samples

---
 CEX/SecureRandom.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index ce97490..63aa79e 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -258,7 +258,7 @@ int16_t SecureRandom::NextInt16(int16_t Maximum)
 		x = NextInt16();
 		ret = x % Maximum;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return ret;
 }
@@ -284,7 +284,7 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		x = NextInt16();
 		ret = x % SMPTHR;
 	}
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return Minimum + ret;
 }
@@ -368,7 +368,7 @@ int32_t SecureRandom::NextInt32(int32_t Maximum)
 		x = NextInt32();
 		ret = x % Maximum;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return ret;
 }
@@ -394,7 +394,7 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		x = NextInt32();
 		ret = x % SMPTHR;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return Minimum + ret;
 }
@@ -478,7 +478,7 @@ int64_t SecureRandom::NextInt64(int64_t Maximum)
 		x = NextInt64();
 		ret = x % Maximum;
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return ret;
 }
@@ -504,7 +504,7 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		x = NextInt64();
 		ret = x % SMPTHR;
 	}
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX || x < 0);
 
 	return Minimum + ret;
 }
-- 
2.43.0


From e21cf88396fd0d6e14dbe4043a7967be69908adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 17/44] fix: ArrayTools::RandomShuffle passed its bounds in the
 wrong order and always threw

---
 CEX/ArrayTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ArrayTools.h b/CEX/ArrayTools.h
index a1f1698..abb9550 100644
--- a/CEX/ArrayTools.h
+++ b/CEX/ArrayTools.h
@@ -182,7 +182,7 @@ public:
 
 		for (size_t i = 0; i != CEIL; ++i)
 		{
-			uint32_t pos = rnd.NextUInt32(0, CEIL);
+			uint32_t pos = rnd.NextUInt32(static_cast<uint32_t>(CEIL), static_cast<uint32_t>(i));
 
 			if (i != pos)
 			{
-- 
2.43.0


From 4587519d8dad469b5da7602469f5855bd4ea9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:38 +0000
Subject: [PATCH 18/44] fix: ParallelFor dropped the exceptions thrown by its
 workers

---
 CEX/ParallelTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ParallelTools.cpp b/CEX/ParallelTools.cpp
index b11d185..73c0cf2 100644
--- a/CEX/ParallelTools.cpp
+++ b/CEX/ParallelTools.cpp
@@ -39,7 +39,7 @@ void ParallelTools::ParallelFor(size_t From, size_t To, const std::function<void
 
 	for (size_t i = 0; i < futures.size(); ++i)
 	{
-		futures[i].wait();
+		futures[i].get();
 	}
 
 	futures.clear();
-- 
2.43.0


From 577c5fccf7a20b2b32c8ff95235bd63f9e24320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:41 +0000
Subject: [PATCH 19/44] fix: the parallel CSX512 and ChaChaP20 wrote the key
 stream of the last block at the wrong output offset

---
 CEX/CSX512.cpp    | 2 +-
 CEX/ChaChaP20.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..61d2dc0 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -686,7 +686,7 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..faf0ac4 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -748,7 +748,7 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From 2d1b38625cf21a41f2773e4dc75d6d7aaac3806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:41 +0000
Subject: [PATCH 20/44] fix: the parallel ICM ignored its input and output
 offsets in the last block

---
 CEX/ICM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/ICM.cpp b/CEX/ICM.cpp
index 7030c51..e7fc128 100644
--- a/CEX/ICM.cpp
+++ b/CEX/ICM.cpp
@@ -426,12 +426,12 @@ void ICM::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 	const size_t ALNLEN = CNKLEN * m_parallelProfile.ParallelMaxDegree();
 	if (ALNLEN < OUTLEN)
 	{
-		const size_t FNLLEN = (Output.size() - OutOffset) % ALNLEN;
-		Generate(Output, ALNLEN, FNLLEN, m_icmState->Nonce);
+		const size_t FNLLEN = OUTLEN - ALNLEN;
+		Generate(Output, OutOffset + ALNLEN, FNLLEN, m_icmState->Nonce);
 
 		for (size_t i = ALNLEN; i < OUTLEN; i++)
 		{
-			Output[i] ^= Input[i];
+			Output[OutOffset + i] ^= Input[InOffset + i];
 		}
 	}
 }
-- 
2.43.0


From 307fa43522f0ef2fe75d16fefb0e5a025438944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 21/44] fix: BeIncrease8 and LeIncrease8 lost the carry of a
 byte sum of exactly 256

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..d188df5 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry != 0 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From 03f4a17460806d5822b71b777c4acdc36f4de151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 22/44] fix: LeIncreaseW lost the carry when its input and
 output are the same array

---
 CEX/IntegerTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index d188df5..908ff36 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2167,7 +2167,7 @@ public:
 		MemoryTools::Copy(Input, 0, Output, 0, Input.size() * sizeof(ArrayA::value_type));
 		Output[0] += static_cast<typename ArrayA::value_type>(Length);
 
-		if (Output[0] < Input[0])
+		if (Output[0] < static_cast<typename ArrayA::value_type>(Length))
 		{
 			++Output[1];
 		}
-- 
2.43.0


From aa1c75739bb4728dd1422c270a2c372e3844d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 23/44] fix: the parallel BCG offset its little endian counters
 as big endian integers

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..eb80a99 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -557,7 +557,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From d06331a95b3bba2e5a0f95c027450d6e9eb28625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:41 +0000
Subject: [PATCH 24/44] fix: the jitter timer check fails on a timestamp of
 zero or a timer that does not move

---
 CEX/CJP.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index 79235a3..f6e9ec2 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -456,6 +456,7 @@ bool CJP::TimerCheck(std::unique_ptr<JitterState> &State)
 	size_t backctr;
 	size_t varctr;
 	size_t modctr;
+	bool failed;
 	bool result;
 
 	sumdelta = 0;
@@ -463,6 +464,7 @@ bool CJP::TimerCheck(std::unique_ptr<JitterState> &State)
 	backctr = 0;
 	varctr = 0;
 	modctr = 0;
+	failed = false;
 	result = false;
 
 	for (size_t i = 0; (LOOP_TEST_COUNT + CLEARCACHE) > i; i++)
@@ -475,6 +477,7 @@ bool CJP::TimerCheck(std::unique_ptr<JitterState> &State)
 		// test whether timer works
 		if (time == 0 || time2 == 0)
 		{
+			failed = true;
 			break;
 		}
 
@@ -482,6 +485,7 @@ bool CJP::TimerCheck(std::unique_ptr<JitterState> &State)
 		// test whether timer is fine grained enough to provide delta even when called shortly after each other
 		if (delta == 0)
 		{
+			failed = true;
 			break;
 		}
 
@@ -521,7 +525,7 @@ bool CJP::TimerCheck(std::unique_ptr<JitterState> &State)
 	}
 
 	// we allow up to three times the time running backwards to account for ntp
-	if (3 >= backctr && sumdelta > 1 && ((LOOP_TEST_COUNT / 10) * 9) >= modctr)
+	if (failed == false && 3 >= backctr && sumdelta > 1 && ((LOOP_TEST_COUNT / 10) * 9) >= modctr)
 	{
 		result = true;
 	}
-- 
2.43.0


From 61933315ced20bb4d461403a792659812f624491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 25/44] fix: KDF2, PBKDF2 and HKDF Reset keep the length of the
 previous salt or info, so that a key derived without one after a key derived
 with one differs from a new instance's

---
 CEX/HKDF.cpp   | 1 +
 CEX/KDF2.cpp   | 1 +
 CEX/PBKDF2.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index e7b5c30..8e451f5 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,6 +33,7 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsDestroyed = false;
 		IsInitialized = false;
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 142508e..673997c 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,6 +42,7 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsInitialized = false;
 	}
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index fc04976..db1dec2 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,6 +46,7 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsInitialized = false;
 	}
-- 
2.43.0


From 51aaca5109fa9fec021d41fd291411336a4bdcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 26/44] fix: KDF2 and PBKDF2 Initialize read past the end of
 the nonce when the key also has an info string

---
 CEX/KDF2.cpp   | 2 +-
 CEX/PBKDF2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 673997c..f74091d 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -223,7 +223,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index db1dec2..569224b 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -235,7 +235,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
-- 
2.43.0


From 3742b61e3b34dfe13944229295ff518bba4cdc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 27/44] fix: RCS and RWS Reset keep the length of the previous
 customization string, so that a key without one after a key with one gives a
 different cipher

---
 CEX/RCS.cpp | 1 +
 CEX/RWS.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..8088c08 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -177,6 +177,7 @@ public:
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(uint32_t));
 #endif
 		MemoryTools::Clear(Custom, 0, Custom.size());
+		Custom.clear();
 		MemoryTools::Clear(MacKey, 0, MacKey.size());
 		MemoryTools::Clear(MacTag, 0, MacTag.size());
 		MemoryTools::Clear(Name, 0, Name.size());
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..99a8479 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -140,6 +140,7 @@ public:
 	{
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(uint32_t));
 		MemoryTools::Clear(Custom, 0, Custom.size());
+		Custom.clear();
 		MemoryTools::Clear(MacKey, 0, MacKey.size());
 		MemoryTools::Clear(MacTag, 0, MacTag.size());
 		MemoryTools::Clear(Name, 0, Name.size());
-- 
2.43.0


From efa50e6e081b0e39202e6b35de938b7a6cbe1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 28/44] fix: GCM Initialize keeps associated data and nonce
 bytes of a message that was not finalized

---
 CEX/GCM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 5b2e07c..bf572fb 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -185,6 +185,7 @@ const size_t GCM::TagSize()
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
+	m_gcmState->AAD.clear();
 	m_macAuthenticator->Reset();
 	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
 	m_gcmState->Counter = 0;
@@ -253,6 +254,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	// create the CTR mode nonce
 	if (m_gcmState->Buffer.size() == MIN_TAGSIZE)
 	{
+		MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
 		MemoryTools::Copy(m_gcmState->Buffer, 0, m_gcmState->Nonce, 0, m_gcmState->Buffer.size());
 		m_gcmState->Nonce[BLOCK_SIZE - 1] = 0x01;
 	}
-- 
2.43.0


From c09e45a7ef4a3c352283b4050512f7a4d64205d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 29/44] fix: KDF2 no longer ignores the info string when the
 key fits one block and there is no salt

---
 CEX/KDF2.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index f74091d..5796db6 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -247,14 +247,14 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
 			m_kdf2State->Salt.resize(Parameters.KeySizes().KeySize() - m_kdf2Generator->BlockSize());
 			MemoryTools::Copy(Parameters.Key(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		}
 
-			// add info as extension of salt
-			if (Parameters.KeySizes().InfoSize() > 0)
-			{
-				const size_t SLTLEN = m_kdf2State->Salt.size();
-				m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
-				MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
-			}
+		// add info as extension of salt
+		if (Parameters.KeySizes().InfoSize() > 0)
+		{
+			const size_t SLTLEN = m_kdf2State->Salt.size();
+			m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
 		}
 	}
 
-- 
2.43.0


From 2a7fefe397c7226deaa3b7666765caa811da55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 30/44] fix: CFB refuses a nonce longer than a block, it was
 written outside of the IV buffer

---
 CEX/CFB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index ed24c8a..beab97f 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -188,6 +188,10 @@ void CFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a minimum 1 uint8_t of Nonce!"), ErrorCodes::InvalidNonce);
 	}
+	if (Parameters.KeySizes().IVSize() > BLOCK_SIZE)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("The nonce can not be larger than the block size!"), ErrorCodes::InvalidNonce);
+	}
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Invalid key size; key must be one of the LegalKeySizes members in length!"), ErrorCodes::InvalidKey);
-- 
2.43.0


From 44672474ff30fd6f988fd1f8bf64726f35b0ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 31/44] fix: OFB refuses a key without a nonce, it read the
 block-sized IV from an empty vector

---
 CEX/OFB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/OFB.cpp b/CEX/OFB.cpp
index 792bd38..32e952f 100644
--- a/CEX/OFB.cpp
+++ b/CEX/OFB.cpp
@@ -184,6 +184,10 @@ void OFB::EncryptBlock(const std::vector<uint8_t> &Input, size_t InOffset, std::
 
 void OFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
+	if (Parameters.KeySizes().IVSize() != BLOCK_SIZE)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a nonce equal in size to the ciphers block size!"), ErrorCodes::InvalidNonce);
+	}
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize(), Parameters.KeySizes().IVSize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a legal key-size, and the nonce must equal in size to the block ciphers block-size!"), ErrorCodes::InvalidKey);
-- 
2.43.0


From ac731715932e83500645071dcc5805fbc34c173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 32/44] fix: TSX512 and TSX1024 no longer read past the end of
 an info string shorter than 16 bytes

---
 CEX/TSX1024.cpp | 8 +++++---
 CEX/TSX512.cpp  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 1bb6e06..c7cc1c3 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -227,9 +227,11 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		// custom code
-		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		// custom code; a shorter string is zero padded
+		std::vector<uint8_t> tmpi(INFO_SIZE, 0x00);
+		MemoryTools::Copy(Parameters.Info(), 0, tmpi, 0, Parameters.KeySizes().InfoSize());
+		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(tmpi, 0);
+		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(tmpi, 8);
 	}
 	else
 	{
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 2b704ad..85d8047 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -227,9 +227,11 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		// custom code
-		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		// custom code; a shorter string is zero padded
+		std::vector<uint8_t> tmpi(INFO_SIZE, 0x00);
+		MemoryTools::Copy(Parameters.Info(), 0, tmpi, 0, Parameters.KeySizes().InfoSize());
+		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(tmpi, 0);
+		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(tmpi, 8);
 	}
 	else
 	{
-- 
2.43.0


From 78c47f0e3a5bfd1c60d9efd41305ae4e171a6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:11 +0000
Subject: [PATCH 33/44] fix: SHA2256 tree hashing cleared the first block
 instead of the leaf block it was padding

---
 CEX/SHA2256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..5c7707c 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -387,7 +387,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
-- 
2.43.0


From cccd843ebda47be161130ada5196a03f69a0df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:11 +0000
Subject: [PATCH 34/44] fix: SHA2 tree hashing left half of the leaves out of
 the root hash

---
 CEX/SHA2256.cpp | 2 +-
 CEX/SHA2512.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 5c7707c..eeed0b9 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..3fb4c82 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From 19ad555ba7082bbca0845999efdb3f293e963284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:11 +0000
Subject: [PATCH 35/44] fix: Blake tree hashing dropped half of the full
 message buffer when given a large input

---
 CEX/Blake256.cpp | 2 ++
 CEX/Blake512.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..04dd2f3 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -453,6 +453,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..6068818 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -454,6 +454,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
-- 
2.43.0


From 03977538ff1ba6c2f44411727699cb31179b5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:11 +0000
Subject: [PATCH 36/44] fix: Blake ParallelMaxDegree halved the message buffer
 the tree mode works with

---
 CEX/Blake256.cpp | 2 +-
 CEX/Blake512.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 04dd2f3..53ff3d0 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -356,7 +356,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 6068818..18eca3a 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -357,7 +357,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
-- 
2.43.0


From a9dcb1b26fa746abdb66bf9efa8e383ba39b1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 37/44] fix: Blake tree hashing did not count the bytes
 processed in the parallel loop

---
 CEX/Blake256.cpp | 1 +
 CEX/Blake512.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 53ff3d0..eeed77a 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -582,6 +582,7 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 18eca3a..12437dd 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -583,6 +583,7 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
-- 
2.43.0


From 7a3ed00d5229aca98f89439216df298dcc7659c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 38/44] fix: Blake tree Finalize counted a whole block for
 leaves that received no input

---
 CEX/Blake256.cpp | 2 +-
 CEX/Blake512.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index eeed77a..9771071 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -235,7 +235,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE256_RATE_SIZE));
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 12437dd..c1cffca 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -237,7 +237,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE512_RATE_SIZE));
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
-- 
2.43.0


From b61c6b773d07e5722df5b9e2cf9bd27256526287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:06 +0000
Subject: [PATCH 39/44] fix: Skein512 and Skein1024 built from tree parameters
 had a message buffer of one block

---
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..7bcc807 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -68,7 +68,7 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..623ea0e 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -68,7 +68,7 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
-- 
2.43.0


From e02c8a60ab03e6d75743362a7fa589c0b1475532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:19 +0000
Subject: [PATCH 40/44] fix: SHA3 ParallelMaxDegree kept the states and message
 buffer of the former degree

---
 CEX/SHA3256.cpp | 6 ++++++
 CEX/SHA3512.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..1e2c77d 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -217,6 +217,12 @@ void SHA3256::ParallelMaxDegree(size_t Degree)
 
 	m_parallelProfile.SetMaxDegree(Degree);
 
+	if (m_parallelProfile.IsParallel())
+	{
+		m_dgtState.resize(Degree);
+		m_msgBuffer.resize(Degree * Keccak::KECCAK256_RATE_SIZE);
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..5181693 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -217,6 +217,12 @@ void SHA3512::ParallelMaxDegree(size_t Degree)
 
 	m_parallelProfile.SetMaxDegree(Degree);
 
+	if (m_parallelProfile.IsParallel())
+	{
+		m_dgtState.resize(Degree);
+		m_msgBuffer.resize(Degree * Keccak::KECCAK512_RATE_SIZE);
+	}
+
 	Reset();
 }
 
-- 
2.43.0


From c839c031032f40987f284fd6823634506650ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:02 +0000
Subject: [PATCH 41/44] fix: CopyFromObject and CopyToObject step through the
 object in bytes, not in objects

---
 CEX/MemoryTools.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..1e7d30d 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -495,6 +495,7 @@ public:
 	inline static void CopyFromObject(const Object* Input, Array &Output, size_t OutOffset, size_t Length)
 	{
 		const size_t ELMLEN = sizeof(Array::value_type);
+		const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input);
 		size_t pctr;
 
 		CEXASSERT((Output.size() - OutOffset) * ELMLEN >= Length, "Length is larger than output size");
@@ -519,11 +520,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY512FROMOBJECT(pinp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX2)
-					COPY256FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY256FROMOBJECT(pinp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX)
-					COPY128FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY128FROMOBJECT(pinp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	endif
 					pctr += SMDBLK;
 				}
@@ -532,7 +533,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(&Output[OutOffset + pctr], Input + pctr, Length - (pctr * ELMLEN));
+				std::memcpy(&Output[OutOffset + pctr], pinp + (pctr * ELMLEN), Length - (pctr * ELMLEN));
 			}
 		}
 	}
@@ -552,6 +553,7 @@ public:
 	inline static void CopyToObject(const Array &Input, size_t InOffset, Object* Output, size_t Length)
 	{
 		const size_t ELMLEN = sizeof(Array::value_type);
+		uint8_t* potp = reinterpret_cast<uint8_t*>(Output);
 		size_t pctr;
 
 		CEXASSERT((Input.size() - InOffset) * ELMLEN >= Length, "Length is larger than output size");
@@ -576,11 +578,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY512TOOBJECT(Input, InOffset + pctr, potp + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX2)
-					COPY256TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY256TOOBJECT(Input, InOffset + pctr, potp + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX)
-					COPY128TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY128TOOBJECT(Input, InOffset + pctr, potp + (pctr * ELMLEN));
 #	endif
 					pctr += SMDBLK;
 				}
@@ -589,7 +591,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(Output + pctr, &Input[InOffset + pctr], Length - (pctr * ELMLEN));
+				std::memcpy(potp + (pctr * ELMLEN), &Input[InOffset + pctr], Length - (pctr * ELMLEN));
 			}
 		}
 	}
-- 
2.43.0


From 933648959d96c161d1a937b5af267573f5e22466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:10 +0000
Subject: [PATCH 42/44] fix: AND and OR process every byte behind the last wide
 block

---
 CEX/MemoryTools.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index 1e7d30d..caa625a 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = (const uint8_t*)Input.data() + (InOffset * INPLEN);
+			uint8_t* potp = (uint8_t*)Output.data() + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				potp[i] &= pinp[i];
 			}
 		}
 	}
@@ -1102,7 +1104,6 @@ public:
 	{
 		const size_t INPLEN = sizeof(ArrayA::value_type);
 		const size_t OTPLEN = sizeof(ArrayB::value_type);
-		const size_t ELMLEN = sizeof(ArrayA::value_type);
 		size_t i;
 		size_t pctr;
 
@@ -1141,9 +1142,12 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			const uint8_t* pinp = (const uint8_t*)Input.data() + (InOffset * INPLEN);
+			uint8_t* potp = (uint8_t*)Output.data() + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				potp[i] |= pinp[i];
 			}
 		}
 	}
-- 
2.43.0


From 18ccf8e901dd5e79fe441e6193bc988dc4de3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:47 +0000
Subject: [PATCH 43/44] fix: BlockToBe and BlockToLe overwrite the destination
 words

---
 CEX/IntegerTools.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 908ff36..2dde300 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -506,6 +506,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = VARLEN; j > 0; --j)
 			{
 				Output[OutOffset + i] |= static_cast<typename ArrayB::value_type>(Input[InOffset + (i * VARLEN) + (VARLEN - j)]) << (8 * (j - 1));
@@ -1213,6 +1215,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = 0; j < VARLEN; ++j)
 			{
 				Output[OutOffset + i] |= static_cast<ArrayB::value_type>(Input[InOffset + (i * VARLEN) + j]) << (8 * j);
-- 
2.43.0


From 61f81d67c9bf877da230ee43101187690273f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:47 +0000
Subject: [PATCH 44/44] fix: CMax and CMin select by the order of their
 arguments

---
 CEX/IntegerTools.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 2dde300..1de8799 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2190,7 +2190,7 @@ public:
 	template<typename T>
 	inline static T CMax(T A, T B)
 	{
-		return Select<T>(ExpandTopBit<T>(A), A, B);
+		return Select<T>(IsLess<T>(A, B), B, A);
 	}
 
 	/// <summary>
@@ -2251,8 +2251,7 @@ public:
 	template<typename T>
 	inline static T CMin(T A, T B)
 	{
-		// TODO: test this..
-		return Select<T>(ExpandTopBit<T>(B), B, A);
+		return Select<T>(IsLess<T>(A, B), A, B);
 	}
 
 	/// <summary>
-- 
2.43.0

