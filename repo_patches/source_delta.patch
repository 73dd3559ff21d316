From bc8ead9e06c481d48fe45eec477e573aac580c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 01/67] fix: CFB shifts its register with memmove, the ranges
 overlap

---
 CEX/CFB.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index ed24c8a..437df38 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -3,6 +3,7 @@
 #include "IntegerTools.h"
 #include "MemoryTools.h"
 #include "ParallelTools.h"
+#include <cstring>
 
 NAMESPACE_MODE
 
@@ -244,7 +245,7 @@ void CFB::Decrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
 	{
-		MemoryTools::Copy(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
+		std::memmove(m_cfbState->IV.data(), m_cfbState->IV.data() + m_cfbState->RegisterSize, m_cfbState->IV.size() - m_cfbState->RegisterSize);
 	}
 
 	// copy ciphertext to register
@@ -299,7 +300,7 @@ void CFB::DecryptSegment(const std::vector<uint8_t> &Input, size_t InOffset, std
 		// left shift the register
 		if (Iv.size() - m_cfbState->RegisterSize > 0)
 		{
-			MemoryTools::Copy(Iv, m_cfbState->RegisterSize, Iv, 0, Iv.size() - m_cfbState->RegisterSize);
+			std::memmove(Iv.data(), Iv.data() + m_cfbState->RegisterSize, Iv.size() - m_cfbState->RegisterSize);
 		}
 
 		// copy ciphertext to register
@@ -334,7 +335,7 @@ void CFB::Encrypt128(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 	// left shift the register
 	if (m_cfbState->IV.size() - m_cfbState->RegisterSize > 0)
 	{
-		MemoryTools::Copy(m_cfbState->IV, m_cfbState->RegisterSize, m_cfbState->IV, 0, m_cfbState->IV.size() - m_cfbState->RegisterSize);
+		std::memmove(m_cfbState->IV.data(), m_cfbState->IV.data() + m_cfbState->RegisterSize, m_cfbState->IV.size() - m_cfbState->RegisterSize);
 	}
 
 	// copy cipher text to the register
-- 
2.43.0


From 2f133ace5f37c9daab85aa5a59afc6591b266344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 02/67] fix: tree mode of SHA2 hashed only half of the lanes,
 with stale buffer bytes between them

---
 CEX/SHA2256.cpp | 4 ++--
 CEX/SHA2512.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..eeed0b9 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
@@ -387,7 +387,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..3fb4c82 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From 547098d505936c06ce2322cb9b56576b9aa993e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 03/67] fix: tree mode of SHA3 follows the parallel degree
 instead of losing lanes or overrunning its buffer

---
 CEX/SHA3256.cpp | 6 +++++-
 CEX/SHA3512.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..920f608 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -224,7 +224,11 @@ void SHA3256::Reset()
 {
 	size_t i;
 
-	MemoryTools::Clear(m_msgBuffer, 0, m_msgBuffer.size());
+	// the number of lanes follows the parallel degree
+	m_dgtState.clear();
+	m_dgtState.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() : 1);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(m_dgtState.size() * Keccak::KECCAK256_RATE_SIZE);
 	m_msgLength = 0;
 
 	for (i = 0; i < m_dgtState.size(); ++i)
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..76cf787 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -224,7 +224,11 @@ void SHA3512::Reset()
 {
 	size_t i;
 
-	MemoryTools::Clear(m_msgBuffer, 0, m_msgBuffer.size());
+	// the number of lanes follows the parallel degree
+	m_dgtState.clear();
+	m_dgtState.resize(m_parallelProfile.IsParallel() ? m_parallelProfile.ParallelMaxDegree() : 1);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(m_dgtState.size() * Keccak::KECCAK512_RATE_SIZE);
 	m_msgLength = 0;
 
 	for (i = 0; i < m_dgtState.size(); ++i)
-- 
2.43.0


From faaa772008b1f21ea12a18bc8d3730af8edab0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 04/67] fix: Skein512 and Skein1024 size the tree buffer by the
 fan-out

---
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..7bcc807 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -68,7 +68,7 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..623ea0e 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -68,7 +68,7 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
-- 
2.43.0


From 009dbf1f3f4d9892163a4f1bcf671a4cb33555a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 05/67] fix: tree mode of Blake2 dropped half of each buffered
 stripe, miscounted block counters and wrote the Blake512 code at offset 0;
 keyed mode ignored salt and info

---
 CEX/Blake256.cpp  | 141 ++++++++++++++++-----------------------------
 CEX/Blake512.cpp  | 143 ++++++++++++++++------------------------------
 CEX/BlakeParams.h |   6 +-
 3 files changed, 101 insertions(+), 189 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..6503aa2 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -170,8 +170,8 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 	size_t bcnt;
 	size_t blen;
+	size_t boff;
 	size_t i;
-	uint32_t pblock;
 
 	if (m_treeParams.FanOut() > 1)
 	{
@@ -181,35 +181,22 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		MemoryTools::Clear(m_msgBuffer, m_msgLength, m_msgBuffer.size() - m_msgLength);
 
 		const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
-		pblock = 0xFFFFFFFFUL;
+		// the number of lanes that have a block buffered ahead of their last one
+		bcnt = (m_msgLength > MINPRL) ? ((m_msgLength - MINPRL) + (Blake::BLAKE256_RATE_SIZE - 1)) / Blake::BLAKE256_RATE_SIZE : 0;
 
-		// process unaligned blocks
-		if (m_msgLength > MINPRL)
+		for (i = 0; i < m_treeParams.FanOut(); ++i)
 		{
-			bcnt = (m_msgLength % Blake::BLAKE256_RATE_SIZE != 0) ? ((m_msgLength - MINPRL) / Blake::BLAKE256_RATE_SIZE) + 1 :
-				((m_msgLength - MINPRL) / Blake::BLAKE256_RATE_SIZE);
+			boff = i * Blake::BLAKE256_RATE_SIZE;
 
-			for (i = 0; i < bcnt; ++i)
+			if (i < bcnt)
 			{
-				// process partial block set
 				IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
-				Permute(m_msgBuffer, (i * Blake::BLAKE256_RATE_SIZE), m_dgtState[i]);
-				MemoryTools::Copy(m_msgBuffer, MINPRL + (i * Blake::BLAKE256_RATE_SIZE), m_msgBuffer, (i * Blake::BLAKE256_RATE_SIZE), Blake::BLAKE256_RATE_SIZE);
-				m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+				Permute(m_msgBuffer, boff, m_dgtState[i]);
+				boff += MINPRL;
 			}
 
-			if (m_msgLength % Blake::BLAKE256_RATE_SIZE != 0)
-			{
-				pblock = static_cast<uint32_t>(bcnt - 1);
-			}
-		}
-
-		// process last blocks
-		for (i = 0; i < m_treeParams.FanOut(); ++i)
-		{
 			// apply f0 bit reversal constant to final blocks
 			m_dgtState[i].F[0] = 0xFFFFFFFFUL;
-			blen = Blake::BLAKE256_RATE_SIZE;
 
 			// f1 constant on last block
 			if (i == m_treeParams.FanOut() - 1)
@@ -217,26 +204,10 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 				m_dgtState[i].F[1] = 0xFFFFFFFFUL;
 			}
 
-			if (i == pblock)
-			{
-				blen = m_msgLength % Blake::BLAKE256_RATE_SIZE;
-				m_msgLength += Blake::BLAKE256_RATE_SIZE - blen;
-				MemoryTools::Clear(m_msgBuffer, (i * Blake::BLAKE256_RATE_SIZE) + blen, Blake::BLAKE256_RATE_SIZE - blen);
-			}
-			else if (m_msgLength < Blake::BLAKE256_RATE_SIZE)
-			{
-				blen = m_msgLength;
-				MemoryTools::Clear(m_msgBuffer, (i * Blake::BLAKE256_RATE_SIZE) + blen, Blake::BLAKE256_RATE_SIZE - blen);
-			}
-			else
-			{
-				// misra
-			}
-
+			// the input left for this lane, which may be none
+			blen = (boff < m_msgLength) ? IntegerTools::Min(m_msgLength - boff, static_cast<size_t>(Blake::BLAKE256_RATE_SIZE)) : 0;
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
-			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
-
+			Permute(m_msgBuffer, boff, m_dgtState[i]);
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
 
@@ -334,7 +305,7 @@ void Blake256::Initialize(Cipher::ISymmetricKey &MacKey)
 			m_treeParams.NodeOffset() = static_cast<uint8_t>(i);
 			LoadState( m_treeParams, config, m_dgtState[i]);
 		}
-		m_msgLength = m_parallelProfile.ParallelMinimumSize();
+		m_msgLength = m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
 		m_treeParams.NodeOffset() = 0;
 	}
 	else
@@ -356,7 +327,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -424,85 +395,66 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 	CEXASSERT(Input.size() - InOffset >= Length, "The input buffer is too int16_t!");
 
 	size_t plen;
-	size_t tlen;
 
 	if (Length != 0)
 	{
 		if (m_treeParams.FanOut() > 1)
 		{
-			tlen = Length + m_msgLength;
-			const size_t PRLMIN = m_msgBuffer.size() + (m_parallelProfile.ParallelMinimumSize() - Blake::BLAKE256_RATE_SIZE);
+			const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
 
-			// input larger than min parallel; process buffer and loop-in remainder
-			if (tlen > PRLMIN)
+			// the last block of every lane stays buffered until it is known not to be final
+			if (Length + m_msgLength > m_msgBuffer.size())
 			{
-				// fill buffer
+				// fill the buffer
 				const size_t RMDLEN = m_msgBuffer.size() - m_msgLength;
+
 				if (RMDLEN != 0)
 				{
 					MemoryTools::Copy(Input, InOffset, m_msgBuffer, m_msgLength, RMDLEN);
 				}
 
-				m_msgLength = 0;
 				Length -= RMDLEN;
 				InOffset += RMDLEN;
-				tlen -= m_msgBuffer.size();
 
-				// empty the entire message buffer
-				ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset](size_t i)
+				// process the first half of the buffer
+				ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this](size_t i)
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
 				});
 
-				// loop in the remainder (no buffering)
-				if (Length > PRLMIN)
+				if (Length > MINPRL)
 				{
-					// calculate working set size
-					plen = Length - m_parallelProfile.ParallelMinimumSize();
-
-					if (plen % m_parallelProfile.ParallelMinimumSize() != 0)
+					// every lane has more input; process the second half
+					ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, MINPRL](size_t i)
 					{
-						plen -= (plen % m_parallelProfile.ParallelMinimumSize());
-					}
+						IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+						Permute(m_msgBuffer, MINPRL + (i * Blake::BLAKE256_RATE_SIZE), m_dgtState[i]);
+					});
+
+					m_msgLength = 0;
 
 					// process large blocks
-					ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset, plen](size_t i)
+					plen = Length - MINPRL;
+					plen -= (plen % MINPRL);
+
+					if (plen != 0)
 					{
-						ProcessLeaf(Input, InOffset + (i * Blake::BLAKE256_RATE_SIZE), plen, m_dgtState[i]);
-					});
+						ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset, plen](size_t i)
+						{
+							ProcessLeaf(Input, InOffset + (i * Blake::BLAKE256_RATE_SIZE), plen, m_dgtState[i]);
+						});
 
-					Length -= plen;
-					InOffset += plen;
-					tlen -= plen;
+						Length -= plen;
+						InOffset += plen;
+					}
 				}
-			}
-
-			// remainder exceeds buffer size; process first 4 blocks and shift buffer left
-			if (tlen > m_msgBuffer.size())
-			{
-				// fill buffer
-				const size_t RMDLEN = m_msgBuffer.size() - m_msgLength;
-				if (RMDLEN != 0)
+				else
 				{
-					MemoryTools::Copy(Input, InOffset, m_msgBuffer, m_msgLength, RMDLEN);
+					// shift the buffer left
+					MemoryTools::Copy(m_msgBuffer, MINPRL, m_msgBuffer, 0, MINPRL);
+					m_msgLength = MINPRL;
 				}
-
-				Length -= RMDLEN;
-				InOffset += RMDLEN;
-				m_msgLength = m_msgBuffer.size();
-
-				// process first half of buffer
-				ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset](size_t i)
-				{
-					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
-					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-				});
-
-				// left rotate the buffer
-				m_msgLength -= m_parallelProfile.ParallelMinimumSize();
-				const size_t FNLLEN = m_msgBuffer.size() / 2;
-				MemoryTools::Copy(m_msgBuffer, FNLLEN, m_msgBuffer, 0, FNLLEN);
 			}
 		}
 		else
@@ -578,11 +530,14 @@ void Blake256::Permute(const std::vector<uint8_t> &Input, size_t InOffset, Blake
 
 void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length, Blake2sState &State)
 {
+	const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE256_RATE_SIZE;
+
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += MINPRL;
+		Length -= MINPRL;
 	} 
 	while (Length > 0);
 }
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..d3a2380 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -174,8 +174,8 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 	size_t bcnt;
 	size_t blen;
+	size_t boff;
 	size_t i;
-	uint64_t pblk;
 
 	if (m_treeParams.FanOut() > 1)
 	{
@@ -183,35 +183,24 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 		// clear the unused buffer
 		MemoryTools::Clear(m_msgBuffer, m_msgLength, m_msgBuffer.size() - m_msgLength);
-		pblk = 0xFFFFFFFFFFFFFFFFULL;
 
-		// process unaligned blocks
-		if (m_msgLength > m_parallelProfile.ParallelMinimumSize())
+		const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
+		// the number of lanes that have a block buffered ahead of their last one
+		bcnt = (m_msgLength > MINPRL) ? ((m_msgLength - MINPRL) + (Blake::BLAKE512_RATE_SIZE - 1)) / Blake::BLAKE512_RATE_SIZE : 0;
+
+		for (i = 0; i < m_treeParams.FanOut(); ++i)
 		{
-			bcnt = (m_msgLength % Blake::BLAKE512_RATE_SIZE != 0) ? ((m_msgLength - m_parallelProfile.ParallelMinimumSize()) / Blake::BLAKE512_RATE_SIZE) + 1 :
-				((m_msgLength - m_parallelProfile.ParallelMinimumSize()) / Blake::BLAKE512_RATE_SIZE);
+			boff = i * Blake::BLAKE512_RATE_SIZE;
 
-			for (i = 0; i < bcnt; ++i)
+			if (i < bcnt)
 			{
-				// process partial block set
 				IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
-				Permute(m_msgBuffer, (i * Blake::BLAKE512_RATE_SIZE), m_dgtState[i]);
-				MemoryTools::Copy(m_msgBuffer, m_parallelProfile.ParallelMinimumSize() + (i * Blake::BLAKE512_RATE_SIZE), m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, Blake::BLAKE512_RATE_SIZE);
-				m_msgLength -= Blake::BLAKE512_RATE_SIZE;
-			}
-
-			if (m_msgLength % Blake::BLAKE512_RATE_SIZE != 0)
-			{
-				pblk = bcnt - 1;
+				Permute(m_msgBuffer, boff, m_dgtState[i]);
+				boff += MINPRL;
 			}
-		}
 
-		// process last blocks
-		for (i = 0; i < m_treeParams.FanOut(); ++i)
-		{
 			// apply f0 bit reversal constant to final blocks
 			m_dgtState[i].F[0] = 0xFFFFFFFFFFFFFFFFULL;
-			blen = Blake::BLAKE512_RATE_SIZE;
 
 			// f1 constant on last block
 			if (i == m_treeParams.FanOut() - 1)
@@ -219,25 +208,10 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 				m_dgtState[i].F[1] = 0xFFFFFFFFFFFFFFFFULL;
 			}
 
-			if (i == pblk)
-			{
-				blen = m_msgLength % Blake::BLAKE512_RATE_SIZE;
-				m_msgLength += Blake::BLAKE512_RATE_SIZE - blen;
-				MemoryTools::Clear(m_msgBuffer, (i * Blake::BLAKE512_RATE_SIZE) + blen, Blake::BLAKE512_RATE_SIZE - blen);
-			}
-			else if (m_msgLength < Blake::BLAKE512_RATE_SIZE)
-			{
-				blen = m_msgLength;
-				MemoryTools::Clear(m_msgBuffer, (i * Blake::BLAKE512_RATE_SIZE) + blen, Blake::BLAKE512_RATE_SIZE - blen);
-			}
-			else
-			{
-				// misra
-			}
-
+			// the input left for this lane, which may be none
+			blen = (boff < m_msgLength) ? IntegerTools::Min(m_msgLength - boff, static_cast<size_t>(Blake::BLAKE512_RATE_SIZE)) : 0;
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
-			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			Permute(m_msgBuffer, boff, m_dgtState[i]);
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
@@ -270,7 +244,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		IntegerTools::LeIncreaseW(m_dgtState[0].T, m_dgtState[0].T, Blake::BLAKE512_RATE_SIZE);
 		Permute(m_msgBuffer, m_msgLength - Blake::BLAKE512_RATE_SIZE, m_dgtState[0]);
 		// output the code
-		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, 0);
+		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, OutOffset);
 	}
 	else
 	{
@@ -335,7 +309,7 @@ void Blake512::Initialize(Cipher::ISymmetricKey &MacKey)
 			m_treeParams.NodeOffset() = static_cast<uint8_t>(i);
 			LoadState(m_dgtState[i], m_treeParams, config);
 		}
-		m_msgLength = m_parallelProfile.ParallelMinimumSize();
+		m_msgLength = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
 		m_treeParams.NodeOffset() = 0;
 	}
 	else
@@ -357,7 +331,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -424,19 +398,17 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 	CEXASSERT(Input.size() - InOffset >= Length, "The input buffer is too int16_t!");
 
 	size_t plen;
-	size_t tlen;
 
 	if (Length != 0)
 	{
 		if (m_treeParams.FanOut() > 1)
 		{
-			tlen = Length + m_msgLength;
-			const size_t PRLMIN = m_msgBuffer.size() + (m_parallelProfile.ParallelMinimumSize() - Blake::BLAKE512_RATE_SIZE);
+			const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
 
-			// input larger than min parallel; process buffer and loop-in remainder
-			if (tlen > PRLMIN)
+			// the last block of every lane stays buffered until it is known not to be final
+			if (Length + m_msgLength > m_msgBuffer.size())
 			{
-				// fill buffer
+				// fill the buffer
 				const size_t RMDLEN = m_msgBuffer.size() - m_msgLength;
 
 				if (RMDLEN != 0)
@@ -444,66 +416,48 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 					MemoryTools::Copy(Input, InOffset, m_msgBuffer, m_msgLength, RMDLEN);
 				}
 
-				m_msgLength = 0;
 				Length -= RMDLEN;
 				InOffset += RMDLEN;
-				tlen -= m_msgBuffer.size();
 
-				// empty the message buffer
-				ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset](size_t i)
+				// process the first half of the buffer
+				ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this](size_t i)
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
 				});
 
-				// loop in the remainder (no buffering)
-				if (Length > PRLMIN)
+				if (Length > MINPRL)
 				{
-					// calculate working set size
-					plen = Length - m_parallelProfile.ParallelMinimumSize();
-					if (plen % m_parallelProfile.ParallelMinimumSize() != 0)
+					// every lane has more input; process the second half
+					ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, MINPRL](size_t i)
 					{
-						plen -= (plen % m_parallelProfile.ParallelMinimumSize());
-					}
+						IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+						Permute(m_msgBuffer, MINPRL + (i * Blake::BLAKE512_RATE_SIZE), m_dgtState[i]);
+					});
+
+					m_msgLength = 0;
 
 					// process large blocks
-					ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset, plen](size_t i)
+					plen = Length - MINPRL;
+					plen -= (plen % MINPRL);
+
+					if (plen != 0)
 					{
-						ProcessLeaf(Input, InOffset + (i * Blake::BLAKE512_RATE_SIZE), plen, m_dgtState[i]);
-					});
+						ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset, plen](size_t i)
+						{
+							ProcessLeaf(Input, InOffset + (i * Blake::BLAKE512_RATE_SIZE), plen, m_dgtState[i]);
+						});
 
-					Length -= plen;
-					InOffset += plen;
-					tlen -= plen;
+						Length -= plen;
+						InOffset += plen;
+					}
 				}
-			}
-
-			// remainder exceeds buffer size; process first 4 blocks and shift buffer left
-			if (tlen > m_msgBuffer.size())
-			{
-				// fill buffer
-				const size_t RMDLEN = m_msgBuffer.size() - m_msgLength;
-
-				if (RMDLEN != 0)
+				else
 				{
-					MemoryTools::Copy(Input, InOffset, m_msgBuffer, m_msgLength, RMDLEN);
+					// shift the buffer left
+					MemoryTools::Copy(m_msgBuffer, MINPRL, m_msgBuffer, 0, MINPRL);
+					m_msgLength = MINPRL;
 				}
-
-				Length -= RMDLEN;
-				InOffset += RMDLEN;
-				m_msgLength = m_msgBuffer.size();
-
-				// process first half of buffer
-				ParallelTools::ParallelFor(0, m_treeParams.FanOut(), [this, &Input, InOffset](size_t i)
-				{
-					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
-					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-				});
-
-				// left rotate the buffer
-				m_msgLength -= m_parallelProfile.ParallelMinimumSize();
-				const size_t FNLLEN = m_msgBuffer.size() / 2;
-				MemoryTools::Copy(m_msgBuffer, FNLLEN, m_msgBuffer, 0, FNLLEN);
 			}
 		}
 		else
@@ -579,11 +533,14 @@ void Blake512::Permute(const std::vector<uint8_t> &Input, size_t InOffset, Blake
 
 void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, uint64_t Length, Blake2bState &State)
 {
+	const size_t MINPRL = m_treeParams.FanOut() * Blake::BLAKE512_RATE_SIZE;
+
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
-		InOffset += m_parallelProfile.ParallelMinimumSize();
-		Length -= m_parallelProfile.ParallelMinimumSize();
+		InOffset += MINPRL;
+		Length -= MINPRL;
 	}
 	while (Length > 0);
 }
diff --git a/CEX/BlakeParams.h b/CEX/BlakeParams.h
index 1b6b4c3..2767448 100644
--- a/CEX/BlakeParams.h
+++ b/CEX/BlakeParams.h
@@ -196,7 +196,7 @@ public:
 
 			for (size_t i = 3; i < Config.size(); ++i)
 			{
-				Config[i] = IntegerTools::LeBytesTo64(m_dstCode, (i - 3) * sizeof(uint64_t));
+				Config[i] |= IntegerTools::LeBytesTo64(m_dstCode, (i - 3) * sizeof(uint64_t));
 			}
 		}
 		else
@@ -209,11 +209,11 @@ public:
 			Config[2] = m_nodeOffset;
 			Config[3] |= (static_cast<uint32_t>(m_nodeDepth) << 16);
 			Config[3] |= (static_cast<uint32_t>(m_innerLen) << 24);
-			Config[4] = m_reserved;
+			Config[4] |= m_reserved;
 
 			for (size_t i = 5; i < Config.size(); ++i)
 			{
-				Config[i] = IntegerTools::LeBytesTo32(m_dstCode, (i - 5) * sizeof(uint32_t));
+				Config[i] |= IntegerTools::LeBytesTo32(m_dstCode, (i - 5) * sizeof(uint32_t));
 			}
 		}
 	}
-- 
2.43.0


From 59f1234a1a69e0e7a3e9c1b7370b4b0ed130ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 06/67] fix: KMAC and cSHAKE customisation encode lengths
 across a block boundary; KPA512 tag size and KPA output offset; GMAC frees
 the cipher it created

---
 CEX/GMAC.cpp |  1 -
 CEX/KMAC.cpp | 18 +++++++++++++++---
 CEX/KPA.cpp  | 10 +++++-----
 CEX/Keccak.h | 43 ++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5f8b7ee..33b112f 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -50,7 +50,6 @@ public:
 		MemoryTools::Clear(Hash, 0, Hash.size() * sizeof(uint64_t));
 		MemoryTools::Clear(Nonce, 0, Nonce.size());
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..f0ce63a 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -162,12 +162,24 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	olen = Output.size() - OutOffset;
 	blen = Keccak::RightEncode(buf, 0, static_cast<uint64_t>(olen) * sizeof(uint64_t));
 
-	for (i = 0; i < blen; i++)
+	// the domain-id follows the encoded length; either can start a new block
+	for (i = 0; i <= blen; i++)
 	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
+		if (m_kmacState->Position == m_kmacState->Rate)
+		{
+			Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+			Permute(m_kmacState);
+			MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+			m_kmacState->Position = 0;
+		}
+
+		if (i < blen)
+		{
+			m_kmacState->Buffer[m_kmacState->Position] = buf[i];
+			++m_kmacState->Position;
+		}
 	}
 
-	m_kmacState->Position += blen;
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..529baa8 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			Keccak::KECCAK512_DIGEST_SIZE)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
@@ -202,8 +202,8 @@ KPA::KPA(KpaModes KbaModeType)
 		size_t outlen;
 		size_t outoft;
 
-		outlen = Output.size();
-		outoft = 0;
+		outlen = Output.size() - OutOffset;
+		outoft = OutOffset;
 
 		// clear unused buffer
 		if (m_kbaState->Position != 0)
@@ -234,7 +234,7 @@ KPA::KPA(KpaModes KbaModeType)
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 
 		// add total processed bytes and output length to padding string
-		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * Output.size());
+		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * outlen);
 		bitlen += Keccak::RightEncode(prcb, bitlen, 8ULL * m_kbaState->Processed);
 		// copy to buffer
 		MemoryTools::Copy(prcb, 0, m_kbaState->Buffer, 0, bitlen);
@@ -268,7 +268,7 @@ KPA::KPA(KpaModes KbaModeType)
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
-		return Output.size();
+		return Output.size() - OutOffset;
 	}
 
 	void KPA::Initialize(ISymmetricKey &Parameters)
diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..6eb4ccc 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -391,7 +391,22 @@ public:
 			}
 		}
 
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+		// the encoded length can cross a block boundary
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		const size_t ENCLEN = static_cast<size_t>(LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8));
+
+		for (i = 0; i < ENCLEN; ++i)
+		{
+			if (offset == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, State);
+				Permute(State, Rounds);
+				offset = 0;
+			}
+
+			pad[offset] = enc[i];
+			++offset;
+		}
 
 		if (Customization.size() != 0)
 		{
@@ -614,13 +629,31 @@ public:
 		if (Length != 0)
 		{
 			MemoryTools::Copy(Message, Offset, pad, 0, Length);
-			MemoryTools::Clear(pad, Length, pad.size() - Length);
 		}
 
-		// add the remaining message bytes to the state and finalize
-		blen = RightEncode(pad, Length, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
+		MemoryTools::Clear(pad, Length, pad.size() - Length);
+
+		// add the remaining message bytes to the state and finalize; the encoded length and domain-id can start a new block
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		blen = static_cast<size_t>(RightEncode(enc, 0, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t)));
+
+		for (i = 0; i <= blen; ++i)
+		{
+			if (Length == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, state);
+				Permute(state, Rounds);
+				MemoryTools::Clear(pad, 0, pad.size());
+				Length = 0;
+			}
+
+			if (i < blen)
+			{
+				pad[Length] = enc[i];
+				++Length;
+			}
+		}
 
-		Length += blen;
 		pad[Length] = KECCAK_KMAC_DOMAIN;
 		pad[Rate - 1] |= 128;
 		FastAbsorb(pad, 0, Rate, state);
-- 
2.43.0


From 67ef3b0d18963065a9eadc7c6feb41cc6fd22776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 07/67] fix: size checks on a buffer and offset no longer wrap
 when the offset is past the end; secure-vector MAC output is size checked

---
 CEX/ACP.cpp       | 4 ++--
 CEX/BCG.cpp       | 4 ++--
 CEX/BCR.cpp       | 4 ++--
 CEX/Blake256.cpp  | 2 +-
 CEX/Blake512.cpp  | 2 +-
 CEX/CJP.cpp       | 4 ++--
 CEX/CMAC.cpp      | 9 +++++++--
 CEX/CSG.cpp       | 4 ++--
 CEX/CSP.cpp       | 4 ++--
 CEX/CSR.cpp       | 4 ++--
 CEX/ECP.cpp       | 2 +-
 CEX/GMAC.cpp      | 9 +++++++--
 CEX/HBA.cpp       | 4 ++--
 CEX/HCG.cpp       | 4 ++--
 CEX/HCR.cpp       | 4 ++--
 CEX/HKDF.cpp      | 4 ++--
 CEX/HMAC.cpp      | 9 +++++++--
 CEX/KDF2.cpp      | 4 ++--
 CEX/KMAC.cpp      | 9 +++++++--
 CEX/KPA.cpp       | 9 +++++++--
 CEX/PBKDF2.cpp    | 4 ++--
 CEX/Poly1305.cpp  | 9 +++++++--
 CEX/RDP.cpp       | 4 ++--
 CEX/SCBKDF.cpp    | 4 ++--
 CEX/SHA2256.cpp   | 2 +-
 CEX/SHA2512.cpp   | 2 +-
 CEX/SHA3256.cpp   | 2 +-
 CEX/SHA3512.cpp   | 2 +-
 CEX/SHAKE.cpp     | 4 ++--
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein256.cpp  | 2 +-
 CEX/Skein512.cpp  | 2 +-
 32 files changed, 84 insertions(+), 54 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index f7a6a96..c49b665 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -72,7 +72,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -107,7 +107,7 @@ void ACP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..da39df7 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -198,7 +198,7 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -244,7 +244,7 @@ void BCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 6fe0564..6340bb3 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -80,7 +80,7 @@ void BCR::Generate(std::vector<uint8_t> &Output)
 
 void BCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -98,7 +98,7 @@ void BCR::Generate(SecureVector<uint8_t> &Output)
 
 void BCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 6503aa2..1c4812d 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -163,7 +163,7 @@ void Blake256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index d3a2380..9fdb52a 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -167,7 +167,7 @@ void Blake512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index 79235a3..15fc564 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -132,7 +132,7 @@ void CJP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -164,7 +164,7 @@ void CJP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index ceb5d9f..012f296 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -155,7 +155,7 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -179,6 +179,11 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t CMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -249,7 +254,7 @@ void CMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (Input.size() < InOffset || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..d08223e 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -255,7 +255,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output)
 
 void CSG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -271,7 +271,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 00ef398..6c33aa6 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -81,7 +81,7 @@ void CSP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -113,7 +113,7 @@ void CSP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..2dd345a 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -81,7 +81,7 @@ void CSR::Generate(std::vector<uint8_t> &Output)
 
 void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -99,7 +99,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output)
 
 void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ad990af..1dda55b 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -70,7 +70,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 33b112f..f28059a 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -170,7 +170,7 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -185,6 +185,11 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t GMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -279,7 +284,7 @@ void GMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (Input.size() < InOffset || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..7e408cb 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -397,7 +397,7 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 
 	if (IsEncryption() == true)
 	{
-		if (Output.size() - OutOffset < Length + TagSize())
+		if (Output.size() < OutOffset || Output.size() - OutOffset < Length + TagSize())
 		{
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
@@ -414,7 +414,7 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	}
 	else
 	{
-		if (Output.size() - OutOffset < Length)
+		if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 		{
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..09deea8 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -198,7 +198,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -235,7 +235,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 
 void HCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..2185d65 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -84,7 +84,7 @@ void HCR::Generate(std::vector<uint8_t> &Output)
 
 void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -102,7 +102,7 @@ void HCR::Generate(SecureVector<uint8_t> &Output)
 
 void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..33c60ac 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -193,7 +193,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -211,7 +211,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index ae456cc..eed696e 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -173,7 +173,7 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -189,6 +189,11 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t HMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -257,7 +262,7 @@ void HMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (Input.size() < InOffset || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..9929a86 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -162,7 +162,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -180,7 +180,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index f0ce63a..1004213 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -131,6 +131,11 @@ void KMAC::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &Outp
 
 size_t KMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
+	if (Output.size() < OutOffset)
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 	Finalize(tmph, 0);
@@ -150,7 +155,7 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -244,7 +249,7 @@ void KMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (Input.size() < InOffset || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 529baa8..55b0c71 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -167,6 +167,11 @@ KPA::KPA(KpaModes KbaModeType)
 
 	size_t KPA::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
+		if (Output.size() < OutOffset)
+		{
+			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+		}
+
 		SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 		Finalize(tmph, 0);
@@ -181,7 +186,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Output.size() - OutOffset) < TagSize())
+		if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
@@ -463,7 +468,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Input.size() - InOffset) < Length)
+		if (Input.size() < InOffset || Input.size() - InOffset < Length)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..4b18a45 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -168,7 +168,7 @@ void PBKDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -186,7 +186,7 @@ void PBKDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 1d5f692..374a37a 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -103,7 +103,7 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -184,6 +184,11 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 size_t Poly1305::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
+	if (Output.size() < OutOffset || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	std::vector<uint8_t> tag(TagSize());
 
 	Finalize(tag, 0);
@@ -233,7 +238,7 @@ void Poly1305::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (Input.size() < InOffset || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/RDP.cpp b/CEX/RDP.cpp
index 3871d95..85517f8 100644
--- a/CEX/RDP.cpp
+++ b/CEX/RDP.cpp
@@ -63,7 +63,7 @@ void RDP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -103,7 +103,7 @@ void RDP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index a15e6e0..be9e3f2 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -131,7 +131,7 @@ void SCBKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -146,7 +146,7 @@ void SCBKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index eeed0b9..9b66e4b 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -145,7 +145,7 @@ void SHA2256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index 3fb4c82..3ab60d6 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -148,7 +148,7 @@ void SHA2512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 920f608..620624d 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -132,7 +132,7 @@ void SHA3256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 76cf787..897bd87 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -132,7 +132,7 @@ void SHA3512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHAKE.cpp b/CEX/SHAKE.cpp
index 0cc36ea..48e8d1c 100644
--- a/CEX/SHAKE.cpp
+++ b/CEX/SHAKE.cpp
@@ -130,7 +130,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output)
 
 void SHAKE::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -147,7 +147,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 7bcc807..fe88a98 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -146,7 +146,7 @@ void Skein1024::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t>
 
 void Skein1024::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index c46e84d..79194a4 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -145,7 +145,7 @@ void Skein256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 623ea0e..8b3bc69 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -146,7 +146,7 @@ void Skein512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
+	if (Output.size() < OutOffset || Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 9f6726c42a020966bca64eb992c46b23cb60a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 08/67] fix: key derivation: salts copied past the nonce,
 secure-vector output at an offset, stale salt and info after
 re-initialisation, HKDF block counter wrap, SCBKDF memory bound, HKDF leak

---
 CEX/HKDF.cpp   | 12 ++++++------
 CEX/KDF2.cpp   |  6 ++++--
 CEX/PBKDF2.cpp |  6 ++++--
 CEX/SCBKDF.cpp |  2 +-
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 33c60ac..0326666 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,8 +33,8 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.clear();
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -161,7 +161,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) + (Output.size() % m_hkdfGenerator->TagSize() != 0 ? 1 : 0) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -175,7 +175,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) + (Output.size() % m_hkdfGenerator->TagSize() != 0 ? 1 : 0) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -189,7 +189,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) + (Length % m_hkdfGenerator->TagSize() != 0 ? 1 : 0) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -207,7 +207,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) + (Length % m_hkdfGenerator->TagSize() != 0 ? 1 : 0) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -303,7 +303,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 9929a86..70eee6e 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,7 +42,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
+		State.clear();
 		IsInitialized = false;
 	}
 };
@@ -222,7 +224,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
@@ -301,7 +303,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 4b18a45..610f200 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,7 +46,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
+		State.clear();
 		IsInitialized = false;
 	}
 };
@@ -234,7 +236,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
@@ -294,7 +296,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index be9e3f2..dca2836 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -211,7 +211,7 @@ void SCBKDF::Expand(std::unique_ptr<ScbkdfState> &State)
 		Keccak::Absorb(State->Cache, 0, State->Cache.size(), State->Rate, State->Domain, State->State);
 
 		// increase the cache size up to memory cost
-		if (State->State.size() < State->MemoryCost * MB1)
+		if (State->Cache.size() < State->MemoryCost * MB1)
 		{
 			const size_t CLEN = State->Cache.size();
 			State->Cache.resize(CLEN + State->Rate);
-- 
2.43.0


From e1e6e060c95140a8d4051b9724c9106b99c02648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 09/67] fix: big-endian and little-endian counter addition lost
 the carry when an addend byte is 0xFF

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..a87353d 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = static_cast<uint8_t>((static_cast<uint32_t>(odst) + osrc + carry) >> 8);
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From b71f9f638b40474e6b01aa1667ba6ffb7d175c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 10/67] fix: StreamCipherFromName returned ChaChaP20 for the
 CSX512 names

---
 CEX/StreamCipherFromName.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamCipherFromName.cpp b/CEX/StreamCipherFromName.cpp
index 89c56b5..8112572 100644
--- a/CEX/StreamCipherFromName.cpp
+++ b/CEX/StreamCipherFromName.cpp
@@ -42,12 +42,12 @@ IStreamCipher* StreamCipherFromName::GetInstance(StreamCiphers StreamCipherType)
 			}
 			case StreamCiphers::CSX512:
 			{
-				cptr = new ChaChaP20(false);
+				cptr = new CSX512(false);
 				break;
 			}
 			case StreamCiphers::CSXR80K512:
 			{
-				cptr = new ChaChaP20(true);
+				cptr = new CSX512(true);
 				break;
 			}
 			case StreamCiphers::RCS:
-- 
2.43.0


From 3dbdd6e246a7d3a0e3f66f98693443d32ecf4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 11/67] fix: GCM and HBA check sizes and state before
 processing; GCM keeps no associated data or nonce from an abandoned message
 and keeps its hash key on nonce-only initialisation

---
 CEX/GCM.cpp | 67 +++++++++++++++++++++++++++++++++++++----------------
 CEX/HBA.cpp | 16 +++++++++----
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..8792318 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -184,13 +184,6 @@ const size_t GCM::TagSize()
 
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_macAuthenticator->Reset();
-	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
-	m_gcmState->Counter = 0;
-
-	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
-
 	if (Parameters.KeySizes().IVSize() < MIN_NONCESIZE)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a nonce of minimum 10 bytes in length!"), ErrorCodes::InvalidNonce);
@@ -226,25 +219,36 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 			throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Invalid key size; key must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
 		}
 
-		// key the block-cipher and create the hash key
+		// key the block-cipher
 		m_cipherMode->Engine()->Initialize(true, Parameters);
-		std::vector<uint8_t> tmph(BLOCK_SIZE);
-		const std::vector<uint8_t> ZEROES(BLOCK_SIZE, 0x00);
-		m_cipherMode->Engine()->Transform(ZEROES, 0, tmph, 0);
-
-		std::vector<uint64_t> gkey = 
-		{
-			IntegerTools::BeBytesTo64(tmph, 0),
-			IntegerTools::BeBytesTo64(tmph, 8)
-		};
-
-		// initialize the ghash function
-		m_macAuthenticator->Initialize(gkey);
 		// store the key in a secure-vector
 		m_gcmState->Key.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.SecureKey(), 0, m_gcmState->Key, 0, m_gcmState->Key.size());
 	}
 
+	// reset the state left by a previous message
+	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
+	m_gcmState->AAD.resize(0);
+	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
+	MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
+	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
+	m_gcmState->Counter = 0;
+	m_macAuthenticator->Reset();
+
+	// create the hash key
+	std::vector<uint8_t> tmph(BLOCK_SIZE);
+	const std::vector<uint8_t> ZEROES(BLOCK_SIZE, 0x00);
+	m_cipherMode->Engine()->Transform(ZEROES, 0, tmph, 0);
+
+	std::vector<uint64_t> gkey = 
+	{
+		IntegerTools::BeBytesTo64(tmph, 0),
+		IntegerTools::BeBytesTo64(tmph, 8)
+	};
+
+	// initialize the ghash function
+	m_macAuthenticator->Initialize(gkey);
+
 	// load the state
 	m_gcmState->Encryption = Encryption;
 	m_gcmState->Buffer.resize(Parameters.KeySizes().IVSize());
@@ -299,6 +303,11 @@ void GCM::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
 
+	if (Input.size() < Offset || Input.size() - Offset < Length)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
 	m_macAuthenticator->Multiply(m_gcmState->AAD, m_gcmState->Tag, Length);
@@ -315,6 +324,11 @@ void GCM::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
 
+	if (Input.size() < Offset || Input.size() - Offset < Length)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
 	m_macAuthenticator->Multiply(m_gcmState->AAD, m_gcmState->Tag, Length);
@@ -325,6 +339,19 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
 	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the the block-size!");
 
+	if (IsInitialized() == false)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
+	const size_t INPLEN = (IsEncryption() == true) ? Length : Length + TagSize();
+	const size_t OTPLEN = (IsEncryption() == true) ? Length + TagSize() : Length;
+
+	if (Input.size() < InOffset || Input.size() - InOffset < INPLEN || Output.size() < OutOffset || Output.size() - OutOffset < OTPLEN)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The input or output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	m_gcmState->Counter += Length;
 
 	if (IsEncryption() == true)
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 7e408cb..deb4957 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Input.size() < Offset || Input.size() - Offset < Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Input.size() < Offset || Input.size() - Offset < Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -392,9 +392,6 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	// add the starting position of the nonce to the mac
-	m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
-
 	if (IsEncryption() == true)
 	{
 		if (Output.size() < OutOffset || Output.size() - OutOffset < Length + TagSize())
@@ -402,6 +399,8 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
 
+		// add the starting position of the nonce to the mac
+		m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 		// encrypt the plain-text
 		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
 		// update the MAC with the cipher-text
@@ -419,6 +418,13 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 		}
 
+		if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+		{
+			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The input array is too small to hold the authentication tag!"), ErrorCodes::InvalidSize);
+		}
+
+		// add the starting position of the nonce to the mac
+		m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 		// update the MAC with the input cipher-text
 		m_macAuthenticator->Update(Input, InOffset, Length);
 		// update the mac counter
-- 
2.43.0


From ef494afc900670c5e0d762573c3c9ef107c6a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 12/67] fix: stream ciphers: parallel tail ignored the output
 offset, info size and tag size checks, RCS/RWS parallel counter wider than
 the sequential one and stale info, truncated authenticated input read past
 its end

---
 CEX/CSX512.cpp    |  7 ++++++-
 CEX/ChaChaP20.cpp |  7 ++++++-
 CEX/RCS.cpp       |  8 +++++++-
 CEX/RWS.cpp       |  8 +++++++-
 CEX/TSX1024.cpp   | 11 ++++++++---
 CEX/TSX256.cpp    |  5 +++++
 CEX/TSX512.cpp    |  9 +++++++--
 7 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..2b8885e 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -467,6 +467,11 @@ void CSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_csx512State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_csx512State->Nonce[1]), 0, sizeof(uint64_t));
@@ -686,7 +691,7 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..5835fdf 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -470,6 +470,11 @@ void ChaChaP20::Transform(const std::vector<uint8_t> &Input, size_t InOffset, st
 	{
 		if (IsAuthenticator())
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le32ToBytes<std::vector<uint8_t>>(m_csx256State->Nonce[0]), 0, sizeof(uint32_t));
 			m_macAuthenticator->Update(IntegerTools::Le32ToBytes<std::vector<uint8_t>>(m_csx256State->Nonce[1]), 0, sizeof(uint32_t));
@@ -748,7 +753,7 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..d329a81 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -177,6 +177,7 @@ public:
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(uint32_t));
 #endif
 		MemoryTools::Clear(Custom, 0, Custom.size());
+		Custom.clear();
 		MemoryTools::Clear(MacKey, 0, MacKey.size());
 		MemoryTools::Clear(MacTag, 0, MacTag.size());
 		MemoryTools::Clear(Name, 0, Name.size());
@@ -605,6 +606,11 @@ void RCS::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(m_rcsState->Nonce, 0, BLOCK_SIZE);
 			// update the mac with the ciphertext
@@ -833,7 +839,7 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..eee58b7 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -140,6 +140,7 @@ public:
 	{
 		MemoryTools::Clear(RoundKeys, 0, RoundKeys.size() * sizeof(uint32_t));
 		MemoryTools::Clear(Custom, 0, Custom.size());
+		Custom.clear();
 		MemoryTools::Clear(MacKey, 0, MacKey.size());
 		MemoryTools::Clear(MacTag, 0, MacTag.size());
 		MemoryTools::Clear(Name, 0, Name.size());
@@ -540,6 +541,11 @@ void RWS::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(m_rwsState->Nonce, 0, BLOCK_SIZE);
 			// update the mac with the ciphertext
@@ -765,7 +771,7 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..e667cb8 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX1024::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX1024, auth);
 
 	return tmpn;
 }
@@ -198,7 +198,7 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Nonce must be 16 bytes!"), ErrorCodes::InvalidNonce);
 	}
-	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() != INFO_SIZE)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be no more than 16 bytes!"), ErrorCodes::InvalidInfo);
 	}
@@ -354,7 +354,7 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
@@ -382,6 +382,11 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx1024State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx1024State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index b6b8171..218968f 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -359,6 +359,11 @@ void TSX256::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx256State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx256State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..e215c26 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX512::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX512, auth);
 
 	return tmpn;
 }
@@ -198,7 +198,7 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Nonce must be 16 bytes!"), ErrorCodes::InvalidNonce);
 	}
-	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() != INFO_SIZE)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be no more than 16 bytes!"), ErrorCodes::InvalidInfo);
 	}
@@ -366,6 +366,11 @@ void TSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (Input.size() < InOffset || Input.size() - InOffset < Length + TagSize())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input is too small to hold the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx512State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx512State->Nonce[1]), 0, sizeof(uint64_t));
-- 
2.43.0


From a75b786e565502e9681bc0057e11c4fc30701bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:54 +0000
Subject: [PATCH 13/67] fix: 32-bit rotation used a long intrinsic, 64 bits
 wide where long is

---
 CEX/IntegerTools.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index a87353d..a927f12 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2599,7 +2599,7 @@ public:
 	//~~~Rotate~~~//
 
 #if defined(CEX_HAS_MINSSE) && defined(CEX_FASTROTATE_ENABLED)
-#	pragma intrinsic(_rotl, _lrotl, _rotl64, _rotr, _lrotr, _rotr64)
+#	pragma intrinsic(_rotl, _rotl64, _rotr, _rotr64)
 
 	/// <summary>
 	/// Rotate shift an unsigned 32-bit integer to the left by a positive fixed non-zero increment
@@ -2613,7 +2613,7 @@ public:
 	{
 		CEXASSERT(Shift <= sizeof(uint32_t) * 8, "Shift size is too large");
 
-		return _lrotl(Value, static_cast<int32_t>(Shift));
+		return _rotl(Value, static_cast<int32_t>(Shift));
 	}
 
 	/// <summary>
@@ -2643,7 +2643,7 @@ public:
 	{
 		CEXASSERT(Shift <= sizeof(uint32_t) * 8, "Shift size is too large");
 
-		return _lrotr(Value, static_cast<int32_t>(Shift));
+		return _rotr(Value, static_cast<int32_t>(Shift));
 	}
 
 	/// <summary>
-- 
2.43.0


From 7f74df6ce8dc1a8809d61cc73de8472df5701423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:54 +0000
Subject: [PATCH 14/67] fix: GCM drops the info parameter from its CTR key;
 plain ChaChaP20 and CSX512 refuse their own serialized state

---
 CEX/CSX512.h    | 2 +-
 CEX/ChaChaP20.h | 2 +-
 CEX/GCM.cpp     | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/CEX/CSX512.h b/CEX/CSX512.h
index 1604bd0..b33a8fc 100644
--- a/CEX/CSX512.h
+++ b/CEX/CSX512.h
@@ -137,7 +137,7 @@ private:
 #endif
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 243;
+	static const size_t STATE_THRESHOLD = 145;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 64;
 
diff --git a/CEX/ChaChaP20.h b/CEX/ChaChaP20.h
index 2069422..9d43d05 100644
--- a/CEX/ChaChaP20.h
+++ b/CEX/ChaChaP20.h
@@ -136,7 +136,7 @@ private:
 	static const size_t NONCE_SIZE = 2;
 	static const size_t ROUND_COUNT = 20;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 155;
+	static const size_t STATE_THRESHOLD = 81;
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 32;
diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 8792318..8595534 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -15,6 +15,7 @@ public:
 
 	std::vector<uint8_t> AAD;
 	SecureVector<uint8_t> Buffer;
+	SecureVector<uint8_t> Info;
 	SecureVector<uint8_t> Key;
 	std::vector<uint8_t> Nonce;
 	std::vector<uint8_t> Tag;
@@ -28,6 +29,7 @@ public:
 		:
 		AAD(0),
 		Buffer(0),
+		Info(0),
 		Key(0),
 		Nonce(BLOCK_SIZE, 0x00),
 		Tag(BLOCK_SIZE, 0x00),
@@ -48,6 +50,7 @@ public:
 	{
 		MemoryTools::Clear(AAD, 0, AAD.size());
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
+		MemoryTools::Clear(Info, 0, Info.size());
 		MemoryTools::Clear(Key, 0, Key.size());
 		MemoryTools::Clear(Nonce, 0, Nonce.size());
 		MemoryTools::Clear(Tag, 0, Tag.size());
@@ -224,6 +227,8 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		// store the key in a secure-vector
 		m_gcmState->Key.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.SecureKey(), 0, m_gcmState->Key, 0, m_gcmState->Key.size());
+		// the info changes the key schedule of an extended cipher
+		m_gcmState->Info = Parameters.SecureInfo();
 	}
 
 	// reset the state left by a previous message
@@ -269,7 +274,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// initialize the CTR mode
-	SymmetricKey ckp(m_gcmState->Key, SecureLock(m_gcmState->Nonce));
+	SymmetricKey ckp(m_gcmState->Key, SecureLock(m_gcmState->Nonce), m_gcmState->Info);
 	m_cipherMode->Initialize(true, ckp);
 	m_cipherMode->ParallelProfile().Calculate(m_parallelProfile.IsParallel(), m_parallelProfile.ParallelBlockSize(), m_parallelProfile.ParallelMaxDegree());
 
-- 
2.43.0


From c19d8b671dac9d40add18737c144a41e35417889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:33 +0000
Subject: [PATCH 15/67] fix: random generators: BCG parallel counters match the
 sequential ones, its provider ownership, reseed count and Parallel option;
 HCG accepts SHA2512 instances; CSG rate and key sizes for SHAKE512/1024 with
 a custom provider, customisation across a block boundary

---
 CEX/BCG.cpp | 22 +++++++++-------------
 CEX/CSG.cpp | 33 +++++++++++++++++++++++++--------
 CEX/HCG.cpp |  4 ++--
 3 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index da39df7..519e721 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -80,8 +80,8 @@ public:
 
 		Counter = 0;
 		KeySize = 0;
+		Reseed = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -106,6 +106,7 @@ BCG::BCG(Providers ProviderType, bool Parallel)
 	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
+	m_parallelProfile.IsParallel() = m_parallelProfile.IsParallel() && Parallel;
 }
 
 BCG::BCG(IProvider* Provider, bool Parallel)
@@ -123,9 +124,10 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 	m_bcgProvider(Provider != nullptr ? 
 		Provider :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
+	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
+	m_parallelProfile.IsParallel() = m_parallelProfile.IsParallel() && Parallel;
 }
 
 BCG::~BCG()
@@ -217,20 +219,11 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		// generator must be re-seeded
 		if (m_bcgState->Counter >= ReseedThreshold() || CyclicReseed() == true)
 		{
-			// increment the reseed count
-			++m_bcgState->Reseed;
-
-			// if re-seeded more than legal maximum, throw an exception
-			if (m_bcgState->Reseed > MaxReseedCount())
-			{
-				throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The maximum reseed requests can not be exceeded, re-initialize the generator!"), ErrorCodes::MaxExceeded);
-			}
-
 			// the next unused block of output is key material
 			SecureVector<uint8_t> tmpk(GEN_STRENGTH / 8);
 			// fill the key with pseudo-random
 			Process(tmpk, 0, tmpk.size());
-			// re-initialize the generator
+			// re-initialize the generator, this counts the reseed and throws if the legal maximum is exceeded
 			Update(tmpk);
 			// reset the reseed counter
 			m_bcgState->Counter = 0;
@@ -373,7 +366,10 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 
 	// reinitialize the generator with the nonce and distribution codes preserved
 	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	// the reseed count is kept until the generator is keyed by the user
+	const size_t RSDCNT = m_bcgState->Reseed;
 	Initialize(kp);
+	m_bcgState->Reseed = RSDCNT;
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
 }
@@ -557,7 +553,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index d08223e..f9c6289 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,8 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				(ShakeModeType == ShakeModes::SHAKE512) ? Keccak::KECCAK512_RATE_SIZE :
+				Keccak::KECCAK1024_RATE_SIZE), 
 			DEF_RESEED, 
 			false))
 {
@@ -447,7 +448,23 @@ void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVect
 		}
 	}
 
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+	// the encoded length can cross a block boundary
+	std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+	const size_t ENCLEN = static_cast<size_t>(Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8));
+
+	for (i = 0; i < ENCLEN; ++i)
+	{
+		// absorb and permute full blocks
+		if (offset == State->Rate)
+		{
+			Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
+			Permute(State);
+			offset = 0;
+		}
+
+		pad[offset] = enc[i];
+		++offset;
+	}
 
 	if (Customization.size() != 0)
 	{
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 09deea8..26f218a 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
-- 
2.43.0


From 2cb00febc3d6894c6f213dbf8575abe61dc82ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 16/67] fix: random sources: ranges partly filled, provider
 choice ignored, bounds unchecked, bounded integers out of range

---
 CEX/ACP.cpp          |   2 +-
 CEX/CSR.cpp          |   2 +-
 CEX/ECP.cpp          |   2 +-
 CEX/HCR.cpp          |   4 +-
 CEX/PrngFromName.cpp |   2 +-
 CEX/SecureRandom.cpp | 153 ++++++++++++-------------------------------
 6 files changed, 47 insertions(+), 118 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index c49b665..404df04 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -83,7 +83,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, tmp.size(), m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 2dd345a..cf8a6ac 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, tmp.size(), m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index 1dda55b..e1ed4f5 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -81,7 +81,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, tmp.size(), m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 2185d65..3d912b1 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -52,7 +52,7 @@ HCR::HCR(SHA2Digests DigestType, Providers ProviderType)
 	m_hcrState(DigestType != SHA2Digests::None && ProviderType != Providers::None ? 
 		new HcrState(DigestType, ProviderType) : 
 		throw CryptoRandomException(PrngConvert::ToName(Prngs::HCR), std::string("Constructor"), std::string("Digest and Provider types can not be none!"), ErrorCodes::IllegalOperation)),
-	m_rngGenerator(new HCG(static_cast<SHA2Digests>(DigestType)))
+	m_rngGenerator(new HCG(static_cast<SHA2Digests>(DigestType), ProviderType))
 {
 	Reset();
 }
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, tmp.size(), m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/PrngFromName.cpp b/CEX/PrngFromName.cpp
index 41c0cba..567eafa 100644
--- a/CEX/PrngFromName.cpp
+++ b/CEX/PrngFromName.cpp
@@ -48,7 +48,7 @@ IPrng* PrngFromName::GetInstance(Prngs PrngType, Providers ProviderType)
 			}
 			case Prngs::HCRS512:
 			{
-				rptr = new HCR(SHA2Digests::SHA2256, ProviderType);
+				rptr = new HCR(SHA2Digests::SHA2512, ProviderType);
 				break;
 			}
 			default:
diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..1b8f298 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -70,7 +70,7 @@ const std::string SecureRandom::Name()
 
 void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Output.size() < Offset || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -82,7 +82,7 @@ void SecureRandom::Fill(std::vector<uint16_t> &Output, size_t Offset, size_t Ele
 
 void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Output.size() < Offset || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -94,7 +94,7 @@ void SecureRandom::Fill(SecureVector<uint16_t> &Output, size_t Offset, size_t El
 
 void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Output.size() < Offset || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -106,7 +106,7 @@ void SecureRandom::Fill(std::vector<uint32_t> &Output, size_t Offset, size_t Ele
 
 void SecureRandom::Fill(std::vector<uint64_t> &Output, size_t Offset, size_t Elements)
 {
-	if (Offset + Elements > Output.size())
+	if (Output.size() < Offset || Output.size() - Offset < Elements)
 	{
 		throw CryptoRandomException(Name(), std::string("Fill"), std::string("The output vector is too small!"), ErrorCodes::InvalidParam);
 	}
@@ -126,6 +126,11 @@ std::vector<uint8_t> SecureRandom::Generate(size_t Length)
 
 void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Output.size() < Offset || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -159,6 +164,11 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 
 void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if (Output.size() < Offset || Output.size() - Offset < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -239,18 +249,7 @@ int16_t SecureRandom::NextInt16(int16_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % Maximum));
-	int16_t x;
-	int16_t ret;
-
-	do
-	{
-		x = NextInt16();
-		ret = x % Maximum;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return ret;
+	return static_cast<int16_t>(NextUInt16(static_cast<uint16_t>(Maximum)));
 }
 
 int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
@@ -264,19 +263,11 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPTHR = (Maximum - Minimum + 1);
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % SMPTHR));
-	int16_t x;
-	int16_t ret;
-
-	do
-	{
-		x = NextInt16();
-		ret = x % SMPTHR;
-	}
-	while (x >= SMPMAX || ret < 0);
+	// a range that spans every value has a size of zero
+	const uint16_t SMPTHR = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
+	const uint16_t x = (SMPTHR == 0) ? NextUInt16() : NextUInt16(SMPTHR);
 
-	return Minimum + ret;
+	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + x);
 }
 
 uint16_t SecureRandom::NextUInt16()
@@ -319,19 +310,11 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint16_t SMPTHR = (Maximum - Minimum + 1);
-	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
-	uint16_t x;
-	uint16_t ret;
-
-	do
-	{
-		x = NextUInt16();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX);
+	// a range that spans every value has a size of zero
+	const uint16_t SMPTHR = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
+	const uint16_t x = (SMPTHR == 0) ? NextUInt16() : NextUInt16(SMPTHR);
 
-	return Minimum + ret;
+	return static_cast<uint16_t>(static_cast<uint16_t>(Minimum) + x);
 }
 
 int32_t SecureRandom::NextInt32()
@@ -349,18 +332,7 @@ int32_t SecureRandom::NextInt32(int32_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % Maximum));
-	int32_t x;
-	int32_t ret;
-
-	do
-	{
-		x = NextInt32();
-		ret = x % Maximum;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return ret;
+	return static_cast<int32_t>(NextUInt32(static_cast<uint32_t>(Maximum)));
 }
 
 int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
@@ -374,19 +346,11 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPTHR = (Maximum - Minimum + 1);
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % SMPTHR));
-	int32_t x;
-	int32_t ret;
+	// a range that spans every value has a size of zero
+	const uint32_t SMPTHR = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+	const uint32_t x = (SMPTHR == 0) ? NextUInt32() : NextUInt32(SMPTHR);
 
-	do
-	{
-		x = NextInt32();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return Minimum + ret;
+	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + x);
 }
 
 uint32_t SecureRandom::NextUInt32()
@@ -429,19 +393,11 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint32_t SMPTHR = (Maximum - Minimum + 1);
-	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
-	uint32_t x;
-	uint32_t ret;
-
-	do
-	{
-		x = NextUInt32();
-		ret = x % SMPTHR;
-	}
-	while (x >= SMPMAX);
+	// a range that spans every value has a size of zero
+	const uint32_t SMPTHR = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+	const uint32_t x = (SMPTHR == 0) ? NextUInt32() : NextUInt32(SMPTHR);
 
-	return Minimum + ret;
+	return static_cast<uint32_t>(static_cast<uint32_t>(Minimum) + x);
 }
 
 int64_t SecureRandom::NextInt64()
@@ -459,18 +415,7 @@ int64_t SecureRandom::NextInt64(int64_t Maximum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be zero!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % Maximum));
-	int64_t x;
-	int64_t ret;
-
-	do
-	{
-		x = NextInt64();
-		ret = x % Maximum;
-	} 
-	while (x >= SMPMAX || ret < 0);
-
-	return ret;
+	return static_cast<int64_t>(NextUInt64(static_cast<uint64_t>(Maximum)));
 }
 
 int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
@@ -484,19 +429,11 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPTHR = (Maximum - Minimum + 1);
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % SMPTHR));
-	int64_t x;
-	int64_t ret;
-
-	do
-	{
-		x = NextInt64();
-		ret = x % SMPTHR;
-	}
-	while (x >= SMPMAX || ret < 0);
+	// a range that spans every value has a size of zero
+	const uint64_t SMPTHR = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
+	const uint64_t x = (SMPTHR == 0) ? NextUInt64() : NextUInt64(SMPTHR);
 
-	return Minimum + ret;
+	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + x);
 }
 
 uint64_t SecureRandom::NextUInt64()
@@ -539,19 +476,11 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint64_t SMPTHR = (Maximum - Minimum + 1);
-	const uint64_t SMPMAX = (std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
-	uint64_t x;
-	uint64_t ret;
-
-	do
-	{
-		x = NextUInt64();
-		ret = x % SMPTHR;
-	} 
-	while (x >= SMPMAX);
+	// a range that spans every value has a size of zero
+	const uint64_t SMPTHR = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
+	const uint64_t x = (SMPTHR == 0) ? NextUInt64() : NextUInt64(SMPTHR);
 
-	return Minimum + ret;
+	return static_cast<uint64_t>(static_cast<uint64_t>(Minimum) + x);
 }
 
 NAMESPACE_PRNGEND
-- 
2.43.0


From 6b18cb635b7205220dbe8d54692b31b907e0a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 17/67] fix: memory and array tools: remainder loops, element
 strides, inverted search, shuffle that always threw

---
 CEX/ArrayTools.cpp |  2 +-
 CEX/ArrayTools.h   | 13 ++++++-------
 CEX/MemoryTools.h  | 36 ++++++++++++++++++++++--------------
 3 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/CEX/ArrayTools.cpp b/CEX/ArrayTools.cpp
index 66c5d08..b54d950 100644
--- a/CEX/ArrayTools.cpp
+++ b/CEX/ArrayTools.cpp
@@ -15,7 +15,7 @@ bool ArrayTools::Contains(const char* Container, size_t Length, char Value)
 	{
 		x = Container + i;
 
-		if (*x != Value)
+		if (*x == Value)
 		{
 			ret = true;
 		}
diff --git a/CEX/ArrayTools.h b/CEX/ArrayTools.h
index a1f1698..eef20f1 100644
--- a/CEX/ArrayTools.h
+++ b/CEX/ArrayTools.h
@@ -141,7 +141,7 @@ public:
 		Output.resize(INPLEN + OTPLEN);
 		MemoryTools::Copy(Input, 0, Output, OTPLEN, INPLEN);
 
-		return 0;
+		return INPLEN;
 	}
 
 	/// <summary>
@@ -178,15 +178,14 @@ public:
 	static void RandomShuffle(Array &Output)
 	{
 		Prng::SecureRandom rnd;
-		const size_t CEIL = Output.size() - 1;
 
-		for (size_t i = 0; i != CEIL; ++i)
+		for (size_t i = Output.size(); i > 1; --i)
 		{
-			uint32_t pos = rnd.NextUInt32(0, CEIL);
+			const size_t pos = static_cast<size_t>(rnd.NextUInt64(i));
 
-			if (i != pos)
+			if (i - 1 != pos)
 			{
-				std::swap(Output[i], Output[pos]);
+				std::swap(Output[i - 1], Output[pos]);
 			}
 		}
 	}
@@ -303,7 +302,7 @@ public:
 		}
 		else
 		{
-			std::wstring tmp(reinterpret_cast<wchar_t*>(Input), Length * 2);
+			std::wstring tmp(reinterpret_cast<wchar_t*>(Input), Length);
 			ret.assign(tmp.begin(), tmp.end());
 		}
 
diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..f62b82d 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,13 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data()) + (InOffset * INPLEN);
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data()) + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				potp[i] &= pinp[i];
 			}
 		}
 	}
@@ -501,6 +504,7 @@ public:
 
 		if (Length != 0)
 		{
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -519,11 +523,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY512FROMOBJECT(pinp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX2)
-					COPY256FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY256FROMOBJECT(pinp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX)
-					COPY128FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY128FROMOBJECT(pinp + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	endif
 					pctr += SMDBLK;
 				}
@@ -532,7 +536,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(&Output[OutOffset + pctr], Input + pctr, Length - (pctr * ELMLEN));
+				std::memcpy(&Output[OutOffset + pctr], pinp + (pctr * ELMLEN), Length - (pctr * ELMLEN));
 			}
 		}
 	}
@@ -558,6 +562,7 @@ public:
 
 		if (Length != 0)
 		{
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -576,11 +581,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY512TOOBJECT(Input, InOffset + pctr, potp + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX2)
-					COPY256TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY256TOOBJECT(Input, InOffset + pctr, potp + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX)
-					COPY128TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY128TOOBJECT(Input, InOffset + pctr, potp + (pctr * ELMLEN));
 #	endif
 					pctr += SMDBLK;
 				}
@@ -589,7 +594,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(Output + pctr, &Input[InOffset + pctr], Length - (pctr * ELMLEN));
+				std::memcpy(potp + (pctr * ELMLEN), &Input[InOffset + pctr], Length - (pctr * ELMLEN));
 			}
 		}
 	}
@@ -1100,7 +1105,6 @@ public:
 	{
 		const size_t INPLEN = sizeof(ArrayA::value_type);
 		const size_t OTPLEN = sizeof(ArrayB::value_type);
-		const size_t ELMLEN = sizeof(ArrayA::value_type);
 		size_t i;
 		size_t pctr;
 
@@ -1139,9 +1143,13 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+
+			const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data()) + (InOffset * INPLEN);
+			uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data()) + (OutOffset * OTPLEN);
+
+			for (i = pctr; i < Length; ++i)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				potp[i] |= pinp[i];
 			}
 		}
 	}
-- 
2.43.0


From 604fae8f6e326c088ca5532f162ae398e348275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:14 +0000
Subject: [PATCH 18/67] fix: integer and lane helpers: shifts, comparisons,
 selection, parsing and increments

CMax/CMin, BlockToBE, HexToInt/FromString, and the UInt128/UInt256/ULong256
lane operators returned wrong results for part of their inputs.
---
 CEX/IntegerTools.h | 11 ++++++-----
 CEX/UInt128.h      | 28 ++++++++++++++++++++--------
 CEX/UInt256.h      | 28 ++++++++++++++++++++--------
 CEX/ULong256.h     | 32 ++++++++++++++++++++------------
 4 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index a927f12..af7bf30 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -213,7 +213,7 @@ public:
 		T num;
 
 		sval = Input.substr(Offset, Length);
-		num = static_cast<T>(strtol(sval.c_str(), NULL, 10));
+		num = static_cast<T>(std::is_signed<T>::value ? static_cast<uint64_t>(strtoll(sval.c_str(), NULL, 10)) : strtoull(sval.c_str(), NULL, 10));
 
 		return num;
 	}
@@ -389,7 +389,7 @@ public:
 		T num;
 
 		nhex = Input.substr(Offset, INTLEN);
-		num = static_cast<T>(strtol(nhex.c_str(), NULL, 16));
+		num = static_cast<T>(strtoull(nhex.c_str(), NULL, 16));
 
 		return num;
 	}
@@ -506,6 +506,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = VARLEN; j > 0; --j)
 			{
 				Output[OutOffset + i] |= static_cast<typename ArrayB::value_type>(Input[InOffset + (i * VARLEN) + (VARLEN - j)]) << (8 * (j - 1));
@@ -2186,7 +2188,7 @@ public:
 	template<typename T>
 	inline static T CMax(T A, T B)
 	{
-		return Select<T>(ExpandTopBit<T>(A), A, B);
+		return Select<T>(IsLess<T>(B, A), A, B);
 	}
 
 	/// <summary>
@@ -2247,8 +2249,7 @@ public:
 	template<typename T>
 	inline static T CMin(T A, T B)
 	{
-		// TODO: test this..
-		return Select<T>(ExpandTopBit<T>(B), B, A);
+		return Select<T>(IsLess<T>(B, A), B, A);
 	}
 
 	/// <summary>
diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ad304f4..b209aaa 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -323,7 +323,7 @@ public:
 	inline static UInt128 ShiftRA(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -337,7 +337,7 @@ public:
 	inline static UInt128 ShiftRL(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -437,7 +437,9 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ ()
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		*this += UInt128::ONE();
+
+		return UInt128(xmm);
 	}
 
 	/// <summary>
@@ -445,7 +447,11 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ (int32_t)
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		const UInt128 TMP(xmm);
+
+		*this += UInt128::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -473,7 +479,9 @@ public:
 	/// </summary>
 	inline UInt128 operator -- ()
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		*this -= UInt128::ONE();
+
+		return UInt128(xmm);
 	}
 
 	/// <summary>
@@ -481,7 +489,11 @@ public:
 	/// </summary>
 	inline UInt128 operator -- (int32_t)
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		const UInt128 TMP(xmm);
+
+		*this -= UInt128::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -645,7 +657,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator > (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmpgt_epi32(xmm, X.xmm));
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(xmm, _mm_set1_epi32(static_cast<int32_t>(0x80000000UL))), _mm_xor_si128(X.xmm, _mm_set1_epi32(static_cast<int32_t>(0x80000000UL)))));
 	}
 
 	/// <summary>
@@ -655,7 +667,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator < (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmplt_epi32(xmm, X.xmm));
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(X.xmm, _mm_set1_epi32(static_cast<int32_t>(0x80000000UL))), _mm_xor_si128(xmm, _mm_set1_epi32(static_cast<int32_t>(0x80000000UL)))));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index b09e7d8..e59b10c 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -342,7 +342,7 @@ public:
 	inline static UInt256 ShiftRA(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -356,7 +356,7 @@ public:
 	inline static UInt256 ShiftRL(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -446,7 +446,9 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ ()
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		*this += UInt256::ONE();
+
+		return UInt256(ymm);
 	}
 
 	/// <summary>
@@ -454,7 +456,11 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ (int32_t)
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		const UInt256 TMP(ymm);
+
+		*this += UInt256::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -482,7 +488,9 @@ public:
 	/// </summary>
 	inline UInt256 operator -- ()
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		*this -= UInt256::ONE();
+
+		return UInt256(ymm);
 	}
 
 	/// <summary>
@@ -490,7 +498,11 @@ public:
 	/// </summary>
 	inline UInt256 operator -- (int32_t)
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		const UInt256 TMP(ymm);
+
+		*this -= UInt256::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -708,7 +720,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator > (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(ymm, X.ymm));
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(ymm, _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL))), _mm256_xor_si256(X.ymm, _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL)))));
 	}
 
 	/// <summary>
@@ -718,7 +730,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator < (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(X.ymm, ymm));
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(X.ymm, _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL))), _mm256_xor_si256(ymm, _mm256_set1_epi32(static_cast<int32_t>(0x80000000UL)))));
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 45818bf..e729194 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -305,8 +305,8 @@ public:
 	{
 		__m256i tmpX = ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
@@ -322,8 +322,8 @@ public:
 	{
 		__m256i tmpX = X.ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
@@ -355,7 +355,9 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ ()
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		*this += ULong256::ONE();
+
+		return ULong256(ymm);
 	}
 
 	/// <summary>
@@ -363,7 +365,11 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ (int32_t)
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		const ULong256 TMP(ymm);
+
+		*this += ULong256::ONE();
+
+		return TMP;
 	}
 
 	/// <summary>
@@ -397,9 +403,10 @@ public:
 #if defined (__AVX512DQ__) && defined (__AVX512VL__)
 		ymm = _mm256_mullo_epi64(ymm, X.ymm);
 #else
+		// 64-bit products: low * low + the cross terms in the high half
 		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		ymm = _mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0)));
+		__m256i tmp2 = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		ymm = _mm256_add_epi64(tmp1, _mm256_slli_epi64(tmp2, 32));
 #endif
 	}
 
@@ -413,9 +420,10 @@ public:
 #if defined (__AVX512DQ__) && defined (__AVX512VL__)
 		return ULong256(_mm256_mullo_epi64(ymm, X.ymm));
 #else
+		// 64-bit products: low * low + the cross terms in the high half
 		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		return ULong256(_mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0))));
+		__m256i tmp2 = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		return ULong256(_mm256_add_epi64(tmp1, _mm256_slli_epi64(tmp2, 32)));
 #endif
 	}
 
@@ -606,7 +614,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator > (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(ymm, X.ymm));
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(ymm, _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL))), _mm256_xor_si256(X.ymm, _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL)))));
 	}
 
 	/// <summary>
@@ -616,7 +624,7 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator < (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(X.ymm, ymm));
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(X.ymm, _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL))), _mm256_xor_si256(ymm, _mm256_set1_epi64x(static_cast<int64_t>(0x8000000000000000ULL)))));
 	}
 
 	/// <summary>
-- 
2.43.0


From c50758d37df340316f97a0f5d87fb2f926e9b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 19/67] fix: XMSS reused its one-time key, ignored the index
 and never ran out; unchecked keys and signatures

---
 CEX/AsymmetricKey.cpp | 10 ++++++++++
 CEX/AsymmetricKey.h   |  9 +++++++++
 CEX/XMSS.cpp          | 23 +++++++++++++++++++++-
 CEX/XmssCore.cpp      | 45 +++++++++++++++++++++++++++++++++++--------
 CEX/XmssCore.h        |  2 +-
 5 files changed, 79 insertions(+), 10 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4bf5a0c..bd5e46e 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -129,6 +129,16 @@ void AsymmetricKey::Reset()
 	m_keyState->Reset();
 }
 
+void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
+{
+	if (Polynomial.size() != m_keyState->Polynomial.size())
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("Update"), std::string("The polynomial array size is invalid!"), Enumeration::ErrorCodes::InvalidParam);
+	}
+
+	MemoryTools::Copy(Polynomial, 0, m_keyState->Polynomial, 0, Polynomial.size());
+}
+
 //~~~Static Functions~~~//
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
diff --git a/CEX/AsymmetricKey.h b/CEX/AsymmetricKey.h
index 4dbc263..38bcbf4 100644
--- a/CEX/AsymmetricKey.h
+++ b/CEX/AsymmetricKey.h
@@ -109,6 +109,15 @@ public:
 	/// </summary>
 	void Reset() override;
 
+	/// <summary>
+	/// Replace the key array; used by stateful signature schemes to store the advanced private key
+	/// </summary>
+	/// 
+	/// <param name="Polynomial">The new key array, must be the same size as the current one</param>
+	///
+	/// <exception cref="CryptoAsymmetricException">Thrown if the array size is invalid</exception>
+	void Update(const std::vector<uint8_t> &Polynomial);
+
 	//~~~Static Functions~~~//
 
 	/// <summary>
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 5c0b00a..5824b95 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -253,6 +253,15 @@ const void XMSS::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const XmssParameters PARAMS = static_cast<XmssParameters>(Key->Parameters());
+
+	// the key must belong to a known parameter set, and be of its size
+	if (XMSSUtils::ToOid(PARAMS) == 0 ||
+		Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? XMSSCore::GetPublicKeySize(PARAMS) : XMSSCore::GetPrivateKeySize(PARAMS)))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -286,9 +295,13 @@ size_t XMSS::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Sig
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for signing!"), ErrorCodes::InvalidParam);
 	}
 
+	std::vector<uint8_t> sk = m_privateKey->Polynomial();
 	size_t slen;
 
-	slen = XMSSCore::Sign(Signature, Message, m_privateKey->Polynomial(), m_xmssState->Parameters);
+	slen = XMSSCore::Sign(Signature, Message, sk, m_xmssState->Parameters);
+	// store the incremented index, a one-time key must never be used again
+	m_privateKey->Update(sk);
+	MemoryTools::Clear(sk, 0, sk.size());
 
 	return slen;
 }
@@ -305,6 +318,14 @@ bool XMSS::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_t> &M
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to hold a signature
+		Message.clear();
+
+		return false;
+	}
+
 	bool res;
 
 	res = XMSSCore::Verify(Message, Signature, m_publicKey->Polynomial(), m_xmssState->Parameters);
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 585456d..8025126 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1,4 +1,5 @@
 #include "XMSSCore.h"
+#include "CryptoAsymmetricException.h"
 #include "IntegerTools.h"
 #include "Keccak.h"
 #include "MemoryTools.h"
@@ -1319,12 +1320,29 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	SigLength = Params.SignatureSize + MsgLength;
 
 	// read and use the current index from the secret key
-	idx = BytesToUll(Signature, Params.IndexSize);
 	MemoryTools::Copy(SecretKey, skoft, Signature, 0, Params.IndexSize);
+	idx = BytesToUll(Signature, Params.IndexSize);
+
+	// the last one-time key has been used, and the seeds erased
+	const uint64_t LASTIDX = (1ULL << Params.FullHeight) - 1;
+
+	if (idx > LASTIDX || (idx == LASTIDX && skseed == std::vector<uint8_t>(Params.N) && skprf == std::vector<uint8_t>(Params.N)))
+	{
+		throw Exception::CryptoAsymmetricException(std::string("XMSS"), std::string("Sign"), std::string("The private key is exhausted!"), Enumeration::ErrorCodes::MaxExceeded);
+	}
 
 	// Note: the secret key can be updated here
 	// increment the index in the secret key
-	UllToBytes(SecretKey, skoft, Params.IndexSize, idx + 1);
+	if (idx < LASTIDX)
+	{
+		UllToBytes(SecretKey, skoft, Params.IndexSize, idx + 1);
+	}
+	else
+	{
+		// this was the last one, the incremented index may not fit; erase the seeds instead
+		UllToBytes(SecretKey, skoft, Params.IndexSize, ~0ULL);
+		MemoryTools::Clear(SecretKey, skoft + Params.IndexSize, 2 * Params.N);
+	}
 
 	// compute the digest randomization value. */
 	UllToBytes(idx32, 0, XMSS_PRFCTR_SIZE, idx);
@@ -1451,27 +1469,36 @@ void XMSSCore::Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &P
 	}
 }
 
-size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
 {
 	size_t smlen(0);
 	uint32_t oid;
 
 	oid = XMSSUtils::ToOid(Parameters);
-	std::vector<uint8_t> sk2 = PrivateKey;
 
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
 		XmssParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssSign(sk2, Signature, smlen, Message, Message.size());
+
+		// the key must name the parameter set it is used with
+		if (BytesToUll(PrivateKey, XMSS_OID_LEN) == oid)
+		{
+			XmssSign(PrivateKey, Signature, smlen, Message, Message.size());
+		}
 	}
 	else
 	{
 		XmssParams params;
 		XmssMtParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssMtSign(sk2, Signature, smlen, Message, Message.size());
+
+		// the key must name the parameter set it is used with
+		if (BytesToUll(PrivateKey, XMSS_OID_LEN) == oid)
+		{
+			XmssMtSign(PrivateKey, Signature, smlen, Message, Message.size());
+		}
 	}
 
 	return smlen;
@@ -1493,7 +1520,8 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 		XmssParams params;
 		XmssParseOid(params, oid);
 		tmpm.resize(Signature.size());
-		res = XmssSignOpen(tmpm, mlen, Signature, Signature.size(), PublicKey);
+		// the key must name the parameter set it is used with
+		res = (BytesToUll(PublicKey, XMSS_OID_LEN) == oid) ? XmssSignOpen(tmpm, mlen, Signature, Signature.size(), PublicKey) : -1;
 		Message.resize(mlen);
 		MemoryTools::Copy(tmpm, 0, Message, 0, Message.size());
 	}
@@ -1502,7 +1530,8 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 		XmssParams params;
 		XmssMtParseOid(params, oid);
 		tmpm.resize(Signature.size());
-		res = XmssMtSignOpen(tmpm, mlen, Signature, Signature.size(), PublicKey);
+		// the key must name the parameter set it is used with
+		res = (BytesToUll(PublicKey, XMSS_OID_LEN) == oid) ? XmssMtSignOpen(tmpm, mlen, Signature, Signature.size(), PublicKey) : -1;
 		Message.resize(mlen);
 		MemoryTools::Copy(tmpm, 0, Message, 0, Message.size());
 	}
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index 888e6d1..844b7f9 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -180,7 +180,7 @@ public:
 
 	static void Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &PrivateKey, std::unique_ptr<Prng::IPrng> &Rng, XmssParameters Parameters);
 
-	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
 
 	static bool Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, XmssParameters Parameters);
 };
-- 
2.43.0


From f441a5e5e538f47215164d2fa94ae8bcd063295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 20/67] fix: Kyber, McEliece and ECDH read past short keys,
 cipher-texts and vector loads; domain name from two strings

---
 CEX/ECDH.cpp      |  8 +++++++-
 CEX/Kyber.cpp     | 30 +++++++++++++++++++++++++++++-
 CEX/KyberBase.cpp | 12 +++++++-----
 CEX/McEliece.cpp  | 30 +++++++++++++++++++++++++++++-
 4 files changed, 72 insertions(+), 8 deletions(-)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index f7e573f..31dc534 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -162,6 +162,11 @@ bool ECDH::KeyExchange(AsymmetricKey* PublicKey, AsymmetricKey* PrivateKey, std:
 	std::vector<uint8_t> sec(EC25519::EC25519_SECRET_SIZE);
 	bool res;
 
+	if (PublicKey->SecurePolynomial().size() != PublicKeySize() || PrivateKey->SecurePolynomial().size() != PrivateKeySize())
+	{
+		throw CryptoAsymmetricException(Name(), std::string("KeyExchange"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	res = ECDHBase::Ed25519KeyExchange(sec, PublicKey->Polynomial(), PrivateKey->Polynomial());
 
 	if (res == true)
@@ -215,7 +220,8 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string NAME = Name();
+	std::vector<uint8_t> tmpn(NAME.begin(), NAME.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 1a46250..5dcc208 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -258,6 +258,11 @@ bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 
+	if (CipherText.size() != CipherTextSize())
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher-text size is invalid!"), ErrorCodes::InvalidSize);
+	}
+
 	switch (m_kyberState->Parameters)
 	{
 		case KyberParameters::KYBERS1P1632:
@@ -425,6 +430,28 @@ void Kyber::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const KyberParameters TMPP = m_kyberState->Parameters;
+	size_t klen;
+
+	// the key must belong to a known parameter set, and be of its size
+	m_kyberState->Parameters = static_cast<KyberParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (CryptoAsymmetricException&)
+	{
+		m_kyberState->Parameters = TMPP;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_kyberState->Parameters = TMPP;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey)
 	{
 		m_publicKey = Key;
@@ -443,7 +470,8 @@ void Kyber::Initialize(AsymmetricKey* Key)
 
 void Kyber::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string NAME = Name();
+	std::vector<uint8_t> tmpn(NAME.begin(), NAME.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index bf8a7d7..948cdb9 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -494,7 +494,7 @@ void KyberBase::Cbd2(Poly &R, const std::vector<uint8_t> &Buf)
 
     for (size_t i = 0; i < R.coeffs.size() / 64; ++i)
     {
-        f0 = _mm256_load_si256(reinterpret_cast<const __m256i*>(&pbuf[32 * i]));
+        f0 = _mm256_loadu_si256(reinterpret_cast<const __m256i*>(&pbuf[32 * i]));
 
         f1 = _mm256_srli_epi16(f0, 1);
         f0 = _mm256_and_si256(mask55, f0);
@@ -545,7 +545,8 @@ void KyberBase::Cbd3(Poly &R, const std::vector<uint8_t> &Buf)
 
     for (i = 0; i < R.coeffs.size() / 32; ++i)
     {
-        f0 = _mm256_loadu_si256((__m256i*)&Buf[24 * i]);
+        // load the 24 bytes of this block, a full load reads past the end of the array
+        f0 = _mm256_inserti128_si256(_mm256_castsi128_si256(_mm_loadu_si128((const __m128i*)&Buf[24 * i])), _mm_loadl_epi64((const __m128i*)&Buf[24 * i + 16]), 1);
         f0 = _mm256_permute4x64_epi64(f0, 0x94);
         f0 = _mm256_shuffle_epi8(f0, shufbidx);
 
@@ -704,7 +705,8 @@ void KyberBase::PolyDecompressAvx2P160(Poly &R, const std::vector<uint8_t> &A, s
 
     for (size_t i = 0; i < R.coeffs.size() / 16; ++i)
     {
-        f = _mm256_broadcastsi128_si256(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&pa[10 * i])));
+        // load the 10 bytes of this block, a full load reads past the end of the array
+        f = _mm256_broadcastsi128_si256(_mm_insert_epi16(_mm_loadl_epi64(reinterpret_cast<const __m128i*>(&pa[10 * i])), pa[10 * i + 8] | (pa[10 * i + 9] << 8), 4));
         f = _mm256_shuffle_epi8(f, shufbidx);
         f = _mm256_and_si256(f, mask);
         f = _mm256_mullo_epi16(f, shift);
@@ -730,7 +732,7 @@ void KyberBase::PolyFromMsg(Poly &R, const std::vector<uint8_t> &Msg)
     int16_t* pr = R.coeffs.data();
     const uint8_t* pm = Msg.data();
 
-    f = _mm256_load_si256(reinterpret_cast<const __m256i*>(pm));
+    f = _mm256_loadu_si256(reinterpret_cast<const __m256i*>(pm));
     g3 = _mm256_shuffle_epi32(f, 0);
     g3 = _mm256_sllv_epi32(g3, shift);
     g3 = _mm256_shuffle_epi8(g3, idx);
@@ -1148,7 +1150,7 @@ uint32_t KyberBase::RejUniformAvx2(Poly &R, const std::vector<uint8_t> &Buf)
         ctr += _mm_popcnt_u32((good >> 24) & 0xFF);
     }
 
-    while (ctr <= KYBER_N - 8 && pos <= AVX_REJ_UNIFORM_BUFLEN - 12)
+    while (ctr <= KYBER_N - 8 && pos <= AVX_REJ_UNIFORM_BUFLEN - 16)
     {
         f = _mm_loadu_si128(reinterpret_cast<const __m128i*>(&pbuff[pos]));
         f = _mm_shuffle_epi8(f, _mm256_castsi256_si128(idx8));
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 91d9b2f..051faf0 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -263,6 +263,11 @@ bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<u
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 	
+	if (CipherText.size() != CipherTextSize())
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher-text size is invalid!"), ErrorCodes::InvalidSize);
+	}
+
 	switch (m_mpkcState->Parameters)
 	{
 		case McElieceParameters::MPKCS3N4608T96:
@@ -448,6 +453,28 @@ void McEliece::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const McElieceParameters TMPP = m_mpkcState->Parameters;
+	size_t klen;
+
+	// the key must belong to a known parameter set, and be of its size
+	m_mpkcState->Parameters = static_cast<McElieceParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (CryptoAsymmetricException&)
+	{
+		m_mpkcState->Parameters = TMPP;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_mpkcState->Parameters = TMPP;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey)
 	{
 		m_publicKey = Key;
@@ -466,7 +493,8 @@ void McEliece::Initialize(AsymmetricKey* Key)
 
 void McEliece::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string NAME = Name();
+	std::vector<uint8_t> tmpn(NAME.begin(), NAME.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
-- 
2.43.0


From accc811e4647ccd54eef2a81d8b3cc1e0175effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 21/67] fix: Ed25519 scalar reduction and small order list, S1
 signing; Dilithium response bound; short signatures and keys; SPHINCS+ leaf
 mask

---
 CEX/DLTMBase.h        |  7 +++++++
 CEX/Dilithium.cpp     | 30 ++++++++++++++++++++++++++++++
 CEX/EC25519.cpp       | 14 +++++++-------
 CEX/ECDSA.cpp         | 26 +++++++++++++++++++++++++-
 CEX/ECDSAParameters.h |  4 ++--
 CEX/SPXBase.h         |  2 +-
 CEX/SphincsPlus.cpp   | 30 ++++++++++++++++++++++++++++++
 7 files changed, 102 insertions(+), 11 deletions(-)

diff --git a/CEX/DLTMBase.h b/CEX/DLTMBase.h
index eef6486..0973cff 100644
--- a/CEX/DLTMBase.h
+++ b/CEX/DLTMBase.h
@@ -673,6 +673,13 @@ public:
 			for (i = 0; i < T::DILITHIUM_L; ++i)
 			{
 				DLTMPolyMath::PolyZUnpack(z[i], Signature, DILITHIUM_SEED_SIZE + i * T::DILITHIUM_POLYZ_PACKED_SIZE, T::DILITHIUM_GAMMA1);
+
+				// reject a response that is over the bound
+				if (DLTMPolyMath::PolyChkNorm(z[i], T::DILITHIUM_GAMMA1 - T::DILITHIUM_BETA) != 0)
+				{
+					return false;
+				}
+
 				DLTMPolyMath::PolyNtt(z[i]);
 			}
 		}
diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index c99e577..8b320d0 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -262,6 +262,28 @@ const void Dilithium::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const DilithiumParameters TMPP = m_dilithiumState->Parameters;
+	size_t klen;
+
+	// the key must belong to a known parameter set, and be of its size
+	m_dilithiumState->Parameters = static_cast<DilithiumParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (CryptoAsymmetricException&)
+	{
+		m_dilithiumState->Parameters = TMPP;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_dilithiumState->Parameters = TMPP;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -341,6 +363,14 @@ bool Dilithium::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to hold a signature
+		Message.clear();
+
+		return false;
+	}
+
 	switch (m_dilithiumState->Parameters)
 	{
 		case DilithiumParameters::DLTMS1P2544:
diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index f9c93cf..c08f71b 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -4920,20 +4920,20 @@ int32_t EC25519::Ge25519HasSmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
@@ -5433,20 +5433,20 @@ int32_t EC25519::Ed25519SmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
@@ -6067,7 +6067,7 @@ void EC25519::Sc25519Reduce(std::vector<uint8_t> &S)
 	carry = (s8 + (1LL << 20)) >> 21;
 	s9 += carry;
 	s8 -= carry * (1ULL << 21);
-	carry = (s10 + (1ULL << 20)) >> 21;
+	carry = (s10 + (1LL << 20)) >> 21;
 	s11 += carry;
 	s10 -= carry * (1ULL << 21);
 	carry = (s12 + (1LL << 20)) >> 21;
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 3af96b7..beacd64 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -105,7 +105,7 @@ ECDSA::~ECDSA()
 
 const AsymmetricPrimitives ECDSA::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::ECDSA;
 }
 
 const bool ECDSA::IsInitialized()
@@ -192,6 +192,21 @@ const void ECDSA::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const ECDSAParameters PARAMS = static_cast<ECDSAParameters>(Key->Parameters());
+
+	if ((PARAMS != ECDSAParameters::ECDSAS1P25519K && PARAMS != ECDSAParameters::ECDSAS2P25519S) ||
+		Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		// invalid key
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
+	if (PARAMS != m_ecdsaState->Parameters)
+	{
+		// the digest is the one used by the keys parameter set
+		m_rndDigest.reset(Helper::DigestFromName::GetInstance(PARAMS == ECDSAParameters::ECDSAS1P25519K ? Enumeration::Digests::SHA3512 : Enumeration::Digests::SHA2512));
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -230,6 +245,7 @@ size_t ECDSA::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Si
 
 	switch (m_ecdsaState->Parameters)
 	{
+		case ECDSAParameters::ECDSAS1P25519K:
 		case ECDSAParameters::ECDSAS2P25519S:
 		{
 			Signature.resize(SignatureSize() + Message.size());
@@ -262,6 +278,14 @@ bool ECDSA::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_t> &
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to hold a signature
+		Message.clear();
+
+		return false;
+	}
+
 	res = ECDSABase::Verify(Message, Signature, m_publicKey->Polynomial(), m_rndDigest);
 
 	return res;
diff --git a/CEX/ECDSAParameters.h b/CEX/ECDSAParameters.h
index 9dd02ec..a517c6f 100644
--- a/CEX/ECDSAParameters.h
+++ b/CEX/ECDSAParameters.h
@@ -1,5 +1,5 @@
-#ifndef CEX_ECDHPARAMETERS_H
-#define CEX_ECDHPARAMETERS_H
+#ifndef CEX_ECDSAPARAMETERS_H
+#define CEX_ECDSAPARAMETERS_H
 
 #include "CexDomain.h"
 #include "AsymmetricParameters.h"
diff --git a/CEX/SPXBase.h b/CEX/SPXBase.h
index be32fae..518f0a3 100644
--- a/CEX/SPXBase.h
+++ b/CEX/SPXBase.h
@@ -433,7 +433,7 @@ private:
 		Tree = BytesToUll(buf, FORSMSG, TREEBYTES);
 		Tree &= (~0ULL) >> (64 - TREEBITS);
 		LeafIndex = BytesToUll(buf, FORSMSG + TREEBYTES, LEAFBYTES);
-		LeafIndex &= (~0UL) >> (32 - LEAFBITS);
+		LeafIndex &= (~0U) >> (32 - LEAFBITS);
 	}
 
 	template<typename T>
diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index a77a0aa..6b72915 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -288,6 +288,28 @@ const void SphincsPlus::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const SphincsPlusParameters TMPP = m_sphincsState->Parameters;
+	size_t klen;
+
+	// the key must belong to a known parameter set, and be of its size
+	m_sphincsState->Parameters = static_cast<SphincsPlusParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (CryptoAsymmetricException&)
+	{
+		m_sphincsState->Parameters = TMPP;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_sphincsState->Parameters = TMPP;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -373,6 +395,14 @@ bool SphincsPlus::Verify(const std::vector<uint8_t> &Signature, std::vector<uint
 
 	bool res;
 
+	if (Signature.size() < SignatureSize())
+	{
+		// too short to hold a signature
+		Message.clear();
+
+		return false;
+	}
+
 	switch (m_sphincsState->Parameters)
 	{
 		case SphincsPlusParameters::SPXPS1S128SHAKE:
-- 
2.43.0


From d516298c9e79839be90d63955e9f123a9cfedabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 22/67] fix: key containers: length checks when restoring keys,
 copies and resets of encrypted keys, generator ranges and leaks

---
 CEX/AsymmetricKey.cpp         |  5 ++++
 CEX/AsymmetricSecureKey.cpp   | 28 +++++++++++++++-------
 CEX/SymmetricKey.cpp          | 29 ++++++++++++++++-------
 CEX/SymmetricKeyGenerator.cpp | 32 +++++++++++++++++++++----
 CEX/SymmetricSecureKey.cpp    | 44 ++++++++++++++++++++++++++---------
 5 files changed, 107 insertions(+), 31 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index bd5e46e..752344d 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -143,6 +143,11 @@ void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
+	if (KeyStream.size() <= 3)
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	AsymmetricKey* tmpk = new AsymmetricKey(SecureVector<uint8_t>(KeyStream.begin() + 3, KeyStream.end()), 
 		static_cast<AsymmetricPrimitives>(KeyStream[2]),
 		static_cast<AsymmetricKeyTypes>(KeyStream[0]),
diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..bdb016f 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -38,6 +38,8 @@ public:
 	AsymmetricKeyTypes KeyClass;
 	AsymmetricParameters Parameters;
 	SecurityPolicy Policy;
+	// the size of the polynomial, without the authentication tag of the enciphered state
+	size_t Length;
 
 	AsymmetricSecureKeyState()
 		:
@@ -46,6 +48,7 @@ public:
 		KeyClass(AsymmetricKeyTypes::None),
 		Parameters(AsymmetricParameters::None),
 		Policy(SecurityPolicy::None),
+		Length(0),
 		Primitive(AsymmetricPrimitives::None)
 	{
 	}
@@ -57,7 +60,8 @@ public:
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
-		Policy(PolicyType)
+		Policy(PolicyType),
+		Length(Coefficients.size())
 	{
 	}
 
@@ -68,7 +72,8 @@ public:
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
-		Policy(PolicyType)
+		Policy(PolicyType),
+		Length(Coefficients.size())
 	{
 	}
 
@@ -84,6 +89,7 @@ public:
 		KeyClass = AsymmetricKeyTypes::None;
 		Parameters = AsymmetricParameters::None;
 		Policy = SecurityPolicy::None;
+		Length = 0;
 		Primitive = AsymmetricPrimitives::None;
 	}
 };
@@ -132,12 +138,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(m_secureState->Length);
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +155,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < m_secureState->Length)
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +163,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -197,7 +203,7 @@ SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyPar
 
 void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -228,7 +234,13 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 
 void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &State, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	// the key has been reset
+	if (Length == 0)
+	{
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->Polynomial.size() - cpr->TagSize() : State->Polynomial.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index d5eea77..faf812c 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -216,10 +216,20 @@ SymmetricKey* SymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 3 * sizeof(uint16_t))
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() - (3 * sizeof(uint16_t)) < static_cast<size_t>(klen) + nlen + ilen)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
@@ -245,12 +255,15 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 	uint16_t klen;
 	uint16_t nlen;
 	uint16_t ilen;
-	uint16_t tlen;
 
-	klen = static_cast<uint16_t>(KeyParams.Key().size());
-	nlen = static_cast<uint16_t>(KeyParams.IV().size());
-	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-	tlen = 6 + klen + nlen + ilen;
+	if (KeyParams.KeySizes().KeySize() > UINT16_MAX || KeyParams.KeySizes().IVSize() > UINT16_MAX || KeyParams.KeySizes().InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("Serialize"), std::string("The key is too large to serialize!"), ErrorCodes::InvalidSize);
+	}
+
+	klen = static_cast<uint16_t>(KeyParams.KeySizes().KeySize());
+	nlen = static_cast<uint16_t>(KeyParams.KeySizes().IVSize());
+	ilen = static_cast<uint16_t>(KeyParams.KeySizes().InfoSize());
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
@@ -258,15 +271,15 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 
 	if (klen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Key(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureKey(), tmpr);
 	}
 	if (nlen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.IV(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureIV(), tmpr);
 	}
 	if (ilen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Info(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureInfo(), tmpr);
 	}
 
 	return tmpr;
diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 38c0f53..03a151c 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -75,7 +75,19 @@ SymmetricKey* SymmetricKeyGenerator::GetSymmetricKey(SymmetricKeySize KeySize)
 
 		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
 
-		pkey = new SymmetricKey(tmpk);
+		if (KeySize.InfoSize() != 0)
+		{
+			SecureVector<uint8_t> tmpn(0);
+			SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+			Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+			pkey = new SymmetricKey(tmpk, tmpn, tmpi);
+		}
+		else
+		{
+			pkey = new SymmetricKey(tmpk);
+		}
 	}
 
 	return pkey;
@@ -121,7 +133,19 @@ SymmetricSecureKey* SymmetricKeyGenerator::GetSecureKey(SymmetricKeySize KeySize
 
 		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
 
-		pkey = new SymmetricSecureKey(tmpk);
+		if (KeySize.InfoSize() != 0)
+		{
+			SecureVector<uint8_t> tmpn(0);
+			SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+			Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+			pkey = new SymmetricSecureKey(tmpk, tmpn, tmpi);
+		}
+		else
+		{
+			pkey = new SymmetricSecureKey(tmpk);
+		}
 	}
 
 	return pkey;
@@ -133,7 +157,7 @@ void SymmetricKeyGenerator::Generate(SecureVector<uint8_t> &Output, size_t Offse
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The requested allocation can not be zero size!"), ErrorCodes::InvalidSize);
 	}
-	if (Output.size() < Offset + Length)
+	if (Output.size() < Offset || Output.size() - Offset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -188,7 +212,7 @@ void SymmetricKeyGenerator::Generate(Providers Provider, SecurityPolicy Policy,
 	}
 
 	// instantiate the provider and create the seed
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(Provider);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(Provider));
 	SecureVector<uint8_t> tmpk(klen);
 	pvd->Generate(tmpk);
 
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..5c22957 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -395,7 +395,10 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
-	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	// a key created without a salt has the default policy
+	return m_secureState->Salt.size() != 0 ?
+		new SymmetricSecureKey(SecureKey(), SecureIV(), SecureInfo(), m_secureState->Policy, m_secureState->Salt) :
+		new SymmetricSecureKey(SecureKey(), SecureIV(), SecureInfo());
 }
 
 void SymmetricSecureKey::Reset()
@@ -414,10 +417,20 @@ SymmetricKey* SymmetricSecureKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 3 * sizeof(uint16_t))
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() - (3 * sizeof(uint16_t)) < static_cast<size_t>(klen) + nlen + ilen)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
@@ -443,12 +456,15 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 	uint16_t klen;
 	uint16_t nlen;
 	uint16_t ilen;
-	uint16_t tlen;
 
-	klen = static_cast<uint16_t>(KeyParams.Key().size());
-	nlen = static_cast<uint16_t>(KeyParams.IV().size());
-	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-	tlen = 6 + klen + nlen + ilen;
+	if (KeyParams.KeySizes().KeySize() > UINT16_MAX || KeyParams.KeySizes().IVSize() > UINT16_MAX || KeyParams.KeySizes().InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("Serialize"), std::string("The key is too large to serialize!"), ErrorCodes::InvalidSize);
+	}
+
+	klen = static_cast<uint16_t>(KeyParams.KeySizes().KeySize());
+	nlen = static_cast<uint16_t>(KeyParams.KeySizes().IVSize());
+	ilen = static_cast<uint16_t>(KeyParams.KeySizes().InfoSize());
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
@@ -456,15 +472,15 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 	if (klen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Key(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureKey(), tmpr);
 	}
 	if (nlen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.IV(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureIV(), tmpr);
 	}
 	if (ilen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Info(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureInfo(), tmpr);
 	}
 
 	return tmpr;
@@ -474,7 +490,7 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -505,7 +521,13 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 
 void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t StateOffset, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	// nothing is held in this field, or the key has been reset
+	if (Length == 0)
+	{
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->State.size() - cpr->TagSize() : State->State.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
-- 
2.43.0


From 801a08136eb7f92ab276a732b9d859253a3b37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 23/67] fix: memory pool gave one block to two owners and had
 no lock; allocator never used it; SecureExtract length

---
 CEX/LockingAllocator.cpp |  4 ++--
 CEX/MemoryPool.cpp       | 13 +++++++++----
 CEX/SecureVector.h       |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/CEX/LockingAllocator.cpp b/CEX/LockingAllocator.cpp
index 1b06df7..5fe3aa2 100644
--- a/CEX/LockingAllocator.cpp
+++ b/CEX/LockingAllocator.cpp
@@ -57,7 +57,7 @@ void* LockingAllocator::allocate(size_t Elements, size_t ElementSize)
 
 	ptr = nullptr;
 
-	if (m_memoryPool != nullptr && (ELMLEN / ElementSize != Elements))
+	if (m_memoryPool != nullptr && ElementSize != 0 && (ELMLEN / ElementSize == Elements))
 	{
 		ptr = m_memoryPool->Allocate(ELMLEN);
 	}
@@ -72,7 +72,7 @@ bool LockingAllocator::deallocate(void* Pointer, size_t Elements, size_t Element
 
 	ret = false;
 
-	if (m_memoryPool != nullptr && (ELMLEN / ElementSize != Elements))
+	if (m_memoryPool != nullptr && ElementSize != 0 && (ELMLEN / ElementSize == Elements))
 	{
 		ret = m_memoryPool->Deallocate(Pointer, ELMLEN);
 	}
diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index c3801bc..2f05e5a 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -16,6 +16,7 @@ public:
 	size_t MaxAlloc;
 	uint8_t* MemPool;
 	size_t MinAlloc;
+	std::mutex PoolMutex;
 	size_t PageSize;
 	size_t PoolSize;
 
@@ -68,10 +69,9 @@ void* MemoryPool::Allocate(size_t Length)
 {
 	std::vector<std::pair<size_t, size_t>>::iterator best;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
-	std::mutex m;
 	void* poolr;
 
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->PoolMutex);
 	poolr = nullptr;
 
 	if (Length <= m_poolState->PoolSize && Length >= m_poolState->MinAlloc && Length <= m_poolState->MaxAlloc)
@@ -95,6 +95,9 @@ void* MemoryPool::Allocate(size_t Length)
 				}
 
 				poolr = m_poolState->MemPool + FSTOFT;
+				// the iterators are invalid, and the request has been served
+				best = m_poolState->FreeList.end();
+				break;
 			}
 
 			if (((best == m_poolState->FreeList.end()) || (best->second > itrl->second)) && (itrl->second >= (Length + PadSize(itrl->first, ALNBIT))))
@@ -141,7 +144,10 @@ void* MemoryPool::Allocate(size_t Length)
 
 void MemoryPool::Reset()
 {
+	std::lock_guard<std::mutex> lock(m_poolState->PoolMutex);
+
 	Clear(m_poolState->MemPool, 0, m_poolState->PoolSize);
+	m_poolState->FreeList.clear();
 	m_poolState->FreeList.push_back(std::make_pair(0, m_poolState->PoolSize));
 }
 
@@ -150,8 +156,7 @@ bool MemoryPool::Deallocate(void* Pointer, size_t Length)
 	bool status;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
 	std::vector<std::pair<size_t, size_t>>::iterator prev;
-	std::mutex m;
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->PoolMutex);
 
 	status = false;
 
diff --git a/CEX/SecureVector.h b/CEX/SecureVector.h
index b25a317..aaffffb 100644
--- a/CEX/SecureVector.h
+++ b/CEX/SecureVector.h
@@ -202,7 +202,7 @@ inline static void SecureExtract(const SecureVector<T> &Input, size_t InOffset,
 		Output.resize(OTPSZE);
 	}
 
-	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Input.size() * sizeof(T));
+	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Elements * sizeof(T));
 }
 
 /// <summary>
-- 
2.43.0


From bf0b7894e0606de5c750bd52da25bf5088571593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 24/67] fix: ParallelFor swallowed exceptions of its tasks

---
 CEX/ParallelTools.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CEX/ParallelTools.cpp b/CEX/ParallelTools.cpp
index b11d185..7babd1c 100644
--- a/CEX/ParallelTools.cpp
+++ b/CEX/ParallelTools.cpp
@@ -42,6 +42,12 @@ void ParallelTools::ParallelFor(size_t From, size_t To, const std::function<void
 		futures[i].wait();
 	}
 
+	// pass on an exception thrown by a task
+	for (size_t i = 0; i < futures.size(); ++i)
+	{
+		futures[i].get();
+	}
+
 	futures.clear();
 #endif
 }
-- 
2.43.0


From 1a9731a222c7ff016a65985f126be46088f9e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:28 +0000
Subject: [PATCH 25/67] fix: padding is checked from its first byte and cannot
 leave its block

Ranges outside the array, empty ranges and amounts over 255 are refused; PKCS7
and X923 compared neither the byte at index 0 nor the start of the range;
ZeroOne reported the enumeral of no padding.
---
 CEX/ESP.cpp     | 11 ++++++++---
 CEX/PKCS7.cpp   | 19 ++++++++++++-------
 CEX/X923.cpp    | 19 ++++++++++++-------
 CEX/ZeroOne.cpp |  8 ++++----
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/CEX/ESP.cpp b/CEX/ESP.cpp
index c51513d..d5addf6 100644
--- a/CEX/ESP.cpp
+++ b/CEX/ESP.cpp
@@ -27,7 +27,7 @@ const std::string ESP::Name()
 
 void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length || Length - Offset > 255)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -46,6 +46,11 @@ void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const size_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
@@ -70,7 +75,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -82,7 +87,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index e8f8cbb..6c02e7b 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -27,7 +27,7 @@ const std::string PKCS7::Name()
 
 void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length || Length - Offset > 255)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -45,13 +45,18 @@ void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const uint8_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
@@ -59,8 +64,8 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -70,7 +75,7 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -81,16 +86,16 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 619c5a7..10f4e20 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -31,7 +31,7 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	size_t i;
 
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length || Length - Offset > 255)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -46,6 +46,11 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 {
+	if (Input.size() == 0)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The array is empty!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BLKLEN = Input.size();
 	const size_t FNLPAD = Input[BLKLEN - 1];
 	size_t ctr;
@@ -55,12 +60,12 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 	inp = 0;
 	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -70,7 +75,7 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -82,14 +87,14 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index dcc1d6f..7d623c7 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -17,7 +17,7 @@ ZeroOne::~ZeroOne()
 
 const PaddingModes ZeroOne::Enumeral() 
 { 
-	return PaddingModes::None; 
+	return PaddingModes::ZeroOne; 
 }
 
 const std::string ZeroOne::Name() 
@@ -27,7 +27,7 @@ const std::string ZeroOne::Name()
 
 void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
@@ -36,7 +36,7 @@ void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Leng
 
 	Input[Offset] = 0x80;
 
-	for (i = Offset + 1; i % Length; ++i)
+	for (i = Offset + 1; i < Length; ++i)
 	{
 		Input[i] = 0x00;
 	}
@@ -71,7 +71,7 @@ size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input)
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	if (Length > Input.size())
+	if (Length > Input.size() || Offset >= Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 5699446f92a0f7fc15ecf61b64615396f769d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:28 +0000
Subject: [PATCH 26/67] fix: byte streams read, write, seek and change length
 as documented

Reads past the end, seeks before the start, lengths and bytes written beyond
the end, buffers too small, alternating reads and writes of files, and salts
of secure streams.
---
 CEX/FileStream.cpp   | 193 ++++++++++++++++++++++++++++---------------
 CEX/FileStream.h     |   5 ++
 CEX/MemoryStream.cpp |  45 +++++++---
 CEX/SecureStream.cpp |  65 +++++++++++----
 4 files changed, 212 insertions(+), 96 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index f6e177a..75cd404 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -22,6 +22,7 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 	m_fileMode(Mode),
 	m_fileName(FileName),
 	m_isDestroyed(false),
+	m_isWriting(false),
 	m_filePosition(0),
 	m_fileSize(0),
 	m_fileWritten(0)
@@ -31,17 +32,28 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file does not exist!"), ErrorCodes::InvalidParam);
 	}
 
-	m_fileSize = FileSize(m_fileName);
+	std::ios_base::openmode flags = static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)) | std::ios::binary;
 
-	try
+	if (Access == FileAccess::ReadWrite && !FileExists(m_fileName))
 	{
-		m_fileStream.open(m_fileName, static_cast<int32_t>(Access) | static_cast<int32_t>(Mode));
-		m_fileStream.unsetf(std::ios::skipws);
+		// create the file
+		std::ofstream create(m_fileName.c_str(), std::ofstream::binary);
 	}
-	catch (std::exception&)
+
+	m_fileStream.open(m_fileName, flags);
+
+	if (!m_fileStream.is_open())
 	{
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
 	}
+
+	m_fileStream.unsetf(std::ios::skipws);
+	m_fileSize = FileSize(m_fileName);
+
+	if (Mode == FileModes::AtEnd)
+	{
+		m_filePosition = m_fileSize;
+	}
 }
 
 FileStream::~FileStream()
@@ -127,38 +139,21 @@ void FileStream::CopyTo(IByteStream* Destination)
 {
 	CEXASSERT(m_fileSize != 0, "Stream is too int16_t");
 
-	Destination->Seek(0, IO::SeekOrigin::Begin);
-
-	if (m_fileSize > CHUNK_SIZE)
-	{
-		const size_t ALNLEN = m_fileSize - (m_fileSize % CHUNK_SIZE);
-		std::vector<uint8_t> buffer(CHUNK_SIZE);
-		m_fileStream.seekg(0, std::ios::beg);
-
-		uint32_t bteCtr = 0;
+	const uint64_t POSITION = m_filePosition;
+	std::vector<uint8_t> buffer(CHUNK_SIZE);
+	size_t pread;
 
-		if (ALNLEN >= CHUNK_SIZE)
-		{
-			while (bteCtr != ALNLEN)
-			{
-				m_fileStream.read(reinterpret_cast<char*>(buffer.data()), CHUNK_SIZE);
-				Destination->Write(buffer, bteCtr, CHUNK_SIZE);
-				bteCtr += CHUNK_SIZE;
-			}
-		}
+	Destination->Seek(0, IO::SeekOrigin::Begin);
+	Seek(0, IO::SeekOrigin::Begin);
+	pread = Read(buffer, 0, buffer.size());
 
-		if (ALNLEN != m_fileSize)
-		{
-			m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize - ALNLEN);
-			Destination->Write(buffer, ALNLEN, m_fileSize - ALNLEN);
-		}
-	}
-	else
+	while (pread != 0)
 	{
-		std::vector<uint8_t> buffer(m_fileSize);
-		m_fileStream.seekg(0, std::ios::beg);
-		Destination->Write(buffer, 0, m_fileSize);
+		Destination->Write(buffer, 0, pread);
+		pread = Read(buffer, 0, buffer.size());
 	}
+
+	Seek(POSITION, IO::SeekOrigin::Begin);
 }
 
 void FileStream::Destroy()
@@ -206,15 +201,21 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 {
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
-	if (Offset + Length > m_fileSize - m_filePosition)
+	const uint64_t RMDLEN = (m_filePosition < m_fileSize) ? m_fileSize - m_filePosition : 0;
+
+	Length = (Length > RMDLEN) ? static_cast<size_t>(RMDLEN) : Length;
+
+	if (Offset > Output.size() || Length > Output.size() - Offset)
 	{
-		Length = m_fileSize - m_filePosition;
+		throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 	}
 
 	if (Length > 0)
 	{
 		// read the data:
-		m_fileStream.read(reinterpret_cast<char*>(&Output[Offset]), Length);
+		Synchronize(false);
+		m_fileStream.read(reinterpret_cast<char*>(Output.data() + Offset), Length);
+		Length = static_cast<size_t>(m_fileStream.gcount());
 		m_filePosition += Length;
 	}
 
@@ -223,94 +224,154 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 
 uint8_t FileStream::ReadByte()
 {
-	CEXASSERT(m_fileSize - m_filePosition >= 1, "Reached end of file");
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
-	uint8_t data(1);
-	m_fileStream.read(reinterpret_cast<char*>(&data), 1);
-	m_filePosition += 1;
+	std::vector<uint8_t> data(1);
+
+	if (Read(data, 0, 1) != 1)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The end of the stream has been reached!"), ErrorCodes::InvalidSize);
+	}
 
-	return data;
+	return data[0];
 }
 
 void FileStream::Reset()
 {
-	m_fileStream.seekg(0, std::ios::beg);
-	m_filePosition = 0;
+	Seek(0, SeekOrigin::Begin);
 }
 
 void FileStream::Seek(uint64_t Offset, SeekOrigin Origin)
 {
+	uint64_t pos;
+
 	if (Origin == SeekOrigin::Begin)
 	{
-		m_fileStream.seekg(Offset, std::ios::beg);
+		pos = Offset;
 	}
 	else if (Origin == SeekOrigin::End)
 	{
-		m_fileStream.seekg(Offset, std::ios::end);
+		if (Offset > m_fileSize)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Seek"), std::string("The position is before the start of the stream!"), ErrorCodes::InvalidParam);
+		}
+
+		pos = m_fileSize - Offset;
 	}
 	else
 	{
-		m_fileStream.seekg(Offset, std::ios::cur);
+		pos = m_filePosition + Offset;
 	}
 
-	m_filePosition = static_cast<uint64_t>(m_fileStream.tellg());
+	m_filePosition = pos;
+	m_fileStream.clear();
+	m_fileStream.seekg(static_cast<std::streamoff>(m_filePosition), std::ios::beg);
+	m_isWriting = false;
 }
 
 void FileStream::SetLength(uint64_t Length)
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
+	const uint64_t POSITION = (m_filePosition < Length) ? m_filePosition : Length;
+
 	if (Length < m_fileSize)
 	{
+		m_fileStream.flush();
+
 #if defined(CEX_OS_WINDOWS)
 		int32_t handle = 0;
+		bool res = false;
 
 		if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR | _O_CREAT, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
 		{
-			_chsize(handle, Length);
+			res = (_chsize(handle, static_cast<long>(Length)) == 0);
+			_close(handle);
 		}
 #elif defined(CEX_OS_POSIX)
-		truncate(m_fileName.c_str(), Length);
+		const bool res = (truncate(m_fileName.c_str(), Length) == 0);
 #endif
+
+		if (!res)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("SetLength"), std::string("The file length could not be changed!"), ErrorCodes::UnKnown);
+		}
+
+		m_fileSize = Length;
+	}
+	else if (Length > m_fileSize)
+	{
+		const std::vector<uint8_t> zero(CHUNK_SIZE);
+
+		Seek(0, SeekOrigin::End);
+
+		while (m_fileSize < Length)
+		{
+			Write(zero, 0, (Length - m_fileSize < CHUNK_SIZE) ? static_cast<size_t>(Length - m_fileSize) : CHUNK_SIZE);
+		}
 	}
 	else
 	{
-		m_fileStream.seekg(Length - 1, std::ios::beg);
-		m_fileStream.write("", 1);
-		m_fileStream.seekg(0, std::ios::beg);
+		// misra
 	}
+
+	Seek(POSITION, SeekOrigin::Begin);
 }
 
 void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
-	m_fileStream.write(reinterpret_cast<const char*>(&Input[Offset]), Length);
-	m_filePosition += Length;
-	m_fileSize += Length;
-	m_fileWritten += Length;
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
-	if (m_fileWritten >= CHUNK_SIZE)
+	if (Length > 0)
 	{
-		m_fileStream.flush();
-		m_fileWritten = 0;
+		Synchronize(true);
+		m_fileStream.write(reinterpret_cast<const char*>(Input.data() + Offset), Length);
+
+		if (!m_fileStream.good())
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The file could not be written!"), ErrorCodes::UnKnown);
+		}
+
+		m_filePosition += Length;
+		m_fileSize = (m_filePosition > m_fileSize) ? m_filePosition : m_fileSize;
+		m_fileWritten += Length;
+
+		if (m_fileWritten >= CHUNK_SIZE)
+		{
+			m_fileStream.flush();
+			m_fileWritten = 0;
+		}
 	}
 }
 
 void FileStream::WriteByte(uint8_t Value)
 {
-	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
+	const std::vector<uint8_t> data(1, Value);
+
+	Write(data, 0, 1);
+}
+
+//~~~Private Functions~~~//
 
-	m_fileStream.write(reinterpret_cast<char*>(&Value), 1);
-	m_filePosition++;
-	m_fileSize++;
-	m_fileWritten++;
+void FileStream::Synchronize(bool Writing)
+{
+	if (Writing && m_fileMode == FileModes::Append)
+	{
+		m_filePosition = m_fileSize;
+	}
 
-	if (m_fileWritten >= CHUNK_SIZE)
+	if (m_isWriting != Writing || !m_fileStream.good())
 	{
+		// the file has one position: it has to be set when the direction changes
+		m_fileStream.clear();
 		m_fileStream.flush();
-		m_fileWritten = 0;
+		m_fileStream.seekg(static_cast<std::streamoff>(m_filePosition), std::ios::beg);
+		m_isWriting = Writing;
 	}
 }
 
diff --git a/CEX/FileStream.h b/CEX/FileStream.h
index 36ec6c9..f22b10e 100644
--- a/CEX/FileStream.h
+++ b/CEX/FileStream.h
@@ -44,6 +44,7 @@ private:
 	static const std::string CLASS_NAME;
 
 	bool m_isDestroyed;
+	bool m_isWriting;
 	std::string m_fileName;
 	uint64_t m_filePosition;
 	uint64_t m_fileSize;
@@ -241,6 +242,10 @@ public:
 	///
 	/// <param name="Value">The uint8_t value to write</param>
 	void WriteByte(uint8_t Value) override;
+
+private:
+
+	void Synchronize(bool Writing);
 };
 
 NAMESPACE_IOEND
diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..ae911b9 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -3,6 +3,7 @@
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
 using Tools::IntegerTools;
 using Tools::MemoryTools;
 
@@ -49,7 +50,10 @@ MemoryStream::MemoryStream(const std::vector<uint8_t> &Data, size_t Offset, size
 	m_streamData(0),
 	m_streamPosition(0)
 {
-	CEXASSERT(Length <= Data.size() - Offset, "Length exceeds input capacity");
+	if (Offset > Data.size() || Length > Data.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_streamData.resize(Length);
 	MemoryTools::Copy(Data, Offset, m_streamData, 0, Length);
@@ -127,9 +131,13 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - static_cast<size_t>(m_streamPosition) : 0;
+
+	Length = (Length > RMDLEN) ? RMDLEN : Length;
+
+	if (Offset > Output.size() || Length > Output.size() - Offset)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 	}
 
 	if (Length > 0)
@@ -143,7 +151,11 @@ size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t MemoryStream::ReadByte()
 {
-	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream length exceeded");
+	if (m_streamPosition >= m_streamData.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The end of the stream has been reached!"), ErrorCodes::InvalidSize);
+	}
+
 	uint8_t data = 0;
 	MemoryTools::CopyToValue(m_streamData, m_streamPosition, data, 1);
 	m_streamPosition += 1;
@@ -166,6 +178,11 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 	}
 	else if (Origin == SeekOrigin::End)
 	{
+		if (Offset > m_streamData.size())
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Seek"), std::string("The position is before the start of the stream!"), ErrorCodes::InvalidParam);
+		}
+
 		m_streamPosition = m_streamData.size() - Offset;
 	}
 	else
@@ -176,19 +193,23 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void MemoryStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	m_streamData.resize(Length);
+
+	if (m_streamPosition > Length)
+	{
+		m_streamPosition = Length;
+	}
 }
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	CEXASSERT(Offset + Length <= Input.size(), "Input stream length exceeded");
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	size_t ttlLen = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(ttlLen);
-	}
 	if (m_streamData.size() < ttlLen)
 	{
 		m_streamData.resize(ttlLen);
@@ -200,9 +221,9 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamPosition >= m_streamData.size())
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..294b063 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -7,6 +7,7 @@
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
 using Tools::ArrayTools;
 using Tools::MemoryTools;
 using Tools::SystemTools;
@@ -27,7 +28,7 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +44,7 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -59,11 +60,14 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
-	CEXASSERT(Length <= Data.size() - Offset, "Length is longer than the array size");
+	if (Offset > Data.size() || Length > Data.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_streamData.resize(Length);
 	MemoryTools::Copy(Data, Offset, m_streamData, 0, Length);
@@ -147,9 +151,13 @@ void SecureStream::Destroy()
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - static_cast<size_t>(m_streamPosition) : 0;
+
+	Length = (Length > RMDLEN) ? RMDLEN : Length;
+
+	if (Offset > Output.size() || Length > Output.size() - Offset)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
 	}
 
 	if (Length > 0)
@@ -165,7 +173,11 @@ size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t SecureStream::ReadByte()
 {
-	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream capacity exceeded");
+	if (m_streamPosition >= m_streamData.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The end of the stream has been reached!"), ErrorCodes::InvalidSize);
+	}
+
 
 	uint8_t data = 0;
 	Transform();
@@ -191,6 +203,11 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 	}
 	else if (Origin == SeekOrigin::End)
 	{
+		if (Offset > m_streamData.size())
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Seek"), std::string("The position is before the start of the stream!"), ErrorCodes::InvalidParam);
+		}
+
 		m_streamPosition = m_streamData.size() - Offset;
 	}
 	else
@@ -201,7 +218,14 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void SecureStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	Transform();
+	m_streamData.resize(Length);
+	Transform();
+
+	if (m_streamPosition > Length)
+	{
+		m_streamPosition = Length;
+	}
 }
 
 std::vector<uint8_t> SecureStream::ToArray()
@@ -224,22 +248,22 @@ std::vector<uint8_t> SecureStream::ToArray()
 
 void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
-	CEXASSERT(Offset + Length <= Input.size(), "Length is longer than the array size");
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	size_t len;
 
 	len = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(len);
-	}
+	Transform();
+
 	if (m_streamData.size() < len)
 	{
 		m_streamData.resize(len);
 	}
 
-	Transform();
 	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
 	Transform();
 	m_streamPosition += Length;
@@ -247,12 +271,13 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void SecureStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	Transform();
+
+	if (m_streamPosition >= m_streamData.size())
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
-	Transform();
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
 	Transform();
 	m_streamPosition += 1;
@@ -298,7 +323,11 @@ void SecureStream::Transform()
 		cpr.Initialize(true, kp);
 		std::vector<uint8_t> state(m_streamData.size());
 		cpr.Transform(m_streamData, 0, state, 0, state.size());
-		m_streamData = state;
+		m_streamData.swap(state);
+		MemoryTools::Clear(state, 0, state.size());
+		MemoryTools::Clear(seed, 0, seed.size());
+		MemoryTools::Clear(key, 0, key.size());
+		MemoryTools::Clear(iv, 0, iv.size());
 	}
 }
 
-- 
2.43.0


From ed51fb32a38e1b323f8be2b62e12bdb1eaf07b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:28 +0000
Subject: [PATCH 27/67] fix: AES does not take 64-byte keys

The key schedule is defined for three lengths; with 64 bytes only the first
16 were expanded.
---
 CEX/CMAC.cpp | 22 ++++++++++++++++------
 CEX/RHX.cpp  |  5 +++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index 012f296..b884a39 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -52,9 +52,14 @@ CMAC::CMAC(BlockCiphers CipherType)
 		BLOCK_SIZE,
 		Macs::CMAC,
 		(MacConvert::ToName(Macs::CMAC) + std::string("-") + BlockCipherConvert::ToName(CipherType)),
-		std::vector<SymmetricKeySize> {
-			SymmetricKeySize(32, 0, 0),
-			SymmetricKeySize(64, 0, 0)},
+		(CipherType == BlockCiphers::AES ?
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(16, 0, 0),
+				SymmetricKeySize(24, 0, 0),
+				SymmetricKeySize(32, 0, 0)} :
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(32, 0, 0),
+				SymmetricKeySize(64, 0, 0)}),
 #if defined(CEX_ENFORCE_LEGALKEY)
 		32,
 		32,
@@ -78,9 +83,14 @@ CMAC::CMAC(IBlockCipher* Cipher)
 		(Cipher != nullptr ? 
 			MacConvert::ToName(Macs::CMAC) + std::string("-") + BlockCipherConvert::ToName(Cipher->Enumeral()) :
 			std::string("")),
-		std::vector<SymmetricKeySize> {
-			SymmetricKeySize(32, 0, 0),
-			SymmetricKeySize(64, 0, 0)},
+		(Cipher != nullptr && Cipher->Enumeral() == BlockCiphers::AES ?
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(16, 0, 0),
+				SymmetricKeySize(24, 0, 0),
+				SymmetricKeySize(32, 0, 0)} :
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(32, 0, 0),
+				SymmetricKeySize(64, 0, 0)}),
 #if defined(CEX_ENFORCE_LEGALKEY)
 		32,
 		32,
diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..b64c168 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -40,6 +40,11 @@ public:
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
+		// the standard key schedule is only defined for the first three key sizes
+		if (Extension == BlockCipherExtensions::None)
+		{
+			LegalKeySizes.pop_back();
+		}
 	}
 
 	~RhxState()
-- 
2.43.0


From f15a57e3ce0f92e74bf6f2d45cc355e1b4dbe5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:28 +0000
Subject: [PATCH 28/67] fix: stream processors process the range they are
 given, with padding that can be removed

Whole-block messages get their padding block, partial cipher-text blocks are
refused, output offsets count in resizes, unkeyed use and ranges outside the
array are refused, an empty message no longer divides by zero.
---
 CEX/CipherStream.cpp | 106 ++++++++++++++++++++++++++-----------------
 CEX/CipherStream.h   |   1 +
 CEX/DigestStream.cpp |   7 ++-
 CEX/MacStream.cpp    |  22 ++++++---
 4 files changed, 85 insertions(+), 51 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 7ff85e7..5f92979 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -52,7 +52,7 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 	m_cipherState(new CipherState((CipherModeType == CipherModes::CTR || CipherModeType == CipherModes::ICM), true)),
 	m_cipherEngine(CipherModeType != CipherModes::None && CipherType != BlockCiphers::None ? GetCipherMode(CipherType, CipherModeType) :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
+	m_cipherPadding(m_cipherState->CounterMode ? nullptr : GetPaddingMode(CipherModeType == CipherModes::ECB && PaddingType == PaddingModes::None ? PaddingModes::X923 : PaddingType)),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -62,7 +62,7 @@ CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	m_cipherState(new CipherState(((Cipher != nullptr && (Cipher->Enumeral() == CipherModes::CTR || Cipher->Enumeral() == CipherModes::ICM)) ? true : false), false)),
 	m_cipherEngine(Cipher != nullptr ? Cipher :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(Padding),
+	m_cipherPadding(Padding != nullptr || m_cipherState->CounterMode ? Padding : GetPaddingMode(PaddingModes::X923)),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -146,8 +146,17 @@ void CipherStream::ParallelMaxDegree(size_t Degree)
 
 void CipherStream::Write(IByteStream* InStream, IByteStream* OutStream)
 {
-	CEXASSERT(m_cipherState->Initialized, "The cipher has not been initialized");
-	CEXASSERT(InStream->Length() - InStream->Position() > 0, "The Input stream is too int16_t");
+	if (!m_cipherState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (InStream->Position() >= InStream->Length())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input stream is empty!"), ErrorCodes::InvalidSize);
+	}
+
+	CheckLength(InStream->Length() - InStream->Position());
+
 	CEXASSERT(InStream->CanRead(), "The Input stream is set to write only!");
 	CEXASSERT(OutStream->CanRead() || OutStream->CanWrite(), "The Output stream is to read only!");
 
@@ -161,9 +170,20 @@ void CipherStream::Write(IByteStream* InStream, IByteStream* OutStream)
 
 void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	CEXASSERT(m_cipherState->Initialized, "The cipher has not been initialized");
-	CEXASSERT(Input.size() - InOffset > 0, "The input array is too int16_t");
-	CEXASSERT(Input.size() - InOffset <= Output.size() - OutOffset, "The output array is too int16_t!");
+	if (!m_cipherState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (InOffset >= Input.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is empty!"), ErrorCodes::InvalidSize);
+	}
+	if (OutOffset > Output.size() || (m_cipherState->CounterMode && Input.size() - InOffset > Output.size() - OutOffset))
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
+	CheckLength(Input.size() - InOffset);
 
 	BlockTransform(Input, InOffset, Output, OutOffset);
 }
@@ -173,10 +193,16 @@ void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std
 void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
 	const size_t INPLEN = Input.size() - InOffset;
+	const size_t OTPPOS = OutOffset;
 	size_t plen;
 
 	plen = 0;
 
+	if (Output.size() - OutOffset < INPLEN)
+	{
+		Output.resize(OutOffset + INPLEN);
+	}
+
 	if (IsParallel())
 	{
 		const size_t PRLBLK = m_cipherEngine->ParallelBlockSize();
@@ -198,20 +224,17 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	const size_t BLKLEN = m_cipherEngine->BlockSize();
 	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 
-	if (INPLEN > BLKLEN)
+	while (plen != ALNLEN)
 	{
-		while (plen != ALNLEN)
-		{
-			m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, BLKLEN);
-			InOffset += BLKLEN;
-			OutOffset += BLKLEN;
-			plen += BLKLEN;
-			CalculateProgress(INPLEN, InOffset);
-		}
+		m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, BLKLEN);
+		InOffset += BLKLEN;
+		OutOffset += BLKLEN;
+		plen += BLKLEN;
+		CalculateProgress(INPLEN, InOffset);
 	}
 
-	// partial
-	if (ALNLEN != INPLEN)
+	// partial or padding block
+	if (ALNLEN != INPLEN || (m_cipherState->Encryption && !m_cipherState->CounterMode))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -228,15 +251,12 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			std::vector<uint8_t> inp(BLKLEN);
 			MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
 			plen += BLKLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OTPPOS + plen)
 			{
-				Output.resize(plen);
+				Output.resize(OTPPOS + plen);
 			}
 
 			m_cipherEngine->EncryptBlock(inp, 0, Output, OutOffset);
@@ -249,9 +269,9 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 			plen += FNLLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OTPPOS + plen)
 			{
-				Output.resize(plen);
+				Output.resize(OTPPOS + plen);
 			}
 		}
 	}
@@ -295,20 +315,17 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
-	if (INPLEN > BLKLEN)
+	while (plen != ALNLEN)
 	{
-		while (plen != ALNLEN)
-		{
-			pread = InStream->Read(inp, 0, BLKLEN);
-			m_cipherEngine->Transform(inp, 0, otp, 0, pread);
-			OutStream->Write(otp, 0, pread);
-			plen += pread;
-			CalculateProgress(INPLEN, OutStream->Position());
-		}
+		pread = InStream->Read(inp, 0, BLKLEN);
+		m_cipherEngine->Transform(inp, 0, otp, 0, pread);
+		OutStream->Write(otp, 0, pread);
+		plen += pread;
+		CalculateProgress(INPLEN, OutStream->Position());
 	}
 
-	// partial
-	if (ALNLEN != INPLEN)
+	// partial or padding block
+	if (ALNLEN != INPLEN || (m_cipherState->Encryption && !m_cipherState->CounterMode))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -323,10 +340,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			pread = InStream->Read(inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, pread, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, pread, inp.size());
 			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 			OutStream->Write(otp, 0, BLKLEN);
 		}
@@ -342,9 +356,17 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	CalculateProgress(INPLEN, OutStream->Position());
 }
 
+void CipherStream::CheckLength(size_t Length)
+{
+	if (!m_cipherState->CounterMode && !m_cipherState->Encryption && Length % m_cipherEngine->BlockSize() != 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher-text length is not a multiple of the block size!"), ErrorCodes::InvalidSize);
+	}
+}
+
 void CipherStream::CalculateProgress(size_t Length, size_t Processed)
 {
-	if (Length >= Processed)
+	if (Length >= Processed && Length != 0)
 	{
 		double prc;
 		double progress;
diff --git a/CEX/CipherStream.h b/CEX/CipherStream.h
index 8e34bc7..bc7e2b8 100644
--- a/CEX/CipherStream.h
+++ b/CEX/CipherStream.h
@@ -269,6 +269,7 @@ private:
 	void BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset);
 	void BlockTransform(IByteStream* InStream, IByteStream* OutStream);
 	void CalculateProgress(size_t Length, size_t Processed);
+	void CheckLength(size_t Length);
 	static ICipherMode* GetCipherMode(BlockCiphers CipherType, CipherModes CipherModeType);
 	static IPadding* GetPaddingMode(PaddingModes PaddingType);
 };
diff --git a/CEX/DigestStream.cpp b/CEX/DigestStream.cpp
index abbb286..52b653b 100644
--- a/CEX/DigestStream.cpp
+++ b/CEX/DigestStream.cpp
@@ -95,7 +95,10 @@ std::vector<uint8_t> DigestStream::Compute(IByteStream* InStream)
 
 std::vector<uint8_t> DigestStream::Compute(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length)
 {
-	CEXASSERT((Input.size() - InOffset) > 0 && Length + InOffset <= Input.size(), "The input array is too int16_t");
+	if (InOffset > Input.size() || Length > Input.size() - InOffset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	CalculateInterval(Length);
 	m_digestEngine->Reset();
@@ -134,7 +137,7 @@ void DigestStream::CalculateProgress(size_t Length, size_t Processed)
 
 	prc = static_cast<double>(Processed);
 
-	if (Length >= Processed)
+	if (Length >= Processed && Length != 0)
 	{
 		prg = 100.0 * (prc / static_cast<double>(Length));
 
diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 861cbb8..c9d1aa4 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -74,7 +74,11 @@ const std::vector<SymmetricKeySize> MacStream::LegalKeySizes()
 
 std::vector<uint8_t> MacStream::Compute(IByteStream* InStream)
 {
-	CEXASSERT(m_streamState->Initialized, "The mac has not been initialized");
+	if (!m_streamState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The mac has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	CEXASSERT(InStream->Length() - InStream->Position() > 0, "The input stream is too int16_t");
 	CEXASSERT(InStream->CanRead(), "The input stream is set to write only!");
 
@@ -88,13 +92,17 @@ std::vector<uint8_t> MacStream::Compute(IByteStream* InStream)
 
 std::vector<uint8_t> MacStream::Compute(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length)
 {
-	CEXASSERT(m_streamState->Initialized, "The mac has not been initialized");
-	CEXASSERT((Input.size() - InOffset) > 0 && Length + InOffset <= Input.size(), "The input array is too int16_t");
+	if (!m_streamState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The mac has not been initialized!"), ErrorCodes::NotInitialized);
+	}
 
-	size_t plen;
+	if (InOffset > Input.size() || Length > Input.size() - InOffset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
-	plen = Length - InOffset;
-	CalculateInterval(plen);
+	CalculateInterval(Length);
 
 	return Process(Input, InOffset, Length);
 }
@@ -148,7 +156,7 @@ void MacStream::CalculateProgress(size_t Length, size_t Processed)
 
 	prc = static_cast<double>(Processed);
 
-	if (Length >= Processed)
+	if (Length >= Processed && Length != 0)
 	{
 		prg = 100.0 * (prc / static_cast<double>(Length));
 
-- 
2.43.0


From f2a8ca1365e482827bda59c7e5ab758af51debbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:42 +0000
Subject: [PATCH 29/67] fix: parallel block sizes are never zero or wrapped,
 and the parallel flag of the manual constructor counts

---
 CEX/ParallelOptions.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/CEX/ParallelOptions.cpp b/CEX/ParallelOptions.cpp
index 069398f..4e8391b 100644
--- a/CEX/ParallelOptions.cpp
+++ b/CEX/ParallelOptions.cpp
@@ -98,6 +98,8 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, size_t Paralle
 	m_wideBlock(false)
 {
 	Detect();
+	// parallel processing must be both possible and wanted
+	m_isParallel = m_isParallel && Parallel;
 	Calculate();
 	StoreDefaults();
 }
@@ -231,7 +233,7 @@ void ParallelOptions::Calculate()
 	// first init is auto
 	if (m_autoInit)
 	{
-		m_parallelBlockSize = (m_l1DataCacheTotal - m_l1DataCacheReserved);
+		m_parallelBlockSize = (m_l1DataCacheTotal > m_l1DataCacheReserved) ? (m_l1DataCacheTotal - m_l1DataCacheReserved) : 0;
 
 		// split channels in/out by halving available cache
 		if (m_splitChannel)
@@ -251,22 +253,19 @@ void ParallelOptions::Calculate()
 		{
 			m_parallelBlockSize = DEF_DATACACHE * m_parallelMaxDegree;
 		}
-
-		if (m_parallelBlockSize < m_parallelMinimumSize)
-		{
-			m_parallelBlockSize = m_parallelMinimumSize;
-		}
 	}
 	else
 	{
 		// misra
 	}
 
-	// round it off
-	if (m_parallelBlockSize != 0)
+	// round it off, to at least one minimum size
+	if (m_parallelBlockSize < m_parallelMinimumSize)
 	{
-		m_parallelBlockSize = m_parallelBlockSize - (m_parallelBlockSize % m_parallelMinimumSize);
+		m_parallelBlockSize = m_parallelMinimumSize;
 	}
+
+	m_parallelBlockSize = m_parallelBlockSize - (m_parallelBlockSize % m_parallelMinimumSize);
 }
 
 void ParallelOptions::Calculate(bool Parallel, size_t ParallelBlockSize, size_t MaxDegree)
@@ -358,6 +357,12 @@ void ParallelOptions::Detect()
 	m_virtualCores = dtc.VirtualCores();
 	m_processorCount = (m_virtualCores > m_physicalCores) ? m_virtualCores : m_physicalCores;
 
+	if (m_processorCount == 0)
+	{
+		// not reported by this processor
+		m_processorCount = 1;
+	}
+
 	if (m_processorCount > 1 && m_processorCount % 2 != 0)
 	{
 		m_processorCount--;
-- 
2.43.0


From 054a0d57374db2e2dfe80b76c935e7ee72b06a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:42 +0000
Subject: [PATCH 30/67] fix: CSP instances do not share a provider pointer

---
 CEX/CSP.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 6c33aa6..f34cd3a 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -24,7 +24,6 @@ using Tools::MemoryTools;
 
 #if defined(CEX_OS_WINDOWS)
 #	pragma comment(lib, "crypt32.lib")
-	HCRYPTPROV m_hProvider = 0;
 #elif defined (CEX_OS_POSIX)
 #	if !defined(O_NOCTTY)
 #		define O_NOCTTY 0
@@ -53,10 +52,6 @@ CSP::~CSP()
 	{
 		m_pvdSelfTest.reset(nullptr);
 	}
-
-#if defined(CEX_OS_WINDOWS)
-	m_hProvider = 0;
-#endif
 }
 
 //~~~Public Functions~~~//
-- 
2.43.0


From 7f749f897163c71ef4888bf4fc931b435c99387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:29 +0000
Subject: [PATCH 31/67] fix: ECDH and ECDSA constructors that throw leave the
 caller's generator alone

---
 CEX/ECDH.h  | 2 +-
 CEX/ECDSA.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/ECDH.h b/CEX/ECDH.h
index 0672c7a..7683173 100644
--- a/CEX/ECDH.h
+++ b/CEX/ECDH.h
@@ -72,8 +72,8 @@ private:
 	std::unique_ptr<EcdhState> m_ecdhState;
 	AsymmetricKey* m_privateKey;
 	AsymmetricKey* m_publicKey;
-	std::unique_ptr<IPrng> m_rndGenerator;
 	std::unique_ptr<IDigest> m_rndDigest;
+	std::unique_ptr<IPrng> m_rndGenerator;
 
 public:
 
diff --git a/CEX/ECDSA.h b/CEX/ECDSA.h
index a8345ef..f59ec42 100644
--- a/CEX/ECDSA.h
+++ b/CEX/ECDSA.h
@@ -97,8 +97,8 @@ private:
 	std::unique_ptr<ECDSAState> m_ecdsaState;
 	AsymmetricKey* m_privateKey;
 	AsymmetricKey* m_publicKey;
-	std::unique_ptr<IPrng> m_rndGenerator;
 	std::unique_ptr<IDigest> m_rndDigest;
+	std::unique_ptr<IPrng> m_rndGenerator;
 
 public:
 
-- 
2.43.0


From c32435b5d5919390ebb95d79ba4c913fdaeba4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:29 +0000
Subject: [PATCH 32/67] fix: system name lookups do not turn exhausted memory
 into an empty name

---
 CEX/SystemTools.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CEX/SystemTools.cpp b/CEX/SystemTools.cpp
index 98c4d40..7916a50 100644
--- a/CEX/SystemTools.cpp
+++ b/CEX/SystemTools.cpp
@@ -23,6 +23,10 @@ std::string SystemTools::ComputerName()
 		res.assign((char*)buf, buffLen);
 #endif
 	}
+	catch (const std::bad_alloc&)
+	{
+		throw;
+	}
 	catch (std::exception&) 
 	{
 	}
@@ -608,6 +612,10 @@ std::string SystemTools::UserName()
 		res.assign((char*)buf, buffLen);
 #endif
 	}
+	catch (const std::bad_alloc&)
+	{
+		throw;
+	}
 	catch (std::exception&)
 	{
 	}
@@ -1170,6 +1178,10 @@ std::string SystemTools::Version()
 				hToken = NULL;
 			}
 		}
+		catch (const std::bad_alloc&)
+		{
+			throw;
+		}
 		catch (std::exception&) 
 		{
 		}
-- 
2.43.0


From a235850e587ea291c991f64a2129ca096d70ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 33/67] fix: writes at a position no array can reach are
 refused

---
 CEX/MemoryStream.cpp | 10 ++++++++++
 CEX/SecureStream.cpp | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index ae911b9..19d051e 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -208,6 +208,11 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
 
+	if (m_streamPosition > m_streamData.max_size() - Length)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The position exceeds the maximum size of the stream!"), ErrorCodes::InvalidParam);
+	}
+
 	size_t ttlLen = m_streamPosition + Length;
 
 	if (m_streamData.size() < ttlLen)
@@ -221,6 +226,11 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
+	if (m_streamPosition >= m_streamData.max_size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("WriteByte"), std::string("The position exceeds the maximum size of the stream!"), ErrorCodes::InvalidParam);
+	}
+
 	if (m_streamPosition >= m_streamData.size())
 	{
 		m_streamData.resize(m_streamPosition + 1);
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 294b063..cd71486 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -253,9 +253,16 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
 
+	if (m_streamPosition > m_streamData.max_size() - Length)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The position exceeds the maximum size of the stream!"), ErrorCodes::InvalidParam);
+	}
+
 	size_t len;
 
 	len = m_streamPosition + Length;
+	// an allocation that fails must not leave the stream decrypted
+	m_streamData.reserve(len);
 
 	Transform();
 
@@ -271,6 +278,13 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void SecureStream::WriteByte(uint8_t Value)
 {
+	if (m_streamPosition >= m_streamData.max_size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("WriteByte"), std::string("The position exceeds the maximum size of the stream!"), ErrorCodes::InvalidParam);
+	}
+
+	m_streamData.reserve(m_streamPosition + 1);
+
 	Transform();
 
 	if (m_streamPosition >= m_streamData.size())
-- 
2.43.0


From 4d57f63b065bcda7c9e98c0339ede7e55c1a787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 34/67] fix: CMAC and GMAC check the key size before they drop
 the current key

---
 CEX/CMAC.cpp | 6 ++++++
 CEX/GMAC.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index b884a39..434e615 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -223,6 +223,12 @@ void CMAC::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	// a key the cipher refuses must not disturb the current state
+	if (!SymmetricKeySize::Contains(m_cbcMode->LegalKeySizes(), Parameters.KeySizes().KeySize()))
+	{
+		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index f28059a..34187d3 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -214,6 +214,12 @@ void GMAC::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	// a key the cipher refuses must not disturb the current state
+	if (!SymmetricKeySize::Contains(m_blockCipher->LegalKeySizes(), Parameters.KeySizes().KeySize()))
+	{
+		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Parameters.KeySizes().IVSize() < MinimumSaltSize())
 	{
 		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid salt size, must be at least MinimumSaltSize in length!"), ErrorCodes::InvalidSalt);
-- 
2.43.0


From 51be2421d3910a25203b7bb96250cbea67a0be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:25 +0000
Subject: [PATCH 35/67] fix: OFB refuses an empty nonce

---
 CEX/OFB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/OFB.cpp b/CEX/OFB.cpp
index 792bd38..0f2990e 100644
--- a/CEX/OFB.cpp
+++ b/CEX/OFB.cpp
@@ -184,7 +184,7 @@ void OFB::EncryptBlock(const std::vector<uint8_t> &Input, size_t InOffset, std::
 
 void OFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize(), Parameters.KeySizes().IVSize()))
+	if (Parameters.KeySizes().IVSize() != BLOCK_SIZE || !SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a legal key-size, and the nonce must equal in size to the block ciphers block-size!"), ErrorCodes::InvalidKey);
 	}
-- 
2.43.0


From 5382c9cf75fb5816c2e7a30be3a13b9145646393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:19 +0000
Subject: [PATCH 36/67] fix: LeIncreaseW carries when it counts in place

---
 CEX/IntegerTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index af7bf30..c610967 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2169,7 +2169,8 @@ public:
 		MemoryTools::Copy(Input, 0, Output, 0, Input.size() * sizeof(ArrayA::value_type));
 		Output[0] += static_cast<typename ArrayA::value_type>(Length);
 
-		if (Output[0] < Input[0])
+		// the input can be the output array; the sum is smaller than the addend if it carried
+		if (Output[0] < static_cast<typename ArrayA::value_type>(Length))
 		{
 			++Output[1];
 		}
-- 
2.43.0


From fc2bc7a7a722659cfb278d711060888e7407685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 37/67] fix: every identifier has a name that leads back to it

---
 CEX/AsymmetricParameters.cpp | 16 +++++++++++++-
 CEX/ExceptionTypes.cpp       |  7 ++++++
 CEX/Kdfs.cpp                 | 42 ++++++++++++++++++++++++++++++++++++
 CEX/SymmetricCiphers.cpp     |  5 ++++-
 4 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..a28bd9f 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -29,6 +29,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::ECDSAS2P25519S:
 		name = std::string("ECDSAS2P25519S");
 		break;
+	case AsymmetricParameters::KYBERS1P1632:
+		name = std::string("KYBERS1P1632");
+		break;
 	case AsymmetricParameters::KYBERS3P2400:
 		name = std::string("KYBERS3P2400");
 		break;
@@ -59,6 +62,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::SPXPS5S256SHAKE:
 		name = std::string("SPXPS5S256SHAKE");
 		break;
+	case AsymmetricParameters::SPXPS6S512SHAKE:
+		name = std::string("SPXPS6S512SHAKE");
+		break;
 	case AsymmetricParameters::XMSSSHA2256H10:
 		name = std::string("XMSSSHA2256H10");
 		break;
@@ -231,6 +237,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::ECDSAS2P25519S;
 	}
+	else if (Name == std::string("KYBERS1P1632"))
+	{
+		tname = AsymmetricParameters::KYBERS1P1632;
+	}
 	else if (Name == std::string("KYBERS3P2400"))
 	{
 		tname = AsymmetricParameters::KYBERS3P2400;
@@ -271,9 +281,13 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::SPXPS5S256SHAKE;
 	}
+	else if (Name == std::string("SPXPS6S512SHAKE"))
+	{
+		tname = AsymmetricParameters::SPXPS6S512SHAKE;
+	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index 086dca2..c925318 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -29,6 +29,9 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoKdfException:
 		name = std::string("CryptoKdfException");
 		break;
+	case ExceptionTypes::CryptoKmsException:
+		name = std::string("CryptoKmsException");
+		break;
 	case ExceptionTypes::CryptoMacException:
 		name = std::string("CryptoMacException");
 		break;
@@ -84,6 +87,10 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoKdfException;
 	}
+	else if (Name == std::string("CryptoKmsException"))
+	{
+		tname = ExceptionTypes::CryptoKmsException;
+	}
 	else if (Name == std::string("CryptoMacException"))
 	{
 		tname = ExceptionTypes::CryptoMacException;
diff --git a/CEX/Kdfs.cpp b/CEX/Kdfs.cpp
index 4f8b3c7..51a63b1 100644
--- a/CEX/Kdfs.cpp
+++ b/CEX/Kdfs.cpp
@@ -8,6 +8,15 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 
 	switch (Enumeral)
 	{
+		case Kdfs::HKDS128:
+			name = std::string("HKDS128");
+			break;
+		case Kdfs::HKDS256:
+			name = std::string("HKDS256");
+			break;
+		case Kdfs::HKDS512:
+			name = std::string("HKDS512");
+			break;
 		case Kdfs::HKDF256:
 			name = std::string("HKDF256");
 			break;
@@ -38,6 +47,15 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::SCBKDF1024:
 			name = std::string("SCBKDF1024");
 			break;
+		case Kdfs::SHAKE128:
+			name = std::string("SHAKE128");
+			break;
+		case Kdfs::SHAKE256:
+			name = std::string("SHAKE256");
+			break;
+		case Kdfs::SHAKE512:
+			name = std::string("SHAKE512");
+			break;
 		default:
 			name = std::string("None");
 			break;
@@ -90,6 +108,30 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::SCBKDF1024;
 	}
+	else if (Name == std::string("HKDS128"))
+	{
+		tname = Kdfs::HKDS128;
+	}
+	else if (Name == std::string("HKDS256"))
+	{
+		tname = Kdfs::HKDS256;
+	}
+	else if (Name == std::string("HKDS512"))
+	{
+		tname = Kdfs::HKDS512;
+	}
+	else if (Name == std::string("SHAKE128"))
+	{
+		tname = Kdfs::SHAKE128;
+	}
+	else if (Name == std::string("SHAKE256"))
+	{
+		tname = Kdfs::SHAKE256;
+	}
+	else if (Name == std::string("SHAKE512"))
+	{
+		tname = Kdfs::SHAKE512;
+	}
 	else
 	{
 		tname = Kdfs::None;
diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..3abc3ef 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -83,6 +83,9 @@ std::string SymmetricCipherConvert::ToName(SymmetricCiphers Enumeral)
 		case SymmetricCiphers::TSX512:
 			name = std::string("TSX512");
 			break;
+		case SymmetricCiphers::TSXR96K512:
+			name = std::string("TSXR96K512");
+			break;
 		case SymmetricCiphers::TSX1024:
 			name = std::string("TSX1024");
 			break;
@@ -101,7 +104,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From 65d973221055f0e3af8166a80e3c2422c85ac0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 38/67] fix: the factories make ECDSA and XMSSMT signers and
 KMAC128

---
 CEX/AsymmetricSignerFromName.cpp | 7 +++++++
 CEX/MacFromName.cpp              | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/CEX/AsymmetricSignerFromName.cpp b/CEX/AsymmetricSignerFromName.cpp
index 4d36bdf..047d590 100644
--- a/CEX/AsymmetricSignerFromName.cpp
+++ b/CEX/AsymmetricSignerFromName.cpp
@@ -1,5 +1,6 @@
 #include "AsymmetricSignerFromName.h"
 #include "Dilithium.h"
+#include "ECDSA.h"
 #include "SphincsPlus.h"
 #include "XMSS.h"
 
@@ -25,12 +26,18 @@ IAsymmetricSigner* AsymmetricSignerFromName::GetInstance(AsymmetricSigners Signe
 				mptr = new DLTM::Dilithium(static_cast<Enumeration::DilithiumParameters>(Parameters)); 
 				break;
 			}
+			case AsymmetricSigners::ECDSA:
+			{
+				mptr = new ECDSA::ECDSA(static_cast<Enumeration::ECDSAParameters>(Parameters));
+				break;
+			}
 			case AsymmetricSigners::SphincsPlus:
 			{
 				mptr = new SPXP::SphincsPlus(static_cast<Enumeration::SphincsPlusParameters>(Parameters)); 
 				break;
 			}
 			case AsymmetricSigners::XMSS:
+			case AsymmetricSigners::XMSSMT:
 			{
 				mptr = new XMSS::XMSS(static_cast<Enumeration::XmssParameters>(Parameters)); 
 				break;
diff --git a/CEX/MacFromName.cpp b/CEX/MacFromName.cpp
index 383561a..cd0a2f7 100644
--- a/CEX/MacFromName.cpp
+++ b/CEX/MacFromName.cpp
@@ -93,6 +93,11 @@ IMac* MacFromName::GetInstance(Macs MacType)
 				mptr = new HMAC(SHA2Digests::SHA2512);
 				break;
 			}
+			case Macs::KMAC128:
+			{
+				mptr = new KMAC(KmacModes::KMAC128);
+				break;
+			}
 			case Macs::KMAC256:
 			{
 				mptr = new KMAC(KmacModes::KMAC256);
-- 
2.43.0


From 72dc381ab176fb01f776cd94f1e8a71b37b20061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 39/67] fix: SphincsPlus goes by its own name and refuses the
 parameters of other schemes

---
 CEX/SphincsPlus.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index 6b72915..7e6ac35 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -38,7 +38,11 @@ public:
 
 SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, Prngs PrngType)
 	:
-	m_sphincsState(new SphincsState(Parameters != SphincsPlusParameters::None ? Parameters :
+	m_sphincsState(new SphincsState(Parameters == SphincsPlusParameters::SPXPS1S128SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS3S192SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS5S256SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS6S512SHAKE ?
+			Parameters :
 		throw CryptoAsymmetricException(AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus), std::string("Constructor"), std::string("The Kyber parameter set is invalid!"), ErrorCodes::InvalidParam),
 		true)),
 	m_privateKey(nullptr),
@@ -50,7 +54,11 @@ SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, Prngs PrngType)
 
 SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, IPrng* Rng)
 	:
-	m_sphincsState(new SphincsState(Parameters != SphincsPlusParameters::None ? Parameters :
+	m_sphincsState(new SphincsState(Parameters == SphincsPlusParameters::SPXPS1S128SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS3S192SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS5S256SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS6S512SHAKE ?
+			Parameters :
 		throw CryptoAsymmetricException(AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus), std::string("Constructor"), std::string("The Kyber parameter set is invalid!"), ErrorCodes::InvalidParam),
 		false)),
 	m_privateKey(nullptr),
@@ -103,7 +111,7 @@ const std::string SphincsPlus::Name()
 {
 	std::string ret;
 
-	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::Dilithium) + std::string("") + 
+	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus) + std::string("") + 
 		SphincsPlusParameterConvert::ToName(m_sphincsState->Parameters);
 
 	return ret;
-- 
2.43.0


From 1cac6c49b1638bccd9f7dfd8483d0d6ebac04d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 40/67] fix: a sequential Blake digest does not report itself
 as parallel

---
 CEX/Blake256.cpp | 3 +++
 CEX/Blake512.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 1c4812d..7280f91 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -58,6 +58,9 @@ Blake256::Blake256(bool Parallel)
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake256), std::string("Constructor"), std::string("This cpu does not support parallel processing!"), ErrorCodes::InvalidParam);
 	}
 
+	// a sequential instance does not report itself as parallel
+	m_parallelProfile.IsParallel() = Parallel;
+
 	Reset();
 }
 
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 9fdb52a..0c16e33 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -60,6 +60,9 @@ Blake512::Blake512(bool Parallel)
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake512), std::string("Constructor"), std::string("This cpu does not support parallel processing!"), ErrorCodes::InvalidParam);
 	}
 
+	// a sequential instance does not report itself as parallel
+	m_parallelProfile.IsParallel() = Parallel;
+
 	Reset();
 }
 
-- 
2.43.0


From ad1141cbc77d7c8c6c0121edbb53aaceea62bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:58 +0000
Subject: [PATCH 41/67] fix: the networking and socket exceptions identify
 themselves

---
 CEX/CryptoNetworkingException.cpp |  2 +-
 CEX/CryptoSocketException.cpp     |  2 +-
 CEX/ExceptionTypes.cpp            | 14 ++++++++++++++
 CEX/ExceptionTypes.h              | 10 +++++++++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/CEX/CryptoNetworkingException.cpp b/CEX/CryptoNetworkingException.cpp
index 26731de..96fe710 100644
--- a/CEX/CryptoNetworkingException.cpp
+++ b/CEX/CryptoNetworkingException.cpp
@@ -10,7 +10,7 @@ CryptoNetworkingException::CryptoNetworkingException(const std::string &Location
 
 const ExceptionTypes CryptoNetworkingException::Enumeral()
 {
-	return ExceptionTypes::CryptoAsymmetricException;
+	return ExceptionTypes::CryptoNetworkingException;
 }
 
 const std::string CryptoNetworkingException::Name()
diff --git a/CEX/CryptoSocketException.cpp b/CEX/CryptoSocketException.cpp
index ad74736..ee427a9 100644
--- a/CEX/CryptoSocketException.cpp
+++ b/CEX/CryptoSocketException.cpp
@@ -10,7 +10,7 @@ CryptoSocketException::CryptoSocketException(const std::string& Location, const
 
 const ExceptionTypes CryptoSocketException::Enumeral()
 {
-	return ExceptionTypes::CryptoAsymmetricException;
+	return ExceptionTypes::CryptoSocketException;
 }
 
 const std::string CryptoSocketException::Name()
diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index c925318..9fd86eb 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -47,6 +47,12 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoSymmetricException:
 		name = std::string("CryptoSymmetricException");
 		break;
+	case ExceptionTypes::CryptoNetworkingException:
+		name = std::string("CryptoNetworkingException");
+		break;
+	case ExceptionTypes::CryptoSocketException:
+		name = std::string("CryptoSocketException");
+		break;
 	default:
 		name = std::string("None");
 		break;
@@ -111,6 +117,14 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoSymmetricException;
 	}
+	else if (Name == std::string("CryptoNetworkingException"))
+	{
+		tname = ExceptionTypes::CryptoNetworkingException;
+	}
+	else if (Name == std::string("CryptoSocketException"))
+	{
+		tname = ExceptionTypes::CryptoSocketException;
+	}
 	else
 	{
 		tname = ExceptionTypes::None;
diff --git a/CEX/ExceptionTypes.h b/CEX/ExceptionTypes.h
index 9d54546..8a8fb69 100644
--- a/CEX/ExceptionTypes.h
+++ b/CEX/ExceptionTypes.h
@@ -65,7 +65,15 @@ enum class ExceptionTypes : uint8_t
 	/// <summary>
 	/// Symmetric cipher operationas exception
 	/// </summary>
-	CryptoSymmetricException = 13
+	CryptoSymmetricException = 13,
+	/// <summary>
+	/// Cryptographic networking exception
+	/// </summary>
+	CryptoNetworkingException = 14,
+	/// <summary>
+	/// Cryptographic socket exception
+	/// </summary>
+	CryptoSocketException = 15
 };
 
 class ExceptionTypeConvert
-- 
2.43.0


From 1b0b711f741d5ffca77f84e3b3079d42c211db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 42/67] fix: a prng whose provider fails during Reset does not
 leak the provider

---
 CEX/BCR.cpp | 3 +--
 CEX/CSR.cpp | 3 +--
 CEX/HCR.cpp | 5 ++---
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 6340bb3..4b0073c 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -113,7 +113,7 @@ void BCR::Reset()
 	std::vector<uint8_t> nonce(ks.IVSize());
 
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_bcrState->ProviderType);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_bcrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -123,7 +123,6 @@ void BCR::Reset()
 	// use the provider to generate the key
 	pvd->Generate(key);
 	pvd->Generate(nonce);
-	delete pvd;
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key, nonce);
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index cf8a6ac..00167d9 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -110,7 +110,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 void CSR::Reset()
 {
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_csrState->ProviderType);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_csrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -123,7 +123,6 @@ void CSR::Reset()
 	std::vector<uint8_t> cust(ks.IVSize());
 	pvd->Generate(key);
 	pvd->Generate(cust);
-	delete pvd;
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key, cust);
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 3d912b1..f6cc40c 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -113,9 +113,9 @@ void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 void HCR::Reset()
 {
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_hcrState->ProviderType == Providers::None ? 
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_hcrState->ProviderType == Providers::None ? 
 		Providers::CSP : 
-		m_hcrState->ProviderType);
+		m_hcrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -126,7 +126,6 @@ void HCR::Reset()
 	Cipher::SymmetricKeySize ks = m_rngGenerator->LegalKeySizes()[1];
 	std::vector<uint8_t> key(ks.KeySize());
 	pvd->Generate(key);
-	delete pvd;
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key);
-- 
2.43.0


From 758ef7c7c769a675baa0a01a46f9a5744eac799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:12 +0000
Subject: [PATCH 43/67] fix: CryptoGeneratorException has the Name it declares

---
 CEX/CryptoGeneratorException.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/CryptoGeneratorException.cpp b/CEX/CryptoGeneratorException.cpp
index 2ea179b..bebe54a 100644
--- a/CEX/CryptoGeneratorException.cpp
+++ b/CEX/CryptoGeneratorException.cpp
@@ -13,4 +13,9 @@ const ExceptionTypes CryptoGeneratorException::Enumeral()
 	return ExceptionTypes::CryptoGeneratorException;
 }
 
+const std::string CryptoGeneratorException::Name()
+{
+	return Enumeration::ExceptionTypeConvert::ToName(Enumeral());
+}
+
 NAMESPACE_EXCEPTIONEND
-- 
2.43.0


From 0ef62e5c53b0ea6fb0e4e2c2818fe97d48769ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 44/67] fix: move assignment of an internet address takes every
 octet from its own place

---
 CEX/InternetAddress.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/CEX/InternetAddress.h b/CEX/InternetAddress.h
index a75b756..97f8db4 100644
--- a/CEX/InternetAddress.h
+++ b/CEX/InternetAddress.h
@@ -131,9 +131,9 @@ typedef struct ipv4_address
 	ipv4_address& operator=(ipv4_address&& Source) noexcept
 	{
 		std::swap(a1, Source.a1);
-		std::swap(a2, Source.a1);
-		std::swap(a3, Source.a1);
-		std::swap(a4, Source.a1);
+		std::swap(a2, Source.a2);
+		std::swap(a3, Source.a3);
+		std::swap(a4, Source.a4);
 
 		return *this;
 	}
@@ -513,21 +513,21 @@ typedef struct ipv6_address
 	ipv6_address& operator=(ipv6_address&& Source) noexcept
 	{
 		std::swap(a1, Source.a1);
-		std::swap(a2, Source.a1);
-		std::swap(a3, Source.a1);
-		std::swap(a4, Source.a1);
-		std::swap(a5, Source.a1);
-		std::swap(a6, Source.a1);
-		std::swap(a7, Source.a1);
-		std::swap(a8, Source.a1);
-		std::swap(a9, Source.a1);
-		std::swap(a10, Source.a1);
-		std::swap(a11, Source.a1);
-		std::swap(a12, Source.a1);
-		std::swap(a13, Source.a1);
-		std::swap(a14, Source.a1);
-		std::swap(a15, Source.a1);
-		std::swap(a16, Source.a1);
+		std::swap(a2, Source.a2);
+		std::swap(a3, Source.a3);
+		std::swap(a4, Source.a4);
+		std::swap(a5, Source.a5);
+		std::swap(a6, Source.a6);
+		std::swap(a7, Source.a7);
+		std::swap(a8, Source.a8);
+		std::swap(a9, Source.a9);
+		std::swap(a10, Source.a10);
+		std::swap(a11, Source.a11);
+		std::swap(a12, Source.a12);
+		std::swap(a13, Source.a13);
+		std::swap(a14, Source.a14);
+		std::swap(a15, Source.a15);
+		std::swap(a16, Source.a16);
 
 		return *this;
 	}
-- 
2.43.0


From 7be14e694d0eac08dc59a7fe54700b29e05cea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 45/67] fix: every IPv6 address has a text that reads back as
 itself, and groups need no leading zeros

---
 CEX/InternetAddress.h | 72 ++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/CEX/InternetAddress.h b/CEX/InternetAddress.h
index 97f8db4..08f697f 100644
--- a/CEX/InternetAddress.h
+++ b/CEX/InternetAddress.h
@@ -627,17 +627,16 @@ typedef struct ipv6_address
 	/// <returns>The IPv6 address structure</returns>
 	static ipv6_address FromString(const std::string &Address)
 	{
-		const std::string DELIM = std::string(":");
 		const std::string DEMRK = std::string("::");
 		const std::string LPBK = std::string("::1");
 		const std::string DZONE = std::string("%");
 		ipv6_address add;
 		std::vector<uint8_t> tmpa(16);
+		std::vector<uint8_t> tmps;
 		std::string sadd;
 		std::string str1;
 		std::string str2;
 		size_t i;
-		size_t j;
 		size_t pos;
 
 		pos = Address.find(DZONE);
@@ -660,18 +659,18 @@ typedef struct ipv6_address
 				str1 = sadd.substr(0, pos);
 				str2 = sadd.substr(pos + 2);
 
-				str1.erase(remove(str1.begin(), str1.end(), ':'), str1.end());
-				str2.erase(remove(str2.begin(), str2.end(), ':'), str2.end());
-				pos = tmpa.size() - (str2.size() / 2);
+				tmps = ParseGroups(str1);
 
-				for (i = 0, j = 0; i < str1.size(); i += 2, ++j)
+				for (i = 0; i < tmps.size() && i < tmpa.size(); ++i)
 				{
-					tmpa[j] = IntegerTools::HexToInt<uint8_t>(str1, i);
+					tmpa[i] = tmps[i];
 				}
 
-				for (i = 0, j = pos; i < str2.size(); i += 2, ++j)
+				tmps = ParseGroups(str2);
+
+				for (i = 0; i < tmps.size() && i < tmpa.size(); ++i)
 				{
-					tmpa[j] = IntegerTools::HexToInt<uint8_t>(str2, i);
+					tmpa[tmpa.size() - 1 - i] = tmps[tmps.size() - 1 - i];
 				}
 			}
 			else
@@ -681,12 +680,11 @@ typedef struct ipv6_address
 		}
 		else
 		{
-			str1 = sadd;
-			str1.erase(remove(str1.begin(), str1.end(), ':'), str1.end());
+			tmps = ParseGroups(sadd);
 
-			for (i = 0; i < str1.size(); i += 2)
+			for (i = 0; i < tmps.size() && i < tmpa.size(); ++i)
 			{
-				tmpa[i] = IntegerTools::HexToInt<uint8_t>(str1, i);
+				tmpa[i] = tmps[i];
 			}
 		}
 
@@ -751,32 +749,62 @@ typedef struct ipv6_address
 		std::vector<uint8_t> tmpa;
 		std::string tmps;
 		size_t i;
+		size_t j;
 
 		tmpa = ToVector(Address);
 
-		for (i = 1; i < 16; i += 2)
+		// find the first run of empty groups; only one run can be left out
+		for (i = 0; i < 16 && !(tmpa[i] == 0 && tmpa[i + 1] == 0); i += 2)
+		{
+		}
+
+		for (j = i; j < 16 && tmpa[j] == 0 && tmpa[j + 1] == 0; j += 2)
 		{
-			if (tmpa[i - 1] == 0 && tmpa[i] == 0)
+		}
+
+		for (size_t k = 0; k < 16; k += 2)
+		{
+			if (k == i)
 			{
-				if (tmps.size() > 2 && tmps.substr(tmps.size() - 2, 2) != DEMRK)
-				{
-					tmps += DELIM;
-				}
+				tmps += DEMRK;
+				k = j - 2;
 			}
 			else
 			{
-				tmps += IntegerTools::IntToHex(tmpa[i - 1]) + IntegerTools::IntToHex(tmpa[i]);
-
-				if (i < 14)
+				if (k != 0 && k != j)
 				{
 					tmps += DELIM;
 				}
+
+				tmps += IntegerTools::IntToHex(tmpa[k]) + IntegerTools::IntToHex(tmpa[k + 1]);
 			}
 		}
 
 		return tmps;
 	}
 
+private:
+
+	static std::vector<uint8_t> ParseGroups(const std::string &Groups)
+	{
+		std::vector<uint8_t> tmpa(0);
+		size_t len;
+		size_t pos;
+
+		for (pos = 0; pos < Groups.size(); pos += len + 1)
+		{
+			len = Groups.find(':', pos);
+			len = (len == std::string::npos ? Groups.size() : len) - pos;
+
+			const uint16_t GROUP = static_cast<uint16_t>(strtoul(Groups.substr(pos, len).c_str(), NULL, 16));
+
+			tmpa.push_back(static_cast<uint8_t>(GROUP >> 8));
+			tmpa.push_back(static_cast<uint8_t>(GROUP));
+		}
+
+		return tmpa;
+	}
+
 } ipv6_address;
 
 NAMESPACE_ROOTEND
-- 
2.43.0


From 1fe340f922f1de8035507e5a849229c5f83b1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 46/67] fix: a socket is bound to the address that was asked
 for, not to every interface

---
 CEX/SocketBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 2ff2977..d5fc2bc 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -81,6 +81,7 @@ bool SocketBase::Bind(Socket &Source, const ipv4_address &Address, uint16_t Port
 #endif
 	sa.sin_family = AF_INET;
 	sa.sin_port = htons(static_cast<uint16_t>(Port));
+	inet_pton(AF_INET, ipv4_address::ToString(Address).c_str(), &(sa.sin_addr));
 	res = bind(Source.Connection, reinterpret_cast<const sockaddr*>(&sa), sizeof(sa));
 	Source.Address = Address.ToString(Address);
 	Source.AddressFamily = SocketAddressFamilies::IPv4;
@@ -100,6 +101,7 @@ bool SocketBase::Bind(Socket &Source, const ipv6_address &Address, uint16_t Port
 #endif
 	sa.sin6_family = AF_INET6;
 	sa.sin6_port = htons(static_cast<uint16_t>(Port));
+	inet_pton(AF_INET6, ipv6_address::ToString(Address).c_str(), &(sa.sin6_addr));
 	res = bind(Source.Connection, reinterpret_cast<const sockaddr*>(&sa), sizeof(sa));
 	Source.Address = Address.ToString(Address);
 	Source.AddressFamily = SocketAddressFamilies::IPv6;
-- 
2.43.0


From a69928d2fde8405eefa7902b40d6e8d070f92334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 47/67] fix: a socket sends the bytes it was given and not the
 one behind them

---
 CEX/SocketBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index d5fc2bc..e3cf3a1 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -250,7 +250,7 @@ uint32_t SocketBase::Send(Socket &Source, const std::vector<uint8_t> &Input, siz
 	int32_t res;
 
 
-	res = send(Source.Connection, reinterpret_cast<const char*>(Input.data()), static_cast<int32_t>(Length) + 1, static_cast<int32_t>(Flags));
+	res = send(Source.Connection, reinterpret_cast<const char*>(Input.data()), static_cast<int32_t>(Length), static_cast<int32_t>(Flags));
 
 	if (res == SOCKET_RET_ERROR)
 	{
-- 
2.43.0


From 8f192ea0eb52820486e3ef724b402757f16f4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 48/67] fix: asking whether a socket is connected does not wait
 for data

---
 CEX/SocketBase.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index e3cf3a1..3790654 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -27,19 +27,21 @@ bool SocketBase::IsBlocking(Socket &Source)
 
 bool SocketBase::IsConnected(Socket &Source)
 {
-	int32_t err;
+	const timeval NOWAIT = { 0, 0 };
+	sockaddr_storage sa;
+	socklen_t salen;
 	char buf;
 	bool ret;
 
-	ret = true;
-
-	err = recv(Source.Connection, &buf, 1, MSG_PEEK);
+	salen = sizeof(sa);
+	ret = (getpeername(Source.Connection, reinterpret_cast<sockaddr*>(&sa), &salen) != SOCKET_RET_ERROR);
 
-	if (err == SOCKET_RET_ERROR)
+	// a connection without data waiting is idle; peeking at it would block
+	if (ret == true && ReceiveReady(Source, &NOWAIT) == true)
 	{
-		if (GetLastError() != SocketExceptions::SocketWouldBlock)
+		if (recv(Source.Connection, &buf, 1, MSG_PEEK) == SOCKET_RET_ERROR)
 		{
-			ret = false;
+			ret = (GetLastError() == SocketExceptions::SocketWouldBlock);
 		}
 	}
 
-- 
2.43.0


From 69bd16b6a90dde0a2bf2a0b14d8a840f09e9a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 49/67] fix: a host and service resolve to their address and
 port

---
 CEX/NetworkTools.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index fc9f02b..ca4b5c1 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -118,11 +118,12 @@ ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &
 	if (res == 0)
 	{
 		char ipstr[INET_ADDRSTRLEN] = { 0 };
+		std::memcpy(&sa, result->ai_addr, sizeof(sa));
+		inet_ntop(AF_INET, &sa.sin_addr, ipstr, INET_ADDRSTRLEN);
 		sai.assign(ipstr);
-		inet_ntop(AF_INET, &sa.sin_addr, ipstr, INET_ADDRSTRLEN); // fix and test this
 		ipv4_address ipa = ipv4_address::FromString(sai);
 		info.address = ipa;
-		info.port = (uint16_t)ntohs(((struct sockaddr_in*)result->ai_addr)->sin_port);
+		info.port = static_cast<uint16_t>(ntohs(sa.sin_port));
 
 		if (result != NULL)
 		{
@@ -190,6 +191,7 @@ ipv6_info NetworkTools::GetIPv6Info(const std::string &Host, const std::string &
 			if (p->ai_family == AF_INET6)
 			{
 				struct sockaddr_in6 *ipv6 = reinterpret_cast<struct sockaddr_in6*>(p->ai_addr);
+				sa.sin6_port = ipv6->sin6_port;
 				addr = &(ipv6->sin6_addr);
 				inet_ntop(p->ai_family, addr, reinterpret_cast<PSTR>(ipstr), sizeof(ipstr));
 				break;
-- 
2.43.0


From 914b3887bf60a3edd3436ba3a3a9094abfe750a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 50/67] fix: the names of a socket and its peer are their
 addresses

---
 CEX/NetworkTools.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index ca4b5c1..d84c484 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -338,28 +338,32 @@ std::string NetworkTools::GetPeerName(Socket &Source)
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
-	sockaddr psa;
+	sockaddr_storage psa;
+	char astr[INET6_ADDRSTRLEN] = { 0 };
 	socklen_t psalen;
 	std::string name("");
-	size_t slen;
 	int32_t res;
 
-	psalen = 0;
+	psalen = sizeof(psa);
 
-	res = getpeername(Source.Connection, &psa, &psalen);
+	res = getpeername(Source.Connection, reinterpret_cast<sockaddr*>(&psa), &psalen);
 
 	if (res == SOCKET_RET_ERROR)
 	{
 		throw CryptoSocketException(std::string("Socket"), std::string("GetPeerName"), std::string("The socket address is invalid!"), ErrorCodes::SocketFailure);
 	}
 
-	slen = static_cast<size_t>(psalen);
-
-	if (slen != 0)
+	if (psa.ss_family == AF_INET6)
+	{
+		inet_ntop(AF_INET6, &(reinterpret_cast<sockaddr_in6*>(&psa)->sin6_addr), astr, INET6_ADDRSTRLEN);
+	}
+	else
 	{
-		name = reinterpret_cast<char*>(psa.sa_data);
+		inet_ntop(AF_INET, &(reinterpret_cast<sockaddr_in*>(&psa)->sin_addr), astr, INET6_ADDRSTRLEN);
 	}
 
+	name.assign(astr);
+
 	return name;
 }
 
@@ -367,28 +371,32 @@ std::string NetworkTools::GetSocketName(Socket &Source)
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
-	sockaddr psa;
+	sockaddr_storage psa;
+	char astr[INET6_ADDRSTRLEN] = { 0 };
 	socklen_t psalen;
 	std::string name;
-	size_t slen;
 	int32_t res;
 
-	psalen = 0;
+	psalen = sizeof(psa);
 
-	res = getsockname(Source.Connection, &psa, &psalen);
+	res = getsockname(Source.Connection, reinterpret_cast<sockaddr*>(&psa), &psalen);
 
 	if (res == SOCKET_RET_ERROR)
 	{
 		throw CryptoSocketException(std::string("Socket"), std::string("GetSocketName"), std::string("The socket address is invalid!"), ErrorCodes::SocketFailure);
 	}
 
-	slen = static_cast<size_t>(psalen);
-
-	if (slen != 0)
+	if (psa.ss_family == AF_INET6)
+	{
+		inet_ntop(AF_INET6, &(reinterpret_cast<sockaddr_in6*>(&psa)->sin6_addr), astr, INET6_ADDRSTRLEN);
+	}
+	else
 	{
-		name = reinterpret_cast<char*>(psa.sa_data);
+		inet_ntop(AF_INET, &(reinterpret_cast<sockaddr_in*>(&psa)->sin_addr), astr, INET6_ADDRSTRLEN);
 	}
 
+	name.assign(astr);
+
 	return name;
 }
 
-- 
2.43.0


From 05e9d4b2c1219810f1dbb47a8d536749476819c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 51/67] fix: a cleared socket has no descriptor, rather than
 the first one

---
 CEX/Socket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/Socket.cpp b/CEX/Socket.cpp
index f595aec..bf7cdcc 100644
--- a/CEX/Socket.cpp
+++ b/CEX/Socket.cpp
@@ -69,7 +69,7 @@ Socket::~Socket()
 
 void Socket::Clear()
 {
-	Connection = 0;
+	Connection = UNINITIALIZED_SOCKET;
 	Address.clear();
 	InstanceCount = 0;
 	Port = 0;
-- 
2.43.0


From 47544145283aba437003bcbeebc8b602c3d3e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 52/67] fix: a connection by host name is announced once

---
 CEX/SocketClient.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/CEX/SocketClient.cpp b/CEX/SocketClient.cpp
index 2ea8e2a..70df399 100644
--- a/CEX/SocketClient.cpp
+++ b/CEX/SocketClient.cpp
@@ -76,21 +76,11 @@ bool SocketClient::Connect(const std::string &Host, std::string &Service)
 	{
 		ipv4_info info = NetworkTools::GetIPv4Info(Host, Service);
 		ret = Connect(info.address, info.port);
-
-		if (ret == true)
-		{
-			OnSocketConnected(1, ipv4_address::ToString(info.address));
-		}
 	}
 	else
 	{
 		ipv6_info info = NetworkTools::GetIPv6Info(Host, Service);
 		ret = Connect(info.address, info.port);
-
-		if (ret == true)
-		{
-			OnSocketConnected(1, ipv6_address::ToString(info.address));
-		}
 	}
 
 	return ret;
-- 
2.43.0


From 633e428722f6eb47a29829823a87091831115056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 53/67] fix: a client sends in band by default

---
 CEX/SocketClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SocketClient.h b/CEX/SocketClient.h
index c53d418..76e5694 100644
--- a/CEX/SocketClient.h
+++ b/CEX/SocketClient.h
@@ -197,7 +197,7 @@ public:
 	/// <returns>The number of bytes sent to the remote host</returns>
 	///
 	/// <remarks>Successful send operation raises the SocketChanged event with the SocketEvents::Sent flag</remarks>
-	uint32_t Send(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags = SocketSendFlags::SendOOB);
+	uint32_t Send(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags = SocketSendFlags::None);
 
 	/// <summary>
 	/// Non-blocking transmission of data to the remote host
-- 
2.43.0


From 95a22c06a0d86af7c6d71a42822aed01c7e7113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:32 +0000
Subject: [PATCH 54/67] fix: a refused client connection gives its descriptor
 back

---
 CEX/SocketClient.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/CEX/SocketClient.cpp b/CEX/SocketClient.cpp
index 70df399..0e5a20c 100644
--- a/CEX/SocketClient.cpp
+++ b/CEX/SocketClient.cpp
@@ -105,7 +105,10 @@ bool SocketClient::Connect(const ipv4_address &Address, uint16_t Port)
 	}
 	else
 	{
-		OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused"));
+		const SocketExceptions ERRCDE = SocketBase::GetLastError();
+
+		SocketBase::ShutDown(m_baseSocket, SocketShutdownFlags::Both);
+		OnSocketError(ERRCDE, std::string("The connection was refused"));
 	}
 
 	return ret;
@@ -130,7 +133,10 @@ bool SocketClient::Connect(const ipv6_address &Address, uint16_t Port)
 	}
 	else
 	{
-		OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused"));
+		const SocketExceptions ERRCDE = SocketBase::GetLastError();
+
+		SocketBase::ShutDown(m_baseSocket, SocketShutdownFlags::Both);
+		OnSocketError(ERRCDE, std::string("The connection was refused"));
 	}
 
 	return ret;
-- 
2.43.0


From 24a46951e4f02b16e700c18289c781aed5fa89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 55/67] fix: a socket server visits every pooled socket and
 releases its listener once

---
 CEX/SocketServer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CEX/SocketServer.cpp b/CEX/SocketServer.cpp
index 3d5dc51..affc5ee 100644
--- a/CEX/SocketServer.cpp
+++ b/CEX/SocketServer.cpp
@@ -55,7 +55,6 @@ public:
 					Socket* s = SocketPool[i];
 					SocketBase::CloseSocket(*s);
 					delete s;
-					SocketPool.erase(SocketPool.begin() + i);
 				}
 			}
 
@@ -300,15 +299,16 @@ void SocketServer::ListenStop()
 				SocketBase::ShutDown(*sk, SocketShutdownFlags::Both);
 			}
 
-			m_socketServerState->SocketPool.erase(m_socketServerState->SocketPool.begin() + i);
-
 			delete sk;
 		}
 	}
 
+	m_socketServerState->SocketPool.clear();
+
 	if (m_ayncListener != nullptr)
 	{
 		delete m_ayncListener;
+		m_ayncListener = nullptr;
 	}
 }
 
@@ -417,7 +417,7 @@ uint32_t SocketServer::PollSockets()
 
 	ret = 0;
 
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
+	for (i = 0; i < m_socketServerState->SocketPool.size();)
 	{
 		Socket* sk = m_socketServerState->SocketPool[i];
 
@@ -427,6 +427,10 @@ uint32_t SocketServer::PollSockets()
 			delete sk;
 			++ret;
 		}
+		else
+		{
+			++i;
+		}
 	}
 
 	return ret;
-- 
2.43.0


From a4bb0d5121cb6385148964145b2acff50a7fa21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 56/67] fix: a server that can not listen gives its descriptor
 back

---
 CEX/SocketServer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CEX/SocketServer.cpp b/CEX/SocketServer.cpp
index affc5ee..c4361f7 100644
--- a/CEX/SocketServer.cpp
+++ b/CEX/SocketServer.cpp
@@ -142,6 +142,7 @@ Socket SocketServer::Listen(const ipv4_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -152,6 +153,7 @@ Socket SocketServer::Listen(const ipv4_address &Address, uint16_t Port)
 	}
 	else
 	{
+		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket failed to enter the listening state!"), ErrorCodes::SocketFailure);
 	}
 
@@ -184,6 +186,7 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -194,6 +197,7 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 	}
 	else
 	{
+		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket failed to enter the listening state!"), ErrorCodes::SocketFailure);
 	}
 
@@ -227,6 +231,7 @@ void SocketServer::ListenAsync(const ipv4_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -263,6 +268,7 @@ void SocketServer::ListenAsync(const ipv6_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
-- 
2.43.0


From 65a1beb366a43e203caa87f475a6bc5817fd5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:55 +0000
Subject: [PATCH 57/67] fix: a server that was shut down is not listening

---
 CEX/SocketServer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/SocketServer.cpp b/CEX/SocketServer.cpp
index c4361f7..bc634ad 100644
--- a/CEX/SocketServer.cpp
+++ b/CEX/SocketServer.cpp
@@ -357,6 +357,7 @@ void SocketServer::ShutDown()
 	}
 
 	m_socketServerState->BaseSocket.Clear();
+	m_socketServerState->IsListening = false;
 }
 
 //~~~Private Functions~~~//
-- 
2.43.0


From debb535862ae6c988555491fc507162a8eb9121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:49 +0000
Subject: [PATCH 58/67] fix: the address of a resolved host is not made from a
 null pointer

---
 CEX/NetworkTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index d84c484..6879288 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -92,7 +92,7 @@ ipv6_address NetworkTools::GetIPv6Address()
 
 ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &Service)
 {
-	ipv4_info info = { 0 };
+	ipv4_info info;
 	sockaddr_in sa;
 	std::string sai;
 	int32_t res;
-- 
2.43.0


From 9031b4a6bd31ea1385d73cfb8a3930af564e0024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 59/67] fix: an event can be assigned to itself, and two events
 to each other, without waiting for ever

---
 CEX/EventHandler.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/CEX/EventHandler.h b/CEX/EventHandler.h
index 52cb276..794f6b8 100644
--- a/CEX/EventHandler.h
+++ b/CEX/EventHandler.h
@@ -120,10 +120,14 @@ public:
 	// copy assignment operator
 	event& operator=(const event& src)
 	{
-		std::lock_guard<std::mutex> lock(m_handlersLocker);
-		std::lock_guard<std::mutex> lock2(src.m_handlersLocker);
+		if (this != &src)
+		{
+			// the two locks are never held together, so two events can be assigned to each other
+			handler_collection_type handlersCopy = src.get_handlers_copy();
+			std::lock_guard<std::mutex> lock(m_handlersLocker);
 
-		m_handlers = src.m_handlers;
+			m_handlers = std::move(handlersCopy);
+		}
 
 		return *this;
 	}
@@ -131,10 +135,14 @@ public:
 	// move assignment operator
 	event& operator=(event&& src)
 	{
-		std::lock_guard<std::mutex> lock(m_handlersLocker);
-		std::lock_guard<std::mutex> lock2(src.m_handlersLocker);
+		if (this != &src)
+		{
+			std::lock(m_handlersLocker, src.m_handlersLocker);
+			std::lock_guard<std::mutex> lock(m_handlersLocker, std::adopt_lock);
+			std::lock_guard<std::mutex> lock2(src.m_handlersLocker, std::adopt_lock);
 
-		std::swap(m_handlers, src.m_handlers);
+			std::swap(m_handlers, src.m_handlers);
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 441ef6441e6be7c6224d4c4943cb5935b073de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:28 +0000
Subject: [PATCH 60/67] fix: without AVX, OR128 is an or, and the 128-bit and,
 or and xor serve elements of different widths

---
 CEX/MemoryTools.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index f62b82d..1fbee68 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -229,9 +229,13 @@ public:
 #if defined(CEX_HAS_AVX)
 		_mm_storeu_si128(reinterpret_cast<__m128i*>(&Output[OutOffset]), _mm_and_si128(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&Input[InOffset])), _mm_loadu_si128(reinterpret_cast<__m128i*>(&Output[OutOffset]))));
 #else
-		for (size_t i = 0; i < (16 / OTPLEN); ++i)
+		// the arrays may have elements of different widths
+		const uint8_t* pinp = reinterpret_cast<const uint8_t*>(&Input[InOffset]);
+		uint8_t* potp = reinterpret_cast<uint8_t*>(&Output[OutOffset]);
+
+		for (size_t i = 0; i < 16; ++i)
 		{
-			Output[OutOffset + i] &= Input[InOffset + i];
+			potp[i] &= pinp[i];
 		}
 #endif
 	}
@@ -1174,9 +1178,13 @@ public:
 #if defined(CEX_HAS_AVX)
 		_mm_storeu_si128(reinterpret_cast<__m128i*>(&Output[OutOffset]), _mm_or_si128(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&Input[InOffset])), _mm_loadu_si128(reinterpret_cast<__m128i*>(&Output[OutOffset]))));
 #else
-		for (size_t i = 0; i < (16 / OTPLEN); ++i)
+		// the arrays may have elements of different widths
+		const uint8_t* pinp = reinterpret_cast<const uint8_t*>(&Input[InOffset]);
+		uint8_t* potp = reinterpret_cast<uint8_t*>(&Output[OutOffset]);
+
+		for (size_t i = 0; i < 16; ++i)
 		{
-			Output[OutOffset + i] &= Input[InOffset + i];
+			potp[i] |= pinp[i];
 		}
 #endif
 	}
@@ -1480,9 +1488,13 @@ public:
 #if defined(CEX_HAS_AVX)
 		_mm_storeu_si128(reinterpret_cast<__m128i*>(&Output[OutOffset]), _mm_xor_si128(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&Input[InOffset])), _mm_loadu_si128(reinterpret_cast<__m128i*>(&Output[OutOffset]))));
 #else
-		for (size_t i = 0; i < (16 / OTPLEN); ++i)
+		// the arrays may have elements of different widths
+		const uint8_t* pinp = reinterpret_cast<const uint8_t*>(&Input[InOffset]);
+		uint8_t* potp = reinterpret_cast<uint8_t*>(&Output[OutOffset]);
+
+		for (size_t i = 0; i < 16; ++i)
 		{
-			Output[OutOffset + i] ^= Input[InOffset + i];
+			potp[i] ^= pinp[i];
 		}
 #endif
 	}
-- 
2.43.0


From ac55648d352ec75ceeea7e863991a196bb2a52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:45 +0000
Subject: [PATCH 61/67] fix: with OpenMP, ParallelFor runs every task and
 passes exceptions on

---
 CEX/ParallelTools.cpp | 52 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/CEX/ParallelTools.cpp b/CEX/ParallelTools.cpp
index 7babd1c..7252dcf 100644
--- a/CEX/ParallelTools.cpp
+++ b/CEX/ParallelTools.cpp
@@ -2,6 +2,7 @@
 
 #if defined(CEX_HAS_OPENMP)
 #	include <omp.h>
+#	include <exception>
 #else
 #	include <future>
 #endif
@@ -20,10 +21,36 @@ size_t ParallelTools::ProcessorCount()
 void ParallelTools::ParallelFor(size_t From, size_t To, const std::function<void(size_t)> &F)
 {
 #if defined(CEX_HAS_OPENMP)
-#	pragma omp parallel num_threads(static_cast<int32_t>(To))
+	// one task for each index, however many threads are granted; an exception may not leave the parallel region
+	const int64_t TSKCNT = (To > From) ? static_cast<int64_t>(To - From) : 0;
+	std::exception_ptr err = nullptr;
+	int64_t i;
+
+	if (TSKCNT == 0)
+	{
+		return;
+	}
+
+#	pragma omp parallel for schedule(static, 1) num_threads(static_cast<int32_t>(TSKCNT))
+	for (i = 0; i < TSKCNT; ++i)
+	{
+		try
+		{
+			F(From + static_cast<size_t>(i));
+		}
+		catch (...)
+		{
+#			pragma omp critical
+			{
+				err = std::current_exception();
+			}
+		}
+	}
+
+	// pass on an exception thrown by a task
+	if (err != nullptr)
 	{
-		size_t i = From + static_cast<size_t>(omp_get_thread_num());
-		F(i);
+		std::rethrow_exception(err);
 	}
 #else
 	std::vector<std::future<void>> futures;
@@ -55,13 +82,28 @@ void ParallelTools::ParallelFor(size_t From, size_t To, const std::function<void
 void ParallelTools::ParallelTask(const std::function<void()> &F)
 {
 #if defined(CEX_HAS_OPENMP)
+	std::exception_ptr err = nullptr;
+
 #	pragma omp parallel
 	{
-#		pragma omp single nowait
+#		pragma omp single
 		{
-			F();
+			try
+			{
+				F();
+			}
+			catch (...)
+			{
+				err = std::current_exception();
+			}
 		}
 	}
+
+	// pass on an exception thrown by the task
+	if (err != nullptr)
+	{
+		std::rethrow_exception(err);
+	}
 #else
 	std::future<void> fut = std::async(std::launch::async, [F]()
 	{
-- 
2.43.0


From 8196e7375d214d5eb6e2240f7eb93f7b29a65c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:02 +0000
Subject: [PATCH 62/67] fix: tree hash parameters read no array past its end,
 compare by value and serialise in every state

---
 CEX/BlakeParams.cpp  | 15 +++++++++++----
 CEX/BlakeParams.h    |  8 ++++++--
 CEX/KeccakParams.cpp | 18 +++++++++++++-----
 CEX/SHA2Params.cpp   | 15 ++++++++++-----
 CEX/SkeinParams.cpp  | 31 +++++++++++++++++++++++--------
 5 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 67ab6d7..d020013 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -64,6 +64,13 @@ BlakeParams::BlakeParams(const std::vector<uint8_t> &TreeArray)
 	}
 
 	std::memcpy(&m_outputSize, &TreeArray[0], 1);
+
+	// the size of the structure follows from the output size
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	std::memcpy(&m_keyLen, &TreeArray[1], 1);
 	std::memcpy(&m_fanOut, &TreeArray[2], 1);
 	std::memcpy(&m_maxDepth, &TreeArray[3], 1);
@@ -164,7 +171,7 @@ BlakeParams* BlakeParams::DeepCopy()
 
 bool BlakeParams::Equals(BlakeParams &Input)
 {
-	return (GetHashCode() == Input.GetHashCode());
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t BlakeParams::GetHashCode()
@@ -190,7 +197,7 @@ int32_t BlakeParams::GetHashCode()
 
 size_t BlakeParams::GetHeaderSize()
 {
-	return m_outputSize;
+	return (m_outputSize == 32) ? 32 : 64;
 }
 
 void BlakeParams::Reset()
@@ -204,7 +211,7 @@ void BlakeParams::Reset()
 	m_nodeDepth = 0;
 	m_nodeOffset = 0;
 	m_reserved = 0;
-	std::memset(&m_dstCode[0], 0, m_dstCode.size());
+	std::memset(m_dstCode.data(), 0, m_dstCode.size());
 }
 
 std::vector<uint8_t> BlakeParams::ToBytes()
@@ -220,7 +227,7 @@ std::vector<uint8_t> BlakeParams::ToBytes()
 	std::memcpy(&trs[9], &m_nodeDepth, 1);
 	std::memcpy(&trs[10], &m_innerLen, 1);
 	std::memcpy(&trs[11], &m_reserved, 1);
-	std::memcpy(&trs[12], &m_dstCode[0], m_dstCode.size());
+	std::copy_n(m_dstCode.begin(), IntegerTools::Min(m_dstCode.size(), DistributionCodeMax()), trs.begin() + 12);
 
 	return trs;
 }
diff --git a/CEX/BlakeParams.h b/CEX/BlakeParams.h
index 2767448..079bc32 100644
--- a/CEX/BlakeParams.h
+++ b/CEX/BlakeParams.h
@@ -182,6 +182,10 @@ public:
 	template <class T>
 	void GetConfig(std::vector<T> &Config)
 	{
+		// the accessor can change the size of the code
+		std::vector<uint8_t> code(m_dstCode);
+		code.resize(DistributionCodeMax());
+
 		if (sizeof(T) == sizeof(uint64_t))
 		{
 			Config[0] = m_outputSize;
@@ -196,7 +200,7 @@ public:
 
 			for (size_t i = 3; i < Config.size(); ++i)
 			{
-				Config[i] |= IntegerTools::LeBytesTo64(m_dstCode, (i - 3) * sizeof(uint64_t));
+				Config[i] |= IntegerTools::LeBytesTo64(code, (i - 3) * sizeof(uint64_t));
 			}
 		}
 		else
@@ -213,7 +217,7 @@ public:
 
 			for (size_t i = 5; i < Config.size(); ++i)
 			{
-				Config[i] |= IntegerTools::LeBytesTo32(m_dstCode, (i - 5) * sizeof(uint32_t));
+				Config[i] |= IntegerTools::LeBytesTo32(code, (i - 5) * sizeof(uint32_t));
 			}
 		}
 	}
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 69d305e..a6bd493 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -55,17 +55,25 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	CEXASSERT(TreeArray.size() >= GetHeaderSize(), "The TreeArray buffer is too int16_t!");
+	// the size of the distribution code follows from the output size
+	if (TreeArray.size() >= HDR_SIZE)
+	{
+		m_outputSize = IntegerTools::LeBytesTo64(TreeArray, 6);
+	}
+
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too short!"), ErrorCodes::IllegalOperation);
+	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
-	m_outputSize = IntegerTools::LeBytesTo64(TreeArray, 6);
 	m_leafSize = IntegerTools::LeBytesTo32(TreeArray, 14);
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
 	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
+	std::copy_n(TreeArray.begin() + HDR_SIZE, m_dstCode.size(), m_dstCode.begin());
 }
 
 KeccakParams::KeccakParams(uint32_t NodeOffset, uint64_t OutputSize, uint16_t Version, uint32_t LeafSize, uint8_t Fanout, uint8_t TreeDepth, std::vector<uint8_t> &Info)
@@ -153,7 +161,7 @@ bool KeccakParams::Equals(KeccakParams &Input)
 {
 	bool res(true);
 
-	if (this->GetHashCode() != Input.GetHashCode())
+	if (this->ToBytes() != Input.ToBytes())
 	{
 		res = false;
 	}
@@ -207,7 +215,7 @@ std::vector<uint8_t> KeccakParams::ToBytes()
 	std::memcpy(&config[18], &m_treeDepth, 1);
 	std::memcpy(&config[19], &m_treeFanout, 1);
 	IntegerTools::Le32ToBytes(m_reserved, config, 20);
-	std::memcpy(&config[24], &m_dstCode[0], m_dstCode.size());
+	std::copy_n(m_dstCode.begin(), IntegerTools::Min(m_dstCode.size(), DistributionCodeMax()), config.begin() + HDR_SIZE);
 
 	return config;
 }
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 6d0649d..b08960d 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -56,20 +56,25 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
+	// the size of the distribution code follows from the output size
+	if (TreeArray.size() >= HDR_SIZE)
+	{
+		m_outputSize = IntegerTools::LeBytesTo64(TreeArray, 6);
+	}
+
 	if (TreeArray.size() < GetHeaderSize())
 	{
-		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too int16_t!"), ErrorCodes::IllegalOperation);
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer is too short!"), ErrorCodes::IllegalOperation);
 	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
-	m_outputSize = IntegerTools::LeBytesTo64(TreeArray, 6);
 	m_leafSize = IntegerTools::LeBytesTo32(TreeArray, 14);
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
 	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
+	std::copy_n(TreeArray.begin() + HDR_SIZE, m_dstCode.size(), m_dstCode.begin());
 }
 
 SHA2Params::SHA2Params(uint32_t NodeOffset, uint64_t OutputSize, uint16_t Version, uint32_t LeafSize, uint8_t Fanout, uint8_t TreeDepth, std::vector<uint8_t> &Info)
@@ -162,7 +167,7 @@ bool SHA2Params::Equals(SHA2Params &Input)
 {
 	bool res(true);
 
-	if (this->GetHashCode() != Input.GetHashCode())
+	if (this->ToBytes() != Input.ToBytes())
 	{
 		res = false;
 	}
@@ -216,7 +221,7 @@ std::vector<uint8_t> SHA2Params::ToBytes()
 	std::memcpy(&config[18], &m_treeDepth, 1);
 	std::memcpy(&config[19], &m_treeFanout, 1);
 	IntegerTools::Le32ToBytes(m_reserved, config, 20);
-	std::memcpy(&config[24], &m_dstCode[0], m_dstCode.size());
+	std::copy_n(m_dstCode.begin(), IntegerTools::Min(m_dstCode.size(), DistributionCodeMax()), config.begin() + HDR_SIZE);
 
 	return config;
 }
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 5b6aeb9..3a9884b 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -65,6 +65,12 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved3(0),
 	m_dstCode(0)
 {
+	// the size of the distribution code follows from the output size
+	if (TreeArray.size() >= HDR_SIZE)
+	{
+		m_outputSize = IntegerTools::LeBytesTo64(TreeArray, 8);
+	}
+
 	if (TreeArray.size() < GetHeaderSize())
 	{
 		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
@@ -73,14 +79,13 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeSchema[0], &TreeArray[0], 4);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
 	m_reserved1 = IntegerTools::LeBytesTo16(TreeArray, 6);
-	m_outputSize = IntegerTools::LeBytesTo64(TreeArray, 8);
 	std::memcpy(&m_leafSize, &TreeArray[16], 1);
 	std::memcpy(&m_treeDepth, &TreeArray[17], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[18], 1);
 	std::memcpy(&m_reserved2, &TreeArray[19], 1);
 	m_reserved3 = IntegerTools::LeBytesTo32(TreeArray, 20);
 	m_dstCode.resize(DistributionCodeMax());
-	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
+	std::copy_n(TreeArray.begin() + HDR_SIZE, m_dstCode.size(), m_dstCode.begin());
 }
 
 SkeinParams::SkeinParams(const std::vector<uint8_t> &Schema, uint64_t OutputSize, uint16_t Version, uint32_t LeafSize, uint8_t Fanout, uint8_t TreeDepth, std::vector<uint8_t> &DistributionCode)
@@ -143,7 +148,7 @@ std::vector<uint8_t> &SkeinParams::DistributionCode()
 
 const size_t SkeinParams::DistributionCodeMax()
 {
-	return (m_outputSize - HDR_SIZE);
+	return (m_outputSize > HDR_SIZE) ? static_cast<size_t>(m_outputSize - HDR_SIZE) : 0;
 }
 
 std::vector<uint8_t> &SkeinParams::Schema() 
@@ -160,10 +165,20 @@ uint16_t &SkeinParams::Version()
 
 std::vector<uint64_t> SkeinParams::GetConfig()
 {
+	if (m_outputSize != 32 && m_outputSize != 64 && m_outputSize != 128)
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("GetConfig"), std::string("The output size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	std::vector<uint64_t> config(m_outputSize / sizeof(uint64_t));
+	// the accessors can change the size of these
+	std::vector<uint8_t> code(m_dstCode);
+	code.resize(DistributionCodeMax());
+	std::vector<uint8_t> schema(m_treeSchema);
+	schema.resize(4);
 
 	// set schema bytes
-	config[0] = IntegerTools::LeBytesTo32(m_treeSchema, 0);
+	config[0] = IntegerTools::LeBytesTo32(schema, 0);
 	// version and key size
 	config[0] |= (static_cast<uint64_t>(m_treeVersion) << 32);
 	config[0] |= (static_cast<uint64_t>(m_reserved1) << 48);
@@ -179,7 +194,7 @@ std::vector<uint64_t> SkeinParams::GetConfig()
 	// distribution code
 	for (size_t i = 3; i < config.size(); ++i)
 	{
-		config[i] = IntegerTools::LeBytesTo64(m_dstCode, (i - 3) * sizeof(uint64_t));
+		config[i] = IntegerTools::LeBytesTo64(code, (i - 3) * sizeof(uint64_t));
 	}
 
 	return config;
@@ -197,7 +212,7 @@ SkeinParams* SkeinParams::DeepCopy()
 
 bool SkeinParams::Equals(SkeinParams &Input)
 {
-	return (this->GetHashCode() == Input.GetHashCode());
+	return (this->ToBytes() == Input.ToBytes());
 }
 
 int32_t SkeinParams::GetHashCode()
@@ -246,7 +261,7 @@ std::vector<uint8_t> SkeinParams::ToBytes()
 {
 	std::vector<uint8_t> trs(GetHeaderSize(), 0);
 
-	std::memcpy(&trs[0], &m_treeSchema[0], 4);
+	std::copy_n(m_treeSchema.begin(), IntegerTools::Min(m_treeSchema.size(), static_cast<size_t>(4)), trs.begin());
 	IntegerTools::Le16ToBytes(m_treeVersion, trs, 4);
 	IntegerTools::Le16ToBytes(m_reserved1, trs, 6);
 	IntegerTools::Le64ToBytes(m_outputSize, trs, 8);
@@ -255,7 +270,7 @@ std::vector<uint8_t> SkeinParams::ToBytes()
 	std::memcpy(&trs[18], &m_treeFanout, 1);
 	std::memcpy(&trs[19], &m_reserved2, 1);
 	IntegerTools::Le32ToBytes(m_reserved3, trs, 20);
-	std::memcpy(&trs[24], &m_dstCode[0], m_dstCode.size());
+	std::copy_n(m_dstCode.begin(), IntegerTools::Min(m_dstCode.size(), DistributionCodeMax()), trs.begin() + HDR_SIZE);
 
 	return trs;
 }
-- 
2.43.0


From df5748b069abea882f7b319ae027767437cbba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:02 +0000
Subject: [PATCH 63/67] fix: a digest made from tree parameters follows their
 fan-out on any number of processors and refuses a foreign output size

---
 CEX/Blake256.cpp  |  5 +++++
 CEX/Blake512.cpp  |  5 +++++
 CEX/SHA2256.cpp   | 11 +++++++++++
 CEX/SHA2512.cpp   | 11 +++++++++++
 CEX/SHA3256.cpp   | 11 +++++++++++
 CEX/SHA3512.cpp   | 11 +++++++++++
 CEX/Skein1024.cpp | 11 +++++++++++
 CEX/Skein256.cpp  | 11 +++++++++++
 CEX/Skein512.cpp  | 11 +++++++++++
 9 files changed, 87 insertions(+)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 7280f91..21389c5 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -76,6 +76,11 @@ Blake256::Blake256(BlakeParams &Params)
 	m_parallelProfile(Blake::BLAKE256_RATE_SIZE, false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Blake::BLAKE256_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake256), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
 	if (m_parallelProfile.IsParallel())
 	{
 		if (Params.LeafLength() != 0 && (Params.LeafLength() < Blake::BLAKE256_RATE_SIZE || Params.LeafLength() % Blake::BLAKE256_RATE_SIZE != 0))
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 0c16e33..1e85d6b 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -78,6 +78,11 @@ Blake512::Blake512(BlakeParams &Params)
 	m_parallelProfile(Blake::BLAKE512_RATE_SIZE, false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Blake::BLAKE512_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake512), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
 	//m_parallelProfile.IsParallel() == true ? m_treeParams.FanOut() > 1 : false;
 
 	if (m_parallelProfile.IsParallel())
diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 9b66e4b..30789fd 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -72,6 +72,17 @@ SHA2256::SHA2256(SHA2Params &Params)
 	m_parallelProfile(SHA2::SHA2256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != SHA2::SHA2256_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::SHA2256), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index 3ab60d6..d713114 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -75,6 +75,17 @@ SHA2512::SHA2512(SHA2Params &Params)
 	m_parallelProfile(SHA2::SHA2512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != SHA2::SHA2512_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::SHA2512), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 620624d..2fd22cb 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -61,6 +61,17 @@ SHA3256::SHA3256(KeccakParams &Params)
 	m_parallelProfile(Keccak::KECCAK256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Keccak::KECCAK256_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::SHA3256), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 897bd87..566fc77 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -61,6 +61,17 @@ SHA3512::SHA3512(KeccakParams &Params)
 	m_parallelProfile(Keccak::KECCAK512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Keccak::KECCAK512_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::SHA3512), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index fe88a98..a751113 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -73,6 +73,17 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Skein::SKEIN1024_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index 79194a4..10f28d1 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -72,6 +72,17 @@ Skein256::Skein256(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Skein::SKEIN256_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein256), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 8b3bc69..32f2394 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -73,6 +73,17 @@ Skein512::Skein512(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (Params.OutputSize() != Skein::SKEIN512_DIGEST_SIZE)
+	{
+		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The output size parameter must be the digests output size!"), ErrorCodes::IllegalOperation);
+	}
+
+	// the number of lanes is part of the tree, it is not limited by the processors of this machine
+	if (Params.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
-- 
2.43.0


From 690f95f4c6e8ab6dd0138c558041d805d6d5878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 64/67] fix: a tag asked for in a secure vector fits it,
 whatever its size

---
 CEX/CSX512.cpp    | 2 +-
 CEX/ChaChaP20.cpp | 2 +-
 CEX/HBA.cpp       | 2 +-
 CEX/RCS.cpp       | 2 +-
 CEX/RWS.cpp       | 2 +-
 CEX/TSX1024.cpp   | 2 +-
 CEX/TSX256.cpp    | 2 +-
 CEX/TSX512.cpp    | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 2b8885e..1da68a4 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -293,7 +293,7 @@ const void CSX512::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("CSX512"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_csx512State->MacTag, 0, Output, 0, m_csx512State->MacTag.size());
+	SecureInsert(m_csx512State->MacTag, 0, Output, 0, m_csx512State->MacTag.size());
 }
 
 const size_t CSX512::TagSize()
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index 5835fdf..f9d5d53 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -303,7 +303,7 @@ const void ChaChaP20::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("ChaChaP20"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_csx256State->MacTag, 0, Output, 0, m_csx256State->MacTag.size());
+	SecureInsert(m_csx256State->MacTag, 0, Output, 0, m_csx256State->MacTag.size());
 }
 
 const size_t ChaChaP20::TagSize()
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index deb4957..ed0978e 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -174,7 +174,7 @@ const std::vector<uint8_t> HBA::Tag()
 
 const void HBA::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_hbaState->MacTag, 0, Output, 0, m_hbaState->MacTag.size());
+	SecureInsert(m_hbaState->MacTag, 0, Output, 0, m_hbaState->MacTag.size());
 }
 
 const size_t HBA::TagSize()
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index d329a81..5ea90e2 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -376,7 +376,7 @@ const void RCS::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("RCS"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_rcsState->MacTag, 0, Output, 0, m_rcsState->MacTag.size());
+	SecureInsert(m_rcsState->MacTag, 0, Output, 0, m_rcsState->MacTag.size());
 }
 
 const size_t RCS::TagSize()
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index eee58b7..2d3dc0d 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -334,7 +334,7 @@ const void RWS::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("RCS"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_rwsState->MacTag, 0, Output, 0, m_rwsState->MacTag.size());
+	SecureInsert(m_rwsState->MacTag, 0, Output, 0, m_rwsState->MacTag.size());
 }
 
 const size_t RWS::TagSize()
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index e667cb8..4a9d834 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -178,7 +178,7 @@ const std::vector<uint8_t> TSX1024::Tag()
 
 const void TSX1024::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_tsx1024State->MacTag, 0, Output, 0, m_tsx1024State->MacTag.size());
+	SecureInsert(m_tsx1024State->MacTag, 0, Output, 0, m_tsx1024State->MacTag.size());
 }
 
 const size_t TSX1024::TagSize()
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index 218968f..86a9a3d 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -179,7 +179,7 @@ const std::vector<uint8_t> TSX256::Tag()
 
 const void TSX256::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_tsx256State->MacTag, 0, Output, 0, m_tsx256State->MacTag.size());
+	SecureInsert(m_tsx256State->MacTag, 0, Output, 0, m_tsx256State->MacTag.size());
 }
 
 const size_t TSX256::TagSize()
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index e215c26..8fcca2b 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -178,7 +178,7 @@ const std::vector<uint8_t> TSX512::Tag()
 
 const void TSX512::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_tsx512State->MacTag, 0, Output, 0, m_tsx512State->MacTag.size());
+	SecureInsert(m_tsx512State->MacTag, 0, Output, 0, m_tsx512State->MacTag.size());
 }
 
 const size_t TSX512::TagSize()
-- 
2.43.0


From ea1c245149607211b1060cc0337d4623f20dc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:32 +0000
Subject: [PATCH 65/67] fix: a key derivation function that refuses a short
 salt keeps its state, and HKDF names the salt it needs

---
 CEX/HKDF.cpp   | 10 +++++-----
 CEX/HKDF.h     |  2 +-
 CEX/KDF2.cpp   | 10 +++++-----
 CEX/PBKDF2.cpp | 10 +++++-----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 0326666..7e6ede8 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -226,6 +226,11 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be at least MinimumKeySize in length!"), ErrorCodes::InvalidKey);
 	}
 
+	if (Parameters.KeySizes().IVSize() != 0 && Parameters.KeySizes().IVSize() < MinimumSaltSize())
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least MinimumSaltSize in length!"), ErrorCodes::InvalidSalt);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -239,11 +244,6 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().IVSize() != 0)
 	{
-		if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
-		{
-			throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
-		}
-
 		SecureVector<uint8_t> prk(m_hkdfGenerator->TagSize());
 		Extract(Parameters.SecureKey(), Parameters.SecureIV(), prk);
 		SymmetricKey kp(prk);
diff --git a/CEX/HKDF.h b/CEX/HKDF.h
index 81a1ff0..4396425 100644
--- a/CEX/HKDF.h
+++ b/CEX/HKDF.h
@@ -108,7 +108,7 @@ private:
 
 	static const size_t MAXGEN_REQUESTS = 255;
 	static const size_t MINKEY_LENGTH = 16;
-	static const size_t MINSALT_LENGTH = 4;
+	static const size_t MINSALT_LENGTH = 8;
 
 	class HkdfState;
 	std::unique_ptr<HMAC> m_hkdfGenerator;
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 70eee6e..aabe77d 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -204,6 +204,11 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	if (Parameters.KeySizes().IVSize() != 0 && Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -211,11 +216,6 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().IVSize() != 0)
 	{
-		if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
-		{
-			throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
-		}
-
 		// add the key to state
 		m_kdf2State->State.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2State->State.size());
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 610f200..b37e86d 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -214,6 +214,11 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0 && Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -225,11 +230,6 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0)
 	{
-		if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
-		{
-			throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
-		}
-
 		// resize the salt
 		m_pbkdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
-- 
2.43.0


From 90c2815be2732d12466a2f69644c1818f7e1809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:51 +0000
Subject: [PATCH 66/67] fix: keys and handles made before a failed allocation
 are given back

---
 CEX/Dilithium.cpp   | 11 ++++++++---
 CEX/ECDH.cpp        | 22 ++++++++++++++++------
 CEX/ECDSA.cpp       | 22 ++++++++++++++++------
 CEX/Kyber.cpp       | 11 ++++++++---
 CEX/McEliece.cpp    | 11 ++++++++---
 CEX/SphincsPlus.cpp | 11 ++++++++---
 CEX/SystemTools.cpp | 12 ++++--------
 CEX/XMSS.cpp        | 11 ++++++++---
 8 files changed, 76 insertions(+), 35 deletions(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index 8b320d0..354d7d2 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -244,10 +244,15 @@ AsymmetricKeyPair* Dilithium::Generate()
 		}
 	}
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 const void Dilithium::Initialize(AsymmetricKey* Key)
diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index 31dc534..33ca4e4 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -194,10 +194,15 @@ AsymmetricKeyPair* ECDH::Generate()
 	m_rndGenerator->Generate(seed);
 	ECDHBase::Ed25519GenerateKeyPair(pk, sk, seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
@@ -212,10 +217,15 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 	ECDHBase::Ed25519GenerateKeyPair(pk, sk, Seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
+
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
 
-	return new AsymmetricKeyPair(ask, apk);
+	return akp;
 }
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index beacd64..1f9d5ab 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -153,10 +153,15 @@ AsymmetricKeyPair* ECDSA::Generate()
 	m_rndGenerator->Generate(seed);
 	ECDSABase::GenerateKeyPair(pk, sk, seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 AsymmetricKeyPair* ECDSA::Generate(std::vector<uint8_t> &Seed)
@@ -172,10 +177,15 @@ AsymmetricKeyPair* ECDSA::Generate(std::vector<uint8_t> &Seed)
 
 	ECDSABase::GenerateKeyPair(pk, sk, Seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
+
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
 
-	return new AsymmetricKeyPair(ask, apk);
+	return akp;
 }
 
 const void ECDSA::Initialize(AsymmetricKey* Key)
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 5dcc208..444bb94 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -413,10 +413,15 @@ AsymmetricKeyPair* Kyber::Generate()
 		}
 	}
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 void Kyber::Initialize(AsymmetricKey* Key)
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 051faf0..b9f4aff 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -435,10 +435,15 @@ AsymmetricKeyPair* McEliece::Generate()
 		}
 	}
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 void McEliece::Initialize(AsymmetricKey* Key)
diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index 7e6ac35..8894fa2 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -278,10 +278,15 @@ AsymmetricKeyPair* SphincsPlus::Generate()
 	}
 
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 const void SphincsPlus::Initialize(AsymmetricKey* Key)
diff --git a/CEX/SystemTools.cpp b/CEX/SystemTools.cpp
index 7916a50..eafefa7 100644
--- a/CEX/SystemTools.cpp
+++ b/CEX/SystemTools.cpp
@@ -1145,6 +1145,8 @@ std::string SystemTools::Version()
 
 			if (OpenProcessToken(GetCurrentProcess(), TOKEN_QUERY, &hToken))
 			{
+				// closed whatever happens next
+				std::unique_ptr<void, decltype(&CloseHandle)> token(hToken, &CloseHandle);
 				// Get the size of the memory buf needed for the SID
 				DWORD dwBufferSize = 0;
 				if (!GetTokenInformation(hToken, TokenUser, NULL, 0, &dwBufferSize) && (GetLastError() == ERROR_INSUFFICIENT_BUFFER))
@@ -1162,21 +1164,15 @@ std::string SystemTools::Version()
 							LPTSTR pszSID = NULL;
 							if (ConvertSidToStringSid(pTokenUser->User.Sid, &pszSID))
 							{
+								// freed whatever happens next
+								std::unique_ptr<void, decltype(&LocalFree)> sid(pszSID, &LocalFree);
 								std::wstring ws(reinterpret_cast<wchar_t*>(pszSID));
 								sids = std::string(ws.begin(), ws.end());
-								LocalFree(pszSID);
-								pszSID = NULL;
 							}
 						}
 					}
 				}
 			}
-
-			if (hToken)
-			{
-				CloseHandle(hToken);
-				hToken = NULL;
-			}
 		}
 		catch (const std::bad_alloc&)
 		{
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 5824b95..b4f8195 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -236,10 +236,15 @@ AsymmetricKeyPair* XMSS::Generate()
 
 	XMSSCore::Generate(pk, sk, m_rndGenerator, m_xmssState->Parameters);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* akp = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return akp;
 }
 
 const void XMSS::Initialize(AsymmetricKey* Key)
-- 
2.43.0


From 6abfce7accee1617b7bfc720f050d1a3164d3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:19 +0000
Subject: [PATCH 67/67] fix: a mode, MAC or generator whose constructor runs
 out of memory leaves the caller's cipher or provider alone

---
 CEX/BCG.cpp  |  8 +++++---
 CEX/CBC.cpp  | 10 ++++++----
 CEX/CFB.cpp  | 10 ++++++----
 CEX/CSG.cpp  | 11 +++++++----
 CEX/CTR.cpp  | 10 ++++++----
 CEX/ECB.cpp  | 10 ++++++----
 CEX/GMAC.cpp |  9 ++++++---
 CEX/ICM.cpp  | 10 ++++++----
 CEX/OFB.cpp  | 10 ++++++----
 9 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 519e721..7ebba50 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -121,12 +121,14 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_bcgProvider(Provider != nullptr ? 
-		Provider :
+	m_bcgProvider(nullptr),
+	m_bcgState(Provider != nullptr ?
+		new BcgState(DEF_RESEED, false, Parallel) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
+	// the provider remains with the caller if this constructor throws, so it is taken last
+	m_bcgProvider.reset(Provider);
 	m_parallelProfile.IsParallel() = m_parallelProfile.IsParallel() && Parallel;
 }
 
diff --git a/CEX/CBC.cpp b/CEX/CBC.cpp
index 966c599..e2ff70b 100644
--- a/CEX/CBC.cpp
+++ b/CEX/CBC.cpp
@@ -58,12 +58,14 @@ CBC::CBC(BlockCiphers CipherType)
 
 CBC::CBC(IBlockCipher* Cipher)
 	:
-	m_cbcState(new CbcState(false)),
-	m_blockCipher(Cipher != nullptr ? 
-		Cipher : 
+	m_cbcState(Cipher != nullptr ?
+		new CbcState(false) :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::CBC), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_blockCipher(nullptr),
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 CBC::~CBC()
diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index 437df38..f6351d6 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -62,12 +62,14 @@ CFB::CFB(BlockCiphers CipherType, size_t RegisterSize)
 
 CFB::CFB(IBlockCipher* Cipher, size_t RegisterSize)
 	:
-	m_cfbState(new CfbState(false, RegisterSize)),
-	m_blockCipher(Cipher != nullptr ? 
-		Cipher :
+	m_cfbState(Cipher != nullptr ?
+		new CfbState(false, RegisterSize) :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::CFB), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(m_blockCipher->BlockSize(), false, m_blockCipher->StateCacheSize(), true)
+	m_blockCipher(nullptr),
+	m_parallelProfile(Cipher->BlockSize(), false, Cipher->StateCacheSize(), true)
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 CFB::~CFB()
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index f9c6289..e903461 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -158,17 +158,20 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-		m_csgProvider(Provider != nullptr ? Provider :
-			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::CSG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-		m_csgState(new CsgState(
+		m_csgProvider(nullptr),
+		m_csgState(Provider != nullptr ?
+			new CsgState(
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE512) ? Keccak::KECCAK512_RATE_SIZE :
 				Keccak::KECCAK1024_RATE_SIZE), 
 			DEF_RESEED, 
-			false))
+			false) :
+			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::CSG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation))
 {
+	// the provider remains with the caller if this constructor throws, so it is taken last
+	m_csgProvider.reset(Provider);
 }
 
 CSG::~CSG()
diff --git a/CEX/CTR.cpp b/CEX/CTR.cpp
index 6267d2e..21969f8 100644
--- a/CEX/CTR.cpp
+++ b/CEX/CTR.cpp
@@ -57,12 +57,14 @@ CTR::CTR(BlockCiphers CipherType)
 
 CTR::CTR(IBlockCipher* Cipher)
 	:
-	m_ctrState(new CtrState(false)),
-	m_blockCipher(Cipher != nullptr ? 
-		Cipher : 
+	m_ctrState(Cipher != nullptr ?
+		new CtrState(false) :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::CTR), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_blockCipher(nullptr),
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 CTR::~CTR()
diff --git a/CEX/ECB.cpp b/CEX/ECB.cpp
index c746ef8..c17cfdf 100644
--- a/CEX/ECB.cpp
+++ b/CEX/ECB.cpp
@@ -57,12 +57,14 @@ ECB::ECB(BlockCiphers CipherType)
 
 ECB::ECB(IBlockCipher* Cipher)
 	:
-	m_ecbState(new EcbState(false)),
-	m_blockCipher(Cipher != nullptr ? 
-		Cipher :
+	m_ecbState(Cipher != nullptr ?
+		new EcbState(false) :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::ECB), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_blockCipher(nullptr),
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 ECB::~ECB()
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 34187d3..865e63e 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -109,10 +109,13 @@ GMAC::GMAC(IBlockCipher* Cipher)
 		MINSALT_LENGTH,
 #endif
 		CMUL::CMUL_BLOCK_SIZE),
-	m_blockCipher(Cipher != nullptr ? Cipher :
-		throw CryptoMacException(std::string("GMAC"), std::string("Constructor"), std::string("The cipher can not be null!"), ErrorCodes::IllegalOperation)),
-	m_gmacState(new GmacState(false))
+	m_blockCipher(nullptr),
+	m_gmacState(Cipher != nullptr ?
+		new GmacState(false) :
+		throw CryptoMacException(std::string("GMAC"), std::string("Constructor"), std::string("The cipher can not be null!"), ErrorCodes::IllegalOperation))
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 GMAC::~GMAC()
diff --git a/CEX/ICM.cpp b/CEX/ICM.cpp
index 7030c51..6bc48c3 100644
--- a/CEX/ICM.cpp
+++ b/CEX/ICM.cpp
@@ -57,12 +57,14 @@ ICM::ICM(BlockCiphers CipherType)
 
 ICM::ICM(IBlockCipher* Cipher)
 	:
-	m_icmState(new IcmState(false)),
-	m_blockCipher(Cipher != nullptr ? 
-		Cipher : 
+	m_icmState(Cipher != nullptr ?
+		new IcmState(false) :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::ICM), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_blockCipher(nullptr),
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 ICM::~ICM()
diff --git a/CEX/OFB.cpp b/CEX/OFB.cpp
index 0f2990e..ac4a30b 100644
--- a/CEX/OFB.cpp
+++ b/CEX/OFB.cpp
@@ -59,12 +59,14 @@ OFB::OFB(BlockCiphers CipherType)
 
 OFB::OFB(IBlockCipher* Cipher)
 	:
-	m_ofbState(new OfbState(false)),
-	m_blockCipher(Cipher != nullptr ? 
-		Cipher :
+	m_ofbState(Cipher != nullptr ?
+		new OfbState(false) :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::OFB), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(m_blockCipher->BlockSize(), false, BLOCK_SIZE, false, 1)
+	m_blockCipher(nullptr),
+	m_parallelProfile(Cipher->BlockSize(), false, BLOCK_SIZE, false, 1)
 {
+	// the cipher remains with the caller if this constructor throws, so it is taken last
+	m_blockCipher.reset(Cipher);
 }
 
 OFB::~OFB()
-- 
2.43.0

