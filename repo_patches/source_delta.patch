From ac805f34b49cd3c036fb983bc73e228e1e35a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 01/24] fix: AES-CTR tail bytes use the keystream bytes in
 order

The last size%4 bytes of a packet were XORed with the keystream word
shifted by 24-8*(l--), i.e. byte 3 first and then by 32, 40 (undefined)
instead of bytes 0, 1, 2.
---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 72fb7b7ec3fa2d8032844baa8fa6d21875303a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 02/24] fix: AES-CFB partial blocks: keystream order and
 register feedback

For a packet whose size is not a multiple of 16 the last block used the
keystream words in reverse order and undefined shifts, the table-driven
and ARM paths had overwritten the feedback register with the keystream,
and partial_state_update read ciphertext at wrong offsets (sizes 7, 8
and 12), so the table, x86 and ARM paths produced different packets
after a partial block. Keep the register across aes_encrypt, use the
keystream in order, and shift size ciphertext bytes into the register.
---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp      | 168 +++--------------
 .../AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp    | 169 +++---------------
 .../AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp    | 168 +++--------------
 3 files changed, 66 insertions(+), 439 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..66ca553 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 31/03/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -65,6 +66,11 @@ void aes_cfb_initialize(aes_state *cs, uint8_t key[16], uint8_t iv[16])
 
 void aes_encrypt(aes_state *cs, uint32_t keystream[])
 {
+	// Save the register, which is only updated
+	// by the ciphertext feedback.
+	uint32_t reg1 = cs->reg1, reg2 = cs->reg2;
+	uint32_t reg3 = cs->reg3, reg4 = cs->reg4;
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -80,6 +86,10 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Restore the register
+	cs->reg1 = reg1; cs->reg2 = reg2;
+	cs->reg3 = reg3; cs->reg4 = reg4;
 }
 
 void full_state_update(aes_state *cs, uint32_t *ctxt)
@@ -92,151 +102,17 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
+	// Shift the register left by size bytes and
+	// append the size ciphertext bytes.
+	uint32_t state[4];
+	uint8_t *byte_ptr = (uint8_t*)state;
+	state[0] = cs->reg1; state[1] = cs->reg2;
+	state[2] = cs->reg3; state[3] = cs->reg4;
 
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
+	std::memmove(byte_ptr, byte_ptr + size, 16 - size);
+	std::memcpy(byte_ptr + 16 - size, ctxt, size);
 
+	full_state_update(cs, state);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -287,10 +163,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -301,7 +177,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..3e9b82b 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -98,8 +99,12 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = veorq_u8(B_S, B_K10);
 
 	vst1q_u8((uint8_t*)keystream, B_S);
-	vst1q_u8((uint8_t*)&cs->reg1, B_S);
 #else
+	// Save the register, which is only updated
+	// by the ciphertext feedback.
+	uint32_t reg1 = cs->reg1, reg2 = cs->reg2;
+	uint32_t reg3 = cs->reg3, reg4 = cs->reg4;
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -115,6 +120,10 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Restore the register
+	cs->reg1 = reg1; cs->reg2 = reg2;
+	cs->reg3 = reg3; cs->reg4 = reg4;
 #endif
 }
 
@@ -128,151 +137,17 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
+	// Shift the register left by size bytes and
+	// append the size ciphertext bytes.
+	uint32_t state[4];
+	uint8_t *byte_ptr = (uint8_t*)state;
+	state[0] = cs->reg1; state[1] = cs->reg2;
+	state[2] = cs->reg3; state[3] = cs->reg4;
 
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
+	std::memmove(byte_ptr, byte_ptr + size, 16 - size);
+	std::memcpy(byte_ptr + 16 - size, ctxt, size);
 
+	full_state_update(cs, state);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -323,10 +198,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -337,7 +212,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..aa0e864 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -99,6 +100,11 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
 
 #else
+	// Save the register, which is only updated
+	// by the ciphertext feedback.
+	uint32_t reg1 = cs->reg1, reg2 = cs->reg2;
+	uint32_t reg3 = cs->reg3, reg4 = cs->reg4;
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -114,6 +120,10 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Restore the register
+	cs->reg1 = reg1; cs->reg2 = reg2;
+	cs->reg3 = reg3; cs->reg4 = reg4;
 #endif
 }
 
@@ -127,151 +137,17 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
+	// Shift the register left by size bytes and
+	// append the size ciphertext bytes.
+	uint32_t state[4];
+	uint8_t *byte_ptr = (uint8_t*)state;
+	state[0] = cs->reg1; state[1] = cs->reg2;
+	state[2] = cs->reg3; state[3] = cs->reg4;
 
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
+	std::memmove(byte_ptr, byte_ptr + size, 16 - size);
+	std::memcpy(byte_ptr + 16 - size, ctxt, size);
 
+	full_state_update(cs, state);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -322,10 +198,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -336,7 +212,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 4d882395d3edf7dbd007e6f9abd7dd08e60b375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 03/24] fix: AEGIS loop bounds underflow for messages shorter
 than a block

msglen-15 and msglen-3 wrap around for msglen < 15 and msglen < 3, so a
short packet was processed far past the end of both buffers.
---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..242c047 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..17d8da0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..f028cef 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From 7f114609925f8775a78405e6cbfb056702f7c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:10 +0000
Subject: [PATCH 04/24] fix: Rabbit counter carry is set when the sum is
 exactly 2^32

RFC 4503 section 2.5: the carry is 1 when the sum is >= WORDSIZE.
---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From 0d0482edc51234977a029bd570d42a00571e2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:30 +0000
Subject: [PATCH 05/24] fix: Rabbit IV setup restores the counter carry of the
 master state

rabbit_load_iv copied X and C back from the master state but kept the
carry left by the previous packet, so the keystream for an IV depended
on the packets processed before it.
---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90ab71e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_CARRY = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_CARRY;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..50cbd46 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -32,6 +32,7 @@ static const uint32_t A[8] = {
 struct rabbit_state{
 	uint32_t MASTER_X[8];
 	uint32_t MASTER_C[8];
+	uint8_t MASTER_CARRY;
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
-- 
2.43.0


From dd0527a2db735cb2466fe10eae4a20c2523950ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 06/24] fix: Sosemanuk FSM update uses the old R1 and s1 ^ s8

The specification sets R1' = R2 + mux(lsb(R1), s1, s1 ^ s8) and
R2' = Trans(R1); the code used s8 ^ s9 and Trans of the new R1.
---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..7b7dad4 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t R1 = cs->R1;
+	cs->R1 = cs->R2 + mux(R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From eea96e70510c4bf3831c815f3c42664b9b78f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 07/24] fix: Serpent pads short keys with a little-endian 1 bit

The 1 bit that pads a key to 256 bits follows the most significant key
bit; keys are loaded as little-endian words, so the byte is 0x01.
---
 BlockCiphers/Serpent/serpent.cpp    | 6 +++---
 StreamCiphers/Sosemanuk/serpent.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..2942c66 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, since
+		// Serpent keys are little-endian.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..2942c66 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, since
+		// Serpent keys are little-endian.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From 06b9a60942cf8f6a861aa1f625e8c4817aa43806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:07 +0000
Subject: [PATCH 08/24] fix: Sosemanuk does not discard a keystream block after
 full blocks

A packet whose size is a multiple of 16 advanced the state by one
unused block, so the next packet did not continue the keystream.
---
 StreamCiphers/Sosemanuk/sosemanuk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.cpp b/StreamCiphers/Sosemanuk/sosemanuk.cpp
index 70f3fba..16b2a9d 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.cpp
+++ b/StreamCiphers/Sosemanuk/sosemanuk.cpp
@@ -78,6 +78,9 @@ void sosemanuk_process_packet(sosemanuk_state *cs, uint8_t *out, uint8_t *in, ui
 		size -= 16;
 	}
 
+	// No partial block left, keep the remaining keystream
+	if (size == 0) return;
+
 	sosemanuk_fsm_update(cs, &f_buf[0]);
 	sosemanuk_lfsr_update(cs, &s_buf[0]);
 	
-- 
2.43.0


From 02a8b313852f215f379decfbea2b9a8e51d43852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:37 +0000
Subject: [PATCH 09/24] fix: DES uses the round keys of each round

DES_ROUND took rk[0] and rk[1] in all sixteen rounds.
---
 Legacy/DES/des.cpp | 4 ++--
 Legacy/DES/des.h   | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..0af370e 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -94,8 +94,8 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs->rk + 4*i, &Y, &X, &T);
+		DES_ROUND(cs->rk + 4*i + 2, &X, &Y, &T);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..0577a7e 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,8 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+inline void DES_ROUND(u32 *rk_ptr, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From 3f0dc80799769ffaec1146ea7ca9090b127c59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:03 +0000
Subject: [PATCH 10/24] fix: DES reads and writes blocks and keys big-endian

The words were loaded in host order, so no DES test vector (e.g. key
133457799BBCDFF1, 0123456789ABCDEF -> 85E813540F0AB405) could match.
---
 Legacy/DES/des.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 0af370e..c750df1 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -1,6 +1,14 @@
 #include "des.h"
 #include <cstring>
 
+// DES is big-endian: convert between words in memory and
+// words on a little-endian machine.
+static u32 swap_word(u32 word)
+{
+	return (word >> 24) | ((word >> 8) & 0x0000ff00)
+		| ((word << 8) & 0x00ff0000) | (word << 24);
+}
+
 void des_key_schedule_encrypt(des_state *cs, u8 *key)
 {
 	int i;
@@ -8,8 +16,8 @@ void des_key_schedule_encrypt(des_state *cs, u8 *key)
 
 	u32 *key_ptr = (u32*)key;
 
-	X = *key_ptr++;
-	Y = *key_ptr;
+	X = swap_word(*key_ptr++);
+	Y = swap_word(*key_ptr);
 
 	u32 *rk_ptr = cs->rk;
 
@@ -88,7 +96,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 {
 	u32 X, Y, T;
 
-	X = *input++; Y = *input; 
+	X = swap_word(*input++); Y = swap_word(*input);
 
 	DES_IP(&X, &Y, &T);
 
@@ -100,7 +108,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	DES_FP(&Y, &X, &T);
 
-	*output++ = Y; *output = X;
+	*output++ = swap_word(Y); *output = swap_word(X);
 }
 
 void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
-- 
2.43.0


From 1d964efdc96b41668db1e6383b29699145e5c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:03 +0000
Subject: [PATCH 11/24] fix: SHA-256 reserves a second padding block when
 size%64 is 63

(size + 1)%64 is 0 for these sizes, so the 9 padding bytes overflowed
the buffer and the last block was never hashed.
---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..8b16c32 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( size%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 62915a0ecab945ddf478424f9065d1f3020300f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:22 +0000
Subject: [PATCH 12/24] fix: the example does not decrypt after an invalid tag

Section 2 printed "Invalid tag!" and went on to decrypt.
---
 Example_AuthenticatedEncryption/example_ae.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Example_AuthenticatedEncryption/example_ae.cpp b/Example_AuthenticatedEncryption/example_ae.cpp
index d1b8194..0cc464d 100644
--- a/Example_AuthenticatedEncryption/example_ae.cpp
+++ b/Example_AuthenticatedEncryption/example_ae.cpp
@@ -131,6 +131,7 @@ int main()
 	// not valid, the ciphertext is NOT decrypted.
 	if ( !(hmac_tag_validation(&a_cs, &msg2[HC128_IV_SIZE+plaintext2.size()], msg2, HC128_IV_SIZE+plaintext2.size(), TAGSIZE)) ) {
 		std::cout << "Invalid tag!\n";
+		exit(1);
 	}
 	// Else, tag is valid. Proceed to initialize the cipher and decrypt.
 	std::cout << "Valid tag!\n";
-- 
2.43.0


From f37fba78b6923ba4679e9cc7671260e83184206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:22 +0000
Subject: [PATCH 13/24] fix: HMAC tags the empty message instead of leaving the
 tag unwritten

hmac_tag_generation returned without writing the tag and
hmac_tag_validation then compared against an uninitialised array.
---
 Authentication/HMAC-SHA-256/hmac.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..895a45b 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -55,9 +55,6 @@ void hmac_load_key(hmac_state *cs, uint8_t *key, int keysize)
 
 void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
-	// Assert that datalength is strictly positive
-	if ( dataLength < 1 ) return;
-
 	// The inner key is used in the first computation along with the message
 	uint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];
 	std::memcpy(inner_computation, cs->inner_key, HMAC_KEYLENGTH);
-- 
2.43.0


From 8f7bd68a22a84cb2a98974bc3228716ee814e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 14/24] fix: ChaCha byte_swap writes its output buffer

The swapped words were stored back into the input.
---
 StreamCiphers/ChaCha/chacha.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index 2198104..dc096b9 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -22,7 +22,7 @@ void byte_swap(uint8_t *output, uint8_t *input, int size)
 		uint32_t num = ((uint32_t*)input)[i];
 		uint32_t swapped = ((num >> 24)&0xff) | ((num << 8)&0xff0000) |
 			((num >> 8)&0xff00) | ((num << 24)&0xff000000);
-		((uint32_t*)input)[i] = swapped;
+		((uint32_t*)output)[i] = swapped;
 	}
 }
 
-- 
2.43.0


From 6e2193c270391e91404adc5884752435655e0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 15/24] fix: HC-128 header declares hc128_generate_keystream as
 defined

The prototype took the state by value, a function that does not exist.
---
 StreamCiphers/HC-128/hc128.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 40e20f7..5cb1721 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -40,7 +40,7 @@ struct hc128_state{
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-void hc128_generate_keystream(hc128_state, uint32_t *keystream, uint64_t size);
+void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size);
 void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint64_t size);
 
 inline uint32_t f1(uint32_t x)
-- 
2.43.0


From 0642e7b5120094410511546d737b9e36b6f4867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 16/24] fix: HC-128 continues the keystream across packets

The step number restarted at zero for every packet, so from the second
packet on the wrong table was updated and the output was not the HC-128
keystream.
---
 StreamCiphers/HC-128/hc128.cpp | 6 ++++--
 StreamCiphers/HC-128/hc128.h   | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..8da8cae 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -59,6 +59,7 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 			h2(cs, cs->Q[(i-12)&0x1FF]);
 	}
 
+	cs->step = 0;
 }
 
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
@@ -66,8 +67,8 @@ void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t siz
 	// Generate keystream
 	for (int i = 0; i <= (size-1)/4; i++)
 	{
-		int j = (i&0x1FF);
-		if ( (i&0x3FF) < 512 )
+		int j = (cs->step&0x1FF);
+		if ( (cs->step&0x3FF) < 512 )
 		{
 			// Operate on P
 			cs->P[j] = cs->P[j] + g1(cs->P[(j-3)&0x1FF],
@@ -83,6 +84,7 @@ void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t siz
 			*keystream = h2(cs, cs->Q[(j-12)&0x1FF]) ^ (cs->Q[j]);
 			keystream++;
 		}
+		cs->step++;
 	}
 }
 
diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 5cb1721..72356cd 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -37,6 +37,8 @@
 struct hc128_state{
 	uint32_t P[512];
 	uint32_t Q[512];
+	// Number of the next keystream word, modulo 1024
+	uint32_t step;
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-- 
2.43.0


From d44301f7f9a1cf7d3f2073ce7778527d96822a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 17/24] fix: LabeledHE does not print the secret mask and
 intermediate values

he_encrypt printed the mask b, which together with the ciphertext gives
the message; he_eval_sub printed its intermediate values.
---
 .../LabeledHE/labeled_he.cpp                              | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..ed18ddb 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -65,7 +65,9 @@ void he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -232,7 +234,6 @@ void he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
-	std::cout << "Inside sub\n";
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -241,19 +242,14 @@ void he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
-	std::cout << "Computing inverse a\n";
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
-	gmp_printf("additive inverse a: %Zd\n", a_inv);
-	std::cout << "Computing inverse b\n";
 	mpz_invert(beta_inv, c2->beta, N);
 
-	std::cout << "Adding a\n";
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
-	std::cout << "Multiplying beta\n";
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
-- 
2.43.0


From c50c351df63ef387fb161dbaa8699248942ad61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:37 +0000
Subject: [PATCH 18/24] fix: LabeledHE encodes the label in all bytes of the
 PRF block

mpz_export writes only the significant bytes of the label, to the front
of an uninitialised array, so the mask depended on stack contents and
labels such as 1 and 256 were encoded alike.
---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index ed18ddb..940a317 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -1,6 +1,8 @@
 #include "labeled_he.h"
 #include "../../Joye_libert/joye_libert.h"
 
+#include <climits>
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -54,10 +56,11 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 	
 	// Load label into the array
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-	mpz_export(keystream, &size, 1, 1, 0, 0, label);
+	mpz_export(keystream + msgsize/8 - size, &size, 1, 1, 0, 0, label);
 
 	// Encrypt the array
 	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
-- 
2.43.0


From 7cc6e5a4abdde0d1c031c33de7011495814e1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:09 +0000
Subject: [PATCH 19/24] fix: Joye-Libert and LabeledHE release their GMP
 temporaries

No local mpz_t or random state was cleared, so every encryption,
decryption and homomorphic operation leaked memory holding secrets.
---
 .../Joye_libert/joye_libert.cpp               | 10 +++++++
 .../LabeledHE/labeled_he.cpp                  | 27 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 7f082c1..c28469c 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -157,6 +157,10 @@ void joye_libert_keygen(
 	std::cout << "Legendre y/p final: " << legendre_p << std::endl;
 	std::cout << "Legendre y/q final: " << legendre_q << std::endl;
 #endif
+
+	// Clean up
+	mpz_clears(q, p_test, q_test, pseudo_safeness_divisor, pseudo_test_p, pseudo_test_q, mod, one, t, tmp, NULL);
+	gmp_randclear(state);
 }
 
 void joye_libert_encrypt(
@@ -196,6 +200,9 @@ void joye_libert_encrypt(
 #ifdef DEBUG
 	gmp_printf("c: %Zd\n", c);
 #endif
+
+	// Clean up
+	mpz_clears(x, k_exp, tmp1, tmp2, NULL);
 }
 
 void joye_libert_decrypt(
@@ -255,4 +262,7 @@ void joye_libert_decrypt(
 	{
 		mpz_add(m, m, B);
 	}
+
+	// Clean up
+	mpz_clears(B, D, C, exp_msgsize, exp_y, neg_exp_y, p_1, z, exp_c, NULL);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 940a317..4843ed1 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -84,6 +84,9 @@ void he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	// Clean up
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void he_eval_mult(
@@ -128,6 +131,9 @@ void he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	// Clean up
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void he_eval_mult_3(
@@ -191,6 +197,9 @@ void he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	// Clean up
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, a13beta2, a23beta1, ptspace, NULL);
 }
 
 void he_eval_add(
@@ -213,6 +222,9 @@ void he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
 
 void he_eval_add(
@@ -255,6 +267,9 @@ void he_eval_sub(
 
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	// Clean up
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void he_eval_sub(
@@ -270,6 +285,9 @@ void he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	// Clean up
+	mpz_clears(c2_inv, NULL);
 }
 
 void he_eval_cmult(
@@ -291,6 +309,9 @@ void he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
 
 void he_eval_cmult(
@@ -333,6 +354,9 @@ void he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	// Clean up
+	mpz_clears(b, ptspace, NULL);
 }
 
 void he_decrypt(
@@ -353,4 +377,7 @@ void he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
-- 
2.43.0


From 3d68412e2ae03550bef5503b66f336e629926e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:07 +0000
Subject: [PATCH 20/24] fix: Serpent loads one block at a time

serpent_process_packet copied the whole packet into a 16-byte local, a
stack overflow for every packet longer than one block.
---
 BlockCiphers/Serpent/serpent.cpp    | 9 ++++-----
 StreamCiphers/Sosemanuk/serpent.cpp | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 2942c66..3205ca1 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -99,18 +99,17 @@ void rounds(serpent_state *ctx, uint32_t *r0, uint32_t *r1, uint32_t *r2, uint32
 }
 void serpent_process_packet(serpent_state *ctx, uint32_t *out, uint32_t *in, uint64_t size)
 {
-	uint64_t org_size = size;
 	uint32_t tmp[4];
-	std::memcpy(tmp, in, size);
-	for ( int i = 0; i < size; i += 16 )
+	for ( uint64_t i = 0; i + 16 <= size; i += 16 )
 	{
+		std::memcpy(tmp, in + i/4, 16);
 		// Process full block
 #ifdef SOSEMANUK_H
-		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3, out);
+		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3, out + 3*(i/4));
 
 #else
 		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3);
-		std::memcpy(out, tmp, org_size+16*i);
+		std::memcpy(out + i/4, tmp, 16);
 #endif
 	}
 }
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 2942c66..3205ca1 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -99,18 +99,17 @@ void rounds(serpent_state *ctx, uint32_t *r0, uint32_t *r1, uint32_t *r2, uint32
 }
 void serpent_process_packet(serpent_state *ctx, uint32_t *out, uint32_t *in, uint64_t size)
 {
-	uint64_t org_size = size;
 	uint32_t tmp[4];
-	std::memcpy(tmp, in, size);
-	for ( int i = 0; i < size; i += 16 )
+	for ( uint64_t i = 0; i + 16 <= size; i += 16 )
 	{
+		std::memcpy(tmp, in + i/4, 16);
 		// Process full block
 #ifdef SOSEMANUK_H
-		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3, out);
+		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3, out + 3*(i/4));
 
 #else
 		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3);
-		std::memcpy(out, tmp, org_size+16*i);
+		std::memcpy(out + i/4, tmp, 16);
 #endif
 	}
 }
-- 
2.43.0


From e1ff189d5a75101af13f3a235872eaca27e5daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:50 +0000
Subject: [PATCH 21/24] fix: SHA-256 keeps long messages on the heap and counts
 blocks in 64 bits

---
 Authentication/HMAC-SHA-256/sha-256.cpp | 10 ++++++----
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp      | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/sha-256.cpp b/Authentication/HMAC-SHA-256/sha-256.cpp
index a900cd3..a2a0e27 100644
--- a/Authentication/HMAC-SHA-256/sha-256.cpp
+++ b/Authentication/HMAC-SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -142,4 +142,6 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		       	((ss.digest[i] >> 24) & 0x000000ff); u32_digest++;
 	}
 	//std::memcpy(digest, ss.digest, 32);
+
+	delete[] msg;
 }
diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index 8b16c32..dd005d3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( size%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -142,4 +142,6 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		       	((ss.digest[i] >> 24) & 0x000000ff); u32_digest++;
 	}
 	//std::memcpy(digest, ss.digest, 32);
+
+	delete[] msg;
 }
-- 
2.43.0


From 687d51352c19cfecb74f265ea6af8729b8151479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:50 +0000
Subject: [PATCH 22/24] fix: HC-128 keeps the keystream of long packets on the
 heap

---
 StreamCiphers/HC-128/hc128.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 8da8cae..ec28b5a 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -65,7 +65,7 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
 {
 	// Generate keystream
-	for (int i = 0; i <= (size-1)/4; i++)
+	for (uint64_t i = 0; i <= (size-1)/4; i++)
 	{
 		int j = (cs->step&0x1FF);
 		if ( (cs->step&0x3FF) < 512 )
@@ -94,12 +94,12 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 	if ( size < 1 ) return;
 		
 
-	uint32_t keystream[(size-1)/4 +1];
+	uint32_t *keystream = new uint32_t[(size-1)/4 +1];
 
 	// Generate enough keystream
 	hc128_generate_keystream(cs, keystream, size);
 
-	int counter = 0;
+	uint64_t counter = 0;
 	// Process a full word
 	while ( size > 3 )
 	{
@@ -114,4 +114,6 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 		// Mix keystream to the final bytes
 		*output = *input ^ *byteptr; byteptr++; output++; input++;
 	}	
+
+	delete[] keystream;
 }
-- 
2.43.0


From 18db0064efc3128b7b72453257c6900ea72e7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:50 +0000
Subject: [PATCH 23/24] fix: ChaCha processes packets of 2 GiB and more

---
 StreamCiphers/ChaCha/chacha.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index dc096b9..4996106 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -77,24 +77,24 @@ void chacha_block(chacha_state *cs, uint32_t counter, uint32_t *keystream)
 void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
 {
 	// Generate sufficient keystream;
-	int n_words = std::ceil(double(size)/4);
+	uint64_t n_words = std::ceil(double(size)/4);
 
-	int n_iterations = std::ceil(double(n_words)/16);
+	uint64_t n_iterations = std::ceil(double(n_words)/16);
 
 	uint32_t *keystream = new uint32_t[n_iterations*16];
 
 	uint32_t counter = 1;
 
-	for (int i = 0; i < n_iterations; i++)
+	for (uint64_t i = 0; i < n_iterations; i++)
 	{
 		chacha_block(cs, counter, &(keystream[16*i]));
 		counter++;
 	}
 
-	int n_bytes = size;
+	uint64_t n_bytes = size;
 	uint32_t *w_ptr_in = (uint32_t*) input;
 	uint32_t *w_ptr_out = (uint32_t*) output;
-	int ks_index = 0;
+	uint64_t ks_index = 0;
 	while (n_bytes > 3)
 	{
 		*w_ptr_out = *w_ptr_in ^ keystream[ks_index];
@@ -104,7 +104,7 @@ void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, ui
 	input = (uint8_t*) w_ptr_in;
 	output = (uint8_t*) w_ptr_out;
 	uint8_t *byte_ks = (uint8_t*)&keystream[ks_index]; 
-	for (int i = 0; i < n_bytes; i++)
+	for (uint64_t i = 0; i < n_bytes; i++)
 	{
 		*output = *input ^ *byte_ks; byte_ks++;
 		//*output = *input ^ ((keystream[ks_index] >> (24-8*i))&0xff);
-- 
2.43.0


From 288c3471ca3dcd535881d3ff5037816f1acc264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:00 +0000
Subject: [PATCH 24/24] fix: AEGIS absorbs associated data of 8 GiB and more

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 4 ++--
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 4 ++--
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 242c047..1b02a47 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 17d8da0..008f733 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f028cef..d859eda 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
-- 
2.43.0

