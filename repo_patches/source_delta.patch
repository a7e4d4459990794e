From ddbb4de865d2f0ecafc2f2872c595bbaca7cced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:45 +0000
Subject: [PATCH 01/38] fix: block: recreate with another round count read the
 freed state

The descriptor pointer was taken from the object after it had been wiped
and freed, so the new object was created with a null descriptor.
---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..79a37a9 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..b735d98 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..9c280ee 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..00c1be2 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..e33ea90 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..5189f88 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..ebb0ef3 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..cd1d4ca 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..8920a8e 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..821d437 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..70aea61 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..f47ba54 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..a8825a0 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..0bc3e20 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..63ec683 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..6bd6b51 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..87d3460 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..45d955d 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..4797fac 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..079b9db 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..70cd0de 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..bbf563f 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..a20ecce 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..d7b118d 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..f324407 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..c128761 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..713c9cf 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From d33d26a46124e8b8d32deaef9886525bb546acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 02/38] fix: cfb: decryption used the output buffer as
 keystream storage

The first block was written past short outputs, later blocks always went
to the start of the buffer, and in-place use destroyed the ciphertext.
---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..ff9dbcf 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -66,17 +66,19 @@ static void cfb_decrypt
 )
 {
 	size_t i;
+	uint8_t c;
 
 	for(i = 0; i < len; i++)
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		c = CU8(ct)[i];
+		U8(pt)[i] = s->prev[s->used] ^ c;
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From 7b544eabcb9ebce960f2665bfea87f4dd7ef5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 03/38] fix: pbkdf2: check the recreated MAC, not the
 descriptor, for failure

---
 lib/pbkdf2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..8c3ed56 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 448f2b13cec42b387723b2e96cdc5711efc99039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:01 +0000
Subject: [PATCH 04/38] fix: pbkdf2: derive short keys from full-length PRF
 blocks

With an output shorter than the MAC every PRF call was made with a
shortened tag, so a short key was not a prefix of the RFC 8018 key.
---
 lib/pbkdf2.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index 8c3ed56..048600c 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,6 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
-- 
2.43.0


From 3927bd0972367e2e34e678f4df5a5232eef090da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:32 +0000
Subject: [PATCH 05/38] fix: scrypt: scratch blocks overlapped the second and
 third table entry

---
 lib/scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..c920d67 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -222,7 +222,7 @@ int kripto_scrypt
 	if(!b) return -1;
 
 	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
+	t1 = t0 + (r << 5) * n;
 	t2 = t1 + (r << 5);
 
 	if(kripto_pbkdf2
-- 
2.43.0


From 7661b96dd24145abc3e061caf43f1b904bcfe7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 06/38] fix: scrypt: buffer size was computed in 32 bits and
 could wrap

---
 lib/scrypt.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index c920d67..459fed6 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -14,6 +14,7 @@
  */
 
 #include <stdint.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
@@ -217,13 +218,22 @@ int kripto_scrypt
 	uint32_t *t1;
 	uint32_t *t2;
 	uint32_t i;
+	const uint64_t bs = (uint64_t)r << 7;
+	size_t size;
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	/* sizes that do not fit */
+	if(!r || (p && bs > UINT_MAX / p)) return -1;
+	if(bs > SIZE_MAX / ((uint64_t)p + 2)) return -1;
+	if(n > (SIZE_MAX - bs * ((uint64_t)p + 2)) / bs) return -1;
+
+	size = bs * p + bs * n + (bs << 1);
+
+	b = (uint8_t *)malloc(size);
 	if(!b) return -1;
 
-	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5) * n;
-	t2 = t1 + (r << 5);
+	t0 = (uint32_t *)(void *)(b + bs * p);
+	t1 = t0 + (bs >> 2) * n;
+	t2 = t1 + (bs >> 2);
 
 	if(kripto_pbkdf2
 	(
@@ -235,11 +245,11 @@ int kripto_scrypt
 		salt,
 		salt_len,
 		b,
-		p * (r << 7)
+		p * bs
 	)) goto err;
 
 	for(i = 0; i < p; i++)
-		smix(b + (r << 7) * i, r, n, t0, t1, t2);
+		smix(b + bs * i, r, n, t0, t1, t2);
 
 	if(kripto_pbkdf2
 	(
@@ -249,18 +259,18 @@ int kripto_scrypt
 		pass,
 		pass_len,
 		b,
-		p * (r << 7),
+		p * bs,
 		out,
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size);
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size);
 	free(b);
 
 	return -1;
-- 
2.43.0


From 6f3c4a72537ad6004c27c0cd33dba1efcd8900ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 07/38] fix: omac: high bytes of the reduction polynomial went
 to wrong positions

---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..6bbc77f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From ff6ea6e60ba086f5cc9a5cc6745e0cb2251afcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 08/38] fix: omac: subkey derivation branched on a key-derived
 bit

---
 lib/mac/omac.c | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 6bbc77f..a004ba5 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -312,48 +312,42 @@ static void omac_init(kripto_mac *s)
 	kripto_block_encrypt(s->block, s->lu, s->lu);
 
 	/* Lu */
-	msb = s->lu[0] >> 7;
+	msb = -(s->lu[0] >> 7);
 
 	for(i = 0; i < (s->len - 1); i++)
 		s->lu[i] = (s->lu[i] << 1) | (s->lu[i + 1] >> 7);
 
 	s->lu[i] <<= 1;
 
-	if(msb)
+	if(s->len >= 8)
 	{
-		if(s->len >= 8)
-		{
-			s->lu[s->len - 6] ^= poly[s->len][0];
-			s->lu[s->len - 5] ^= poly[s->len][1];
-			s->lu[s->len - 4] ^= poly[s->len][2];
-			s->lu[s->len - 3] ^= poly[s->len][3];
-			s->lu[s->len - 2] ^= poly[s->len][4];
-		}
-		s->lu[s->len - 1] ^= poly[s->len][5];
+		s->lu[s->len - 6] ^= poly[s->len][0] & msb;
+		s->lu[s->len - 5] ^= poly[s->len][1] & msb;
+		s->lu[s->len - 4] ^= poly[s->len][2] & msb;
+		s->lu[s->len - 3] ^= poly[s->len][3] & msb;
+		s->lu[s->len - 2] ^= poly[s->len][4] & msb;
 	}
+	s->lu[s->len - 1] ^= poly[s->len][5] & msb;
 
 	/* Lu2 */
 	memcpy(s->lu2, s->lu, s->len);
 
-	msb = s->lu2[0] >> 7;
+	msb = -(s->lu2[0] >> 7);
 
 	for(i = 0; i < (s->len - 1); i++)
 		s->lu2[i] = (s->lu2[i] << 1) | (s->lu2[i + 1] >> 7);
 
 	s->lu2[i] <<= 1;
 
-	if(msb)
+	if(s->len >= 8)
 	{
-		if(s->len >= 8)
-		{
-			s->lu2[s->len - 6] ^= poly[s->len][0];
-			s->lu2[s->len - 5] ^= poly[s->len][1];
-			s->lu2[s->len - 4] ^= poly[s->len][2];
-			s->lu2[s->len - 3] ^= poly[s->len][3];
-			s->lu2[s->len - 2] ^= poly[s->len][4];
-		}
-		s->lu2[s->len - 1] ^= poly[s->len][5];
+		s->lu2[s->len - 6] ^= poly[s->len][0] & msb;
+		s->lu2[s->len - 5] ^= poly[s->len][1] & msb;
+		s->lu2[s->len - 4] ^= poly[s->len][2] & msb;
+		s->lu2[s->len - 3] ^= poly[s->len][3] & msb;
+		s->lu2[s->len - 2] ^= poly[s->len][4] & msb;
 	}
+	s->lu2[s->len - 1] ^= poly[s->len][5] & msb;
 
 	memset(s->prev, 0, s->len);
 	s->i = 0;
-- 
2.43.0


From e389916132c27cec7a39ff00dd13f944d24b3c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 09/38] fix: des: key schedule branched on key bits

---
 lib/block/des.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/block/des.c b/lib/block/des.c
index 7793cd2..1fd4a06 100644
--- a/lib/block/des.c
+++ b/lib/block/des.c
@@ -48,11 +48,6 @@ struct kripto_block
 	uint32_t dk[3][32];
 };
 
-static const uint8_t bytebit[8] =
-{
-	0200, 0100, 0040, 0020, 0010, 0004, 0002, 0001
-};
-
 static const uint32_t bigbyte[24] =
 {
 	0x800000, 0x400000, 0x200000, 0x100000,
@@ -110,7 +105,7 @@ static void des_key
 	{
 		l = pc1[j];
 		m = l & 7;
-		pc1m[j] = (pcr[l >> 3] & bytebit[m]) ? 1 : 0;
+		pc1m[j] = (pcr[l >> 3] >> (7 - m)) & 1;
 	}
 
 	for(i = 0; i < 16; i++)
@@ -137,8 +132,8 @@ static void des_key
 
 		for(j = 0; j < 24; j++)
 		{
-			if(pcr[pc2[j]]) kn[m] |= bigbyte[j];
-			if(pcr[pc2[j + 24]]) kn[n] |= bigbyte[j];
+			kn[m] |= bigbyte[j] & -(uint32_t)pcr[pc2[j]];
+			kn[n] |= bigbyte[j] & -(uint32_t)pcr[pc2[j + 24]];
 		}
 	}
 
-- 
2.43.0


From 117d5a3a3abc706ae038c228cb9af87c72eb7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 10/38] fix: idea: multiplication branched on secret data and
 overflowed int

---
 lib/block/idea.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/block/idea.c b/lib/block/idea.c
index e33ea90..56ff59e 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -39,14 +39,12 @@ struct kripto_block
 
 static inline uint16_t MUL(uint16_t a, uint16_t b)
 {
-	uint32_t p = a * b;
+	uint32_t p = (uint32_t)a * b;
+	uint32_t m = -((p | -p) >> 31); /* all ones if p is not zero */
 
-	if(p)
-	{
-		p = LO16(p) - HI16(p);
-		return LO16(p) - HI16(p);
-	}
-	else return 1 - a - b;
+	p = LO16(p) - HI16(p);
+
+	return ((LO16(p) - HI16(p)) & m) | ((1 - a - b) & ~m);
 }
 
 static inline uint16_t INV_MUL(uint16_t x)
-- 
2.43.0


From 114a1b36d2eebc250d054be84a7d5103fb4fd26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:06 +0000
Subject: [PATCH 11/38] fix: wipe working arrays, and the expected tag after
 verification

---
 lib/ae.c         | 11 ++++++++++-
 lib/block/3way.c |  4 ++++
 lib/block/des.c  |  4 ++++
 lib/mac.c        |  7 ++++++-
 lib/scrypt.c     |  4 +++-
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/ae.c b/lib/ae.c
index f2ba46a..bde5bf2 100644
--- a/lib/ae.c
+++ b/lib/ae.c
@@ -141,9 +141,18 @@ int kripto_ae_verify
 	unsigned int len
 )
 {
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->tag);
+
 	char t[len];
+	int r;
+
 	s->desc->tag(s, t, len);
-	return kripto_memory_equals(t, tag, len);
+	r = kripto_memory_equals(t, tag, len);
+	kripto_memory_wipe(t, len);
+
+	return r;
 }
 
 void kripto_ae_destroy(kripto_ae *s)
diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..9edb405 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -136,6 +136,8 @@ static void threeway_encrypt
 	STORE32B(x[0], U8(ct));
 	STORE32B(x[1], U8(ct) + 4);
 	STORE32B(x[2], U8(ct) + 8);
+
+	kripto_memory_wipe(x, 12);
 }
 
 static void threeway_decrypt
@@ -170,6 +172,8 @@ static void threeway_decrypt
 	STORE32L(x[0], U8(pt));
 	STORE32L(x[1], U8(pt) + 4);
 	STORE32L(x[2], U8(pt) + 8);
+
+	kripto_memory_wipe(x, 12);
 }
 
 static kripto_block *threeway_recreate
diff --git a/lib/block/des.c b/lib/block/des.c
index 1fd4a06..7e9c61d 100644
--- a/lib/block/des.c
+++ b/lib/block/des.c
@@ -454,6 +454,8 @@ static void des_encrypt
 
 	STORE32B(block[0], U8(ct));
 	STORE32B(block[1], U8(ct) + 4);
+
+	kripto_memory_wipe(block, 8);
 }
 
 static void des_decrypt
@@ -478,6 +480,8 @@ static void des_decrypt
 
 	STORE32B(block[0], U8(pt));
 	STORE32B(block[1], U8(pt) + 4);
+
+	kripto_memory_wipe(block, 8);
 }
 
 static kripto_block *des_create
diff --git a/lib/mac.c b/lib/mac.c
index de9d3bc..116d6e1 100644
--- a/lib/mac.c
+++ b/lib/mac.c
@@ -86,8 +86,13 @@ int kripto_mac_verify(kripto_mac *s, const void *tag, unsigned int len)
 	assert(s->desc->tag);
 
 	char t[len];
+	int r;
+
 	s->desc->tag(s, t, len);
-	return kripto_memory_equals(t, tag, len);
+	r = kripto_memory_equals(t, tag, len);
+	kripto_memory_wipe(t, len);
+
+	return r;
 }
 
 void kripto_mac_destroy(kripto_mac *s)
diff --git a/lib/scrypt.c b/lib/scrypt.c
index 459fed6..fa9282b 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -155,7 +155,9 @@ static void blockmix(uint32_t *b, uint32_t *t, const size_t r)
 	{
 		memcpy(b + (i << 4), t + (i << 5), 64);
 		memcpy(b + ((i + r) << 4), t + (i << 5) + 16, 64);
-	}	
+	}
+
+	kripto_memory_wipe(x, 64);
 }
 
 static void smix
-- 
2.43.0


From 040e7decde39747700fad797c7dcdb5791369820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:32 +0000
Subject: [PATCH 12/38] fix: ctr: the carry never reached the first byte of the
 counter

---
 lib/stream/ctr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..137ca9f 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,8 +54,8 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
 		}
 
 		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
@@ -79,8 +79,8 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
 		}
 
 		U8(out)[i] = s->buf[s->used++];
-- 
2.43.0


From 59b46edff6981d1cd3227dcdd8cb4725cb9e1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 13/38] fix: skein mac: absorb the whole key and finish the
 last message block

Key chunks were zeroed instead of padded and the key pointer was never
advanced, so tags did not depend on the key; a message filling its last
block was compressed without the final flag.
---
 lib/mac/skein1024.c | 11 +++++++----
 lib/mac/skein256.c  | 11 +++++++----
 lib/mac/skein512.c  | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..12a6083 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -90,7 +90,7 @@ static kripto_mac *skein1024_recreate
 	memset(s->h, 0, 128);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
@@ -147,8 +149,7 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -156,6 +157,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..22142e7 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -90,7 +90,7 @@ static kripto_mac *skein256_recreate
 	memset(s->h, 0, 32);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
@@ -147,8 +149,7 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -156,6 +157,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..b19e5f6 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -90,7 +90,7 @@ static kripto_mac *skein512_recreate
 	memset(s->h, 0, 64);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
@@ -147,8 +149,7 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -156,6 +157,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 404dc32a62f7042f046063677b12f9da1eaa436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 14/38] fix: skein: absorb the whole salt, finish the last
 block, output counter

Salt chunks were zeroed and never advanced, messages filling their last
block lost the final flag and outputs used chaining instead of the
output counter.
---
 lib/hash/skein1024.c | 31 +++++++++++++++++++------------
 lib/hash/skein256.c  | 31 +++++++++++++++++++------------
 lib/hash/skein512.c  | 31 +++++++++++++++++++------------
 3 files changed, 57 insertions(+), 36 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..f7a545b 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -91,7 +91,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +146,7 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +154,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -167,26 +169,31 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		skein1024_process(s);
 		s->f = -1;
 		s->i = 128;
-		memset(s->buf, 0, 128);
+		memset(s->buf, 0, 128); /* output counter */
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 128; s->i++)
+				s->h[s->i] ^= s->buf[s->i];
+
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..f8ed6f9 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -91,7 +91,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +146,7 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +154,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -167,26 +169,31 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		skein256_process(s);
 		s->f = -1;
 		s->i = 32;
-		memset(s->buf, 0, 32);
+		memset(s->buf, 0, 32); /* output counter */
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 32; s->i++)
+				s->h[s->i] ^= s->buf[s->i];
+
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..c63021d 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -91,7 +91,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +146,7 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +154,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -167,26 +169,31 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		skein512_process(s);
 		s->f = -1;
 		s->i = 64;
-		memset(s->buf, 0, 64);
+		memset(s->buf, 0, 64); /* output counter */
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 64; s->i++)
+				s->h[s->i] ^= s->buf[s->i];
+
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
-- 
2.43.0


From da555b7d2eb47af3abffd7911e2eff2fdaf06a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 15/38] fix: skein stream: absorb the whole key and iv, do not
 emit setup data

The first block of keystream was the contents of the setup buffer and
key and iv chunks were zeroed instead of padded.
---
 lib/stream/skein1024.c | 8 +++++---
 lib/stream/skein256.c  | 8 +++++---
 lib/stream/skein512.c  | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..59adfa6 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128;
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..790b40d 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32;
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..ea40049 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64;
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
-- 
2.43.0


From a42eb5774d9d1e3e5e83f13d7559fc36bd0096fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:48 +0000
Subject: [PATCH 16/38] fix: blake: counter is zero for a last block without
 message bits

---
 lib/hash/blake256.c | 5 ++++-
 lib/hash/blake512.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..919c502 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,8 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	const unsigned int n = s->i;
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -237,7 +239,8 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	/* no message bits in the last block */
+	if(!n || n >= 56) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..521e55d 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,8 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	const unsigned int n = s->i;
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -242,7 +244,8 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	/* no message bits in the last block */
+	if(!n || n >= 112) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From 5f5232a42d2cfa0020440978807e1b52d960d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:48 +0000
Subject: [PATCH 17/38] fix: blake2: a message filling its last block lost the
 final flag

---
 lib/hash/blake2b.c | 5 +++--
 lib/hash/blake2s.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..3b30a34 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,7 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +190,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..71eff76 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,7 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is kept back, it may be the final one */
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +188,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 51b185866c0607e46c9032bdd343f5399c16048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 18/38] fix: pkcs7: full padding block was not removed, empty
 input was read

---
 lib/pkcs7.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..f064486 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -32,7 +32,7 @@ size_t kripto_pkcs7_add
 
 	pad = pad - (len & (pad - 1));
 
-	if(pad + len > maxlen) return 0;
+	if(len > maxlen || pad > maxlen - len) return 0;
 
 	for(i = 0; i < pad; i++)
 		U8(buf)[len + i] = pad;
@@ -42,7 +42,9 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
+	if(!len) return 0;
+
+	if(U8(buf)[len - 1] <= len)
 		return (len - U8(buf)[len - 1]);
 	else
 		return len;
-- 
2.43.0


From 1ca528098668026c1b0296444fd9db09eb95ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 19/38] fix: xtea: decryption with an odd number of rounds

---
 lib/block/xtea.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 713c9cf..3dc0299 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -87,12 +87,11 @@ static void xtea_decrypt(const kripto_block *s, const void *ct, void *pt)
 	uint32_t x1 = LOAD32B(CU8(ct) + 4);
 	unsigned int i = s->rounds;
 
+	if(i & 1) x0 -= F(x1) ^ s->k[--i];
+
 	while(i)
 	{
 		x1 -= F(x0) ^ s->k[--i];
-
-		if(i == UINT_MAX) break;
-
 		x0 -= F(x1) ^ s->k[--i];
 	}
 
-- 
2.43.0


From b0a31e15ff3d7eca0051d9cf77b3d25be0638564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 20/38] fix: speck: division by zero for keys of at most one
 word

---
 lib/block/speck128.c | 2 +-
 lib/block/speck32.c  | 2 +-
 lib/block/speck64.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 70cd0de..60e398d 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -86,7 +86,7 @@ static void speck128_setup
 )
 {
 	uint64_t k[4] = {0, 0, 0, 0};
-	unsigned int m = ((len + 7) >> 3) - 1;
+	unsigned int m = len > 8 ? ((len + 7) >> 3) - 1 : 1;
 
 	LOAD64L_ARRAY(key, k, len);
 
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index bbf563f..8b710d7 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -86,7 +86,7 @@ static void speck32_setup
 )
 {
 	uint16_t k[4] = {0, 0, 0, 0};
-	unsigned int m = ((len + 1) >> 1) - 1;
+	unsigned int m = len > 2 ? ((len + 1) >> 1) - 1 : 1;
 
 	LOAD16L_ARRAY(key, k, len);
 
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index a20ecce..11b38bf 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -86,7 +86,7 @@ static void speck64_setup
 )
 {
 	uint32_t k[4] = {0, 0, 0, 0};
-	unsigned int m = ((len + 3) >> 2) - 1;
+	unsigned int m = len > 4 ? ((len + 3) >> 2) - 1 : 1;
 
 	LOAD32L_ARRAY(key, k, len);
 
-- 
2.43.0


From 5ca96350ae9e784e14ca8b721d4b42511fe1505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 21/38] fix: rijndael: round constants were read past the end
 for short keys

---
 lib/block/rijndael.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 70aea61..0da2d11 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -739,7 +739,7 @@ static void rijndael_setup
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ rcon[x++ % 51]; /* the cycle length is 51 */
 
 		if(n <= 6)
 		{
-- 
2.43.0


From 02c9803444dac3fc6a35974bd5e77fd6c9b27263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 22/38] fix: safer: key bytes were read past the end for short
 keys

---
 lib/block/safer.c   | 6 ++++++
 lib/block/saferpp.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index f47ba54..e316911 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -262,9 +262,14 @@ static void safer_setup
 	uint8_t *k = s->k;
 	uint8_t ka[9];
 	uint8_t kb[9];
+	uint8_t t[16] = {0};
 
 	kb[8] = ka[8] = 0;
 
+	/* short keys are padded with zeros */
+	memcpy(t, key, len);
+	key = t;
+
 	if(len > 8) key2 = key + 8; /* 128-bit */
 	else key2 = key; /* 64-bit */
 
@@ -297,6 +302,7 @@ static void safer_setup
 
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
+	kripto_memory_wipe(t, 16);
 }
 
 static void safer_destroy(kripto_block *s)
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index a8825a0..f60646d 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -311,9 +311,14 @@ static void saferpp_setup
 	uint8_t *k = s->k;
 	uint8_t ka[17];
 	uint8_t kb[17];
+	uint8_t t[32] = {0};
 
 	kb[16] = ka[16] = 0;
 
+	/* short keys are padded with zeros */
+	memcpy(t, key, len);
+	key = t;
+
 	if(len > 16) key2 = key + 16; /* 256-bit */
 	else key2 = key; /* 128-bit */
 
@@ -358,6 +363,7 @@ static void saferpp_setup
 
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
+	kripto_memory_wipe(t, 32);
 }
 
 static void saferpp_destroy(kripto_block *s)
-- 
2.43.0


From 30171b70ae93ff9638f26d00c577c053ae04398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 23/38] fix: keccak: rate underflow for long outputs

---
 lib/hash/keccak1600.c | 2 ++
 lib/hash/keccak800.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..50f7f58 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -304,6 +304,8 @@ static kripto_hash *keccak1600_recreate
 	s->r = r;
 	if(!s->r) s->r = 24;
 
+	/* the capacity is twice the output, and leaves some rate */
+	if(out_len > 99) out_len = 99;
 	s->rate = 200 - (out_len << 1);
 
 	memset(s->s, 0, 200);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..58f2172 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -289,6 +289,8 @@ static kripto_hash *keccak800_recreate
 	s->r = r;
 	if(!s->r) s->r = 20;
 
+	/* the capacity is twice the output, and leaves some rate */
+	if(out_len > 49) out_len = 49;
 	s->rate = 100 - (out_len << 1);
 
 	memset(s->s, 0, 100);
-- 
2.43.0


From 29de9eae39082d1b5501bc8777271db6731fa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 24/38] fix: hmac: hashed key could overflow the key block

---
 lib/mac/hmac.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..02f6ffb 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -50,6 +50,9 @@ static int hmac_init
 
 	if(key_len > s->blocksize)
 	{
+		/* the hashed key has to fit into one block */
+		if(tag_len > s->blocksize) tag_len = s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
-- 
2.43.0


From dd7a31092b214fee4803820f8f088c02f1d52d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 25/38] fix: eax: use the whole nonce tag, do not leak when
 recreate fails

---
 lib/ae/eax.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..3cc7f2a 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
@@ -237,10 +237,17 @@ static kripto_ae *eax_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->ctr);
+err0: kripto_mac_destroy(s->omac);
+err1: kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->header);
+	goto err;
 err2: kripto_mac_destroy(s->omac);
-err1: free(buf);
-err0:
+	kripto_mac_destroy(s->header);
+	goto err;
+err3: kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+err:
+	free(buf);
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
-- 
2.43.0


From 75dfa42dfbe06a09737e54b893db01b999344234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 26/38] fix: eax2: iv longer or shorter than the tag, key
 split, leaks when recreate fails

---
 lib/ae/eax2.c | 86 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..03b05d5 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -14,6 +14,7 @@
  */
 
 #include <stdint.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -34,7 +35,7 @@ struct kripto_ae
 	kripto_mac *mac;
 	kripto_mac *header;
 	uint8_t *iv;
-	unsigned int len;
+	unsigned int len; /* size of iv */
 };
 
 static void eax2_encrypt
@@ -109,6 +110,23 @@ struct ext
 
 #define EXT(X) ((const struct ext *)(X))
 
+/* length of the stream cipher key, the rest is the MAC key */
+static unsigned int eax2_stream_key
+(
+	const kripto_desc_ae *desc,
+	unsigned int key_len
+)
+{
+	unsigned int maxstream = kripto_stream_maxkey(EXT(desc)->stream);
+	unsigned int maxmac = kripto_mac_maxkey(EXT(desc)->mac);
+	unsigned int len = (key_len + 1) >> 1;
+
+	if(len > maxstream) len = maxstream;
+	if(key_len - len > maxmac) len = key_len - maxmac;
+
+	return len;
+}
+
 static kripto_ae *eax2_create
 (
 	const kripto_desc_ae *desc,
@@ -122,37 +140,38 @@ static kripto_ae *eax2_create
 {
 	kripto_ae *s;
 	uint8_t *buf;
+	unsigned int len; /* both the tag and the stream cipher use the MACed IV */
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
 
+	len = tag_len > iv_len ? tag_len : iv_len;
+
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
 
-	s = (kripto_ae *)malloc(sizeof(kripto_ae) + tag_len);
+	s = (kripto_ae *)malloc(sizeof(kripto_ae) + len);
 	if(!s) goto err1;
 
 	s->desc = desc;
 	s->iv = (uint8_t *)s + sizeof(kripto_ae);
-	s->len = tag_len;
+	s->len = len;
 
 	/* split key */
-	stream_key = (key_len + 1) >> 1;
-	if(stream_key > kripto_stream_maxkey(EXT(desc)->stream))
-		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
+	stream_key = eax2_stream_key(desc, key_len);
 	mac_key = key_len - stream_key;
 
 	/* MAC IV */
-	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
+	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, len);
 	if(!s->mac) goto err2;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err3;
-	buf[tag_len - 1] = 2;
+	if(tag_len) buf[tag_len - 1] = 2;
 	kripto_mac_input(s->mac, buf, tag_len);
 
 	/* create stream cipher */
@@ -169,7 +188,7 @@ static kripto_ae *eax2_create
 	/* create MAC for header */
 	s->header = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
 	if(!s->header) goto err5;
-	buf[tag_len - 1] = 1;
+	if(tag_len) buf[tag_len - 1] = 1;
 	kripto_mac_input(s->header, buf, tag_len);
 
 	free(buf);
@@ -178,7 +197,7 @@ static kripto_ae *eax2_create
 
 err5: kripto_stream_destroy(s->stream);
 err4: kripto_mac_destroy(s->mac);
-err3: kripto_memory_wipe(s->iv, tag_len);
+err3: kripto_memory_wipe(s->iv, len);
 err2: free(s);
 err1: free(buf);
 err0: return 0;
@@ -198,41 +217,37 @@ static kripto_ae *eax2_recreate
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int len; /* both the tag and the stream cipher use the MACed IV */
 	const kripto_desc_ae *desc;
 
-	if(tag_len > s->len)
+	len = tag_len > iv_len ? tag_len : iv_len;
+
+	if(len > s->len)
 	{
 		desc = s->desc;
 		eax2_destroy(s);
 		return eax2_create(desc, rounds, key, key_len, iv, iv_len, tag_len);
 	}
 
-	if(tag_len < s->len)
-		kripto_memory_wipe(s->iv + tag_len, s->len - tag_len);
-
-	s->len = tag_len;
-
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
 
 	/* split key */
-	stream_key = (key_len + 1) >> 1;
-	if(stream_key > kripto_stream_maxkey(EXT(s->desc)->stream))
-		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
+	stream_key = eax2_stream_key(s->desc, key_len);
 	mac_key = key_len - stream_key;
 
 	/* MAC IV */
-	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
+	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, len);
 	if(!s->mac) goto err1;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err1;
-	buf[s->len - 1] = 2;
+	if(tag_len) buf[tag_len - 1] = 2;
 	kripto_mac_input(s->mac, buf, tag_len);
 
 	/* recreate stream cipher */
@@ -249,18 +264,25 @@ static kripto_ae *eax2_recreate
 	/* recreate MAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, mac_key, tag_len);
 	if(!s->header) goto err3;
-	buf[s->len - 1] = 1;
+	if(tag_len) buf[tag_len - 1] = 1;
 	kripto_mac_input(s->header, buf, tag_len);
 
 	free(buf);
 
 	return s;
 
-err3: kripto_stream_destroy(s->stream);
+err0: kripto_mac_destroy(s->mac);
+err1: kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->header);
+	goto err;
 err2: kripto_mac_destroy(s->mac);
-err1: free(buf);
-err0:
-	kripto_memory_wipe(s->iv, tag_len);
+	kripto_mac_destroy(s->header);
+	goto err;
+err3: kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+err:
+	free(buf);
+	kripto_memory_wipe(s->iv, s->len);
 	free(s);
 	return 0;
 }
@@ -284,9 +306,13 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.header = &eax2_header;
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
-	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
-	s->desc.maxiv = kripto_stream_maxiv(stream);
+	s->desc.maxkey = kripto_mac_maxkey(mac);
+	if(s->desc.maxkey > UINT_MAX - kripto_stream_maxkey(stream))
+		s->desc.maxkey = UINT_MAX;
+	else s->desc.maxkey += kripto_stream_maxkey(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
+	s->desc.maxiv = kripto_stream_maxiv(stream);
+	if(s->desc.maxiv > s->desc.maxtag) s->desc.maxiv = s->desc.maxtag;
 
 	return (kripto_desc_ae *)s;
 }
-- 
2.43.0


From 4942be671a3d6d67789224f895e71e6bcea176e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 27/38] fix: ctr: counter increment branched on the counter

---
 lib/stream/ctr.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index 137ca9f..4df3403 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -46,6 +46,7 @@ static void ctr_crypt
 {
 	size_t i;
 	unsigned int n;
+	unsigned int c;
 
 	for(i = 0; i < len; i++)
 	{
@@ -54,8 +55,12 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize; n; n--)
-				if(++s->x[n - 1]) break;
+			/* the counter can be secret (EAX) */
+			for(n = s->blocksize, c = 1; n--; c >>= 8)
+			{
+				c += s->x[n];
+				s->x[n] = c;
+			}
 		}
 
 		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
@@ -71,6 +76,7 @@ static void ctr_prng
 {
 	size_t i;
 	unsigned int n;
+	unsigned int c;
 
 	for(i = 0; i < len; i++)
 	{
@@ -79,8 +85,12 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize; n; n--)
-				if(++s->x[n - 1]) break;
+			/* the counter can be secret (EAX) */
+			for(n = s->blocksize, c = 1; n--; c >>= 8)
+			{
+				c += s->x[n];
+				s->x[n] = c;
+			}
 		}
 
 		U8(out)[i] = s->buf[s->used++];
-- 
2.43.0


From a3f2743d56ab80f8e685383c9d830bc3284311b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:45 +0000
Subject: [PATCH 28/38] fix: block, hash: reject round counts the
 implementation cannot run

Some round counts read past the round constant tables, write past the key
schedule or never end; reject them as the other ciphers do.
---
 lib/block/3way.c      | 2 ++
 lib/block/anubis.c    | 3 +++
 lib/block/blowfish.c  | 3 +++
 lib/block/khazad.c    | 3 +++
 lib/block/lea.c       | 3 +++
 lib/block/noekeon.c   | 2 ++
 lib/block/serpent.c   | 3 +++
 lib/block/shacal2.c   | 2 ++
 lib/block/simon128.c  | 3 +++
 lib/block/simon32.c   | 3 +++
 lib/block/simon64.c   | 3 +++
 lib/block/sm4.c       | 3 +++
 lib/hash/keccak1600.c | 2 ++
 lib/hash/keccak800.c  | 2 ++
 lib/hash/sha2_256.c   | 1 +
 lib/hash/sha2_512.c   | 1 +
 lib/hash/whirlpool.c  | 2 +-
 17 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index 9edb405..165e740 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -16,6 +16,7 @@
 /* modifed by Wei Dai from Joan Daemen's 3way.c
 The original code and all modifications are in the public domain. */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -184,6 +185,7 @@ static kripto_block *threeway_recreate
 	unsigned int key_len
 )
 {
+	assert(r <= 11);
 	if(!r) s->r = 11;
 	else s->r = r;
 
diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 79a37a9..c5a55b2 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -18,6 +18,7 @@
  * and Vincent Rijmen public domain source.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -610,6 +611,8 @@ static void anubis_setup
 	uint32_t x[80];
 	uint32_t kx[80];
 
+	assert(s->rounds <= 64);
+
 	for(r = 0; r < n; r++) kx[r] = 0;
 	LOAD32B_ARRAY(key, kx, key_len);
 
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 9c280ee..7ed505a 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -407,6 +408,8 @@ static void blowfish_setup
 	unsigned int i;
 	unsigned int j;
 
+	assert(s->rounds <= 34);
+
 	/* xor p array with key */
 	for(i = j = 0; i < s->rounds + 2; i++)
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 5189f88..abee00b 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -644,6 +645,8 @@ static void khazad_setup
 {
 	uint64_t k[2] = {0, 0};
 
+	assert(s->r <= 8);
+
 	for(unsigned int i = 0; i < key_len; i++)
 		k[1 - (i >> 3)] |= (uint64_t)CU8(key)[i] << (56 - ((i & 7) << 3));
 
diff --git a/lib/block/lea.c b/lib/block/lea.c
index ebb0ef3..b305c2e 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -122,6 +123,8 @@ static void lea_setup
 {
 	uint32_t *k = s->k;
 
+	assert(!(s->r & 3));
+
 	if(key_len > 24) /* 256-bit */
 	{
 		uint32_t t[8] = {0, 0, 0, 0, 0, 0, 0, 0};
diff --git a/lib/block/noekeon.c b/lib/block/noekeon.c
index 231a2e6..b545797 100644
--- a/lib/block/noekeon.c
+++ b/lib/block/noekeon.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <limits.h>
@@ -162,6 +163,7 @@ static void noekeon_setup
 	uint32_t T;
 
 	if(!s->rounds) s->rounds = 16;
+	assert(s->rounds <= 33);
 
 	/* direct mode */
 	s->k[0] = s->k[1] = s->k[2] = s->k[3] = 0;
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 63ec683..889e78d 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -15,6 +15,7 @@
 
 /* The S-box functions by Dag Arne Osvik */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -595,6 +596,8 @@ static void serpent_setup
 	uint32_t t;
 	unsigned int i;
 
+	assert(!(s->rounds & 7));
+
 	for(i = 0; i < 32; i++) s->k[i] = 0;
 	LOAD32L_ARRAY(key, s->k, key_len);
 
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 6bd6b51..8f5e275 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -177,6 +177,8 @@ static void shacal2_setup
 	unsigned int key_len
 )
 {
+	assert(s->r >= 16 && !(s->r & 7));
+
 	memset(s->k, 0, 64);
 	LOAD32B_ARRAY(key, s->k, key_len);
 
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 87d3460..4919c27 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -108,6 +109,8 @@ static void simon128_setup
 	unsigned int m = (len + 7) >> 3;
 	if(m < 2) m = 2;
 
+	assert(s->rounds >= m);
+
 	for(unsigned int i = 0; i < m; i++)
 		s->k[i] = 0;
 
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 45d955d..27383ab 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -99,6 +100,8 @@ static void simon32_setup
 {
 	uint16_t t;
 
+	assert(s->rounds >= 4);
+
 	s->k[3] = s->k[2] = s->k[1] = s->k[0] = 0;
     LOAD16L_ARRAY(key, s->k, len);
 
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 4797fac..6dba099 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -107,6 +108,8 @@ static void simon64_setup
 	unsigned int m = (len + 3) >> 2;
 	if(m < 3) m = 3;
 
+	assert(s->rounds >= m);
+
 	for(unsigned int i = 0; i < m; i++)
 		s->k[i] = 0;
 
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 079b9db..e75101b 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -167,6 +168,8 @@ static void sm4_setup
 {
 	uint32_t k[4] = {0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC};
 
+	assert(s->r <= 32 && !(s->r & 3));
+
 	for(unsigned int i = 0; i < key_len; i++)
 	{
 		k[i >> 2] ^= CU8(key)[i] << (24 - ((i & 3) << 3));
diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 50f7f58..7816ad6 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -303,6 +304,7 @@ static kripto_hash *keccak1600_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 24;
+	assert(s->r <= 48);
 
 	/* the capacity is twice the output, and leaves some rate */
 	if(out_len > 99) out_len = 99;
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 58f2172..42a99d5 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -288,6 +289,7 @@ static kripto_hash *keccak800_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 20;
+	assert(s->r <= 40);
 
 	/* the capacity is twice the output, and leaves some rate */
 	if(out_len > 49) out_len = 49;
diff --git a/lib/hash/sha2_256.c b/lib/hash/sha2_256.c
index 9eea5fb..2d3cb95 100644
--- a/lib/hash/sha2_256.c
+++ b/lib/hash/sha2_256.c
@@ -89,6 +89,7 @@ static kripto_hash *sha2_256_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 64;
+	assert(s->r <= 128);
 
 	if(out_len > 28)
 	{
diff --git a/lib/hash/sha2_512.c b/lib/hash/sha2_512.c
index 9ffd58c..52847a6 100644
--- a/lib/hash/sha2_512.c
+++ b/lib/hash/sha2_512.c
@@ -137,6 +137,7 @@ static kripto_hash *sha2_512_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 80;
+	assert(s->r <= 160);
 
 	if(out_len > 48)
 	{
diff --git a/lib/hash/whirlpool.c b/lib/hash/whirlpool.c
index 59a412e..162852e 100644
--- a/lib/hash/whirlpool.c
+++ b/lib/hash/whirlpool.c
@@ -897,7 +897,7 @@ static kripto_hash *whirlpool_recreate
 	unsigned int out_len
 )
 {
-	assert(r < 10);
+	assert(r <= 10);
 	(void)salt;
 	(void)salt_len;
 	(void)out_len;
-- 
2.43.0


From da7107805b38af2f107394b8ca8e7443712393eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:07 +0000
Subject: [PATCH 29/38] fix: gost: descriptor allocation failure was not
 checked

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 00c1be2..ca45e2f 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From 47c62209bdb62f8bfe8d19775752a9b5a25b4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:48 +0000
Subject: [PATCH 30/38] fix: gost: reject round counts the key schedule cannot
 fill

---
 lib/block/gost.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index ca45e2f..9374743 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -108,6 +109,8 @@ static void gost_setup
 	unsigned int i;
 	unsigned int j;
 
+	assert(!(s->r & 1) && s->r >= ((key_len + 3) >> 2) << 1);
+
 	for(i = 0; i < (key_len + 3) >> 2; i++)
 		s->k[i] = 0;
 
-- 
2.43.0


From ffa7e7eafb11955065d7a51464b1bae45414e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 31/38] fix: wipe the derived keys when XCBC creation fails

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From 974df1db6acc2bf70d7f009bf7fc3bd5e2803bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 32/38] fix: 3way: decryption with a reduced number of rounds
 used the constants of the full one

---
 lib/block/3way.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index 165e740..98424d3 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -149,6 +149,7 @@ static void threeway_decrypt
 )
 {
 	uint32_t x[3];
+	const uint16_t *rc = rc_d + 11 - s->r;
 	unsigned int i;
 
 	x[0] = LOAD32L(CU8(ct));
@@ -158,15 +159,15 @@ static void threeway_decrypt
 	MU(x);
 	for(i = 0; i < s->r; i++)
 	{
-		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+		x[0] ^= s->dk[0] ^ (rc[i] << 16);
 		x[1] ^= s->dk[1];
-		x[2] ^= s->dk[2] ^ rc_d[i];
+		x[2] ^= s->dk[2] ^ rc[i];
 		THETA(x);
 		PI_GAMMA_PI(x);
 	}
-	x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+	x[0] ^= s->dk[0] ^ (rc[i] << 16);
 	x[1] ^= s->dk[1];
-	x[2] ^= s->dk[2] ^ rc_d[i];
+	x[2] ^= s->dk[2] ^ rc[i];
 	THETA(x);
 	MU(x);
 
-- 
2.43.0


From 17bc98c2d362b9e58e60054699f3164a6880fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 33/38] fix: threefish: decryption of round counts that are not
 a multiple of eight skipped or repeated rounds

---
 lib/block/threefish1024.c | 2 +-
 lib/block/threefish256.c  | 2 +-
 lib/block/threefish512.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/block/threefish1024.c b/lib/block/threefish1024.c
index d93d2f3..28757aa 100644
--- a/lib/block/threefish1024.c
+++ b/lib/block/threefish1024.c
@@ -226,7 +226,7 @@ static void threefish1024_decrypt
 	uint64_t x13 = LOAD64L(CU8(ct) + 104);
 	uint64_t x14 = LOAD64L(CU8(ct) + 112);
 	uint64_t x15 = LOAD64L(CU8(ct) + 120);
-	unsigned int r = s->rounds >> 2;
+	unsigned int r = ((s->rounds >> 2) + 1) & ~1U;
 
 	while(r > 1)
 	{
diff --git a/lib/block/threefish256.c b/lib/block/threefish256.c
index f114214..048f87f 100644
--- a/lib/block/threefish256.c
+++ b/lib/block/threefish256.c
@@ -117,7 +117,7 @@ static void threefish256_decrypt
 	uint64_t x1 = LOAD64L(CU8(ct) + 8);
 	uint64_t x2 = LOAD64L(CU8(ct) + 16);
 	uint64_t x3 = LOAD64L(CU8(ct) + 24);
-	unsigned int r = s->rounds >> 2;
+	unsigned int r = ((s->rounds >> 2) + 1) & ~1U;
 
 	while(r > 1)
 	{
diff --git a/lib/block/threefish512.c b/lib/block/threefish512.c
index a97d6ac..fb7b0ba 100644
--- a/lib/block/threefish512.c
+++ b/lib/block/threefish512.c
@@ -153,7 +153,7 @@ static void threefish512_decrypt
 	uint64_t x5 = LOAD64L(CU8(ct) + 40);
 	uint64_t x6 = LOAD64L(CU8(ct) + 48);
 	uint64_t x7 = LOAD64L(CU8(ct) + 56);
-	unsigned int r = s->rounds >> 2;
+	unsigned int r = ((s->rounds >> 2) + 1) & ~1U;
 
 	while(r > 1)
 	{
-- 
2.43.0


From 78eb51c23a04d4172fcb4ba3d9391e933f08013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 34/38] fix: aria, twofish: reject odd round counts, decryption
 did not invert encryption

---
 lib/block/aria.c    | 3 +++
 lib/block/twofish.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/block/aria.c b/lib/block/aria.c
index b735d98..ed134fd 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <stdlib.h>
 #include <limits.h>
+#include <assert.h>
 
 #include <kripto/cast.h>
 #include <kripto/loadstore.h>
@@ -503,6 +504,8 @@ static void aria_setup
 	unsigned int i;
 	unsigned int j = (key_len + 3) >> 2;
 
+	assert(!(s->rounds & 1));
+
 	for(i = 0; i < 8; i++) k[i] = 0;
 	LOAD32B_ARRAY(key, k, key_len);
 
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index c128761..0e018de 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -17,6 +17,7 @@
 
 #include <stdint.h>
 #include <stdlib.h>
+#include <assert.h>
 
 #include <kripto/cast.h>
 #include <kripto/loadstore.h>
@@ -1006,6 +1007,8 @@ static void twofish_setup
 	uint32_t A;
 	uint32_t B;
 
+	assert(!(s->rounds & 1));
+
 	/* copy key */
 	for(x = 0; x < key_len; x++) K[x] = CU8(key)[x];
 	key_len = (key_len + 7) >> 3;
-- 
2.43.0


From e67565f72acee6d5cf37c1cad9868365593d21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 35/38] fix: cast5: keys of 48 to 80 bits use 12 rounds (RFC
 2144)

---
 lib/block/cast5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/cast5.c b/lib/block/cast5.c
index 3d79bb2..8355349 100644
--- a/lib/block/cast5.c
+++ b/lib/block/cast5.c
@@ -703,7 +703,7 @@ static kripto_block *cast5_recreate
 
 	if(!r)
 	{
-		if(key_len <= 5) s->r = 12;
+		if(key_len <= 10) s->r = 12;
 		else s->r = 16;
 	}
 	else s->r = r;
-- 
2.43.0


From dc4ac36f89e30f7349f66f2ddefa84b61dd80693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 36/38] fix: rc5, rc6: mix keys longer than the key table in
 full

---
 lib/block/rc5.c | 2 +-
 lib/block/rc6.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index cd1d4ca..2e7d3a8 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -56,7 +56,7 @@ static void rc5_setup
 		s->k[i] = s->k[i - 1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < (s->r + 1) * 6)
+	while(k < (s->r + 1) * 6 || k < ls * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index 8920a8e..a2e65cd 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -58,7 +58,7 @@ static void rc6_setup
 		s->k[i] = s->k[i-1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < RC6_K_LEN(s->rounds) * 3)
+	while(k < RC6_K_LEN(s->rounds) * 3 || k < ls * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0


From 24a7e7bd79f0671eb0fe567dedb7fdcbd0590070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 37/38] fix: keccak800: round constants and number of rounds of
 Keccak-f[800]

---
 lib/hash/keccak800.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 42a99d5..7e19130 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -40,16 +40,16 @@ struct kripto_hash
 
 static const uint32_t rc[40] = 
 {
-	0x00000001, 0x00008082, 0x8000808A, 0x00008000,
-	0x0000808B, 0x80000001, 0x00008081, 0x80008009,
+	0x00000001, 0x00008082, 0x0000808A, 0x80008000,
+	0x0000808B, 0x80000001, 0x80008081, 0x00008009,
 	0x0000008A, 0x00000088, 0x80008009, 0x8000000A,
-	0x8000808B, 0x8000008B, 0x80008089, 0x80008003,
-	0x80008002, 0x80000080, 0x0000800A, 0x0000000A,
-	0x00008081, 0x80008080, 0x80000001, 0x00008008,
-	0x00008082, 0x0000800A, 0x80000003, 0x00000009,
-	0x80008082, 0x00008009, 0x80000080, 0x00008083,
-	0x80000081, 0x00000001, 0x0000800B, 0x00008001,
-	0x00000080, 0x80008000, 0x00008001, 0x00000009
+	0x8000808B, 0x0000008B, 0x00008089, 0x00008003,
+	0x00008002, 0x00000080, 0x0000800A, 0x8000000A,
+	0x80008081, 0x00008080, 0x80000001, 0x80008008,
+	0x80008082, 0x8000800A, 0x00000003, 0x80000009,
+	0x00008082, 0x00008009, 0x00000080, 0x00008083,
+	0x00000081, 0x00000001, 0x0000800B, 0x80008001,
+	0x00000080, 0x00008000, 0x80008001, 0x00000009
 };
 
 static void keccak800_F(kripto_hash *s)
@@ -288,7 +288,7 @@ static kripto_hash *keccak800_recreate
 	s->o = s->i = 0;
 
 	s->r = r;
-	if(!s->r) s->r = 20;
+	if(!s->r) s->r = 22;
 	assert(s->r <= 40);
 
 	/* the capacity is twice the output, and leaves some rate */
-- 
2.43.0


From 134a0d9eea7e31eabe99d9e8da2fb61e82b2fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 38/38] fix: rotate: portable rotation by zero shifted by the
 width of the operand

---
 include/kripto/rotate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 0b4c6cb..1cd6688 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -118,7 +118,7 @@ static inline uint32_t ROL32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x << r) | (x >> (32 - r));
+	return (x << r) | (x >> ((32 - r) & 31));
 
 #endif
 }
@@ -139,7 +139,7 @@ static inline uint32_t ROR32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x >> r) | (x << (32 - r));
+	return (x >> r) | (x << ((32 - r) & 31));
 
 #endif
 }
@@ -160,7 +160,7 @@ static inline uint64_t ROL64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x << r) | (x >> (64 - r));
+	return (x << r) | (x >> ((64 - r) & 63));
 
 #endif
 }
@@ -181,7 +181,7 @@ static inline uint64_t ROR64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x >> r) | (x << (64 - r));
+	return (x >> r) | (x << ((64 - r) & 63));
 
 #endif
 }
-- 
2.43.0

