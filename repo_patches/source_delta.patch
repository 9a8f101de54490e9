From 857c2d9c5a8061c1fb150b4112ecb05a5e2d43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 01/29] fix: memory provider keeps an empty id entry after
 clearing an id's last session

---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 3c04702..2f1eb3f 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From 404d94160e88920fce6bff5b1fa3ac11990a753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 02/29] fix: bolt provider never removes dead sessions in the
 background (inverted error test)

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..52d8b52 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From 19848128a7c97970a69a679263a92fa80b809a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 03/29] fix: bolt Clear fails on a store that never held a
 session

---
 provider/bolt/provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 52d8b52..760d401 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -856,9 +856,11 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
-			if e != nil {
-				return
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+				if e != nil {
+					return
+				}
 			}
 			e = p.deleteBucket(bMD)
 			if e != nil {
-- 
2.43.0


From 5f88d6fc0f676f7646f34ef2ca3260a070aa70df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 04/29] fix: bolt Clear on a closed provider keeps the lock

---
 provider/bolt/provider.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 760d401..2ec8f99 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -883,7 +883,6 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
-		return
 	}
 	p.m.Unlock()
 	return
-- 
2.43.0


From 7c72a70ef7bfbc7e7029b8872515989f8a22eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 05/29] fix: bolt Get returns slices of the memory map that are
 invalid after the transaction

---
 provider/bolt/metadata.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..6be1716 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -169,8 +169,11 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 	for i, k := range key {
 		b := bucket.Get([]byte(k))
 		if b != nil {
+			// b is valid during the transaction only
+			val := make([]byte, len(b))
+			copy(val, b)
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				Bytes:  val,
 				Exists: true,
 			}
 		}
-- 
2.43.0


From de1537ace2819749140d387cbd5c50ec788fcbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 06/29] fix: bolt periodic clearing may write to the caller's
 database after Close

---
 provider/bolt/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 2ec8f99..e8f6a14 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -158,6 +158,9 @@ func (p *Provider) data(t *bolt.Tx) (store, md, data *bolt.Bucket) {
 }
 
 func (p *Provider) doClear() {
+	if p.done != 0 {
+		return
+	}
 	p.db.Update(func(t *bolt.Tx) (e error) {
 		var (
 			store                  = p.store(t)
-- 
2.43.0


From bd8db799286608e179d210fe5458453641a10c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 07/29] fix: bolt provider exceeds its limit after reopening
 with a smaller one

---
 provider/bolt/provider.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index e8f6a14..f28b3ae 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -310,11 +310,18 @@ func (p *Provider) Create(ctx context.Context,
 		if e != nil {
 			return
 		}
-		if p.opts.maxSize > 0 &&
-			p.count(store) >= uint64(p.opts.maxSize) {
-			e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
-			if e != nil {
-				return
+		if p.opts.maxSize > 0 {
+			// more than one if the store was opened with a larger limit before
+			for count := p.count(store); count >= uint64(p.opts.maxSize); {
+				e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
+				if e != nil {
+					return
+				}
+				last := count
+				count = p.count(store)
+				if count >= last {
+					break
+				}
 			}
 		}
 
-- 
2.43.0


From d032ebd3c7259d6b679363a41f9bbe514de8618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 08/29] fix: Session.Get panics on a nil pointer

---
 session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 2ab136d..4b1602f 100644
--- a/session.go
+++ b/session.go
@@ -153,7 +153,7 @@ func (s *Session) getKey(key string) (val value, exists bool) {
 // Get key's value
 func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e error) {
 	vo := reflect.ValueOf(pointer)
-	if vo.Kind() != reflect.Ptr {
+	if vo.Kind() != reflect.Ptr || vo.IsNil() {
 		e = ErrNeedsPointer
 		return
 	} else if vo.Elem().Kind() == reflect.Ptr {
-- 
2.43.0


From 60916c5b71ed3ef5286fa84b5f2602a2d9f7b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 09/29] fix: Session.Get answers from a cache that mixes up
 types and shares memory with the caller

---
 session.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/session.go b/session.go
index 4b1602f..2627deb 100644
--- a/session.go
+++ b/session.go
@@ -162,17 +162,13 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	}
 	if v, ok := s.getKey(key); ok {
 		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
+			if v.Ready && vo.Elem().Type() == v.Elem.Elem().Type() {
 				vo.Elem().Set(v.Elem.Elem())
 			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
+				e = s.decode(&v, vo)
 				if e != nil {
 					return
 				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
 				s.keys[key] = v
 			}
 			return
@@ -196,22 +192,37 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 		return
 	}
 	// ready
-	e = s.coder.Decode(vals[0].Bytes, pointer)
-	if e != nil {
-		return
-	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
-
 	var v value
 	v.Exists = true
 	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
+	e = s.decode(&v, vo)
+	if e != nil {
+		return
+	}
 	s.keys[key] = v
 	return
 }
 
+// decode v.Bytes to the value vo points to, whatever that value holds now
+func (s *Session) decode(v *value, vo reflect.Value) (e error) {
+	// the coder may keep the bytes it is given
+	b := make([]byte, len(v.Bytes))
+	copy(b, v.Bytes)
+	// do not decode to the caller's value, what it holds would be merged into the result
+	p := reflect.New(vo.Elem().Type())
+	e = s.coder.Decode(b, p.Interface())
+	if e != nil {
+		return
+	}
+	vo.Elem().Set(p.Elem())
+	// only cache values that share no memory with the caller
+	if kind := p.Elem().Kind(); kind <= reflect.Complex128 || kind == reflect.String {
+		v.Ready = true
+		v.Elem = p
+	}
+	return
+}
+
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
 	return s.provider.Delete(ctx, token, key)
-- 
2.43.0


From 193075e26a42dd4acb87ad4755a2cb2e820cca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 10/29] fix: Session cache shares memory with the value given
 to Put

---
 session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 2627deb..a1ab996 100644
--- a/session.go
+++ b/session.go
@@ -88,9 +88,12 @@ func (s *Session) Put(ctx context.Context, pair ...Pair) (e error) {
 		s.keys = make(map[string]value)
 	}
 	for i := 0; i < count; i++ {
+		// the coder may have returned the caller's bytes
+		b = make([]byte, len(kv[i].Value))
+		copy(b, kv[i].Value)
 		val := Value{
 			Exists: true,
-			Bytes:  kv[i].Value,
+			Bytes:  b,
 		}
 		s.keys[kv[i].Key] = value{
 			Value: val,
-- 
2.43.0


From 57f47b8dadae8727655dba2768de92afd78e8f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 11/29] fix: Session.Get returns keys that Session.Delete has
 deleted

---
 session.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index a1ab996..32999c0 100644
--- a/session.go
+++ b/session.go
@@ -228,5 +228,11 @@ func (s *Session) decode(v *value, vo reflect.Value) (e error) {
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
-	return s.provider.Delete(ctx, token, key)
+	e = s.provider.Delete(ctx, token, key)
+	if e == nil && token == s.token {
+		for _, k := range key {
+			delete(s.keys, k)
+		}
+	}
+	return
 }
-- 
2.43.0


From 37a8b9b2cfcdb1190ae1495fa896cd031ac9211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 12/29] fix: Verify accepts other texts than the one Sign
 returns (spare bits, line breaks)

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..c07f8f6 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -71,6 +71,10 @@ func (m *SigningMethodHMAC) Verify(signingString, signature string, key interfac
 	if err != nil {
 		return err
 	}
+	// Only the text that Sign returns is valid, not other encodings of the same bytes
+	if EncodeSegment(sig) != signature {
+		return ErrSignatureInvalid
+	}
 
 	// Can we use the specified hashing method?
 	if !m.Hash.Available() {
-- 
2.43.0


From e6981841e6944dfc2f38e317e2a14d38cb8f7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 13/29] fix: signing methods are unavailable unless the program
 links their hash functions

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index c07f8f6..2b4e1a6 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -3,6 +3,10 @@ package cryptoer
 import (
 	"crypto"
 	"crypto/hmac"
+	_ "crypto/md5"
+	_ "crypto/sha1"
+	_ "crypto/sha256"
+	_ "crypto/sha512"
 	"encoding/base64"
 	"errors"
 )
-- 
2.43.0


From 574e6fa32d68d7888bee0111ff104621606c1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 14/29] fix: redis Refresh reports success for a session past
 its refresh lifetime

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..c6820d1 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -409,6 +409,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From a849a9ee91c5e17b4c0311f0d141ac314168a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 15/29] fix: redis keys expire up to a second before the
 refresh lifetime ends

---
 provider/redis/provider.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c6820d1..f1178cb 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -152,8 +152,8 @@ func (p *Provider) Create(ctx context.Context,
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields...)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Expire(ctx, key, p.opts.refresh)
+	tx.PExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpire(ctx, key, p.opts.refresh)
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -286,7 +286,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.RefreshDeadline)
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -426,7 +426,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.RefreshDeadline)
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From 150ac80e7621d696a28b401e56c8e99bb1760e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 16/29] fix: redis Create under a stored token keeps the old
 session's data

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index f1178cb..53a8fea 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -151,6 +151,7 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
 	tx.PExpireAt(ctx, key, md.RefreshDeadline)
 	tx.PExpire(ctx, key, p.opts.refresh)
-- 
2.43.0


From 17fc7aca8cf10fcbaa74d101a7c1a6cfb213485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 17/29] fix: redis Keys, Get and Delete expose the metadata
 key; Keys and Delete ignore the session's state

---
 provider/redis/provider.go | 61 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 53a8fea..b19c6e0 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -208,7 +208,10 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	return
 }
 func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+	return p.toMetadata(p.opts.client.HGet(ctx, key, p.opts.metadataKey), md)
+}
+func (p *Provider) toMetadata(cmd *redis.StringCmd, md *_Metadata) (val string, e error) {
+	val, e = cmd.Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -303,6 +306,12 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 		return
 	}
 
+	for _, k := range keys {
+		e = p.checkKey(k)
+		if e != nil {
+			return
+		}
+	}
 	fields := make([]string, 1+len(keys))
 	fields[0] = p.opts.metadataKey
 	copy(fields[1:], keys)
@@ -357,11 +366,38 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
+	key := p.keyName(token)
+	tx := p.opts.client.TxPipeline()
+	defer tx.Close()
+	mdCmd := tx.HGet(ctx, key, p.opts.metadataKey)
+	keysCmd := tx.HKeys(ctx, key)
+	_, e = tx.Exec(ctx)
+	if e != nil && !errors.Is(e, redis.Nil) {
+		e = p.toError(e)
+		return
+	}
+	var md _Metadata
+	_, e = p.toMetadata(mdCmd, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
+	fields, e := keysCmd.Result()
 	if e != nil {
 		e = p.toError(e)
 		return
 	}
+	for _, field := range fields {
+		if field != p.opts.metadataKey {
+			keys = append(keys, field)
+		}
+	}
 	return
 }
 
@@ -371,10 +407,29 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	if e != nil {
 		return
 	}
+	for _, k := range keys {
+		e = p.checkKey(k)
+		if e != nil {
+			return
+		}
+	}
+	var md _Metadata
+	key := p.keyName(token)
+	_, e = p.getMetadata(ctx, key, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
 	if len(keys) == 0 {
 		return
 	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
+	_, e = p.opts.client.HDel(ctx, key, keys...).Result()
 	if e != nil {
 		e = p.toError(e)
 		return
-- 
2.43.0


From cdd26c3fb3dadcbbe7c8ebff1caeb84473177731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 18/29] fix: redis Put, Delete and Refresh race with other
 calls on the session (lost destroys, double refresh)

---
 provider/redis/provider.go | 133 +++++++++++++++++++++++--------------
 1 file changed, 82 insertions(+), 51 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index b19c6e0..5c62efe 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -207,6 +207,16 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	}
 	return
 }
+
+// watch runs f in an optimistic transaction on key, again if the key has changed before f's commands were executed
+func (p *Provider) watch(ctx context.Context, key string, f func(tx *redis.Tx) error) (e error) {
+	for {
+		e = p.opts.client.Watch(ctx, f, key)
+		if !errors.Is(e, redis.TxFailedErr) {
+			return
+		}
+	}
+}
 func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
 	return p.toMetadata(p.opts.client.HGet(ctx, key, p.opts.metadataKey), md)
 }
@@ -272,26 +282,31 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		fields = append(fields, field.Key, string(field.Value))
 	}
 
-	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
-	if e != nil {
+	deleted := false
+	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		mdStr, e := p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HSet(ctx, key, append(fields, p.opts.metadataKey, mdStr))
+			pipe.PExpireAt(ctx, key, md.RefreshDeadline)
+			return nil
+		})
 		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
+	})
+	if deleted {
 		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
-		return
 	}
-	fields = append(fields, p.opts.metadataKey, mdStr)
-
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, fields)
-	tx.PExpireAt(ctx, key, md.RefreshDeadline)
-	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
 		return
@@ -413,23 +428,33 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 			return
 		}
 	}
-	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
-	if e != nil {
+	deleted := false
+	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		}
+		if len(keys) == 0 {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HDel(ctx, key, keys...)
+			return nil
+		})
 		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
+	})
+	if deleted {
 		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
-		return
-	}
-	if len(keys) == 0 {
-		return
 	}
-	_, e = p.opts.client.HDel(ctx, key, keys...).Result()
 	if e != nil {
 		e = p.toError(e)
 		return
@@ -459,32 +484,38 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	}
-	var md _Metadata
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
-	if e != nil {
+	newkey := p.keyName(newAccess)
+	deleted := false
+	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.Refresh != refresh {
+			e = sessionid.ErrRefreshTokenNotMatched
+			return
+		}
+		md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
+		b, e := p.opts.coder.Encode(&md)
+		if e != nil {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HSet(ctx, key, p.opts.metadataKey, string(b))
+			pipe.PExpireAt(ctx, key, md.RefreshDeadline)
+			pipe.Rename(ctx, key, newkey)
+			return nil
+		})
 		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
+	})
+	if deleted {
 		p.pushDelete(key)
-		return
-	} else if md.Refresh != refresh {
-		e = sessionid.ErrRefreshTokenNotMatched
-		return
 	}
-	md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
-	b, e := p.opts.coder.Encode(&md)
-	if e != nil {
-		return
-	}
-
-	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.PExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Rename(ctx, key, newkey)
-	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
 		return
-- 
2.43.0


From 99a74b3030fa7731eaee75eec8879c83fcc94f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 19/29] fix: redis Destroy treats the id and the prefix as a
 pattern and misses sessions being refreshed

---
 provider/redis/provider.go | 49 ++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 5c62efe..06ae645 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -11,6 +12,15 @@ import (
 	"github.com/powerpuffpenguin/sessionid"
 )
 
+// globEscaper escapes the special characters of redis patterns
+var globEscaper = strings.NewReplacer(
+	`\`, `\\`,
+	`*`, `\*`,
+	`?`, `\?`,
+	`[`, `\[`,
+	`]`, `\]`,
+)
+
 // Provider a provider store data on local bolt database
 type Provider struct {
 	opts options
@@ -175,22 +185,31 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
-	e = result.Err()
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
-	keys := result.Val()
-	if len(keys) == 0 {
-		return
-	}
-	e = p.opts.client.Del(ctx, keys...).Err()
-	if e != nil {
-		e = p.toError(e)
-		return
+	pattern := globEscaper.Replace(p.keyName(id)) + `.*`
+	// a session found may be refreshed before it is deleted, so look again until there are none
+	for {
+		var keys, found []string
+		found, e = p.opts.client.Keys(ctx, pattern).Result()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
+		for _, key := range found {
+			// id itself may contain separators
+			s, _, _, err := sessionid.Split(key[len(p.opts.keyPrefix):])
+			if err == nil && s == id {
+				keys = append(keys, key)
+			}
+		}
+		if len(keys) == 0 {
+			return
+		}
+		e = p.opts.client.Del(ctx, keys...).Err()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
 	}
-	return
 }
 
 // Destroy a session by token
-- 
2.43.0


From d05fb769c5d9266be18aa4caf892f470eb958c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 20/29] fix: redis providers whose key prefixes extend one
 another use and destroy each other's sessions

---
 provider/redis/provider.go | 56 ++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 06ae645..c16447c 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -196,10 +196,19 @@ func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
 		}
 		for _, key := range found {
 			// id itself may contain separators
-			s, _, _, err := sessionid.Split(key[len(p.opts.keyPrefix):])
-			if err == nil && s == id {
-				keys = append(keys, key)
+			token := key[len(p.opts.keyPrefix):]
+			s, _, _, err := sessionid.Split(token)
+			if err != nil || s != id {
+				continue
 			}
+			var md _Metadata
+			_, e = p.getMetadata(ctx, token, &md)
+			if errors.Is(e, sessionid.ErrTokenNotExists) {
+				continue
+			} else if e != nil {
+				return
+			}
+			keys = append(keys, key)
 		}
 		if len(keys) == 0 {
 			return
@@ -219,7 +228,22 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 		return
 	}
 
-	e = p.opts.client.Del(ctx, p.keyName(token)).Err()
+	key := p.keyName(token)
+	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), token, &md)
+		if errors.Is(e, sessionid.ErrTokenNotExists) {
+			e = nil
+			return
+		} else if e != nil {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.Del(ctx, key)
+			return nil
+		})
+		return
+	})
 	if e != nil {
 		e = p.toError(e)
 		return
@@ -236,10 +260,10 @@ func (p *Provider) watch(ctx context.Context, key string, f func(tx *redis.Tx) e
 		}
 	}
 }
-func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	return p.toMetadata(p.opts.client.HGet(ctx, key, p.opts.metadataKey), md)
+func (p *Provider) getMetadata(ctx context.Context, token string, md *_Metadata) (val string, e error) {
+	return p.toMetadata(p.opts.client.HGet(ctx, p.keyName(token), p.opts.metadataKey), token, md)
 }
-func (p *Provider) toMetadata(cmd *redis.StringCmd, md *_Metadata) (val string, e error) {
+func (p *Provider) toMetadata(cmd *redis.StringCmd, token string, md *_Metadata) (val string, e error) {
 	val, e = cmd.Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
@@ -253,6 +277,11 @@ func (p *Provider) toMetadata(cmd *redis.StringCmd, md *_Metadata) (val string,
 	if e != nil {
 		return
 	}
+	if md.Access != token {
+		// the session of a provider whose key prefix is longer
+		e = sessionid.ErrTokenNotExists
+		return
+	}
 	return
 }
 
@@ -265,7 +294,7 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, token, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -305,7 +334,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	deleted := false
 	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
 		var md _Metadata
-		mdStr, e := p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+		mdStr, e := p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), token, &md)
 		if e != nil {
 			return
 		} else if md.IsDeleted() {
@@ -368,6 +397,9 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				if e != nil {
 					p.pushDelete(key)
 					break
+				} else if md.Access != token {
+					e = sessionid.ErrTokenNotExists
+					break
 				} else if md.IsDeleted() {
 					e = sessionid.ErrTokenNotExists
 					p.pushDelete(key)
@@ -411,7 +443,7 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 	var md _Metadata
-	_, e = p.toMetadata(mdCmd, &md)
+	_, e = p.toMetadata(mdCmd, token, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -451,7 +483,7 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	deleted := false
 	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
 		var md _Metadata
-		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), token, &md)
 		if e != nil {
 			return
 		} else if md.IsDeleted() {
@@ -508,7 +540,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	deleted := false
 	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
 		var md _Metadata
-		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+		_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), access, &md)
 		if e != nil {
 			return
 		} else if md.IsDeleted() {
-- 
2.43.0


From 082509266d38622efb8840a8f2afcb14462168cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 21/29] fix: redis background removal deletes sessions that
 were created again

---
 provider/redis/provider.go | 39 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c16447c..a10c9e6 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -93,17 +93,33 @@ func (p *Provider) delete(batch int) {
 			}
 		}
 		// do delete
-		keys := make([]string, 0, len(m))
-		for key := range m {
-			keys = append(keys, key)
+		for token = range m {
+			p.deleteDead(token)
 		}
-		p.opts.client.Del(p.ctx, keys...)
 		// clear task
 		for token = range m {
 			delete(m, token)
 		}
 	}
 }
+
+// deleteDead delete the session if it is still past its refresh lifetime, the token may have been created again
+func (p *Provider) deleteDead(token string) (e error) {
+	key := p.keyName(token)
+	e = p.watch(p.ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.toMetadata(tx.HGet(p.ctx, key, p.opts.metadataKey), token, &md)
+		if e != nil || !md.IsDeleted() {
+			return
+		}
+		_, e = tx.TxPipelined(p.ctx, func(pipe redis.Pipeliner) error {
+			pipe.Del(p.ctx, key)
+			return nil
+		})
+		return
+	})
+	return
+}
 func (p *Provider) tryRead() (token string, yes, closed bool) {
 	select {
 	case <-p.ctx.Done():
@@ -293,13 +309,12 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 	}
 
 	var md _Metadata
-	key := p.keyName(token)
 	_, e = p.getMetadata(ctx, token, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
 		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
+		p.pushDelete(token)
 		return
 	} else if md.IsExpired() {
 		e = sessionid.ErrTokenExpired
@@ -353,7 +368,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		return
 	})
 	if deleted {
-		p.pushDelete(key)
+		p.pushDelete(token)
 	}
 	if e != nil {
 		e = p.toError(e)
@@ -395,14 +410,13 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				var md _Metadata
 				e = p.opts.coder.Decode([]byte(str), &md)
 				if e != nil {
-					p.pushDelete(key)
 					break
 				} else if md.Access != token {
 					e = sessionid.ErrTokenNotExists
 					break
 				} else if md.IsDeleted() {
 					e = sessionid.ErrTokenNotExists
-					p.pushDelete(key)
+					p.pushDelete(token)
 					break
 				} else if md.IsExpired() {
 					e = sessionid.ErrTokenExpired
@@ -410,7 +424,6 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				}
 			} else {
 				e = sessionid.ErrTokenNotExists
-				p.pushDelete(key)
 				break
 			}
 		} else {
@@ -448,7 +461,7 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	} else if md.IsDeleted() {
 		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
+		p.pushDelete(token)
 		return
 	} else if md.IsExpired() {
 		e = sessionid.ErrTokenExpired
@@ -504,7 +517,7 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 		return
 	})
 	if deleted {
-		p.pushDelete(key)
+		p.pushDelete(token)
 	}
 	if e != nil {
 		e = p.toError(e)
@@ -565,7 +578,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 		return
 	})
 	if deleted {
-		p.pushDelete(key)
+		p.pushDelete(access)
 	}
 	if e != nil {
 		e = p.toError(e)
-- 
2.43.0


From 1d4de79167817c5fd15919dce9700b92c5e8dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 22/29] fix: bolt periodic clearing stops at the first live
 session, leaving dead ones created with a shorter lifetime

---
 provider/bolt/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f28b3ae..f681b05 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -181,7 +181,8 @@ func (p *Provider) doClear() {
 				}
 				continue
 			} else if !md.IsDeleted() {
-				break
+				// those behind it may have been created with a shorter lifetime
+				continue
 			}
 			e = p.delete(store, bMD, bData, bIDS, bLRU, string(v), []byte(md.ID), md.LRU)
 			if e != nil {
-- 
2.43.0


From 36b0898442fbeee1ffa706cef024e620e5c885fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 23/29] fix: redis Destroy reports ErrTokenNotExists for
 sessions ended meanwhile and is not atomic

A session found and ended by a racing call made Destroy return its error. The
sessions of an id are now deleted in one transaction on exactly the keys found,
so that an error leaves all of them and a session created meanwhile is kept.
---
 provider/redis/provider.go | 81 +++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 22 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a10c9e6..af950b6 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -201,42 +201,79 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	pattern := globEscaper.Replace(p.keyName(id)) + `.*`
-	// a session found may be refreshed before it is deleted, so look again until there are none
+	// a session found may be refreshed before it is deleted, so look again until the keys found stay as they are
 	for {
-		var keys, found []string
-		found, e = p.opts.client.Keys(ctx, pattern).Result()
+		var keys []string
+		keys, e = p.keysOf(ctx, p.opts.client, id)
 		if e != nil {
 			e = p.toError(e)
 			return
+		} else if len(keys) == 0 {
+			return
+		}
+		watched := make(map[string]bool, len(keys))
+		for _, key := range keys {
+			watched[key] = true
 		}
-		for _, key := range found {
-			// id itself may contain separators
-			token := key[len(p.opts.keyPrefix):]
-			s, _, _, err := sessionid.Split(token)
-			if err != nil || s != id {
-				continue
+		e = p.opts.client.Watch(ctx, func(tx *redis.Tx) (e error) {
+			found, e := p.keysOf(ctx, tx, id)
+			if e != nil {
+				return
+			}
+			dead := make([]string, 0, len(found))
+			for _, key := range found {
+				if !watched[key] {
+					e = redis.TxFailedErr
+					return
+				}
+				var md _Metadata
+				_, e = p.toMetadata(tx.HGet(ctx, key, p.opts.metadataKey), key[len(p.opts.keyPrefix):], &md)
+				if e == nil {
+					dead = append(dead, key)
+				} else if !errors.Is(e, sessionid.ErrTokenNotExists) {
+					return
+				}
 			}
-			var md _Metadata
-			_, e = p.getMetadata(ctx, token, &md)
-			if errors.Is(e, sessionid.ErrTokenNotExists) {
-				continue
-			} else if e != nil {
+			e = nil
+			if len(found) == 0 {
 				return
 			}
-			keys = append(keys, key)
-		}
-		if len(keys) == 0 {
+			// without anything to delete the transaction still tells whether a key found was changed meanwhile
+			_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+				if len(dead) == 0 {
+					pipe.Exists(ctx, found...)
+				} else {
+					pipe.Del(ctx, dead...)
+				}
+				return nil
+			})
 			return
-		}
-		e = p.opts.client.Del(ctx, keys...).Err()
-		if e != nil {
+		}, keys...)
+		if errors.Is(e, redis.TxFailedErr) {
+			continue
+		} else if e != nil {
 			e = p.toError(e)
-			return
 		}
+		return
 	}
 }
 
+// keysOf return the keys of all tokens of the id
+func (p *Provider) keysOf(ctx context.Context, client redis.Cmdable, id string) (keys []string, e error) {
+	found, e := client.Keys(ctx, globEscaper.Replace(p.keyName(id))+`.*`).Result()
+	if e != nil {
+		return
+	}
+	for _, key := range found {
+		// id itself may contain separators
+		s, _, _, err := sessionid.Split(key[len(p.opts.keyPrefix):])
+		if err == nil && s == id {
+			keys = append(keys, key)
+		}
+	}
+	return
+}
+
 // Destroy a session by token
 func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	e = p.checkID(token)
-- 
2.43.0


From 1eae9495b5b969d80ec597f993ca3be115b4dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 24/29] fix: redis calls under way during Close return raw
 network errors instead of ErrProviderClosed

---
 provider/redis/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index af950b6..321db04 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -139,7 +139,8 @@ func (p *Provider) read() (token string, closed bool) {
 	return
 }
 func (p *Provider) toError(e error) error {
-	if errors.Is(e, redis.ErrClosed) {
+	// closing breaks the connections of the calls under way, whose errors vary
+	if errors.Is(e, redis.ErrClosed) || p.ctx.Err() != nil {
 		return sessionid.ErrProviderClosed
 	}
 	return e
-- 
2.43.0


From 6d6e13f7ca7579dfa49b4b7492e37ca2c3978bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 25/29] fix: GetSigningMethod called the factory under the
 registry lock

A factory that looks up another name (an alias) deadlocked as soon as another
goroutine registered a method at the same time, and one that registers always.
---
 cryptoer/signing_method.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cryptoer/signing_method.go b/cryptoer/signing_method.go
index 856e7a4..5a51644 100644
--- a/cryptoer/signing_method.go
+++ b/cryptoer/signing_method.go
@@ -26,9 +26,11 @@ func RegisterSigningMethod(alg string, f func() SigningMethod) {
 // Get a signing method from an "alg" string
 func GetSigningMethod(alg string) (method SigningMethod) {
 	signingMethodLock.RLock()
-	defer signingMethodLock.RUnlock()
+	methodF, ok := signingMethods[alg]
+	signingMethodLock.RUnlock()
 
-	if methodF, ok := signingMethods[alg]; ok {
+	// not under the lock, the factory may use the registry itself
+	if ok {
 		method = methodF()
 	}
 	return
-- 
2.43.0


From 1523291d3455bbb6f9011f34e01ea2b469069c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 26/29] fix: memory Refresh to the token of another session
 corrupted the provider

The other session's list element and id entry stayed behind: a later Destroy
of the id panicked and the limit counted a session that was gone.
---
 provider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/provider.go b/provider.go
index 2f1eb3f..bfe3e52 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,8 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	// as in Create, the new token ends a session it already names
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
-- 
2.43.0


From b7ff5cd6608634c388f64f3007ef7466eb8f05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 27/29] fix: bolt Refresh to the token of another session mixed
 their data

The data of both sessions was merged, and the count, eviction order and id
index kept entries of the session that was replaced.
---
 provider/bolt/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f681b05..eb8530a 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -783,6 +783,11 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			// as in Create, the new token ends a session it already names
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From 6c0112be3742e8a236fb2061e2b9afa7e4e2cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 28/29] fix: redis: sessions with a deadline after the year
 2262 ended at once

PExpireAt of the client computes with nanoseconds, which overflow then.
---
 provider/redis/provider.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 321db04..b009108 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -180,7 +180,7 @@ func (p *Provider) Create(ctx context.Context,
 	defer tx.Close()
 	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
-	tx.PExpireAt(ctx, key, md.RefreshDeadline)
+	p.expireAt(ctx, tx, key, md.RefreshDeadline)
 	tx.PExpire(ctx, key, p.opts.refresh)
 	_, e = tx.Exec(ctx)
 	if e != nil {
@@ -305,6 +305,11 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	return
 }
 
+// expireAt sets when the key expires, PExpireAt of the client overflows for instants after the year 2262
+func (p *Provider) expireAt(ctx context.Context, pipe redis.Pipeliner, key string, at time.Time) {
+	pipe.Do(ctx, "pexpireat", key, at.Unix()*1000+int64(at.Nanosecond())/int64(time.Millisecond))
+}
+
 // watch runs f in an optimistic transaction on key, again if the key has changed before f's commands were executed
 func (p *Provider) watch(ctx context.Context, key string, f func(tx *redis.Tx) error) (e error) {
 	for {
@@ -400,7 +405,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		}
 		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
 			pipe.HSet(ctx, key, append(fields, p.opts.metadataKey, mdStr))
-			pipe.PExpireAt(ctx, key, md.RefreshDeadline)
+			p.expireAt(ctx, pipe, key, md.RefreshDeadline)
 			return nil
 		})
 		return
@@ -609,7 +614,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 		}
 		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
 			pipe.HSet(ctx, key, p.opts.metadataKey, string(b))
-			pipe.PExpireAt(ctx, key, md.RefreshDeadline)
+			p.expireAt(ctx, pipe, key, md.RefreshDeadline)
 			pipe.Rename(ctx, key, newkey)
 			return nil
 		})
-- 
2.43.0


From 5a0442f33ecd21ab7bf87aade1c9eb537f60f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:11 +0000
Subject: [PATCH 29/29] fix: memory, bolt: Create stored a pair of tokens of
 different ids, which redis refuses

---
 provider.go               | 2 +-
 provider/bolt/provider.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider.go b/provider.go
index bfe3e52..fa51bf5 100644
--- a/provider.go
+++ b/provider.go
@@ -298,7 +298,7 @@ func (p *MemoryProvider) Create(ctx context.Context,
 	if e != nil {
 		return
 	}
-	_, _, _, e = Split(refresh)
+	e = p.checkID(id, refresh)
 	if e != nil {
 		return
 	}
diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index eb8530a..5448e07 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -287,7 +287,7 @@ func (p *Provider) Create(ctx context.Context,
 	if e != nil {
 		return
 	}
-	_, _, _, e = sessionid.Split(refresh)
+	e = p.checkID(id, refresh)
 	if e != nil {
 		return
 	}
-- 
2.43.0

