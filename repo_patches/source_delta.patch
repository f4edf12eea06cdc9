From 37988a2885cfb5a8ff974fa868e961956ff6557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 01/16] fix: make Mem.Put and Mem.Update atomic

The existence check and the store were two steps: concurrent Puts of an
absent item could all succeed, and an Update could bring back an item
deleted in between.
---
 io/mem.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..c44caea 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -23,12 +23,14 @@ import (
 
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
+	// Serializes writers, so that checking for existing data and storing is one step.
+	mu   sync.Mutex
 	data sync.Map
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,6 +40,8 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
@@ -57,6 +61,8 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +72,8 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0


From 64974dfaf59c6ce24c97918d00e0a8f14adca9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 02/16] fix: do not share memory between Mem and its callers

Mem kept the slice passed to Put and Update and handed out the stored
slice from Get, so later writes to those buffers changed the stored data.
---
 io/mem.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index c44caea..ce2d381 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -45,7 +45,7 @@ func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, copyBytes(data))
 	return nil
 }
 
@@ -55,8 +55,7 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 	if !ok {
 		return nil, ErrNotFound
 	}
-	data := out.([]byte)
-	return data, nil
+	return copyBytes(out.([]byte)), nil
 }
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
@@ -66,7 +65,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, copyBytes(data))
 	return nil
 }
 
@@ -77,3 +76,8 @@ func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	m.data.Delete(key)
 	return nil
 }
+
+// copyBytes returns a copy of data, so that stored data does not share memory with the caller.
+func copyBytes(data []byte) []byte {
+	return append([]byte{}, data...)
+}
-- 
2.43.0


From a6ca6d5984ee7a110f77e208b00c48956d806440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 03/16] fix: do not write into the caller's id slice in Bolt

Appending the data type to an id slice with spare capacity overwrote
memory of the caller, and made concurrent calls with such ids race.
---
 io/bolt.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..65c8a65 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -53,7 +53,7 @@ func NewBolt(path string) (Bolt, error) {
 }
 
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +64,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -81,7 +81,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -92,9 +92,16 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
 	})
 }
+
+// newBoltKey builds the key in memory of its own, as id may have spare capacity that belongs to the
+// caller.
+func newBoltKey(id []byte, dataType DataType) []byte {
+	key := append([]byte{}, id...)
+	return append(key, dataType.Bytes()...)
+}
-- 
2.43.0


From 62c457a0d64bda350cd204167639df0899b38243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 04/16] fix: return empty data from Bolt.Get instead of not
 found

Items stored with empty data were reported as not found by Get, while
Put and Update treated them as present.
---
 io/bolt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/bolt.go b/io/bolt.go
index 65c8a65..c2410e2 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -68,7 +68,9 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		if data := b.Get(key); data != nil {
+			out = append([]byte{}, data...)
+		}
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From b47f59b14bfc5eb5e15af5bb3978b958af5cebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 05/16] fix: do not append to the caller's groups slice in
 Encrypt

If the slice had spare capacity the caller's ID was written into memory
of the caller; concurrent Encrypt calls sharing such a slice could put
the wrong ID on the access list.
---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From 59a47dbd9636be0b5bd3c0866be7109ac18695ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 06/16] fix: do not accept the caller's own ID as a group

AddUserToGroups counted the caller's user ID among its groups, so any user
could make another user a member of a group that does not exist, after
which GetIdentity failed for that user.
---
 id/standalone.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..9ce5670 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,7 +219,7 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
+	callerGroups := identity.Groups
 	for _, gid := range gids {
 		if _, ok := callerGroups[gid]; !ok {
 			return ErrNotAuthorized
@@ -255,7 +255,7 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
+	callerGroups := identity.Groups
 	for _, gid := range gids {
 		if _, ok := callerGroups[gid]; !ok {
 			return ErrNotAuthorized
-- 
2.43.0


From 9ea5032936e14d768cfee2e634017b1023655673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 07/16] fix: authenticate the requested ID when unsealing users
 and groups

The ID was taken from the stored record itself, so a sealed user or group
copied to another ID in the (untrusted) storage was accepted there: a user
could log in as somebody else.
---
 id/standalone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 9ce5670..8208827 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -373,6 +373,7 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 	if err = json.Unmarshal(userBytes, user); err != nil {
 		return nil, err
 	}
+	user.UID = uid
 
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
@@ -419,6 +420,7 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 	if err := json.Unmarshal(groupBytes, group); err != nil {
 		return nil, err
 	}
+	group.GID = gid
 
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
-- 
2.43.0


From 00b65c0794855cd99241f7d6ff8964b81858f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 08/16] fix: do not link new index nodes to left-over nodes

A Delete interrupted between overwriting a node and removing the next one
leaves a node outside the chain. A later Add could point at its label,
which made a deleted identifier show up in searches again.
---
 index/index.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/index/index.go b/index/index.go
index 098572f..db2fbc4 100644
--- a/index/index.go
+++ b/index/index.go
@@ -106,6 +106,19 @@ func (i *SecureIndex) Add(ctx context.Context, token, keyword, identifier string
 
 	newNode := data.Node{Identifier: identifier, NextCounter: last.NextCounter + 1}
 
+	// An interrupted Delete can leave a Node behind that is no longer part of the chain. Skip such
+	// Nodes, so that the chain never leads to them again.
+	for {
+		_, err := i.getNextNode(ctx, newNode, tagger, cryptor)
+		if errors.Is(err, ErrNodeNotFound) {
+			break
+		}
+		if err != nil {
+			return err
+		}
+		newNode.NextCounter++
+	}
+
 	sealedNode, err := newNode.Seal(label, cryptor)
 	if err != nil {
 		return err
-- 
2.43.0


From 785e4a04f68f22a9d16f9cd2691d06fe7038cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 09/16] fix: copy the log context in CopyCtxLogger

Only the logger struct was copied, so the fields added by the library were
written to memory shared with the caller's logger: concurrent calls raced
and could log each other's method, user and object IDs.
---
 log/log.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..ea75caf 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,9 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	// With copies the context fields. A plain copy of the logger would share their memory with the
+	// caller's logger and with concurrent calls.
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0


From d581a68441d72ce36bba171035e8a212416e6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 10/16] fix: keep strings that are not valid UTF-8 intact when
 sealing

The JSON encoder replaced invalid bytes in sealed strings by U+FFFD, so index
identifiers and access list members came back changed: Delete did not remove
such identifiers, and distinct group IDs became the same.
---
 crypto/cryptor.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crypto/cryptor.go b/crypto/cryptor.go
index a5cb642..8639591 100644
--- a/crypto/cryptor.go
+++ b/crypto/cryptor.go
@@ -18,9 +18,13 @@ package crypto
 import (
 	"fmt"
 
-	json "github.com/json-iterator/go"
+	jsoniter "github.com/json-iterator/go"
 )
 
+// The encoding of sealed data. Escaping HTML would also replace all bytes that are not valid UTF-8 in
+// strings, so that decrypting would not return what was encrypted.
+var sealJSON = jsoniter.Config{EscapeHTML: false}.Froze()
+
 const EncryptionKeyLength = 32
 const WrapperKeyLength = 32
 
@@ -52,12 +56,12 @@ func NewAESCryptor(KEK []byte) (Cryptor, error) {
 }
 
 func (c *Cryptor) Encrypt(plaintext, data interface{}) ([]byte, []byte, error) {
-	plaintextBytes, err := json.Marshal(plaintext)
+	plaintextBytes, err := sealJSON.Marshal(plaintext)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	dataBytes, err := json.Marshal(data)
+	dataBytes, err := sealJSON.Marshal(data)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -86,7 +90,7 @@ func (c *Cryptor) Decrypt(plaintext, data interface{}, wrappedKey, ciphertext []
 		return err
 	}
 
-	dataBytes, err := json.Marshal(data)
+	dataBytes, err := sealJSON.Marshal(data)
 	if err != nil {
 		return err
 	}
@@ -99,5 +103,5 @@ func (c *Cryptor) Decrypt(plaintext, data interface{}, wrappedKey, ciphertext []
 		return err
 	}
 
-	return json.Unmarshal(plaintextBytes, plaintext)
+	return sealJSON.Unmarshal(plaintextBytes, plaintext)
 }
-- 
2.43.0


From 295b9884a6438e3a18b38bbca34dbc58260ed2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 11/16] fix: reject passwords with appended zero bytes

---
 crypto/password.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..d060442 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -18,6 +18,7 @@ package crypto
 import (
 	"crypto/subtle"
 	"encoding/base64"
+	"strings"
 
 	"golang.org/x/crypto/pbkdf2"
 	"golang.org/x/crypto/sha3"
@@ -56,6 +57,12 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	// PBKDF2 pads passwords with zero bytes, so it does not distinguish a password from the same
+	// password followed by zero bytes. Passwords made by GeneratePassword contain none.
+	if strings.HasSuffix(password, "\x00") {
+		return false
+	}
+
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0


From 8e862865d9cdf3621ec87e040df1d6cae7933b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 12/16] fix: KMAC bytepad added a block of zeros to keys that
 already fill whole blocks

---
 crypto/kmac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..e5e84b6 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,7 +117,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - len(buf)%w) % w // none if buf already fills whole blocks
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 26a7859a56ec81c52b2de85f8a279a6263ee9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 13/16] fix: sealing under a map as associated data failed to
 open at random

---
 crypto/cryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/cryptor.go b/crypto/cryptor.go
index 8639591..5ea4fba 100644
--- a/crypto/cryptor.go
+++ b/crypto/cryptor.go
@@ -23,7 +23,7 @@ import (
 
 // The encoding of sealed data. Escaping HTML would also replace all bytes that are not valid UTF-8 in
 // strings, so that decrypting would not return what was encrypted.
-var sealJSON = jsoniter.Config{EscapeHTML: false}.Froze()
+var sealJSON = jsoniter.Config{EscapeHTML: false, SortMapKeys: true}.Froze()
 
 const EncryptionKeyLength = 32
 const WrapperKeyLength = 32
-- 
2.43.0


From 92759165a8d29bec046f9adb75cbee1fa4a83734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:13 +0000
Subject: [PATCH 14/16] fix: tags of maps were different every time

---
 crypto/tagger.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto/tagger.go b/crypto/tagger.go
index 3d4b07f..539cd8d 100644
--- a/crypto/tagger.go
+++ b/crypto/tagger.go
@@ -16,9 +16,12 @@
 package crypto
 
 import (
-	json "github.com/json-iterator/go"
+	jsoniter "github.com/json-iterator/go"
 )
 
+// The encoding of tagged data.
+var tagJSON = jsoniter.Config{EscapeHTML: true, SortMapKeys: true}.Froze()
+
 const TagLength = 32
 const TaggerKeyLength = 32
 
@@ -37,7 +40,7 @@ func NewKMAC256Tagger(key []byte) (Tagger, error) {
 }
 
 func (t *Tagger) Tag(data interface{}) ([]byte, error) {
-	dataBytes, err := json.Marshal(data)
+	dataBytes, err := tagJSON.Marshal(data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 695328707e2c968e08b924ee44cacc031dfb7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 15/16] fix: strings that are not valid UTF-8 shared their tag
 with others

---
 crypto/tagger.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crypto/tagger.go b/crypto/tagger.go
index 539cd8d..af093e6 100644
--- a/crypto/tagger.go
+++ b/crypto/tagger.go
@@ -16,6 +16,8 @@
 package crypto
 
 import (
+	"unicode/utf8"
+
 	jsoniter "github.com/json-iterator/go"
 )
 
@@ -45,6 +47,16 @@ func (t *Tagger) Tag(data interface{}) ([]byte, error) {
 		return nil, err
 	}
 
+	// Escaping HTML replaces bytes that are not valid UTF-8, which would give different strings the
+	// same tag. Such data is encoded with its bytes as they are.
+	rawBytes, err := sealJSON.Marshal(data)
+	if err != nil {
+		return nil, err
+	}
+	if !utf8.Valid(rawBytes) {
+		dataBytes = rawBytes
+	}
+
 	mac := NewKMAC256(t.Key, TagLength, dataBytes)
 	macSum := mac.Sum(nil)
 
-- 
2.43.0


From 72df4c92c8ea84ab6b4d02af56855f812298ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:38 +0000
Subject: [PATCH 16/16] fix: the secure index kept the key provider's buffer as
 its index key

---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index db2fbc4..ea69f2e 100644
--- a/index/index.go
+++ b/index/index.go
@@ -72,7 +72,7 @@ func NewSecureIndex(ctx context.Context, keyProvider key.Provider, ioProvider io
 	return SecureIndex{
 		ioProvider: ioProvider,
 		idProvider: idProvider,
-		indexKey:   keys.IEK,
+		indexKey:   append([]byte{}, keys.IEK...),
 	}, nil
 }
 
-- 
2.43.0

