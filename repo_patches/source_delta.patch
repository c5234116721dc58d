From dbc7ee85ff45472bfcbf4c74f7ba33ead9880861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 01/63] fix: blobshare: reject packed blobs that are too short
 instead of panicking

---
 blobshare/blobshare.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..1cd2ae6 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -6,6 +6,7 @@ package blobshare
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 
@@ -78,6 +79,9 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		return nil, nil, nil, errors.New("packed blob too short")
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +103,9 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		return nil, nil, errors.New("packed blob too short")
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From 0fcc626aeec03da72ec419da3391d440cdd2d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 02/63] fix: ratchet: deliver an empty message that arrives out
 of order

---
 ratchet/ratchet.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..962697e 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -313,7 +313,9 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 
 		sealedMessage := ciphertext[sealedHeaderSize:]
 		copy(nonce[:], header[nonceInHeaderOffset:])
-		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &msgKey.key)
+		// Not nil, even if the message is empty: the caller takes nil for
+		// "no saved key".
+		msg, ok := secretbox.Open([]byte{}, sealedMessage, &nonce, &msgKey.key)
 		if !ok {
 			return nil, errors.New("ratchet: corrupt message")
 		}
-- 
2.43.0


From 69285046b312ccf240273c7db487738e0461021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 03/63] fix: session: a write refused for its size no longer
 consumes a nonce

---
 session/kx.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..dd42a4d 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -416,11 +416,12 @@ func (kx *KX) Read() ([]byte, error) {
 }
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
-	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
-	if uint(len(payload)) > kx.MaxMessageSize {
+	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
+		// The nonce must not be consumed, the peer never sees the message.
 		return ErrOverflow
 	}
+	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From bf45f3ffb8e327ed2cb39eed3509eba13e28792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 04/63] fix: inidb: write the default table first and save new
 empty tables

---
 inidb/inidb.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..5d3c86d 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -12,6 +12,7 @@ package inidb
 import (
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path"
@@ -106,16 +107,16 @@ func (i *INIDB) Save() error {
 		return fmt.Errorf("could not create temporary file: %v", err)
 	}
 
-	// save all records
+	// save all records, the default table must come first because it has no
+	// section header
 	fmt.Fprintf(f, "%v\n", auto)
+	writeRecords(f, i.tables[""])
 	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
-		}
-		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
+		if tk == "" {
+			continue
 		}
-		fmt.Fprintf(f, "\n")
+		fmt.Fprintf(f, "[%v]\n", tk)
+		writeRecords(f, tv)
 	}
 	f.Close()
 
@@ -142,6 +143,14 @@ func (i *INIDB) Save() error {
 	return i.prune()
 }
 
+// writeRecords writes all records of a table followed by an empty line.
+func writeRecords(w io.Writer, table ini.Section) {
+	for rk, rv := range table {
+		fmt.Fprintf(w, "%v = %v\n", rk, rv)
+	}
+	fmt.Fprintf(w, "\n")
+}
+
 func (i *INIDB) prune() error {
 	if i.depth < 0 {
 		return nil
@@ -227,6 +236,7 @@ func (i *INIDB) NewTable(table string) {
 	defer i.mtx.Unlock()
 
 	i.tables.Section(table)
+	i.dirty = true
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From f2b1d5ed299cac77c307ccb09cdbbf80cd9ff979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 05/63] fix: inidb: never leave the database missing or
 truncated when a save is interrupted

---
 inidb/inidb.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 5d3c86d..7d14cd4 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -10,6 +10,7 @@
 package inidb
 
 import (
+	"bufio"
 	"errors"
 	"fmt"
 	"io"
@@ -89,7 +90,7 @@ func New(filename string, create bool, depth int) (*INIDB, error) {
 // follows:
 //	1. Check if the database is dirty and abort process if it isn't
 //	2. Create temporary file that contains all memory tables and records
-//	3. Backup original file
+//	3. Copy original file to a backup
 //	4. Rename temporary file to the original file name
 // This creates a running log of flushes.
 //
@@ -109,25 +110,37 @@ func (i *INIDB) Save() error {
 
 	// save all records, the default table must come first because it has no
 	// section header
-	fmt.Fprintf(f, "%v\n", auto)
-	writeRecords(f, i.tables[""])
+	w := bufio.NewWriter(f)
+	fmt.Fprintf(w, "%v\n", auto)
+	writeRecords(w, i.tables[""])
 	for tk, tv := range i.tables {
 		if tk == "" {
 			continue
 		}
-		fmt.Fprintf(f, "[%v]\n", tk)
-		writeRecords(f, tv)
+		fmt.Fprintf(w, "[%v]\n", tk)
+		writeRecords(w, tv)
+	}
+	err = w.Flush()
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
 	}
-	f.Close()
 
-	// backup original
+	// backup original, the original remains in place until it is replaced
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		original, err := ioutil.ReadFile(i.filename)
+		if err == nil {
+			err = ioutil.WriteFile(backup, original, 0600)
+		}
 		if err != nil {
-			return fmt.Errorf("could not rename original file: %v",
+			_ = os.Remove(f.Name())
+			return fmt.Errorf("could not back up original file: %v",
 				err)
 		}
 	}
@@ -135,6 +148,7 @@ func (i *INIDB) Save() error {
 	// rename new one
 	err = os.Rename(f.Name(), i.filename)
 	if err != nil {
+		_ = os.Remove(f.Name())
 		return fmt.Errorf("could not rename new file: %v", err)
 	}
 
-- 
2.43.0


From 64563edbbabad14c0b0ebcb9bad7a786f6a74ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 06/63] fix: account: a delivery that coincides with coming
 online no longer blocks all deliveries

---
 zkserver/account/account.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..0d5aed4 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -421,13 +421,11 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 		quit:      make(chan struct{}),
 		processed: make(map[string]struct{}),
 	}
+	dn.work <- struct{}{} // first time around start delivering
 	a.online[who] = dn
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
-
 		for {
 			select {
 			case <-dn.quit:
-- 
2.43.0


From f87656d96b93ed203440000d1175572a85cfa691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 07/63] fix: account: store messages atomically and never
 overwrite one

---
 zkserver/account/account.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 0d5aed4..606a2f9 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -25,6 +25,8 @@ import (
 const (
 	CacheDir             = "cache"
 	UserIdentityFilename = "user.ini"
+
+	deliverFilename = "deliver.tmp" // message that is being written
 )
 
 type ErrAlreadyOnline struct {
@@ -314,6 +316,10 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 	// get directory
 	cache := a.accountFile(to, CacheDir)
 
+	// the filename must remain unused until the message is in place
+	a.Lock()
+	defer a.Unlock()
+
 	// calculate next filename
 	filename := time.Now().Format("20060102150405.000000000")
 
@@ -337,12 +343,14 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	a.Lock()
-	defer a.Unlock()
-
-	// and dump it
-	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
+	// and dump it, a message must be complete when it appears in the cache
+	tmp := a.accountFile(to, deliverFilename)
+	err = ioutil.WriteFile(tmp, b.Bytes(), 0600)
+	if err == nil {
+		err = os.Rename(tmp, fullPath)
+	}
 	if err != nil {
+		_ = os.Remove(tmp)
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
 
-- 
2.43.0


From 654acbfe869bbdd4b2445a445566ed94cd61204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 08/63] fix: account: refuse to create a disabled account and
 undo a failed creation

---
 zkserver/account/account.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 606a2f9..b30aeb5 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -127,16 +127,32 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
 	}
+	if a.Disabled(pid.Identity) {
+		return fmt.Errorf("account is disabled: %v",
+			a.accountDirDisabled(pid.Identity))
+	}
 	// make sure account doesn't exist
 	accountName := a.accountDir(pid.Identity)
 	_, err = os.Stat(accountName)
-	if err == nil {
+	exists := err == nil
+	if exists {
 		if !force {
 			return fmt.Errorf("account already exists: %v",
 				accountName)
 		}
 	}
 
+	err = a.create(pid)
+	if err != nil && !exists {
+		// don't leave a partial account behind
+		_ = os.RemoveAll(accountName)
+	}
+
+	return err
+}
+
+// create creates the directories and files of an account.
+func (a *Account) create(pid zkidentity.PublicIdentity) error {
 	// open user db
 	user, err := inidb.New(a.accountFile(pid.Identity,
 		UserIdentityFilename), true, 10)
-- 
2.43.0


From 00f2acbf43948fc770ba9ee803fa88e40f68253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 09/63] fix: account: an acknowledgement that coincides with a
 delivery is not an error

---
 zkserver/account/account.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index b30aeb5..2fc084a 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -479,6 +479,13 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 
 				filename := path.Join(cache, v.Name())
 				f, err := os.Open(filename)
+				if os.IsNotExist(err) {
+					// deleted since the directory was read
+					a.Lock()
+					delete(dn.processed, v.Name())
+					a.Unlock()
+					continue
+				}
 				if err != nil {
 					dn.send(&Notification{
 						Error: fmt.Errorf("%v: %v",
-- 
2.43.0


From 117bd9ec8b63b91cc0861fdb65a2d2b1883bf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 10/63] fix: zkidentity: reject an identity whose handle does
 not belong to its key

---
 zkidentity/zkidentity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..2530776 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,10 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	// the short handle is derived from the key, it can't be picked
+	if p.Identity != sha256.Sum256(p.Key[:]) {
+		return false
+	}
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From c3016c17383915076030cbfa1913485bdabe0451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 11/63] fix: zkserver: refuse the first tag past the tag range
 instead of panicking

---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..b9a4c19 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -447,7 +447,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From 6569f7fc78f7f7742edfe96f3815f3218692b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 12/63] fix: zkserver: an acknowledgement of an unused tag ends
 the session instead of hanging it

---
 zkserver/zkserver.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index b9a4c19..d8e1986 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -521,8 +521,13 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				rids,
 				message.Tag)
 
-			// sanity
-			if m != nil && m.Message.Tag != message.Tag {
+			// sanity; a tag that is not outstanding is already
+			// on the stack and pushing it again would block.
+			if m == nil {
+				return fmt.Errorf("acknowledge of unused tag: "+
+					"%v %v", message.Tag, rids)
+			}
+			if m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
 					"match: %v %v %v",
 					m.Message.Tag,
@@ -530,7 +535,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 					rids)
 			}
 			// see if we have work to do
-			if m != nil && m.Message.Command == rpc.TaggedCmdPush {
+			if m.Message.Command == rpc.TaggedCmdPush {
 				from := kx.TheirIdentity().([32]byte)
 				// err is reporting only
 				err = z.account.Delete(from, m.Identifier)
-- 
2.43.0


From 38a0fcc13a81c6feac7a75de04eec0adcbffd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 13/63] fix: zkserver: the end of a session no longer
 unregisters a newer session of the same account

---
 zkserver/zkserver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index d8e1986..4f3422b 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -410,9 +410,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 		z.account.Offline(rid)
 
-		// mark session offline
+		// mark session offline, unless a newer session of this
+		// identity has registered itself in the mean time
 		z.Lock()
-		delete(z.sessions, rids)
+		if z.sessions[rids] == &sc {
+			delete(z.sessions, rids)
+		}
 		z.Unlock()
 
 		z.Dbg(idS, "handleSession exit: %v", rids)
-- 
2.43.0


From a0289b61b8bb2652832023ee7b7a59ff3de724f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/63] fix: zkserver: a failure to list an account in the
 directory no longer leaves it online forever

---
 zkserver/zkserver.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 4f3422b..8e78265 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -390,15 +390,6 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
-	// populate identity in directory
-	if z.settings.Directory {
-		err := z.account.Push(rid)
-		if err != nil {
-			return fmt.Errorf("handleSession: Push(%v) = %v",
-				rids, err)
-		}
-	}
-
 	tagBitmap := make([]bool, tagDepth) // see if there is a duplicate tag
 	go z.sessionWriter(&sc)
 	go z.sessionNtfn(&sc)
@@ -421,6 +412,15 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// populate identity in directory
+	if z.settings.Directory {
+		err := z.account.Push(rid)
+		if err != nil {
+			return fmt.Errorf("handleSession: Push(%v) = %v",
+				rids, err)
+		}
+	}
+
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From 66e60d0413e8c14c9891d089422a18b30f8e367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 15/63] fix: zkserver: a session whose client stopped reading
 no longer gets stuck online

---
 zkserver/zkserver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 8e78265..692e557 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -220,6 +220,16 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// discard messages until the session ends, otherwise it could
+		// block on a full queue and never get to fail that read
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
-- 
2.43.0


From d50e56e5e7c5f0e75204bfa4b13b204f0fef7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 16/63] fix: zkserver: refuse identities of the wrong length on
 the admin socket instead of panicking

---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..1ee1b60 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From b54820965635ed0f1e1d666e63f8c4194ed6abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 17/63] fix: zkserver: disabling an account ends its session
 however the identity is capitalised

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 692e557..77faba7 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -21,6 +21,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -779,7 +780,7 @@ func (z *ZKS) socketHandler(c net.Conn) {
 
 			// knock user offline
 			z.Lock()
-			if sc, ok := z.sessions[jud.Identity]; ok {
+			if sc, ok := z.sessions[strings.ToLower(jud.Identity)]; ok {
 				z.Dbg(idSock, "user disconnected %s",
 					jud.Identity)
 				sc.kx.Close()
-- 
2.43.0


From 41c6167f74406040767c99050ef3ae905e1f6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 18/63] fix: zkserver: an account disabled while its user logs
 in does not keep the session

---
 zkserver/zkserver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 77faba7..347e4b1 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -423,6 +423,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// The account may have been disabled after it was verified but before
+	// the session could be found and knocked offline.
+	if !z.account.Enabled(rid) {
+		return fmt.Errorf("handleSession: account disabled %v", rids)
+	}
+
 	// populate identity in directory
 	if z.settings.Directory {
 		err := z.account.Push(rid)
-- 
2.43.0


From d7bce6d8123a79ec97665ab1e9558967518e9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 19/63] fix: zkserver: answer a rendezvous publication only
 after the blob is stored

---
 zkserver/rendezvous.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..5a5ca52 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -148,13 +148,6 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -204,6 +197,14 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 			continue
 		}
 
+		// save db back before telling the client that the blob is
+		// stored
+		err = rz.Save()
+		if err != nil {
+			z.Error(idApp, "could not save rendezvous db: %v", err)
+			goto bad
+		}
+
 		// success
 		payload.Error = ""
 		payload.Token = tokenS
-- 
2.43.0


From efe8917891fc09599692e631927c0846656be28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 20/63] fix: zkserver: publications to the rendezvous db at the
 same time no longer lose one another

---
 zkserver/rendezvous.go | 5 +++++
 zkserver/zkserver.go   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 5a5ca52..51e8fc9 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -71,8 +71,10 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	}
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
+	z.rendezvousMtx.Unlock()
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open rendezvous db: %v", err)
 	}
@@ -141,9 +143,11 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	retry := 25
 
 	// open db
+	z.rendezvousMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.rendezvousMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
@@ -212,6 +216,7 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	z.rendezvousMtx.Unlock()
 	reply.Payload = payload
 	writer <- &reply
 	return nil
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 347e4b1..0dbc15d 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -86,6 +86,8 @@ type ZKS struct {
 
 	socket net.Listener // socket for zkserverctl
 
+	rendezvousMtx sync.Mutex // serializes users of the rendezvous db
+
 	// Not mutex entries
 	*debug.Debug
 	account  *account.Account
-- 
2.43.0


From 6fd9cee1748210c7b37f64b266babac0d4c5f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 21/63] fix: zkserver: do not hand out rendezvous blobs that
 have expired

---
 zkserver/rendezvous.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 51e8fc9..6557e2b 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -19,6 +19,9 @@ import (
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
+// maxExpiration is the longest time, in hours, that a blob may be kept.
+const maxExpiration = 168
+
 //func (z *ZKS) pruneRendezvous(rz *inidb.INIDB) error {
 //	r := rz.Records("")
 //	for k, v := range r {
@@ -84,6 +87,7 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 		rzXDR    []byte
 		rzRecord rpc.Rendezvous
 		br       *bytes.Reader
+		exp      int64
 	)
 
 	// get token
@@ -106,7 +110,13 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 		goto bad
 	}
 
-	// XXX check for expiration here
+	// records of servers that did not enforce the expiration hold hours
+	// rather than a time; these are not checked.
+	exp, err = strconv.ParseInt(rzRecord.Expiration, 10, 64)
+	if err == nil && exp > maxExpiration && time.Now().Unix() > exp {
+		payload.Error = "invalid PIN"
+		goto bad
+	}
 
 	// setup reply
 	payload.Error = ""
@@ -141,6 +151,7 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 
 	// do these declarations before goto to shut go compiler up
 	retry := 25
+	var exp uint64
 
 	// open db
 	z.rendezvousMtx.Lock()
@@ -158,12 +169,16 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 		payload.Error = "invalid blob size"
 		goto bad
 	}
-	if exp, err := strconv.ParseUint(r.Expiration, 10, 64); err != nil ||
-		exp > 168 {
+	exp, err = strconv.ParseUint(r.Expiration, 10, 64)
+	if err != nil || exp > maxExpiration {
 		payload.Error = "invalid expiration"
 		goto bad
 	}
 
+	// store the time that the blob expires
+	r.Expiration = strconv.FormatInt(time.Now().
+		Add(time.Duration(exp)*time.Hour).Unix(), 10)
+
 	// store blob
 	for retry > 0 {
 		token, err := tools.RandomUint64()
-- 
2.43.0


From 7098b86b83e53338841c2e30573a685fd14b4a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 22/63] fix: zkserver: honor an account token only once its
 removal has been saved

---
 zkserver/pending.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..2251fe7 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -13,7 +13,7 @@ import (
 	"github.com/companyzero/zkc/inidb"
 )
 
-func (z *ZKS) prunePending(pending *inidb.INIDB) {
+func (z *ZKS) prunePending(pending *inidb.INIDB) error {
 	r := pending.Records("")
 	for k, v := range r {
 		t, err := strconv.ParseInt(v, 10, 64)
@@ -36,9 +36,10 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 	if err != nil {
 		z.Error(idApp, "could not save pending db: %v", err)
 	}
+	return err
 }
 
-func (z *ZKS) validToken(token string, conn net.Conn) bool {
+func (z *ZKS) validToken(token string, conn net.Conn) (valid bool) {
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
@@ -46,7 +47,14 @@ func (z *ZKS) validToken(token string, conn net.Conn) bool {
 		z.Error(idApp, "could not open pending db: %v", err)
 		return false
 	}
-	defer z.prunePending(pending) // kill all expired records
+	defer func() {
+		// kill all expired records; the token may only be honored once
+		// its removal has been saved
+		err := z.prunePending(pending)
+		if err != nil {
+			valid = false
+		}
+	}()
 
 	// get token
 	v, err := pending.Get("", token)
-- 
2.43.0


From 5f052915ed0c1da5830f9a39550d9bab19f00209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 23/63] fix: zkserver: a token presented twice at the same time
 creates one account only

---
 zkserver/pending.go  | 3 +++
 zkserver/zkserver.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 2251fe7..aa0b579 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -40,6 +40,9 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) error {
 }
 
 func (z *ZKS) validToken(token string, conn net.Conn) (valid bool) {
+	z.pendingMtx.Lock()
+	defer z.pendingMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 0dbc15d..7cace03 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -87,6 +87,7 @@ type ZKS struct {
 	socket net.Listener // socket for zkserverctl
 
 	rendezvousMtx sync.Mutex // serializes users of the rendezvous db
+	pendingMtx    sync.Mutex // serializes users of the pending db
 
 	// Not mutex entries
 	*debug.Debug
-- 
2.43.0


From 25e378ab5db85cf7f6179956e2f0575e9f6a86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 24/63] fix: zkserver: refuse to create an account for an
 identity that does not verify

---
 zkserver/account.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/account.go b/zkserver/account.go
index 1ee1b60..856dae1 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -37,6 +37,12 @@ func (z *ZKS) handleAccountCreate(conn net.Conn, ca rpc.CreateAccount) error {
 	z.T(idApp, "handleAccountCreate: %v %v",
 		conn.RemoteAddr(),
 		ca.PublicIdentity.Fingerprint())
+	// an identity that does not verify may well be someone else's
+	if !ca.PublicIdentity.Verify() {
+		z.accountReplyFailure("invalid identity", conn, ca)
+		return fmt.Errorf("invalid identity")
+	}
+
 	// check policy
 	switch z.settings.CreatePolicy {
 	default:
-- 
2.43.0


From 1070a7e9070a25795d68974f08a07141e2ba2066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 25/63] fix: account: concurrent creations of one account do
 not undo each other

---
 zkserver/account/account.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 2fc084a..46b996e 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -41,6 +41,8 @@ func (e ErrAlreadyOnline) Error() string {
 type Account struct {
 	root string // root location of all accounts
 
+	createMtx sync.Mutex // serializes account creation
+
 	// mutexed memebers
 	sync.Mutex
 	online map[[32]byte]diskNotification
@@ -123,6 +125,9 @@ func (a *Account) accountFile(id [zkidentity.IdentitySize]byte,
 // createAccount creates all directories and files associated with an account.
 // It returns a logable and a sanitized error.
 func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
+	a.createMtx.Lock()
+	defer a.createMtx.Unlock()
+
 	_, err := a.Find(pid.Nick)
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
-- 
2.43.0


From 41b62672bfeac6e79fcf38ba25809500c6a9bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 26/63] fix: account: an account that cannot be read no longer
 hides the others from the directory

---
 zkserver/account/account.go | 59 +++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 46b996e..e060a00 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -213,6 +213,34 @@ func (a *Account) Push(id [zkidentity.IdentitySize]byte) error {
 	return nil
 }
 
+// listed returns the identity of the account in the provided directory.  If the
+// account is not listed it returns nil.
+func listed(dirname string) (*zkidentity.PublicIdentity, error) {
+	user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
+	if err != nil {
+		return nil, fmt.Errorf("could not find user: %v", err)
+	}
+	listed, err := user.Get("", "listed")
+	if err != nil || listed != "1" {
+		return nil, nil
+	}
+	b64, err := user.Get("", "identity")
+	if err != nil {
+		return nil, fmt.Errorf("could not get user: %v", err)
+	}
+	blob, err := base64.StdEncoding.DecodeString(b64)
+	if err != nil {
+		return nil, fmt.Errorf("could not decode user: %v", err)
+	}
+	id := new(zkidentity.PublicIdentity)
+	br := bytes.NewReader(blob)
+	_, err = xdr.Unmarshal(br, &id)
+	if err != nil {
+		return nil, fmt.Errorf("could not unmarshal user: %v", err)
+	}
+	return id, nil
+}
+
 func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 	a.Lock()
 	fi, err := ioutil.ReadDir(a.root)
@@ -221,33 +249,12 @@ func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 		return nil, fmt.Errorf("could not find user: %v", err)
 	}
 	for _, v := range fi {
-		dirname := path.Join(a.root, v.Name())
-		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
-		if err != nil {
-			a.Unlock()
-			return nil, fmt.Errorf("could not find user: %v", err)
-		}
+		id, err := listed(path.Join(a.root, v.Name()))
 		a.Unlock()
-
-		listed, err := user.Get("", "listed")
-		if err == nil && listed == "1" {
-			b64, err := user.Get("", "identity")
-			if err != nil {
-				return nil, fmt.Errorf("could not get user: %v", err)
-			}
-			blob, err := base64.StdEncoding.DecodeString(b64)
-			if err != nil {
-				return nil, fmt.Errorf("could not decode user: %v", err)
-			}
-			id := new(zkidentity.PublicIdentity)
-			br := bytes.NewReader(blob)
-			_, err = xdr.Unmarshal(br, &id)
-			if err != nil {
-				return nil, fmt.Errorf("could not unmarshal user: %v", err)
-			}
-			if id.Nick == nick {
-				return id, nil
-			}
+		// An account that can't be read, e.g. because it is being
+		// created, must not hide the others.
+		if err == nil && id != nil && id.Nick == nick {
+			return id, nil
 		}
 		a.Lock()
 	}
-- 
2.43.0


From 46681312c1cd922272399195481c27cfdcca4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 27/63] fix: addressbook: an identity names one contact

---
 zkclient/addressbook/addressbook.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zkclient/addressbook/addressbook.go b/zkclient/addressbook/addressbook.go
index 4dab2c4..0ec674e 100644
--- a/zkclient/addressbook/addressbook.go
+++ b/zkclient/addressbook/addressbook.go
@@ -47,17 +47,19 @@ func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
 
 	var (
 		found bool
-		i     zkidentity.PublicIdentity
 		err   error
 	)
 
+	// an identity is one contact, whatever nick it had before
+	for k, v := range a.identities {
+		if bytes.Equal(identity.Identity[:], v.Identity[:]) {
+			delete(a.identities, k)
+		}
+	}
+
 	for {
-		i, found = a.identities[identity.Nick]
+		_, found = a.identities[identity.Nick]
 		if found {
-			// if identity is identical do not alter nick
-			if bytes.Equal(identity.Identity[:], i.Identity[:]) {
-				break
-			}
 			identity.Nick += "_"
 			err = ErrDuplicateNick // mark nick as seen
 			continue
-- 
2.43.0


From 294c8b1e46ff2c99dc22c29f8107f53eac41ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 28/63] fix: zkclient: a group that is named like a contact has
 its own conversation

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..8ef3093 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -375,7 +375,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
+		if v != nil && v.group && v.id.Nick == group {
 			return v, k, nil
 		}
 		// next free slot
-- 
2.43.0


From 5254ff82ca75f6d3f585cc13b871d6e90197b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 29/63] fix: zkclient: refuse a group list that lacks its
 administrator

---
 zkclient/zkclient.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 8ef3093..1f88bb6 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1903,6 +1903,12 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 		return errNotAdmin
 	}
 
+	// the new list must still have its administrator
+	if len(gl.Members) == 0 ||
+		!bytes.Equal(gl.Members[0][:], id[:]) {
+		return fmt.Errorf("invalid group list: %v", gl.Name)
+	}
+
 	// Warn if generation is no moving forward
 	if gl.Generation <= group.Generation {
 		z.Warn(idRPC, "received illegal grouplist generation: %v %v %v",
-- 
2.43.0


From fecf589d4c89c5c028a49d1c240fb0ddf7ed2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 30/63] fix: zkclient: do not crash on a group without members

---
 zkclient/push.go     | 4 ++++
 zkclient/zkclient.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..6a07281 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1022,6 +1022,10 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
+
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 1f88bb6..dfde254 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1143,7 +1143,8 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			}
 
 			// See if we are the admin of the gc
-			if bytes.Equal(z.id.Public.Identity[:], g.Members[0][:]) {
+			if len(g.Members) != 0 &&
+				bytes.Equal(z.id.Public.Identity[:], g.Members[0][:]) {
 				z.PrintfT(k, REDBOLD+"user %v disabled: "+
 					"please kick %v (%x) from gc"+RESET,
 					rid.Nick, rid.Nick, rid.Identity[:])
-- 
2.43.0


From e66382faaa97271865c1a488384653e4af2a6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 31/63] fix: zkclient: a kick takes effect on the
 administrator's list at once

The list without the kicked user was computed when the command was given, and
replaced the administrator's list once the last member acknowledged it: whoever
joined or parted in between was forgotten, and nothing happened at all when an
acknowledgement got lost.
---
 zkclient/groupchat.go | 84 ++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 61 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..ee9fc9b 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -299,77 +299,39 @@ func (z *ZKC) gcKick(args []string) error {
 
 	reason := "you have been a bad boy!" // make setable
 
-	got := 0                    // acks seen
-	want := len(gc.Members) - 1 // acks required
-	f := func() {
-		z.Lock()
-		defer z.Unlock()
-
-		// only do stuff on last ack
-		got++
-		if got != want {
-			return
-		}
-
-		z.Dbg(idZKC, "gcKick: callback")
-
-		// find conversation
-		var (
-			k = -1
-			v *conversation
-		)
-		for k, v = range z.conversation {
-			if v.id.Nick == args[2] {
-				break
-			}
-		}
+	// set new group in memory
+	z.groups[args[2]] = ngc
 
-		// make sure group has not vanished
-		_, found := z.groups[args[2]]
-		if !found {
-			z.PrintfT(0, REDBOLD+
-				"group no longer exists: %v"+
-				RESET, args[2], err)
-			return
-		}
-
-		// set new group in memory
-		z.groups[args[2]] = ngc
-
-		// save to disk
-		err = z._gcSaveDisk(args[2])
-		if err != nil {
-			em := fmt.Sprintf(REDBOLD+
-				"could not save group to disk %v: %v"+
-				RESET, args[2], err)
-			z.PrintfT(0, "%v", em)
-			// echo on conversation window
-			if k > 0 {
-				z.PrintfT(k, "%v", em)
-			}
-			return
-		}
-
-		km := fmt.Sprintf("%v was kicked of group chat %v: %v",
-			z.settings.PmColor+args[3]+RESET,
-			z.settings.GcColor+args[2]+RESET,
-			reason)
-		z.PrintfT(0, "%v", km)
-		// echo on conversation window
-		if k > 0 {
-			z.PrintfT(k, "%v", km)
-		}
+	// save to disk
+	err = z._gcSaveDisk(args[2])
+	if err != nil {
+		z.groups[args[2]] = gc // unwind
+		return fmt.Errorf("could not save group to disk %v: %v",
+			args[2], err)
 	}
 
 	// send new list to everyone including kickee if still part of the list
 	for j := 1; j < len(gc.Members); j++ {
 		z.Dbg(idZKC, "sending kick %v to: %x", args[2], gc.Members[j])
-		z.scheduleCRPCCB(true, &gc.Members[j], rpc.GroupKick{
+		z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
 			Member:       id.Identity,
 			Reason:       reason,
 			Parted:       false,
 			NewGroupList: ngc,
-		}, f)
+		})
+	}
+
+	km := fmt.Sprintf("%v was kicked of group chat %v: %v",
+		z.settings.PmColor+args[3]+RESET,
+		z.settings.GcColor+args[2]+RESET,
+		reason)
+	z.PrintfT(0, "%v", km)
+	// echo on conversation window
+	for k, v := range z.conversation {
+		if v.id.Nick == args[2] {
+			z.PrintfT(k, "%v", km)
+			break
+		}
 	}
 
 	return nil
-- 
2.43.0


From 6d17f8af9bdfd62e610d2fcd9165b68049f9003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 32/63] fix: zkclient: refuse a compressed message without a
 valid header

The error was ignored, and decoding the message dereferenced a nil reader.
---
 zkclient/push.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 6a07281..c002e40 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -489,7 +489,11 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		rd, err = zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("could not decompress payload: %v",
+				err)
+		}
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
-- 
2.43.0


From deaf090aa753ecd15c726eb960b6b5724f5678a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:13 +0000
Subject: [PATCH 33/63] fix: zkclient: do not run out of memory on a list with
 a bogus length

The decoder obtains memory for all the elements that a list claims to have
before it reads the first one, so that a few bytes of a message made the client
ask for up to 64 GiB, and exit.
---
 zkclient/push.go     | 35 +++++++++++++++++++++++------------
 zkclient/zkclient.go |  2 +-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index c002e40..66d5af3 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -396,6 +396,17 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 	return nil
 }
 
+// maxElements is the largest number of bytes of a string, or of elements of a
+// list, that is accepted in a CRPC payload.
+const maxElements = 16 * 1024 * 1024
+
+// unmarshalPayload decodes a CRPC payload.  The length of a list comes from the
+// remote and memory for it is obtained before its elements are read, so it must
+// be limited.
+func unmarshalPayload(r io.Reader, v interface{}) (int, error) {
+	return xdr.UnmarshalLimited(r, v, maxElements)
+}
+
 func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// see if identity is valid
 	empty := make([]byte, 32)
@@ -502,7 +513,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	switch crpc.Command {
 	case rpc.CRPCCmdPrivateMessage:
 		var pm rpc.PrivateMessage
-		_, err = xdr.Unmarshal(rd, &pm)
+		_, err = unmarshalPayload(rd, &pm)
 		if err != nil {
 			return fmt.Errorf("unmarshal private message")
 		}
@@ -518,7 +529,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupInvite:
 		var gi rpc.GroupInvite
-		_, err = xdr.Unmarshal(rd, &gi)
+		_, err = unmarshalPayload(rd, &gi)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat invite")
 		}
@@ -534,7 +545,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupJoin:
 		var gj rpc.GroupJoin
-		_, err = xdr.Unmarshal(rd, &gj)
+		_, err = unmarshalPayload(rd, &gj)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat join")
 		}
@@ -550,7 +561,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKill:
 		var gk rpc.GroupKill
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = unmarshalPayload(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kill")
 		}
@@ -566,7 +577,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKick:
 		var gk rpc.GroupKick
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = unmarshalPayload(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kick")
 		}
@@ -582,7 +593,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupPart:
 		var gp rpc.GroupPart
-		_, err = xdr.Unmarshal(rd, &gp)
+		_, err = unmarshalPayload(rd, &gp)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat part")
 		}
@@ -598,7 +609,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupList:
 		var gl rpc.GroupList
-		_, err = xdr.Unmarshal(rd, &gl)
+		_, err = unmarshalPayload(rd, &gl)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat list")
 		}
@@ -614,7 +625,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupUpdate:
 		var gu rpc.GroupUpdate
-		_, err = xdr.Unmarshal(rd, &gu)
+		_, err = unmarshalPayload(rd, &gu)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat update")
 		}
@@ -630,7 +641,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupMessage:
 		var gm rpc.GroupMessage
-		_, err = xdr.Unmarshal(rd, &gm)
+		_, err = unmarshalPayload(rd, &gm)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat message")
 		}
@@ -646,7 +657,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunkNew:
 		var cn rpc.ChunkNew
-		_, err = xdr.Unmarshal(rd, &cn)
+		_, err = unmarshalPayload(rd, &cn)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk new")
 		}
@@ -662,7 +673,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunk:
 		var c rpc.Chunk
-		_, err = xdr.Unmarshal(rd, &c)
+		_, err = unmarshalPayload(rd, &c)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk")
 		}
@@ -677,7 +688,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdJanitorMessage:
 		var jm rpc.JanitorMessage
-		_, err = xdr.Unmarshal(rd, &jm)
+		_, err = unmarshalPayload(rd, &jm)
 		if err != nil {
 			return fmt.Errorf("unmarshal janitor message")
 		}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index dfde254..628c37a 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -818,7 +818,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// unmarshal payload
-	_, err = xdr.Unmarshal(br, &wmsg)
+	_, err = xdr.UnmarshalLimited(br, &wmsg, z.msgSize)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome payload failed")
 	}
-- 
2.43.0


From d2962b8386a3749bae21636ecb14bc4c0d98c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 34/63] fix: zkclient: do not crash on a group message with
 letters whose case changes their length

The index of our nick in the message in capitals was used in the message
itself, which may be shorter.
---
 zkclient/push.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 66d5af3..dfb292d 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1235,6 +1235,19 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	return nil
 }
 
+// indexFold returns the index of the first instance of substr in s regardless
+// of case, or -1 if there is none.  It does not convert s since the index into
+// a converted string is not valid in the original: some letters take more, or
+// less, bytes in the other case.
+func indexFold(s, substr string) int {
+	for i := 0; i+len(substr) <= len(s); i++ {
+		if strings.EqualFold(s[i:i+len(substr)], substr) {
+			return i
+		}
+	}
+	return -1
+}
+
 func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	gm rpc.GroupMessage) error {
 
@@ -1281,8 +1294,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 	// see if we were mentioned
 	s := gm.Message
-	if x := strings.Index(strings.ToUpper(gm.Message),
-		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+	if x := indexFold(gm.Message, z.id.Public.Nick); x != -1 &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
-- 
2.43.0


From e6a9e97ff192ea0150df288064e3b286e10e96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 35/63] fix: zkclient: refuse an acknowledgement of the first
 tag past the range

It indexed the callbacks out of range while holding the client's lock, which the
deferred cleanup then waited for: the client hung.
---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 628c37a..59074b9 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1440,7 +1440,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
-- 
2.43.0


From dc96ca02679f9c27c7ee63b7ef5cd472143ba4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 36/63] fix: zkclient: refuse a negative tag depth

A server that announced one crashed the client.
---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 59074b9..fc4eb57 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -901,7 +901,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if td == -1 {
 		return nil, fmt.Errorf("server did not provide tag depth")
 	}
-	if td > tagDepth {
+	if td < 1 || td > tagDepth {
 		return nil, fmt.Errorf("invalid tag depth: %v", td)
 	}
 
-- 
2.43.0


From 833018c8936e1b6239ebd0c025862c9f7158f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 37/63] fix: zkclient: check the name of a group when it is
 made or an invitation arrives

The name of a group in an invitation went into the joins database as it
was, so that it could damage the database or add invitations by others to
it.  A group with an invalid name was made in memory but not on disk.
---
 zkclient/groupchat.go | 8 ++++++++
 zkclient/push.go      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ee9fc9b..1db7c06 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -27,6 +27,11 @@ const validLetters = "abcdefghijklmnopqrstuvwyz" +
 	"_-@."
 
 func validName(name string) error {
+	// these are no filenames
+	if name == "" || name == "." || name == ".." {
+		return fmt.Errorf("invalid name")
+	}
+
 	var found bool
 	for _, c := range []byte(name) {
 		found = false
@@ -87,6 +92,9 @@ func (z *ZKC) gcNew(args []string) error {
 	if len(args) != 3 {
 		return fmt.Errorf("usage: /gc new <name>")
 	}
+	if err := validName(args[2]); err != nil {
+		return err
+	}
 
 	// see if gc already exists on disk
 	filename := path.Join(z.settings.Root, groupchatDir, args[2])
diff --git a/zkclient/push.go b/zkclient/push.go
index dfb292d..24574c9 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -743,6 +743,14 @@ func (z *ZKC) handleGroupInvite(msg rpc.Message, p rpc.Push,
 		return nil
 	}
 
+	// the name ends up in the join database
+	err = validName(gi.Name)
+	if err != nil {
+		z.PrintfT(0, "invalid group chat name in invite from %v",
+			z.settings.PmColor+id.Nick+RESET)
+		return nil
+	}
+
 	// add invite to join database
 	err = z.joinDBAdd(p.From, gi)
 	if err != nil {
-- 
2.43.0


From 9ca7be021948b662e36e3732faae0b5ec3e38560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 38/63] fix: zkclient: let group invitations expire

Their expiration was recorded but never looked at.  An invitation that has
expired is refused now and can be sent again.
---
 zkclient/groupinvites.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 98f7b0e..dda5cd3 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -57,6 +57,11 @@ func unmarshalInvite(b64 string) (*rpc.GroupInvite, error) {
 	return &invite, nil
 }
 
+// expired returns true if an invite can no longer be answered.
+func expired(invite *rpc.GroupInvite) bool {
+	return time.Now().Unix() > invite.Expires
+}
+
 // listJoins  displays all current replied to joins.
 func (z *ZKC) listJoins(args []string) {
 	z.PrintfT(-1, "Pending joins:")
@@ -142,10 +147,13 @@ func (z *ZKC) inviteDBAdd(id [zkidentity.IdentitySize]byte, description string,
 		return nil, fmt.Errorf("could not open invites db: %v", err)
 	}
 
-	_, err = idb.Get(group.Name, ids)
+	r, err := idb.Get(group.Name, ids)
 	if err == nil {
 		// if invite is expired create a new one
-		return nil, fmt.Errorf("already invited, XXX add expiration check here")
+		invite, err := unmarshalInvite(r)
+		if err == nil && !expired(invite) {
+			return nil, fmt.Errorf("already invited")
+		}
 	}
 
 	// create new token
@@ -212,9 +220,13 @@ func (z *ZKC) joinDBAdd(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("could not open joins db: %v", err)
 	}
 
-	_, err = jdb.Get(gi.Name, froms)
+	r, err := jdb.Get(gi.Name, froms)
 	if err == nil {
-		return fmt.Errorf("join already seen: %v", gi.Name)
+		// a new invite replaces an expired one
+		invite, err := unmarshalInvite(r)
+		if err == nil && !expired(invite) {
+			return fmt.Errorf("join already seen: %v", gi.Name)
+		}
 	}
 
 	// always create table since it is a no-op if it exists
@@ -345,6 +357,9 @@ func (z *ZKC) delInvite(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("invalid token %v %v: %v",
 			gj.Name, froms, gj.Token)
 	}
+	if expired(invite) {
+		return fmt.Errorf("invite expired %v: %v", gj.Name, froms)
+	}
 
 	// delete record
 	err = idb.Del(gj.Name, froms)
-- 
2.43.0


From b4c603e25db5c976b9b2ab7daed584da14bd260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 39/63] fix: zkclient: an accepted invitation can not be
 accepted again

If several users had invited to a group of that name the invitation was not
removed.
---
 zkclient/groupchat.go    |  2 +-
 zkclient/groupinvites.go | 57 ++++++++++++++++++++--------------------
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 1db7c06..1acfbe5 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -219,7 +219,7 @@ func (z *ZKC) gcJoin(args []string) error {
 	}
 
 	// delete join from table
-	err = z.delJoin(args[2], token)
+	err = z.delJoin(from, args[2], token)
 	if err != nil {
 		return fmt.Errorf("could not delete join from db %v %v: %v",
 			args[2], token, err)
diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index dda5cd3..1682c79 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -291,46 +291,47 @@ func (z *ZKC) getJoin(group string, token uint64) ([zkidentity.IdentitySize]byte
 		fmt.Errorf("token not found: %v", token)
 }
 
-func (z *ZKC) delJoin(group string, token uint64) error {
+func (z *ZKC) delJoin(from [zkidentity.IdentitySize]byte, group string,
+	token uint64) error {
+
+	froms := hex.EncodeToString(from[:])
+
 	jdb, err := inidb.New(path.Join(z.settings.Root, joinsPath),
 		false, 10)
 	if err != nil {
 		return fmt.Errorf("could not open joins db: %v", err)
 	}
 
-	records := jdb.Records(group)
-	if len(records) != 1 {
-		return fmt.Errorf("invalid join table")
+	// we search for record to make sure everything is cool
+	r, err := jdb.Get(group, froms)
+	if err != nil {
+		return fmt.Errorf("not found")
+	}
+	invite, err := unmarshalInvite(r)
+	if err != nil {
+		return fmt.Errorf("corrupt join db %v:%v", group, froms)
+	}
+	if invite.Token != token {
+		return fmt.Errorf("not found")
 	}
-	for id, r := range records {
-		// we search for record to make sure everything is cool
-		invite, err := unmarshalInvite(r)
-		if err != nil {
-			z.Error(idZKC, "corrupt join db %v:%v",
-				group,
-				id)
-			continue
-		}
-		if token != invite.Token {
-			continue
-		}
 
-		// delete table
+	// others may have invited us to a group of that name too
+	if len(jdb.Records(group)) == 1 {
 		err = jdb.DelTable(group)
-		if err != nil {
-			return err
-		}
-
-		// write back to disk
-		err = jdb.Save()
-		if err != nil {
-			return fmt.Errorf("could not save join db: %v", err)
-		}
+	} else {
+		err = jdb.Del(group, froms)
+	}
+	if err != nil {
+		return err
+	}
 
-		return nil
+	// write back to disk
+	err = jdb.Save()
+	if err != nil {
+		return fmt.Errorf("could not save join db: %v", err)
 	}
 
-	return fmt.Errorf("not found")
+	return nil
 }
 
 func (z *ZKC) delInvite(from [zkidentity.IdentitySize]byte,
-- 
2.43.0


From ab22d4c06dc22b075b85ad85d1db02909bbb4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 40/63] fix: zkclient: keep received files in the spool
 directory

The sender's name for a file was used as it was, so that a contact could
put a file anywhere, or make the client look for a free name forever.
---
 zkclient/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..4915c33 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -157,7 +157,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 		}
 
 		var fullpath, filename string
-		filename = cn.Filename
+		filename = path.Base(cn.Filename) // never leave the spool
 		for {
 			fullpath = path.Join(z.settings.Root, spoolDir,
 				filename)
-- 
2.43.0


From cb2235f82ab8f9b6850d7dc4980adcc33b8609be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 41/63] fix: zkclient: receive more than one file at a time
 from a contact

A second file replaced the description of the first one, which then never
completed.
---
 zkclient/chunk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 4915c33..db0b27e 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -36,7 +36,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
@@ -89,7 +89,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor
 
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
-- 
2.43.0


From 11f99ad32e4e81f6db28fc6408c68711c4a7583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 42/63] fix: zkclient: do not allocate more than a file for a
 chunk of it

A server that announced a huge chunk size crashed the client at the next
send.
---
 zkclient/send.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zkclient/send.go b/zkclient/send.go
index 6e83c94..833aa78 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -79,10 +79,16 @@ func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
 	// create new transfer so that we can resume
 	// XXX
 
+	// no chunk is larger than the file
+	chunkSize := z.chunkSize
+	if chunkSize > uint64(fi.Size()) {
+		chunkSize = uint64(fi.Size())
+	}
+
 	// start assembling rpc
 	cn := rpc.ChunkNew{
 		Size:        uint64(fi.Size()),
-		ChunkSize:   z.chunkSize,
+		ChunkSize:   chunkSize,
 		Filename:    path.Base(filename),
 		Description: desc,
 		MIME:        mime,
@@ -127,7 +133,7 @@ func (z *ZKC) completeSend(nick string, f *os.File,
 
 	// start chunking file
 	for offset := 0; ; {
-		chunk := make([]byte, z.chunkSize)
+		chunk := make([]byte, cn.ChunkSize)
 		count, err := f.Read(chunk)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
-- 
2.43.0


From b8d6499ade021a9d42ad76db60935937b62bfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 43/63] fix: zkclient: check the identity received in a key
 exchange

---
 zkclient/push.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index 24574c9..93ebf4e 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -159,6 +159,19 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 	return fmt.Errorf("kx step 3 not complete with: %v", nick)
 }
 
+// checkSender returns an error if the identity that was received in a key
+// exchange is not a valid one or is not the identity of the user who sent it.
+// Without this anyone can pose as someone else.
+func checkSender(id *zkidentity.PublicIdentity, from [zkidentity.IdentitySize]byte) error {
+	if !id.Verify() {
+		return fmt.Errorf("received invalid identity from: %x", from)
+	}
+	if !bytes.Equal(id.Identity[:], from[:]) {
+		return fmt.Errorf("received identity of %v from: %x", id, from)
+	}
+	return nil
+}
+
 func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 	if p.Payload == nil {
 		return fmt.Errorf("server sent a message without a payload")
@@ -208,6 +221,11 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("can't kx with self")
 		}
 
+		err = checkSender(&idkx.Identity, p.From)
+		if err != nil {
+			return err
+		}
+
 		// create a new ratchet from idkx
 		r := ratchet.New(rand.Reader)
 		r.MyPrivateKey = &z.id.PrivateKey
@@ -328,6 +346,11 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("can't kx with self")
 	}
 
+	err = checkSender(&idkx.Identity, p.From)
+	if err != nil {
+		return err
+	}
+
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
 	r.MyPrivateKey = &z.id.PrivateKey
-- 
2.43.0


From d52a06217fc411b1effdec59d254f31ebfbb5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 44/63] fix: zkclient: check an identity found in the directory

---
 zkclient/zkclient.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index fc4eb57..c0c86db 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1051,6 +1051,16 @@ func (z *ZKC) PrintIdentity(id zkidentity.PublicIdentity) {
 }
 
 func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
+	if !id.Verify() {
+		return fmt.Errorf("invalid identity: %v", id.Nick)
+	}
+	if bytes.Equal(id.Identity[:], z.id.Public.Identity[:]) {
+		return fmt.Errorf("can't kx with self")
+	}
+	if z.identityExists(id.Identity) {
+		return fmt.Errorf("identity already exists: %v", id.Nick)
+	}
+
 	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &id.Key)
 	if err != nil {
 		return fmt.Errorf("could not encapsulate key: %v", err)
@@ -1487,12 +1497,13 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
+			// only act on replies to lookups that we are waiting on
+			z.pendingIdentitiesMutex.Lock()
+			pending := z.pendingIdentities[r.Nick] != nil
+			delete(z.pendingIdentities, r.Nick)
+			z.pendingIdentitiesMutex.Unlock()
 			if r.Nick == "" {
 				z.PrintfT(0, "Server did not return nick")
-			} else {
-				z.pendingIdentitiesMutex.Lock()
-				delete(z.pendingIdentities, r.Nick)
-				z.pendingIdentitiesMutex.Unlock()
 			}
 
 			err = z.tagStack.Push(message.Tag)
@@ -1505,6 +1516,9 @@ func (z *ZKC) handleRPC() {
 			if r.Error != "" {
 				// Server error is verbose so just print it
 				z.PrintfT(0, "%v", r.Error)
+			} else if !pending {
+				z.PrintfT(0, "Server sent an identity that was "+
+					"not asked for: %v", r.Nick)
 			} else {
 				err = z.step1IDKX(r.Identity)
 				if err != nil {
-- 
2.43.0


From bb50b5ddf1d8afbe3363ce743297d22526147868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 45/63] fix: zkclient: verify a public identity before it can
 be accepted

---
 zkclient/kxacceptwindow.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..fb935fe 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -140,6 +140,13 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		// the fingerprint that the user is about to accept must be the
+		// one of this identity
+		if !identity.Verify() {
+			ka.Status(w, true, "invalid public identity")
+			return
+		}
+
 		// make sure we don't add ourselves
 		if bytes.Equal(ka.zkc.id.Public.Identity[:], identity.Identity[:]) {
 			ka.Status(w, true, "can't add self to address book")
-- 
2.43.0


From 988da9ac073c7f21461211d0ff3a14d80e48e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 46/63] fix: zkclient: report a ratchet that could not be
 written to disk

---
 zkclient/identity.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..bc1d527 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -154,15 +154,25 @@ func (z *ZKC) updateRatchet(r *ratchet.Ratchet, half bool) error {
 	_, err = xdr.Marshal(f, state)
 	if err != nil {
 		f.Close()
+		os.Remove(f.Name())
 		return fmt.Errorf("could not marshal ratchet")
 	}
-	f.Sync()
-	f.Close()
+	// do not replace the ratchet with one that is not on disk
+	err = f.Sync()
+	err2 := f.Close()
+	if err == nil {
+		err = err2
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return fmt.Errorf("could not write ratchet file: %v", err)
+	}
 
 	// rename tempfile to actual file
 	filename := path.Join(fullPath, rf)
 	err = os.Rename(f.Name(), filename)
 	if err != nil {
+		os.Remove(f.Name())
 		return fmt.Errorf("could not rename ratchet file: %v", err)
 	}
 
-- 
2.43.0


From 5eab7cdf4a7d2bdc6eda6c5ec2d62cf26db3f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 47/63] fix: zkclient: do not send with the tags of an earlier
 connection

---
 zkclient/msg.go      | 64 ++++++++++++++++++++++++++++++++++-----
 zkclient/zkclient.go | 72 +++++++-------------------------------------
 2 files changed, 67 insertions(+), 69 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..ebcf13f 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -15,6 +15,7 @@ import (
 
 	"github.com/companyzero/zkc/ratchet"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/tagstack"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
@@ -40,6 +41,10 @@ type wireMsg struct {
 	payload interface{} // always set
 
 	callback func()
+
+	// tags is the stack of the connection that the PRPC answers, nil if the
+	// PRPC gets a tag when it is sent
+	tags *tagstack.TagStack
 }
 
 func (z *ZKC) scheduler() {
@@ -170,7 +175,7 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.msg),
 								spew.Sdump(m.payload))
 						}
-						err = z.writeMessage(&m.msg, m.payload)
+						err = z.sendPRPC(m)
 						if err != nil {
 							z.PrintfT(-1, REDBOLD+
 								"PRPC (rescheduled): %v"+
@@ -240,6 +245,10 @@ func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
 		msg:     msg,
 		payload: payload,
 	}
+	if msg.Command == rpc.TaggedCmdAcknowledge {
+		// the tag is the server's
+		m.tags = z.tagStack
+	}
 	if hi {
 		//z.Dbg(idSnd, "sending PRPC hi")
 		z.hi <- m
@@ -250,6 +259,38 @@ func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
 	//z.Dbg(idSnd, "sending PRPC done")
 }
 
+// sendPRPC sends a PRPC over the current connection.  Tags of an earlier
+// connection mean nothing, or something else, on the current one.
+func (z *ZKC) sendPRPC(m wireMsg) error {
+	kx, tags, err := z.connection()
+	if err != nil {
+		return err
+	}
+
+	if m.tags != nil {
+		if m.tags != tags {
+			// server sends what was not acknowledged again
+			return nil
+		}
+		return z.writeMessage(kx, &m.msg, m.payload)
+	}
+
+	m.msg.Tag, err = tags.Pop()
+	if err != nil {
+		return fmt.Errorf("could not obtain tag: %v", err)
+	}
+	err = z.writeMessage(kx, &m.msg, m.payload)
+	if err != nil {
+		err2 := tags.Push(m.msg.Tag)
+		if err2 != nil {
+			return fmt.Errorf("could not push tag: %v %v", err, err2)
+		}
+		return err
+	}
+
+	return nil
+}
+
 func (z *ZKC) compress(payload interface{}) ([]byte, string, error) {
 	var (
 		bb  bytes.Buffer
@@ -435,9 +476,9 @@ func (z *ZKC) isOnline() bool {
 }
 
 func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f func()) error {
-	// best effort to detect if we are offline
-	if !z.isOnline() {
-		return fmt.Errorf("not online")
+	kx, tags, err := z.connection()
+	if err != nil {
+		return err
 	}
 
 	z.ratchetMtx.Lock()
@@ -463,12 +504,17 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 	}
 
 	// message
-	tag, err := z.tagStack.Pop()
+	tag, err := tags.Pop()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
 	z.Lock()
+	if z.tagStack != tags {
+		// reconnected meanwhile
+		z.Unlock()
+		return fmt.Errorf("not online")
+	}
 	z.tagCallback[tag] = &cb{
 		callback: f,
 		to:       *r.TheirIdentityPublic,
@@ -488,17 +534,19 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			spew.Sdump(payload))
 	}
 
-	err = z.writeMessage(msg,
+	err = z.writeMessage(kx, msg,
 		rpc.Cache{
 			To:      *r.TheirIdentityPublic,
 			Payload: m,
 		})
 	if err != nil {
 		z.Lock()
-		z.tagCallback[tag] = nil
+		if z.tagStack == tags {
+			z.tagCallback[tag] = nil
+		}
 		z.Unlock()
 		// return tag
-		err2 := z.tagStack.Push(tag)
+		err2 := tags.Push(tag)
 		if err2 != nil {
 			// we really are in deep shit now
 			return fmt.Errorf("could not push tag, internal "+
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index c0c86db..4cd63f6 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1239,7 +1239,6 @@ func (z *ZKC) handleRPC() {
 
 		// we tick more often to see if we have expired keepalive
 		timer := time.NewTicker(1 * time.Second)
-		retry := 2
 		for {
 			select {
 			case <-quit:
@@ -1262,20 +1261,6 @@ func (z *ZKC) handleRPC() {
 				}
 				z.write.Unlock()
 
-				tag, err := z.tagStack.Pop()
-				if err != nil {
-					retry--
-					if retry == 0 {
-						// XXX this is bad, think about
-						// it some more
-						z.PrintfT(0, "could not obtain"+
-							" tag or heartbeat: %v",
-							err)
-						z.kx.Close()
-						return
-					}
-				}
-				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
 				z.pingInProgress = true
 				z.lastTick = time.Now().Add(z.lastDuration)
@@ -1283,10 +1268,8 @@ func (z *ZKC) handleRPC() {
 				z.schedulePRPC(true,
 					rpc.Message{
 						Command: rpc.TaggedCmdPing,
-						Tag:     tag,
 					},
 					rpc.Ping{})
-				retry = 2
 			}
 		}
 	}()
@@ -1570,15 +1553,9 @@ func (z *ZKC) cache(to [32]byte, blob []byte) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdCache,
-			Tag:     tag,
 		},
 		rpc.Cache{
 			To:      to,
@@ -1593,15 +1570,9 @@ func (z *ZKC) rendezvous(blob []byte) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdRendezvous,
-			Tag:     tag,
 		},
 		rpc.Rendezvous{
 			Blob:       blob,
@@ -1712,14 +1683,9 @@ func (z *ZKC) fetch(pin string) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdRendezvousPull,
-			Tag:     tag,
 		},
 		rpc.RendezvousPull{
 			Token: pin,
@@ -1758,15 +1724,9 @@ func (z *ZKC) find(nick string) error {
 		return fmt.Errorf("lookup already in progress")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdIdentityFind,
-			Tag:     tag,
 		},
 		rpc.IdentityFind{
 			Nick: nick,
@@ -1802,19 +1762,6 @@ func (z *ZKC) reset(nick string) error {
 			err)
 	}
 
-	// Pop tag early because we are going to de deleting important files.
-	// If something goes wrong we must push the tab back onto the stack.
-	returnTag := true // assume failure
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-	defer func() {
-		if returnTag {
-			z.tagStack.Push(tag)
-		}
-	}()
-
 	ids := hex.EncodeToString(id.Identity[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
@@ -1838,13 +1785,10 @@ func (z *ZKC) reset(nick string) error {
 			nick, err)
 	}
 
-	returnTag = false // we no longer need to return the tag
-
 	// try to tell the other side the bad news
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdProxy,
-			Tag:     tag,
 		},
 		rpc.Proxy{
 			To:      id.Identity,
@@ -1854,12 +1798,18 @@ func (z *ZKC) reset(nick string) error {
 	return nil
 }
 
-// writeMessage marshals and sends encrypted message to server.
-func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	if !z.isOnline() {
-		return fmt.Errorf("not online")
+// connection returns the current connection and the stack its tags are from.
+func (z *ZKC) connection() (*session.KX, *tagstack.TagStack, error) {
+	z.RLock()
+	defer z.RUnlock()
+	if !z.online || z.kx == nil {
+		return nil, nil, fmt.Errorf("not online")
 	}
+	return z.kx, z.tagStack, nil
+}
 
+// writeMessage marshals and sends encrypted message to server.
+func (z *ZKC) writeMessage(kx *session.KX, msg *rpc.Message, payload interface{}) error {
 	// we lock the ticker, rename write mutex
 	defer func() {
 		z.write.Lock()
@@ -1878,7 +1828,7 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From 57fbd08baec9c9bc8946e36cc14f4430934aba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 48/63] fix: zkclient: save the ratchet before a message is
 sent

---
 zkclient/msg.go | 53 +++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ebcf13f..333a0a1 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -497,6 +497,12 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return nil
 	}
 
+	// ratchet as it is when the message can't be sent
+	unused, err := z.loadRatchet(id, false)
+	if err != nil {
+		return fmt.Errorf("could not load ratchet: %v", err)
+	}
+
 	// compose RPC
 	m, err := z.crpc(r, payload)
 	if err != nil {
@@ -521,6 +527,30 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 	}
 	z.Unlock()
 
+	returnTag := func(err error) error {
+		z.Lock()
+		if z.tagStack == tags {
+			z.tagCallback[tag] = nil
+		}
+		z.Unlock()
+		// return tag
+		err2 := tags.Push(tag)
+		if err2 != nil {
+			// we really are in deep shit now
+			return fmt.Errorf("could not push tag, internal "+
+				"state corrupt, please quit: %v %v", err, err2)
+		}
+
+		return err
+	}
+
+	// save ratchet before the other side can see the message, its key must
+	// not be used again
+	err = z.updateRatchet(r, false)
+	if err != nil {
+		return returnTag(fmt.Errorf("could not update ratchet: %v", err))
+	}
+
 	msg := &rpc.Message{
 		Command: rpc.TaggedCmdCache,
 		Tag:     tag,
@@ -540,27 +570,12 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			Payload: m,
 		})
 	if err != nil {
-		z.Lock()
-		if z.tagStack == tags {
-			z.tagCallback[tag] = nil
-		}
-		z.Unlock()
-		// return tag
-		err2 := tags.Push(tag)
+		// nothing was sent, use the ratchet for the next attempt
+		err2 := z.updateRatchet(unused, false)
 		if err2 != nil {
-			// we really are in deep shit now
-			return fmt.Errorf("could not push tag, internal "+
-				"state corrupt, please quit: %v %v", err, err2)
+			z.Error(idZKC, "could not restore ratchet: %v", err2)
 		}
-
-		return err
-	}
-
-	// save ratchet only if we sent
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		return fmt.Errorf("critical error: could not update ratchet: %v",
-			err)
+		return returnTag(err)
 	}
 
 	return nil
-- 
2.43.0


From 91861737bd5ed40bfee2a888080c7f7c16f25888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 49/63] fix: zkclient: verify the server's identity before
 asking to accept it

---
 zkclient/welcome.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 702d95c..76b3ce6 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -174,6 +174,11 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 					"Could not obtain remote identity")
 				return
 			}
+			if !pid.Verify() {
+				conn.Close()
+				ww.Status(w, true, "Remote identity is invalid")
+				return
+			}
 
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
-- 
2.43.0


From 9177f2413c7c9fc91752f603939e36a9e0b79074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 50/63] fix: zkclient: check the imported server certificate
 before creating an account

---
 zkclient/welcome.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 76b3ce6..de8dc6d 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -5,6 +5,7 @@
 package main
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 
@@ -194,6 +195,14 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			ww.zkc.ttkAW = ttk.NewWindow(aw)
 			ttk.Focus(ww.zkc.ttkAW)
 		} else {
+			// the outer fingerprint was accepted as well
+			if !bytes.Equal(cs.PeerCertificates[0].Raw,
+				ww.zkc.cert) {
+				conn.Close()
+				ww.Status(w, true, "%v", errCert)
+				return
+			}
+
 			pid = *ww.zkc.serverIdentity
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
-- 
2.43.0


From 02e4a2eab76bf1cf4ccd70c578421b2a2d0218c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 51/63] fix: zkclient: send what is typed in a window to its
 conversation

The text was made into a /m command that named the conversation, and went to
another contact if the nick has a space or is also that of a group.  Text of
blanks sent the nick.
---
 zkclient/groupchat.go  | 14 ++++++------
 zkclient/mainwindow.go | 49 +++++++++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 1acfbe5..65c0b1d 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -631,18 +631,20 @@ func (z *ZKC) gc(action string, args []string) error {
 		if len(args) < 3 {
 			return fmt.Errorf("not enough arguments for /gc me")
 		}
-		msg := strings.TrimSpace(strings.TrimPrefix(action, "/gc"))
-		msg = strings.TrimSpace(strings.TrimPrefix(msg, "me"))
-		msg = strings.TrimRight(strings.TrimPrefix(msg, args[2]+" "), " ")
+		msg := strings.TrimRight(strings.Join(args[3:], " "), " ")
+		if msg == "" {
+			return fmt.Errorf("usage: /gc me <group> <message>")
+		}
 		return z.gcMessage(args, msg, rpc.MessageModeMe)
 
 	case "m":
 		if len(args) < 3 {
 			return fmt.Errorf("not enough arguments for /gc m")
 		}
-		msg := strings.TrimSpace(strings.TrimPrefix(action, "/gc"))
-		msg = strings.TrimSpace(strings.TrimPrefix(msg, "m"))
-		msg = strings.TrimRight(strings.TrimPrefix(msg, args[2]+" "), " ")
+		msg := strings.TrimRight(strings.Join(args[3:], " "), " ")
+		if msg == "" {
+			return fmt.Errorf("usage: /gc m <group> <message>")
+		}
 		return z.gcMessage(args, msg, rpc.MessageModeNormal)
 
 	case "part":
diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 1936743..dc4dd63 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -350,6 +350,31 @@ func (mw *mainWindow) appendHistory(cmd string) {
 	fmt.Fprintf(f, "%v\n", cmd)
 }
 
+// say sends what was typed in a conversation's window to that conversation.
+func (mw *mainWindow) say(c *conversation, win int, text string) error {
+	msg := strings.TrimRight(text, " ")
+	if msg == "" {
+		return nil
+	}
+
+	if c.group {
+		a := []string{cmdGc, "m", c.nick, msg}
+		return mw.zkc.gcMessage(a, msg, rpc.MessageModeNormal)
+	}
+
+	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
+	if err != nil {
+		return err
+	}
+
+	// echo
+	mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
+		msg)
+
+	return nil
+}
+
 // action executes a user command.
 func (mw *mainWindow) action(cmd string) error {
 	if len(cmd) == 0 {
@@ -359,17 +384,12 @@ func (mw *mainWindow) action(cmd string) error {
 	// see if we got a command
 	if !strings.HasPrefix(cmd, leader) {
 		mw.zkc.RLock()
-		if mw.zkc.active != 0 {
-			var c string
-			if mw.zkc.conversation[mw.zkc.active].group {
-				c = cmdGc + " m "
-			} else {
-				c = cmdM + " "
-			}
-			cmd = c + mw.zkc.conversation[mw.zkc.active].nick +
-				" " + cmd
-		}
+		win := mw.zkc.active
+		c := mw.zkc.conversation[win]
 		mw.zkc.RUnlock()
+		if win != 0 {
+			return mw.say(c, win, cmd)
+		}
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
 
@@ -528,8 +548,10 @@ func (mw *mainWindow) action(cmd string) error {
 			return mw.doUsage(args)
 		}
 		// remove /m|/msg <identity>
-		msg := strings.TrimSpace(strings.TrimPrefix(cmd, args[0]))
-		msg = strings.TrimRight(strings.TrimPrefix(msg, args[1]+" "), " ")
+		msg := strings.TrimRight(strings.Join(args[2:], " "), " ")
+		if msg == "" {
+			return mw.doUsage(args)
+		}
 
 		// determine if to is a nick or an identity
 		var (
@@ -539,7 +561,8 @@ func (mw *mainWindow) action(cmd string) error {
 		)
 		mw.zkc.RLock()
 		for k, v := range mw.zkc.conversation {
-			if v == nil {
+			// neither the console nor a group chat is a person
+			if v == nil || k == 0 || v.group {
 				continue
 			}
 			if args[1] == v.nick {
-- 
2.43.0


From 3d46e91e6801592ab770789051f1d5ede0c348ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 52/63] fix: zkclient: do not leave a closed window the active
 one

Until the console got the focus the active window was the next conversation,
or none at all, which crashed the client.
---
 zkclient/mainwindow.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index dc4dd63..50459a5 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -666,6 +666,7 @@ func (mw *mainWindow) action(cmd string) error {
 		mw.zkc.conversation[i].console.Visibility(ttk.VisibilityHide)
 		mw.zkc.conversation = append(mw.zkc.conversation[:i:i],
 			mw.zkc.conversation[i+1:]...)
+		mw.zkc.active = 0
 		mw.zkc.focus(0)
 
 		return nil
@@ -794,8 +795,10 @@ func closeAll(z *ZKC) {
 	z.Lock()
 	defer z.Unlock()
 	console := z.conversation[0]
+	z.conversation[z.active].console.Visibility(ttk.VisibilityHide)
 	z.conversation = make([]*conversation, 1)
 	z.conversation[0] = console
+	z.active = 0
 	z.focus(0)
 }
 
-- 
2.43.0


From 5f609f309832cc3da0525c6229b288fde4be6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 53/63] fix: zkclient: restore the windows that were saved

A group chat was restored in place of a contact with the same nick.
---
 zkclient/mainwindow.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 50459a5..d9d6c35 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -848,7 +848,14 @@ func restoreConversations(z *ZKC) error {
 			closeAll(z)
 			return err
 		}
-		z.query(c.Nick)
+		if c.Group {
+			_, _, err = z.groupConversation(c.Nick)
+		} else {
+			_, _, err = z.getConversation(c.Id.Identity)
+		}
+		if err != nil {
+			z.PrintfT(-1, "%v", err)
+		}
 	}
 	z.focus(0)
 	return nil
-- 
2.43.0


From 9e383627db00b6a6069198ae451e23f3a892a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 54/63] fix: zkclient: show contacts under the nicks they have
 in the address book

---
 zkclient/zkclient.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4cd63f6..dcdec86 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -408,10 +408,14 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 	if err != nil {
 		return nil, -1, err
 	}
-	if c.id.Nick == "" {
+	c.nick = c.id.Nick
+	pid, err := z.ab.FindIdentity(id)
+	if err == nil {
+		// nick that is used for this contact
+		c.nick = pid.Nick
+	}
+	if c.nick == "" {
 		c.nick = hex.EncodeToString(id[:])
-	} else {
-		c.nick = c.id.Nick
 	}
 
 	// create conversation console in queue
-- 
2.43.0


From f3cf6e286ac1ef225455b7cf2bc10b1bbb52494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 55/63] fix: zkclient: contacts keep their nicks after a
 restart

Of two contacts with the same nick the one whose identity came first got it,
whichever had it before.
---
 zkclient/addressbook.go | 51 ++++++++++++++++++++++++++++++++++++++++-
 zkclient/identity.go    |  1 +
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index ab62e5e..6f10fdd 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -12,6 +12,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/zkclient/addressbook"
@@ -64,6 +65,11 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 	}
 
 	nick, err := z.ab.Add(id)
+	err2 := z.saveNick(id.Identity, nick)
+	if err2 != nil {
+		z.PrintfT(0, REDBOLD+"could not save nick %v: %v"+RESET, nick,
+			err2)
+	}
 	if errors.Is(err, addressbook.ErrDuplicateNick) {
 		return fmt.Errorf("warning duplicate nick added: "+
 			"%v -> %v", id.Nick, nick)
@@ -71,6 +77,36 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 	return err
 }
 
+// nickPath is the file that holds the nick that a contact has in the address
+// book.
+func (z *ZKC) nickPath(id [zkidentity.IdentitySize]byte) string {
+	return path.Join(z.settings.Root, inboundDir, hex.EncodeToString(id[:]),
+		nickFilename)
+}
+
+// saveNick saves the nick that a contact has in the address book, so that it
+// does not become that of another contact at the next start.
+func (z *ZKC) saveNick(id [zkidentity.IdentitySize]byte, nick string) error {
+	saved, err := ioutil.ReadFile(z.nickPath(id))
+	if err == nil && string(saved) == nick+"\n" {
+		return nil
+	}
+	return ioutil.WriteFile(z.nickPath(id), []byte(nick+"\n"), 0600)
+}
+
+// savedNick returns the nick that id had in the address book, if it is known.
+func (z *ZKC) savedNick(id zkidentity.PublicIdentity) (string, bool) {
+	saved, err := ioutil.ReadFile(z.nickPath(id.Identity))
+	if err != nil || !strings.HasSuffix(string(saved), "\n") {
+		return "", false
+	}
+	nick := strings.TrimSuffix(string(saved), "\n")
+	if strings.TrimRight(nick, "_") != strings.TrimRight(id.Nick, "_") {
+		return "", false
+	}
+	return nick, true
+}
+
 // addressBookConversation returns an existing conversation from nick.
 func (z *ZKC) addressBookConversation(nick string) (*conversation, int, error) {
 	// disallow self
@@ -111,6 +147,8 @@ func (z *ZKC) loadIdentities() error {
 		return err
 	}
 
+	// contacts keep the nicks they had
+	var unnamed []zkidentity.PublicIdentity
 	for _, v := range fi {
 		// read
 		filename := path.Join(z.settings.Root, inboundDir, v.Name(),
@@ -129,10 +167,21 @@ func (z *ZKC) loadIdentities() error {
 			continue
 		}
 
+		nick, ok := z.savedNick(idDisk)
+		if !ok {
+			unnamed = append(unnamed, idDisk)
+			continue
+		}
+		idDisk.Nick = nick
 		err = z.addressBookAdd(idDisk)
 		if err != nil {
 			z.PrintfT(0, "unable to add to address book: %v", err)
-			continue
+		}
+	}
+	for _, v := range unnamed {
+		err = z.addressBookAdd(v)
+		if err != nil {
+			z.PrintfT(0, "unable to add to address book: %v", err)
 		}
 	}
 
diff --git a/zkclient/identity.go b/zkclient/identity.go
index bc1d527..4462e39 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -24,6 +24,7 @@ const (
 	ratchetFilename     = "ratchet.xdr"
 	halfRatchetFilename = "halfratchet.xdr"
 	identityFilename    = "publicidentity.xdr"
+	nickFilename        = "nick"
 )
 
 // identityExists checks to see if identityFilename exists in the id directory.
-- 
2.43.0


From e4e47242998a2b0eb193e257fe31701f6ee6b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 56/63] fix: zkclient: do not send empty files

There is no end to files in /proc, which have no size, in chunks of no size.
---
 zkclient/send.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkclient/send.go b/zkclient/send.go
index 833aa78..d38f1e5 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -63,6 +63,10 @@ func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
 		f.Close()
 		return fmt.Errorf("could not stat %v: %v", filename, err)
 	}
+	if fi.Size() == 0 {
+		f.Close()
+		return fmt.Errorf("file is empty: %v", filename)
+	}
 	if uint64(fi.Size()) > z.attachmentSize {
 		return fmt.Errorf("file too large %v: %v, max allowed %v",
 			filename, fi.Size(), z.attachmentSize)
-- 
2.43.0


From 1e47ab6d8ea5a20206482bf61248dabc91a0ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:51 +0000
Subject: [PATCH 57/63] fix: zkimport: import clients that have no account yet

---
 tools/zkimport/zkimport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index b85dffc..b511078 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -103,8 +103,8 @@ func importClientRecord(root string, force bool, cr tools.ClientRecord) error {
 	i := hex.EncodeToString(cr.PublicIdentity.Identity[:])
 	user := path.Join(dir, tools.ZKSHome, i)
 	_, err = os.Stat(user)
-	if err != nil {
-		return err
+	if err == nil && !force {
+		return fmt.Errorf("user already exists")
 	}
 	a, err := account.New(home)
 	if err != nil {
-- 
2.43.0


From 4dd4c0e258d3a487e17699cb5571e571a4b6649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:00 +0000
Subject: [PATCH 58/63] fix: zkimport: verify what is imported

---
 tools/zkimport/zkimport.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index b511078..7b21782 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -59,6 +59,10 @@ func readBlob(filename string) (interface{}, error) {
 }
 
 func importClientRecord(root string, force bool, cr tools.ClientRecord) error {
+	if !cr.PublicIdentity.Verify() {
+		return fmt.Errorf("invalid public identity")
+	}
+
 	// make sure we have a valid zkserver directory
 	var dir string
 	// make sure config exists
@@ -143,6 +147,12 @@ func promptUser(cr tools.ServerRecord) error {
 }
 
 func importServerRecord(root string, force bool, cr tools.ServerRecord) error {
+	// the fingerprint that the user is asked about covers one part of the
+	// identity only
+	if !cr.PublicIdentity.Verify() {
+		return fmt.Errorf("invalid public identity")
+	}
+
 	// make sure we have a valid zkclient directory
 	var dir string
 	// make sure config exists
-- 
2.43.0


From b060c3b1d5413edaa1572e1ed0029225d5c7d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:44 +0000
Subject: [PATCH 59/63] fix: debug: write what is logged verbatim

Text with a percent sign, such as what a contact says, was taken for a format.
---
 debug/debug.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debug/debug.go b/debug/debug.go
index 5f35f4b..4395f7d 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -30,7 +30,7 @@ type Debug struct {
 
 func (d *Debug) Log(id int, format string, args ...interface{}) {
 	s := ttk.Unescape(fmt.Sprintf(format, args...))
-	d.log(id, "[LOG] ", s)
+	d.log(id, "[LOG] ", "%v", s)
 }
 
 func (d *Debug) Info(id int, format string, args ...interface{}) {
-- 
2.43.0


From cf9ae44521e5c138a9797079e548ad95a51c6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:44 +0000
Subject: [PATCH 60/63] fix: zkclient: keep the history of a contact in the log
 directory

A contact chooses its nick, which may have path separators: its history went to
a place of its choosing, or was lost.
---
 zkclient/zkclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index dcdec86..8e31ce6 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -220,9 +220,12 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 			logsDir, "groupchat."+z.conversation[id].nick+"."+
 				server+".log")
 	default:
+		// the nick is chosen by the contact and is no filename
+		nick := strings.Replace(z.conversation[id].nick,
+			string(os.PathSeparator), "_", -1)
 		filename = path.Join(z.settings.Root,
 			logsDir,
-			z.conversation[id].nick+"."+server+"."+
+			nick+"."+server+"."+
 				z.conversation[id].id.String()+".log")
 	}
 	f, err := os.OpenFile(filename,
-- 
2.43.0


From 5fbed8443624c34bd04c448e83176cbdf2a2dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:02 +0000
Subject: [PATCH 61/63] fix: zkclient: replace the file of a group chat
 atomically

---
 zkclient/groupchat.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 65c0b1d..e50c670 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -84,8 +84,30 @@ func (z *ZKC) _gcSaveDisk(name string) error {
 		return fmt.Errorf("could not marshal groupchat: %v", name)
 	}
 
-	// lay on disk
-	return ioutil.WriteFile(filename, bb.Bytes(), 0600)
+	// save to tempfile, it is not a group chat so keep it out of that dir
+	f, err := ioutil.TempFile(z.settings.Root, groupchatDir)
+	if err != nil {
+		return fmt.Errorf("could not create groupchat file: %v", err)
+	}
+	_, err = f.Write(bb.Bytes())
+	if err == nil {
+		// do not replace the group with one that is not on disk
+		err = f.Sync()
+	}
+	err2 := f.Close()
+	if err == nil {
+		err = err2
+	}
+	if err == nil {
+		// rename tempfile to actual file
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return fmt.Errorf("could not write groupchat file: %v", err)
+	}
+
+	return nil
 }
 
 func (z *ZKC) gcNew(args []string) error {
-- 
2.43.0


From 07417a6db1f9279e2c9623b4975324481a1198ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 62/63] fix: zkclient: a group chat change that is not saved
 does not happen

---
 zkclient/groupchat.go | 46 ++++++++++++++++++++++++++-----------------
 zkclient/push.go      | 21 ++++++++++----------
 zkclient/zkclient.go  |  6 +++++-
 3 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index e50c670..5a67414 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -62,8 +62,12 @@ func (z *ZKC) _deleteGroup(name string) error {
 	}
 	filename := path.Join(z.settings.Root, groupchatDir, name)
 
+	err := os.Remove(filename)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	delete(z.groups, name)
-	return os.Remove(filename)
+	return nil
 }
 
 func (z *ZKC) _gcSaveDisk(name string) error {
@@ -138,12 +142,13 @@ func (z *ZKC) gcNew(args []string) error {
 		Timestamp:  time.Now().Unix(),
 		Members:    [][zkidentity.IdentitySize]byte{z.id.Public.Identity},
 	}
-	z.Unlock()
-
-	err = z.gcSaveDisk(args[2])
+	err = z._gcSaveDisk(args[2])
 	if err != nil {
+		delete(z.groups, args[2]) // unwind
+		z.Unlock()
 		return fmt.Errorf("could not create new group: %v", args[2])
 	}
+	z.Unlock()
 
 	z.PrintfT(-1, "group chat created: %v", z.settings.GcColor+args[2]+RESET)
 
@@ -223,12 +228,6 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("join not found: %v %v", args[2], args[3])
 	}
 
-	// send RPC
-	z.scheduleCRPC(true, &from, rpc.GroupJoin{
-		Name:  args[2],
-		Token: token,
-	})
-
 	// save group with just name and administrator
 	z.groups[args[2]] = rpc.GroupList{
 		Name:    args[2],
@@ -237,9 +236,17 @@ func (z *ZKC) gcJoin(args []string) error {
 
 	err = z._gcSaveDisk(args[2])
 	if err != nil {
-		return fmt.Errorf("invalid token: %v", err)
+		delete(z.groups, args[2]) // unwind
+		return fmt.Errorf("could not save group to disk %v: %v",
+			args[2], err)
 	}
 
+	// send RPC
+	z.scheduleCRPC(true, &from, rpc.GroupJoin{
+		Name:  args[2],
+		Token: token,
+	})
+
 	// delete join from table
 	err = z.delJoin(from, args[2], token)
 	if err != nil {
@@ -454,6 +461,16 @@ func (z *ZKC) gcKill(args []string) error {
 		if !bytes.Equal(gc.Members[0][:], z.id.Public.Identity[:]) {
 			return fmt.Errorf("not group chat administrator")
 		}
+	}
+
+	// delete group
+	err := z._deleteGroup(args[2])
+	if err != nil {
+		return fmt.Errorf("could not delete group chat %v: %v",
+			args[2], err)
+	}
+
+	if send {
 		// tell everyone
 		for i := 1; i < len(gc.Members); i++ {
 			// send kill to everyone
@@ -464,13 +481,6 @@ func (z *ZKC) gcKill(args []string) error {
 		}
 	}
 
-	// delete group
-	err := z._deleteGroup(args[2])
-	if err != nil {
-		return fmt.Errorf("could not delete group chat %v: %v",
-			args[2], err)
-	}
-
 	z.PrintfT(0, "group chat killed: %v",
 		z.settings.GcColor+args[2]+RESET)
 
diff --git a/zkclient/push.go b/zkclient/push.go
index 93ebf4e..e8e7d15 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -915,26 +915,27 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 			Members:    append(gc.Members[:i:i], gc.Members[i+1:]...),
 		}
 
-		// send new list to everyone including partee
-		for j := 1; j < len(gc.Members); j++ {
-			z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
-				Member:       p.From,
-				Reason:       gp.Reason,
-				Parted:       true,
-				NewGroupList: ngc,
-			})
-		}
-
 		// set new group in memory
 		z.groups[gp.Name] = ngc
 
 		// save to disk
 		err := z._gcSaveDisk(gp.Name)
 		if err != nil {
+			z.groups[gp.Name] = gc // unwind
 			return fmt.Errorf("could not save group chat to disk %v: %v",
 				gp.Name, err)
 		}
 
+		// send new list to everyone including partee
+		for j := 1; j < len(gc.Members); j++ {
+			z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
+				Member:       p.From,
+				Reason:       gp.Reason,
+				Parted:       true,
+				NewGroupList: ngc,
+			})
+		}
+
 		id, err := z.ab.FindIdentity(p.From)
 		if err != nil {
 			return fmt.Errorf("received join from unknown identity: %v",
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 8e31ce6..a71c161 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1890,7 +1890,11 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 	}
 
 	z.groups[gl.Name] = gl
-	return z._gcSaveDisk(gl.Name)
+	err := z._gcSaveDisk(gl.Name)
+	if err != nil {
+		z.groups[gl.Name] = group // unwind
+	}
+	return err
 }
 
 func (z *ZKC) _addIdGroupchat(gcName string,
-- 
2.43.0


From 655ceeec2936a81d032773c542e01fd5b637c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:25 +0000
Subject: [PATCH 63/63] fix: zkclient: do not lose group chat invitations that
 arrive during a join

---
 zkclient/push.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index e8e7d15..de5cf58 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -774,8 +774,10 @@ func (z *ZKC) handleGroupInvite(msg rpc.Message, p rpc.Push,
 		return nil
 	}
 
-	// add invite to join database
+	// add invite to join database, the user may be joining another group
+	z.Lock()
 	err = z.joinDBAdd(p.From, gi)
+	z.Unlock()
 	if err != nil {
 		z.PrintfT(0, "could not join %v: %v",
 			gi.Name, err)
-- 
2.43.0

