From c6f27c9661dfe6c99f2bad748278faf50b0cded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:32 +0000
Subject: [PATCH 01/21] fix: serve empty backend results and never cache data
 returned with an error

The requester treated an empty file or directory listing as missing data, so
every request for one failed after its retries, and it cached data that the
backend had returned together with an error as if it were a success.
---
 requester/requester.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..fdca2ff 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -155,20 +155,20 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
 				func() (interface{}, error) {
 					fileData, err := r.backend.ReadFile(w.arg1)
-					if len(fileData) > 0 {
-						return fileData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return fileData, nil
 				},
 			)
 		case workReadDir:
 			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
 				func() (interface{}, error) {
 					dirData, err := r.backend.ReadDir(w.arg1)
-					if len(dirData) > 0 {
-						return dirData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return dirData, nil
 				},
 			)
 		case workDecryptName:
@@ -176,10 +176,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
 				func() (interface{}, error) {
 					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
-					if len(decryptedName) > 0 {
-						return decryptedName, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return decryptedName, nil
 				},
 			)
 		case workNone:
-- 
2.43.0


From 65cac91060bfc2375fd6cb055cae8e7f4e04d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 02/21] fix: read empty and header-only files as empty instead
 of failing

---
 filetree/decrypt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..51b2883 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -22,6 +22,11 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
+	// An empty file has no header, and a file that consists only of a header has
+	// no content (this is what an interrupted write leaves behind).
+	if len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen {
+		return []byte{}, nil
+	}
 	fileID, err := f.readFileID(fileBytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3c1d4802e0b58a7833465a1bd66d93f6dfe0320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 03/21] fix: report a truncated first block instead of
 panicking

---
 filetree/decrypt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 51b2883..fe7d80c 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -1,6 +1,7 @@
 package filetree
 
 import (
+	"errors"
 	"io"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
@@ -31,6 +32,9 @@ func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if plainLength == 0 {
+		return nil, errors.New("file is too short to hold a block")
+	}
 	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
 	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
 	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
-- 
2.43.0


From 5e801835551486823425cc9c8c5e9a98a40ee7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:23 +0000
Subject: [PATCH 04/21] fix: Stat works on files, not only on directories

---
 filetree/filetree.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..112e09d 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -185,9 +185,17 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	cleanPath := filepath.Clean(plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
-	cipherPath, err := f.findPath(cleanPath)
-	if err != nil {
-		return statErr(fmt.Sprintf("error finding path: %s", err))
+	cipherPath := f.encryptedRoot
+	if cleanPath != "/" {
+		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding parent path: %s", err))
+		}
+		entry, err := f.findInDir(cipherDirPath, plainBaseName)
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding path: %s", err))
+		}
+		cipherPath = filepath.Join(cipherDirPath, entry.Name())
 	}
 	item, err := f.fsAccessor.Stat(cipherPath)
 	if err != nil {
-- 
2.43.0


From 5e81f518c92664dd8c80a4fc97906bda90f89743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 05/21] fix: decrypt AES-SIV volumes with AES-SIV, as their
 config file says

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 112e09d..4dfa51b 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -74,6 +74,9 @@ func Init(
 		return nil, err
 	}
 	cryptoBackend := cryptocore.BackendGoGCM
+	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
+		cryptoBackend = cryptocore.BackendAESSIV
+	}
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
 	forceDecode := false
-- 
2.43.0


From 18e2ce8315418277f1a58be8ffbedeb72a38c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:43 +0000
Subject: [PATCH 06/21] fix: reject overlong encrypted names instead of
 panicking in EME

---
 gocrypt/nametransform/names.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..960c299 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -15,6 +15,8 @@ import (
 const (
 	// Like ext4, we allow at most 255 bytes for a file name.
 	NameMax = 255
+	// EME operates on at most 128 cipher blocks and panics on more.
+	emeMaxBlocks = 128
 )
 
 // NameTransformer is an interface used to transform filenames.
@@ -65,6 +67,10 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	if len(bin) > emeMaxBlocks*aes.BlockSize {
+		tlog.Debug.Printf("DecryptName: decoded length %d is too long for EME", len(bin))
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From a5e0f12c4cd2816018925475e6f102e9d1f7e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:00 +0000
Subject: [PATCH 07/21] fix: report a directory IV of the wrong length instead
 of panicking

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 4dfa51b..17f2824 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -238,6 +238,9 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	if err != nil {
 		return fmt.Errorf("error reading directory IV: %s", err)
 	}
+	if len(iv) != nametransform.DirIVLen {
+		return fmt.Errorf("directory IV has wrong length: want %d bytes, got %d", nametransform.DirIVLen, len(iv))
+	}
 	dirListing, err := f.reqCacher.ReadDir(cipherPath)
 	if err != nil {
 		return fmt.Errorf("error listing directory: %s", err)
-- 
2.43.0


From 75860b85449ab3d3512b8dc08fa1f47fdfd05a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:20 +0000
Subject: [PATCH 08/21] fix: Mkdir reports that it is not supported instead of
 claiming success

---
 filetree/filetree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 17f2824..fc8b0ea 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -212,7 +212,7 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 }
 
 func (f *FileTree) Mkdir(plainPath string) error {
-	return nil
+	return errors.New("Not supported yet")
 }
 
 func (f *FileTree) Rename(plainPath string, target string) error {
-- 
2.43.0


From 6acdb8db0680751e8db04dc9ebb87297e0e3d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:21 +0000
Subject: [PATCH 09/21] fix: a retry after a failed request no longer deletes a
 newer request's entry

---
 requester/makerequest.go |  4 +++-
 requester/synccache.go   | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..e181905 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -65,7 +65,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				} else {
 					retryErrs = append(retryErrs, "empty data for path in cache")
 				}
-				cache.Delete(key)
+				// Another request may have replaced the failed entry by now, so
+				// only delete it if it is still a failed one.
+				cache.DeleteFailed(key)
 				continue
 			}
 
diff --git a/requester/synccache.go b/requester/synccache.go
index f0f1351..b32884e 100644
--- a/requester/synccache.go
+++ b/requester/synccache.go
@@ -66,3 +66,14 @@ func (s *syncCache) Delete(key string) {
 	delete(s.m, key)
 	s.lock.Unlock()
 }
+
+// DeleteFailed deletes the value associated with the key from the cache in a
+// thread-safe way, but only if it is the result of a failed request. Data, and
+// requests that are still in progress, are left alone.
+func (s *syncCache) DeleteFailed(key string) {
+	s.lock.Lock()
+	if cacheEntry, found := s.m[key]; found && cacheEntry.err != nil {
+		delete(s.m, key)
+	}
+	s.lock.Unlock()
+}
-- 
2.43.0


From 7bd5417bfb9734861792c478d41b8c807cf6a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:22 +0000
Subject: [PATCH 10/21] fix: workers no longer block forever on requests that
 timed out

---
 requester/makerequest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index e181905..814a6c6 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		// Buffered, so that a worker never blocks on a request that has given up
+		// waiting.
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From 7c395b258d5b8e04620c0ffab0431708efb530bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:51 +0000
Subject: [PATCH 11/21] fix: a listing no longer drops entries whose name
 request timed out

---
 filetree/filetree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index fc8b0ea..c19dc1a 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -247,6 +247,11 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	}
 	for _, info := range dirListing {
 		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
+		if err != nil {
+			// The request may have failed because all workers are busy, which
+			// says nothing about the name.
+			rName, err = f.nTransform.DecryptName(info.Name(), iv)
+		}
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 0b7341c6e1f51153482b40ca9dd67d7150ba2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:59 +0000
Subject: [PATCH 12/21] fix: the directory cache evicts the least recently used
 entry after refreshes

---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From 310069249549193df82b04f6d1bc432b69e57242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:17 +0000
Subject: [PATCH 13/21] fix: refuse an empty password and a stored master key
 of the wrong length instead of panicking

---
 filetree/filetree.go              | 4 ++++
 gocrypt/configfile/config_file.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index c19dc1a..39f5189 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -73,6 +73,10 @@ func Init(
 	if err != nil {
 		return nil, err
 	}
+	if masterKey == nil {
+		// LoadAndDecrypt does not unlock the key if the password is empty.
+		return nil, errors.New("an empty password cannot unlock the volume")
+	}
 	cryptoBackend := cryptocore.BackendGoGCM
 	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
 		cryptoBackend = cryptocore.BackendAESSIV
diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..64fb3ed 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -237,6 +237,11 @@ func (cf *ConfFile) DecryptMasterKey(password []byte) (masterkey []byte, err err
 		tlog.Warn.Printf("failed to unlock master key: %s", err.Error())
 		return nil, exitcodes.NewErr("Password incorrect.", exitcodes.PasswordIncorrect)
 	}
+	// DecryptBlock passes empty input and file holes through, and an authentic
+	// block may have any length.
+	if len(masterkey) != cryptocore.KeyLen {
+		return nil, fmt.Errorf("master key has wrong length: %d bytes, want %d", len(masterkey), cryptocore.KeyLen)
+	}
 	return masterkey, nil
 }
 
-- 
2.43.0


From ea9936386691908772396adafa756e99c3427038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:17 +0000
Subject: [PATCH 14/21] fix: a failed write of the config file no longer blocks
 later writes with its temporary file

---
 gocrypt/configfile/config_file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 64fb3ed..8c4d749 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -280,12 +280,16 @@ func (cf *ConfFile) WriteFile() error {
 	}
 	js, err := json.MarshalIndent(cf, "", "\t")
 	if err != nil {
+		fd.Close()
+		os.Remove(tmp)
 		return err
 	}
 	// For convenience for the user, add a newline at the end.
 	js = append(js, '\n')
 	_, err = fd.Write(js)
 	if err != nil {
+		fd.Close()
+		os.Remove(tmp)
 		return err
 	}
 	err = fd.Sync()
@@ -296,9 +300,13 @@ func (cf *ConfFile) WriteFile() error {
 	}
 	err = fd.Close()
 	if err != nil {
+		os.Remove(tmp)
 		return err
 	}
 	err = os.Rename(tmp, cf.filename)
+	if err != nil {
+		os.Remove(tmp)
+	}
 	return err
 }
 
-- 
2.43.0


From 20bf6899e61750555c2663423287f96e48addce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:55 +0000
Subject: [PATCH 15/21] fix: report a private key file that is not PEM instead
 of crashing

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e1461f9..cf9b8fe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,7 +89,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 
 func isPrivateKeyEncrypted(key []byte) bool {
 	block, _ := pem.Decode(key)
-	return x509.IsEncryptedPEMBlock(block)
+	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
-- 
2.43.0


From d99eda6be90592d99ff70b27e07f9312bc1c21e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 16/21] fix: a broken connection or SFTP session is no longer
 put back into the pool

---
 backend/pool.go     | 10 ++++++++++
 backend/provider.go | 25 ++++++++++++++-----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/backend/pool.go b/backend/pool.go
index a386333..3abcc22 100644
--- a/backend/pool.go
+++ b/backend/pool.go
@@ -40,6 +40,16 @@ func (c *conn) Close() {
 	}
 }
 
+// Ping returns an error if the remote no longer answers on the SFTP session.
+func (c *conn) Ping() error {
+	_, err := c.sftpConn.Getwd()
+	if _, ok := err.(*sftp.StatusError); ok {
+		// Refused, but answered.
+		return nil
+	}
+	return err
+}
+
 type pool struct {
 	conns chan *conn
 
diff --git a/backend/provider.go b/backend/provider.go
index 455cc8c..57eddd7 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -34,22 +34,27 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	file, err := c.sftpConn.Open(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
+		// Test the underlying connection to see if it's still okay.
+		if pingErr := c.Ping(); pingErr != nil {
 			c.Close()
 		} else {
 			p.p.Put(c)
 		}
 		return nil, err
 	}
-	defer p.p.Put(c)
-	defer func() { _ = file.Close() }()
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
+	_ = file.Close()
 	if err != nil {
+		// Test the underlying connection to see if it's still okay.
+		if pingErr := c.Ping(); pingErr != nil {
+			c.Close()
+		} else {
+			p.p.Put(c)
+		}
 		return nil, err
 	}
+	p.p.Put(c)
 	return buf.Bytes(), nil
 }
 
@@ -62,9 +67,8 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 	}
 	listing, err := c.sftpConn.ReadDir(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
+		// Test the underlying connection to see if it's still okay.
+		if pingErr := c.Ping(); pingErr != nil {
 			c.Close()
 		} else {
 			p.p.Put(c)
@@ -84,9 +88,8 @@ func (p *Provider) Stat(path string) (os.FileInfo, error) {
 	}
 	stat, err := c.sftpConn.Stat(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
-		if sshErr != nil {
+		// Test the underlying connection to see if it's still okay.
+		if pingErr := c.Ping(); pingErr != nil {
 			c.Close()
 		} else {
 			p.p.Put(c)
-- 
2.43.0


From ddf09a13c09e6bdf07a562beb5ef784f0d5c81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:31 +0000
Subject: [PATCH 17/21] fix: a connection lost in the middle of a file or
 listing is an error, not its end

---
 backend/provider.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/backend/provider.go b/backend/provider.go
index 57eddd7..979b502 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -44,7 +44,11 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
-	_ = file.Close()
+	// WriteTo mistakes a lost connection for the end of the file, but closing
+	// the file fails then.
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		// Test the underlying connection to see if it's still okay.
 		if pingErr := c.Ping(); pingErr != nil {
@@ -66,6 +70,10 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 		return nil, err
 	}
 	listing, err := c.sftpConn.ReadDir(path)
+	if err == nil {
+		// ReadDir mistakes a lost connection for the end of the listing.
+		err = c.Ping()
+	}
 	if err != nil {
 		// Test the underlying connection to see if it's still okay.
 		if pingErr := c.Ping(); pingErr != nil {
-- 
2.43.0


From ec91e96a235587401f5e8b3abada7b8f237ee84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:17 +0000
Subject: [PATCH 18/21] fix: refuse to start with an incomplete configuration

Without ProxyUser and ProxyPassword the proxy let everybody in with an empty
user name and password; config.Validate existed but was never called.
---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..a4decea 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err := cfg.Validate(); err != nil {
+		log.Fatalln("invalid config file:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From 228800a09024dc88b60f6310f7250598b00e835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:45 +0000
Subject: [PATCH 19/21] fix: refuse a subsystem request with a short payload
 instead of crashing

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index a4decea..985b8e0 100644
--- a/main.go
+++ b/main.go
@@ -154,6 +154,9 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
+				if len(req.Payload) < 4 {
+					break
+				}
 				logger.Printf("Subsystem: %s\n", req.Payload[4:])
 				if string(req.Payload[4:]) == "sftp" {
 					ok = true
-- 
2.43.0


From 09a2856377ed49d8397434ecd38a80f327f75d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:18 +0000
Subject: [PATCH 20/21] fix: a client that stalls in its handshake no longer
 blocks all others

---
 main.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/main.go b/main.go
index 985b8e0..0ede138 100644
--- a/main.go
+++ b/main.go
@@ -105,20 +105,26 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
-
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+		// A client may take as long as it likes with its handshake, so it
+		// must not keep others waiting.
+		go handleConn(nConn, sshConfig, reqHandlers, logger)
+	}
+}
 
-		go handleChannels(chans, reqHandlers, logger)
+func handleConn(nConn net.Conn, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
+	// Before use, a handshake must be performed on the incoming
+	// net.Conn.
+	_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+	if err != nil {
+		logger.Println("failed to handshake", err)
+		return
 	}
+	logger.Println("SSH server established")
+
+	// The incoming Request channel must be serviced.
+	go ssh.DiscardRequests(reqs)
+
+	handleChannels(chans, reqHandlers, logger)
 }
 
 func handleChannels(chans <-chan ssh.NewChannel, reqHandlers sftp.Handlers, logger *log.Logger) {
-- 
2.43.0


From 0958200178fdd5d10002f4789e0c4c94ad6a8961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 21/21] fix: a remote without a working directory of its own no
 longer counts as lost

---
 backend/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backend/pool.go b/backend/pool.go
index 3abcc22..0269635 100644
--- a/backend/pool.go
+++ b/backend/pool.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"errors"
 	"fmt"
+	"os"
 
 	"github.com/pkg/sftp"
 	"golang.org/x/crypto/ssh"
@@ -43,7 +44,7 @@ func (c *conn) Close() {
 // Ping returns an error if the remote no longer answers on the SFTP session.
 func (c *conn) Ping() error {
 	_, err := c.sftpConn.Getwd()
-	if _, ok := err.(*sftp.StatusError); ok {
+	if _, ok := err.(*sftp.StatusError); ok || os.IsNotExist(err) {
 		// Refused, but answered.
 		return nil
 	}
-- 
2.43.0

