From 01578ddadd5fea2e95ce7f7020657d87a5d36ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 01/25] fix: never hand out a context identifier that is still
 in use

---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..9604c9c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -34,6 +34,7 @@ type application struct {
 	bckExtension                string
 	readChunkSize               uint
 	contexts                    map[uint]*context
+	nextIdentifier              uint
 }
 
 func createApplication(
@@ -152,7 +153,7 @@ func (app *application) Open(name string) (*uint, error) {
 
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  app.nextIdentifier,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
@@ -162,6 +163,7 @@ func (app *application) Open(name string) (*uint, error) {
 	}
 
 	app.contexts[pContext.identifier] = pContext
+	app.nextIdentifier++
 	return &pContext.identifier, nil
 }
 
-- 
2.43.0


From 4cd3d409576a04e05d7b3d119b52b9d52846e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 02/25] fix: commit the pending content of a context only once

A second commit on the same context wrote its content again, and a commit
without any pending content panicked while building its hashtree.
---
 libs/databases/infrastructure/files/application.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 9604c9c..a5b14d3 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -408,6 +408,9 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+
+		// the pending content is now committed:
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
@@ -417,6 +420,11 @@ func (app *application) Commit(context uint) error {
 
 func (app *application) updateReference(context uint) (references.Reference, error) {
 	if pContext, ok := app.contexts[context]; ok {
+		if len(pContext.contentList) <= 0 {
+			str := fmt.Sprintf("there is no pending content to commit in the given context: %d", context)
+			return nil, errors.New(str)
+		}
+
 		// find the latest commit:
 		builder := app.referenceCommitBuilder.Create()
 		if pContext.reference != nil {
-- 
2.43.0


From 8597be6e79d62c2e0c10eec861d6018feb33e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 03/25] fix: read the reference and the data of a context from
 the same file

Open read the reference through one file and the data through another: a
commit of another process in between paired the old reference with the new
data.
---
 .../infrastructure/files/application.go       | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a5b14d3..c3f07f7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -136,15 +136,17 @@ func (app *application) Open(name string) (*uint, error) {
 		}
 	}
 
-	reference, offset, err := app.retrieveReference(name)
+	// open the connection:
+	path := filepath.Join(app.dirPath, name)
+	pConn, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
 
-	// open the connection:
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
+	// read the reference using the connection, so that the reference and the data belong to the same version of the database:
+	reference, offset, err := app.retrieveReference(pConn)
 	if err != nil {
+		pConn.Close()
 		return nil, err
 	}
 
@@ -175,15 +177,7 @@ func (app *application) makeChunkSize(length uint) uint {
 	return app.readChunkSize
 }
 
-func (app *application) retrieveReference(name string) (references.Reference, uint, error) {
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	defer pConn.Close()
-
+func (app *application) retrieveReference(pConn *os.File) (references.Reference, uint, error) {
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-- 
2.43.0


From 8367cf80caa30b01b7dfa88b88672e94f54df913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 04/25] fix: never take an unreadable or damaged database for
 an empty one

Any failure to read the reference length was taken for an empty database,
which the next commit then replaced.  A length the file cannot contain
panicked or allocated without bound.
---
 .../infrastructure/files/application.go       | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index c3f07f7..240c74a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -181,17 +181,34 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err == io.EOF && refAmount <= 0 {
 		return nil, 0, nil
 	}
 
+	if err != nil && err != io.EOF {
+		return nil, 0, err
+	}
+
 	if refAmount != expectedReferenceBytesLength {
 		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
 		return nil, 0, errors.New(str)
 	}
 
-	// convert the reference length to uint64:
-	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
+	// make sure the file contains the reference:
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	refLengthValue := binary.LittleEndian.Uint64(refLengthBytes)
+	remainingLength := uint64(pInfo.Size() - expectedReferenceBytesLength)
+	if refLengthValue <= 0 || refLengthValue > remainingLength {
+		str := fmt.Sprintf("the reference length (%d) is invalid because the database contains %d bytes after it", refLengthValue, remainingLength)
+		return nil, 0, errors.New(str)
+	}
+
+	// convert the reference length to int:
+	refLength := int(refLengthValue)
 
 	// read the reference data:
 	refAllBytes := []byte{}
-- 
2.43.0


From 59fc0781a6dcc2018a1199fefac7eb4140aff3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 05/25] fix: keep every byte of the existing content when
 committing

The copy of the existing content dropped its last partial chunk, and a
failure to read or write any of it was taken for the end of the content.
---
 .../infrastructure/files/application.go         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 240c74a..28bff2e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -170,7 +170,7 @@ func (app *application) Open(name string) (*uint, error) {
 }
 
 func (app *application) makeChunkSize(length uint) uint {
-	if app.readChunkSize > length {
+	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
 	}
 
@@ -631,16 +631,14 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
-		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
-
-		for {
+		remaining := uint(context.reference.ContentKeys().Next())
+		for remaining > 0 {
 			// read the file at offset:
+			chunkSize := app.makeChunkSize(remaining)
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -651,12 +649,13 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
 			readOffset += int64(amountRead)
 			writeOffset += int64(amountRead)
+			remaining -= chunkSize
 		}
 	}
 
@@ -665,7 +664,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From aed0e59b7c22368027f47a7048ddeb044eb86077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 06/25] fix: refuse pointers that leave the data of the
 database

Reading such a pointer panicked or allocated without bound, and a database
that lost the end of its file was opened as if it were complete.
---
 .../infrastructure/files/application.go       | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 28bff2e..6c491ee 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -241,9 +241,26 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 		return nil, 0, err
 	}
 
+	// make sure the file contains the data of every content:
+	for _, oneContentKey := range ins.ContentKeys().List() {
+		err := app.validatePointer(oneContentKey.Content(), uint(pInfo.Size()-offset))
+		if err != nil {
+			return nil, 0, err
+		}
+	}
+
 	return ins, uint(offset), nil
 }
 
+func (app *application) validatePointer(pointer references.Pointer, dataLength uint) error {
+	if pointer.From() > dataLength || pointer.Length() > dataLength-pointer.From() {
+		str := fmt.Sprintf("the pointer (from: %d, length: %d) is invalid because the database contains %d bytes of data", pointer.From(), pointer.Length(), dataLength)
+		return errors.New(str)
+	}
+
+	return nil
+}
+
 // ContentKeysByKind returns the contentKeys by context and kind
 func (app *application) ContentKeysByKind(context uint, kind uint) (references.ContentKeys, error) {
 	contentKeys, err := app.contentKeys(context)
@@ -302,6 +319,16 @@ func (app *application) Commits(context uint) (references.Commits, error) {
 // Read reads a pointer on a context
 func (app *application) Read(context uint, pointer references.Pointer) ([]byte, error) {
 	if pContext, ok := app.contexts[context]; ok {
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		err = app.validatePointer(pointer, uint(pInfo.Size())-pContext.dataOffset)
+		if err != nil {
+			return nil, err
+		}
+
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
 		contentBytes := make([]byte, length)
-- 
2.43.0


From ed2bb5de996b126b2e52ad4e17eb81e9643f4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 07/25] fix: refuse malformed bytes instead of panicking when
 decoding

Every length read from the bytes is now compared to what the bytes contain
before it is used to slice them.
---
 .../domain/hashtrees/leaf_adapter.go          |  8 +++++++-
 .../domain/hashtrees/leaves_adapter.go        | 12 +++++++++++-
 libs/databases/domain/references/adapter.go   | 19 +++++++++++++------
 .../domain/references/commit_adapter.go       | 14 ++++++++++++++
 .../domain/references/commits_adapter.go      | 14 ++++++++++++--
 .../domain/references/contentkeys_adapter.go  |  8 +++++++-
 6 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..bfb4885 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	leftLengthValue := binary.LittleEndian.Uint64(content[:8])
+	if leftLengthValue > uint64(contentLength-8) {
+		str := fmt.Sprintf("the content was expected to contain %d bytes in order to retrieve the left Leaf of the ParentLeaf instance, %d provided", leftLengthValue, contentLength-8)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(leftLengthValue)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..46fda20 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,8 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if contentLength < lengthEndsOn {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Leaf instance, %d provided", lengthEndsOn, contentLength)
+			return nil, errors.New(str)
+		}
+
+		leafLengthValue := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if leafLengthValue > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the content was expected to contain %d bytes in order to convert to a Leaf instance, %d provided", leafLengthValue, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
 
+		leafLength := int(leafLengthValue)
 		endsOn := lengthEndsOn + leafLength
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..dabff70 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,25 +61,32 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if contentKeysBytesLength > uint64(contentLength)-contentKeysBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain %d bytes of ContentKeys in order to convert to a Reference instance, %d bytes provided", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
+
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if commitBytesLengthDelimiter > uint64(contentLength) {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if commitBytesLength > uint64(contentLength)-commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain %d bytes of Commits in order to convert to a Reference instance, %d bytes provided", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
+
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..4979d1c 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -84,6 +84,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
 
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the content was expected to contain %d bytes of values in order to convert to a Commit instance, %d bytes provided", valueBytesAmount, contentLength)
+		return nil, errors.New(str)
+	}
+
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
 	if err != nil {
@@ -96,7 +101,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the proof size of the Commit instance, %d provided", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the content was expected to contain %d bytes of proof in order to convert to a Commit instance, %d bytes provided", proofBytesLength, len(remaining))
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..0f2c1eb 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -60,8 +60,18 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 		}
 
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
-		contentDelimiter := lengthDelimiter + length
+		if amount < 8 {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of the Commit instance, %d provided", 8, amount)
+			return nil, errors.New(str)
+		}
+
+		length := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if length > uint64(amount-8) {
+			str := fmt.Sprintf("the content was expected to contain %d bytes in order to convert to a Commit instance, %d provided", length, amount-8)
+			return nil, errors.New(str)
+		}
+
+		contentDelimiter := lengthDelimiter + int(length)
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
 			return nil, err
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..4b38d5b 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -53,7 +53,13 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 	}
 
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
+	amount := binary.LittleEndian.Uint64(content[:8])
+	if amount != uint64(len(content)-8)/uint64(contentKeySize) {
+		str := fmt.Sprintf("the content contains %d bytes and therefore cannot contain %d ContentKey instances", len(content), amount)
+		return nil, errors.New(str)
+	}
+
+	length := int(amount)
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From 934dc3833a6225c99a50c61ded7d8969f9438ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 08/25] fix: report the error when the existence of a database
 is unknown

---
 libs/databases/infrastructure/files/application.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 6c491ee..615ec71 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -84,7 +84,11 @@ func (app *application) Exists(name string) (bool, error) {
 		return !fileInfo.IsDir(), nil
 	}
 
-	return false, nil
+	if errors.Is(err, os.ErrNotExist) {
+		return false, nil
+	}
+
+	return false, err
 }
 
 // New creates a new database
-- 
2.43.0


From 08c005f2df83c3f099695dc3ceca2c6ce1750209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 09/25] fix: commit the bytes that were passed to Write

The pending content shared its bytes with the caller, which could modify
them before the commit.
---
 libs/databases/infrastructure/files/application.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 615ec71..077f799 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -405,6 +405,9 @@ func (app *application) ReadAllByHashes(context uint, hashes []hash.Hash) ([][]b
 // Write writes data to a context
 func (app *application) Write(context uint, hash hash.Hash, data []byte, kind uint) error {
 	if pContext, ok := app.contexts[context]; ok {
+		// copy the input, because the caller might modify it before the commit:
+		hash = hash.Bytes()
+		data = append([]byte{}, data...)
 		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(data).WithKind(kind).Now()
 		if err != nil {
 			return err
-- 
2.43.0


From 10b6422ecbcb29c6fc3f0049b4d375d8ff00fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 10/25] fix: refuse a content whose hash has the wrong size

Committing such a content made the whole database unreadable, because the
reference stores every hash on a fixed amount of bytes.
---
 libs/databases/domain/contents/content_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/databases/domain/contents/content_builder.go b/libs/databases/domain/contents/content_builder.go
index 44912d6..ad05f4e 100644
--- a/libs/databases/domain/contents/content_builder.go
+++ b/libs/databases/domain/contents/content_builder.go
@@ -2,6 +2,7 @@ package contents
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
 )
@@ -51,6 +52,11 @@ func (app *contentBuilder) Now() (Content, error) {
 		return nil, errors.New("the hash is mandatory in order to build a Content instance")
 	}
 
+	if len(*app.pHash) != hash.Size {
+		str := fmt.Sprintf("the hash was expected to contain %d bytes in order to build a Content instance, %d provided", hash.Size, len(*app.pHash))
+		return nil, errors.New(str)
+	}
+
 	if app.pKind == nil {
 		return nil, errors.New("the kind is mandatory in order to build a Content instance")
 	}
-- 
2.43.0


From 1a5fbdedee2c5a27f1e79db71adeee521cba65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 11/25] fix: replace the database at once when committing

The source was deleted before the destination took its name: a crash or an
error in between left no database, and a context on a closed file.
---
 .../infrastructure/files/application.go       | 37 +++++++------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 077f799..09d0606 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
@@ -449,6 +450,9 @@ func (app *application) Commit(context uint) error {
 			return err
 		}
 
+		// close the previous file connection:
+		pContext.pConn.Close()
+
 		// update the file connection and reference:
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
@@ -578,14 +582,18 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	backupFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.bckExtension)
 	backupPath := filepath.Join(app.dirPath, backupFile)
 
+	// delete the backup file on closing the method, it is only useful while the source is being replaced:
+	defer os.Remove(backupPath)
+
 	// copy the source database to a backup file:
 	backupPtr, err := os.Create(backupPath)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	_, err = io.Copy(backupPtr, context.pConn)
+	_, err = io.Copy(backupPtr, io.NewSectionReader(context.pConn, 0, math.MaxInt64))
 	if err != nil {
+		backupPtr.Close()
 		return nil, nil, err
 	}
 
@@ -595,35 +603,18 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// open the connection on the destination, before it becomes the source:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
-	err = os.Rename(destinationPath, sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the backup file:
-	err = os.Remove(backupPath)
+	pNewConn, err := os.Open(destinationPath)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// re-open the source connection:
-	pNewConn, err := os.Open(sourcePath)
+	// replace the source by the destination, at once:
+	err = os.Rename(destinationPath, sourcePath)
 	if err != nil {
+		pNewConn.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From dbcf2286a62c76d3f5f8cc6f7fe63e33f7545de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 12/25] fix: leave no destination file behind a commit that
 failed

---
 .../databases/infrastructure/files/application.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 09d0606..4a4684b 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -569,6 +569,18 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// create the destination path:
+	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
+	destinationPath := filepath.Join(app.dirPath, destinationFile)
+
+	// delete the destination file on closing the method, if it did not become the source:
+	isReplaced := false
+	defer func() {
+		if !isReplaced {
+			os.Remove(destinationPath)
+		}
+	}()
+
 	// write data on the destination file:
 	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
 	if err != nil {
@@ -604,8 +616,6 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	}
 
 	// open the connection on the destination, before it becomes the source:
-	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
-	destinationPath := filepath.Join(app.dirPath, destinationFile)
 	pNewConn, err := os.Open(destinationPath)
 	if err != nil {
 		return nil, nil, err
@@ -618,6 +628,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	isReplaced = true
 	return pNewConn, pDataOffset, nil
 }
 
-- 
2.43.0


From b7c213f709211318639a56ccc4ebc56f762a8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 13/25] fix: make New, Delete and Commit durable before
 reporting success

Neither the new database file nor the directory that names it were synced,
so that a power loss could take back, or tear, what was reported as done.
---
 .../infrastructure/files/application.go       | 65 +++++++++++++++++--
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 4a4684b..a0aeb3c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"runtime"
 	"time"
 
 	"github.com/juju/fslock"
@@ -95,7 +96,7 @@ func (app *application) Exists(name string) (bool, error) {
 // New creates a new database
 func (app *application) New(name string) error {
 	if _, err := os.Stat(app.dirPath); errors.Is(err, os.ErrNotExist) {
-		err := os.MkdirAll(app.dirPath, filePermission)
+		err := app.createDirectory(app.dirPath)
 		if err != nil {
 			return err
 		}
@@ -113,7 +114,32 @@ func (app *application) New(name string) error {
 		return err
 	}
 
-	return file.Close()
+	err = file.Close()
+	if err != nil {
+		return err
+	}
+
+	return app.syncDirectory(app.dirPath)
+}
+
+func (app *application) createDirectory(path string) error {
+	if _, err := os.Stat(path); !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+
+	// the parent directory must be durable as well:
+	parentPath := filepath.Dir(path)
+	err := app.createDirectory(parentPath)
+	if err != nil {
+		return err
+	}
+
+	err = os.Mkdir(path, filePermission)
+	if err != nil && !errors.Is(err, os.ErrExist) {
+		return err
+	}
+
+	return app.syncDirectory(parentPath)
 }
 
 // Delete deletes an existing database
@@ -129,7 +155,12 @@ func (app *application) Delete(name string) error {
 		return errors.New(str)
 	}
 
-	return os.Remove(path)
+	err = os.Remove(path)
+	if err != nil {
+		return err
+	}
+
+	return app.syncDirectory(app.dirPath)
 }
 
 // Open opens a context on a given database
@@ -446,7 +477,7 @@ func (app *application) Commit(context uint) error {
 	if pContext, ok := app.contexts[context]; ok {
 		// update database on disk:
 		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
-		if err != nil {
+		if pConn == nil {
 			return err
 		}
 
@@ -460,7 +491,7 @@ func (app *application) Commit(context uint) error {
 
 		// the pending content is now committed:
 		app.contexts[context].contentList = []contents.Content{}
-		return nil
+		return err
 	}
 
 	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot be comitted", context)
@@ -628,8 +659,24 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	// the new source is already in use, even if it could not be made durable:
 	isReplaced = true
-	return pNewConn, pDataOffset, nil
+	return pNewConn, pDataOffset, app.syncDirectory(app.dirPath)
+}
+
+func (app *application) syncDirectory(path string) error {
+	// directories cannot be synced on windows:
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+
+	pDir, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+
+	defer pDir.Close()
+	return pDir.Sync()
 }
 
 func (app *application) writeDataAndReferenceOnDestinationFile(context *context, updatedReference references.Reference) (*uint, error) {
@@ -707,6 +754,12 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		writeOffset += int64(len(contentBytes))
 	}
 
+	// make the destination durable before it can replace the source:
+	err = destination.Sync()
+	if err != nil {
+		return nil, err
+	}
+
 	dataOffset := uint(writtenAmount)
 	return &dataOffset, nil
 }
-- 
2.43.0


From 358aa7d1be9ea815065e3dc2613d0fa110995c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 14/25] fix: never replace the commits of another context or
 process

A commit overwrote every commit made since its context was opened.  The
lock was taken on the database file, which every commit replaces, and
taking it created the database again after it was deleted.
---
 .../infrastructure/files/application.go       | 30 ++++++++++++++++---
 libs/databases/infrastructure/files/sdk.go    |  1 +
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a0aeb3c..0cc1949 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -187,7 +187,7 @@ func (app *application) Open(name string) (*uint, error) {
 	}
 
 	// create a Lock instance on the path:
-	pLock := fslock.New(path)
+	pLock := app.createLock(name)
 
 	// create the context:
 	pContext := &context{
@@ -205,6 +205,12 @@ func (app *application) Open(name string) (*uint, error) {
 	return &pContext.identifier, nil
 }
 
+// createLock creates a lock on a file that remains when the database is replaced or deleted
+func (app *application) createLock(name string) *fslock.Lock {
+	lockFile := fmt.Sprintf("%s%s%s", name, fileNameExtensionDelimiter, lockExtension)
+	return fslock.New(filepath.Join(app.dirPath, lockFile))
+}
+
 func (app *application) makeChunkSize(length uint) uint {
 	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
@@ -600,6 +606,25 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// create the source path:
+	sourcePath := filepath.Join(app.dirPath, context.name)
+
+	// make sure the source did not change since the context was opened:
+	pSourceInfo, err := os.Stat(sourcePath)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	pConnInfo, err := context.pConn.Stat()
+	if err != nil {
+		return nil, nil, err
+	}
+
+	if !os.SameFile(pSourceInfo, pConnInfo) {
+		str := fmt.Sprintf("the database (name: %s) changed since the context (%d) was opened", context.name, context.identifier)
+		return nil, nil, errors.New(str)
+	}
+
 	// create the destination path:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
@@ -618,9 +643,6 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// create the source path:
-	sourcePath := filepath.Join(app.dirPath, context.name)
-
 	// create the backup path:
 	backupFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.bckExtension)
 	backupPath := filepath.Join(app.dirPath, backupFile)
diff --git a/libs/databases/infrastructure/files/sdk.go b/libs/databases/infrastructure/files/sdk.go
index 48cc6ba..757d886 100644
--- a/libs/databases/infrastructure/files/sdk.go
+++ b/libs/databases/infrastructure/files/sdk.go
@@ -10,6 +10,7 @@ import (
 const fileNameExtensionDelimiter = "."
 const expectedReferenceBytesLength = 8
 const filePermission = 0777
+const lockExtension = "lock"
 
 // NewApplication creates a new file application instance
 func NewApplication(
-- 
2.43.0


From fe696adb724b755c904c060e5d203dc9add14a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 15/25] fix: never truncate an existing database in New

A database that another process created, or whose existence could not be
verified, was truncated.
---
 libs/databases/infrastructure/files/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 0cc1949..ed50da1 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -109,7 +109,7 @@ func (app *application) New(name string) error {
 		return errors.New(str)
 	}
 
-	file, err := os.Create(path)
+	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c49adf657242f31a9aea533b8a55cf0abf3d0258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 16/25] fix: never delete a database while a commit is
 replacing it

The commit brought back the database that was reported as deleted.
---
 libs/databases/infrastructure/files/application.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index ed50da1..5761d79 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -155,6 +155,16 @@ func (app *application) Delete(name string) error {
 		return errors.New(str)
 	}
 
+	// make sure no commit is replacing the database:
+	pLock := app.createLock(name)
+	err = pLock.TryLock()
+	if err != nil {
+		return err
+	}
+
+	// release the lock on closing the method:
+	defer pLock.Unlock()
+
 	err = os.Remove(path)
 	if err != nil {
 		return err
-- 
2.43.0


From a20cb2c06cea3658108cdbd9b649f2dbb8b5b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 17/25] fix: close the context even if closing its file returns
 an error

The file is closed in any case, but its context could not be closed nor
used, and its database could not be opened, anymore.
---
 libs/databases/infrastructure/files/application.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 5761d79..59ab5c4 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -840,13 +840,8 @@ func (app *application) saveDataOnDisk(offset int64, data []byte, pConn *os.File
 // Close closes a context
 func (app *application) Close(context uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		err := pContext.pConn.Close()
-		if err != nil {
-			return err
-		}
-
 		delete(app.contexts, context)
-		return nil
+		return pContext.pConn.Close()
 	}
 
 	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot be closed", context)
-- 
2.43.0


From a17a9f9462e9d881a9e3d4711d8379a207acae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 18/25] fix: refuse the database names that collide with the
 files of a commit

The commit of a database replaced and deleted the databases that have its
name followed by the extension of the destination or of the backup.
---
 .../infrastructure/files/application.go       | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 59ab5c4..f304085 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strings"
 	"time"
 
 	"github.com/juju/fslock"
@@ -80,6 +81,10 @@ func createApplication(
 
 // Exists returns true if the database exists, false otherwise
 func (app *application) Exists(name string) (bool, error) {
+	if app.isReserved(name) {
+		return false, nil
+	}
+
 	path := filepath.Join(app.dirPath, name)
 	fileInfo, err := os.Stat(path)
 	if err == nil {
@@ -93,8 +98,24 @@ func (app *application) Exists(name string) (bool, error) {
 	return false, err
 }
 
+// isReserved returns true if the name is the one of a file that manages another database, false otherwise
+func (app *application) isReserved(name string) bool {
+	for _, oneExtension := range []string{app.dstExtension, app.bckExtension, lockExtension} {
+		if strings.HasSuffix(name, fileNameExtensionDelimiter+oneExtension) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // New creates a new database
 func (app *application) New(name string) error {
+	if app.isReserved(name) {
+		str := fmt.Sprintf("the name (%s) is reserved and therefore cannot be used to create a database", name)
+		return errors.New(str)
+	}
+
 	if _, err := os.Stat(app.dirPath); errors.Is(err, os.ErrNotExist) {
 		err := app.createDirectory(app.dirPath)
 		if err != nil {
@@ -144,6 +165,11 @@ func (app *application) createDirectory(path string) error {
 
 // Delete deletes an existing database
 func (app *application) Delete(name string) error {
+	if app.isReserved(name) {
+		str := fmt.Sprintf("the name (%s) is reserved and therefore cannot be used to delete a database", name)
+		return errors.New(str)
+	}
+
 	path := filepath.Join(app.dirPath, name)
 	pInfo, err := os.Stat(path)
 	if err != nil {
@@ -175,6 +201,11 @@ func (app *application) Delete(name string) error {
 
 // Open opens a context on a given database
 func (app *application) Open(name string) (*uint, error) {
+	if app.isReserved(name) {
+		str := fmt.Sprintf("the name (%s) is reserved and therefore cannot be used to open a database", name)
+		return nil, errors.New(str)
+	}
+
 	for _, oneContext := range app.contexts {
 		if oneContext.name == name {
 			str := fmt.Sprintf("there is already an open context for the provided name: %s", name)
-- 
2.43.0


From abc231ff6c0d22e2fe900535aa9c73682c99adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 19/25] fix: build an hashtree without writing to the blocks of
 the caller

Padding a single block wrote behind the slice of the caller, and building
an hashtree without any block panicked.
---
 libs/cryptography/domain/hashtrees/builder.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..356dfb0 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -74,12 +74,14 @@ func (app *builder) Now() (HashTree, error) {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	if len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+	// there must be at least 2 blocks, the caller's blocks must remain untouched:
+	blocks := append([][]byte{}, app.blocks...)
+	for len(blocks) <= 1 {
+		blocks = append(blocks, []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-	for _, oneData := range app.blocks {
+	for _, oneData := range blocks {
 		oneHash, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 18534bc3ced8f2668d21da9a5b4fb5e7246c4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 20/25] fix: return instead of panicking when a query selects
 no content

A single content func was called on an empty list, and an element without
grammar that precedes the requested one was used as if it had a grammar.
---
 libs/queries/applications/application.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
@@ -144,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From fef112e0fdc06a3f1731910a65a859f7bf01d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 21/25] fix: make the directories durable even if an earlier
 creation stopped

New synced the parents of the database directory only when it created them:
if that sync failed, or the process died before it, the next New found the
directory, reported success, and a power loss took the whole directory back.
---
 .../infrastructure/files/application.go       | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index f304085..cf80920 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/juju/fslock"
@@ -116,15 +117,13 @@ func (app *application) New(name string) error {
 		return errors.New(str)
 	}
 
-	if _, err := os.Stat(app.dirPath); errors.Is(err, os.ErrNotExist) {
-		err := app.createDirectory(app.dirPath)
-		if err != nil {
-			return err
-		}
+	err := app.createDirectory(app.dirPath)
+	if err != nil {
+		return err
 	}
 
 	path := filepath.Join(app.dirPath, name)
-	_, err := os.Stat(path)
+	_, err = os.Stat(path)
 	if err == nil {
 		str := fmt.Sprintf("the database (name: %s) already exists and therefore cannot be created again", name)
 		return errors.New(str)
@@ -144,23 +143,36 @@ func (app *application) New(name string) error {
 }
 
 func (app *application) createDirectory(path string) error {
-	if _, err := os.Stat(path); !errors.Is(err, os.ErrNotExist) {
-		return err
+	path = filepath.Clean(path)
+	parentPath := filepath.Dir(path)
+	if parentPath == path {
+		return nil
 	}
 
-	// the parent directory must be durable as well:
-	parentPath := filepath.Dir(path)
 	err := app.createDirectory(parentPath)
 	if err != nil {
 		return err
 	}
 
-	err = os.Mkdir(path, filePermission)
-	if err != nil && !errors.Is(err, os.ErrExist) {
+	_, err = os.Stat(path)
+	if errors.Is(err, os.ErrNotExist) {
+		err = os.Mkdir(path, filePermission)
+		if errors.Is(err, os.ErrExist) {
+			err = nil
+		}
+	}
+
+	if err != nil {
 		return err
 	}
 
-	return app.syncDirectory(parentPath)
+	// a directory that already exists might come from a creation that stopped before making it durable:
+	err = app.syncDirectory(parentPath)
+	if errors.Is(err, os.ErrPermission) || errors.Is(err, syscall.EINVAL) {
+		return nil
+	}
+
+	return err
 }
 
 // Delete deletes an existing database
-- 
2.43.0


From 3112a6360eef83fe5ca85fb68e412903bbe10c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 22/25] fix: keep the suites of a token in the same order in
 every process

The suites were listed in the order of a map, so that the coverages of
the same grammar were listed differently in each process.
---
 instances/grammars/components/suites/suite.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/instances/grammars/components/suites/suite.go b/instances/grammars/components/suites/suite.go
index a126aef..1e7fc70 100644
--- a/instances/grammars/components/suites/suite.go
+++ b/instances/grammars/components/suites/suite.go
@@ -1,6 +1,8 @@
 package suites
 
 import (
+	"sort"
+
 	"github.com/steve-care-software/rodkina/instances/grammars/components/composes"
 	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
 )
@@ -27,9 +29,17 @@ func createSuite(
 
 // Suites creates suites based on the values
 func (app *suite) Suites(values map[string]bool) grammars.Suites {
+	keys := []string{}
+	for str := range values {
+		keys = append(keys, str)
+	}
+
+	// the order of the map is random, the order of the suites must not be:
+	sort.Strings(keys)
+
 	list := []grammars.Suite{}
-	for str, isValid := range values {
-		suite := app.suite([]byte(str), isValid)
+	for _, str := range keys {
+		suite := app.suite([]byte(str), values[str])
 		list = append(list, suite)
 	}
 
-- 
2.43.0


From 93a95269328d430df3dfef17062bfd0cea3942c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 23/25] fix: stop instead of panicking when an escape ends the
 data

---
 libs/asts/applications/application.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..93aadff 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -644,6 +644,9 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 									previousData = escapeRemaining
 									remaining = escapeRemaining[amount:]
+									if len(remaining) <= 0 {
+										break
+									}
 								}
 							}
 						}
-- 
2.43.0


From e0b5d8d478879498c325d8b4c70f99c5c7d5f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 24/25] fix: keep the names of a query to the fetchers it
 contains

---
 libs/queries/applications/application.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index db86f4e..4b54192 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -43,12 +43,14 @@ func (app *application) queryFetch(query queries.Query, tree trees.Tree, previou
 		return nil, false, err
 	}
 
-	if previous == nil {
-		previous = map[string]queries.Query{}
+	// copy the names, so that a query is only visible to the fetchers it contains:
+	current := map[string]queries.Query{}
+	for name, onePrevious := range previous {
+		current[name] = onePrevious
 	}
 
-	previous[query.Token().Name()] = query
-	return app.queryInstance(query, contentsList, previous)
+	current[query.Token().Name()] = query
+	return app.queryInstance(query, contentsList, current)
 }
 
 func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]trees.Content, error) {
-- 
2.43.0


From 0024ae02f4942de512c0763cff7ef3beb8e202af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 25/25] fix: Read refuses pointers when the file lost its end
 since the context was opened

The length of the data was computed by an unsigned subtraction that wrapped
around when the file became shorter than its reference, so any pointer was
accepted and memory was allocated for it.
---
 libs/databases/infrastructure/files/application.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index cf80920..da4cd4d 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -419,7 +419,14 @@ func (app *application) Read(context uint, pointer references.Pointer) ([]byte,
 			return nil, err
 		}
 
-		err = app.validatePointer(pointer, uint(pInfo.Size())-pContext.dataOffset)
+		// the file may have lost its end since the context was opened:
+		fileSize := uint(pInfo.Size())
+		if fileSize < pContext.dataOffset {
+			str := fmt.Sprintf("the database contains %d bytes, at least %d were expected", fileSize, pContext.dataOffset)
+			return nil, errors.New(str)
+		}
+
+		err = app.validatePointer(pointer, fileSize-pContext.dataOffset)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

