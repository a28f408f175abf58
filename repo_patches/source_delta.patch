From 218f9a131a07c0c8f71c18fecf49a2f8126ce3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 01/60] fix: do not dereference a missing validation when an
 extension cannot be created

---
 pkg/ocfl/extensionFactory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 8ecca6e..a0243f7 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -94,7 +94,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		ext, err := f.Create(sub)
 		if err != nil {
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-			validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			if validation != nil {
+				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			}
 		} else {
 			if !ext.IsRegistered() {
 				if validation != nil {
-- 
2.43.0


From ce0ba666cba1ad4f2798aa050e3867fa21ee6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 02/60] fix: always store the extension manager configuration
 the initial extension refers to

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index fddb639..08e5329 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -294,17 +294,16 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		}
 	}
 
-	if len(manager.Exclusion) != 0 || len(manager.Sort) != 0 {
-		configWriter, err := writefs.Create(manager.fsys, "config.json")
-		if err != nil {
-			return errors.Wrap(err, "cannot open config.json")
-		}
-		defer configWriter.Close()
-		jenc := json.NewEncoder(configWriter)
-		jenc.SetIndent("", "   ")
-		if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-			return errors.Wrapf(err, "cannot encode config to file")
-		}
+	// the initial extension names the manager, so its configuration has to be there even if it is empty
+	configWriter, err := writefs.Create(manager.fsys, "config.json")
+	if err != nil {
+		return errors.Wrap(err, "cannot open config.json")
+	}
+	defer configWriter.Close()
+	jenc := json.NewEncoder(configWriter)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
 }
-- 
2.43.0


From 40490f4d5047d0959ce5670d417b1d4ffbdc0f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/60] fix: initial extension remembers the manager name
 instead of renaming itself

---
 pkg/extension/initial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 4bd7c64..638ed5b 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -77,7 +77,7 @@ func (sl *Initial) Terminate() error {
 }
 
 func (sl *Initial) SetExtension(ext string) {
-	sl.ExtensionName = ext
+	sl.InitialConfig.Extension = ext
 }
 
 func (sl *Initial) GetExtension() string {
-- 
2.43.0


From fa3dd95bba74c0215b19d02cc70daafbd264be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 04/60] fix: logical state operations work on the head version
 and keep state and manifest consistent

---
 pkg/ocfl/inventorybase.go | 238 ++++++++++++++------------------------
 1 file changed, 86 insertions(+), 152 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a2e0784..73b8c1a 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -781,113 +781,61 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 	if checksum == "" {
 		return nil
 	}
-	for cs, files := range i.Manifest.Manifest {
-		if cs == checksum {
-			return files
-		}
+	if cs, ok := i.manifestDigest(checksum); ok {
+		return i.Manifest.Manifest[cs]
 	}
 	return nil
 }
-func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
-	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
-	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
-	}
 
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == stateFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
+// manifestDigest returns the digest as it is spelled in the manifest (digests are case insensitive)
+func (i *InventoryBase) manifestDigest(checksum string) (string, bool) {
+	if _, ok := i.Manifest.Manifest[checksum]; ok {
+		return checksum, true
 	}
-	if len(css) == 0 {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
+	for cs := range i.Manifest.Manifest {
+		if strings.EqualFold(cs, checksum) {
+			return cs, true
+		}
 	}
-	versions := []int{}
+	return "", false
+}
 
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
+// headDigest returns the digest a logical path has in the head version
+func (i *InventoryBase) headDigest(stateFilename string) (string, bool) {
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok || version == nil || version.State == nil {
+		return "", false
 	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
+	for cs, filenames := range version.State.State {
+		if slices.Contains(filenames, stateFilename) {
+			return cs, true
+		}
 	}
-	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, lastChecksum == checksum)
-	return lastChecksum == checksum, nil
+	return "", false
 }
 
-func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error) {
-	i.logger.Debug().Msgf("'%s' [%s]", virtualFilename, checksum)
+// AlreadyExists checks whether the head version has the logical path with the given digest
+func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
 	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
+		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
 		return false, nil
 	}
+	cs, ok := i.headDigest(stateFilename)
+	dup := ok && strings.EqualFold(cs, checksum)
+	i.logger.Debug().Msgf("'%s' [%s] - duplicate %v", stateFilename, checksum, dup)
+	return dup, nil
+}
 
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == virtualFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
-	}
-	if len(css) == 0 {
+// IsUpdate checks whether the head version has the logical path with another digest
+func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error) {
+	if checksum == "" {
 		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
 		return false, nil
 	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, lastChecksum != checksum)
-	return lastChecksum != checksum, nil
+	cs, ok := i.headDigest(virtualFilename)
+	upd := ok && !strings.EqualFold(cs, checksum)
+	i.logger.Debug().Msgf("'%s' [%s] - update %v", virtualFilename, checksum, upd)
+	return upd, nil
 }
 
 func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
@@ -924,14 +872,17 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 	var newState = map[string][]string{}
 	var found = false
 	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-		newState[key] = []string{}
+		files := []string{}
 		for _, val := range state {
 			if val == stateFilename {
 				found = true
 			} else {
-				newState[key] = append(newState[key], val)
+				files = append(files, val)
 			}
 		}
+		if len(files) > 0 {
+			newState[key] = files
+		}
 	}
 	i.Versions.Versions[i.GetHead()].State.State = newState
 	if found {
@@ -942,40 +893,45 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 }
 
 func (i *InventoryBase) RenameFile(stateSource, stateDest string) error {
-	var newState = map[string][]string{}
-	var found = false
-	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-		newState[key] = []string{}
-		for _, val := range state {
-			if val == stateSource {
-				newState[key] = append(newState[key], stateDest)
-				found = true
-			} else {
-				newState[key] = append(newState[key], val)
-			}
-		}
+	digest, ok := i.headDigest(stateSource)
+	if !ok || stateSource == stateDest {
+		return nil
 	}
-	i.Versions.Versions[i.GetHead()].State.State = newState
-	if found {
-		i.modified = found
-		i.logger.Info().Msgf("[%s] rename '%s' to '%s' in state", i.GetID(), stateSource, stateDest)
+	// the destination gets the content of the source
+	if err := i.DeleteFile(stateSource); err != nil {
+		return errors.Wrapf(err, "cannot remove '%s'", stateSource)
+	}
+	if err := i.setState(stateDest, digest); err != nil {
+		return errors.Wrapf(err, "cannot set '%s'", stateDest)
+	}
+	i.logger.Info().Msgf("[%s] rename '%s' to '%s' in state", i.GetID(), stateSource, stateDest)
+	return nil
+}
+
+// setState lets a logical path of the head version refer to the content with the given digest only
+func (i *InventoryBase) setState(stateFilename, digest string) error {
+	if cs, ok := i.headDigest(stateFilename); ok {
+		if cs == digest {
+			return nil
+		}
+		if err := i.DeleteFile(stateFilename); err != nil {
+			return errors.Wrapf(err, "cannot delete old version of '%s' [%s]", stateFilename, digest)
+		}
 	}
+	state := i.Versions.Versions[i.GetHead()].State.State
+	state[digest] = append(state[digest], stateFilename)
+	i.modified = true
 	return nil
 }
 
 func (i *InventoryBase) CopyFile(dest string, digest string) error {
 	i.logger.Info().Msgf("[%s] copying '%s' -> '%s'", i.GetID(), digest, dest)
 
-	if _, ok := i.Manifest.Manifest[digest]; !ok {
+	digest, ok := i.manifestDigest(digest)
+	if !ok {
 		return errors.Errorf("cannot find file with digest '%s'", digest)
 	}
-	// nothing to do if already there...
-	if slices.Contains(i.Versions.Versions[i.Head.string].State.State[digest], dest) {
-		return nil
-	}
-	i.Versions.Versions[i.Head.string].State.State[digest] = append(i.Versions.Versions[i.Head.string].State.State[digest], dest)
-	i.modified = true
-	return nil
+	return errors.WithStack(i.setState(dest, digest))
 }
 
 func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string, checksums map[checksum.DigestAlgorithm]string) error {
@@ -985,6 +941,9 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 		return errors.Errorf("no digest for '%s' in checksums", i.GetDigestAlgorithm())
 	}
 	digest = strings.ToLower(digest) // paranoia
+	if cs, ok := i.manifestDigest(digest); ok {
+		digest = cs
+	}
 
 	for alg, fixityDigest := range checksums {
 		if alg == i.GetDigestAlgorithm() {
@@ -996,8 +955,10 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 		if _, ok := i.Fixity[alg]; !ok {
 			i.Fixity[alg] = map[string][]string{}
 		}
-		if _, ok := i.Fixity[alg][fixityDigest]; !ok {
-			i.Fixity[alg][fixityDigest] = []string{}
+		for cs := range i.Fixity[alg] {
+			if strings.EqualFold(cs, fixityDigest) {
+				fixityDigest = cs
+			}
 		}
 		if !slices.Contains(i.Fixity[alg][fixityDigest], manifestFilename) {
 			i.Fixity[alg][fixityDigest] = append(i.Fixity[alg][fixityDigest], manifestFilename)
@@ -1005,42 +966,15 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 		}
 	}
 
-	for _, virtualFilename := range stateFilenames {
-		dup, err := i.AlreadyExists(virtualFilename, digest)
-		if err != nil {
-			return errors.Wrapf(err, "cannot add for duplicate of '%s' [%s]", stateFilenames, digest)
-		}
-		if dup {
-			i.logger.Debug().Msgf("'%s' is a duplicate", stateFilenames)
-			// return nil
-		}
-
-		if manifestFilename != "" {
-			if _, ok := i.Manifest.Manifest[digest]; !ok {
-				i.Manifest.Manifest[digest] = []string{}
-			}
-			i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
-		}
-
-		if _, ok := i.Versions.Versions[i.Head.string].State.State[digest]; !ok {
-			i.Versions.Versions[i.Head.string].State.State[digest] = []string{}
-		}
-
-		upd, err := i.IsUpdate(virtualFilename, digest)
-		if err != nil {
-			return errors.Wrapf(err, "cannot check for update of '%s' [%s]", stateFilenames, digest)
-		}
-		if upd {
-			i.logger.Debug().Msgf("'%s' is an update - removing old version", stateFilenames)
-			if err := i.DeleteFile(virtualFilename); err != nil {
-				return errors.Wrapf(err, "cannot delete old version of '%s' [%s]", stateFilenames, digest)
-			}
-			i.modified = true
-		}
+	if manifestFilename != "" && !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
+		// there is new content in this version, even if the state remains the same
+		i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+		i.modified = true
+	}
 
-		if !dup {
-			i.Versions.Versions[i.Head.string].State.State[digest] = append(i.Versions.Versions[i.Head.string].State.State[digest], virtualFilename)
-			i.modified = true
+	for _, virtualFilename := range stateFilenames {
+		if err := i.setState(virtualFilename, digest); err != nil {
+			return errors.Wrapf(err, "cannot set state of '%s' [%s]", virtualFilename, digest)
 		}
 	}
 
-- 
2.43.0


From 699bcc6a84c5f7bdbf107771838948e9f83c2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/60] fix: ingest closes what it opens and reports every read
 and write error

---
 pkg/ocfl/helper.go     |  42 +++++++++
 pkg/ocfl/objectbase.go | 201 +++++++++++++++++++++--------------------
 2 files changed, 143 insertions(+), 100 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 5ebe2ad..9eed63a 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
+	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/errorDetails"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/constraints"
@@ -338,6 +339,47 @@ func CleanPath(fname string, MaxFilenameLength, MaxPathnameLength int) (string,
 	return fname, nil
 }
 
+// errWriter remembers the first error of its writer and takes all further data without writing it. That keeps
+// checksum.Copy from waiting forever for a destination which does not accept data anymore.
+type errWriter struct {
+	io.Writer
+	err error
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.err == nil {
+		var n int
+		if n, w.err = w.Writer.Write(p); w.err == nil && n < len(p) {
+			w.err = io.ErrShortWrite
+		}
+	}
+	return len(p), nil
+}
+
+// copyChecksums copies src to all destinations and returns the checksums of the data.
+func copyChecksums(algs []checksum.DigestAlgorithm, src io.Reader, dst ...io.Writer) (map[checksum.DigestAlgorithm]string, error) {
+	uniqueAlgs := []checksum.DigestAlgorithm{}
+	for _, alg := range algs {
+		if !slices.Contains(uniqueAlgs, alg) {
+			uniqueAlgs = append(uniqueAlgs, alg)
+		}
+	}
+	writers := []io.Writer{}
+	for _, d := range dst {
+		writers = append(writers, &errWriter{Writer: d})
+	}
+	checksums, err := checksum.Copy(uniqueAlgs, src, writers...)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	for _, w := range writers {
+		if err := w.(*errWriter).err; err != nil {
+			return nil, errors.Wrap(err, "cannot write")
+		}
+	}
+	return checksums, nil
+}
+
 func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
 	var targetname string
 	switch storageType {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9269f88..ea84a05 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -18,7 +18,6 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
-	"sync"
 )
 
 //const VERSION = "1.0"
@@ -363,10 +362,10 @@ func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
 	if objectRoot {
 		iWriter, err := writefs.Create(object.fsys, iFileName)
 		if err != nil {
-			iWriter.Close()
 			return errors.Wrap(err, "cannot create inventory.json")
 		}
 		if _, err := iWriter.Write(jsonBytes); err != nil {
+			iWriter.Close()
 			return errors.Wrap(err, "cannot write to inventory.json")
 		}
 		if err := iWriter.Close(); err != nil {
@@ -631,6 +630,9 @@ func (object *ObjectBase) EndArea() error {
 func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
 	object.logger.Debug().Msgf("walking '%v'", fsys)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
+		if err != nil {
+			return errors.Wrapf(err, "cannot read '%v/%s'", fsys, path)
+		}
 		path = filepath.ToSlash(path)
 		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {
 			return errors.Wrapf(err, "cannot add file '%s'", path)
@@ -645,7 +647,7 @@ func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate
 
 func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *NamesStruct, noExtensionHook bool) (string, error) {
 
-	digestAlgorithms := object.i.GetFixityDigestAlgorithm()
+	digestAlgorithms := slices.Clone(object.i.GetFixityDigestAlgorithm())
 
 	var digest string
 
@@ -659,40 +661,34 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
 	}
-	defer writer.Close()
 
 	var checksums map[checksum.DigestAlgorithm]string
 	if noExtensionHook {
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer)
-		if err != nil {
-			return "", errors.Wrapf(err, "cannot copy '%v' -> '%s'", names.ExternalPaths, names.ManifestPath)
-		}
+		checksums, err = copyChecksums(digestAlgorithms, r, writer)
 	} else {
-		wg := sync.WaitGroup{}
-		wg.Add(1)
 		pr, pw := io.Pipe()
-		extErrors := make(chan error, 1)
+		extDone := make(chan error, 1)
 		go func() {
-			defer wg.Done()
-			if err := object.extensionManager.StreamObject(object, pr, names.ExternalPaths, names.InternalPath); err != nil {
-				extErrors <- err
-			}
+			err := object.extensionManager.StreamObject(object, pr, names.ExternalPaths, names.InternalPath)
+			// never block the writing side
+			_, _ = io.Copy(io.Discard, pr)
+			extDone <- err
 		}()
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer, pw)
-		_ = pw.Close()
-		if err != nil {
-			return "", errors.Wrapf(err, "cannot copy '%s' -> '%s'", names.ExternalPaths, names.ManifestPath)
-		}
-		wg.Wait()
-		close(extErrors)
-		select {
-		case err, ok := <-extErrors:
-			if ok {
-				return "", errors.Wrapf(err, "error on StreamObject() extension hook for object '%s'", object.GetID())
-			}
-		default:
+		checksums, err = copyChecksums(digestAlgorithms, r, writer, pw)
+		// an incomplete stream must not look like a complete one
+		_ = pw.CloseWithError(err)
+		if extErr := <-extDone; extErr != nil && err == nil {
+			_ = writer.Close()
+			return "", errors.Wrapf(extErr, "error on StreamObject() extension hook for object '%s'", object.GetID())
 		}
 	}
+	if err != nil {
+		_ = writer.Close()
+		return "", errors.Wrapf(err, "cannot copy '%v' -> '%s'", names.ExternalPaths, names.ManifestPath)
+	}
+	if err := writer.Close(); err != nil {
+		return "", errors.Wrapf(err, "cannot close '%s'", names.ManifestPath)
+	}
 
 	if digest == "" {
 		var ok bool
@@ -742,6 +738,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot create virtual filename for '%v'", files)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%v", area, files)
 
@@ -757,8 +756,8 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 		if err != nil {
 			return "", errors.Wrapf(err, "cannot add file '%s' to object", path)
 		}
-	} else {
-		io.Copy(io.Discard, r)
+	} else if _, err := io.Copy(io.Discard, r); err != nil {
+		return "", errors.Wrapf(err, "cannot read '%s'", path)
 	}
 
 	if !noExtensionHook {
@@ -775,7 +774,6 @@ func (object *ObjectBase) AddData(data []byte, path string, checkDuplicate bool,
 		return errors.New("object not writeable")
 	}
 
-	digestAlgorithms := object.i.GetFixityDigestAlgorithm()
 	var digest string
 
 	names, err := object.BuildNames([]string{path}, area)
@@ -821,10 +819,6 @@ func (object *ObjectBase) AddData(data []byte, path string, checkDuplicate bool,
 			}
 			return nil
 		}
-	} else {
-		if !slices.Contains(digestAlgorithms, object.i.GetDigestAlgorithm()) {
-			digestAlgorithms = append(digestAlgorithms, object.i.GetDigestAlgorithm())
-		}
 	}
 
 	if !noExtensionHook {
@@ -864,89 +858,96 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 		return errors.Wrapf(err, "cannot create virtual filename for '%s'", path)
 	}
 
-	targetFilename := object.i.BuildManifestName(names.InternalPath)
-
 	var digest string
 	if !isDir {
+		var stored bool
+		digest, stored, err = object.addSourceFile(fsys, versionFS, path, names, checkDuplicate, area, noExtensionHook)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		if !stored {
+			return nil
+		}
+	}
+	if !noExtensionHook {
+		if err := object.extensionManager.AddFileAfter(object, fsys, []string{path}, names.ManifestPath, digest, area, isDir); err != nil {
+			return errors.Wrapf(err, "error on AddFileAfter() extension hook")
+		}
+	}
 
-		digestAlgorithms := object.i.GetFixityDigestAlgorithm()
+	return nil
+}
 
-		file, err := fsys.Open(path)
+// addSourceFile ingests a file, stored is false if the content is already part of the object
+func (object *ObjectBase) addSourceFile(fsys fs.FS, versionFS fs.FS, path string, names *NamesStruct, checkDuplicate bool, area string, noExtensionHook bool) (digest string, stored bool, err error) {
+	file, err := fsys.Open(path)
+	if err != nil {
+		return "", false, errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
+	}
+	defer func() {
+		if file == nil {
+			return
+		}
+		if closeErr := file.Close(); closeErr != nil && err == nil {
+			err = errors.Wrapf(closeErr, "cannot close file '%s'", path)
+		}
+	}()
+	newPath := names.ExternalPaths[0]
+	object.updateFiles = append(object.updateFiles, newPath)
+
+	if checkDuplicate {
+		// do the checksum
+		digest, err = checksum.Checksum(file, object.i.GetDigestAlgorithm())
 		if err != nil {
-			return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
+			return "", false, errors.Wrapf(err, "cannot create digest of '%s'", path)
 		}
-		newPath, err := object.extensionManager.BuildObjectStatePath(object, path, area)
+		// if file is already there we do nothing
+		dup, err := object.i.AlreadyExists(newPath, digest)
 		if err != nil {
-			file.Close()
-			return errors.Wrapf(err, "cannot map external path '%s'", path)
+			return "", false, errors.Wrapf(err, "cannot check duplicate for '%s' [%s]", names.InternalPath, digest)
 		}
-
-		object.updateFiles = append(object.updateFiles, newPath)
-
-		if checkDuplicate {
-			// do the checksum
-			digest, err = checksum.Checksum(file, object.i.GetDigestAlgorithm())
-			if err != nil {
-				return errors.Wrapf(err, "cannot create digest of '%s'", path)
-			}
-			// set filepointer to beginning
-			if seeker, ok := file.(io.Seeker); ok {
-				// if we have a seeker, we just seek
-				if _, err := seeker.Seek(0, 0); err != nil {
-					panic(err)
-				}
-			} else {
-				// otherwise reopen it
-				file, err = fsys.Open(path)
-				if err != nil {
-					return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
-				}
-			}
-			// if file is already there we do nothing
-			dup, err := object.i.AlreadyExists(newPath, digest)
-			if err != nil {
-				return errors.Wrapf(err, "cannot check duplicate for '%s' [%s]", names.InternalPath, digest)
-			}
-			if dup {
-				object.logger.Info().Msgf("[%s] '%s' already exists. ignoring", object.GetID(), newPath)
-				return nil
+		if dup {
+			object.logger.Info().Msgf("[%s] '%s' already exists. ignoring", object.GetID(), newPath)
+			return digest, false, nil
+		}
+		// file already ingested, but new virtual name
+		if dups := object.i.GetDuplicates(digest); len(dups) > 0 {
+			object.logger.Info().Msgf("[%s] file with same content as '%s' already exists. creating virtual copy", object.GetID(), newPath)
+			if err := object.i.CopyFile(newPath, digest); err != nil {
+				return "", false, errors.Wrapf(err, "cannot append '%s' to inventory as '%s'", path, names.InternalPath)
 			}
-			// file already ingested, but new virtual name
-			if dups := object.i.GetDuplicates(digest); len(dups) > 0 {
-				object.logger.Info().Msgf("[%s] file with same content as '%s' already exists. creating virtual copy", object.GetID(), newPath)
-				if err := object.i.CopyFile(newPath, digest); err != nil {
-					return errors.Wrapf(err, "cannot append '%s' to inventory as '%s'", path, names.InternalPath)
-				}
-				return nil
+			return digest, false, nil
+		}
+		// set filepointer to beginning
+		if seeker, ok := file.(io.Seeker); ok {
+			// if we have a seeker, we just seek
+			if _, err := seeker.Seek(0, io.SeekStart); err != nil {
+				return "", false, errors.Wrapf(err, "cannot seek in '%v/%s'", fsys, path)
 			}
 		} else {
-			if !slices.Contains(digestAlgorithms, object.i.GetDigestAlgorithm()) {
-				digestAlgorithms = append(digestAlgorithms, object.i.GetDigestAlgorithm())
+			// otherwise reopen it
+			err := file.Close()
+			file = nil
+			if err != nil {
+				return "", false, errors.Wrapf(err, "cannot close file '%s'", path)
 			}
-		}
-		if !noExtensionHook {
-			if err := object.extensionManager.AddFileBefore(object, nil, path, names.InternalPath, area, isDir); err != nil {
-				return errors.Wrapf(err, "error on AddFileBefore() extension hook")
+			newFile, err := fsys.Open(path)
+			if err != nil {
+				return "", false, errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
 			}
+			file = newFile
 		}
-
-		digest, err = object.addReader(file, versionFS, names, noExtensionHook)
-		if err != nil {
-			file.Close()
-			return errors.Wrapf(err, "cannot add file '%s' to object", path)
-		}
-		if err := file.Close(); err != nil {
-			return errors.Wrapf(err, "cannot close file '%s'", path)
-		}
-
 	}
 	if !noExtensionHook {
-		if err := object.extensionManager.AddFileAfter(object, fsys, []string{path}, targetFilename, digest, area, isDir); err != nil {
-			return errors.Wrapf(err, "error on AddFileAfter() extension hook")
+		if err := object.extensionManager.AddFileBefore(object, nil, path, names.InternalPath, area, false); err != nil {
+			return "", false, errors.Wrapf(err, "error on AddFileBefore() extension hook")
 		}
 	}
-
-	return nil
+	digest, err = object.addReader(file, versionFS, names, noExtensionHook)
+	if err != nil {
+		return "", false, errors.Wrapf(err, "cannot add file '%s' to object", path)
+	}
+	return digest, true, nil
 }
 
 func (object *ObjectBase) DeleteFile(virtualFilename string, digest string) error {
-- 
2.43.0


From f1200c1f1777b30129172fda041083b3d12a7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 06/60] fix: echo update removes exactly the files of the
 updated areas which are no longer in the source

---
 pkg/ocfl/inventorybase.go |  2 +-
 pkg/ocfl/objectbase.go    | 33 ++++++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 73b8c1a..66f3499 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -851,7 +851,7 @@ func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
 		}
 	}
 	for _, filename := range statefiles {
-		if !strings.HasPrefix(filename, pathPrefix) {
+		if pathPrefix != "" && !strings.HasPrefix(filename, strings.TrimSuffix(pathPrefix, "/")+"/") {
 			continue
 		}
 		if _, found := slices.BinarySearch(existing, filename); !found {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ea84a05..a918d01 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -38,6 +38,7 @@ type ObjectBase struct {
 	digest             checksum.DigestAlgorithm
 	echo               bool
 	updateFiles        []string
+	updateAreas        []string
 	area               string
 }
 
@@ -505,12 +506,13 @@ func (object *ObjectBase) GetDigestAlgorithm() checksum.DigestAlgorithm {
 	return object.i.GetDigestAlgorithm()
 }
 
-func (object *ObjectBase) echoDelete() error {
+// echoDelete removes all files of the area which are not part of the update
+func (object *ObjectBase) echoDelete(area string) error {
 	slices.Sort(object.updateFiles)
 	object.updateFiles = slices.Compact(object.updateFiles)
-	basePath, err := object.extensionManager.BuildObjectStatePath(object, ".", "")
+	basePath, err := object.extensionManager.BuildObjectStatePath(object, ".", area)
 	if err != nil {
-		return errors.Wrap(err, "cannot build external path for '.'")
+		return errors.Wrapf(err, "cannot build external path for '.' in area '%s'", area)
 	}
 	if basePath == "." {
 		basePath = ""
@@ -546,6 +548,8 @@ func (object *ObjectBase) Close() error {
 func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName string, UserAddress string, echo bool) (fs.FS, error) {
 	object.logger.Debug().Msgf("'%s' / '%s' / '%s'", msg, UserName, UserAddress)
 	object.echo = echo
+	object.updateFiles = []string{}
+	object.updateAreas = []string{}
 
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
@@ -569,16 +573,21 @@ func (object *ObjectBase) EndUpdate() error {
 		object.logger.Warn().Msgf(fmt.Sprintf("object '%s' not writeable", object.GetID()))
 		return nil
 	}
+	if object.echo {
+		if len(object.updateAreas) == 0 && len(object.updateFiles) > 0 {
+			object.updateAreas = append(object.updateAreas, "")
+		}
+		for _, area := range object.updateAreas {
+			if err := object.echoDelete(area); err != nil {
+				return errors.Wrap(err, "cannot delete files")
+			}
+		}
+	}
 	if !(object.i.IsModified()) {
 		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
 		return nil
 	}
 
-	if object.echo {
-		if err := object.echoDelete(); err != nil {
-			return errors.Wrap(err, "cannot delete files")
-		}
-	}
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
@@ -613,22 +622,24 @@ func (object *ObjectBase) EndUpdate() error {
 
 func (object *ObjectBase) BeginArea(area string) {
 	object.area = area
-	object.updateFiles = []string{}
 }
 
 func (object *ObjectBase) EndArea() error {
 	if object.echo {
-		if err := object.echoDelete(); err != nil {
+		if err := object.echoDelete(object.area); err != nil {
 			return errors.Wrap(err, "cannot remove files")
 		}
+		object.updateAreas = slices.DeleteFunc(object.updateAreas, func(area string) bool { return area == object.area })
 	}
-	object.updateFiles = []string{}
 	object.area = ""
 	return nil
 }
 
 func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
 	object.logger.Debug().Msgf("walking '%v'", fsys)
+	if !slices.Contains(object.updateAreas, area) {
+		object.updateAreas = append(object.updateAreas, area)
+	}
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
 		if err != nil {
 			return errors.Wrapf(err, "cannot read '%v/%s'", fsys, path)
-- 
2.43.0


From 8ee2966f3da05f30f5f7ef84a2ae818a8e76aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 07/60] fix: content paths stay unique, unused content is
 removed and invalid paths are refused

---
 pkg/ocfl/inventorybase.go |   7 +-
 pkg/ocfl/objectbase.go    | 173 ++++++++++++++++++++++++++++++++++----
 2 files changed, 161 insertions(+), 19 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 66f3499..d2cd954 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -742,8 +742,11 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		State:   &OCFLState{State: map[string][]string{}},
 		User:    NewOCFLUser(UserName, UserAddress),
 	}
-	// copy last state...
-	if lastHead != "" {
+	if lastHead == "" {
+		// even without content there's a first version
+		i.modified = true
+	} else {
+		// copy last state...
 		copyMapStringSlice(i.Versions.Versions[i.Head.string].State.State, i.Versions.Versions[lastHead].State.State)
 	}
 	i.writeable = true
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a918d01..e57b80d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -13,11 +13,13 @@ import (
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 //const VERSION = "1.0"
@@ -39,6 +41,7 @@ type ObjectBase struct {
 	echo               bool
 	updateFiles        []string
 	updateAreas        []string
+	contentPaths       map[string]bool
 	area               string
 }
 
@@ -441,12 +444,31 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 		return fmt.Errorf("cannot create object '%s'. '%v/%s' already exists", id, object.fsys, objectConformanceDeclarationFile)
 	}
 	cnt, err := fs.ReadDir(object.fsys, ".")
-	if err != nil && err != fs.ErrNotExist {
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
 		return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, ".")
 	}
 	if len(cnt) > 0 {
 		return fmt.Errorf("'%v/%s' is not empty", ".", object.fsys)
 	}
+	// check fixity here
+	algs := []checksum.DigestAlgorithm{
+		checksum.DigestSHA512,
+		checksum.DigestSHA256,
+	}
+	algs = append(algs, object.extensionManager.GetFixityDigests()...)
+	slices.Sort(algs)
+	algs = slices.Compact(algs)
+	if !sliceContains(algs, fixity) {
+		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
+	}
+	fixity = slices.Clone(fixity)
+	slices.Sort(fixity)
+	fixity = slices.Compact(fixity)
+	object.i, err = object.CreateInventory(id, digest, fixity)
+	if err != nil {
+		return errors.Wrapf(err, "cannot create inventory of object '%s'", id)
+	}
+
 	rfp, err := writefs.Create(object.fsys, objectConformanceDeclarationFile)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create '%v/%s'", object.fsys, objectConformanceDeclarationFile)
@@ -465,19 +487,6 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 	}
 	object.extensionManager.SetFS(subfs, true)
 
-	// check fixity here
-	algs := []checksum.DigestAlgorithm{
-		checksum.DigestSHA512,
-		checksum.DigestSHA256,
-	}
-	algs = append(algs, object.extensionManager.GetFixityDigests()...)
-	slices.Sort(algs)
-	algs = slices.Compact(algs)
-	if !sliceContains(algs, fixity) {
-		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
-	}
-
-	object.i, err = object.CreateInventory(id, digest, fixity)
 	return nil
 }
 
@@ -550,6 +559,7 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	object.echo = echo
 	object.updateFiles = []string{}
 	object.updateAreas = []string{}
+	object.contentPaths = map[string]bool{}
 
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
@@ -591,6 +601,12 @@ func (object *ObjectBase) EndUpdate() error {
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
+	if err := object.checkLogicalPaths(); err != nil {
+		return errors.Wrapf(err, "conflicting paths in object '%s'", object.GetID())
+	}
+	if err := object.pruneContent(); err != nil {
+		return errors.Wrap(err, "cannot remove unused content")
+	}
 
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
@@ -656,6 +672,122 @@ func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate
 	return nil
 }
 
+// uniqueContentPath reserves a content path in the current version. If different names lead to the same content
+// path, or to one which is needed as folder, the path is changed
+func (object *ObjectBase) uniqueContentPath(contentPath string) string {
+	if object.contentPaths == nil {
+		object.contentPaths = map[string]bool{}
+	}
+	// true: file, false: folder
+	parts := strings.Split(contentPath, "/")
+	current := ""
+	for key, part := range parts {
+		last := key == len(parts)-1
+		candidate := path.Join(current, part)
+		for num := 1; ; num++ {
+			isFile, exists := object.contentPaths[candidate]
+			if !exists || (!last && !isFile) {
+				break
+			}
+			candidate = path.Join(current, fmt.Sprintf("%s~%d", part, num))
+		}
+		current = candidate
+		object.contentPaths[current] = last
+	}
+	return current
+}
+
+// pruneContent removes content of the current version which is not used by any version
+func (object *ObjectBase) pruneContent() error {
+	used := map[string]bool{}
+	for _, version := range object.i.GetVersions() {
+		if version == nil || version.State == nil {
+			continue
+		}
+		for digest, files := range version.State.State {
+			if len(files) > 0 {
+				used[strings.ToLower(digest)] = true
+			}
+		}
+	}
+	manifest := object.i.GetManifest()
+	prefix := object.i.BuildManifestName("") + "/"
+	for digest, contentPaths := range manifest {
+		if used[strings.ToLower(digest)] {
+			continue
+		}
+		remaining := []string{}
+		for _, contentPath := range contentPaths {
+			if !strings.HasPrefix(contentPath, prefix) {
+				remaining = append(remaining, contentPath)
+				continue
+			}
+			object.logger.Debug().Msgf("removing unused content '%s'", contentPath)
+			if err := writefs.Remove(object.fsys, contentPath); err != nil {
+				return errors.Wrapf(err, "cannot remove unused content '%v/%s'", object.fsys, contentPath)
+			}
+			for _, digests := range object.i.GetFixity() {
+				for fixityDigest, fixityPaths := range digests {
+					fixityPaths = slices.DeleteFunc(slices.Clone(fixityPaths), func(p string) bool { return p == contentPath })
+					if len(fixityPaths) == 0 {
+						delete(digests, fixityDigest)
+					} else {
+						digests[fixityDigest] = fixityPaths
+					}
+				}
+			}
+			// folders which are empty now
+			for dir := path.Dir(contentPath); strings.HasPrefix(dir, prefix); dir = path.Dir(dir) {
+				if entries, err := fs.ReadDir(object.fsys, dir); err != nil || len(entries) > 0 {
+					break
+				}
+				if err := writefs.Remove(object.fsys, dir); err != nil {
+					return errors.Wrapf(err, "cannot remove empty folder '%v/%s'", object.fsys, dir)
+				}
+			}
+		}
+		if len(remaining) == 0 {
+			delete(manifest, digest)
+		} else {
+			manifest[digest] = remaining
+		}
+	}
+	return nil
+}
+
+// checkLogicalPaths makes sure, that no logical path of the current version is a folder of another one
+func (object *ObjectBase) checkLogicalPaths() error {
+	version, ok := object.i.GetVersions()[object.i.GetHead()]
+	if !ok {
+		return errors.Errorf("no version '%s' in inventory", object.i.GetHead())
+	}
+	logicalPaths := map[string]bool{}
+	for _, files := range version.State.State {
+		for _, file := range files {
+			logicalPaths[file] = true
+		}
+	}
+	for logicalPath := range logicalPaths {
+		for dir := path.Dir(logicalPath); dir != "." && dir != "/"; dir = path.Dir(dir) {
+			if logicalPaths[dir] {
+				return errors.Errorf("'%s' is a file and the folder of '%s'", dir, logicalPath)
+			}
+		}
+	}
+	return nil
+}
+
+// checkPath refuses paths which lead outside the object or cannot be stored in the inventory
+func checkPath(name string) error {
+	if !utf8.ValidString(name) {
+		return errors.Errorf("path '%+q' is not valid utf-8", name)
+	}
+	if !fs.ValidPath(name) {
+		return errors.Errorf("invalid path '%s'", name)
+	}
+	return nil
+}
+
 func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *NamesStruct, noExtensionHook bool) (string, error) {
 
 	digestAlgorithms := slices.Clone(object.i.GetFixityDigestAlgorithm())
@@ -668,6 +800,7 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 		digestAlgorithms = append(digestAlgorithms, object.i.GetDigestAlgorithm())
 	}
 
+	names.ManifestPath = object.uniqueContentPath(names.ManifestPath)
 	writer, err := writefs.Create(object.fsys, names.ManifestPath)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
@@ -723,20 +856,26 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 		ExternalPaths: []string{},
 	}
 	for _, file := range files {
+		if err := checkPath(file); err != nil {
+			return nil, errors.WithStack(err)
+		}
 		externalPath, err := object.extensionManager.BuildObjectStatePath(object, file, area)
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot create virtual filename for '%s'", file)
 		}
+		if err := checkPath(externalPath); err != nil {
+			return nil, errors.Wrapf(err, "invalid virtual filename for '%s'", file)
+		}
 		result.ExternalPaths = append(result.ExternalPaths, externalPath)
 	}
 	result.InternalPath, err = object.extensionManager.BuildObjectManifestPath(object, files[0], area)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create manifest path for '%s'", files[0])
 	}
-	result.ManifestPath = object.i.BuildManifestName(result.InternalPath)
-	if err != nil {
-		return nil, errors.Wrapf(err, "cannot create virtual filename for '%s'", result.InternalPath)
+	if err := checkPath(result.InternalPath); err != nil {
+		return nil, errors.Wrapf(err, "invalid manifest path for '%s'", files[0])
 	}
+	result.ManifestPath = object.i.BuildManifestName(result.InternalPath)
 	return result, nil
 }
 
-- 
2.43.0


From 377f12a3a74e1b070e516310c588c35cd089f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 08/60] fix: store complete extension configurations and layout
 declarations with their own names

---
 pkg/extension/0001-digest-algorithms.go       | 13 +-------
 .../0002-flat-direct-storage-layout.go        | 27 ++--------------
 ...0003-hash-and-id-n-tuple-storage-layout.go | 27 ++--------------
 .../0004-hashed-n-tuple-storage-layout.go     | 27 ++--------------
 .../0006-flat-omit-prefix-storage-layout.go   | 27 ++--------------
 ...0007-n-tuple-omit-prefix-storage-layout.go | 27 ++--------------
 pkg/extension/NNNN-content-subpath.go         | 14 +-------
 .../NNNN-direct-clean-path-layout.go          | 29 +++--------------
 pkg/extension/NNNN-filesystem.go              | 12 +------
 pkg/extension/NNNN-gocfl-extension-manager.go | 26 ++-------------
 pkg/extension/NNNN-indexer.go                 | 13 +-------
 pkg/extension/NNNN-metafile.go                | 13 +-------
 pkg/extension/NNNN-mets.go                    | 13 +-------
 pkg/extension/NNNN-migration.go               |  7 +---
 pkg/extension/NNNN-pairtree-storage-layout.go | 32 ++++---------------
 pkg/extension/NNNN-thumbnail.go               | 12 +------
 pkg/extension/config.go                       | 27 +++++++++++++++-
 pkg/extension/initial.go                      | 14 +-------
 pkg/extension/pathdirect.go                   | 32 ++++---------------
 pkg/ocfl/storagerootbase.go                   |  3 +-
 20 files changed, 71 insertions(+), 324 deletions(-)

diff --git a/pkg/extension/0001-digest-algorithms.go b/pkg/extension/0001-digest-algorithms.go
index 5fbcd1b..a8cc0f2 100644
--- a/pkg/extension/0001-digest-algorithms.go
+++ b/pkg/extension/0001-digest-algorithms.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"io"
@@ -92,17 +91,7 @@ func (sl *DigestAlgorithms) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.ExtensionConfig)
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0002-flat-direct-storage-layout.go b/pkg/extension/0002-flat-direct-storage-layout.go
index bd6b470..f9f80c4 100644
--- a/pkg/extension/0002-flat-direct-storage-layout.go
+++ b/pkg/extension/0002-flat-direct-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -79,37 +78,17 @@ func (sl *StorageLayoutFlatDirect) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.ExtensionConfig)
 }
 
 func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 func (sl *StorageLayoutFlatDirect) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 30f8dc5..a3dd81b 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"hash"
@@ -101,17 +100,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.StorageLayoutHashAndIdNTupleConfig)
 }
 
 func shouldEscape(c rune) bool {
@@ -159,23 +148,13 @@ func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.St
 }
 
 func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutHashAndIdNTupleName,
 		Description: StorageLayoutHashAndIdNTupleDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 135b62d..880c805 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"hash"
@@ -100,17 +99,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.StorageLayoutHashedNTupleConfig)
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
@@ -136,23 +125,13 @@ func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.Stora
 }
 
 func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   StorageLayoutHashedNTupleName,
 		Description: StorageLayoutHashedNTupleDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 72b359e..cc4c6dc 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -81,37 +80,17 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.FlatOmitPrefixStorageLayoutConfig)
 }
 
 func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   FlatOmitPrefixStorageLayoutName,
 		Description: FlatOmitPrefixStorageLayoutDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 108a854..f8ef7db 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -101,37 +100,17 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.NTupleOmitPrefixStorageLayoutConfig)
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   NTupleOmitPrefixStorageLayoutName,
 		Description: NTupleOmitPrefixStorageLayoutDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 00387bc..f12601e 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/atsushinee/go-markdown-generator/doc"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -109,18 +108,7 @@ func (sl *ContentSubPath) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ContentSubPathConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.ContentSubPathConfig)
 }
 
 func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPath string, area string) (string, error) {
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 6df6262..ab719c6 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -5,7 +5,6 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"golang.org/x/exp/constraints"
@@ -158,37 +157,17 @@ func (sl *DirectClean) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.DirectCleanConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.DirectCleanConfig)
 }
 
 func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   PathDirectName,
+		Extension:   DirectCleanName,
 		Description: DirectCleanDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 // interface
diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index f1db651..91a404d 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -331,17 +331,7 @@ func (extFS *Filesystem) WriteConfig() error {
 	if extFS.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(extFS.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(extFS.FilesystemConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(extFS.fsys, "config.json", extFS.FilesystemConfig)
 
 }
 
diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 08e5329..d079450 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -295,17 +295,7 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 	}
 
 	// the initial extension names the manager, so its configuration has to be there even if it is empty
-	configWriter, err := writefs.Create(manager.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(manager.fsys, "config.json", manager.ExtensionManagerConfig)
 }
 
 // StorageRootPath
@@ -338,23 +328,13 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 	if len(manager.storageRootPath) == 1 {
 		return manager.storageRootPath[0].WriteLayout(fsys)
 	}
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
 		Extension:   GOCFLExtensionManagerName,
 		Description: GOCFLExtensionManagerDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	})
 }
 
 func (manager *GOCFLExtensionManager) SetParams(params map[string]string) error {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 856f2c6..2e97cc0 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -8,7 +8,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/andybalholm/brotli"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
 	"github.com/je4/utils/v2/pkg/zLogger"
@@ -206,17 +205,7 @@ func (sl *Indexer) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.IndexerConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.IndexerConfig)
 }
 
 func (sl *Indexer) UpdateObjectBefore(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 32629f0..71629ab 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -158,18 +158,7 @@ func (sl *MetaFile) WriteConfig() error {
 	if _, err := writefs.WriteFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
 		return errors.Wrapf(err, "cannot write schema to %v/%s", sl.fsys, sl.MetaSchema)
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.MetaFileConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.MetaFileConfig)
 }
 
 func toStringKeys(val interface{}) (interface{}, error) {
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index a98494b..621fa2c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -155,18 +155,7 @@ func (me *Mets) WriteConfig() error {
 	if me.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(me.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot create config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(me.MetsConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return writeJSON(me.fsys, "config.json", me.MetsConfig)
 }
 
 func (me *Mets) UpdateObjectBefore(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 34cbe4f..c4180de 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/andybalholm/brotli"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
 	"github.com/je4/indexer/v3/pkg/indexer"
@@ -130,11 +129,7 @@ func (mi *Migration) WriteConfig() error {
 	if mi.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	jsonData, _ := json.MarshalIndent(mi.MigrationConfig, "", "  ")
-	if _, err := writefs.WriteFile(mi.fsys, "config.json", jsonData); err != nil {
-		return errors.Wrap(err, "cannot write config.json")
-	}
-	return nil
+	return writeJSON(mi.fsys, "config.json", mi.MigrationConfig)
 }
 
 func (mi *Migration) UpdateObjectBefore(ocfl.Object) error {
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 611db44..14551ca 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"hash"
@@ -15,6 +14,7 @@ import (
 )
 
 const StorageLayoutPairTreeName = "NNNN-pairtree-storage-layout"
+const StorageLayoutPairTreeDescription = "pairtree directory structure derived from the object identifier"
 
 /*
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
@@ -51,23 +51,13 @@ func (sl *StorageLayoutPairTree) IsRegistered() bool {
 }
 
 func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+		Extension:   StorageLayoutPairTreeName,
+		Description: StorageLayoutPairTreeDescription,
+	})
 }
 
 func (sl *StorageLayoutPairTree) SetFS(fsys fs.FS, create bool) {
@@ -124,17 +114,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.StorageLayoutPairTreeConfig)
 }
 
 func (sl *StorageLayoutPairTree) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index b86a0c0..ac5cf7e 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -164,17 +164,7 @@ func (thumb *Thumbnail) WriteConfig() error {
 	if thumb.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(thumb.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(thumb.ThumbnailConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(thumb.fsys, "config.json", thumb.ThumbnailConfig)
 }
 
 func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io.ReadCloser) (target string, digest string, err error) {
diff --git a/pkg/extension/config.go b/pkg/extension/config.go
index 27f4f92..9340b17 100644
--- a/pkg/extension/config.go
+++ b/pkg/extension/config.go
@@ -1,9 +1,34 @@
 package extension
 
-import "emperror.dev/errors"
+import (
+	"emperror.dev/errors"
+	"encoding/json"
+	"github.com/je4/filesystem/v3/pkg/writefs"
+	"io/fs"
+)
 
 var ErrNotSupported = errors.New("extension not supported")
 
 type Config struct {
 	ExtensionName string `json:"extensionName"`
 }
+
+// writeJSON stores value as indented json in the file name and reports an error of any step including the close
+func writeJSON(fsys fs.FS, name string, value any) error {
+	data, err := json.MarshalIndent(value, "", "   ")
+	if err != nil {
+		return errors.Wrapf(err, "cannot encode '%s'", name)
+	}
+	fp, err := writefs.Create(fsys, name)
+	if err != nil {
+		return errors.Wrapf(err, "cannot open '%s'", name)
+	}
+	if _, err := fp.Write(append(data, '\n')); err != nil {
+		_ = fp.Close()
+		return errors.Wrapf(err, "cannot write '%s'", name)
+	}
+	if err := fp.Close(); err != nil {
+		return errors.Wrapf(err, "cannot close '%s'", name)
+	}
+	return nil
+}
diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 638ed5b..08d739c 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -4,7 +4,6 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
@@ -114,18 +113,7 @@ func (sl *Initial) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.InitialConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.InitialConfig)
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 4e245c5..d206739 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -4,13 +4,13 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"fmt"
-	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
 )
 
 const PathDirectName = "NNNN-direct-path-layout"
+const PathDirectDescription = "uses OCFL object identifiers as storage paths and logical paths as content paths"
 
 func NewPathDirectFS(fsys fs.FS) (ocfl.Extension, error) {
 	fp, err := fsys.Open("config.json")
@@ -73,40 +73,20 @@ func (sl *PathDirect) SetParams(params map[string]string) error {
 func (sl *PathDirect) GetName() string { return PathDirectName }
 
 func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
-	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open ocfl_layout.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(struct {
+	return writeJSON(fsys, "ocfl_layout.json", struct {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
-	}); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+		Extension:   PathDirectName,
+		Description: PathDirectDescription,
+	})
 }
 
 func (sl *PathDirect) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	configWriter, err := writefs.Create(sl.fsys, "config.json")
-	if err != nil {
-		return errors.Wrap(err, "cannot open config.json")
-	}
-	defer configWriter.Close()
-	jenc := json.NewEncoder(configWriter)
-	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.PathDirectConfig); err != nil {
-		return errors.Wrapf(err, "cannot encode config to file")
-	}
-	return nil
+	return writeJSON(sl.fsys, "config.json", sl.PathDirectConfig)
 }
 
 func (sl *PathDirect) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 988c00e..1f0e3c4 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -218,9 +218,10 @@ func (osr *StorageRootBase) StoreExtensionConfig(name string, config any) error
 		return errors.Wrapf(err, "cannot create file %s", extConfig)
 	}
 	if _, err := w.Write(cfgJson); err != nil {
+		_ = w.Close()
 		return errors.Wrapf(err, "cannot write file %s - %s", extConfig, string(cfgJson))
 	}
-	return nil
+	return errors.Wrapf(w.Close(), "cannot close file %s", extConfig)
 }
 
 func (osr *StorageRootBase) GetFiles() ([]string, error) {
-- 
2.43.0


From bcc39e6dc2d39e1813c41fb2a1fb35c395167d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 09/60] fix: storage layouts follow their specifications for
 every identifier and configuration

---
 ...0003-hash-and-id-n-tuple-storage-layout.go | 27 ++++++++++------
 .../0004-hashed-n-tuple-storage-layout.go     | 28 +++++++++++-----
 .../0006-flat-omit-prefix-storage-layout.go   | 20 +++++++++---
 ...0007-n-tuple-omit-prefix-storage-layout.go | 29 +++++++++++------
 .../NNNN-direct-clean-path-layout.go          | 32 ++++++++++++++++---
 pkg/extension/NNNN-pairtree-storage-layout.go | 19 +++++++----
 6 files changed, 114 insertions(+), 41 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index a3dd81b..741e170 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
-	"hash"
 	"io"
 	"io/fs"
 	"strings"
@@ -25,7 +24,12 @@ func NewStorageLayoutHashAndIdNTupleFS(fsys fs.FS) (*StorageLayoutHashAndIdNTupl
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashAndIdNTupleConfig{}
+	// default values of the specification
+	var config = &StorageLayoutHashAndIdNTupleConfig{
+		DigestAlgorithm: string(checksum.DigestSHA256),
+		TupleSize:       3,
+		NumberOfTuples:  3,
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -33,7 +37,9 @@ func NewStorageLayoutHashAndIdNTupleFS(fsys fs.FS) (*StorageLayoutHashAndIdNTupl
 }
 
 func NewStorageLayoutHashAndIdNTuple(config *StorageLayoutHashAndIdNTupleConfig) (*StorageLayoutHashAndIdNTuple, error) {
-	var err error
+	if config.NumberOfTuples < 0 || config.TupleSize < 0 {
+		return nil, errors.Errorf("invalid number of tuples %d or tuple size %d", config.NumberOfTuples, config.TupleSize)
+	}
 	if config.NumberOfTuples > 32 {
 		config.NumberOfTuples = 32
 	}
@@ -45,7 +51,7 @@ func NewStorageLayoutHashAndIdNTuple(config *StorageLayoutHashAndIdNTupleConfig)
 		config.TupleSize = 0
 	}
 	sl := &StorageLayoutHashAndIdNTuple{StorageLayoutHashAndIdNTupleConfig: config}
-	if sl.hash, err = checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
+	if _, err := checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
 		return nil, errors.Wrapf(err, "invalid hash %s", config.DigestAlgorithm)
 	}
 	if config.ExtensionName != sl.GetName() {
@@ -64,7 +70,6 @@ type StorageLayoutHashAndIdNTupleConfig struct {
 
 type StorageLayoutHashAndIdNTuple struct {
 	*StorageLayoutHashAndIdNTupleConfig
-	hash hash.Hash
 	fsys fs.FS
 }
 
@@ -119,18 +124,22 @@ func escape(str string) string {
 			continue
 		}
 		result = append(result, '%')
-		result = append(result, fmt.Sprintf("%x", c)...)
+		result = append(result, fmt.Sprintf("%02x", c)...)
 	}
 	return string(result)
 }
 
 func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
 	path := escape(id)
-	sl.hash.Reset()
-	if _, err := sl.hash.Write([]byte(id)); err != nil {
+	// a hash of its own makes the result independent of concurrent calls
+	h, err := checksum.GetHash(checksum.DigestAlgorithm(sl.DigestAlgorithm))
+	if err != nil {
+		return "", errors.Wrapf(err, "invalid hash %s", sl.DigestAlgorithm)
+	}
+	if _, err := h.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
 	}
-	digestBytes := sl.hash.Sum(nil)
+	digestBytes := h.Sum(nil)
 	digest := fmt.Sprintf("%x", digestBytes)
 	if len(digest) < sl.TupleSize*sl.NumberOfTuples {
 		return "", errors.New(fmt.Sprintf("digest %s to short for %v tuples of %v chars", sl.DigestAlgorithm, sl.NumberOfTuples, sl.TupleSize))
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 880c805..3dbeb2d 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
-	"hash"
 	"io"
 	"io/fs"
 	"strings"
@@ -25,7 +24,12 @@ func NewStorageLayoutHashedNTupleFS(fsys fs.FS) (*StorageLayoutHashedNTuple, err
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashedNTupleConfig{}
+	// default values of the specification
+	var config = &StorageLayoutHashedNTupleConfig{
+		DigestAlgorithm: string(checksum.DigestSHA256),
+		TupleSize:       3,
+		NumberOfTuples:  3,
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -33,7 +37,9 @@ func NewStorageLayoutHashedNTupleFS(fsys fs.FS) (*StorageLayoutHashedNTuple, err
 }
 
 func NewStorageLayoutHashedNTuple(config *StorageLayoutHashedNTupleConfig) (*StorageLayoutHashedNTuple, error) {
-	var err error
+	if config.NumberOfTuples < 0 || config.TupleSize < 0 {
+		return nil, errors.Errorf("invalid number of tuples %d or tuple size %d", config.NumberOfTuples, config.TupleSize)
+	}
 	if config.NumberOfTuples > 32 {
 		config.NumberOfTuples = 32
 	}
@@ -45,7 +51,7 @@ func NewStorageLayoutHashedNTuple(config *StorageLayoutHashedNTupleConfig) (*Sto
 		config.TupleSize = 0
 	}
 	sl := &StorageLayoutHashedNTuple{StorageLayoutHashedNTupleConfig: config}
-	if sl.hash, err = checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
+	if _, err := checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
 		return nil, errors.Wrapf(err, "invalid hash %s", config.DigestAlgorithm)
 	}
 	if config.ExtensionName != sl.GetName() {
@@ -65,7 +71,6 @@ type StorageLayoutHashedNTupleConfig struct {
 
 type StorageLayoutHashedNTuple struct {
 	*StorageLayoutHashedNTupleConfig
-	hash hash.Hash
 	fsys fs.FS
 }
 
@@ -103,11 +108,15 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-	sl.hash.Reset()
-	if _, err := sl.hash.Write([]byte(id)); err != nil {
+	// a hash of its own makes the result independent of concurrent calls
+	h, err := checksum.GetHash(checksum.DigestAlgorithm(sl.DigestAlgorithm))
+	if err != nil {
+		return "", errors.Wrapf(err, "invalid hash %s", sl.DigestAlgorithm)
+	}
+	if _, err := h.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
 	}
-	digestBytes := sl.hash.Sum(nil)
+	digestBytes := h.Sum(nil)
 	digest := fmt.Sprintf("%x", digestBytes)
 	if len(digest) < sl.TupleSize*sl.NumberOfTuples {
 		return "", errors.New(fmt.Sprintf("digest %s to short for %v tuples of %v chars", sl.DigestAlgorithm, sl.NumberOfTuples, sl.TupleSize))
@@ -117,6 +126,9 @@ func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.Stora
 		dirparts = append(dirparts, digest[i*sl.TupleSize:(i+1)*sl.TupleSize])
 	}
 	if sl.ShortObjectRoot {
+		if len(digest) == sl.TupleSize*sl.NumberOfTuples {
+			return "", errors.Errorf("digest %s has no remainder for a short object root after %v tuples of %v chars", sl.DigestAlgorithm, sl.NumberOfTuples, sl.TupleSize)
+		}
 		dirparts = append(dirparts, digest[sl.NumberOfTuples*sl.TupleSize:])
 	} else {
 		dirparts = append(dirparts, digest)
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index cc4c6dc..9ea3673 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -93,12 +93,24 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 	})
 }
 
-func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-	last := strings.LastIndex(id, sl.Delimiter)
-	if last < 0 {
+// omitPrefix removes everything up to the last occurrence of the case-insensitive delimiter
+func omitPrefix(id, delimiter string) (string, error) {
+	if delimiter == "" {
 		return id, nil
 	}
-	return id[last+len(sl.Delimiter):], nil
+	for last := len(id) - len(delimiter); last >= 0; last-- {
+		if strings.EqualFold(id[last:last+len(delimiter)], delimiter) {
+			if last+len(delimiter) == len(id) {
+				return "", errors.Errorf("delimiter '%s' at the end of '%s'", delimiter, id)
+			}
+			return id[last+len(delimiter):], nil
+		}
+	}
+	return id, nil
+}
+
+func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	return omitPrefix(id, sl.Delimiter)
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index f8ef7db..7a5aa45 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"unicode/utf8"
 )
 
 const NTupleOmitPrefixStorageLayoutName = "0007-n-tuple-omit-prefix-storage-layout"
@@ -39,7 +40,12 @@ func NewNTupleOmitPrefixStorageLayoutFS(fsys fs.FS) (*NTupleOmitPrefixStorageLay
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
 
-	var config = &NTupleOmitPrefixStorageLayoutConfig{}
+	// default values of the specification
+	var config = &NTupleOmitPrefixStorageLayoutConfig{
+		TupleSize:      3,
+		NumberOfTuples: 3,
+		ZeroPadding:    "left",
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -50,6 +56,12 @@ func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfi
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.TupleSize < 1 || config.NumberOfTuples < 1 {
+		return nil, errors.Errorf("invalid number of tuples %d or tuple size %d", config.NumberOfTuples, config.TupleSize)
+	}
+	if config.ZeroPadding != "left" && config.ZeroPadding != "right" {
+		return nil, errors.Errorf("invalid zero padding '%s'", config.ZeroPadding)
+	}
 	return sl, nil
 }
 
@@ -117,11 +129,9 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	/*
 	  1) Remove the prefix, which is everything to the left of the right-most instance of the delimiter, as well as the delimiter. If there is no delimiter, the whole id is used; if the delimiter is found at the end, an error is thrown.
 	*/
-	if sl.Delimiter != "" {
-		last := strings.LastIndex(id, sl.Delimiter)
-		if last >= 0 {
-			id = id[last+len(sl.Delimiter):]
-		}
+	id, err := omitPrefix(id, sl.Delimiter)
+	if err != nil {
+		return "", err
 	}
 	/*
 	 2) Optionally, add zero-padding to the left or right of the remaining id, depending on zeroPadding configuration.
@@ -134,7 +144,7 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	*/
 	var str = strings.Builder{}
 	str.Grow(max(targetLength, len(id)))
-	l := len(id)
+	l := utf8.RuneCountInString(id)
 	if sl.ZeroPadding == "right" {
 		str.WriteString(id)
 	}
@@ -155,9 +165,10 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	/*
 		4) Starting at the leftmost character of the resulting id and working right, divide the id into numberOfTuples each containing tupleSize characters.
 	*/
+	chars := []rune(base)
 	var pathComponents = []string{}
-	for i := 0; i < targetLength/sl.TupleSize; i++ {
-		pathComponents = append(pathComponents, base[i*sl.TupleSize:(i+1)*sl.TupleSize])
+	for i := 0; i < sl.NumberOfTuples; i++ {
+		pathComponents = append(pathComponents, string(chars[i*sl.TupleSize:(i+1)*sl.TupleSize]))
 	}
 	/*
 		5) Create the start of the object root path by joining the tuples, in order, using the filesystem path separator.
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index ab719c6..b954f08 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -77,6 +77,12 @@ func NewDirectClean(config *DirectCleanConfig) (ocfl.Extension, error) {
 	if config.MaxPathSegmentLen == 0 {
 		config.MaxPathSegmentLen = 127
 	}
+	if config.MaxPathnameLen < 0 || config.MaxPathSegmentLen < 0 || config.NumberOfFallbackTuples < 0 || config.FallbackTupleSize < 0 {
+		return nil, errors.New("negative length, number of fallback tuples or fallback tuple size")
+	}
+	if strings.Contains(config.ReplacementString, "/") || strings.Contains(config.WhitespaceReplacementString, "/") {
+		return nil, errors.New("replacement string contains a path separator")
+	}
 	if config.FallbackDigestAlgorithm == "" {
 		config.FallbackDigestAlgorithm = checksum.DigestSHA512
 	}
@@ -190,10 +196,10 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 		sl.hashMutex.Unlock()
 		return "", errors.Wrapf(err, "cannot hash path '%s'", fname)
 	}
-	sl.hashMutex.Unlock()
 
 	// get digest and encode it
 	digestString := hex.EncodeToString(sl.hash.Sum(nil))
+	sl.hashMutex.Unlock()
 
 	// check whether digest fits in filename length
 	parts := len(digestString) / sl.MaxPathSegmentLen
@@ -208,14 +214,22 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 	}
 
 	// add all necessary subfolders
-	for i := 0; i < sl.NumberOfFallbackTuples; i++ {
-		// paranoia, but safe
-		result = filepath.Join(string(([]rune(digestString))[sl.NumberOfFallbackTuples-i-1:sl.NumberOfFallbackTuples-i-1+sl.FallbackTupleSize]), result)
+	tupleSize := max(sl.FallbackTupleSize, 1)
+	if sl.NumberOfFallbackTuples*tupleSize > len(digestString) {
+		return "", errors.Errorf("digest %s too short for %d tuples of %d chars", sl.FallbackDigestAlgorithm, sl.NumberOfFallbackTuples, tupleSize)
+	}
+	for i := sl.NumberOfFallbackTuples - 1; i >= 0; i-- {
+		result = filepath.Join(digestString[i*tupleSize:(i+1)*tupleSize], result)
 	}
 	result = strings.TrimLeft(filepath.ToSlash(filepath.Clean(filepath.Join(sl.FallbackFolder, result))), "/")
 	if len(result) > sl.MaxPathnameLen {
 		return result, errors.Errorf("result has length of %d which is more than max allowed length of %d", len(result), sl.MaxPathnameLen)
 	}
+	for _, segment := range strings.Split(result, "/") {
+		if segment == ".." || len(segment) > sl.MaxPathSegmentLen {
+			return result, errors.Errorf("invalid segment '%s' in fallback path '%s'", segment, result)
+		}
+	}
 	return result, nil
 }
 
@@ -225,6 +239,7 @@ func (sl *DirectClean) build(fname string) (string, error) {
 
 	names := strings.Split(fname, "/")
 	result := []string{}
+	original := fname
 
 	for _, n := range names {
 		if len(n) == 0 {
@@ -245,6 +260,11 @@ func (sl *DirectClean) build(fname string) (string, error) {
 			}
 		}
 
+		// without a proper replacement string there is no safe name left
+		if n == "." || n == ".." {
+			return sl.fallback(original)
+		}
+
 		lenN := len(n)
 		if lenN > sl.MaxPathSegmentLen {
 			return sl.fallback(fname)
@@ -258,6 +278,10 @@ func (sl *DirectClean) build(fname string) (string, error) {
 
 	fname = strings.Join(result, "/")
 
+	if fname == "" && original != "" {
+		return sl.fallback(original)
+	}
+
 	if len(fname) > sl.MaxPathnameLen {
 		return sl.fallback(fname)
 		//return "", errors.Wrapf(directCleanErrPathnameTooLong, "pathname: %s", fname)
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 14551ca..622d7d3 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
-	"hash"
 	"io"
 	"io/fs"
 	"math"
@@ -20,7 +19,7 @@ const StorageLayoutPairTreeDescription = "pairtree directory structure derived f
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
 */
 
-var rareChars = []rune{'"', '*', '+', 'c', '<', '=', '>', '?', '^', '|'}
+var rareChars = []rune{'"', '*', '+', ',', '<', '=', '>', '?', '\\', '^', '|'}
 
 var convert = map[rune]rune{
 	'/': '=',
@@ -30,7 +29,6 @@ var convert = map[rune]rune{
 
 type StorageLayoutPairTree struct {
 	*StorageLayoutPairTreeConfig
-	hash hash.Hash
 	fsys fs.FS
 }
 
@@ -91,14 +89,19 @@ func NewStorageLayoutPairTreeFS(fsys fs.FS) (*StorageLayoutPairTree, error) {
 
 func NewStorageLayoutPairTree(config *StorageLayoutPairTreeConfig) (*StorageLayoutPairTree, error) {
 	sl := &StorageLayoutPairTree{StorageLayoutPairTreeConfig: config}
-	var err error
-	if sl.hash, err = checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
+	if _, err := checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
 		return nil, errors.Wrapf(err, "hash'%s'not found", config.DigestAlgorithm)
 	}
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
 
+	if config.ShortyLength == 0 {
+		config.ShortyLength = 2
+	}
+	if config.ShortyLength < 0 {
+		return nil, errors.Errorf("invalid shorty length %d", config.ShortyLength)
+	}
 	return sl, nil
 }
 
@@ -134,7 +137,9 @@ func (sl *StorageLayoutPairTree) BuildStorageRootPath(storageRoot ocfl.StorageRo
 
 func (sl *StorageLayoutPairTree) idEncode(str string) string {
 	var result = []rune{}
-	for _, c := range []rune(str) {
+	// the encoding is defined for the bytes of the identifier
+	for _, b := range []byte(str) {
+		c := rune(b)
 		isVisible := 0x21 <= c && c <= 0x7e
 		if isVisible {
 			for _, rare := range rareChars {
@@ -148,7 +153,7 @@ func (sl *StorageLayoutPairTree) idEncode(str string) string {
 			result = append(result, c)
 		} else {
 			result = append(result, '^')
-			result = append(result, []rune(fmt.Sprintf("%x", c))...)
+			result = append(result, []rune(fmt.Sprintf("%02x", c))...)
 		}
 	}
 	str = string(result)
-- 
2.43.0


From 743f06f74056ffa64a474d37a6a9156fb166eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 10/60] fix: extension manager order and exclusion do not
 depend on loading, missing folders and stream errors are reported

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 167 ++++++++----------
 1 file changed, 75 insertions(+), 92 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index d079450..8c58255 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -8,7 +8,6 @@ import (
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
-	iou "github.com/je4/utils/v2/pkg/io"
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
@@ -154,35 +153,44 @@ func (manager *GOCFLExtensionManager) Add(ext ocfl.Extension) error {
 	return nil
 }
 
+// allExtensions returns the extensions including the initial one
+func (manager *GOCFLExtensionManager) allExtensions() []ocfl.Extension {
+	result := append([]ocfl.Extension{}, manager.extensions...)
+	if manager.initial != nil {
+		result = append(result, manager.initial)
+	}
+	return result
+}
+
+// errorFS is the filesystem of an extension whose folder is not available
+type errorFS struct {
+	err error
+}
+
+func (e errorFS) Open(name string) (fs.File, error) {
+	return nil, &fs.PathError{Op: "open", Path: name, Err: e.err}
+}
+
+// subFS returns the folder of the extension. If it is not available, every access to it reports the reason
+func subFS(fsys fs.FS, name string, create bool) fs.FS {
+	extFS, err := fs.Sub(fsys, name)
+	if err != nil && create && errors.Is(err, fs.ErrNotExist) {
+		extFS, err = writefs.SubFSCreate(fsys, name)
+	}
+	if err != nil {
+		return errorFS{err: err}
+	}
+	return extFS
+}
+
 func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 	if fsys == nil {
 		return
 	}
-	for _, ext := range append(manager.extensions, manager.initial) {
-		if ext == nil {
-			continue
-		}
-		extFS, err := fs.Sub(fsys, ext.GetName())
-		if err != nil {
-			if create && errors.Is(err, fs.ErrNotExist) {
-				extFS, err = writefs.SubFSCreate(fsys, ext.GetName())
-			}
-			if err != nil {
-				panic(err)
-			}
-		}
-		ext.SetFS(extFS, create)
-	}
-	var err error
-	manager.fsys, err = fs.Sub(fsys, manager.GetName())
-	if err != nil {
-		if create && errors.Is(err, fs.ErrNotExist) {
-			manager.fsys, err = writefs.SubFSCreate(fsys, manager.GetName())
-		}
-		if err != nil {
-			panic(err)
-		}
+	for _, ext := range manager.allExtensions() {
+		ext.SetFS(subFS(fsys, ext.GetName(), create), create)
 	}
+	manager.fsys = subFS(fsys, manager.GetName(), create)
 }
 
 func (manager *GOCFLExtensionManager) GetFSName(extName string) (fs.FS, error) {
@@ -194,61 +202,38 @@ func (manager *GOCFLExtensionManager) GetFSName(extName string) (fs.FS, error) {
 	return nil, errors.Errorf("extension '%s' not active", extName)
 }
 
+// sortExtensions sorts the list by the order of sortName. extensions which are not named follow in the order of their names
 func sortExtensions[E ocfl.Extension](list []E, sortName []string) {
-	sortFunc := func(aExt, bExt E) int {
-		aName := aExt.GetName()
-		bName := bExt.GetName()
-		var aNum, bNum int
-		for num, name := range sortName {
-			if name == aName {
-				aNum = num
-			}
-			if name == bName {
-				bNum = num
-			}
+	position := func(ext E) int {
+		if num := slices.Index(sortName, ext.GetName()); num >= 0 {
+			return num
 		}
-		return cmp.Compare(aNum, bNum)
+		return len(sortName)
 	}
-	slices.SortFunc(list, sortFunc)
+	slices.SortStableFunc(list, func(aExt, bExt E) int {
+		if c := cmp.Compare(position(aExt), position(bExt)); c != 0 {
+			return c
+		}
+		return cmp.Compare(aExt.GetName(), bExt.GetName())
+	})
 }
 
+// excludeExtensions keeps only the first available extension of exclusionSort and all extensions which are not named
 func excludeExtensions[E ocfl.Extension](list []E, exclusionSort []string) []E {
-	sortFunc := func(aExt, bExt E) int {
-		aName := aExt.GetName()
-		bName := bExt.GetName()
-		var aNum, bNum int
-		for num, name := range exclusionSort {
-			if name == aName {
-				aNum = num
-			}
-			if name == bName {
-				bNum = num
-			}
+	var keep = ""
+	for _, name := range exclusionSort {
+		if slices.IndexFunc(list, func(ext E) bool { return ext.GetName() == name }) >= 0 {
+			keep = name
+			break
 		}
-		return cmp.Compare(aNum, bNum)
 	}
-	// first sort list
-	slices.SortFunc(list, sortFunc)
-
-	// find out, which have to be deleted
-	var first = true
-	var remove = []int{}
-	for num, entry := range list {
-		if slices.Contains(exclusionSort, entry.GetName()) {
-			if first {
-				first = false
-				continue
-			}
-			remove = append(remove, num)
+	var result = []E{}
+	for _, ext := range list {
+		if name := ext.GetName(); name == keep || !slices.Contains(exclusionSort, name) {
+			result = append(result, ext)
 		}
 	}
-
-	// delete the remove-list from back
-	// todo: check garbage collector behaviour
-	for i := len(remove) - 1; i >= 0; i-- {
-		list = slices.Delete(list, remove[i], remove[i]+1)
-	}
-	return list
+	return result
 }
 
 func organize[E ocfl.Extension](manager *GOCFLExtensionManager, list []E, name string) []E {
@@ -260,9 +245,7 @@ func organize[E ocfl.Extension](manager *GOCFLExtensionManager, list []E, name s
 			list = excludeExtensions(list, exclude)
 		}
 	}
-	if sort, ok := manager.Sort[name]; ok {
-		sortExtensions(list, sort)
-	}
+	sortExtensions(list, manager.Sort[name])
 	return list
 }
 
@@ -288,7 +271,7 @@ func (manager *GOCFLExtensionManager) GetName() string {
 	return GOCFLExtensionManagerName
 }
 func (manager *GOCFLExtensionManager) WriteConfig() error {
-	for _, ext := range append(manager.extensions, manager.initial) {
+	for _, ext := range manager.allExtensions() {
 		if err := ext.WriteConfig(); err != nil {
 			return errors.Wrapf(err, "cannot store '%s'", ext.GetName())
 		}
@@ -549,16 +532,16 @@ func (manager *GOCFLExtensionManager) DoNewVersion(object ocfl.Object) error {
 // Stream
 func (manager *GOCFLExtensionManager) StreamObject(object ocfl.Object, reader io.Reader, stateFiles []string, dest string) error {
 	if len(manager.stream) == 0 {
-		_, _ = io.Copy(io.Discard, reader)
-		return nil
+		_, err := io.Copy(io.Discard, reader)
+		return errors.Wrap(err, "cannot read stream")
 	}
 	var wg = sync.WaitGroup{}
-	writer := []*iou.WriteIgnoreCloser{}
+	pipes := []*io.PipeWriter{}
 	extErrors := make(chan error, len(manager.stream))
 	for _, ext := range manager.stream {
 		wg.Add(1)
 		pr, pw := io.Pipe()
-		writer = append(writer, iou.NewWriteIgnoreCloser(pw))
+		pipes = append(pipes, pw)
 		go func(r io.Reader, extension ocfl.ExtensionStream) {
 			defer wg.Done()
 			if err := extension.StreamObject(object, r, stateFiles, dest); err != nil {
@@ -568,28 +551,28 @@ func (manager *GOCFLExtensionManager) StreamObject(object ocfl.Object, reader io
 			_, _ = io.Copy(io.Discard, r)
 		}(pr, ext)
 	}
+	var buffers = []*bufio.Writer{}
 	var ws = []io.Writer{}
-	for _, w := range writer {
-		ws = append(ws, bufio.NewWriterSize(w, 1024*1024))
+	for _, pw := range pipes {
+		buffer := bufio.NewWriterSize(pw, 1024*1024)
+		buffers = append(buffers, buffer)
+		ws = append(ws, buffer)
 	}
-	multiWriter := io.MultiWriter(ws...)
-	_, err := io.Copy(multiWriter, reader)
-	for _, w := range ws {
-		// it's sure that w is a bufio.Writer
-		if err := w.(*bufio.Writer).Flush(); err != nil {
-			return errors.Wrap(err, "cannot flush buffer")
+	_, err := io.Copy(io.MultiWriter(ws...), reader)
+	for num, buffer := range buffers {
+		if ferr := buffer.Flush(); ferr != nil && err == nil {
+			err = ferr
 		}
-	}
-	for _, w := range writer {
-		w.ForceClose()
-	}
-	if err != nil {
-		return errors.Wrap(err, "cannot copy stream to actions")
+		// if there was an error, the extensions must not take the data for complete
+		_ = pipes[num].CloseWithError(err)
 	}
 	// wait for all actions to finish
 	wg.Wait()
 	close(extErrors)
 	var errs = []error{}
+	if err != nil {
+		errs = append(errs, errors.Wrap(err, "cannot copy stream to actions"))
+	}
 	for err := range extErrors {
 		errs = append(errs, err)
 	}
-- 
2.43.0


From 5910adc9f76ce86a9404a6aecc41f5dd13a53119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 11/60] fix: content subpath areas are separated by folder and
 their description is stable

---
 pkg/extension/NNNN-content-subpath.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index f12601e..3c183bc 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"io/fs"
 	"path/filepath"
+	"sort"
 	"strings"
 )
 
@@ -134,12 +135,17 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 	readme := doc.NewMarkDown()
 	readme.WriteTitle("Description of folders", doc.LevelTitle).
 		WriteLines(2)
-	var row int
-	for _, entry := range sl.Paths {
+	// always the same order, otherwise the unchanged description would become new content
+	var areas = []string{}
+	for area := range sl.Paths {
+		areas = append(areas, area)
+	}
+	sort.Strings(areas)
+	for _, area := range areas {
+		entry := sl.Paths[area]
 		readme.WriteTitle(entry.Path, doc.LevelNormal)
 		readme.Write(entry.Description)
 		readme.Write("\n\n")
-		row++
 	}
 
 	//buf := bytes.NewBuffer([]byte(readme.String()))
@@ -177,17 +183,23 @@ func (sl *ContentSubPath) BuildObjectExtractPath(object ocfl.Object, originalPat
 		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	originalPath = strings.TrimLeft(originalPath, "/")
-	if !strings.HasPrefix(originalPath, subpath.Path) {
+	// the same normalization as in BuildObjectStatePath
+	areaPath := filepath.ToSlash(filepath.Clean(subpath.Path))
+	if areaPath == "." {
+		return originalPath, nil
+	}
+	// the area consists of everything below its folder
+	areaPath = strings.Trim(areaPath, "/") + "/"
+	if !strings.HasPrefix(originalPath, areaPath) {
 		return "", errors.Wrapf(ocfl.ExtensionObjectExtractPathWrongAreaError, "'%s' does not belong to area '%s'", originalPath, area)
 	}
-	originalPath = strings.TrimLeft(strings.TrimPrefix(originalPath, subpath.Path), "/")
-	return originalPath, nil
+	return strings.TrimPrefix(originalPath, areaPath), nil
 }
 
 func (sl *ContentSubPath) GetAreaPath(object ocfl.Object, area string) (string, error) {
 	subpath, ok := sl.Paths[area]
 	if !ok {
-		return "", errors.Errorf("invalid area '%s'", sl.area)
+		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	return subpath.Path, nil
 }
-- 
2.43.0


From 67c0c53812d4bf4dd53c79b2ef0c3707d5da460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 12/60] fix: objects are created only in their own free folder
 and loaded only under their identifier

---
 pkg/ocfl/storagerootbase.go | 75 +++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 1f0e3c4..f83390c 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -130,11 +130,12 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 	}
 
 	subfs, err := writefs.SubFSCreate(osr.fsys, "extensions")
-	if err == nil {
-		osr.extensionManager.SetFS(subfs, true)
-		if err := osr.extensionManager.WriteConfig(); err != nil {
-			return errors.Wrap(err, "cannot store extension configs")
-		}
+	if err != nil {
+		return errors.Wrap(err, "cannot create folder 'extensions'")
+	}
+	osr.extensionManager.SetFS(subfs, true)
+	if err := osr.extensionManager.WriteConfig(); err != nil {
+		return errors.Wrap(err, "cannot store extension configs")
 	}
 	if err := osr.extensionManager.StoreRootLayout(osr.fsys); err != nil {
 		return errors.Wrap(err, "cannot store ocfl layout")
@@ -258,10 +259,50 @@ func (osr *StorageRootBase) GetFolders() ([]string, error) {
 // Object Functions
 //
 
-func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
+// objectPath returns the folder of the object, which has to be inside of the storage root and outside of the extensions
+func (osr *StorageRootBase) objectPath(id string) (string, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
 	if err != nil {
-		return false, errors.Wrapf(err, "cannot build storage path for id %s", id)
+		return "", errors.Wrapf(err, "cannot build storage path for id '%s'", id)
+	}
+	if !fs.ValidPath(folder) || folder == "." || folder == "extensions" || strings.HasPrefix(folder, "extensions/") {
+		return "", errors.Errorf("invalid storage path '%s' for id '%s'", folder, id)
+	}
+	return folder, nil
+}
+
+// createObjectFolder creates the folder of a new object. It must not be occupied or part of another object
+func (osr *StorageRootBase) createObjectFolder(folder string) (fs.FS, error) {
+	entries, err := fs.ReadDir(osr.fsys, folder)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return nil, errors.Wrapf(err, "cannot read folder '%s'", folder)
+	}
+	if len(entries) > 0 {
+		return nil, errors.Errorf("folder '%s' is not empty", folder)
+	}
+	parts := strings.Split(folder, "/")
+	for num := 1; num < len(parts); num++ {
+		parent := strings.Join(parts[:num], "/")
+		switch _, err := getVersion(osr.ctx, osr.fsys, parent, "ocfl_object_"); {
+		case err == nil, err == errVersionMultiple, err == errInvalidContent:
+			return nil, errors.Errorf("folder '%s' is inside of the object in folder '%s'", folder, parent)
+		case err == errVersionNone:
+		case errors.Is(err, fs.ErrNotExist):
+			if err := writefs.MkDir(osr.fsys, parent); err != nil && !errors.Is(err, fs.ErrExist) {
+				return nil, errors.Wrapf(err, "cannot create folder '%s'", parent)
+			}
+		default:
+			return nil, errors.Wrapf(err, "cannot check folder '%s'", parent)
+		}
+	}
+	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
+	return subfs, errors.Wrapf(err, "cannot create folder '%s'", folder)
+}
+
+func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
+	folder, err := osr.objectPath(id)
+	if err != nil {
+		return false, errors.WithStack(err)
 	}
 	subFS, err := fs.Sub(osr.fsys, folder)
 	if errors.Is(err, fs.ErrNotExist) {
@@ -272,7 +313,7 @@ func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	}
 	dirs, err := fs.ReadDir(subFS, "")
 	if err != nil {
-		if err == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			return false, nil
 		}
 		return false, errors.Wrapf(err, "cannot read content of %s", folder)
@@ -382,16 +423,26 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 }
 
 func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error) {
-	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	folder, err := osr.objectPath(id)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
-	return osr.LoadObjectByFolder(folder)
+	object, err = osr.LoadObjectByFolder(folder)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if object.GetID() != id {
+		return nil, errors.Errorf("folder '%s' contains object '%s' instead of '%s'", folder, object.GetID(), id)
+	}
+	return object, nil
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
-	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
-	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
+	folder, err := osr.objectPath(id)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	subfs, err := osr.createObjectFolder(folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
 	}
-- 
2.43.0


From 4a5fdef288ecb1d6a88a83e14b55ca8912365f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 13/60] fix: extraction delivers every file of the area and
 reports all errors

---
 pkg/ocfl/objectbase.go      | 98 +++++++++++++++++++++----------------
 pkg/ocfl/storagerootbase.go |  6 +--
 2 files changed, 56 insertions(+), 48 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index e57b80d..fdfafd3 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1575,73 +1575,85 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 }
 
 func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool, area string) error {
-	var manifest strings.Builder
-	var err error
 	var digestAlg = object.i.GetDigestAlgorithm()
+	var manifestName = fmt.Sprintf("manifest.%s", digestAlg)
+	var manifestLines = []string{}
 	if err := object.i.IterateStateFiles(version, func(internals, externals []string, digest string) error {
-		for _, external := range externals {
-			external, err = object.extensionManager.BuildObjectExtractPath(object, external, area)
+		if len(internals) == 0 {
+			return errors.Errorf("no internal paths for '%v'", externals)
+		}
+		for _, statePath := range externals {
+			external, err := object.extensionManager.BuildObjectExtractPath(object, statePath, area)
 			if err != nil {
-				errCause := errors.Cause(err)
-				if errors.Is(errCause, ExtensionObjectExtractPathWrongAreaError) {
-					return nil
+				if errors.Is(err, ExtensionObjectExtractPathWrongAreaError) {
+					continue
 				}
-				return errors.Wrapf(err, "cannot map path '%s'", external)
+				return errors.Wrapf(err, "cannot map path '%s'", statePath)
 			}
-			if err := func() error {
-				if len(internals) == 0 {
-					return errors.Errorf("no internal paths for '%v'", externals)
-				}
-				internal := internals[0]
-				src, err := object.fsys.Open(internal)
-				if err != nil {
-					return errors.Wrapf(err, "cannot open '%v/%s'", object.fsys, internal)
-				}
-				defer src.Close()
-				target, err := writefs.Create(fsys, external)
-				if err != nil {
-					return errors.Wrapf(err, "cannot create '%v/%s'", fsys, external)
-				}
-				defer target.Close()
-				object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
-				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, target)
-				if err != nil {
-					return errors.Wrapf(err, "error copying '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
-				}
-				copyDigest, ok := copyDigests[digestAlg]
-				if !ok {
-					return errors.Errorf("no digest '%s' generatied", digestAlg)
-				}
-				if copyDigest != digest {
-					return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
-				}
-				return nil
-			}(); err != nil {
-				return err
+			if external == "." || !fs.ValidPath(external) {
+				return errors.Errorf("invalid path '%s' for '%s'", external, statePath)
+			}
+			if withManifest && external == manifestName {
+				return errors.Errorf("name of file '%s' is used by the manifest", statePath)
 			}
-			if withManifest {
-				manifest.WriteString(fmt.Sprintf("%s %s\n", digest, external))
+			if err := object.extractFile(fsys, internals[0], external, digest); err != nil {
+				return errors.WithStack(err)
 			}
+			manifestLines = append(manifestLines, fmt.Sprintf("%s %s\n", digest, external))
 		}
 		return nil
 	}); err != nil {
 		return errors.Wrap(err, "cannot iterate external files")
 	}
 	if withManifest {
-		manifestName := fmt.Sprintf("manifest.%s", digestAlg)
+		slices.Sort(manifestLines)
 		fp, err := writefs.Create(fsys, manifestName)
 		if err != nil {
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
 		}
-		if _, err := io.WriteString(fp, manifest.String()); err != nil {
+		if _, err := io.WriteString(fp, strings.Join(manifestLines, "")); err != nil {
+			_ = fp.Close()
 			return errors.Wrapf(err, "cannot write manifest file %v/%s", fsys, manifestName)
 		}
-		defer fp.Close()
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close manifest file %v/%s", fsys, manifestName)
+		}
 	}
 	object.logger.Debug().Msgf("object '%s' extracted", object.GetID())
 	return nil
 }
 
+// extractFile copies a content file to the target filesystem and verifies its digest
+func (object *ObjectBase) extractFile(fsys fs.FS, internal, external, digest string) error {
+	var digestAlg = object.i.GetDigestAlgorithm()
+	src, err := object.fsys.Open(internal)
+	if err != nil {
+		return errors.Wrapf(err, "cannot open '%v/%s'", object.fsys, internal)
+	}
+	defer src.Close()
+	target, err := writefs.Create(fsys, external)
+	if err != nil {
+		return errors.Wrapf(err, "cannot create '%v/%s'", fsys, external)
+	}
+	object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
+	copyDigests, err := copyChecksums([]checksum.DigestAlgorithm{digestAlg}, src, target)
+	if err != nil {
+		_ = target.Close()
+		return errors.Wrapf(err, "error copying '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
+	}
+	if err := target.Close(); err != nil {
+		return errors.Wrapf(err, "cannot close '%v/%s'", fsys, external)
+	}
+	copyDigest, ok := copyDigests[digestAlg]
+	if !ok {
+		return errors.Errorf("no digest '%s' generatied", digestAlg)
+	}
+	if !strings.EqualFold(copyDigest, digest) {
+		return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
+	}
+	return nil
+}
+
 func (object *ObjectBase) GetAreaPath(area string) (string, error) {
 	path, err := object.extensionManager.GetAreaPath(object, area)
 	return path, errors.WithStack(err)
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index f83390c..30ea4ea 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -717,11 +717,7 @@ func (osr *StorageRootBase) Extract(fsys fs.FS, path, id, version string, withMa
 			if err != nil {
 				return errors.Wrapf(err, "cannot open object in folder '%s'", oFolder)
 			}
-			subFS, err := fs.Sub(fsys, oFolder)
-			if err != nil {
-				return errors.Wrapf(err, "cannot create subfolder '%s' of '%v'", oFolder, fsys)
-			}
-			if err := o.Extract(subFS, version, withManifest, ""); err != nil {
+			if err := o.Extract(writefs.NewSubFS(fsys, oFolder), version, withManifest, area); err != nil {
 				return errors.Wrapf(err, "cannot extract object in folder '%s'", oFolder)
 			}
 		}
-- 
2.43.0


From 5de8b80f22ecebc920d630378eba049f777504bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 14/60] fix: echo update with explicit areas does not touch the
 default area

---
 pkg/ocfl/objectbase.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index fdfafd3..4c3d9f9 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -645,7 +645,9 @@ func (object *ObjectBase) EndArea() error {
 		if err := object.echoDelete(object.area); err != nil {
 			return errors.Wrap(err, "cannot remove files")
 		}
-		object.updateAreas = slices.DeleteFunc(object.updateAreas, func(area string) bool { return area == object.area })
+		if !slices.Contains(object.updateAreas, object.area) {
+			object.updateAreas = append(object.updateAreas, object.area)
+		}
 	}
 	object.area = ""
 	return nil
-- 
2.43.0


From 272d077f78acbc55af1af90819b56b2928315101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 15/60] fix: unused content leaves no empty content folder

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 4c3d9f9..a5bf276 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -739,7 +739,7 @@ func (object *ObjectBase) pruneContent() error {
 				}
 			}
 			// folders which are empty now
-			for dir := path.Dir(contentPath); strings.HasPrefix(dir, prefix); dir = path.Dir(dir) {
+			for dir := path.Dir(contentPath); strings.HasPrefix(dir+"/", prefix); dir = path.Dir(dir) {
 				if entries, err := fs.ReadDir(object.fsys, dir); err != nil || len(entries) > 0 {
 					break
 				}
-- 
2.43.0


From 50662b7920a5f548eb39cdffa2fc91743aa47dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 16/60] fix: repositories and objects without extensions folder
 can be loaded

---
 pkg/ocfl/extensionFactory.go |  3 ++-
 pkg/ocfl/helper.go           |  9 +++++++++
 pkg/ocfl/objectbase.go       |  2 +-
 pkg/ocfl/storageroot.go      |  4 ++--
 pkg/ocfl/storagerootbase.go  | 10 +++++-----
 5 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index a0243f7..c2cbf23 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -77,7 +77,8 @@ func (f *ExtensionFactory) create(fsys fs.FS, data []byte) (Extension, error) {
 func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (ExtensionManager, error) {
 	var errs = []error{}
 	files, err := fs.ReadDir(fsys, ".")
-	if err != nil {
+	// there are no extensions without an extensions folder
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
 		return nil, errors.Wrap(err, "cannot read folder storageroot")
 	}
 	var result = []Extension{}
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 9eed63a..72b8792 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -204,6 +204,15 @@ func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version
 	return version, nil
 }
 
+// extensionsFS returns the extensions folder, which is optional and must not be created by reading it
+func extensionsFS(fsys fs.FS) (fs.FS, error) {
+	extFS, err := fs.Sub(fsys, "extensions")
+	if errors.Is(err, fs.ErrNotExist) {
+		return writefs.NewSubFS(fsys, "extensions"), nil
+	}
+	return extFS, errors.WithStack(err)
+}
+
 func validVersion(ctx context.Context, fsys fs.FS, version OCFLVersion, folder, prefix string) bool {
 	v, _ := getVersion(ctx, fsys, folder, prefix)
 	return v == version
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a5bf276..ed1d56f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -491,7 +491,7 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 }
 
 func (object *ObjectBase) Load() (err error) {
-	extFolder, err := fs.Sub(object.fsys, "extensions")
+	extFolder, err := extensionsFS(object.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
 	}
diff --git a/pkg/ocfl/storageroot.go b/pkg/ocfl/storageroot.go
index 085e8ee..7480228 100644
--- a/pkg/ocfl/storageroot.go
+++ b/pkg/ocfl/storageroot.go
@@ -109,7 +109,7 @@ func LoadStorageRoot(ctx context.Context, fsys fs.FS, extensionFactory *Extensio
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := extensionsFS(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
@@ -145,7 +145,7 @@ func LoadStorageRootRO(ctx context.Context, fsys fs.FS, extensionFactory *Extens
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := extensionsFS(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 30ea4ea..0196c59 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -175,7 +175,7 @@ func (osr *StorageRootBase) Load() error {
 		osr.version = Version1_0
 	}
 
-	extFSys, err := fs.Sub(osr.fsys, "extensions")
+	extFSys, err := extensionsFS(osr.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for extensions", osr.fsys)
 	}
@@ -226,7 +226,7 @@ func (osr *StorageRootBase) StoreExtensionConfig(name string, config any) error
 }
 
 func (osr *StorageRootBase) GetFiles() ([]string, error) {
-	dirs, err := fs.ReadDir(osr.fsys, "")
+	dirs, err := fs.ReadDir(osr.fsys, ".")
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read folders of storage root")
 	}
@@ -241,7 +241,7 @@ func (osr *StorageRootBase) GetFiles() ([]string, error) {
 }
 
 func (osr *StorageRootBase) GetFolders() ([]string, error) {
-	dirs, err := fs.ReadDir(osr.fsys, "")
+	dirs, err := fs.ReadDir(osr.fsys, ".")
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read folders of storage root")
 	}
@@ -311,7 +311,7 @@ func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrapf(err, "cannot create subfs %s of %v", folder, osr.fsys)
 	}
-	dirs, err := fs.ReadDir(subFS, "")
+	dirs, err := fs.ReadDir(subFS, ".")
 	if err != nil {
 		if errors.Is(err, fs.ErrNotExist) {
 			return false, nil
@@ -382,7 +382,7 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
 	}
-	extFSys, err := fs.Sub(subfs, "extensions")
+	extFSys, err := extensionsFS(subfs)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", subfs, "extensions")
 	}
-- 
2.43.0


From 2a8fd1a9c4bb057135af89f3820002dbdd045ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 17/60] fix: valid inventories of other implementations load
 and validate without errors

---
 pkg/ocfl/fixity.go        | 18 ++++++++++++++++++
 pkg/ocfl/inventorybase.go | 22 +++++++++++++---------
 pkg/ocfl/objectbase.go    | 39 ++++++++++++++++++++-------------------
 3 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/pkg/ocfl/fixity.go b/pkg/ocfl/fixity.go
index e1ee07f..692c32d 100644
--- a/pkg/ocfl/fixity.go
+++ b/pkg/ocfl/fixity.go
@@ -1,11 +1,29 @@
 package ocfl
 
 import (
+	"emperror.dev/errors"
+	"encoding/json"
 	"github.com/je4/utils/v2/pkg/checksum"
 )
 
 type Fixity map[checksum.DigestAlgorithm]map[string][]string
 
+// UnmarshalJSON keeps blocks of digest algorithms which are not supported, they are legal in an inventory
+func (f *Fixity) UnmarshalJSON(data []byte) error {
+	blocks := map[string]map[string][]string{}
+	if err := json.Unmarshal(data, &blocks); err != nil {
+		return errors.Wrap(err, "cannot unmarshal fixity")
+	}
+	if blocks == nil {
+		return errors.New("fixity is not an object")
+	}
+	*f = Fixity{}
+	for alg, block := range blocks {
+		(*f)[checksum.DigestAlgorithm(alg)] = block
+	}
+	return nil
+}
+
 func (f Fixity) Checksums(filename string) map[checksum.DigestAlgorithm]string {
 	result := map[checksum.DigestAlgorithm]string{}
 	for da, dfs := range f {
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index d2cd954..930abf6 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -26,14 +26,14 @@ type InventoryBase struct {
 	paddingLength          int
 	versionValue           map[string]uint
 	fixityDigestAlgorithms []checksum.DigestAlgorithm
-	Id                     string                                           `json:"id"`
-	Type                   InventorySpec                                    `json:"type"`
-	DigestAlgorithm        checksum.DigestAlgorithm                         `json:"digestAlgorithm"`
-	Head                   *OCFLString                                      `json:"head"`
-	ContentDirectory       string                                           `json:"contentDirectory,omitempty"`
-	Manifest               *OCFLManifest                                    `json:"manifest,omitempty"`
-	Versions               *OCFLVersions                                    `json:"versions"`
-	Fixity                 map[checksum.DigestAlgorithm]map[string][]string `json:"fixity,omitempty"`
+	Id                     string                   `json:"id"`
+	Type                   InventorySpec            `json:"type"`
+	DigestAlgorithm        checksum.DigestAlgorithm `json:"digestAlgorithm"`
+	Head                   *OCFLString              `json:"head"`
+	ContentDirectory       string                   `json:"contentDirectory,omitempty"`
+	Manifest               *OCFLManifest            `json:"manifest,omitempty"`
+	Versions               *OCFLVersions            `json:"versions"`
+	Fixity                 Fixity                   `json:"fixity,omitempty"`
 	logger                 zLogger.ZLogger
 }
 
@@ -155,7 +155,7 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		}
 	}
 	for alg := range i.Fixity {
-		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
+		if checksum.HashExists(alg) && !slices.Contains(i.fixityDigestAlgorithms, alg) {
 			i.fixityDigestAlgorithms = append(i.fixityDigestAlgorithms, alg)
 		}
 	}
@@ -626,6 +626,10 @@ func (i *InventoryBase) CheckFiles(fileManifest map[checksum.DigestAlgorithm]map
 	}
 	//check fixity
 	for digestAlg, fixity := range i.GetFixity() {
+		if !checksum.HashExists(digestAlg) {
+			// not supported, cannot be checked
+			continue
+		}
 		csFiles, ok = fileManifest[digestAlg]
 		if !ok {
 			return errors.Errorf("checksum for '%s' not created", digestAlg)
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ed1d56f..89cc16e 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -265,6 +265,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 		return nil, errors.Wrap(err, "cannot create empty inventory")
 	}
 	if err := json.Unmarshal(data, inventory); err != nil {
+		addValidationErrors(object.ctx, GetValidationError(version, E033).AppendDescription("invalid inventory: %v", err).AppendContext("object '%v'", object.fsys))
 		// now lets try it again
 		jsonMap := map[string]any{}
 		// check for json format error
@@ -290,10 +291,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	filename := filepath.ToSlash(filepath.Join(folder, "inventory.json"))
 	inventoryBytes, err := fs.ReadFile(object.fsys, filename)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
-			return nil, err
-		}
-		return newInventory(object.ctx, object, folder, object.version, object.logger)
+		return nil, errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, filename)
 	}
 	inventory, err := object.loadInventory(inventoryBytes, folder)
 	if err != nil {
@@ -305,7 +303,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
 			object.addValidationError(E060, "cannot read sidecar '%v/%s': %v", object.fsys, sidecarPath, err.Error())
@@ -328,12 +326,12 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			h.Write(inventoryBytes)
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
-			if digestString != inventoryDigestString {
+			if !strings.EqualFold(digestString, inventoryDigestString) {
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
 		}
 	}
-	return inventory, inventory.Finalize(false)
+	return inventory, nil
 }
 
 func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
@@ -1239,7 +1237,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
-				if errors.Cause(err) != fs.ErrNotExist {
+				if !errors.Is(err, fs.ErrNotExist) {
 					return errors.Wrapf(err, "cannot stat '%s'", versionContent)
 				}
 			} else {
@@ -1263,17 +1261,14 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		return errors.Wrap(err, "cannot check file digests for object root")
 	}
 
-	contentDir := ""
-	if len(versionStrings) > 0 {
-		contentDir = versionInventories[versionStrings[0]].GetRealContentDir()
-	}
+	contentDir := object.i.GetContentDir()
 	for _, ver := range versionStrings {
 		inv := versionInventories[ver]
 		if inv == nil {
 			continue
 		}
-		if contentDir != inv.GetRealContentDir() {
-			object.addValidationError(E019, "content directory '%s' of version '%s' not the same as '%s' in version '%s'", inv.GetRealContentDir(), ver, contentDir, versionStrings[0])
+		if contentDir != inv.GetContentDir() {
+			object.addValidationError(E019, "content directory '%s' of version '%s' not the same as '%s' in object root", inv.GetContentDir(), ver, contentDir)
 		}
 		if err := inv.CheckFiles(csDigestFiles); err != nil {
 			return errors.Wrapf(err, "cannot check file digests for version '%s'", ver)
@@ -1547,7 +1542,7 @@ func (object *ObjectBase) getVersionInventories() (map[string]Inventory, error)
 	for _, ver := range versionStrings {
 		vi, err := object.LoadInventory(ver)
 		if err != nil {
-			if errors.Cause(err) == fs.ErrNotExist {
+			if errors.Is(err, fs.ErrNotExist) {
 				object.addValidationWarning(W010, "no inventory for version '%s'", ver)
 				continue
 			}
@@ -1564,11 +1559,17 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot get version inventories")
 	}
-	allDigestAlgs := []checksum.DigestAlgorithm{object.i.GetDigestAlgorithm()}
+	inventories := []Inventory{object.i}
 	for _, vi := range versionInventories {
-		allDigestAlgs = append(allDigestAlgs, vi.GetDigestAlgorithm())
-		for digestAlg, _ := range vi.GetFixity() {
-			allDigestAlgs = append(allDigestAlgs, digestAlg)
+		inventories = append(inventories, vi)
+	}
+	allDigestAlgs := []checksum.DigestAlgorithm{}
+	for _, inventory := range inventories {
+		allDigestAlgs = append(allDigestAlgs, inventory.GetDigestAlgorithm())
+		for digestAlg := range inventory.GetFixity() {
+			if checksum.HashExists(digestAlg) {
+				allDigestAlgs = append(allDigestAlgs, digestAlg)
+			}
 		}
 	}
 	slices.Sort(allDigestAlgs)
-- 
2.43.0


From 5c3ca170b421623b3db81908aceed78925ab4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 18/60] fix: inventory checks report missing keys, duplicate
 and empty paths instead of panicking or missing them

---
 pkg/ocfl/inventorybase.go | 127 +++++++++++++++++++++++---------------
 1 file changed, 76 insertions(+), 51 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 930abf6..fa95475 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -73,7 +73,7 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 		return false
 	}
 	if i.Manifest != nil {
-		if len(i.Manifest.Manifest) != len(i.Manifest.Manifest) {
+		if len(i.Manifest.Manifest) != len(i2.Manifest.Manifest) {
 			return false
 		}
 		for key, vals := range i.Manifest.Manifest {
@@ -123,6 +123,10 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.Manifest = &OCFLManifest{Manifest: map[string][]string{}}
 	}
 
+	if i.Head == nil {
+		i.Head = NewOCFLString("")
+	}
+
 	if i.Versions == nil {
 		if !inCreation {
 			i.addValidationError(E041, "no versions in inventory")
@@ -132,27 +136,39 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 
 	i.versionValue = map[string]uint{}
 	for ver, version := range i.Versions.Versions {
-		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
-		if err != nil {
-			i.addValidationError(E104, "invalid version format '%s'", ver)
-			continue
+		if version == nil {
+			version = &Version{}
+			i.Versions.Versions[ver] = version
+		}
+		if version.Created == nil {
+			i.addValidationError(E048, "no created key in version '%s'", ver)
+			version.Created = &OCFLTime{}
+		}
+		if version.State == nil {
+			i.addValidationError(E048, "no state key in version '%s'", ver)
+			version.State = &OCFLState{
+				State: map[string][]string{},
+				err:   nil,
+			}
 		}
-		i.versionValue[ver] = uint(vInt)
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
 		}
+		if version.User.Name == nil && version.User.err == nil {
+			i.addValidationError(E054, "no user name in version '%s'", ver)
+		}
 		version.User.Finalize()
 		if version.Message == nil {
 			i.addValidationWarning(W007, "no message key in version '%s'", ver)
 			version.Message = NewOCFLString("")
 		}
-		if version.State == nil {
-			version.State = &OCFLState{
-				State: map[string][]string{},
-				err:   nil,
-			}
+		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
+		if err != nil {
+			i.addValidationError(E104, "invalid version format '%s'", ver)
+			continue
 		}
+		i.versionValue[ver] = uint(vInt)
 	}
 	for alg := range i.Fixity {
 		if checksum.HashExists(alg) && !slices.Contains(i.fixityDigestAlgorithms, alg) {
@@ -258,10 +274,11 @@ func (i *InventoryBase) IterateStateFiles(version string, fn StateFileCallback)
 		return errors.Errorf("invalid version '%s'", version)
 	}
 	for digest, externalNames := range ver.State.State {
-		internalNames, ok := i.Manifest.Manifest[digest]
+		mDigest, ok := i.manifestDigest(digest)
 		if !ok {
 			return errors.Errorf("no manifest for [%s]%v", digest, externalNames)
 		}
+		internalNames := i.Manifest.Manifest[mDigest]
 		if len(internalNames) == 0 {
 			return errors.Errorf("invalid manifest for digest [%s]", digest)
 		}
@@ -297,6 +314,12 @@ func (i *InventoryBase) check() error {
 	if err := i.checkFixity(); err != nil {
 		return errors.WithStack(err)
 	}
+	if i.Manifest.err != nil {
+		i.addValidationError(E033, "invalid manifest: %v", i.Manifest.err)
+	}
+	if i.Versions.err != nil {
+		i.addValidationError(E033, "invalid versions: %v", i.Versions.err)
+	}
 	if i.Id == "" {
 		i.addValidationError(E036, "invalid field \"id\" for object")
 	}
@@ -340,13 +363,34 @@ func (i *InventoryBase) check() error {
 
 	return nil
 }
+
+// conflictingPaths returns the paths, which occur more than once or are the folder of another path
+func conflictingPaths(paths []string) []string {
+	counter := map[string]int{}
+	for _, path := range paths {
+		counter[path]++
+	}
+	result := []string{}
+	for path, count := range counter {
+		if count > 1 {
+			result = append(result, path)
+		}
+		for pos, c := range path {
+			if c == '/' && counter[path[:pos]] > 0 {
+				result = append(result, path[:pos])
+			}
+		}
+	}
+	return result
+}
+
 func (i *InventoryBase) checkManifest() error {
 	i.logger.Debug().Msgf("[%s] checkManifest", i.GetID())
 	defer i.logger.Debug().Msgf("[%s] checkManifest done", i.GetID())
 	versionDigests := []string{}
 	for _, version := range i.Versions.Versions {
 		for digest := range version.State.State {
-			versionDigests = append(versionDigests, digest)
+			versionDigests = append(versionDigests, strings.ToLower(digest))
 		}
 	}
 	slices.Sort(versionDigests)
@@ -354,7 +398,7 @@ func (i *InventoryBase) checkManifest() error {
 	digests := []string{}
 	allPaths := []string{}
 	for digest, paths := range i.Manifest.Manifest {
-		//		digest = strings.ToLower(digest)
+		digest = strings.ToLower(digest)
 		if slices.Contains(digests, digest) {
 			i.addValidationError(E096, "manifest digest '%s' is duplicate", digest)
 		} else {
@@ -367,16 +411,13 @@ func (i *InventoryBase) checkManifest() error {
 		for _, path := range paths {
 			//allPaths = sliceInsertSorted(allPaths, path)
 			allPaths = append(allPaths, path)
-			if path[0] == '/' || path[len(path)-1] == '/' {
+			if strings.HasPrefix(path, "/") || strings.HasSuffix(path, "/") {
 				i.addValidationError(E100, "invalid path '%s' in manifest", path)
 			}
 			if path == "" {
 				i.addValidationError(E099, "empty path in manifest")
 			}
-			path2 := path
-			if path[0] == '/' {
-				path2 = path[1:]
-			}
+			path2 := strings.TrimPrefix(path, "/")
 			elements := strings.Split(path2, "/")
 			for _, element := range elements {
 				if slices.Contains([]string{"", ".", ".."}, element) {
@@ -388,12 +429,8 @@ func (i *InventoryBase) checkManifest() error {
 
 	}
 	i.logger.Debug().Msgf("[%s] checkManifest prefix", i.GetID())
-	slices.Sort(allPaths)
-	for j := 0; j < len(allPaths)-1; j++ {
-		prefix := strings.TrimRight(allPaths[j+1], "/") + "/"
-		if strings.HasPrefix(allPaths[j], prefix) {
-			i.addValidationError(E101, "content path '%s' is prefix or equal to '%s' in manifest", allPaths[j], prefix)
-		}
+	for _, path := range conflictingPaths(allPaths) {
+		i.addValidationError(E101, "content path '%s' is not unique or prefix of another one in manifest", path)
 	}
 	return nil
 }
@@ -413,16 +450,13 @@ func (i *InventoryBase) checkFixity() error {
 			}
 			// check content paths
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
+				if strings.HasPrefix(path, "/") || strings.HasSuffix(path, "/") {
 					i.addValidationError(E100, "invalid path '%s' in fixity", path)
 				}
 				if path == "" {
 					i.addValidationError(E099, "empty path in fixity")
 				}
-				path2 := path
-				if path[0] == '/' {
-					path2 = path[1:]
-				}
+				path2 := strings.TrimPrefix(path, "/")
 				elements := strings.Split(path2, "/")
 				for _, element := range elements {
 					if slices.Contains([]string{"", ".", ".."}, element) {
@@ -443,13 +477,10 @@ func (i *InventoryBase) checkVersions() error {
 	if len(i.Versions.Versions) == 0 {
 		i.addValidationError(E008, "length of ver is 0")
 	}
-	manifestDigests := []string{}
 	manifestDigestsLower := []string{}
 	for mDigest := range i.Manifest.Manifest {
-		manifestDigests = append(manifestDigests, mDigest)
 		manifestDigestsLower = append(manifestDigestsLower, strings.ToLower(mDigest))
 	}
-	slices.Sort(manifestDigests)
 	slices.Sort(manifestDigestsLower)
 
 	for ver, version := range i.Versions.Versions {
@@ -523,24 +554,18 @@ func (i *InventoryBase) checkVersions() error {
 		i.logger.Debug().Msgf("[%s] checkVersions %s state", i.GetID(), ver)
 		for digest, paths := range version.State.State {
 			// massive performance boost by using sorted manifest
-			if _, found := slices.BinarySearch(manifestDigests, digest); !found {
-				if _, found := slices.BinarySearch(manifestDigestsLower, strings.ToLower(digest)); found {
-					i.addValidationError(E096, "wrong digest case in version '%s' - '%s'", ver, digest)
-				} else {
-					i.addValidationError(E050, "digest not in manifest of versions '%s' - '%s'", ver, digest)
-				}
+			// digests are case insensitive
+			if _, found := slices.BinarySearch(manifestDigestsLower, strings.ToLower(digest)); !found {
+				i.addValidationError(E050, "digest not in manifest of versions '%s' - '%s'", ver, digest)
 			}
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
+				if strings.HasPrefix(path, "/") || strings.HasSuffix(path, "/") {
 					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
 				}
 				if path == "" {
 					i.addValidationError(E051, "empty path in state for version '%s'", ver)
 				}
-				path2 := path
-				if path[0] == '/' {
-					path2 = path[1:]
-				}
+				path2 := strings.TrimPrefix(path, "/")
 				elements := strings.Split(path2, "/")
 				for _, element := range elements {
 					if slices.Contains([]string{"", ".", ".."}, element) {
@@ -590,12 +615,8 @@ func (i *InventoryBase) checkVersions() error {
 		for _, paths := range version.State.State {
 			logPaths = append(logPaths, paths...)
 		}
-		slices.Sort(logPaths)
-		for j := 0; j < len(logPaths)-1; j++ {
-			prefix := strings.TrimSuffix(logPaths[j], "/") + "/"
-			if strings.HasPrefix(logPaths[j+1], prefix) {
-				i.addValidationError(E095, "logical path '%s' is prefix of '%s'", logPaths[j], logPaths[j+1])
-			}
+		for _, path := range conflictingPaths(logPaths) {
+			i.addValidationError(E095, "logical path '%s' is not unique or prefix of another one", path)
 		}
 	}
 
@@ -662,6 +683,7 @@ func (i *InventoryBase) GetFiles() map[string][]string {
 			parts := strings.Split(filename, "/")
 			if len(parts) < 3 {
 				i.addValidationError(E000, "invalid filepath in manifest '%s'", filename)
+				continue
 			}
 			version := parts[0]
 			//fn := parts[2]
@@ -737,6 +759,9 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		if i.paddingLength <= 0 {
 			i.Head.string = fmt.Sprintf("v%d", v+1)
 		} else {
+			if len(strconv.Itoa(v+1)) > i.paddingLength {
+				return errors.Errorf("no zero-padded version after '%s'", lastHead)
+			}
 			i.Head.string = fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), v+1)
 		}
 	}
@@ -996,7 +1021,7 @@ func (i *InventoryBase) Clean() error {
 		return nil
 	}
 	// only one version. could be empty
-	if i.GetHead() == "v1" {
+	if len(i.Versions.Versions) == 1 {
 		return nil
 	}
 	i.logger.Debug().Msgf("deleting %v", i.GetHead())
-- 
2.43.0


From b147ad81099d7f272365d6a9b76495ca9bf15c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 19/60] fix: object validation compares states and inventory
 copies, finds foreign files and read errors

---
 pkg/ocfl/helper.go          |  2 +-
 pkg/ocfl/inventorytypes.go  | 75 ++++++++++++++++++++++++++-----------
 pkg/ocfl/objectbase.go      | 64 +++++++++++++++++++++++--------
 pkg/ocfl/storagerootbase.go |  9 ++++-
 pkg/ocfl/validationerror.go | 44 +++++++++++-----------
 5 files changed, 133 insertions(+), 61 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 72b8792..686d88f 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -167,7 +167,7 @@ func GetErrorStacktrace(err error) errors.StackTrace {
 }
 
 func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version OCFLVersion, err error) {
-	rString := fmt.Sprintf("0=%s([0-9]+\\.[0-9]+)", prefix)
+	rString := fmt.Sprintf("^0=%s([0-9]+\\.[0-9]+)$", prefix)
 	r, err := regexp.Compile(rString)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot compile %s", rString)
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 2081e56..932e00d 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -3,7 +3,9 @@ package ocfl
 import (
 	"emperror.dev/errors"
 	"encoding/json"
+	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
+	"strings"
 	"time"
 )
 
@@ -145,7 +147,7 @@ func (v *Version) EqualMeta(v2 *Version) bool {
 	if v2 == nil {
 		return false
 	}
-	if v.Created.Time.String() != v2.Created.Time.String() ||
+	if !v.Created.Time.Equal(v2.Created.Time) ||
 		v.Message.string != v2.Message.string ||
 		v.User.Name.string != v2.User.Name.string ||
 		v.User.Address.string != v2.User.Address.string {
@@ -157,35 +159,66 @@ func (v *Version) EqualState(v2 *Version) bool {
 	if v2 == nil {
 		return false
 	}
-	/*
-		if v.Created.Time.String() != v2.Created.Time.String() ||
-			v.Message.string != v2.Message.string ||
-			v.User.GetName.string != v2.User.GetName.string ||
-			v.User.Address.string != v2.User.Address.string {
-			return false
+	state, ok := v.pathDigests()
+	if !ok {
+		return false
+	}
+	state2, ok := v2.pathDigests()
+	if !ok {
+		return false
+	}
+	return maps.Equal(state, state2)
+}
+
+// pathDigests returns the digest of every logical path. Not ok, if there is no single digest for a path
+func (v *Version) pathDigests() (map[string]string, bool) {
+	result := map[string]string{}
+	for digest, paths := range v.State.State {
+		digest = strings.ToLower(digest)
+		for _, path := range paths {
+			if d, ok := result[path]; ok && d != digest {
+				return nil, false
+			}
+			result[path] = digest
 		}
-	*/
-	if len(v.State.State) != len(v2.State.State) {
+	}
+	return result, true
+}
+
+// equalContent checks, whether the version of an inventory has the same logical paths with the same content as
+// in another inventory, which might use another digest algorithm
+func equalContent(inv1, inv2 Inventory, version string) bool {
+	v1, ok := inv1.GetVersions()[version]
+	if !ok {
 		return false
 	}
-	files := []string{}
-	for _, vals := range v.State.State {
-		files = append(files, vals...)
+	v2, ok := inv2.GetVersions()[version]
+	if !ok {
+		return false
 	}
-	slices.Sort(files)
-	files = slices.Compact(files)
-	files2 := []string{}
-	for _, vals := range v2.State.State {
-		files2 = append(files2, vals...)
+	if inv1.GetDigestAlgorithm() == inv2.GetDigestAlgorithm() {
+		return v1.EqualState(v2)
 	}
-	slices.Sort(files2)
-	files2 = slices.Compact(files2)
-	if len(files) != len(files2) {
+	state1, ok := v1.pathDigests()
+	if !ok {
 		return false
 	}
-	if !sliceContains(files, files2) {
+	state2, ok := v2.pathDigests()
+	if !ok || len(state1) != len(state2) {
 		return false
 	}
+	for path, digest1 := range state1 {
+		digest2, ok := state2[path]
+		if !ok {
+			return false
+		}
+		files := inv1.GetDuplicates(digest1)
+		if !slices.ContainsFunc(inv2.GetDuplicates(digest2), func(file string) bool {
+			return slices.Contains(files, file)
+		}) {
+			return false
+		}
+	}
 	return true
 }
 
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 89cc16e..fe69a7f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -142,7 +142,7 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 		fm.Checksums = fixity.Checksums(fnames[0])
 		for v, version := range versions {
 			for d, fnames := range version.State.State {
-				if digest == d {
+				if strings.EqualFold(digest, d) {
 					if _, ok := fm.VersionName[v]; !ok {
 						fm.VersionName[v] = []string{}
 					}
@@ -283,7 +283,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 	return inventory, inventory.Finalize(false)
 }
 
-var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory.json$`)
+var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory\.json$`)
 
 // loadInventory loads inventory from existing Object
 func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
@@ -506,6 +506,10 @@ func (object *ObjectBase) Load() (err error) {
 	if object.i, err = object.LoadInventory("."); err != nil {
 		return errors.Wrap(err, "cannot load inventory.json of root")
 	}
+	spec := object.i.GetSpec()
+	if (object.version == Version1_0 && spec != InventorySpec1_0) || (object.version == Version1_1 && spec != InventorySpec1_1) {
+		object.addValidationError(E038, "inventory type '%s' does not match object version '%s'", spec, object.version)
+	}
 	return nil
 }
 
@@ -1159,7 +1163,7 @@ func (object *ObjectBase) GetVersion() OCFLVersion {
 	return object.version
 }
 
-var allowedFilesRegexp = regexp.MustCompile("^(inventory.json(\\.sha512|\\.sha384|\\.sha256|\\.sha1|\\.md5)?|0=ocfl_object_[0-9]+\\.[0-9]+)$")
+var allowedVersionFilesRegexp = regexp.MustCompile(`^inventory\.json(\.(sha512|sha256))?$`)
 
 func (object *ObjectBase) checkVersionFolder(version string) error {
 	versionEntries, err := fs.ReadDir(object.fsys, version)
@@ -1168,7 +1172,7 @@ func (object *ObjectBase) checkVersionFolder(version string) error {
 	}
 	for _, ve := range versionEntries {
 		if !ve.IsDir() {
-			if !allowedFilesRegexp.MatchString(ve.Name()) {
+			if !allowedVersionFilesRegexp.MatchString(ve.Name()) {
 				object.addValidationError(E015, "extra file '%s' in version directory '%s'", ve.Name(), version)
 			}
 		}
@@ -1209,18 +1213,25 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if _, ok := objectContentFiles[ver]; !ok {
 			objectContentFiles[ver] = []string{}
 		}
-		fs.WalkDir(
+		if err := fs.WalkDir(
 			object.fsys,
 			ver,
 			func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					if path == ver && errors.Is(err, fs.ErrNotExist) {
+						// missing version folder
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%s'", path)
+				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
-					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
+					if !strings.HasPrefix(path+"/", versionContent+"/") && path != ver {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
 					}
 				} else {
 					objectFilesFlat = append(objectFilesFlat, path)
-					if strings.HasPrefix(path, versionContent) {
+					if strings.HasPrefix(path, versionContent+"/") {
 						objectContentFiles[ver] = append(objectContentFiles[ver], path)
 						objectContentFilesFlat = append(objectContentFilesFlat, path)
 					} else {
@@ -1233,7 +1244,9 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				return nil
 			},
-		)
+		); err != nil {
+			return errors.Wrapf(err, "cannot walk version folder '%s'", ver)
+		}
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
@@ -1316,8 +1329,16 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 
 	if len(versionStrings) > 0 {
 		lastVersion := versionStrings[len(versionStrings)-1]
-		if lastInv, ok := versionInventories[lastVersion]; ok {
-			if !lastInv.IsEqual(object.i) {
+		if _, ok := versionInventories[lastVersion]; ok {
+			rootData, err := fs.ReadFile(object.fsys, "inventory.json")
+			if err != nil {
+				return errors.Wrap(err, "cannot read root inventory")
+			}
+			lastData, err := fs.ReadFile(object.fsys, lastVersion+"/inventory.json")
+			if err != nil {
+				return errors.Wrapf(err, "cannot read inventory of version '%s'", lastVersion)
+			}
+			if !bytes.Equal(rootData, lastData) {
 				object.addValidationError(E064, "root inventory not equal to inventory version '%s'", lastVersion)
 			}
 		}
@@ -1342,9 +1363,10 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		for verVer, verVersion := range verInventory.GetVersions() {
 			testV, ok := versions[verVer]
 			if !ok {
-				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
+				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", verVer, ver)
+				continue
 			}
-			if !testV.EqualState(verVersion) {
+			if !equalContent(object.i, verInventory, verVer) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
 			}
 			if !testV.EqualMeta(verVersion) {
@@ -1420,6 +1442,10 @@ func (object *ObjectBase) Check() error {
 	versions := object.i.GetVersionStrings()
 
 	// check for allowed files and directories
+	allowedFiles := []string{
+		"inventory.json",
+		fmt.Sprintf("inventory.json.%s", object.i.GetDigestAlgorithm()),
+	}
 	allowedDirs := append(versions, "logs", "extensions")
 	versionCounter := 0
 	entries, err := fs.ReadDir(object.fsys, ".")
@@ -1435,7 +1461,7 @@ func (object *ObjectBase) Check() error {
 					if err2 := object.checkVersionFolder(entry.Name()); err2 == nil {
 						object.addValidationError(E046, "root manifest not most recent because of '%s'", entry.Name())
 					} else {
-						fmt.Println(err2)
+						return errors.WithStack(err2)
 					}
 				}
 			}
@@ -1449,7 +1475,8 @@ func (object *ObjectBase) Check() error {
 				versionCounter++
 			}
 		} else {
-			if !allowedFilesRegexp.MatchString(entry.Name()) {
+			// the declaration has already been checked
+			if !slices.Contains(allowedFiles, entry.Name()) && !objectVersionRegexp.MatchString(entry.Name()) {
 				object.addValidationError(E001, "invalid file '%s' found", entry.Name())
 			}
 		}
@@ -1485,6 +1512,13 @@ func (object *ObjectBase) createContentManifest() (map[checksum.DigestAlgorithm]
 			version,
 			func(path string, d fs.DirEntry, err error) error {
 				//object.logger.Debug(path)
+				if err != nil {
+					if path == version && errors.Is(err, fs.ErrNotExist) {
+						// missing version folder
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%s'", path)
+				}
 				if d.IsDir() {
 					return nil
 				}
@@ -1494,7 +1528,7 @@ func (object *ObjectBase) createContentManifest() (map[checksum.DigestAlgorithm]
 					return errors.Wrapf(err, "cannot open file '%v/%s'", object.fsys, fname)
 				}
 				defer fp.Close()
-				css, err := checksum.Copy(digestAlgorithms, fp, &checksum.NullWriter{})
+				css, err := copyChecksums(digestAlgorithms, fp)
 				if err != nil {
 					return errors.Wrapf(err, "cannot read and create checksums for file '%s'", fname)
 				}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 0196c59..901ccac 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -378,6 +378,11 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot get version in '%s'", folder)
 	}
+	if !ValidVersion(version) {
+		if err := osr.addValidationError(E004, "invalid object version number '%s'", version); err != nil {
+			return nil, errors.Wrapf(err, "cannot add validation error %s", E004)
+		}
+	}
 	subfs, err := fs.Sub(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
@@ -523,7 +528,7 @@ func (osr *StorageRootBase) CheckDirectory() (err error) {
 	return nil
 }
 func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
-	fmt.Printf("object folder '%s'\n", objectFolder)
+	osr.logger.Info().Msgf("object folder '%s'", objectFolder)
 	object, err := osr.LoadObjectByFolder(objectFolder)
 	if err != nil {
 		if err := osr.addValidationError(E001, "invalid folder '%s': %v", objectFolder, err); err != nil {
@@ -539,7 +544,7 @@ func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
 }
 
 func (osr *StorageRootBase) CheckObjectByID(objectID string) error {
-	fmt.Printf("object id '%s'\n", objectID)
+	osr.logger.Info().Msgf("object id '%s'", objectID)
 	object, err := osr.LoadObjectByID(objectID)
 	if err != nil {
 		if err := osr.addValidationError(E001, "invalid id '%s': %v", objectID, err); err != nil {
diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 492e269..edf3923 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -224,6 +224,8 @@ func (ve *ValidationError) AppendDescription(format string, a ...any) *Validatio
 		Description:  ve.Description,
 		Ref:          ve.Ref,
 		Description2: strings.TrimSpace(ve.Description2 + " " + fmt.Sprintf(format, a...)),
+		Context:      ve.Context,
+		Version:      ve.Version,
 	}
 }
 
@@ -234,6 +236,7 @@ func (ve *ValidationError) AppendContext(format string, a ...any) *ValidationErr
 		Ref:          ve.Ref,
 		Description2: ve.Description2,
 		Context:      strings.TrimSpace(ve.Context + " " + fmt.Sprintf(format, a...)),
+		Version:      ve.Version,
 	}
 }
 
@@ -267,29 +270,26 @@ func GetValidationError(version OCFLVersion, errno ValidationErrorCode) *Validat
 		mapping = OCFLValidationErrorMapping1_0
 		//		errlist = map[ValidationErrorCode]*ValidationError{}
 	}
-	err, ok := errlist[errno]
-	if !ok {
-		errnomap, ok := mapping[errno]
-		if !ok {
-			if len(errno) > 0 && errno[0] == 'W' {
-				return &ValidationError{
-					Code:        W000,
-					Description: fmt.Sprintf("unknown warning %s", errno),
-					Ref:         "",
-				}
-			} else {
-				return &ValidationError{
-					Code:        E000,
-					Description: fmt.Sprintf("unknown error %s", errno),
-					Ref:         "",
-				}
-			}
-		}
-		errno = errnomap
-		err, ok = errlist[errno]
-		if ok {
+	if err, ok := errlist[errno]; ok {
+		return err
+	}
+	if errnomap, ok := mapping[errno]; ok {
+		if err, ok := errlist[errnomap]; ok {
 			return err
 		}
 	}
-	return err
+	if len(errno) > 0 && errno[0] == 'W' {
+		return &ValidationError{
+			Code:        W000,
+			Description: fmt.Sprintf("unknown warning %s", errno),
+			Ref:         "",
+			Version:     version,
+		}
+	}
+	return &ValidationError{
+		Code:        E000,
+		Description: fmt.Sprintf("unknown error %s", errno),
+		Ref:         "",
+		Version:     version,
+	}
 }
-- 
2.43.0


From 0482fbc675c8812c0bef1c56519f2c1765d38198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 20/60] fix: validation reports content files outside of the
 designated content directory

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index fe69a7f..a7f1c51 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1392,6 +1392,9 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if !slices.Contains(objectFilesFlat, manifestFile) {
 			object.addValidationError(E092, "file '%s' manifest not in object content (./inventory.json)", manifestFile)
 		}
+		if parts := strings.SplitN(manifestFile, "/", 3); parts[1] != contentDir {
+			object.addValidationError(E016, "file '%s' from manifest not in content directory '%s' (./inventory.json)", manifestFile, contentDir)
+		}
 	}
 
 	//
-- 
2.43.0


From c922cd5fb60cbbba7b74bfa10a6c952153b26007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 21/60] fix: store extension files of type path where they are
 read, whatever content-subpath maps

---
 pkg/extension/NNNN-metafile.go  |  2 +-
 pkg/extension/NNNN-mets.go      |  8 +--
 pkg/extension/NNNN-thumbnail.go |  2 +-
 pkg/ocfl/helper.go              | 88 ++++++++++++++-------------------
 4 files changed, 44 insertions(+), 56 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 71629ab..16eb5a1 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -312,7 +312,7 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, sl.StorageName, sl.MetaName)), "/")
 
 		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 621fa2c..e9e76e8 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -268,12 +268,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
 		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		metsNames, err = object.BuildNames([]string{metsName}, "")
+		metsNames, err = object.BuildNames([]string{metsName}, "full")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", metsName)
 		}
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
-		premisNames, err = object.BuildNames([]string{premisName}, "")
+		premisNames, err = object.BuildNames([]string{premisName}, "full")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
@@ -1311,10 +1311,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
 
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(metsBytes)), []string{metsName}, area, true, false); err != nil {
-		if err := object.AddData(metsBytes, metsName, false, "", true, false); err != nil {
+		if err := object.AddData(metsBytes, metsName, false, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", metsName)
 		}
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", premisName)
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.METSXSD)), []string{"schemas/mets.xsd"}, area, true, false); err != nil {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index ac5cf7e..1e7f9a4 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -197,7 +197,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, thumb.StorageName, targetName)), "/")
 
 		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if digest, err = object.AddReader(mFile, []string{targetname}, "", true, false); err != nil {
+		if digest, err = object.AddReader(mFile, []string{targetname}, "full", true, false); err != nil {
 			return "", "", errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 		return targetname, digest, nil
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 686d88f..ef5b621 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -389,29 +389,44 @@ func copyChecksums(algs []checksum.DigestAlgorithm, src io.Reader, dst ...io.Wri
 	return checksums, nil
 }
 
-func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
-	var targetname string
+// contentName returns name and area with which a file of an extension is added to the content of an object
+func contentName(object Object, name, storageType, storageName string) (string, string, error) {
 	switch storageType {
 	case "area":
-		path, err := object.GetAreaPath(storageName)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s", path, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
-		fsys = object.GetFS()
+		return name, storageName, nil
 	case "path":
 		path, err := object.GetAreaPath("content")
 		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
+			return "", "", errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s", path, storageName, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
-		fsys = object.GetFS()
-	case "extension":
-		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
+		// name is already complete and must not be mapped to an area again
+		return strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, name)), "/"), "full", nil
 	default:
-		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
+		return "", "", errors.Errorf("unsupported storage type '%s'", storageType)
+	}
+}
+
+// storedFile returns filesystem and path of a file, which an extension has stored
+func storedFile(object Object, name, version, storageType, storageName string, fsys fs.FS) (fs.FS, string, error) {
+	storageType = strings.ToLower(storageType)
+	if storageType == "extension" {
+		return fsys, strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/"), nil
+	}
+	name, area, err := contentName(object, name, storageType, storageName)
+	if err != nil {
+		return nil, "", errors.WithStack(err)
+	}
+	names, err := object.BuildNames([]string{name}, area)
+	if err != nil {
+		return nil, "", errors.Wrapf(err, "cannot build names for '%s'", name)
+	}
+	return object.GetFS(), object.GetInventory().BuildManifestNameVersion(names.InternalPath, version), nil
+}
+
+func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
+	fsys, targetname, err := storedFile(object, strings.TrimLeft(name, "/"), version, storageType, storageName, fsys)
+	if err != nil {
+		return nil, errors.WithStack(err)
 	}
 
 	return fs.ReadFile(fsys, targetname)
@@ -431,28 +446,9 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 	default:
 		return nil, errors.Errorf("invalid compression '%s'", compress)
 	}
-	var targetname string
-	switch storageType {
-	case "area":
-		path, err := object.GetAreaPath(storageName)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s_%s.jsonl%s", path, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
-		fsys = object.GetFS()
-	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
-		fsys = object.GetFS()
-	case "extension":
-		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, version, ext), "/")
-	default:
-		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
+	fsys, targetname, err := storedFile(object, fmt.Sprintf("%s_%s.jsonl%s", name, version, ext), version, storageType, storageName, fsys)
+	if err != nil {
+		return nil, errors.WithStack(err)
 	}
 
 	var reader io.Reader
@@ -517,20 +513,12 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 
 	head := object.GetInventory().GetHead()
 	switch strings.ToLower(storageType) {
-	case "area":
-		targetname := fmt.Sprintf("%s_%s.jsonl%s", name, head, ext)
-		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, storageName, true, false); err != nil {
-			return errors.Wrapf(err, "cannot write '%s'", targetname)
-		}
-	case "path":
-		path, err := object.GetAreaPath("content")
+	case "area", "path":
+		targetname, area, err := contentName(object, fmt.Sprintf("%s_%s.jsonl%s", name, head, ext), strings.ToLower(storageType), storageName)
 		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
+			return errors.WithStack(err)
 		}
-		targetname := fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, head, ext)
-
-		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, area, true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
-- 
2.43.0


From 20b8441673a237555035c51b1b4a9533a92a5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 22/60] fix: metafile stores exactly the given json, and
 objects without metadata have metadata reports

---
 pkg/extension/NNNN-metafile.go | 39 ++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 16eb5a1..a89b94a 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -191,14 +191,27 @@ func toStringKeys(val interface{}) (interface{}, error) {
 	}
 }
 
+// decodeJSON reads exactly one json value without changing its numbers
+func decodeJSON(r io.Reader) (any, error) {
+	var result any
+	decoder := json.NewDecoder(r)
+	decoder.UseNumber()
+	if err := decoder.Decode(&result); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, errors.New("unexpected data after json value")
+	}
+	return result, nil
+}
+
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
-	if sl.metadataSource.Path == "" {
+	if sl.metadataSource != nil && sl.metadataSource.Path == "" {
 		return nil
 	}
 	if sl.stored {
 		return nil
 	}
-	sl.stored = true
 	var err error
 	inventory := object.GetInventory()
 	if inventory == nil {
@@ -223,6 +236,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrapf(err, "cannot get '%s'", fname)
 		}
+		if resp.StatusCode != http.StatusOK {
+			_ = resp.Body.Close()
+			return errors.Errorf("cannot get '%s' - %s", fname, resp.Status)
+		}
 		rc = resp.Body
 	case "https":
 		fname = strings.Replace(sl.metadataSource.String(), "$ID", object.GetID(), -1)
@@ -230,6 +247,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrapf(err, "cannot get '%s'", fname)
 		}
+		if resp.StatusCode != http.StatusOK {
+			_ = resp.Body.Close()
+			return errors.Errorf("cannot get '%s' - %s", fname, resp.Status)
+		}
 		rc = resp.Body
 	case "file":
 		fname = strings.Replace(sl.metadataSource.Path, "$ID", object.GetID(), -1)
@@ -258,8 +279,7 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 
 	switch strings.ToLower(filepath.Ext(fname)) {
 	case ".json":
-		jr := json.NewDecoder(rc)
-		if err := jr.Decode(&info); err != nil {
+		if info, err = decodeJSON(rc); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
 		if err := sl.compiledSchema.Validate(info); err != nil {
@@ -326,6 +346,7 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 
 	// remember the content
 	sl.info[inventory.GetHead()] = infoData
+	sl.stored = true
 	return nil
 }
 
@@ -363,12 +384,16 @@ func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		if metadata, err = ocfl.ReadFile(object, sl.MetaName, ver, sl.StorageType, sl.StorageName, sl.fsys); err == nil {
 			break
 		}
+		// not every version has its own metadata
+		if !errors.Is(err, fs.ErrNotExist) {
+			return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		}
 	}
 	if metadata == nil {
-		return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		return result, nil
 	}
-	var metaStruct = map[string]any{}
-	if err := json.Unmarshal(metadata, &metaStruct); err != nil {
+	metaStruct, err := decodeJSON(bytes.NewReader(metadata))
+	if err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal '%s'", sl.MetaName)
 	}
 	result[""] = metaStruct
-- 
2.43.0


From da7e9fc2d460256c473042dd35276f730d1dcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 23/60] fix: the description of content-subpath is no ingested
 content

---
 pkg/extension/NNNN-content-subpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 3c183bc..2469c56 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -150,7 +150,7 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 
 	//buf := bytes.NewBuffer([]byte(readme.String()))
 	//if err := object.AddReader(io.NopCloser(buf), []string{"README.md"}, "", false, false); err != nil {
-	if err := object.AddData([]byte(readme.String()), "README.md", true, "full", false, false); err != nil {
+	if err := object.AddData([]byte(readme.String()), "README.md", true, "full", true, false); err != nil {
 		return errors.Wrap(err, "cannot write 'README.md'")
 	}
 	return nil
-- 
2.43.0


From 9114c86ccb5b22663ea233abb42b1700256e971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 24/60] fix: filesystem and indexer metadata of versions
 without new files, folder entries in areas and echo mode

---
 pkg/extension/NNNN-filesystem.go | 78 +++++++++++++++-----------------
 pkg/extension/NNNN-indexer.go    | 16 ++++++-
 2 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 91a404d..dae17b9 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -114,27 +114,7 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 	}
 
 	inventory := object.GetInventory()
-
-	var err error
-	var emptyChecksum string
-	var emptyExists bool
-	if isDir && extFS.Folders != "" {
-		emptyChecksum, err = checksum.Checksum(bytes.NewReader([]byte{}), inventory.GetDigestAlgorithm())
-		if err != nil {
-			return errors.Wrap(err, "cannot calculate checksum for empty file")
-		}
-		manifest := inventory.GetManifest()
-		_, emptyExists = manifest[emptyChecksum]
-	}
-
 	head := inventory.GetHead()
-	if _, ok := extFS.buffer[head]; !ok {
-		extFS.buffer[head] = &bytes.Buffer{}
-	}
-	if extFS.currentHead != head {
-		extFS.writer = brotli.NewWriter(extFS.buffer[head])
-		extFS.currentHead = head
-	}
 
 	for _, src := range source {
 		fullpath, err := writefs.Fullpath(sourceFS, src)
@@ -160,26 +140,25 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 
 		if isDir {
 			newEmptyFile := filepath.ToSlash(filepath.Join(src, extFS.Folders))
-			if !emptyExists {
-				if _, err := object.AddReader(io.NopCloser(bytes.NewReader([]byte{})), []string{newEmptyFile}, area, true, false); err != nil {
-					return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
-				}
-				emptyExists = true
-			} else {
-				// todo: make it more elegant
-				names, err := object.BuildNames([]string{newEmptyFile}, area)
-				if err != nil {
-					return errors.Wrapf(err, "cannot build names for '%s'", newEmptyFile)
-				}
-				if len(names.ExternalPaths) == 0 {
-					return errors.Errorf("cannot build external names for '%s'", newEmptyFile)
-				}
-				newEmptyFile = names.ExternalPaths[0]
-				if err := inventory.CopyFile(names.ExternalPaths[0], emptyChecksum); err != nil {
-					return errors.Wrapf(err, "cannot copy empty file to '%s'", newEmptyFile)
-				}
+			newSrc, err = object.GetExtensionManager().BuildObjectStatePath(object, newEmptyFile, area)
+			if err != nil {
+				return errors.Wrapf(err, "cannot build object state path for '%s'", newEmptyFile)
+			}
+			emptyChecksum, err := checksum.Checksum(bytes.NewReader([]byte{}), inventory.GetDigestAlgorithm())
+			if err != nil {
+				return errors.Wrap(err, "cannot calculate checksum for empty file")
+			}
+			known, err := inventory.AlreadyExists(newSrc, emptyChecksum)
+			if err != nil {
+				return errors.Wrapf(err, "cannot check for '%s'", newSrc)
+			}
+			if err := object.AddData([]byte{}, newEmptyFile, true, area, true, false); err != nil {
+				return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
+			}
+			// an unchanged folder is like an unchanged file
+			if known {
+				continue
 			}
-			newSrc = newEmptyFile
 		}
 
 		fsLine := &FileSystemLine{
@@ -190,6 +169,16 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 		if err != nil {
 			return errors.Errorf("cannot marshal result %v", fsLine)
 		}
+		if _, ok := extFS.buffer[head]; !ok {
+			extFS.buffer[head] = &bytes.Buffer{}
+		}
+		if extFS.currentHead != head {
+			extFS.writer = brotli.NewWriter(extFS.buffer[head])
+			extFS.currentHead = head
+		}
+		if extFS.writer == nil {
+			return errors.Errorf("metadata of '%s' version '%s' is already stored", object.GetID(), head)
+		}
 		if _, err := extFS.writer.Write(append(data, []byte("\n")...)); err != nil {
 			return errors.Errorf("cannot brotli %s", string(data))
 		}
@@ -241,8 +230,11 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 		} else {
 			data, err = ocfl.ReadJsonL(object, "filesystem", v, extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys)
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				// nothing recorded for this version
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
@@ -259,6 +251,9 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 			}
 			lines = append(lines, meta)
 		}
+		if err := r.Err(); err != nil {
+			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
+		}
 		if err := inventory.IterateStateFiles(v, func(internals, externals []string, digest string) error {
 			for _, line := range lines {
 				if slices.Contains(externals, line.Path) {
@@ -297,6 +292,7 @@ func (extFS *Filesystem) UpdateObjectAfter(object ocfl.Object) error {
 	if err := extFS.writer.Close(); err != nil {
 		return errors.Wrap(err, "cannot close brotli writer")
 	}
+	extFS.writer = nil
 	head := object.GetInventory().GetHead()
 	if head == "" {
 		return errors.Errorf("no head for object '%s'", object.GetID())
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 2e97cc0..8128c95 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -228,6 +228,7 @@ func (sl *Indexer) UpdateObjectAfter(object ocfl.Object) error {
 	if err := sl.writer.Close(); err != nil {
 		return errors.Wrap(err, "cannot close brotli writer")
 	}
+	sl.writer = nil
 	head := object.GetInventory().GetHead()
 	if head == "" {
 		return errors.Errorf("no head for object '%s'", object.GetID())
@@ -262,7 +263,8 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			path2digest[name] = checksum
 		}
 	}
-	for v, _ := range inventory.GetVersions() {
+	// later versions override earlier ones
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := sl.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
@@ -275,6 +277,10 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		} else {
 			data, err = ocfl.ReadJsonL(object, "indexer", v, sl.IndexerConfig.Compress, sl.StorageType, sl.StorageName, sl.fsys)
 			if err != nil {
+				// nothing recorded for this version
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
 				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
@@ -289,7 +295,10 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			if err := json.Unmarshal([]byte(line), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
 			}
-			result[path2digest[meta.Path]] = meta.Indexer
+			// content, which was replaced within the same update, is not part of the object
+			if digest, ok := path2digest[meta.Path]; ok {
+				result[digest] = meta.Indexer
+			}
 		}
 		if err := r.Err(); err != nil {
 			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
@@ -315,6 +324,9 @@ func (sl *Indexer) StreamObject(object ocfl.Object, reader io.Reader, stateFiles
 		sl.writer = brotli.NewWriter(sl.buffer[head])
 		sl.currentHead = head
 	}
+	if sl.writer == nil {
+		return errors.Errorf("metadata of '%s' version '%s' is already stored", object.GetID(), head)
+	}
 
 	var result *ironmaiden.ResultV2
 	var err error
-- 
2.43.0


From 6b65f74da9f1fdbad2222d99de5e5fea981bb494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 25/60] fix: report all checksums of a file and index the
 content path in use

---
 pkg/ocfl/objectbase.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a7f1c51..c2f918f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -139,7 +139,12 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 			VersionName:  map[string][]string{},
 			Extension:    map[string]any{},
 		}
-		fm.Checksums = fixity.Checksums(fnames[0])
+		// all of them have the same content
+		for _, fname := range fnames {
+			for alg, cs := range fixity.Checksums(fname) {
+				fm.Checksums[alg] = cs
+			}
+		}
 		for v, version := range versions {
 			for d, fnames := range version.State.State {
 				if strings.EqualFold(digest, d) {
@@ -805,6 +810,7 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	}
 
 	names.ManifestPath = object.uniqueContentPath(names.ManifestPath)
+	names.InternalPath = strings.TrimPrefix(names.ManifestPath, object.i.BuildManifestName("")+"/")
 	writer, err := writefs.Create(object.fsys, names.ManifestPath)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
-- 
2.43.0


From 435c6557b2a41f57296b26433f9764c0df159f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 26/60] fix: errors writing compressed metadata lines are
 reported

---
 pkg/ocfl/helper.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index ef5b621..27e6121 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -485,31 +485,31 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 }
 
 func WriteJsonL(object Object, name string, brotliData []byte, compress, storageType, storageName string, fsys fs.FS) error {
-	var bufReader = bytes.NewBuffer(brotliData)
 	var ext string
-	var reader io.Reader
+	var data = brotliData
+	var err error
 	switch compress {
 	case "brotli":
 		ext = ".br"
-		reader = bufReader
-	case "gzip":
-		ext = ".gz"
-		brotliReader := brotli.NewReader(bufReader)
-		pr, pw := io.Pipe()
-		go func() {
-			defer pw.Close()
-			gzipWriter := gzip.NewWriter(pw)
-			defer gzipWriter.Close()
-			if _, err := io.Copy(gzipWriter, brotliReader); err != nil {
-				pw.CloseWithError(errors.Wrapf(err, "error on gzip compressor"))
-			}
-		}()
-		reader = pr
-	case "none":
-		reader = brotli.NewReader(bufReader)
+	case "gzip", "none":
+		if data, err = io.ReadAll(brotli.NewReader(bytes.NewReader(brotliData))); err != nil {
+			return errors.Wrap(err, "cannot decompress brotli data")
+		}
 	default:
 		return errors.Errorf("invalid compression '%s'", compress)
 	}
+	if compress == "gzip" {
+		ext = ".gz"
+		var buffer bytes.Buffer
+		gzipWriter := gzip.NewWriter(&buffer)
+		if _, err := gzipWriter.Write(data); err != nil {
+			return errors.Wrap(err, "error on gzip compressor")
+		}
+		if err := gzipWriter.Close(); err != nil {
+			return errors.Wrap(err, "cannot close gzip compressor")
+		}
+		data = buffer.Bytes()
+	}
 
 	head := object.GetInventory().GetHead()
 	switch strings.ToLower(storageType) {
@@ -518,7 +518,7 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		if err != nil {
 			return errors.WithStack(err)
 		}
-		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, area, true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewReader(data)), []string{targetname}, area, true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
@@ -527,10 +527,13 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
 		}
-		defer fp.Close()
-		if _, err := io.Copy(fp, reader); err != nil {
+		if _, err := fp.Write(data); err != nil {
+			_ = fp.Close()
 			return errors.Wrapf(err, "cannot write '%v/%s'", fsys, targetname)
 		}
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close '%v/%s'", fsys, targetname)
+		}
 	default:
 		return errors.Errorf("unsupported storage type '%s'", storageType)
 	}
-- 
2.43.0


From c2db56348a0399562a039af1cd5d8106edeeb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 27/60] fix: unreadable extension configurations are an error,
 not an unsupported extension

---
 pkg/ocfl/extensionFactory.go | 44 +++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index c2cbf23..31e7b39 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"github.com/je4/gocfl/v2/version"
 	"github.com/je4/utils/v2/pkg/zLogger"
+	"io"
 	"io/fs"
 )
 
@@ -74,6 +75,42 @@ func (f *ExtensionFactory) create(fsys fs.FS, data []byte) (Extension, error) {
 	return ext, nil
 }
 
+// readErrorFS remembers that an existing file could not be read
+type readErrorFS struct {
+	fs.FS
+	err error
+}
+
+func (fsys *readErrorFS) check(err error) error {
+	if err != nil && err != io.EOF && !errors.Is(err, fs.ErrNotExist) {
+		fsys.err = err
+	}
+	return err
+}
+
+func (fsys *readErrorFS) Open(name string) (fs.File, error) {
+	fp, err := fsys.FS.Open(name)
+	if fsys.check(err) != nil {
+		return nil, err
+	}
+	return &readErrorFile{File: fp, fsys: fsys}, nil
+}
+
+func (fsys *readErrorFS) ReadFile(name string) ([]byte, error) {
+	data, err := fs.ReadFile(fsys.FS, name)
+	return data, fsys.check(err)
+}
+
+type readErrorFile struct {
+	fs.File
+	fsys *readErrorFS
+}
+
+func (fp *readErrorFile) Read(data []byte) (int, error) {
+	n, err := fp.File.Read(data)
+	return n, fp.fsys.check(err)
+}
+
 func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (ExtensionManager, error) {
 	var errs = []error{}
 	files, err := fs.ReadDir(fsys, ".")
@@ -92,8 +129,13 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 			return nil, errors.Wrapf(err, "cannot create subFS %s", file.Name())
 		}
 
-		ext, err := f.Create(sub)
+		configFS := &readErrorFS{FS: sub}
+		ext, err := f.Create(configFS)
 		if err != nil {
+			// not being able to read the configuration does not mean that the extension is not supported
+			if configFS.err != nil {
+				return nil, errors.Wrapf(configFS.err, "cannot read extension '%s'", fName)
+			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
 			if validation != nil {
 				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
-- 
2.43.0


From 55b4ff77c2c39f3d25a02a5d1bb6ac56c061afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 28/60] fix: interrupted updates cannot damage existing
 objects: unchanged extension configs stay untouched, root inventory written
 last, half-written versions and damaged sidecars refuse updates

---
 pkg/extension/NNNN-metafile.go |  2 +-
 pkg/extension/config.go        | 12 +++++++++++-
 pkg/ocfl/objectbase.go         | 29 +++++++++++++++++++++++++----
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index a89b94a..a4edb4f 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -155,7 +155,7 @@ func (sl *MetaFile) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	if _, err := writefs.WriteFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
+	if err := writeConfigFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
 		return errors.Wrapf(err, "cannot write schema to %v/%s", sl.fsys, sl.MetaSchema)
 	}
 	return writeJSON(sl.fsys, "config.json", sl.MetaFileConfig)
diff --git a/pkg/extension/config.go b/pkg/extension/config.go
index 9340b17..6a09d06 100644
--- a/pkg/extension/config.go
+++ b/pkg/extension/config.go
@@ -1,6 +1,7 @@
 package extension
 
 import (
+	"bytes"
 	"emperror.dev/errors"
 	"encoding/json"
 	"github.com/je4/filesystem/v3/pkg/writefs"
@@ -19,11 +20,20 @@ func writeJSON(fsys fs.FS, name string, value any) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot encode '%s'", name)
 	}
+	return writeConfigFile(fsys, name, append(data, '\n'))
+}
+
+// writeConfigFile stores data in the file name. A file which already has this content is not touched, so that an
+// interrupted update does not damage the configuration of existing versions
+func writeConfigFile(fsys fs.FS, name string, data []byte) error {
+	if current, err := fs.ReadFile(fsys, name); err == nil && bytes.Equal(current, data) {
+		return nil
+	}
 	fp, err := writefs.Create(fsys, name)
 	if err != nil {
 		return errors.Wrapf(err, "cannot open '%s'", name)
 	}
-	if _, err := fp.Write(append(data, '\n')); err != nil {
+	if _, err := fp.Write(data); err != nil {
 		_ = fp.Close()
 		return errors.Wrapf(err, "cannot write '%s'", name)
 	}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index c2f918f..3303352 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -43,6 +43,7 @@ type ObjectBase struct {
 	updateAreas        []string
 	contentPaths       map[string]bool
 	area               string
+	sidecarErr         error // why the inventory in the object root cannot be trusted
 }
 
 // newObjectBase creates an empty ObjectBase structure
@@ -306,8 +307,10 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 
 	// check digest for inventory
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
+	var sidecarErr error
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
+		sidecarErr = errors.Wrapf(err, "cannot read '%s'", sidecarPath)
 		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
@@ -319,6 +322,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 		//if !strings.HasSuffix(digestString, " inventory.json") {
 		matches := inventorySideCarFormat.FindStringSubmatch(digestString)
 		if /* matches == nil || */ len(matches) == 0 {
+			sidecarErr = errors.Errorf("invalid content of '%s'", sidecarPath)
 			object.addValidationError(E061, "no suffix \" inventory.json\" in '%v/%s'", object.fsys, sidecarPath)
 		} else {
 			//digestString = strings.TrimSpace(strings.TrimSuffix(digestString, " inventory.json"))
@@ -332,10 +336,14 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
 			if !strings.EqualFold(digestString, inventoryDigestString) {
+				sidecarErr = errors.Errorf("digest of '%s' differs from '%s'", filename, sidecarPath)
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
 		}
 	}
+	if folder == "." {
+		object.sidecarErr = sidecarErr
+	}
 	return inventory, nil
 }
 
@@ -552,12 +560,13 @@ func (object *ObjectBase) Close() error {
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
 	}
-	if err := object.StoreInventory(false, true); err != nil {
-		return errors.Wrap(err, "cannot store inventory")
-	}
+	// the inventory in the object root completes the version, so everything else has to be there before
 	if err := object.StoreExtensions(); err != nil {
 		return errors.Wrap(err, "cannot store extensions")
 	}
+	if err := object.StoreInventory(false, true); err != nil {
+		return errors.Wrap(err, "cannot store inventory")
+	}
 	return nil
 }
 
@@ -568,6 +577,10 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	object.updateAreas = []string{}
 	object.contentPaths = map[string]bool{}
 
+	if object.sidecarErr != nil {
+		return nil, errors.Wrapf(object.sidecarErr, "inventory of object '%s' is damaged", object.GetID())
+	}
+
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
@@ -577,6 +590,10 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	if err := object.i.NewVersion(msg, UserName, UserAddress); err != nil {
 		return nil, errors.Wrap(err, "cannot create new object version")
 	}
+	// remains of an interrupted update must not become part of the new version
+	if _, err := fs.Stat(object.fsys, object.i.GetHead()); err == nil {
+		return nil, errors.Errorf("folder '%s' of the new version of object '%s' already exists", object.i.GetHead(), object.GetID())
+	}
 	if err := object.extensionManager.UpdateObjectBefore(object); err != nil {
 		return nil, errors.Wrapf(err, "cannot execute ext.UpdateObjectBefore()")
 	}
@@ -747,7 +764,11 @@ func (object *ObjectBase) pruneContent() error {
 			}
 			// folders which are empty now
 			for dir := path.Dir(contentPath); strings.HasPrefix(dir+"/", prefix); dir = path.Dir(dir) {
-				if entries, err := fs.ReadDir(object.fsys, dir); err != nil || len(entries) > 0 {
+				entries, err := fs.ReadDir(object.fsys, dir)
+				if err != nil && !errors.Is(err, fs.ErrNotExist) {
+					return errors.Wrapf(err, "cannot read folder '%v/%s'", object.fsys, dir)
+				}
+				if err != nil || len(entries) > 0 {
 					break
 				}
 				if err := writefs.Remove(object.fsys, dir); err != nil {
-- 
2.43.0


From 38f94907f9af409d15341b616b67fc83e25c37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 29/60] fix: close extension docs of the storage root if they
 cannot be written

---
 pkg/ocfl/storagerootbase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 901ccac..2ad31d0 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -122,6 +122,7 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 			return errors.Wrapf(err, "cannot create extension doc %s", extDoc.Name())
 		}
 		if _, err := extDocFile.Write(extDocFileContent); err != nil {
+			_ = extDocFile.Close()
 			return errors.Wrapf(err, "cannot write extension doc %s", extDoc.Name())
 		}
 		if err := extDocFile.Close(); err != nil {
-- 
2.43.0


From 0475abb2cc101baadae7ac8d20291bf76e80c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 30/60] fix: nothing is written outside of the object: content
 directory, rename targets and extension file names are checked; metafile
 schema urls may carry a fragment

---
 pkg/extension/NNNN-metafile.go  |  7 ++++++-
 pkg/extension/NNNN-mets.go      |  7 ++++++-
 pkg/extension/NNNN-thumbnail.go |  3 +++
 pkg/ocfl/helper.go              |  3 +++
 pkg/ocfl/objectbase.go          | 20 +++++++++++++++-----
 5 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index a4edb4f..fbdecd5 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -90,7 +90,9 @@ func NewMetaFile(config *MetaFileConfig, schema []byte) (*MetaFile, error) {
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
-	sl.compiledSchema, err = jsonschema.CompileString(sl.MetaSchemaUrl, string(sl.schema))
+	// a fragment is not part of the resource name
+	schemaUrl, _, _ := strings.Cut(sl.MetaSchemaUrl, "#")
+	sl.compiledSchema, err = jsonschema.CompileString(schemaUrl, string(sl.schema))
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot compile schema")
 	}
@@ -337,6 +339,9 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		}
 	case "extension":
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(sl.StorageName, sl.MetaName)), "/")
+		if err := ocfl.CheckPath(filepath.ToSlash(filepath.Clean(targetname))); err != nil {
+			return errors.Wrapf(err, "cannot write file '%v/%s'", sl.fsys, targetname)
+		}
 		if _, err := writefs.WriteFile(sl.fsys, targetname, infoData); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", sl.fsys, targetname)
 		}
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index e9e76e8..e150087 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -1332,10 +1332,15 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	case "extension":
 		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		for _, name := range []string{metsName, premisName} {
+			if err := ocfl.CheckPath(name); err != nil {
+				return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, name)
+			}
+		}
 		if _, err := writefs.WriteFile(me.fsys, metsName, metsBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, metsName)
 		}
-		if _, err := writefs.WriteFile(me.fsys, premisName, metsBytes); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, premisName, premisBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, premisName)
 		}
 		if _, err := writefs.WriteFile(me.fsys, "schemas/mets.xsd", specs.METSXSD); err != nil {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 1e7f9a4..1a75a5a 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -202,6 +202,9 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 		}
 		return targetname, digest, nil
 	case "extension":
+		if err := ocfl.CheckPath(filepath.ToSlash(filepath.Clean(targetName))); err != nil {
+			return "", "", errors.Wrapf(err, "cannot create file '%s/%s'", thumb.fsys, targetName)
+		}
 		fp, err := writefs.Create(thumb.fsys, targetName)
 		if err != nil {
 			return "", "", errors.Wrapf(err, "cannot create file '%s/%s'", thumb.fsys, targetName)
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 27e6121..c0f4d54 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -523,6 +523,9 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		}
 	case "extension":
 		targetname := strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, head, ext), "/")
+		if err := CheckPath(filepath.ToSlash(filepath.Clean(targetname))); err != nil {
+			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
+		}
 		fp, err := writefs.Create(fsys, targetname)
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 3303352..792a0c2 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -807,8 +807,8 @@ func (object *ObjectBase) checkLogicalPaths() error {
 	return nil
 }
 
-// checkPath refuses paths which lead outside the object or cannot be stored in the inventory
-func checkPath(name string) error {
+// CheckPath refuses paths which lead outside the object or cannot be stored in the inventory
+func CheckPath(name string) error {
 	if !utf8.ValidString(name) {
 		return errors.Errorf("path '%+q' is not valid utf-8", name)
 	}
@@ -887,14 +887,14 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 		ExternalPaths: []string{},
 	}
 	for _, file := range files {
-		if err := checkPath(file); err != nil {
+		if err := CheckPath(file); err != nil {
 			return nil, errors.WithStack(err)
 		}
 		externalPath, err := object.extensionManager.BuildObjectStatePath(object, file, area)
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot create virtual filename for '%s'", file)
 		}
-		if err := checkPath(externalPath); err != nil {
+		if err := CheckPath(externalPath); err != nil {
 			return nil, errors.Wrapf(err, "invalid virtual filename for '%s'", file)
 		}
 		result.ExternalPaths = append(result.ExternalPaths, externalPath)
@@ -903,10 +903,17 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create manifest path for '%s'", files[0])
 	}
-	if err := checkPath(result.InternalPath); err != nil {
+	if err := CheckPath(result.InternalPath); err != nil {
 		return nil, errors.Wrapf(err, "invalid manifest path for '%s'", files[0])
 	}
 	result.ManifestPath = object.i.BuildManifestName(result.InternalPath)
+	// the content directory is part of the inventory and must not lead elsewhere
+	if contentDir := object.i.GetContentDir(); contentDir == "." || contentDir == ".." || strings.Contains(contentDir, "/") {
+		return nil, errors.Errorf("invalid content directory '%s'", contentDir)
+	}
+	if err := CheckPath(result.ManifestPath); err != nil {
+		return nil, errors.Wrapf(err, "invalid manifest path for '%s'", files[0])
+	}
 	return result, nil
 }
 
@@ -1172,6 +1179,9 @@ func (object *ObjectBase) RenameFile(virtualFilenameSource, virtualFilenameDest
 		object.logger.Debug().Msgf("'%s' [%s] not in archive - ignoring", virtualFilenameSource, digest)
 		return nil
 	}
+	if err := CheckPath(virtualFilenameDest); err != nil {
+		return errors.Wrapf(err, "cannot rename '%s'", virtualFilenameSource)
+	}
 	if err := object.i.RenameFile(virtualFilenameSource, virtualFilenameDest); err != nil {
 		return errors.Wrapf(err, "cannot delete '%s'", virtualFilenameSource)
 	}
-- 
2.43.0


From c9990177de7dac269824604862727514aa7b070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 31/60] fix: an update without changes creates no folders in
 the object

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 3 ++-
 pkg/ocfl/objectbase.go                        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 8c58255..75931fe 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -175,7 +175,8 @@ func (e errorFS) Open(name string) (fs.File, error) {
 func subFS(fsys fs.FS, name string, create bool) fs.FS {
 	extFS, err := fs.Sub(fsys, name)
 	if err != nil && create && errors.Is(err, fs.ErrNotExist) {
-		extFS, err = writefs.SubFSCreate(fsys, name)
+		// the folder is created with its first file
+		return writefs.NewSubFS(fsys, name)
 	}
 	if err != nil {
 		return errorFS{err: err}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 792a0c2..a9e4133 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -581,7 +581,7 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 		return nil, errors.Wrapf(object.sidecarErr, "inventory of object '%s' is damaged", object.GetID())
 	}
 
-	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
+	subfs, err := extensionsFS(object.fsys)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
 	}
-- 
2.43.0


From 29765db31627feb80fd30d4493f8c52c984d2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 32/60] fix: viewer requests use the object they have asked for
 instead of the one loaded last

---
 gocfl/cmd/display/server.go | 285 +++++++++++++-----------------------
 1 file changed, 99 insertions(+), 186 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 8b6231f..ae31b60 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -26,6 +26,7 @@ import (
 	"net/url"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -42,6 +43,7 @@ type Server struct {
 	accessLog      io.Writer
 	dataFS         fs.FS
 	storageRoot    ocfl.StorageRoot
+	mutex          sync.Mutex // guards object and metadata
 	object         ocfl.Object
 	metadata       *ocfl.ObjectMetadata
 	templateFS     fs.FS
@@ -148,6 +150,34 @@ func (s *Server) ListenAndServe(cert, key string) (err error) {
 	}
 }
 
+// load returns the object and its metadata. Requests are handled concurrently, and every one of them has to use the object it has asked for.
+func (s *Server) load(id string) (ocfl.Object, *ocfl.ObjectMetadata, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.object == nil || s.metadata == nil || s.object.GetID() != id {
+		object, err := s.storageRoot.LoadObjectByID(id)
+		if err != nil {
+			return nil, nil, err
+		}
+		metadata, err := object.GetMetadata()
+		if err != nil {
+			return nil, nil, errors.Wrapf(err, "cannot get metadata for object %s", id)
+		}
+		s.object, s.metadata = object, metadata
+	}
+	return s.object, s.metadata, nil
+}
+
+// currentID returns the id of the last requested object
+func (s *Server) currentID() string {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.object == nil {
+		return ""
+	}
+	return s.object.GetID()
+}
+
 func (s *Server) downloadExtFile(c *gin.Context) {
 	var err error
 	type idParam struct {
@@ -176,28 +206,13 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, _, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 	pathStr := filepath.ToSlash(filepath.Join("extensions", iop.Extension, iop.Path))
-	fp, err := s.object.GetFS().Open(pathStr)
+	fp, err := object.GetFS().Open(pathStr)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
@@ -211,12 +226,12 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 
 	mimeReader, err := iou.NewMimeReader(fp)
 	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot instantiate mimereader for object %s - %s", s.object.GetID(), pathStr).Error()})
+		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot instantiate mimereader for object %s - %s", object.GetID(), pathStr).Error()})
 		return
 	}
 	contentType, err := mimeReader.DetectContentType()
 	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot detect content-type for object %s - %s", s.object.GetID(), pathStr).Error()})
+		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot detect content-type for object %s - %s", object.GetID(), pathStr).Error()})
 		return
 	}
 	c.DataFromReader(http.StatusOK, fi.Size(), contentType, mimeReader, map[string]string{})
@@ -239,34 +254,19 @@ func (s *Server) download(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
-	file, ok := s.metadata.Files[iop.Checksum]
+	file, ok := metadata.Files[iop.Checksum]
 	if !ok {
 		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Errorf("no file with checksum %s found", iop.Checksum).Error()})
 		return
 	}
 
-	fp, err := s.object.GetFS().Open(file.InternalName[0])
+	fp, err := object.GetFS().Open(file.InternalName[0])
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
@@ -298,28 +298,13 @@ func (s *Server) detail(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
-	file, ok := s.metadata.Files[iop.Checksum]
+	file, ok := metadata.Files[iop.Checksum]
 	if !ok {
 		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Errorf("no file with checksum %s found", iop.Checksum).Error()})
 		return
@@ -348,7 +333,7 @@ func (s *Server) detail(c *gin.Context) {
 
 	status := &detailStatus{
 		Checksum:        iop.Checksum,
-		DigestAlgorithm: s.metadata.DigestAlgorithm,
+		DigestAlgorithm: metadata.DigestAlgorithm,
 		InternalNames:   file.InternalName,
 		ExternalNames:   map[string][]*extFEntry{},
 		Fixity:          file.Checksums,
@@ -397,7 +382,7 @@ func (s *Server) detail(c *gin.Context) {
 	if extIndexer != nil {
 		iData, err := json.MarshalIndent(extIndexer.Metadata, "", "  ")
 		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot marshal indexer metadata for object %s", s.object.GetID()).Error()})
+			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot marshal indexer metadata for object %s", object.GetID()).Error()})
 			return
 		}
 		//	extIndexer.Metadata = nil
@@ -427,9 +412,9 @@ func (s *Server) detail(c *gin.Context) {
 
 	var params = map[string]any{
 		"title":  "Detail",
-		"id":     s.object.GetID(),
+		"id":     object.GetID(),
 		"status": status,
-		//		"metadata": s.metadata,
+		//		"metadata": metadata,
 		"file": file,
 	}
 
@@ -439,10 +424,7 @@ func (s *Server) detail(c *gin.Context) {
 
 func (s *Server) dashboard(c *gin.Context) {
 
-	var id string
-	if s.object != nil {
-		id = s.object.GetID()
-	}
+	id := s.currentID()
 	c.HTML(http.StatusOK, "object.gohtml", gin.H{
 		"title": "gocfl",
 		"id":    id,
@@ -451,10 +433,7 @@ func (s *Server) dashboard(c *gin.Context) {
 
 func (s *Server) storageroot(c *gin.Context) {
 
-	var id string
-	if s.object != nil {
-		id = s.object.GetID()
-	}
+	id := s.currentID()
 
 	if s.storageRoot == nil {
 		c.JSON(http.StatusInternalServerError, "no storage root loaded")
@@ -491,25 +470,10 @@ func (s *Server) manifest(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
 	type fEntry struct {
@@ -522,7 +486,7 @@ func (s *Server) manifest(c *gin.Context) {
 	var files = map[string]*fEntry{}
 	var filenames = []string{}
 
-	for checksum, file := range s.metadata.Files {
+	for checksum, file := range metadata.Files {
 		extMigrationAny, _ := file.Extension[extension.MigrationName]
 		var extMigration *extension.MigrationResult
 		if extMigrationAny != nil {
@@ -554,8 +518,8 @@ func (s *Server) manifest(c *gin.Context) {
 
 	var params = map[string]any{
 		"title":     "Manifest",
-		"id":        s.object.GetID(),
-		"versions":  s.metadata.Versions,
+		"id":        object.GetID(),
+		"versions":  metadata.Versions,
 		"files":     files,
 		"filenames": filenames,
 	}
@@ -581,25 +545,10 @@ func (s *Server) version(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
 	type fEntry struct {
@@ -616,7 +565,7 @@ func (s *Server) version(c *gin.Context) {
 	var files = map[string]*fEntry{}
 	var filenames = []string{}
 
-	for checksum, file := range s.metadata.Files {
+	for checksum, file := range metadata.Files {
 		extMigrationAny, _ := file.Extension[extension.MigrationName]
 		var extMigration *extension.MigrationResult
 		if extMigrationAny != nil {
@@ -666,8 +615,8 @@ func (s *Server) version(c *gin.Context) {
 
 	var params = map[string]any{
 		"title":     "Version",
-		"id":        s.object.GetID(),
-		"versions":  s.metadata.Versions,
+		"id":        object.GetID(),
+		"versions":  metadata.Versions,
 		"files":     files,
 		"filenames": filenames,
 		"version":   iop.Version,
@@ -692,28 +641,12 @@ func (s *Server) loadObjectID(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot unescape '%s'", iop.ID).Error()})
 		return
 	}
-	if s.object != nil && s.object.GetID() == iop.ID {
-		// already loaded
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
-	s.displayObject(c)
+	s.displayObject(c, object, metadata)
 }
 
 func (s *Server) loadObjectPath(c *gin.Context) {
@@ -726,23 +659,18 @@ func (s *Server) loadObjectPath(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	s.object, err = s.storageRoot.LoadObjectByFolder(strings.Trim(iop.Path, "/"))
+	object, err := s.storageRoot.LoadObjectByFolder(strings.Trim(iop.Path, "/"))
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	s.metadata, err = s.object.GetMetadata()
-	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-		return
-	}
-	c.Redirect(http.StatusPermanentRedirect, s.urlExt.String()+fmt.Sprintf("/object/id/%s", url.PathEscape(s.object.GetID())))
+	c.Redirect(http.StatusPermanentRedirect, s.urlExt.String()+fmt.Sprintf("/object/id/%s", url.PathEscape(object.GetID())))
 	//	s.displayObject(c)
 }
 
-func (s *Server) displayObject(c *gin.Context) {
+func (s *Server) displayObject(c *gin.Context, object ocfl.Object, metadata *ocfl.ObjectMetadata) {
 
-	if s.metadata == nil {
+	if metadata == nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": "no metadata loaded"})
 		return
 	}
@@ -751,7 +679,7 @@ func (s *Server) displayObject(c *gin.Context) {
 	var noSizeFiles int
 	var mimeTypes = make(map[string]int)
 	var pronoms = make(map[string]int)
-	for _, v := range s.metadata.Files {
+	for _, v := range metadata.Files {
 		numFiles += len(v.InternalName)
 		_fs, _ := v.Extension[extension.FilesystemName]
 		_idx, _ := v.Extension[extension.IndexerName]
@@ -793,9 +721,9 @@ func (s *Server) displayObject(c *gin.Context) {
 	}
 	var params = map[string]any{
 		"title":          "gocfl",
-		"id":             s.object.GetID(),
-		"versions":       s.metadata.Versions,
-		"differentFiles": len(s.metadata.Files),
+		"id":             object.GetID(),
+		"versions":       metadata.Versions,
+		"differentFiles": len(metadata.Files),
 		"numFiles":       numFiles,
 		"size":           humanize.Bytes(size),
 		"noSizeFiles":    noSizeFiles,
@@ -824,34 +752,19 @@ func (s *Server) report(c *gin.Context) {
 	}
 	full := c.DefaultQuery("full", "none") != "none"
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
-	if s.metadata == nil {
+	if metadata == nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": "no metadata loaded"})
 		return
 	}
 
-	extManager := s.object.GetExtensionManager()
-	inventory := s.object.GetInventory()
+	extManager := object.GetExtensionManager()
+	inventory := object.GetInventory()
 
 	type mimeCount struct {
 		SizeStr string
@@ -864,7 +777,7 @@ func (s *Server) report(c *gin.Context) {
 	var mimeTypes = make(map[string]*mimeCount)
 	var pronoms = make(map[string]*mimeCount)
 	var videoSecs uint
-	for _, v := range s.metadata.Files {
+	for _, v := range metadata.Files {
 		numFiles += len(v.InternalName)
 		_fs, _ := v.Extension[extension.FilesystemName]
 		_idx, _ := v.Extension[extension.IndexerName]
@@ -923,7 +836,7 @@ func (s *Server) report(c *gin.Context) {
 	}
 
 	var objectpath string
-	if fsStringer, ok := s.object.GetFS().(fmt.Stringer); ok {
+	if fsStringer, ok := object.GetFS().(fmt.Stringer); ok {
 		objectpath = fsStringer.String()
 	}
 
@@ -965,16 +878,16 @@ func (s *Server) report(c *gin.Context) {
 			path = ""
 		}
 		fname := filepath.ToSlash(filepath.Join(path, metafileCfg.MetaName))
-		mPath, err := extManager.BuildObjectManifestPath(s.object, fname, area)
+		mPath, err := extManager.BuildObjectManifestPath(object, fname, area)
 		if err != nil {
 			c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot map %s:%s", area, fname).Error()})
 			return
 		}
 
 		// search for info file
-		for ver, _ := range s.metadata.Versions {
+		for ver, _ := range metadata.Versions {
 			fullpath := filepath.ToSlash(filepath.Join(ver, "content", mPath))
-			jsonData, err := fs.ReadFile(s.object.GetFS(), fullpath)
+			jsonData, err := fs.ReadFile(object.GetFS(), fullpath)
 			if err == nil && len(jsonData) > 0 {
 				infoBytes = jsonData
 			}
@@ -1029,7 +942,7 @@ func (s *Server) report(c *gin.Context) {
 		addToTree(parts[1:], newEdge)
 	}
 
-	for _, file := range s.metadata.Files {
+	for _, file := range metadata.Files {
 		for _, files := range file.VersionName {
 			for _, filename := range files {
 				filenames = append(filenames, filename)
@@ -1065,10 +978,10 @@ func (s *Server) report(c *gin.Context) {
 
 	var files = map[string]*ocfl.FileMetadata{}
 	if full {
-		files = s.metadata.Files
+		files = metadata.Files
 	}
 	var filesNoData int64
-	for _, file := range s.metadata.Files {
+	for _, file := range metadata.Files {
 		if file.Extension[extension.IndexerName] == nil && file.Extension[extension.FilesystemName] == nil {
 			filesNoData++
 		}
@@ -1078,9 +991,9 @@ func (s *Server) report(c *gin.Context) {
 		"objectpath":     objectpath,
 		"gocfl":          "gocfl",
 		"head":           inventory.GetHead(),
-		"id":             s.object.GetID(),
-		"versions":       s.metadata.Versions,
-		"differentFiles": len(s.metadata.Files),
+		"id":             object.GetID(),
+		"versions":       metadata.Versions,
+		"differentFiles": len(metadata.Files),
 		"numFiles":       numFiles,
 		"filesNoData":    filesNoData,
 		"size":           size,
-- 
2.43.0


From 7c455210f1c5924307832102c1589358edc7beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 33/60] fix: viewer: path parameters are unescaped once and
 cannot leave the object or the storage root; unknown versions are errors

---
 data/displaydata/templates/detail.gohtml      |  4 +-
 data/displaydata/templates/storageroot.gohtml |  2 +-
 gocfl/cmd/display/server.go                   | 42 ++++++++++++++++---
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/data/displaydata/templates/detail.gohtml b/data/displaydata/templates/detail.gohtml
index 1dab23e..f7af5b2 100644
--- a/data/displaydata/templates/detail.gohtml
+++ b/data/displaydata/templates/detail.gohtml
@@ -170,7 +170,7 @@
                     <tr>
                         <td>{{ $ver }}</td>
                         <td>
-                            <a download="{{ basename $name.Name }}" href="../download/{{ $status.Checksum }}/{{ basename $name.Name }}" target="_blank">
+                            <a download="{{ basename $name.Name }}" href="../download/{{ $status.Checksum }}/{{ basename $name.Name | PathEscape }}" target="_blank">
                                 {{ $name.Name }}
                             </a>
                         </td>
@@ -229,7 +229,7 @@
                         <td class="table-active text-end"><strong>Image ({{ $status.Thumbnail.Filename }})</strong></td>
                         {{- $imgUrl := "" }}
                         {{- if eq $status.Thumbnail.StorageType "extension" }}
-                            {{- $imgUrl = printf "../extension/NNNN-thumbnail/download/%s" $status.Thumbnail.Filename }}"
+                            {{- $imgUrl = printf "../extension/NNNN-thumbnail/download/%s" $status.Thumbnail.Filename }}
                         {{- else }}
                             {{- $imgUrl = printf "../download/%s/%s" $status.Thumbnail.ThumbDigest (basename $status.Thumbnail.Filename) }}
                         {{- end }}
diff --git a/data/displaydata/templates/storageroot.gohtml b/data/displaydata/templates/storageroot.gohtml
index 01e9de4..4261e40 100644
--- a/data/displaydata/templates/storageroot.gohtml
+++ b/data/displaydata/templates/storageroot.gohtml
@@ -97,7 +97,7 @@
             </a>
             <div class="list-group list-group-flush border-bottom scrollarea">
                 {{ range $folder :=  .folders }}
-                <a href="/object/folder/{{ $folder }}" class="list-group-item list-group-item-action py-3 lh-tight">
+                <a href="/object/folder/{{ $folder | PathEscape }}" class="list-group-item list-group-item-action py-3 lh-tight">
                     <div class="d-flex w-100 align-items-center justify-content-between">
                         <strong class="mb-1">{{ $folder }}</strong>
                         <!-- <small class="text-muted">Tues</small> -->
diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index ae31b60..5a2e1aa 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -24,6 +24,7 @@ import (
 	"net"
 	"net/http"
 	"net/url"
+	"path"
 	"path/filepath"
 	"strings"
 	"sync"
@@ -127,9 +128,14 @@ func (s *Server) ListenAndServe(cert, key string) (err error) {
 
 	route.StaticFS("/static", http.FS(s.dataFS))
 
+	handler := route.Handler()
 	s.srv = &http.Server{
-		Addr:    net.JoinHostPort(s.host, s.port),
-		Handler: route.Handler(),
+		Addr: net.JoinHostPort(s.host, s.port),
+		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			// the parameters are unescaped by the handlers, so they always have to see the escaped path
+			r.URL.RawPath = r.URL.EscapedPath()
+			handler.ServeHTTP(w, r)
+		}),
 	}
 
 	if cert == "auto" || key == "auto" {
@@ -211,7 +217,12 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	pathStr := filepath.ToSlash(filepath.Join("extensions", iop.Extension, iop.Path))
+	extPath := strings.TrimLeft(iop.Path, "/")
+	if strings.Contains(iop.Extension, "/") || !fs.ValidPath(iop.Extension) || iop.Extension == "." || !fs.ValidPath(extPath) {
+		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Sprintf("invalid path '%s' of extension '%s'", iop.Path, iop.Extension)})
+		return
+	}
+	pathStr := path.Join("extensions", iop.Extension, extPath)
 	fp, err := object.GetFS().Open(pathStr)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
@@ -223,6 +234,10 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
+	if fi.IsDir() {
+		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Sprintf("'%s' is not a file", pathStr)})
+		return
+	}
 
 	mimeReader, err := iou.NewMimeReader(fp)
 	if err != nil {
@@ -490,7 +505,7 @@ func (s *Server) manifest(c *gin.Context) {
 		extMigrationAny, _ := file.Extension[extension.MigrationName]
 		var extMigration *extension.MigrationResult
 		if extMigrationAny != nil {
-			extMigration = extMigrationAny.(*extension.MigrationResult)
+			extMigration, _ = extMigrationAny.(*extension.MigrationResult)
 		}
 		extIndexerAny, _ := file.Extension[extension.IndexerName]
 		var extIndexer *indexer.ResultV2
@@ -551,6 +566,11 @@ func (s *Server) version(c *gin.Context) {
 		return
 	}
 
+	if _, ok := metadata.Versions[iop.Version]; !ok {
+		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Sprintf("no version %s in object %s", iop.Version, iop.ID)})
+		return
+	}
+
 	type fEntry struct {
 		CTime     string
 		Size      string
@@ -569,7 +589,7 @@ func (s *Server) version(c *gin.Context) {
 		extMigrationAny, _ := file.Extension[extension.MigrationName]
 		var extMigration *extension.MigrationResult
 		if extMigrationAny != nil {
-			extMigration = extMigrationAny.(*extension.MigrationResult)
+			extMigration, _ = extMigrationAny.(*extension.MigrationResult)
 		}
 		extIndexerAny, _ := file.Extension[extension.IndexerName]
 		var extIndexer *indexer.ResultV2
@@ -659,7 +679,17 @@ func (s *Server) loadObjectPath(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	object, err := s.storageRoot.LoadObjectByFolder(strings.Trim(iop.Path, "/"))
+	iop.Path, err = url.PathUnescape(iop.Path)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot unescape '%s'", iop.Path).Error()})
+		return
+	}
+	folder := strings.Trim(iop.Path, "/")
+	if !fs.ValidPath(folder) {
+		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Sprintf("invalid object folder '%s'", iop.Path)})
+		return
+	}
+	object, err := s.storageRoot.LoadObjectByFolder(folder)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
-- 
2.43.0


From 3ffae0e840b939c6c668229c5767f3695e57be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 34/60] fix: viewer delivers extension files of less than 512
 bytes

---
 gocfl/cmd/display/server.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 5a2e1aa..0842d24 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -1,6 +1,7 @@
 package display
 
 import (
+	"bufio"
 	"context"
 	"crypto/tls"
 	"emperror.dev/emperror"
@@ -16,7 +17,6 @@ import (
 	"github.com/je4/indexer/v3/pkg/indexer"
 	dcert "github.com/je4/utils/v2/pkg/cert"
 	"github.com/je4/utils/v2/pkg/checksum"
-	iou "github.com/je4/utils/v2/pkg/io"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"html/template"
 	"io"
@@ -239,17 +239,14 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		return
 	}
 
-	mimeReader, err := iou.NewMimeReader(fp)
-	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot instantiate mimereader for object %s - %s", object.GetID(), pathStr).Error()})
-		return
-	}
-	contentType, err := mimeReader.DetectContentType()
-	if err != nil {
+	// content type of the first 512 bytes
+	reader := bufio.NewReader(fp)
+	head, err := reader.Peek(512)
+	if err != nil && !errors.Is(err, io.EOF) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot detect content-type for object %s - %s", object.GetID(), pathStr).Error()})
 		return
 	}
-	c.DataFromReader(http.StatusOK, fi.Size(), contentType, mimeReader, map[string]string{})
+	c.DataFromReader(http.StatusOK, fi.Size(), http.DetectContentType(head), reader, map[string]string{})
 }
 
 func (s *Server) download(c *gin.Context) {
-- 
2.43.0


From 2ffd3d306a9058e8338f7c754292a403dfeb1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 35/60] fix: viewer's report shows the newest metadata
 document, wherever it is stored

---
 gocfl/cmd/display/server.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 0842d24..d260dbc 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -885,7 +885,7 @@ func (s *Server) report(c *gin.Context) {
 	}
 
 	var infoBytes []byte
-	if metafileCfg.StorageType == "extension" {
+	if strings.ToLower(metafileCfg.StorageType) == "extension" {
 		fsys, err := extManager.GetFSName(extension.MetaFileName)
 		if err != nil {
 			c.JSON(http.StatusInternalServerError, gin.H{"error": err.Error()})
@@ -893,14 +893,14 @@ func (s *Server) report(c *gin.Context) {
 		}
 		infoname := strings.TrimLeft(filepath.ToSlash(filepath.Join(metafileCfg.StorageName, metafileCfg.MetaName)), "/")
 		infoBytes, err = fs.ReadFile(fsys, infoname)
-		if err != nil {
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
 			c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot open %v/%s", fsys, infoname).Error()})
 			return
 		}
 	} else {
 		area := "content"
 		path := metafileCfg.StorageName
-		if metafileCfg.StorageType == "area" {
+		if strings.ToLower(metafileCfg.StorageType) == "area" {
 			area = metafileCfg.StorageName
 			path = ""
 		}
@@ -911,9 +911,9 @@ func (s *Server) report(c *gin.Context) {
 			return
 		}
 
-		// search for info file
-		for ver, _ := range metadata.Versions {
-			fullpath := filepath.ToSlash(filepath.Join(ver, "content", mPath))
+		// search for newest info file
+		for _, ver := range inventory.GetVersionStrings() {
+			fullpath := filepath.ToSlash(filepath.Join(ver, inventory.GetContentDir(), mPath))
 			jsonData, err := fs.ReadFile(object.GetFS(), fullpath)
 			if err == nil && len(jsonData) > 0 {
 				infoBytes = jsonData
-- 
2.43.0


From 534862e2a17f41baed9c0bb610ed377ef74f1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 36/60] fix: default configuration enables the xml indexer
 action the default object extensions need

add and create failed with "action 'xml' not configured" when used without a
configuration file and extension folders.
---
 config/default.toml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/default.toml b/config/default.toml
index 2b1db67..960c39c 100644
--- a/config/default.toml
+++ b/config/default.toml
@@ -74,6 +74,10 @@ LocalCache=false
 Enabled=true
 Digest=["sha512"]
 
+# the default extension NNNN-indexer uses the xml action
+[Indexer.XML]
+Enabled=true
+
 [Indexer.Siegfried]
 Enabled=true
 #Signature = "/usr/share/siegfried/default.sig"
-- 
2.43.0


From bd45c5e204786f2ddbae0602355ddffc3496f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 37/60] fix: failed update does not report "no errors found"

---
 gocfl/cmd/update.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gocfl/cmd/update.go b/gocfl/cmd/update.go
index 73a3c78..b07b67b 100644
--- a/gocfl/cmd/update.go
+++ b/gocfl/cmd/update.go
@@ -274,6 +274,7 @@ func doUpdate(cmd *cobra.Command, args []string) {
 	if err != nil {
 		logger.Error().Stack().Err(err).Msgf("cannot content to storageroot filesystem '%s'", destFS)
 		doNotClose = true
+		return
 	}
 	_ = showStatus(ctx, logger)
 
-- 
2.43.0


From 38ede078408bea01492bbc557e1c25f631a77642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 38/60] fix: create uses the configured OCFL version

The default value of the flag overruled the Init.OCFLVersion entry.
---
 gocfl/cmd/create.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gocfl/cmd/create.go b/gocfl/cmd/create.go
index 445ef02..ff02263 100644
--- a/gocfl/cmd/create.go
+++ b/gocfl/cmd/create.go
@@ -38,7 +38,7 @@ var createCmd = &cobra.Command{
 // initCreate initializes the gocfl create command
 func initCreate() {
 	createCmd.Flags().String("default-storageroot-extensions", "", "folder with initial extension configurations for new OCFL Storage Root")
-	createCmd.Flags().String("ocfl-version", "1.1", "ocfl version for new storage root")
+	createCmd.Flags().String("ocfl-version", "", "ocfl version for new storage root")
 	createCmd.Flags().StringVarP(&flagObjectID, "object-id", "i", "", "object id to update (required)")
 	createCmd.MarkFlagRequired("object-id")
 	createCmd.Flags().String("default-object-extensions", "", "folder with initial extension configurations for new OCFL objects")
-- 
2.43.0


From 52b0db48959be38a3f714c096bb05e05ce8a6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 39/60] fix: create applies the --default-area flag

---
 gocfl/cmd/create.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gocfl/cmd/create.go b/gocfl/cmd/create.go
index ff02263..d8da636 100644
--- a/gocfl/cmd/create.go
+++ b/gocfl/cmd/create.go
@@ -168,6 +168,9 @@ func doCreate(cmd *cobra.Command, args []string) {
 	}()
 
 	area := conf.DefaultArea
+	if str := getFlagString(cmd, "default-area"); str != "" {
+		area = str
+	}
 	if area == "" {
 		area = "content"
 	}
-- 
2.43.0


From 3a9fe9195a17d5e6f91863fde9cefa937ed4a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:39 +0000
Subject: [PATCH 40/60] fix: add and update resolve relative area paths as
 create does

---
 gocfl/cmd/add.go    | 7 ++++++-
 gocfl/cmd/update.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gocfl/cmd/add.go b/gocfl/cmd/add.go
index 270e438..adc95e2 100644
--- a/gocfl/cmd/add.go
+++ b/gocfl/cmd/add.go
@@ -227,7 +227,12 @@ func doAdd(cmd *cobra.Command, args []string) {
 			logger.Error().Msgf("no area given in areapath '%s'", args[i])
 			continue
 		}
-		areaPaths[matches[1]], err = fsFactory.Get(matches[2])
+		path, err := ocfl.Fullpath(matches[2])
+		if err != nil {
+			doNotClose = true
+			logger.Panic().Stack().Err(err).Msgf("cannot get fullpath for '%s'", matches[2])
+		}
+		areaPaths[matches[1]], err = fsFactory.Get(path)
 		if err != nil {
 			doNotClose = true
 			logger.Panic().Stack().Msgf("cannot get filesystem for '%s'", args[i])
diff --git a/gocfl/cmd/update.go b/gocfl/cmd/update.go
index b07b67b..20b58e5 100644
--- a/gocfl/cmd/update.go
+++ b/gocfl/cmd/update.go
@@ -184,7 +184,12 @@ func doUpdate(cmd *cobra.Command, args []string) {
 			logger.Error().Msgf("invalid areapath '%s'", args[i])
 			continue
 		}
-		areaPaths[matches[1]], err = fsFactory.Get(matches[2])
+		path, err := ocfl.Fullpath(matches[2])
+		if err != nil {
+			doNotClose = true
+			logger.Panic().Stack().Err(err).Msgf("cannot get fullpath for '%s'", matches[2])
+		}
+		areaPaths[matches[1]], err = fsFactory.Get(path)
 		if err != nil {
 			doNotClose = true
 			logger.Panic().Stack().Err(err).Msgf("cannot get filesystem for '%s'", args[i])
-- 
2.43.0


From bf74ab096860e9b4546ad11e35bfd6dcf2fe4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 41/60] fix: validate and stat open containers read-only

They left a copy of the container beside it and created an empty file when
the container did not exist.
---
 gocfl/cmd/stat.go     | 2 +-
 gocfl/cmd/validate.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gocfl/cmd/stat.go b/gocfl/cmd/stat.go
index 159904d..6b1a83e 100644
--- a/gocfl/cmd/stat.go
+++ b/gocfl/cmd/stat.go
@@ -128,7 +128,7 @@ func doStat(cmd *cobra.Command, args []string) {
 
 	logger.Info().Msgf("opening '%s'", ocflPath)
 
-	fsFactory, err := initializeFSFactory(nil, nil, nil, true, false, logger)
+	fsFactory, err := initializeFSFactory(nil, nil, nil, true, true, logger)
 	if err != nil {
 		logger.Error().Stack().Err(err).Msg("cannot create filesystem factory")
 		return
diff --git a/gocfl/cmd/validate.go b/gocfl/cmd/validate.go
index 6a3b4ef..f490423 100644
--- a/gocfl/cmd/validate.go
+++ b/gocfl/cmd/validate.go
@@ -95,7 +95,7 @@ func validate(cmd *cobra.Command, args []string) {
 		return
 	}
 
-	fsFactory, err := initializeFSFactory(nil, nil, nil, true, false, logger)
+	fsFactory, err := initializeFSFactory(nil, nil, nil, true, true, logger)
 	if err != nil {
 		logger.Error().Stack().Err(err).Msg("cannot create filesystem factory")
 		return
-- 
2.43.0


From 3ff6d0899aabb0575f20d5886e169cfd89a2db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 42/60] fix: add and update apply the AES and S3 configuration
 as init and create do

The encrypted copy of a container was not renewed with the container.
---
 gocfl/cmd/add.go    | 2 +-
 gocfl/cmd/update.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gocfl/cmd/add.go b/gocfl/cmd/add.go
index adc95e2..9d65740 100644
--- a/gocfl/cmd/add.go
+++ b/gocfl/cmd/add.go
@@ -191,7 +191,7 @@ func doAdd(cmd *cobra.Command, args []string) {
 		logger.Panic().Err(err).Msgf("cannot stat '%s'", srcPath)
 	}
 
-	fsFactory, err := initializeFSFactory([]checksum.DigestAlgorithm{conf.Add.Digest}, nil, nil, conf.Add.NoCompress, false, logger)
+	fsFactory, err := initializeFSFactory([]checksum.DigestAlgorithm{conf.Add.Digest}, conf.AES, conf.S3, conf.Add.NoCompress, false, logger)
 	if err != nil {
 		logger.Debug().Stack().Err(err)
 		logger.Panic().Err(err).Msg("cannot create filesystem factory")
diff --git a/gocfl/cmd/update.go b/gocfl/cmd/update.go
index 20b58e5..10a9e0f 100644
--- a/gocfl/cmd/update.go
+++ b/gocfl/cmd/update.go
@@ -149,7 +149,7 @@ func doUpdate(cmd *cobra.Command, args []string) {
 		logger.Panic().Stack().Err(err).Msgf("cannot stat '%s'", srcPath)
 	}
 
-	fsFactory, err := initializeFSFactory([]checksum.DigestAlgorithm{conf.Update.Digest}, nil, nil, conf.Update.NoCompress, false, logger)
+	fsFactory, err := initializeFSFactory([]checksum.DigestAlgorithm{conf.Update.Digest}, conf.AES, conf.S3, conf.Update.NoCompress, false, logger)
 	if err != nil {
 		logger.Panic().Stack().Err(err).Msg("cannot create filesystem factory")
 	}
-- 
2.43.0


From 9823b727af2ee55070e2fbc17d3fa231dd65d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 43/60] fix: add and update renew the existing checksum
 sidecars of a container

A sidecar of another algorithm than the one of the command kept the checksum
of the previous container.
---
 gocfl/cmd/add.go    |  2 +-
 gocfl/cmd/helper.go | 17 +++++++++++++++++
 gocfl/cmd/update.go |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/gocfl/cmd/add.go b/gocfl/cmd/add.go
index 9d65740..cd0f3e9 100644
--- a/gocfl/cmd/add.go
+++ b/gocfl/cmd/add.go
@@ -191,7 +191,7 @@ func doAdd(cmd *cobra.Command, args []string) {
 		logger.Panic().Err(err).Msgf("cannot stat '%s'", srcPath)
 	}
 
-	fsFactory, err := initializeFSFactory([]checksum.DigestAlgorithm{conf.Add.Digest}, conf.AES, conf.S3, conf.Add.NoCompress, false, logger)
+	fsFactory, err := initializeFSFactory(containerDigests(ocflPath, conf.Add.Digest), conf.AES, conf.S3, conf.Add.NoCompress, false, logger)
 	if err != nil {
 		logger.Debug().Stack().Err(err)
 		logger.Panic().Err(err).Msg("cannot create filesystem factory")
diff --git a/gocfl/cmd/helper.go b/gocfl/cmd/helper.go
index cfb42f2..39ebb89 100644
--- a/gocfl/cmd/helper.go
+++ b/gocfl/cmd/helper.go
@@ -23,7 +23,9 @@ import (
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"github.com/spf13/cobra"
 	"io/fs"
+	"os"
 	"path/filepath"
+	"strings"
 	"time"
 )
 
@@ -205,6 +207,21 @@ func initDefaultExtensions(extensionFactory *ocfl.ExtensionFactory, storageRootE
 	return
 }
 
+// containerDigests returns digest and the algorithms of the checksum sidecars
+// which already accompany the container, so that they are renewed with it
+func containerDigests(ocflPath string, digest checksum.DigestAlgorithm) []checksum.DigestAlgorithm {
+	digests := []checksum.DigestAlgorithm{digest}
+	for _, alg := range checksum.DigestNames {
+		if alg == digest {
+			continue
+		}
+		if _, err := os.Stat(fmt.Sprintf("%s.%s", ocflPath, strings.ToLower(string(alg)))); err == nil {
+			digests = append(digests, alg)
+		}
+	}
+	return digests
+}
+
 func initializeFSFactory(zipDigests []checksum.DigestAlgorithm, aesConfig *config.AESConfig, s3Config *config.S3Config, noCompression, readOnly bool, logger zLogger.ZLogger) (*writefs.Factory, error) {
 	if zipDigests == nil {
 		zipDigests = []checksum.DigestAlgorithm{checksum.DigestSHA512}
diff --git a/gocfl/cmd/update.go b/gocfl/cmd/update.go
index 10a9e0f..6064175 100644
--- a/gocfl/cmd/update.go
+++ b/gocfl/cmd/update.go
@@ -149,7 +149,7 @@ func doUpdate(cmd *cobra.Command, args []string) {
 		logger.Panic().Stack().Err(err).Msgf("cannot stat '%s'", srcPath)
 	}
 
-	fsFactory, err := initializeFSFactory([]checksum.DigestAlgorithm{conf.Update.Digest}, conf.AES, conf.S3, conf.Update.NoCompress, false, logger)
+	fsFactory, err := initializeFSFactory(containerDigests(ocflPath, conf.Update.Digest), conf.AES, conf.S3, conf.Update.NoCompress, false, logger)
 	if err != nil {
 		logger.Panic().Stack().Err(err).Msg("cannot create filesystem factory")
 	}
-- 
2.43.0


From 72337504a70b96fd1957a2cae108f9c518dcd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 44/60] fix: an update without changes leaves no unused version
 in the loaded object

---
 pkg/ocfl/objectbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a9e4133..2e847f2 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -619,7 +619,8 @@ func (object *ObjectBase) EndUpdate() error {
 	}
 	if !(object.i.IsModified()) {
 		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
-		return nil
+		// the unused version is no version of the object
+		return errors.WithStack(object.i.Clean())
 	}
 
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
-- 
2.43.0


From a6f8c9708ed912a4f44dcfaf3ec8458ac97c8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:35 +0000
Subject: [PATCH 45/60] fix: metafile refuses what it cannot validate and
 stores every version's document

---
 pkg/extension/NNNN-metafile.go | 76 +++++++++++++++++++++-------------
 pkg/ocfl/objectbase.go         |  9 ++++
 2 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index fbdecd5..58cc603 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -54,6 +54,9 @@ func NewMetaFileFS(fsys fs.FS) (*MetaFile, error) {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
 
+	if config.MetaName == "" {
+		config.MetaName = "info.json"
+	}
 	if config.MetaName == "config.json" {
 		return nil, errors.Errorf("config.json is not allowed for field name in %v/%s", fsys, "config.json")
 	}
@@ -61,21 +64,30 @@ func NewMetaFileFS(fsys fs.FS) (*MetaFile, error) {
 		return nil, errors.Errorf("config.json is not allowed for field schema in %v/%s", fsys, "config.json")
 	}
 	var schema []byte
+	var schemaErr error
 	if config.MetaSchema != "" {
 		schema, err = fs.ReadFile(fsys, config.MetaSchema)
 		if err != nil {
-			return nil, errors.Wrapf(err, "cannot read metadata schema %v/%s", fsys, config.MetaSchema)
+			if !errors.Is(err, fs.ErrNotExist) {
+				return nil, errors.Wrapf(err, "cannot read metadata schema %v/%s", fsys, config.MetaSchema)
+			}
+			schemaErr = errors.Wrapf(err, "cannot read metadata schema %v/%s", fsys, config.MetaSchema)
 		}
 	} else {
-		resp, err := http.Get(config.MetaSchemaUrl)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot load metadata schema %s", config.MetaSchemaUrl)
+		if schema, schemaErr = downloadFile(config.MetaSchemaUrl); schemaErr == nil {
+			config.MetaSchema = "schema.json"
 		}
-		schema, err = io.ReadAll(resp.Body)
-		if resp.StatusCode != http.StatusOK {
-			return nil, errors.Errorf("error loading metadata schema %s - [%v]%s - %s", resp.StatusCode, resp.Status, schema)
+	}
+	if schemaErr != nil {
+		if config.ExtensionName != MetaFileName {
+			return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, MetaFileName))
 		}
-		config.MetaSchema = "schema.json"
+		// the extension is still needed for reading, and to refuse metadata which cannot be validated
+		return &MetaFile{
+			MetaFileConfig: config,
+			info:           map[string][]byte{},
+			schemaErr:      schemaErr,
+		}, nil
 	}
 
 	return NewMetaFile(config, schema)
@@ -94,7 +106,7 @@ func NewMetaFile(config *MetaFileConfig, schema []byte) (*MetaFile, error) {
 	schemaUrl, _, _ := strings.Cut(sl.MetaSchemaUrl, "#")
 	sl.compiledSchema, err = jsonschema.CompileString(schemaUrl, string(sl.schema))
 	if err != nil {
-		return nil, errors.Wrapf(err, "cannot compile schema")
+		sl.schemaErr = errors.Wrapf(err, "cannot compile schema")
 	}
 	return sl, nil
 }
@@ -110,10 +122,11 @@ type MetaFileConfig struct {
 type MetaFile struct {
 	*MetaFileConfig
 	schema         []byte
+	schemaErr      error
 	metadataSource *url.URL
+	sourceErr      error
 	fsys           fs.FS
 	compiledSchema *jsonschema.Schema
-	stored         bool
 	info           map[string][]byte
 }
 
@@ -139,7 +152,9 @@ func (sl *MetaFile) SetParams(params map[string]string) error {
 		if urlString, ok := params[name]; ok {
 			u, err := url.Parse(urlString)
 			if err != nil {
-				return errors.Wrapf(err, "invalid url parameter '%s' - '%s'", name, urlString)
+				// reading the object does not need the source
+				sl.sourceErr = errors.Wrapf(err, "invalid url parameter '%s' - '%s'", name, urlString)
+				return nil
 			}
 			sl.metadataSource = u
 		}
@@ -157,8 +172,10 @@ func (sl *MetaFile) WriteConfig() error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	if err := writeConfigFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
-		return errors.Wrapf(err, "cannot write schema to %v/%s", sl.fsys, sl.MetaSchema)
+	if sl.schema != nil {
+		if err := writeConfigFile(sl.fsys, sl.MetaSchema, sl.schema); err != nil {
+			return errors.Wrapf(err, "cannot write schema to %v/%s", sl.fsys, sl.MetaSchema)
+		}
 	}
 	return writeJSON(sl.fsys, "config.json", sl.MetaFileConfig)
 }
@@ -208,10 +225,14 @@ func decodeJSON(r io.Reader) (any, error) {
 }
 
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
+	if sl.sourceErr != nil {
+		return errors.WithStack(sl.sourceErr)
+	}
 	if sl.metadataSource != nil && sl.metadataSource.Path == "" {
 		return nil
 	}
-	if sl.stored {
+	// metadata is given for the versions of the user
+	if a, ok := object.(interface{ IsAutomatedVersion() bool }); ok && a.IsAutomatedVersion() {
 		return nil
 	}
 	var err error
@@ -229,6 +250,9 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
+	if sl.schemaErr != nil {
+		return errors.WithStack(sl.schemaErr)
+	}
 	var rc io.ReadCloser
 	var fname string
 	switch strings.ToLower(sl.metadataSource.Scheme) {
@@ -284,9 +308,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if info, err = decodeJSON(rc); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	case ".yaml":
 		jr := yaml.NewDecoder(rc)
 		if err := jr.Decode(&info); err != nil {
@@ -296,21 +317,11 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	case ".toml":
 		jr := toml.NewDecoder(rc)
 		if _, err := jr.Decode(&info); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
-		info, err = toStringKeys(info)
-		if err != nil {
-			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
-		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	default:
 		return errors.Errorf("unknown file extension in '%s' only .json, .toml and .yaml supported", fname)
 	}
@@ -319,6 +330,13 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot marshal info json")
 	}
+	// what is stored has to be valid, independent of the format it comes from
+	if info, err = decodeJSON(bytes.NewReader(infoData)); err != nil {
+		return errors.Wrap(err, "cannot decode info json")
+	}
+	if err := sl.compiledSchema.Validate(info); err != nil {
+		return errors.Wrap(err, "cannot validate info file")
+	}
 
 	switch strings.ToLower(sl.StorageType) {
 	case "area":
@@ -351,7 +369,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 
 	// remember the content
 	sl.info[inventory.GetHead()] = infoData
-	sl.stored = true
 	return nil
 }
 
@@ -361,6 +378,9 @@ func downloadFile(u string) ([]byte, error) {
 		return nil, errors.Wrapf(err, "cannot get '%s'", u)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return nil, errors.Errorf("cannot get '%s' - %s", u, resp.Status)
+	}
 	metadata, err := io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot read body from '%s'", u)
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 2e847f2..ed21741 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -41,6 +41,7 @@ type ObjectBase struct {
 	echo               bool
 	updateFiles        []string
 	updateAreas        []string
+	automated          bool
 	contentPaths       map[string]bool
 	area               string
 	sidecarErr         error // why the inventory in the object root cannot be trusted
@@ -643,6 +644,9 @@ func (object *ObjectBase) EndUpdate() error {
 	if needVersion, err := object.extensionManager.NeedNewVersion(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.NeedNewVersion()")
 	} else if needVersion {
+		automated := object.automated
+		object.automated = true
+		defer func() { object.automated = automated }()
 		if _, err := object.StartUpdate(nil, "automated version", "gocfl", "https://github.com/je4/gocfl", false); err != nil {
 			return errors.Wrap(err, "cannot create new version")
 		}
@@ -661,6 +665,11 @@ func (object *ObjectBase) EndUpdate() error {
 	return nil
 }
 
+// IsAutomatedVersion tells whether the current version is created on behalf of an extension
+func (object *ObjectBase) IsAutomatedVersion() bool {
+	return object.automated
+}
+
 func (object *ObjectBase) BeginArea(area string) {
 	object.area = area
 }
-- 
2.43.0


From 97fa4abe37efaa12760fc0c7500daccf15cc2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 46/60] fix: objects of a storage root can be used concurrently
 without losing validation messages

---
 pkg/ocfl/storagerootbase.go |  9 +++++----
 pkg/ocfl/validationerror.go | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 2ad31d0..fc414aa 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -17,6 +17,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 )
 
 type StorageRootBase struct {
@@ -28,7 +29,7 @@ type StorageRootBase struct {
 	logger           zLogger.ZLogger
 	version          OCFLVersion
 	digest           checksum.DigestAlgorithm
-	modified         bool
+	modified         atomic.Bool
 }
 
 //var rootConformanceDeclaration = fmt.Sprintf("0=ocfl_%s", VERSION)
@@ -59,10 +60,10 @@ func (osr *StorageRootBase) String() string {
 }
 
 func (osr *StorageRootBase) IsModified() bool {
-	return osr.modified
+	return osr.modified.Load()
 }
 func (osr *StorageRootBase) setModified() {
-	osr.modified = true
+	osr.modified.Store(true)
 }
 
 func (osr *StorageRootBase) addValidationError(errno ValidationErrorCode, format string, a ...any) error {
@@ -523,7 +524,7 @@ func (osr *StorageRootBase) CheckDirectory() (err error) {
 		if err := osr.addValidationError(E077, "no version file in storage root"); err != nil {
 			return errors.Wrapf(err, "cannot add validation error %s", E077)
 		}
-	} else {
+	} else if version != osr.version {
 		osr.version = version
 	}
 	return nil
diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index edf3923..8a50df1 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"golang.org/x/exp/slices"
 	"strings"
+	"sync"
 )
 
 type ValidationErrorCode string
@@ -152,6 +153,13 @@ type ValidationError struct {
 
 type ValidationStatus struct {
 	Errors []*ValidationError
+	mu     sync.Mutex // operations on several objects can report at the same time
+}
+
+func (status *ValidationStatus) add(vErrs ...*ValidationError) {
+	status.mu.Lock()
+	defer status.mu.Unlock()
+	status.Errors = append(status.Errors, vErrs...)
 }
 
 func validationSort(E1, E2 *ValidationError) int {
@@ -165,6 +173,8 @@ func validationSort(E1, E2 *ValidationError) int {
 
 // removes duplicate errors
 func (status *ValidationStatus) Compact() {
+	status.mu.Lock()
+	defer status.mu.Unlock()
 	slices.SortFunc(status.Errors, validationSort)
 	status.Errors = slices.CompactFunc(status.Errors, func(E1, E2 *ValidationError) bool {
 		return E1.Context == E2.Context && E1.Code == E2.Code && E1.Description2 == E2.Description2
@@ -204,7 +214,7 @@ func addValidationErrors(ctx context.Context, vErrs ...*ValidationError) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot add validation error")
 	}
-	status.Errors = append(status.Errors, vErrs...)
+	status.add(vErrs...)
 	return nil
 }
 
@@ -214,7 +224,7 @@ func addValidationWarnings(ctx context.Context, vWarns ...*ValidationError) erro
 		return errors.Wrap(err, "cannot add validation error")
 	}
 	//	status.Warnings = append(status.Warnings, vWarns...)
-	status.Errors = append(status.Errors, vWarns...)
+	status.add(vWarns...)
 	return nil
 }
 
-- 
2.43.0


From 0ddeeb63419343b1c082f742f02f9e36d4ed53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:22 +0000
Subject: [PATCH 47/60] fix: objects of a later OCFL version than the storage
 root are refused and reported

---
 pkg/ocfl/storagerootbase.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index fc414aa..4ad01a1 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -445,6 +445,9 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
+	if version > osr.version {
+		return nil, errors.Errorf("cannot create object '%s' of version '%s' in storage root of version '%s'", id, version, osr.version)
+	}
 	folder, err := osr.objectPath(id)
 	if err != nil {
 		return nil, errors.WithStack(err)
@@ -538,8 +541,8 @@ func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
 		}
 		//			return errors.Wrapf(err, "cannot load object from folder '%s'", objectFolder)
 	} else {
-		if err := object.Check(); err != nil {
-			return errors.Wrapf(err, "check of '%s' failed", object.GetID())
+		if err := osr.checkObject(object); err != nil {
+			return errors.WithStack(err)
 		}
 	}
 	return nil
@@ -554,13 +557,25 @@ func (osr *StorageRootBase) CheckObjectByID(objectID string) error {
 		}
 		//			return errors.Wrapf(err, "cannot load object from folder '%s'", objectFolder)
 	} else {
-		if err := object.Check(); err != nil {
-			return errors.Wrapf(err, "check of '%s' failed", object.GetID())
+		if err := osr.checkObject(object); err != nil {
+			return errors.WithStack(err)
 		}
 	}
 	return nil
 }
 
+func (osr *StorageRootBase) checkObject(object Object) error {
+	if osr.version != "" && object.GetVersion() > osr.version {
+		if err := osr.addValidationError(E081, "object '%s' has version '%s', storage root has version '%s'", object.GetID(), object.GetVersion(), osr.version); err != nil {
+			return errors.Wrapf(err, "cannot add validation error %s", E081)
+		}
+	}
+	if err := object.Check(); err != nil {
+		return errors.Wrapf(err, "check of '%s' failed", object.GetID())
+	}
+	return nil
+}
+
 func (osr *StorageRootBase) CheckObjects() error {
 	objectFolders, err := osr.GetObjectFolders()
 	if err != nil {
-- 
2.43.0


From 55eaf17183e16232890695f4386c02ec3587f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 48/60] fix: data and reader content count for the area an echo
 update deletes from

---
 pkg/ocfl/objectbase.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ed21741..2cea412 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -609,9 +609,6 @@ func (object *ObjectBase) EndUpdate() error {
 		return nil
 	}
 	if object.echo {
-		if len(object.updateAreas) == 0 && len(object.updateFiles) > 0 {
-			object.updateAreas = append(object.updateAreas, "")
-		}
 		for _, area := range object.updateAreas {
 			if err := object.echoDelete(area); err != nil {
 				return errors.Wrap(err, "cannot delete files")
@@ -679,19 +676,22 @@ func (object *ObjectBase) EndArea() error {
 		if err := object.echoDelete(object.area); err != nil {
 			return errors.Wrap(err, "cannot remove files")
 		}
-		if !slices.Contains(object.updateAreas, object.area) {
-			object.updateAreas = append(object.updateAreas, object.area)
-		}
+		object.touchArea(object.area)
 	}
 	object.area = ""
 	return nil
 }
 
-func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
-	object.logger.Debug().Msgf("walking '%v'", fsys)
+// touchArea remembers the areas which are part of the update
+func (object *ObjectBase) touchArea(area string) {
 	if !slices.Contains(object.updateAreas, area) {
 		object.updateAreas = append(object.updateAreas, area)
 	}
+}
+
+func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
+	object.logger.Debug().Msgf("walking '%v'", fsys)
+	object.touchArea(area)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
 		if err != nil {
 			return errors.Wrapf(err, "cannot read '%v/%s'", fsys, path)
@@ -934,6 +934,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	if !object.i.IsWriteable() {
 		return "", errors.New("object not writeable")
 	}
+	if !noExtensionHook {
+		object.touchArea(area)
+	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
 	if err != nil {
@@ -972,6 +975,9 @@ func (object *ObjectBase) AddData(data []byte, path string, checkDuplicate bool,
 		return errors.New("object not writeable")
 	}
 
+	if !noExtensionHook {
+		object.touchArea(area)
+	}
 	var digest string
 
 	names, err := object.BuildNames([]string{path}, area)
@@ -1051,6 +1057,9 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 		return errors.New("object not writeable")
 	}
 
+	if !noExtensionHook {
+		object.touchArea(area)
+	}
 	names, err := object.BuildNames([]string{path}, area)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create virtual filename for '%s'", path)
-- 
2.43.0


From 5141660b0068e1d04722ae0d968fdbf28e9ef159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:25 +0000
Subject: [PATCH 49/60] fix: migrations never take the place of other files,
 are repeatable and report failures of the object

---
 pkg/extension/NNNN-migration.go    | 272 +++++++++++++++++++----------
 pkg/subsystem/migration/helper.go  |  54 +++---
 pkg/subsystem/migration/migrate.go |  12 +-
 3 files changed, 226 insertions(+), 112 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index c4180de..c301172 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -15,6 +15,7 @@ import (
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
+	pathpkg "path"
 	"path/filepath"
 	"regexp"
 )
@@ -132,7 +133,11 @@ func (mi *Migration) WriteConfig() error {
 	return writeJSON(mi.fsys, "config.json", mi.MigrationConfig)
 }
 
-func (mi *Migration) UpdateObjectBefore(ocfl.Object) error {
+func (mi *Migration) UpdateObjectBefore(object ocfl.Object) error {
+	// the version with the migrated files belongs to the running update
+	if a, ok := object.(interface{ IsAutomatedVersion() bool }); !ok || !a.IsAutomatedVersion() {
+		mi.done = false
+	}
 	return nil
 }
 
@@ -150,6 +155,10 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	if inventory == nil {
 		return errors.Errorf("inventory is nil")
 	}
+	mi.migrationFiles = map[string]*migration.Function{}
+	if mi.migration == nil {
+		return nil
+	}
 
 	// first get the metadata from the object
 	meta, err := object.GetMetadata()
@@ -189,6 +198,14 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 		if mi.alreadyMigrated(cs) {
 			continue
 		}
+		// only files of the current version have to be migrated
+		sources, err := mi.sources(object, inventory.GetHead(), cs)
+		if err != nil {
+			return errors.Wrapf(err, "cannot get names of '%s' in object '%s'", cs, object.GetID())
+		}
+		if len(sources) == 0 {
+			continue
+		}
 		mi.migrationFiles[cs] = migrationFunctions
 	}
 
@@ -196,6 +213,79 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// sources returns the names of the content within the content area
+func (mi *Migration) sources(object ocfl.Object, version, cs string) ([]string, error) {
+	stateFiles, err := object.GetInventory().GetStateFiles(version, cs)
+	if err != nil {
+		// content of other versions only
+		return nil, nil
+	}
+	var result = []string{}
+	for _, name := range stateFiles {
+		if _, err := object.GetExtensionManager().BuildObjectExtractPath(object, name, "content"); err != nil {
+			if errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError) {
+				continue
+			}
+			return nil, errors.WithStack(err)
+		}
+		result = append(result, name)
+	}
+	return result, nil
+}
+
+// checkTargets makes sure, that migrated files do not take the place of other files
+func (mi *Migration) checkTargets(object ocfl.Object, mig *migration.Function, sources, targets []string) error {
+	inventory := object.GetInventory()
+	var names = map[string]bool{}
+	var dirs = map[string]bool{}
+	addName := func(name string) error {
+		if names[name] {
+			return errors.Errorf("file '%s' already exists", name)
+		}
+		names[name] = true
+		for dir := pathpkg.Dir(name); dir != "." && dir != "/"; dir = pathpkg.Dir(dir) {
+			dirs[dir] = true
+		}
+		return nil
+	}
+	if err := inventory.IterateStateFiles("", func(_, external []string, _ string) error {
+		for _, name := range external {
+			if mig.Strategy != migration.StrategyAdd && slices.Contains(sources, name) {
+				continue
+			}
+			if err := addName(name); err != nil {
+				return err
+			}
+		}
+		return nil
+	}); err != nil {
+		return errors.WithStack(err)
+	}
+	for _, name := range targets {
+		if err := addName(name); err != nil {
+			return err
+		}
+	}
+	if mig.Strategy == migration.StrategyFolder {
+		for _, name := range sources {
+			if err := addName(folderName(name)); err != nil {
+				return err
+			}
+		}
+	}
+	for name := range names {
+		if dirs[name] {
+			return errors.Errorf("file '%s' is a folder too", name)
+		}
+	}
+	return nil
+}
+
+// folderName is the name of an original with migration strategy folder
+func folderName(name string) string {
+	return pathpkg.Join(name, pathpkg.Base(name))
+}
+
 func (mi *Migration) NeedNewVersion(ocfl.Object) (bool, error) {
 	return len(mi.migrationFiles) > 0 && !mi.done, nil
 }
@@ -219,8 +309,7 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	}
 	inventory := object.GetInventory()
 	head := inventory.GetHead()
-	extensionManager := object.GetExtensionManager()
-	if extensionManager == nil {
+	if object.GetExtensionManager() == nil {
 		return errors.Errorf("extension manager is nil")
 	}
 	mi.buffer[head] = &bytes.Buffer{}
@@ -235,38 +324,26 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	if _, ok := mi.migratedFiles[head]; !ok {
 		mi.migratedFiles[head] = map[string]string{}
 	}
-	for cs, mig := range mi.migrationFiles {
-		var isMigrated bool
-		if slices.Contains(migratedChecksums, cs) {
-			isMigrated = true
-		}
-		// todo: do it more efficient
-		var found = false
-		for _, mf := range mi.migratedFiles {
-			if _, ok := mf[cs]; ok {
-				found = true
-			}
-		}
-		if found {
+	checksums := maps.Keys(mi.migrationFiles)
+	slices.Sort(checksums)
+	for _, cs := range checksums {
+		mig := mi.migrationFiles[cs]
+		isMigrated := slices.Contains(migratedChecksums, cs)
+		if mi.alreadyMigrated(cs) {
 			continue
 		}
 
-		var targetNames = []string{}
 		manifestFiles, ok := manifest[cs]
 		if !ok {
 			return errors.Errorf("cannot find file with checksum '%s' in object '%s'", cs, object.GetID())
 		}
 		// get the files from last version
-		stateFiles, err := inventory.GetStateFiles(versions[len(versions)-2], cs)
+		stateFiles, err := mi.sources(object, versions[len(versions)-2], cs)
 		if err != nil {
 			return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
 		}
-		for _, sf := range stateFiles {
-			t := mig.GetDestinationName(sf, head, isMigrated)
-			if t == "" {
-				return errors.Errorf("cannot get destination name for file '%s' in object '%s'", sf, object.GetID())
-			}
-			targetNames = append(targetNames, t)
+		if len(stateFiles) == 0 {
+			continue
 		}
 
 		mi.migratedFiles[head][cs] = manifestFiles[0]
@@ -296,7 +373,7 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 				}
 				file, err = mi.sourceFS.Open(external)
 				if err != nil {
-					return errors.Wrapf(err, "cannot open file '%v/%s' in source filesystem", mi.sourceFS, targetNames[len(targetNames)-1])
+					return errors.Wrapf(err, "cannot open file '%v/%s' in source filesystem", mi.sourceFS, external)
 				}
 				ext = filepath.Ext(external)
 			} else {
@@ -304,75 +381,32 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 				continue
 			}
 		}
-		var ml *migrationLine
-		/*
-			path, err := extensionManager.BuildObjectManifestPath(object, targetNames[0], "content")
-			if err != nil {
-				return errors.Wrapf(err, "cannot build state path for file '%s' in object '%s'", targetNames[0], object.GetID())
-			}
-		*/
-		extractTargetNames := []string{}
-		for _, targetName := range targetNames {
-			extractTargetName, err := extensionManager.BuildObjectExtractPath(object, targetName, "")
-			if err != nil {
-				return errors.Wrapf(err, "cannot build extract path for file '%s' in object '%s'", targetName, object.GetID())
-			}
-			extractTargetNames = append(extractTargetNames, extractTargetName)
+		ml := &migrationLine{
+			Migration: &MigrationResult{
+				Source: manifestFiles[0],
+				ID:     mig.GetID(),
+			},
 		}
-		manifestName, err := object.GetExtensionManager().BuildObjectManifestPath(object, extractTargetNames[0], "content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot build manifest path for file '%s' in object '%s'", extractTargetNames[0], object.GetID())
-		}
-		path := inventory.BuildManifestName(manifestName)
-		if err := migration.DoMigrate(object, mig, ext, extractTargetNames, file); err != nil {
-			ml = &migrationLine{
-				Path: path,
-				Migration: &MigrationResult{
-					Source: manifestFiles[0],
-					Error:  err.Error(),
-					ID:     mig.GetID(),
-				},
-			}
-			//			return err
+		digest, err := mi.migrate(object, mig, ext, head, cs, stateFiles, isMigrated, file)
+		var toolErr *migration.ToolError
+		if errors.As(err, &toolErr) {
+			// the originals stay where they are
+			ml.Migration.Error = err.Error()
+		} else if err != nil {
+			return errors.Wrapf(err, "cannot migrate '%s' in object '%s'", manifestFiles[0], object.GetID())
 		} else {
-			ml = &migrationLine{
-				Path: path,
-				Migration: &MigrationResult{
-					Source: manifestFiles[0],
-					ID:     mig.GetID(),
-				},
-			}
-			switch mig.Strategy {
-			case migration.StrategyReplace:
-				for _, n := range stateFiles {
-					if slices.Contains(targetNames, n) {
-						continue
-					}
-					if err := object.DeleteFile(n, cs); err != nil {
-						return errors.Wrapf(err, "cannot delete file '%s' in object '%s'", n, object.GetID())
-					}
-				}
-			case migration.StrategyFolder:
-				for _, src := range stateFiles {
-					if slices.Contains(targetNames, src) {
-						continue
-					}
-					var dest string
-					if !isMigrated {
-						dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), filepath.Base(src), filepath.Base(src)))
-					}
-					if err := object.RenameFile(src, dest, cs); err != nil {
-						return errors.Wrapf(err, "cannot delete file '%s' in object '%s'", src, object.GetID())
-					}
-				}
+			migratedFiles := inventory.GetManifest()[digest]
+			if len(migratedFiles) == 0 {
+				return errors.Errorf("cannot find migrated file with checksum '%s' in object '%s'", digest, object.GetID())
 			}
+			ml.Path = migratedFiles[len(migratedFiles)-1]
 		}
 		data, err := json.Marshal(ml)
 		if err != nil {
-			return errors.Wrapf(err, "cannot marshal migration line for file '%s' in object '%s'", targetNames[0], object.GetID())
+			return errors.Wrapf(err, "cannot marshal migration line for file '%s' in object '%s'", manifestFiles[0], object.GetID())
 		}
 		if _, err := mi.writer.Write(append(data, []byte("\n")...)); err != nil {
-			return errors.Wrapf(err, "cannot write migration line for file '%s' in object '%s'", targetNames[0], object.GetID())
+			return errors.Wrapf(err, "cannot write migration line for file '%s' in object '%s'", manifestFiles[0], object.GetID())
 		}
 	}
 	if err := mi.writer.Flush(); err != nil {
@@ -399,6 +433,68 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	return nil
 }
 
+// migrate creates the migrated file and applies the strategy. If that's not possible without touching other files
+// or because of the external tool, there's a ToolError and nothing has changed
+func (mi *Migration) migrate(object ocfl.Object, mig *migration.Function, ext, head, cs string, stateFiles []string, isMigrated bool, file io.ReadCloser) (string, error) {
+	targetNames, extractTargetNames, err := mi.targets(object, mig, head, stateFiles, isMigrated)
+	if err != nil {
+		_ = file.Close()
+		return "", migration.NewToolError(err)
+	}
+	digest, err := migration.DoMigrate(object, mig, ext, extractTargetNames, file)
+	if err != nil {
+		return "", err
+	}
+	switch mig.Strategy {
+	case migration.StrategyReplace:
+		for _, n := range stateFiles {
+			if slices.Contains(targetNames, n) {
+				continue
+			}
+			if err := object.DeleteFile(n, cs); err != nil {
+				return "", errors.Wrapf(err, "cannot delete file '%s' in object '%s'", n, object.GetID())
+			}
+		}
+	case migration.StrategyFolder:
+		if isMigrated {
+			break
+		}
+		for _, src := range stateFiles {
+			if err := object.RenameFile(src, folderName(src), cs); err != nil {
+				return "", errors.Wrapf(err, "cannot rename file '%s' in object '%s'", src, object.GetID())
+			}
+		}
+	}
+	return digest, nil
+}
+
+// targets returns the names of the migrated files within object and content area
+func (mi *Migration) targets(object ocfl.Object, mig *migration.Function, head string, stateFiles []string, isMigrated bool) ([]string, []string, error) {
+	var targetNames, extractTargetNames = []string{}, []string{}
+	for _, sf := range stateFiles {
+		t := mig.GetDestinationName(sf, head, isMigrated)
+		if t == "" {
+			return nil, nil, errors.Errorf("cannot get destination name for file '%s' in object '%s'", sf, object.GetID())
+		}
+		if slices.Contains(targetNames, t) {
+			continue
+		}
+		extractTargetName, err := object.GetExtensionManager().BuildObjectExtractPath(object, t, "content")
+		if err != nil {
+			return nil, nil, errors.Wrapf(err, "cannot build extract path for file '%s' in object '%s'", t, object.GetID())
+		}
+		if _, err := object.BuildNames([]string{extractTargetName}, "content"); err != nil {
+			return nil, nil, errors.Wrapf(err, "cannot build names for file '%s' in object '%s'", t, object.GetID())
+		}
+		targetNames = append(targetNames, t)
+		extractTargetNames = append(extractTargetNames, extractTargetName)
+	}
+	if err := mi.checkTargets(object, mig, stateFiles, targetNames); err != nil {
+		return nil, nil, err
+	}
+	return targetNames, extractTargetNames, nil
+}
+
 func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 	var err error
 	var result = map[string]any{}
@@ -452,8 +548,8 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Migration.Source, object.GetID())
 			}
 			cs, ok := path2digest[meta.Path]
-			if !ok && meta.Migration.Error != "" {
-				cs, ok = path2digest[meta.Migration.Source]
+			if meta.Migration.Error != "" {
+				cs, ok = digest, true
 			}
 			if !ok {
 				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Path, object.GetID())
diff --git a/pkg/subsystem/migration/helper.go b/pkg/subsystem/migration/helper.go
index 505888e..6e6753f 100644
--- a/pkg/subsystem/migration/helper.go
+++ b/pkg/subsystem/migration/helper.go
@@ -70,41 +70,51 @@ func GetMigrations(conf *config.GOCFLConfig) (*Migration, error) {
 	return m, nil
 }
 
-func DoMigrate(object ocfl.Object, mig *Function, ext string, targetNames []string, file io.ReadCloser) error {
+// ToolError is a migration which is not possible. The object remains as it is
+type ToolError struct{ err error }
+
+func NewToolError(err error) *ToolError { return &ToolError{err: err} }
+
+func (e *ToolError) Error() string { return e.err.Error() }
+func (e *ToolError) Unwrap() error { return e.err }
+
+// DoMigrate creates the derivative and adds it to the object with the given names. It returns its digest.
+func DoMigrate(object ocfl.Object, mig *Function, ext string, targetNames []string, file io.ReadCloser) (string, error) {
+	defer file.Close()
 	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+ext)
 	if err != nil {
-		return errors.Wrap(err, "cannot create temp file")
-	}
-	if _, err := io.Copy(tmpFile, file); err != nil {
-		_ = tmpFile.Close()
-		return errors.Wrap(err, "cannot copy file")
-	}
-	if err := file.Close(); err != nil {
-		return errors.Wrap(err, "cannot close file")
+		return "", errors.Wrap(err, "cannot create temp file")
 	}
 	tmpFilename := filepath.ToSlash(tmpFile.Name())
 	targetFilename := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), "target."+filepath.Base(tmpFilename)+filepath.Ext(targetNames[0])))
-
-	if err := tmpFile.Close(); err != nil {
-		return errors.Wrap(err, "cannot close temp file")
-	}
 	defer func() {
 		_ = os.Remove(tmpFilename)
-		_ = os.Remove(targetFilename)
+		_ = os.RemoveAll(targetFilename)
 	}()
+	if _, err := io.Copy(tmpFile, file); err != nil {
+		_ = tmpFile.Close()
+		return "", errors.Wrap(err, "cannot copy file")
+	}
+	if err := tmpFile.Close(); err != nil {
+		return "", errors.Wrap(err, "cannot close temp file")
+	}
 	if err := mig.Migrate(tmpFilename, targetFilename); err != nil {
-		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
+		return "", NewToolError(errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID()))
 	}
 
+	if info, err := os.Stat(targetFilename); err != nil {
+		return "", NewToolError(errors.Wrapf(err, "no result '%s'", targetFilename))
+	} else if !info.Mode().IsRegular() {
+		return "", NewToolError(errors.Errorf("result '%s' is no regular file", targetFilename))
+	}
 	mFile, err := os.Open(targetFilename)
 	if err != nil {
-		return errors.Wrapf(err, "cannot open file '%s'", targetFilename)
+		return "", errors.Wrapf(err, "cannot open file '%s'", targetFilename)
 	}
-	if _, err := object.AddReader(mFile, targetNames, "content", false, false); err != nil {
-		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
-	}
-	if err := mFile.Close(); err != nil {
-		return errors.Wrapf(err, "cannot close file '%s'", targetFilename)
+	defer mFile.Close()
+	digest, err := object.AddReader(mFile, targetNames, "content", false, false)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
 	}
-	return nil
+	return digest, nil
 }
diff --git a/pkg/subsystem/migration/migrate.go b/pkg/subsystem/migration/migrate.go
index 4e0f4b3..bd2ecfa 100644
--- a/pkg/subsystem/migration/migrate.go
+++ b/pkg/subsystem/migration/migrate.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strings"
 	"time"
 )
@@ -50,7 +51,7 @@ func (f *Function) GetDestinationName(src string, head string, isMigrated bool)
 			}
 			dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), fmt.Sprintf("%s.%s", head, parts[2])))
 		} else {
-			dest = filepath.ToSlash(filepath.Join(src, fmt.Sprintf("%s.%s", head, dest)))
+			dest = filepath.ToSlash(filepath.Join(src, fmt.Sprintf("%s.%s", head, filepath.Base(dest))))
 		}
 	}
 	return dest
@@ -91,7 +92,14 @@ func (m *Migration) GetFunctionByName(name string) (*Function, error) {
 }
 
 func (m *Migration) GetFunctionByPronom(pronom string) (*Function, error) {
-	for _, f := range m.Functions {
+	names := make([]string, 0, len(m.Functions))
+	for name := range m.Functions {
+		names = append(names, name)
+	}
+	// if there is more than one function, it's always the same one
+	sort.Strings(names)
+	for _, name := range names {
+		f := m.Functions[name]
 		for _, pro := range f.pronoms {
 			if pro == pronom {
 				return f, nil
-- 
2.43.0


From 8a9009baf62378125d5b94ccd1e5773bd70cb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:29 +0000
Subject: [PATCH 50/60] fix: thumbnails are recorded for their source, fit the
 configured size and never break an update

---
 pkg/extension/NNNN-thumbnail.go         | 129 +++++++++++++-----------
 pkg/extension/NNNN-thumbnail_imagick.go |   3 +-
 pkg/extension/NNNN-thumbnail_native.go  |  48 ++++-----
 pkg/extension/NNNN-thumbnail_vips.go    |   3 +-
 pkg/subsystem/thumbnail/thumbnail.go    |  17 +++-
 5 files changed, 106 insertions(+), 94 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 1a75a5a..c17c75e 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -12,6 +12,7 @@ import (
 	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
 	"github.com/je4/indexer/v3/pkg/indexer"
 	"github.com/je4/utils/v2/pkg/zLogger"
+	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
 	_ "golang.org/x/image/bmp"
 	_ "golang.org/x/image/riff"
@@ -22,7 +23,6 @@ import (
 	_ "image/gif"
 	"io"
 	"io/fs"
-	"math/rand"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -176,7 +176,8 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	if thumb.SingleDirectory {
 		targetName = fmt.Sprintf("%s/%s/%05d.%s", subfolder, head, thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	} else {
-		cs := fmt.Sprintf("%x", rand.Intn(64))
+		// distribute the thumbnails to 64 folders
+		cs := fmt.Sprintf("%02x", thumb.counter[head]%64)
 		targetName = fmt.Sprintf("%s/%s/%s/%s/%05d.%s", subfolder, head, string([]rune(cs)[0]), string([]rune(cs)[1]), thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	}
 	switch strings.ToLower(thumb.StorageType) {
@@ -210,6 +211,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 			return "", "", errors.Wrapf(err, "cannot create file '%s/%s'", thumb.fsys, targetName)
 		}
 		if _, err := io.Copy(fp, mFile); err != nil {
+			_ = fp.Close()
 			return "", "", errors.Wrapf(err, "cannot write file '%v/%s'", thumb.fsys, targetName)
 		}
 		if err := fp.Close(); err != nil {
@@ -221,41 +223,43 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	}
 }
 
-func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *thumbnail.Function, ext string, file io.ReadCloser) (string, string, error) {
+// DoThumbnail creates and stores a thumbnail. The first error is the one of the external tool, which is no failure of
+// the object.
+func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *thumbnail.Function, ext string, file io.ReadCloser) (target string, digest string, toolErr error, err error) {
+	defer file.Close()
 	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+ext)
 	if err != nil {
-		return "", "", errors.Wrap(err, "cannot create temp file")
+		return "", "", nil, errors.Wrap(err, "cannot create temp file")
 	}
-	if _, err := io.Copy(tmpFile, file); err != nil {
-		_ = tmpFile.Close()
-		return "", "", errors.Wrap(err, "cannot copy file")
-	}
-	if err := file.Close(); err != nil {
-		return "", "", errors.Wrap(err, "cannot close file")
-	}
-	thumb.counter[head]++
 	tmpFilename := filepath.ToSlash(tmpFile.Name())
 	targetTempName := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), fmt.Sprintf("target.%s.%s", filepath.Base(tmpFilename), strings.ToLower(thumb.ThumbnailConfig.Ext))))
-
-	if err := tmpFile.Close(); err != nil {
-		return "", "", errors.Wrap(err, "cannot close temp file")
-	}
 	defer func() {
 		if err := os.Remove(tmpFilename); err != nil {
 			thumb.logger.Error().Err(err).Msgf("cannot remove temp file '%s'", tmpFilename)
 		}
-		if err := os.Remove(targetTempName); err != nil {
+		if err := os.RemoveAll(targetTempName); err != nil {
 			thumb.logger.Error().Err(err).Msgf("cannot remove temp file '%s'", targetTempName)
 		}
 	}()
+	if _, err := io.Copy(tmpFile, file); err != nil {
+		_ = tmpFile.Close()
+		return "", "", nil, errors.Wrap(err, "cannot copy file")
+	}
+	if err := tmpFile.Close(); err != nil {
+		return "", "", nil, errors.Wrap(err, "cannot close temp file")
+	}
 	if err := thumbFunc.Thumbnail(tmpFilename, targetTempName, thumb.ThumbnailConfig.Width, thumb.ThumbnailConfig.Height, thumb.logger); err != nil {
-		//_ = os.Remove(tmpFilename)
-		return "", "", errors.Wrapf(err, "cannot create thumbnail file '%v' to object '%s'", targetTempName, object.GetID())
+		return "", "", errors.Wrapf(err, "cannot create thumbnail file '%v' to object '%s'", targetTempName, object.GetID()), nil
+	}
+	if info, err := os.Stat(targetTempName); err != nil {
+		return "", "", errors.Wrapf(err, "no thumbnail '%s'", targetTempName), nil
+	} else if !info.Mode().IsRegular() {
+		return "", "", errors.Errorf("thumbnail '%s' is no regular file", targetTempName), nil
 	}
 
 	mFile, err := os.Open(targetTempName)
 	if err != nil {
-		return "", "", errors.Wrapf(err, "cannot open file '%s'", targetTempName)
+		return "", "", nil, errors.Wrapf(err, "cannot open file '%s'", targetTempName)
 	}
 	defer func() {
 		if err := mFile.Close(); err != nil {
@@ -263,9 +267,9 @@ func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *
 		}
 	}()
 
-	targetFile, digest, err := thumb.storeThumbnail(object, head, mFile)
-
-	return targetFile, digest, errors.Wrap(err, "cannot store thumbnail")
+	thumb.counter[head]++
+	target, digest, err = thumb.storeThumbnail(object, head, mFile)
+	return target, digest, nil, errors.Wrap(err, "cannot store thumbnail")
 }
 
 func (thumb *Thumbnail) UpdateObjectBefore(ocfl.Object) error {
@@ -274,12 +278,12 @@ func (thumb *Thumbnail) UpdateObjectBefore(ocfl.Object) error {
 
 func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 	inventory := object.GetInventory()
-	head := inventory.GetHead()
-	thumb.buffer[head] = &bytes.Buffer{}
-	thumb.writer = brotli.NewWriter(thumb.buffer[head])
 	if inventory == nil {
 		return errors.Errorf("inventory is nil")
 	}
+	head := inventory.GetHead()
+	thumb.buffer[head] = &bytes.Buffer{}
+	thumb.writer = brotli.NewWriter(thumb.buffer[head])
 
 	if _, ok := thumb.counter[head]; !ok {
 		thumb.counter[head] = 0
@@ -290,18 +294,20 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get metadata from object %s", object.GetID())
 	}
-	for cs, m := range meta.Files {
+	checksums := maps.Keys(meta.Files)
+	slices.Sort(checksums)
+	for _, cs := range checksums {
+		m := meta.Files[cs]
 		var found *ThumbnailResult = nil
-		for name, info := range thumb.streamInfo[head] {
-			if slices.Contains(m.InternalName, name) {
+		for _, name := range m.InternalName {
+			if info, ok := thumb.streamInfo[head][name]; ok {
 				found = info
 				found.SourceDigest = cs
 				break
 			}
 		}
 		if found == nil {
-			_, ok := m.Extension[ThumbnailName]
-			if ok {
+			if _, ok := m.Extension[ThumbnailName]; ok || thumb.thumbnail == nil {
 				continue
 			}
 			indexerMetaAny, ok := m.Extension[IndexerName]
@@ -355,9 +361,12 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 			if file != nil {
 				//var ml *ThumbnailResult
 				var errStr string
-				targetFile, digest, err := thumb.DoThumbnail(object, head, thumbnailFunction, ext, file)
+				targetFile, digest, toolErr, err := thumb.DoThumbnail(object, head, thumbnailFunction, ext, file)
 				if err != nil {
-					errStr = err.Error()
+					return errors.Wrapf(err, "cannot create thumbnail of '%s' in object '%s'", m.InternalName[0], object.GetID())
+				}
+				if toolErr != nil {
+					errStr = toolErr.Error()
 				}
 				found = &ThumbnailResult{
 					SourceDigest: cs,
@@ -380,8 +389,9 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 		}
 
 	}
-	thumb.writer.Flush()
-	thumb.writer.Close()
+	if err := thumb.writer.Close(); err != nil {
+		return errors.Wrapf(err, "cannot close thumbnail line writer for object '%s'", object.GetID())
+	}
 	thumb.writer = nil
 	buffer, ok := thumb.buffer[head]
 	if !ok {
@@ -417,8 +427,7 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 			}
 		}
 	*/
-	versions := inventory.GetVersions()
-	for v := range versions {
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := thumb.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
@@ -454,7 +463,8 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 
 			_, ok := manifest[meta.SourceDigest]
 			if !ok {
-				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.SourceDigest, object.GetID())
+				// the content has been replaced within the same update
+				continue
 			}
 
 			if _, ok := manifest[meta.ThumbDigest]; ok {
@@ -469,30 +479,29 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 				result[meta.ThumbDigest] = meta
 			}
 			// old versions do not have a filename
-			if meta.Filename == "" {
+			if meta.Filename == "" && meta.Error == "" {
 				meta.Filename = fmt.Sprintf("data/%s/%s/%s.%s", string([]rune(meta.SourceDigest)[0]), string([]rune(meta.SourceDigest)[1]), meta.SourceDigest, strings.ToLower(thumb.ThumbnailConfig.Ext))
-			}
-			switch strings.ToLower(thumb.StorageType) {
-			case "area":
-				areaPath, err := object.GetAreaPath(thumb.StorageName)
-				if err != nil {
-					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-				}
-				meta.Filename = fmt.Sprintf("%s/%s", areaPath, meta.Filename)
-			case "path":
-				areaPath, err := object.GetAreaPath("content")
-				if err != nil {
-					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-				}
-				if areaPath == "" {
-					meta.Filename = fmt.Sprintf("%s/%s", thumb.StorageName, meta.Filename)
-				} else {
-					meta.Filename = fmt.Sprintf("%s/%s/%s", areaPath, thumb.StorageName, meta.Filename)
+				switch strings.ToLower(thumb.StorageType) {
+				case "area":
+					areaPath, err := object.GetAreaPath(thumb.StorageName)
+					if err != nil {
+						return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
+					}
+					meta.Filename = fmt.Sprintf("%s/%s", areaPath, meta.Filename)
+				case "path":
+					areaPath, err := object.GetAreaPath("content")
+					if err != nil {
+						return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
+					}
+					if areaPath == "" {
+						meta.Filename = fmt.Sprintf("%s/%s", thumb.StorageName, meta.Filename)
+					} else {
+						meta.Filename = fmt.Sprintf("%s/%s/%s", areaPath, thumb.StorageName, meta.Filename)
+					}
+				case "extension":
+				default:
+					return nil, errors.Errorf("unsupported storage type '%s'", thumb.StorageType)
 				}
-			case "extension":
-				//				meta.Filename = fmt.Sprintf("extension/%s", meta.Filename)
-			default:
-				return nil, errors.Errorf("unsupported storage type '%s'", thumb.StorageType)
 			}
 
 			meta.StorageType = thumb.StorageType
diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index 529383b..e639fd7 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"gopkg.in/gographics/imagick.v3/imagick"
 	"io"
@@ -28,7 +27,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index 8dc0f7f..690afec 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -3,8 +3,8 @@
 package extension
 
 import (
+	"bytes"
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/nfnt/resize"
 	_ "golang.org/x/image/bmp"
@@ -36,7 +36,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
@@ -51,14 +51,16 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	rect := img.Bounds()
 	thumb.logger.Info().Msgf("image format: %s, size: %d x %d", format, rect.Dx(), rect.Dy())
 
-	rectAspect := rect.Dx() / rect.Dy()
-	thumbAspect := int(thumb.Width) / int(thumb.Height)
+	if rect.Dx() == 0 || rect.Dy() == 0 {
+		thumb.logger.Info().Msgf("image '%s' has no extent", stateFiles[0])
+		return nil
+	}
 	newHeight := uint(thumb.Height)
 	newWidth := uint(thumb.Width)
-	if rectAspect > thumbAspect {
-		newHeight = uint(rect.Dy() * int(thumb.Width) / rect.Dx())
+	if uint64(rect.Dx())*thumb.Height > uint64(rect.Dy())*thumb.Width {
+		newHeight = max(1, uint(uint64(rect.Dy())*thumb.Width/uint64(rect.Dx())))
 	} else {
-		newWidth = uint(rect.Dx() * int(thumb.Height) / rect.Dy())
+		newWidth = max(1, uint(uint64(rect.Dx())*thumb.Height/uint64(rect.Dy())))
 	}
 
 	newImg := resize.Resize(newWidth, newHeight, img, resize.Lanczos3)
@@ -68,33 +70,23 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if fsys == nil {
 		return errors.New("no filesystem set")
 	}
-	pr, pw := io.Pipe()
-	done := make(chan bool, 1)
-	go func() {
-		defer pw.Close()
-		var err error = nil
-		switch thumb.ThumbnailConfig.Ext {
-		case "png":
-			err = png.Encode(pw, newImg)
-		case "jpeg":
-			err = jpeg.Encode(pw, newImg, nil)
-		default:
-			err = errors.Errorf("unsupported image format '%s'", thumb.ThumbnailConfig.Ext)
-		}
-		if err != nil {
-			_ = pw.CloseWithError(errors.Wrap(err, "cannot encode image"))
-		}
-		done <- true
-	}()
+	var buffer = &bytes.Buffer{}
+	switch strings.ToLower(thumb.ThumbnailConfig.Ext) {
+	case "png":
+		err = png.Encode(buffer, newImg)
+	case "jpeg":
+		err = jpeg.Encode(buffer, newImg, nil)
+	}
+	if err != nil {
+		return errors.Wrapf(err, "cannot encode thumbnail of '%s'", stateFiles[0])
+	}
 
 	thumb.counter[head]++
-	targetFile, digest, err := thumb.storeThumbnail(object, head, pr)
+	targetFile, digest, err := thumb.storeThumbnail(object, head, io.NopCloser(buffer))
 	if err != nil {
 		return errors.Wrap(err, "cannot store thumbnail")
 	}
-	<-done
 
-	_ = digest
 	thumb.logger.Info().Msgf("thumbnail stored: %s", targetFile)
 	ml := &ThumbnailResult{
 		//SourceDigest: cs,
diff --git a/pkg/extension/NNNN-thumbnail_vips.go b/pkg/extension/NNNN-thumbnail_vips.go
index b397941..414b140 100644
--- a/pkg/extension/NNNN-thumbnail_vips.go
+++ b/pkg/extension/NNNN-thumbnail_vips.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/davidbyttow/govips/v2/vips"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
@@ -28,7 +27,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
diff --git a/pkg/subsystem/thumbnail/thumbnail.go b/pkg/subsystem/thumbnail/thumbnail.go
index 9ac53f3..0bd6ced 100644
--- a/pkg/subsystem/thumbnail/thumbnail.go
+++ b/pkg/subsystem/thumbnail/thumbnail.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -66,8 +67,19 @@ func (m *Thumbnail) GetFunctionByName(name string) (*Function, error) {
 	return nil, errors.Errorf("Thumbnail.Function.%s does not exist", name)
 }
 
+// names returns the names of the functions in a fixed order. If there is more than one function, it's always the same one
+func (m *Thumbnail) names() []string {
+	names := make([]string, 0, len(m.Functions))
+	for name := range m.Functions {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (m *Thumbnail) GetFunctionByPronom(pronom string) (*Function, error) {
-	for _, f := range m.Functions {
+	for _, name := range m.names() {
+		f := m.Functions[name]
 		for _, pro := range f.pronoms {
 			if pro == pronom {
 				return f, nil
@@ -78,7 +90,8 @@ func (m *Thumbnail) GetFunctionByPronom(pronom string) (*Function, error) {
 }
 
 func (m *Thumbnail) GetFunctionByMimetype(mime string) (*Function, error) {
-	for _, f := range m.Functions {
+	for _, name := range m.names() {
+		f := m.Functions[name]
 		for _, re := range f.mime {
 			if re.MatchString(mime) {
 				return f, nil
-- 
2.43.0


From 399b253eb58b478187b577c42cd7f3506b68b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 51/60] fix: a failed second migration does not hide the record
 of the first one

---
 pkg/extension/NNNN-migration.go | 50 ++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index c301172..822fa68 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -165,21 +165,16 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get metadata from object %s", object.GetID())
 	}
-	for _, m := range meta.Files {
-		// check whether already migrated
-		migrationMetaAny, ok := m.Extension[MigrationName]
-		if !ok {
-			continue
-		}
-		migrationMeta, ok := migrationMetaAny.(*MigrationResult)
-		if !ok {
-			continue
-		}
+	// check whether already migrated
+	records, err := mi.getRecords(object)
+	if err != nil {
+		return errors.Wrapf(err, "cannot get migrations of object %s", object.GetID())
+	}
+	for _, record := range records {
 		if _, ok := mi.migratedFiles[inventory.GetHead()]; !ok {
 			mi.migratedFiles[inventory.GetHead()] = map[string]string{}
 		}
-		mi.migratedFiles[inventory.GetHead()][migrationMeta.Source] = migrationMeta.ID
-
+		mi.migratedFiles[inventory.GetHead()][record.result.Source] = record.result.ID
 	}
 	for cs, m := range meta.Files {
 		indexerMetaAny, ok := m.Extension[IndexerName]
@@ -495,9 +490,16 @@ func (mi *Migration) targets(object ocfl.Object, mig *migration.Function, head s
 	return targetNames, extractTargetNames, nil
 }
 
-func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
+// migrationRecord is a recorded migration with the digest of the migrated file. If the migration failed it's the digest
+// of the original
+type migrationRecord struct {
+	digest string
+	result *MigrationResult
+}
+
+func (mi *Migration) getRecords(object ocfl.Object) ([]*migrationRecord, error) {
 	var err error
-	var result = map[string]any{}
+	var result = []*migrationRecord{}
 
 	inventory := object.GetInventory()
 	manifest := inventory.GetManifest()
@@ -507,7 +509,7 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			path2digest[name] = checksum
 		}
 	}
-	for v := range inventory.GetVersions() {
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := mi.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
@@ -555,7 +557,7 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Path, object.GetID())
 			}
 			meta.Migration.Source = digest
-			result[cs] = meta.Migration
+			result = append(result, &migrationRecord{digest: cs, result: meta.Migration})
 		}
 		if err := r.Err(); err != nil {
 			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
@@ -564,6 +566,22 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 	return result, nil
 }
 
+func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
+	records, err := mi.getRecords(object)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	var result = map[string]any{}
+	for _, record := range records {
+		// the origin of a migrated file is more important than its own failed migration
+		if _, ok := result[record.digest]; ok && record.result.Error != "" {
+			continue
+		}
+		result[record.digest] = record.result
+	}
+	return result, nil
+}
+
 var (
 	_ ocfl.Extension             = &Migration{}
 	_ ocfl.ExtensionObjectChange = &Migration{}
-- 
2.43.0


From 401ef5964e3061389952e0d52f11f82c0df0cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:19 +0000
Subject: [PATCH 52/60] fix: huge tuple configurations of 0007 and of the
 direct clean fallback do not panic

---
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 3 ++-
 pkg/extension/NNNN-direct-clean-path-layout.go           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 7a5aa45..f3f58fe 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -56,7 +56,8 @@ func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfi
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
-	if config.TupleSize < 1 || config.NumberOfTuples < 1 {
+	// both are integers between 1 and 32
+	if config.TupleSize < 1 || config.NumberOfTuples < 1 || config.TupleSize > 32 || config.NumberOfTuples > 32 {
 		return nil, errors.Errorf("invalid number of tuples %d or tuple size %d", config.NumberOfTuples, config.TupleSize)
 	}
 	if config.ZeroPadding != "left" && config.ZeroPadding != "right" {
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index b954f08..4e049bd 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -215,7 +215,7 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 
 	// add all necessary subfolders
 	tupleSize := max(sl.FallbackTupleSize, 1)
-	if sl.NumberOfFallbackTuples*tupleSize > len(digestString) {
+	if sl.NumberOfFallbackTuples > len(digestString)/tupleSize {
 		return "", errors.Errorf("digest %s too short for %d tuples of %d chars", sl.FallbackDigestAlgorithm, sl.NumberOfFallbackTuples, tupleSize)
 	}
 	for i := sl.NumberOfFallbackTuples - 1; i >= 0; i-- {
-- 
2.43.0


From ca09a92aaf36264d99687a660fb211869b8b4c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 53/60] fix: PREMIS defines every agent its events refer to

---
 pkg/extension/NNNN-mets.go | 150 ++++++++++++++++---------------------
 1 file changed, 63 insertions(+), 87 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index e150087..5bac75a 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -185,6 +185,52 @@ func checksumTypeToMets(t string) string {
 	}
 }
 
+const metsSoftwareAgent = "https://github.com/je4/gocfl"
+
+// metsAgents collects the agents of a PREMIS document, so that events link to existing agents only
+type metsAgents struct {
+	agents []*premis.AgentComplexType
+	known  map[[2]string]bool
+}
+
+var metsAgentTypes = map[string]*premis.StringPlusAuthority{
+	"organization": premis.NewStringPlusAuthority("organization", "agentType", "https://id.loc.gov/vocabulary/preservation/agentType", "https://id.loc.gov/vocabulary/preservation/agentType/org.html"),
+	"software":     premis.NewStringPlusAuthority("software", "agentType", "https://id.loc.gov/vocabulary/preservation/agentType", "https://id.loc.gov/vocabulary/preservation/agentType/sof.html"),
+	"local":        premis.NewStringPlusAuthority("local", "", "", ""),
+}
+
+// link adds the agent, if it is unknown, and returns the links to it. There's none if the agent is empty.
+func (ma *metsAgents) link(agentType, identifier, name string) []*premis.LinkingAgentIdentifierComplexType {
+	if identifier == "" {
+		identifier = name
+	}
+	if identifier == "" {
+		return nil
+	}
+	if !ma.known[[2]string{agentType, identifier}] {
+		ma.known[[2]string{agentType, identifier}] = true
+		ma.agents = append(ma.agents, &premis.AgentComplexType{
+			XMLName: xml.Name{},
+			AgentIdentifier: []*premis.AgentIdentifierComplexType{
+				&premis.AgentIdentifierComplexType{
+					XMLName:              xml.Name{},
+					AgentIdentifierType:  metsAgentTypes[agentType],
+					AgentIdentifierValue: identifier,
+				}},
+			AgentName: []*premis.StringPlusAuthority{
+				premis.NewStringPlusAuthority(name, "", "", ""),
+			},
+		})
+	}
+	return []*premis.LinkingAgentIdentifierComplexType{
+		&premis.LinkingAgentIdentifierComplexType{
+			XMLName:                     xml.Name{},
+			LinkingAgentIdentifierType:  metsAgentTypes[agentType],
+			LinkingAgentIdentifierValue: identifier,
+		},
+	}
+}
+
 /*
 type metaFileBase struct {
 	Address             string   `json:"address,omitempty"`
@@ -318,6 +364,15 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	}
 	premisFiles := []*premis.File{}
 	premisEvents := []*premis.EventComplexType{}
+	softwareAgentName := fmt.Sprintf("gocfl %s - Go OCFL implementation", version.VERSION)
+	agents := &metsAgents{known: map[[2]string]bool{}}
+	agents.link("organization", metafileOrgAgentIdentifier, metafileOrgAgentName)
+	if metafilePersonAgentName != "" {
+		agents.link("local", metafilePersonAgentIdentifier, metafilePersonAgentName)
+	} else {
+		agents.link("local", v.User.Address.String(), v.User.Name.String())
+	}
+	agents.link("software", metsSoftwareAgent, softwareAgentName)
 	dmdSecs := []*mets.MdSecType{}
 	fileGrpUUID := map[string]string{
 		"schemas":  uuid.NewString(),
@@ -426,29 +481,9 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 								EventOutcome: premis.NewStringPlusAuthority("success", "eventOutcome", "https://id.loc.gov/vocabulary/preservation/eventOutcome", "https://id.loc.gov/vocabulary/preservation/eventOutcome/suc.html"),
 							},
 						},
-						LinkingAgentIdentifier: []*premis.LinkingAgentIdentifierComplexType{
-							&premis.LinkingAgentIdentifierComplexType{
-								XMLName:                     xml.Name{},
-								LinkAgentXmlIDAttr:          "",
-								SimpleLinkAttr:              "",
-								LinkingAgentIdentifierType:  premis.NewStringPlusAuthority("local", "", "", ""),
-								LinkingAgentIdentifierValue: ver.Address,
-							},
-							&premis.LinkingAgentIdentifierComplexType{
-								XMLName:                     xml.Name{},
-								LinkAgentXmlIDAttr:          "",
-								SimpleLinkAttr:              "",
-								LinkingAgentIdentifierType:  premis.NewStringPlusAuthority("local", "", "", ""),
-								LinkingAgentIdentifierValue: metafileOrgAgentIdentifier,
-							},
-							&premis.LinkingAgentIdentifierComplexType{
-								XMLName:                     xml.Name{},
-								LinkAgentXmlIDAttr:          "",
-								SimpleLinkAttr:              "",
-								LinkingAgentIdentifierType:  premis.NewStringPlusAuthority("local", "", "", ""),
-								LinkingAgentIdentifierValue: "https://github.com/je4/gocfl",
-							},
-						},
+						LinkingAgentIdentifier: append(agents.link("local", ver.Address, ver.Name),
+							append(agents.link("organization", metafileOrgAgentIdentifier, metafileOrgAgentName),
+								agents.link("software", metsSoftwareAgent, softwareAgentName)...)...),
 						LinkingObjectIdentifier: []*premis.LinkingObjectIdentifierComplexType{
 							&premis.LinkingObjectIdentifierComplexType{
 								XMLName:                      xml.Name{},
@@ -768,16 +803,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						EventDateTime:           ver.Created.Format(time.RFC3339),
 						EventDetailInformation:  nil,
 						EventOutcomeInformation: []*premis.EventOutcomeInformationComplexType{},
-						LinkingAgentIdentifier: []*premis.LinkingAgentIdentifierComplexType{
-							&premis.LinkingAgentIdentifierComplexType{
-								XMLName:                     xml.Name{},
-								LinkAgentXmlIDAttr:          "",
-								SimpleLinkAttr:              "",
-								LinkingAgentIdentifierType:  premis.NewStringPlusAuthority("local", "", "", ""),
-								LinkingAgentIdentifierValue: migration.ID,
-								LinkingAgentRole:            nil,
-							},
-						},
+						LinkingAgentIdentifier:  agents.link("local", migration.ID, migration.ID),
 						LinkingObjectIdentifier: []*premis.LinkingObjectIdentifierComplexType{},
 					}
 					var sourcePath string
@@ -982,12 +1008,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 	}
-
-	agentIdentifier := metafilePersonAgentIdentifier
-	agentName := metafilePersonAgentName
-	if agentName == "" {
-		agentName = v.User.Name.String()
-		agentIdentifier = v.User.Address.String()
+	for _, sec := range dmdSecs {
+		structPhysical["metadata"] = append(structPhysical["metadata"], sec.IDAttr)
 	}
 
 	premisStruct := &premis.PremisComplexType{
@@ -999,54 +1021,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		VersionAttr:       "3.0",
 		Object:            premisFiles,
 		Event:             premisEvents,
-		Agent: []*premis.AgentComplexType{
-			&premis.AgentComplexType{
-				XMLName:     xml.Name{},
-				XmlIDAttr:   "",
-				VersionAttr: "",
-				AgentIdentifier: []*premis.AgentIdentifierComplexType{
-					&premis.AgentIdentifierComplexType{
-						XMLName:              xml.Name{},
-						SimpleLinkAttr:       "",
-						AgentIdentifierType:  premis.NewStringPlusAuthority("organization", "agentType", "https://id.loc.gov/vocabulary/preservation/agentType", "https://id.loc.gov/vocabulary/preservation/agentType/org.html"),
-						AgentIdentifierValue: metafileOrgAgentIdentifier,
-					}},
-				AgentName: []*premis.StringPlusAuthority{
-					premis.NewStringPlusAuthority(metafileOrgAgentName, "", "", ""),
-				},
-			},
-			&premis.AgentComplexType{
-				XMLName:     xml.Name{},
-				XmlIDAttr:   "",
-				VersionAttr: "",
-				AgentIdentifier: []*premis.AgentIdentifierComplexType{
-					&premis.AgentIdentifierComplexType{
-						XMLName:              xml.Name{},
-						SimpleLinkAttr:       "",
-						AgentIdentifierType:  premis.NewStringPlusAuthority("local", "", "", ""),
-						AgentIdentifierValue: agentIdentifier,
-					}},
-				AgentName: []*premis.StringPlusAuthority{
-					premis.NewStringPlusAuthority(agentName, "", "", ""),
-				},
-			},
-			&premis.AgentComplexType{
-				XMLName:     xml.Name{},
-				XmlIDAttr:   "",
-				VersionAttr: "",
-				AgentIdentifier: []*premis.AgentIdentifierComplexType{
-					&premis.AgentIdentifierComplexType{
-						XMLName:              xml.Name{},
-						SimpleLinkAttr:       "",
-						AgentIdentifierType:  premis.NewStringPlusAuthority("software", "agentType", "https://id.loc.gov/vocabulary/preservation/agentType", "https://id.loc.gov/vocabulary/preservation/agentType/sof.html"),
-						AgentIdentifierValue: "https://github.com/je4/gocfl",
-					}},
-				AgentName: []*premis.StringPlusAuthority{
-					premis.NewStringPlusAuthority(fmt.Sprintf("gocfl %s - Go OCFL implementation", version.VERSION), "", "", ""),
-				},
-			},
-		},
-		Rights: []*premis.RightsComplexType{},
+		Agent:             agents.agents,
+		Rights:            []*premis.RightsComplexType{},
 	}
 
 	premisBytes, err := xml.MarshalIndent(premisStruct, "", "  ")
-- 
2.43.0


From ce66d73875bb1fe35449f23a41293922812030c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:43 +0000
Subject: [PATCH 54/60] fix: METS and PREMIS state the size, digest algorithm
 and fixity of the stored files

---
 pkg/extension/NNNN-mets.go | 69 ++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 5bac75a..37c058c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -185,6 +185,29 @@ func checksumTypeToMets(t string) string {
 	}
 }
 
+// metsFileSize returns the size of a stored file
+func metsFileSize(object ocfl.Object, metaFile *ocfl.FileMetadata) int64 {
+	for _, intPath := range metaFile.InternalName {
+		if fi, err := fs.Stat(object.GetFS(), intPath); err == nil && fi.Mode().IsRegular() {
+			return fi.Size()
+		}
+	}
+	// there are filesystems which can not read files of the current session
+	if extFSL, ok := metaFile.Extension[FilesystemName].(map[string][]*FileSystemLine); ok {
+		for _, lines := range extFSL {
+			for _, line := range lines {
+				if line.Meta != nil && line.Meta.Size > 0 {
+					return int64(line.Meta.Size)
+				}
+			}
+		}
+	}
+	if extIndexer, ok := metaFile.Extension[IndexerName].(*indexer.ResultV2); ok {
+		return int64(extIndexer.Size)
+	}
+	return 0
+}
+
 const metsSoftwareAgent = "https://github.com/je4/gocfl"
 
 // metsAgents collects the agents of a PREMIS document, so that events link to existing agents only
@@ -267,7 +290,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	versions := inventory.GetVersions()
 	v, ok := versions[head]
 	if !ok {
-		return errors.Wrapf(err, "object has no version %s", head)
+		return errors.Errorf("object has no version %s", head)
 	}
 
 	var contentSubPath = map[string]ContentSubPathEntry{}
@@ -425,7 +448,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if extNames, ok := metaFile.VersionName[head]; ok {
 			for _, extPath := range extNames {
 				uuidString := internalFiledata[extPath].uuid
-				var size int64
+				size := metsFileSize(object, metaFile)
 				var creationString string
 
 				//		var fLocat = []*mets.FLocat{}
@@ -438,7 +461,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						if verHead, ok := extFSL[ver]; ok {
 							if len(verHead) > 0 {
 								creationString = verHead[0].Meta.CTime.Format("2006-01-02T15:04:05")
-								size = int64(verHead[0].Meta.Size)
 							}
 						}
 					}
@@ -452,7 +474,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						SIZEAttr:         size,
 						CREATEDAttr:      creationString,
 						CHECKSUMAttr:     cs,
-						CHECKSUMTYPEAttr: "SHA-512",
+						CHECKSUMTYPEAttr: checksumTypeToMets(string(inventory.GetDigestAlgorithm())),
 					},
 					IDAttr:  uuidString,
 					USEAttr: "Datafile",
@@ -510,20 +532,26 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					Storage:               []*premis.StorageComplexType{},
 				}
 				var mimeType string
+				fixity := []*premis.FixityComplexType{
+					premis.NewFixityComplexType(string(metadata.DigestAlgorithm), cs, "gocfl "+version.VERSION),
+				}
+				for digest, checksum := range metaFile.Checksums {
+					fixity = append(fixity,
+						premis.NewFixityComplexType(string(digest), checksum, "gocfl "+version.VERSION),
+					)
+				}
 				if ext, ok := metaFile.Extension[IndexerName]; ok {
 					extIndexer, ok := ext.(*indexer.ResultV2)
 					if !ok {
-						return errors.Wrapf(err, "invalid type: %v", ext)
+						return errors.Errorf("invalid type: %v", ext)
 					}
 					metsFile.FILECORE.MIMETYPEAttr = extIndexer.Mimetype
 					objectCharacter := &premis.ObjectCharacteristicsComplexType{
 						XMLName:          xml.Name{},
 						CompositionLevel: nil,
-						Fixity: []*premis.FixityComplexType{
-							premis.NewFixityComplexType(string(metadata.DigestAlgorithm), cs, "gocfl "+version.VERSION),
-						},
-						Size:   int64(extIndexer.Size),
-						Format: []*premis.FormatComplexType{},
+						Fixity:           fixity,
+						Size:             size,
+						Format:           []*premis.FormatComplexType{},
 					}
 					if extIndexer.Mimetype != "" {
 						objectCharacter.Format = append(objectCharacter.Format, &premis.FormatComplexType{
@@ -585,11 +613,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 							}
 						}
 					}
-					for digest, checksum := range metaFile.Checksums {
-						objectCharacter.Fixity = append(objectCharacter.Fixity,
-							premis.NewFixityComplexType(string(digest), checksum, "gocfl "+version.VERSION),
-						)
-					}
 					if extIndexer != nil {
 						if extIndexer.Width > 0 {
 							premisFile.SignificantProperties = append(premisFile.SignificantProperties,
@@ -604,9 +627,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 								premis.NewSignificantPropertiesComplexType("duration", fmt.Sprintf("%v", extIndexer.Duration)),
 							)
 						}
-						if extIndexer.Size > 0 {
-							objectCharacter.Size = int64(extIndexer.Size)
-						}
 					}
 					premisFile.ObjectCharacteristics = append(premisFile.ObjectCharacteristics, objectCharacter)
 				}
@@ -614,7 +634,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					premisFile.ObjectCharacteristics = append(premisFile.ObjectCharacteristics, &premis.ObjectCharacteristicsComplexType{
 						XMLName:          xml.Name{},
 						CompositionLevel: nil,
-						Fixity:           []*premis.FixityComplexType{},
+						Fixity:           fixity,
 						Size:             size,
 						Format: []*premis.FormatComplexType{
 							&premis.FormatComplexType{
@@ -788,7 +808,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 					migration, ok := migrationAny.(*MigrationResult)
 					if !ok {
-						return errors.Wrapf(err, "invalid type for migration of '%s': %v", cs, migrationAny)
+						return errors.Errorf("invalid type for migration of '%s': %v", cs, migrationAny)
 					}
 					eventMigration := &premis.EventComplexType{
 						XMLName:     xml.Name{},
@@ -948,7 +968,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		mdSecs2 = nil
 
 		var foundCreationString string
-		var foundSize int64
+		foundSize := metsFileSize(object, found)
 		if ext, ok := found.Extension[FilesystemName]; ok {
 			extFSL, ok := ext.(map[string][]*FileSystemLine)
 			if !ok {
@@ -958,7 +978,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				if verHead, ok := extFSL[ver]; ok {
 					if len(verHead) > 0 {
 						foundCreationString = verHead[0].Meta.CTime.Format("2006-01-02T15:04:05")
-						foundSize = int64(verHead[0].Meta.Size)
 					}
 				}
 			}
@@ -968,7 +987,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if ext, ok := found.Extension[IndexerName]; ok {
 			extIndexer, ok := ext.(*indexer.ResultV2)
 			if !ok {
-				return errors.Wrapf(err, "invalid type: %v", ext)
+				return errors.Errorf("invalid type: %v", ext)
 			}
 			foundMimetype = extIndexer.Mimetype
 		}
@@ -1067,7 +1086,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					"PREMIS",
 					"",
 					premisChecksum,
-					"SHA-512"),
+					"sha512"),
 			},
 		}
 		structPhysical["metadata"] = append(structPhysical["metadata"], id)
@@ -1084,7 +1103,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				"PREMIS",
 				"",
 				premisChecksum,
-				"SHA-512"))
+				"sha512"))
 			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 		amdSecs = append(amdSecs, sec)
-- 
2.43.0


From 1499df8e07ccaf050809c7cfbc70f184f72c6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 55/60] fix: METS lists every file of the version once, in its
 area, with unique identifiers and reachable locations

---
 pkg/extension/NNNN-mets.go | 232 ++++++++++++++++++-------------------
 1 file changed, 115 insertions(+), 117 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 37c058c..b1813a7 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -21,8 +21,9 @@ import (
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
+	"net/url"
+	"path"
 	"path/filepath"
-	"regexp"
 	"strings"
 	"time"
 )
@@ -107,7 +108,7 @@ type MetsConfig struct {
 	*ocfl.ExtensionConfig
 	StorageType                string `json:"storageType"`
 	StorageName                string `json:"storageName"`
-	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata,omitempty"`
+	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata"`
 	MetsFile                   string `json:"metsFile,omitempty"`
 	PremisFile                 string `json:"premisFile,omitempty"`
 }
@@ -158,12 +159,15 @@ func (me *Mets) WriteConfig() error {
 	return writeJSON(me.fsys, "config.json", me.MetsConfig)
 }
 
+// extensionFile returns the name of a file within the extension folder. A name with a placeholder is one per version.
+func (me *Mets) extensionFile(name, head string) string {
+	return strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, strings.ReplaceAll(name, "%s", head))), "/")
+}
+
 func (me *Mets) UpdateObjectBefore(object ocfl.Object) error {
 	return nil
 }
 
-var regexpIntPath = regexp.MustCompile(`´(v[0-9]+)/content/(.+)/.+`)
-
 func checksumTypeToMets(t string) string {
 	// Adler-32 CRC32 HAVAL MD5 MNP SHA-1 SHA-256 SHA-384 SHA-512 TIGER WHIRLPOOL
 	t = strings.ToUpper(t)
@@ -185,6 +189,42 @@ func checksumTypeToMets(t string) string {
 	}
 }
 
+// metsHref returns the reference of a path. References are URLs, so special characters have to be escaped.
+func metsHref(name string) string {
+	return (&url.URL{Path: name}).String()
+}
+
+// metsArea returns the area of a path, which is relative to the content folder, and whether the path is part
+// of the schemas within this area.
+func metsArea(name string, contentSubPath map[string]ContentSubPathEntry) (area string, isSchema bool) {
+	var prefix string
+	var found bool
+	for a, cse := range contentSubPath {
+		p := strings.Trim(filepath.ToSlash(filepath.Clean(cse.Path)), "/")
+		if p == "." {
+			p = ""
+		}
+		if p != "" {
+			p += "/"
+		}
+		if !strings.HasPrefix(name, p) {
+			continue
+		}
+		if !found || len(p) > len(prefix) || (len(p) == len(prefix) && a < area) {
+			found = true
+			area = a
+			prefix = p
+		}
+	}
+	if found {
+		return area, strings.HasPrefix(name[len(prefix):], "schemas/")
+	}
+	if first, _, ok := strings.Cut(name, "/"); ok {
+		return first, false
+	}
+	return "content", false
+}
+
 // metsFileSize returns the size of a stored file
 func metsFileSize(object ocfl.Object, metaFile *ocfl.FileMetadata) int64 {
 	for _, intPath := range metaFile.InternalName {
@@ -320,7 +360,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		}
 	}
 	var metsNames, premisNames *ocfl.NamesStruct
-	var internalRelativePath, externalRelativePath, internalRelativePathCurrentVersion string
+	metsDocument := path.Base(me.MetsFile)
 	switch strings.ToLower(me.StorageType) {
 	case "area":
 		metsNames, err = object.BuildNames([]string{me.MetsFile}, me.StorageName)
@@ -332,54 +372,34 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build names for %s", me.PremisFile)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
+		areaPath, err := object.GetAreaPath("content")
 		if err != nil {
 			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(areaPath, me.StorageName, me.MetsFile)), "/")
 		metsNames, err = object.BuildNames([]string{metsName}, "full")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", metsName)
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(areaPath, me.StorageName, me.PremisFile)), "/")
 		premisNames, err = object.BuildNames([]string{premisName}, "full")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
+		// files of the extension have no name in the object state
 		metsNames = &ocfl.NamesStruct{
-			ExternalPaths: []string{me.MetsFile},
-			InternalPath:  metsName,
-			ManifestPath:  "",
+			InternalPath: me.extensionFile(me.MetsFile, head),
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		metsDocument = path.Base(metsNames.InternalPath)
+		metsNames.ManifestPath = path.Join("extensions", METSName, metsNames.InternalPath)
 		premisNames = &ocfl.NamesStruct{
-			ExternalPaths: []string{me.PremisFile},
-			InternalPath:  premisName,
-			ManifestPath:  "",
+			InternalPath: me.extensionFile(me.PremisFile, head),
 		}
+		premisNames.ManifestPath = path.Join("extensions", METSName, premisNames.InternalPath)
 	default:
 		return errors.Errorf("unsupported storage type '%s'", me.StorageType)
 	}
-	if len(premisNames.ExternalPaths) == 0 {
-		return errors.Errorf("no external path for premis file")
-	}
-	if len(metsNames.ExternalPaths) == 0 {
-		return errors.Errorf("no external path for mets file")
-	}
-	parts := strings.Split(metsNames.ExternalPaths[0], "/")
-	for i := 1; i < len(parts); i++ {
-		externalRelativePath += "../"
-	}
-	parts = strings.Split(metsNames.InternalPath, "/")
-	for i := 1; i < len(parts)+2; i++ {
-		internalRelativePath += "../"
-	}
-	for i := 1; i < len(parts); i++ {
-		internalRelativePathCurrentVersion += "../"
-	}
-
 	metsFiles := map[string][]*mets.FileType{
 		"schemas":  []*mets.FileType{},
 		"content":  []*mets.FileType{},
@@ -397,6 +417,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	}
 	agents.link("software", metsSoftwareAgent, softwareAgentName)
 	dmdSecs := []*mets.MdSecType{}
+	// logical name of the file which is described by a section
+	dmdSecNames := map[string]string{}
 	fileGrpUUID := map[string]string{
 		"schemas":  uuid.NewString(),
 		"content":  uuid.NewString(),
@@ -448,6 +470,9 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if extNames, ok := metaFile.VersionName[head]; ok {
 			for _, extPath := range extNames {
 				uuidString := internalFiledata[extPath].uuid
+				extArea, isSchema := metsArea(extPath, contentSubPath)
+				// the name belongs to the documents of this version, the content to those of an earlier one
+				isDocument := slices.Contains(metsNames.ExternalPaths, extPath) || slices.Contains(premisNames.ExternalPaths, extPath)
 				size := metsFileSize(object, metaFile)
 				var creationString string
 
@@ -648,34 +673,20 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						},
 					})
 				}
-				for _, intPath := range metaFile.InternalName {
-					parts := strings.Split(intPath, "/")
-					if len(parts) <= 2 {
-						return errors.Wrapf(err, "invalid path %s", intPath)
-					}
-					if parts[1] != "content" {
-						return errors.Wrapf(err, "no content in %s", intPath)
-					}
-					var intArea = "content"
-					var isSchema bool
-					//					var intSemantic = "Other Payload"
-					if len(parts) > 3 {
-						if contentSubPath != nil {
-							intArea = parts[2]
-							// intSemantic = ""
-							for area, cse := range contentSubPath {
-								if cse.Path == intArea {
-									intArea = area
-									// intSemantic = cse.Description
-									isSchema = parts[3] == "schemas"
-									break
-								}
-							}
+				if isSchema {
+					structPhysical["schemas"] = append(structPhysical["schemas"], uuidString)
+				} else if extArea != "metadata" {
+					structPhysical[extArea] = append(structPhysical[extArea], uuidString)
+				}
+				for num, intPath := range metaFile.InternalName {
+					if extArea == "metadata" && !isSchema {
+						id := fmt.Sprintf("dmdSec-int-%s", uuidString)
+						if num > 0 {
+							id = fmt.Sprintf("%s-%d", id, num+1)
 						}
-					}
-					if intArea == "metadata" && !isSchema {
+						dmdSecNames[id] = extPath
 						dmdSecs = append(dmdSecs, newMDSec(
-							fmt.Sprintf("dmdSec-int-%s", uuidString),
+							id,
 							"area-metadata",
 							intPath,
 							"OTHER",
@@ -690,17 +701,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						continue
 					}
 
-					if isSchema {
-						structPhysical["schemas"] = append(structPhysical["schemas"], uuidString)
-					} else {
-						structPhysical[intArea] = append(structPhysical[intArea], uuidString)
-					}
 					/*
 						if intSemantic != "" {
 							structSemantical[intSemantic] = append(structSemantical[intSemantic], uuidString)
 						}
 					*/
-					href := intPath
+					href := metsHref(intPath)
 					metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
 						LOCATION: &mets.LOCATION{
 							LOCTYPEAttr:      "OTHER",
@@ -729,25 +735,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				}
 				//		if extNames, ok := metaFile.VersionName[head]; ok {
 				//			for _, extPath := range extNames {
-				parts := strings.Split(extPath, "/")
-				var extArea = "content"
-				var isSchema bool
-				if len(parts) > 1 {
-					if contentSubPath != nil {
-						extArea = parts[0]
-						for area, cse := range contentSubPath {
-							if cse.Path == extArea {
-								extArea = area
-								isSchema = parts[1] == "schemas"
-								break
-							}
-						}
-					}
-				}
 				if extArea == "metadata" && !isSchema {
-					if !slices.Contains([]string{metsNames.ExternalPaths[0], premisNames.ExternalPaths[0]}, extPath) {
+					if !isDocument {
+						id := fmt.Sprintf("dmdSec-ext-%s", uuidString)
+						dmdSecNames[id] = extPath
 						dmdSecs = append(dmdSecs, newMDSec(
-							fmt.Sprintf("dmdSec-ext-%s", uuidString),
+							id,
 							"area-metadata",
 							extPath,
 							"URL",
@@ -760,19 +753,23 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 							cs,
 							string(inventory.GetDigestAlgorithm())))
 					}
+					// the events refer to it
+					premisFiles = append(premisFiles, premisFile)
 					continue
 				}
 
-				metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
-					LOCATION: &mets.LOCATION{
-						LOCTYPEAttr: "URL",
-					},
-					SimpleLink: &mets.SimpleLink{
-						//XMLName:          xml.Name{},
-						TypeAttr: "simple",
-						XlinkHrefAttr:/* externalRelativePath + */ extPath,
-					},
-				})
+				if !isDocument {
+					metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
+						LOCATION: &mets.LOCATION{
+							LOCTYPEAttr: "URL",
+						},
+						SimpleLink: &mets.SimpleLink{
+							//XMLName:          xml.Name{},
+							TypeAttr: "simple",
+							XlinkHrefAttr:/* externalRelativePath + */ metsHref(extPath),
+						},
+					})
+				}
 				/*
 					premisFile.Storage = append(premisFile.Storage, &premis.StorageComplexType{
 						XMLName: xml.Name{},
@@ -899,8 +896,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			if len(contentSubPath) == 0 {
 				metaFilename = filepath.ToSlash(filepath.Clean(parts[1]))
 			} else {
-				if path, ok := contentSubPath[metaArea]; ok {
-					metaFilename = filepath.ToSlash(filepath.Join(path.Path, parts[1]))
+				if cse, ok := contentSubPath[metaArea]; ok {
+					metaFilename = filepath.ToSlash(filepath.Join(cse.Path, parts[1]))
 				} else {
 					return errors.Errorf("cannot find content sub path '%s' for file '%s'", metaArea, me.PrimaryDescriptiveMetadata)
 				}
@@ -908,8 +905,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		case 3:
 			metaType = parts[0]
 			metaArea = parts[1]
-			if path, ok := contentSubPath[metaArea]; ok {
-				metaFilename = filepath.ToSlash(filepath.Join(path.Path, parts[2]))
+			if cse, ok := contentSubPath[metaArea]; ok {
+				metaFilename = filepath.ToSlash(filepath.Join(cse.Path, parts[2]))
 			} else {
 				return errors.Errorf("cannot find content sub path '%s' for file '%s'", metaArea, me.PrimaryDescriptiveMetadata)
 			}
@@ -955,14 +952,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			}
 		*/
 
-		// remove any existing mdSecs with the same checksum
+		// remove any existing mdSecs of the same file
 		// todo: do it for internal and external name separately
 		mdSecs2 := dmdSecs
 		dmdSecs = make([]*mets.MdSecType, 0, len(mdSecs2))
 		for i := 0; i < len(mdSecs2); i++ {
-			if mdSecs2[i].MdRef.CHECKSUMAttr != foundChecksum {
+			if dmdSecNames[mdSecs2[i].IDAttr] != metaFilename {
 				dmdSecs = append(dmdSecs, mdSecs2[i])
-				structPhysical["metadata"] = append(structPhysical["metadata"], mdSecs2[i].IDAttr)
 			}
 		}
 		mdSecs2 = nil
@@ -1007,14 +1003,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				otherMetaType,
 				foundChecksum,
 				string(inventory.GetDigestAlgorithm())))
-			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 		if len(found.VersionName[head]) > 0 {
 			id := fmt.Sprintf("dmdSec-ext-%s-%s", slug.Make(object.GetID()), head)
 			dmdSecs = append(dmdSecs, newMDSec(
 				id,
 				"primary-metadata",
-				found.VersionName[head][0],
+				metaFilename,
 				"URL",
 				"",
 				foundMimetype,
@@ -1024,7 +1019,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				otherMetaType,
 				foundChecksum,
 				string(inventory.GetDigestAlgorithm())))
-			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 	}
 	for _, sec := range dmdSecs {
@@ -1056,6 +1050,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if len(files) == 0 {
 			continue
 		}
+		// not every area is configured
+		if _, ok := fileGrpUUID[a]; !ok {
+			fileGrpUUID[a] = uuid.NewString()
+		}
 		metsFileGrps = append(metsFileGrps, &mets.FileGrp{
 			XMLName: xml.Name{},
 			FileGrpType: &mets.FileGrpType{
@@ -1077,7 +1075,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				newMDSec(
 					id,
 					"",
-					premisNames.InternalPath,
+					premisNames.ManifestPath,
 					"OTHER",
 					"URL:internal",
 					"application/xml",
@@ -1255,7 +1253,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				AltRecordID: nil,
 				MetsDocumentID: &mets.MetsDocumentID{
 					XMLName: xml.Name{},
-					Value:   "mets.xml",
+					Value:   metsDocument,
 				},
 			},
 			DmdSec: dmdSecs,
@@ -1298,12 +1296,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
+		areaPath, err := object.GetAreaPath("content")
 		if err != nil {
 			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(areaPath, me.StorageName, me.MetsFile)), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(areaPath, me.StorageName, me.PremisFile)), "/")
 
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(metsBytes)), []string{metsName}, area, true, false); err != nil {
 		if err := object.AddData(metsBytes, metsName, false, "full", true, false); err != nil {
@@ -1313,20 +1311,20 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", premisName)
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.METSXSD)), []string{"schemas/mets.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.METSXSD, "schemas/mets.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.METSXSD, path.Join(path.Dir(metsName), "schemas/mets.xsd"), true, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/mets.xsd")
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.PremisXSD)), []string{"schemas/premis.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.PremisXSD, "schemas/premis.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.PremisXSD, path.Join(path.Dir(metsName), "schemas/premis.xsd"), true, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/premis.xsd")
 		}
 		//if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.XLinkXSD)), []string{"schemas/xlink.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.XLinkXSD, "schemas/xlink.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.XLinkXSD, path.Join(path.Dir(metsName), "schemas/xlink.xsd"), true, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		metsName := metsNames.InternalPath
+		premisName := premisNames.InternalPath
 		for _, name := range []string{metsName, premisName} {
 			if err := ocfl.CheckPath(name); err != nil {
 				return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, name)
@@ -1338,13 +1336,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if _, err := writefs.WriteFile(me.fsys, premisName, premisBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, premisName)
 		}
-		if _, err := writefs.WriteFile(me.fsys, "schemas/mets.xsd", specs.METSXSD); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, path.Join(path.Dir(metsName), "schemas/mets.xsd"), specs.METSXSD); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, "schemas/mets.xsd")
 		}
-		if _, err := writefs.WriteFile(me.fsys, "schemas/premis.xsd", specs.PremisXSD); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, path.Join(path.Dir(metsName), "schemas/premis.xsd"), specs.PremisXSD); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, "schemas/premis.xsd")
 		}
-		if _, err := writefs.WriteFile(me.fsys, "schemas/xlink.xsd", specs.XLinkXSD); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, path.Join(path.Dir(metsName), "schemas/xlink.xsd"), specs.XLinkXSD); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, "schemas/xlink.xsd")
 		}
 	default: // cannot happen here
@@ -1368,7 +1366,7 @@ func newMDSec(id, groupid, href, loctype, otherloctype, mimetype, created string
 		MdRef: &mets.MdRef{
 			XMLName:          xml.Name{},
 			TypeAttr:         "simple",
-			XlinkHrefAttr:    href,
+			XlinkHrefAttr:    metsHref(href),
 			LOCTYPEAttr:      loctype,
 			OTHERLOCTYPEAttr: otherloctype,
 			MDTYPEAttr:       mdType,
-- 
2.43.0


From 29a8768950a0fa1761f4696c56ddc93b1dc7d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:36 +0000
Subject: [PATCH 56/60] fix: an update without changes through an object that
 had been updated before created another version

---
 pkg/ocfl/inventory.go     | 1 +
 pkg/ocfl/inventorybase.go | 3 +++
 pkg/ocfl/objectbase.go    | 1 +
 3 files changed, 5 insertions(+)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index e572747..c733ef3 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -42,6 +42,7 @@ type Inventory interface {
 	GetFixityDigestAlgorithm() []checksum.DigestAlgorithm
 	IsWriteable() bool
 	IsModified() bool
+	setCommitted()
 	BuildManifestName(stateFilename string) string
 	BuildManifestNameVersion(stateFilename string, version string) string
 	NewVersion(msg, UserName, UserAddress string) error
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index fa95475..84352ac 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -214,6 +214,9 @@ func (i *InventoryBase) GetFixityDigestAlgorithm() []checksum.DigestAlgorithm {
 func (i *InventoryBase) IsWriteable() bool { return i.writeable }
 func (i *InventoryBase) IsModified() bool  { return i.modified }
 
+// setCommitted marks all changes as stored, only further ones make another version
+func (i *InventoryBase) setCommitted() { i.modified = false }
+
 func (i *InventoryBase) GetVersionStrings() []string {
 	if len(i.Versions.Versions) == 0 {
 		return []string{}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 2cea412..30c2b42 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -568,6 +568,7 @@ func (object *ObjectBase) Close() error {
 	if err := object.StoreInventory(false, true); err != nil {
 		return errors.Wrap(err, "cannot store inventory")
 	}
+	object.i.setCommitted()
 	return nil
 }
 
-- 
2.43.0


From 9d0b0ae216b6cdded4a8a08aabff2cde4d1c5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 57/60] fix: stored migration and thumbnail records that cannot
 be read were taken as missing

---
 pkg/extension/NNNN-migration.go | 7 +++++--
 pkg/extension/NNNN-thumbnail.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 822fa68..d98be34 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -522,8 +522,11 @@ func (mi *Migration) getRecords(object ocfl.Object) ([]*migrationRecord, error)
 		} else {
 			data, err = ocfl.ReadJsonL(object, "migration", v, mi.MigrationConfig.Compress, mi.StorageType, mi.StorageName, mi.fsys)
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				// nothing recorded for this version
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index c17c75e..ac8c5df 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -440,8 +440,11 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 		} else {
 			data, err = ocfl.ReadJsonL(object, "thumbnail", v, thumb.ThumbnailConfig.Compress, thumb.StorageType, thumb.StorageName, thumb.fsys)
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				// nothing recorded for this version
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
-- 
2.43.0


From 5071aeebe7543546a033175450c3d4ab854436e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 58/60] fix: the viewer reports objects whose areas include no
 metadata area

---
 gocfl/cmd/display/server.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index d260dbc..cabd5d9 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -868,7 +868,8 @@ func (s *Server) report(c *gin.Context) {
 	}
 
 	cfg, err := extManager.GetConfigName(extension.MetaFileName)
-	if err != nil {
+	hasMetaFile := err == nil
+	if !hasMetaFile {
 		cfg = &extension.MetaFileConfig{
 			ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.MetaFileName},
 			StorageType:     "area",
@@ -906,17 +907,19 @@ func (s *Server) report(c *gin.Context) {
 		}
 		fname := filepath.ToSlash(filepath.Join(path, metafileCfg.MetaName))
 		mPath, err := extManager.BuildObjectManifestPath(object, fname, area)
-		if err != nil {
+		if err != nil && hasMetaFile {
 			c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot map %s:%s", area, fname).Error()})
 			return
 		}
 
-		// search for newest info file
-		for _, ver := range inventory.GetVersionStrings() {
-			fullpath := filepath.ToSlash(filepath.Join(ver, inventory.GetContentDir(), mPath))
-			jsonData, err := fs.ReadFile(object.GetFS(), fullpath)
-			if err == nil && len(jsonData) > 0 {
-				infoBytes = jsonData
+		// search for newest info file. without the extension, the object need not have an area for metadata
+		if err == nil {
+			for _, ver := range inventory.GetVersionStrings() {
+				fullpath := filepath.ToSlash(filepath.Join(ver, inventory.GetContentDir(), mPath))
+				jsonData, err := fs.ReadFile(object.GetFS(), fullpath)
+				if err == nil && len(jsonData) > 0 {
+					infoBytes = jsonData
+				}
 			}
 		}
 	}
-- 
2.43.0


From 58e1db4a1dca64c5978a0c5583ac0d9123acb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:20 +0000
Subject: [PATCH 59/60] fix: METS gives each file its own creation time

---
 pkg/extension/NNNN-mets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index b1813a7..4c005dd 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -484,9 +484,15 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 					for _, ver := range inventory.GetVersionStrings() {
 						if verHead, ok := extFSL[ver]; ok {
-							if len(verHead) > 0 {
+							if len(verHead) > 0 && creationString == "" {
 								creationString = verHead[0].Meta.CTime.Format("2006-01-02T15:04:05")
 							}
+							// other files may have the same content
+							for _, line := range verHead {
+								if line.Path == extPath {
+									creationString = line.Meta.CTime.Format("2006-01-02T15:04:05")
+								}
+							}
 						}
 					}
 
-- 
2.43.0


From 0eec60b910c4bf0a6132eecc07844fb1aef28789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:44 +0000
Subject: [PATCH 60/60] fix: updates keep earlier versions without user or
 message and their times as they are

---
 pkg/ocfl/inventorybase.go  |  4 +++-
 pkg/ocfl/inventorytypes.go | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 84352ac..a5af271 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -154,6 +154,7 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
+			version.User.absent = true
 		}
 		if version.User.Name == nil && version.User.err == nil {
 			i.addValidationError(E054, "no user name in version '%s'", ver)
@@ -162,6 +163,7 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		if version.Message == nil {
 			i.addValidationWarning(W007, "no message key in version '%s'", ver)
 			version.Message = NewOCFLString("")
+			version.Message.absent = true
 		}
 		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
 		if err != nil {
@@ -769,7 +771,7 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		}
 	}
 	i.Versions.Versions[i.Head.string] = &Version{
-		Created: &OCFLTime{time.Now(), nil},
+		Created: &OCFLTime{Time: time.Now()},
 		Message: NewOCFLString(msg),
 		State:   &OCFLState{State: map[string][]string{}},
 		User:    NewOCFLUser(UserName, UserAddress),
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 932e00d..855dc40 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -43,6 +43,8 @@ func (s *OCFLState) MarshalJSON() ([]byte, error) {
 type OCFLString struct {
 	string
 	err error
+	// absent marks a stand-in for a key which the inventory does not have
+	absent bool
 }
 
 func NewOCFLString(str string) *OCFLString {
@@ -73,9 +75,14 @@ func (s *OCFLString) String() string {
 type OCFLTime struct {
 	time.Time
 	err error
+	// text is the time as it is written in the inventory
+	text string
 }
 
 func (t *OCFLTime) MarshalJSON() ([]byte, error) {
+	if t.text != "" {
+		return json.Marshal(t.text)
+	}
 	tstr := t.Format(time.RFC3339)
 	return json.Marshal(tstr)
 }
@@ -91,6 +98,7 @@ func (t *OCFLTime) UnmarshalJSON(data []byte) error {
 		return nil
 	}
 	t.Time = tt
+	t.text = str
 
 	return nil
 }
@@ -102,6 +110,8 @@ type User struct {
 type OCFLUser struct {
 	User
 	err error
+	// absent marks a stand-in for a key which the inventory does not have
+	absent bool
 }
 
 func NewOCFLUser(name, address string) *OCFLUser {
@@ -127,12 +137,21 @@ func (u *OCFLUser) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+func (u *OCFLUser) MarshalJSON() ([]byte, error) {
+	user := u.User
+	if user.Address != nil && user.Address.absent {
+		user.Address = nil
+	}
+	return json.Marshal(user)
+}
+
 func (u *OCFLUser) Finalize() {
 	if u.Name == nil {
 		u.Name = NewOCFLString("")
 	}
 	if u.Address == nil {
 		u.Address = NewOCFLString("")
+		u.Address.absent = true
 	}
 }
 
@@ -143,6 +162,23 @@ type Version struct {
 	User    *OCFLUser   `json:"user"`
 }
 
+// MarshalJSON leaves out what the inventory did not have
+func (v *Version) MarshalJSON() ([]byte, error) {
+	version := struct {
+		Created *OCFLTime   `json:"created"`
+		Message *OCFLString `json:"message,omitempty"`
+		State   *OCFLState  `json:"state"`
+		User    *OCFLUser   `json:"user,omitempty"`
+	}{Created: v.Created, State: v.State}
+	if v.Message != nil && !v.Message.absent {
+		version.Message = v.Message
+	}
+	if v.User != nil && !v.User.absent {
+		version.User = v.User
+	}
+	return json.Marshal(version)
+}
+
 func (v *Version) EqualMeta(v2 *Version) bool {
 	if v2 == nil {
 		return false
-- 
2.43.0

