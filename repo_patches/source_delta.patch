From f90a73e5540d04211e299bbf72bbbdfb506f1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 01/27] fix: do not select sibling directories that share a
 name prefix with the argument

---
 internal/exec/runner.go     |  8 ++++----
 internal/file/file.go       | 16 ++++++++++++++++
 internal/lint/lint.go       |  2 +-
 internal/protoc/compiler.go | 10 ++++------
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..1f53a6d 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !file.IsWithin(absDirPath, absWorkDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/file/file.go b/internal/file/file.go
index 5ba949d..fcd2f46 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -23,6 +23,7 @@ package file
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -150,6 +151,21 @@ func CheckAbs(path string) error {
 	return nil
 }
 
+// IsWithin returns true if path is dirPath, or resides within dirPath.
+//
+// Both paths must be absolute and cleaned. As opposed to strings.HasPrefix,
+// this does not consider /a/foobar to be within /a/foo.
+func IsWithin(path string, dirPath string) bool {
+	if path == dirPath {
+		return true
+	}
+	separator := string(filepath.Separator)
+	if !strings.HasSuffix(dirPath, separator) {
+		dirPath += separator
+	}
+	return strings.HasPrefix(path, dirPath)
+}
+
 // IsExcluded determines whether the given filePath should be excluded.
 //
 // absConfigDirPath represents the absolute path to the configuration file.
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..c5496ba 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..c6b5c0b 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !file.IsWithin(dirPath, protoSet.DirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if file.IsWithin(dirPath, includePath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if file.IsWithin(dirPath, wellKnownTypesIncludePath) {
 			fileInIncludePath = true
 		}
 	}
-- 
2.43.0


From 3b557ed2e6dad865546d0be15a61c6a5950436db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 02/27] fix: never report success after an interrupt while
 protoc is running

A SIGINT or SIGTERM received while protoc is running made the compile return
nil: the command went on with later phases and exited 0. Later protoc
processes were still started, the signals stayed registered for ever, and a
signal that arrived before the process was started caused a nil dereference.
---
 internal/protoc/compiler.go | 68 +++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c6b5c0b..c99422f 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -22,6 +22,7 @@ package protoc
 
 import (
 	"bytes"
+	"context"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -35,6 +36,7 @@ import (
 	"strings"
 	"sync"
 	"syscall"
+	"time"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/golang/protobuf/protoc-gen-go/descriptor"
@@ -123,6 +125,31 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 			return nil, err
 		}
 	}
+
+	// If Prototool receives a SIGINT or SIGTERM while protoc is running, we
+	// terminate all protoc processes, do not start any more, and return an error.
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+	signalC := make(chan os.Signal, 1)
+	signal.Notify(signalC, syscall.SIGINT, syscall.SIGTERM)
+	defer signal.Stop(signalC)
+	receivedSignalC := make(chan os.Signal, 1)
+	go func() {
+		defer close(receivedSignalC)
+		select {
+		case receivedSignal := <-signalC:
+			receivedSignalC <- receivedSignal
+			cancel()
+		case <-ctx.Done():
+			// we are done, but do not lose a signal that was already received
+			select {
+			case receivedSignal := <-signalC:
+				receivedSignalC <- receivedSignal
+			default:
+			}
+		}
+	}()
+
 	var failures []*text.Failure
 	var errs []error
 	var lock sync.Mutex
@@ -134,7 +161,7 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 		semaphoreC <- struct{}{}
 		go func() {
 			defer wg.Done()
-			iFailures, iErr := c.runCmdMeta(cmdMeta)
+			iFailures, iErr := c.runCmdMeta(ctx, cmdMeta)
 			lock.Lock()
 			failures = append(failures, iFailures...)
 			if iErr != nil {
@@ -145,6 +172,12 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 		}()
 	}
 	wg.Wait()
+	// from here on, signals have their default behavior again
+	signal.Stop(signalC)
+	cancel()
+	if receivedSignal, ok := <-receivedSignalC; ok {
+		return nil, fmt.Errorf("received signal while running protoc: %v", receivedSignal)
+	}
 	// errors are not text.Failures, these are actual unhandled
 	// system errors from calling protoc, so we short circuit
 	if len(errs) > 0 {
@@ -239,7 +272,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 	return nil
 }
 
-func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
+func (c *compiler) runCmdMeta(ctx context.Context, cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	c.logger.Debug("running protoc", zap.String("command", cmdMeta.String()))
 	buffer := bytes.NewBuffer(nil)
 	cmdMeta.execCmd.Stderr = buffer
@@ -248,26 +281,31 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	// is a stdout, it will be printed to os.Stdout.
 	cmdMeta.execCmd.Stdout = ioutil.Discard
 
-	// Prepare a signal buffer so that we can kill the protoc
-	// process when Prototool receives a SIGINT or SIGTERM.
-	sig := make(chan os.Signal, 1)
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+	if err := cmdMeta.execCmd.Start(); err != nil {
+		return nil, err
+	}
 	done := make(chan error, 1)
-	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
-
 	go func() {
-		done <- cmdMeta.execCmd.Run()
+		done <- cmdMeta.execCmd.Wait()
 	}()
 
 	var runErr error
 	select {
-	case s := <-sig:
+	case <-ctx.Done():
 		// Kill the process, and terminate early.
-		c.logger.Debug(
-			"terminating protoc",
-			zap.String("command", cmdMeta.String()),
-			zap.String("signal", s.String()),
-		)
-		return nil, cmdMeta.execCmd.Process.Kill()
+		c.logger.Debug("terminating protoc", zap.String("command", cmdMeta.String()))
+		// This can only fail if the process already completed.
+		_ = cmdMeta.execCmd.Process.Kill()
+		// Plugins can outlive protoc and keep its output open, so do not
+		// wait for the end of the output forever.
+		select {
+		case <-done:
+		case <-time.After(time.Second):
+		}
+		return nil, ctx.Err()
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
 		// if not an exec.ExitError, short circuit.
-- 
2.43.0


From bdbe7286369246ddf069fc0c06b7599da38041c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 03/27] fix: rewrite formatted files atomically

format -w, format -f -w and all truncated the file and then wrote it, so a
crash, a full disk or an I/O error lost the source file.
---
 internal/exec/runner.go |  2 +-
 internal/file/file.go   | 49 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 1f53a6d..ccf7195 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -536,7 +536,7 @@ func (r *runner) formatFile(overwrite bool, diffMode bool, lintMode bool, fix in
 	if !bytes.Equal(input, data) {
 		if overwrite {
 			// 0 exit code in overwrite case
-			return true, ioutil.WriteFile(protoFile.Path, data, os.ModePerm)
+			return true, file.Replace(protoFile.Path, data)
 		}
 		if lintMode {
 			return false, r.printFailures("", meta, text.NewFailuref(scanner.Position{
diff --git a/internal/file/file.go b/internal/file/file.go
index fcd2f46..31b5622 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -22,6 +22,8 @@ package file
 
 import (
 	"fmt"
+	"io/ioutil"
+	"os"
 	"path/filepath"
 	"strings"
 	"time"
@@ -181,3 +183,50 @@ func IsExcluded(absFilePath string, absConfigDirPath string, absExcludePaths ...
 	return false
 
 }
+
+// Replace replaces the content of the existing file at the given path with the given data.
+//
+// The file has either the complete old or the complete new content at every point in time,
+// and the old content if an error is returned. The permissions of the file are kept, and if
+// the path is a symbolic link, the file it links to is replaced.
+func Replace(path string, data []byte) (retErr error) {
+	realPath, err := filepath.EvalSymlinks(path)
+	if err != nil {
+		return err
+	}
+	// we would be able to replace a file that we are not allowed to write to
+	file, err := os.OpenFile(realPath, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	fileInfo, err := file.Stat()
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	tempFile, err := ioutil.TempFile(filepath.Dir(realPath), ".prototool")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if retErr != nil {
+			_ = os.Remove(tempFile.Name())
+		}
+	}()
+	_, err = tempFile.Write(data)
+	if err == nil {
+		err = tempFile.Chmod(fileInfo.Mode())
+	}
+	if err == nil {
+		err = tempFile.Sync()
+	}
+	if closeErr := tempFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tempFile.Name(), realPath)
+}
-- 
2.43.0


From 033c531471cb6444188f6b26d9c7de06c2dfb5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 04/27] fix: do not fall back to another configuration if a
 configuration file cannot be examined

---
 internal/settings/config_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..59a36ae 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -142,6 +142,9 @@ func getSingleFilePathForDir(dirPath string) (string, error) {
 		filePath := filepath.Join(dirPath, configFilename)
 		if _, err := os.Stat(filePath); err == nil {
 			filePaths = append(filePaths, filePath)
+		} else if !os.IsNotExist(err) {
+			// the file may exist, do not silently fall back to another configuration
+			return "", err
 		}
 	}
 	switch len(filePaths) {
-- 
2.43.0


From e1d97a2a749f0650de2ef87c26856f47155e8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 05/27] fix: do not overwrite or truncate files in create and
 config init

---
 internal/create/BUILD.bazel |  3 ++
 internal/create/handler.go  | 58 ++++++++++++++++++++++++++++++++-----
 internal/exec/runner.go     | 10 ++++++-
 internal/file/file.go       | 45 ++++++++++++++++++++++++++++
 4 files changed, 107 insertions(+), 9 deletions(-)

diff --git a/internal/create/BUILD.bazel b/internal/create/BUILD.bazel
index 8d4d8a9..0945c4d 100644
--- a/internal/create/BUILD.bazel
+++ b/internal/create/BUILD.bazel
@@ -9,8 +9,11 @@ go_library(
     importpath = "github.com/uber/prototool/internal/create",
     visibility = ["//:__subpackages__"],
     deps = [
+        "//internal/file:go_default_library",
         "//internal/protostrs:go_default_library",
         "//internal/settings:go_default_library",
+        "@com_github_gofrs_flock//:go_default_library",
+        "@org_uber_go_multierr//:go_default_library",
         "@org_uber_go_zap//:go_default_library",
     ],
 )
diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..fa6dc8d 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -30,8 +30,11 @@ import (
 	"strings"
 	"text/template"
 
+	"github.com/gofrs/flock"
+	"github.com/uber/prototool/internal/file"
 	"github.com/uber/prototool/internal/protostrs"
 	"github.com/uber/prototool/internal/settings"
+	"go.uber.org/multierr"
 	"go.uber.org/zap"
 )
 
@@ -124,16 +127,55 @@ func (h *handler) checkFilePath(filePath string) error {
 	if !fileInfo.IsDir() {
 		return fmt.Errorf("%q is not a directory somehow", dirPath)
 	}
-	if _, err := os.Stat(filePath); err == nil {
-		data, err := ioutil.ReadFile(filePath)
-		if err != nil {
-			return err
+	_, err = checkNoContent(filePath)
+	return err
+}
+
+// checkNoContent returns an error if there is a non-empty file at the path, or if
+// this cannot be determined, and otherwise whether there is an empty file.
+func checkNoContent(filePath string) (bool, error) {
+	data, err := ioutil.ReadFile(filePath)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return false, nil
 		}
-		if len(data) > 0 {
-			return fmt.Errorf("%q already exists", filePath)
+		return false, err
+	}
+	if len(data) > 0 {
+		return false, fmt.Errorf("%q already exists", filePath)
+	}
+	return true, nil
+}
+
+// writeFile writes a file that was checked with checkNoContent before.
+func writeFile(filePath string, data []byte) (retErr error) {
+	exists, err := checkNoContent(filePath)
+	if err != nil {
+		return err
+	}
+	if !exists {
+		if err := file.Create(filePath, data, 0644); err != nil {
+			if os.IsExist(err) {
+				return fmt.Errorf("%q already exists", filePath)
+			}
+			return err
 		}
+		return nil
 	}
-	return nil
+	// there may be multiple processes that want to fill the empty file
+	lock := flock.New(filePath)
+	locked, err := lock.TryLock()
+	if err != nil {
+		return err
+	}
+	if !locked {
+		return fmt.Errorf("%q is being created by another process", filePath)
+	}
+	defer func() { retErr = multierr.Append(retErr, lock.Unlock()) }()
+	if _, err := checkNoContent(filePath); err != nil {
+		return err
+	}
+	return file.Replace(filePath, data)
 }
 
 func (h *handler) create(filePath string) error {
@@ -191,7 +233,7 @@ func (h *handler) create(filePath string) error {
 			return err
 		}
 	}
-	return ioutil.WriteFile(filePath, data, 0644)
+	return writeFile(filePath, data)
 }
 
 func (h *handler) isV2(filePath string) (bool, error) {
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index ccf7195..6d03df9 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -180,12 +180,20 @@ func (r *runner) Init(args []string, uncomment bool, document bool) error {
 	filePath := filepath.Join(dirPath, settings.DefaultConfigFilename)
 	if _, err := os.Stat(filePath); err == nil {
 		return fmt.Errorf("%s already exists", filePath)
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 	data, err := cfginit.Generate(vars.DefaultProtocVersion, uncomment, document)
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePath, data, 0644)
+	if err := file.Create(filePath, data, 0644); err != nil {
+		if os.IsExist(err) {
+			return fmt.Errorf("%s already exists", filePath)
+		}
+		return err
+	}
+	return nil
 }
 
 func (r *runner) Create(args []string, pkg string) error {
diff --git a/internal/file/file.go b/internal/file/file.go
index 31b5622..995fa07 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -26,6 +26,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -230,3 +231,47 @@ func Replace(path string, data []byte) (retErr error) {
 	}
 	return os.Rename(tempFile.Name(), realPath)
 }
+
+// Create creates the file at the given path with the given data.
+//
+// The file either does not exist or has the complete data at every point in time. An error
+// for which os.IsExist is true is returned if there already is something at the path, which
+// is then left as it is.
+func Create(path string, data []byte, perm os.FileMode) error {
+	// not a temporary file as the permissions should be affected by the umask
+	tempPath := filepath.Join(filepath.Dir(path), fmt.Sprintf(".prototool%d%d", os.Getpid(), time.Now().UnixNano()))
+	if err := writeNew(tempPath, data, perm); err != nil {
+		return err
+	}
+	// as opposed to a rename, this fails if the path exists
+	err := os.Link(tempPath, path)
+	if removeErr := os.Remove(tempPath); err == nil && removeErr != nil {
+		return removeErr
+	}
+	if linkErr, ok := err.(*os.LinkError); ok {
+		if errno := linkErr.Err; errno == syscall.EPERM || errno == syscall.ENOSYS || errno == syscall.ENOTSUP {
+			// there are no hard links on this file system
+			return writeNew(path, data, perm)
+		}
+	}
+	return err
+}
+
+// writeNew writes the data to a file that must not exist, and removes it on failure.
+func writeNew(path string, data []byte, perm os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		_ = os.Remove(path)
+	}
+	return err
+}
-- 
2.43.0


From 4249535505ca1794737a02db176e85a2e39d0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:45 +0000
Subject: [PATCH 06/27] fix: do not delete a custom cache in cache delete

---
 internal/protoc/downloader.go | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..7f80ca7 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -142,10 +142,14 @@ func (d *downloader) WellKnownTypesIncludePath() (string, error) {
 }
 
 func (d *downloader) Delete() error {
-	basePath, err := d.getBasePathNoVersionOSARCH()
+	// a custom cache path is managed by the user
+	basePath, err := getDefaultBasePathNoOSARCH()
 	if err != nil {
 		return err
 	}
+	if err := file.CheckAbs(basePath); err != nil {
+		return err
+	}
 	d.cachedBasePath = ""
 	d.logger.Debug("deleting", zap.String("path", basePath))
 	return os.RemoveAll(basePath)
@@ -333,26 +337,6 @@ func (d *downloader) getBasePath() (string, error) {
 	return filepath.Join(basePathNoVersion, d.getBasePathVersionPart()), nil
 }
 
-func (d *downloader) getBasePathNoVersionOSARCH() (string, error) {
-	basePath := d.cachePath
-	var err error
-	if basePath == "" {
-		basePath, err = getDefaultBasePathNoOSARCH()
-		if err != nil {
-			return "", err
-		}
-	} else {
-		basePath, err = file.AbsClean(basePath)
-		if err != nil {
-			return "", err
-		}
-	}
-	if err := file.CheckAbs(basePath); err != nil {
-		return "", err
-	}
-	return basePath, nil
-}
-
 func (d *downloader) getBasePathNoVersion() (string, error) {
 	basePath := d.cachePath
 	var err error
-- 
2.43.0


From 6c321a38db67113588eca5a81960f70faa8250d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 07/27] fix: report failed protoc downloads and unreadable
 protoc paths

---
 internal/protoc/downloader.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 7f80ca7..47cde67 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -88,16 +88,16 @@ func newDownloader(config settings.Config, options ...DownloaderOption) (*downlo
 			return nil, fmt.Errorf("both protoc-bin-path and protoc-wkt-path must be set")
 		}
 		cleanBinPath := filepath.Clean(downloader.protocBinPath)
-		if _, err := os.Stat(cleanBinPath); os.IsNotExist(err) {
+		if _, err := os.Stat(cleanBinPath); err != nil {
 			return nil, err
 		}
 		cleanWKTPath := filepath.Clean(downloader.protocWKTPath)
-		if _, err := os.Stat(cleanWKTPath); os.IsNotExist(err) {
+		if _, err := os.Stat(cleanWKTPath); err != nil {
 			return nil, err
 		}
 		protobufPath := filepath.Join(cleanWKTPath, "google", "protobuf")
 		info, err := os.Stat(protobufPath)
-		if os.IsNotExist(err) {
+		if err != nil {
 			return nil, err
 		}
 		if !info.IsDir() {
@@ -282,14 +282,17 @@ func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retE
 		return ioutil.ReadFile(strings.TrimPrefix(url, "file://"))
 	case strings.HasPrefix(url, "http://"), strings.HasPrefix(url, "https://"):
 		response, err := http.Get(url)
-		if err != nil || response.StatusCode != http.StatusOK {
+		if err == nil && response.StatusCode != http.StatusOK {
+			err = multierr.Append(fmt.Errorf("unexpected response status %s", response.Status), response.Body.Close())
+		}
+		if err != nil {
 			// if there is not given protocURL, we tried to
 			// download this from GitHub Releases, so add
 			// extra context to the error message
 			if d.protocURL == "" {
 				return nil, fmt.Errorf("error downloading %s: %v\nMake sure GitHub Releases has a proper protoc zip file of the form protoc-VERSION-OS-ARCH.zip at https://github.com/protocolbuffers/protobuf/releases/v%s\nNote that many micro versions do not have this, and no version before 3.0.0-beta-2 has this", url, err, d.config.Compile.ProtobufVersion)
 			}
-			return nil, err
+			return nil, fmt.Errorf("error downloading %s: %v", url, err)
 		}
 		defer func() {
 			if response.Body != nil {
-- 
2.43.0


From f2ad76b45168bd3343a981d97d242978eeaf98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/27] fix: install protoc atomically and only inside its
 cache directory

---
 internal/protoc/downloader.go | 85 +++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 47cde67..4f50e8a 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -178,10 +178,7 @@ func (d *downloader) cache() (_ string, retErr error) {
 	defer func() { retErr = multierr.Append(retErr, flockUnlock(lock)) }()
 
 	if err := d.checkDownloaded(basePath); err != nil {
-		if err := d.download(basePath); err != nil {
-			return "", err
-		}
-		if err := d.checkDownloaded(basePath); err != nil {
+		if err := d.install(basePath); err != nil {
 			return "", err
 		}
 		d.logger.Debug("protobuf downloaded", zap.String("path", basePath))
@@ -213,6 +210,28 @@ func (d *downloader) checkDownloaded(basePath string) error {
 	return nil
 }
 
+// install downloads to a temporary directory next to basePath, and then moves the
+// complete and checked result to basePath. This must only be called with the file lock held.
+func (d *downloader) install(basePath string) (retErr error) {
+	tempPath := basePath + ".tmp"
+	// this may have been left behind by a process that was killed
+	if err := os.RemoveAll(tempPath); err != nil {
+		return err
+	}
+	defer func() { retErr = multierr.Append(retErr, os.RemoveAll(tempPath)) }()
+	newPath := filepath.Join(tempPath, "new")
+	if err := d.download(newPath); err != nil {
+		return err
+	}
+	if err := d.checkDownloaded(newPath); err != nil {
+		return err
+	}
+	if err := os.Rename(basePath, filepath.Join(tempPath, "old")); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	return os.Rename(newPath, basePath)
+}
+
 func (d *downloader) download(basePath string) (retErr error) {
 	return d.downloadInternal(basePath, runtime.GOOS, runtime.GOARCH)
 }
@@ -230,35 +249,17 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 	if err != nil {
 		return err
 	}
-	for _, file := range zipReader.File {
-		fileMode := file.Mode()
-		d.logger.Debug("found protobuf file in zip", zap.String("fileName", file.Name), zap.Any("fileMode", fileMode))
+	for _, zipFile := range zipReader.File {
+		fileMode := zipFile.Mode()
+		d.logger.Debug("found protobuf file in zip", zap.String("fileName", zipFile.Name), zap.Any("fileMode", fileMode))
 		if fileMode.IsDir() {
 			continue
 		}
-		readCloser, err := file.Open()
-		if err != nil {
-			return err
+		writeFilePath := filepath.Join(basePath, zipFile.Name)
+		if !file.IsWithin(writeFilePath, basePath) {
+			return fmt.Errorf("illegal file name in protobuf zip: %s", zipFile.Name)
 		}
-		defer func() {
-			retErr = multierr.Append(retErr, readCloser.Close())
-		}()
-		fileData, err := ioutil.ReadAll(readCloser)
-		if err != nil {
-			return err
-		}
-		writeFilePath := filepath.Join(basePath, file.Name)
-		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
-			return err
-		}
-		writeFile, err := os.OpenFile(writeFilePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, fileMode)
-		if err != nil {
-			return err
-		}
-		defer func() {
-			retErr = multierr.Append(retErr, writeFile.Close())
-		}()
-		if _, err := writeFile.Write(fileData); err != nil {
+		if err := writeZipFile(writeFilePath, zipFile); err != nil {
 			return err
 		}
 		d.logger.Debug("wrote protobuf file", zap.String("path", writeFilePath))
@@ -266,6 +267,32 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 	return nil
 }
 
+func writeZipFile(writeFilePath string, zipFile *zip.File) (retErr error) {
+	readCloser, err := zipFile.Open()
+	if err != nil {
+		return err
+	}
+	defer func() {
+		retErr = multierr.Append(retErr, readCloser.Close())
+	}()
+	fileData, err := ioutil.ReadAll(readCloser)
+	if err != nil {
+		return err
+	}
+	if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
+		return err
+	}
+	writeFile, err := os.OpenFile(writeFilePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, zipFile.Mode())
+	if err != nil {
+		return err
+	}
+	defer func() {
+		retErr = multierr.Append(retErr, writeFile.Close())
+	}()
+	_, err = writeFile.Write(fileData)
+	return err
+}
+
 func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retErr error) {
 	url, err := d.getProtocURL(goos, goarch)
 	if err != nil {
-- 
2.43.0


From ab1649ad6c126bdb86a76edd4a821f02c9d53dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 09/27] fix: process directories and protoc errors in a stable
 order

---
 internal/exec/runner.go             |  4 +--
 internal/file/file.go               |  7 +++++
 internal/file/proto_set_provider.go | 12 +++++++-
 internal/lint/lint.go               |  3 +-
 internal/protoc/BUILD.bazel         |  1 +
 internal/protoc/compiler.go         | 44 ++++++++++++++++++-----------
 6 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 6d03df9..1a8de6a 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -497,12 +497,12 @@ func (r *runner) Format(args []string, overwrite, diffMode, lintMode, fixFlag bo
 
 func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader string, javaPackagePrefix string, meta *meta) error {
 	success := true
-	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
+	for _, dirPath := range meta.ProtoSet.SortedDirPaths() {
 		// skip those files not under the directory
 		if !file.IsWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
-		for _, protoFile := range protoFiles {
+		for _, protoFile := range meta.ProtoSet.DirPathToFiles[dirPath] {
 			fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
 			if err != nil {
 				return err
diff --git a/internal/file/file.go b/internal/file/file.go
index 995fa07..4f8bd90 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -62,6 +62,13 @@ type ProtoSet struct {
 	Config settings.Config
 }
 
+// SortedDirPaths returns the sorted keys of DirPathToFiles.
+//
+// Use this to iterate over DirPathToFiles if the order is visible.
+func (p *ProtoSet) SortedDirPaths() []string {
+	return sortedDirPaths(p.DirPathToFiles)
+}
+
 // ProtoFile represents a .proto file.
 type ProtoFile struct {
 	// The path to the .proto file.
diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..1f7a693 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -135,7 +135,8 @@ func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, dirPathToProt
 		return []*ProtoSet{protoSet}, nil
 	}
 	filePathToProtoSet := make(map[string]*ProtoSet)
-	for dirPath, protoFiles := range dirPathToProtoFiles {
+	for _, dirPath := range sortedDirPaths(dirPathToProtoFiles) {
+		protoFiles := dirPathToProtoFiles[dirPath]
 		var configFilePath string
 		var err error
 		// we only want one ProtoSet if we have set configData
@@ -335,3 +336,12 @@ func getDirPathToProtoFiles(protoFiles []*ProtoFile) map[string][]*ProtoFile {
 	}
 	return dirPathToProtoFiles
 }
+
+func sortedDirPaths(dirPathToProtoFiles map[string][]*ProtoFile) []string {
+	dirPaths := make([]string, 0, len(dirPathToProtoFiles))
+	for dirPath := range dirPathToProtoFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	return dirPaths
+}
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index c5496ba..b63ad5a 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -427,11 +427,12 @@ func GetLinters(config settings.LintConfig) ([]Linter, error) {
 // Absolute paths are printed for failures if absolutePaths is true.
 func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[string][]*FileDescriptor, error) {
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	for _, dirPath := range protoSet.SortedDirPaths() {
 		// skip those files not under the directory
 		if !file.IsWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		descriptors := make([]*FileDescriptor, len(protoFiles))
 		for i, protoFile := range protoFiles {
 			file, err := os.Open(protoFile.Path)
diff --git a/internal/protoc/BUILD.bazel b/internal/protoc/BUILD.bazel
index 797875c..3bb4466 100644
--- a/internal/protoc/BUILD.bazel
+++ b/internal/protoc/BUILD.bazel
@@ -12,6 +12,7 @@ go_library(
     deps = [
         "//internal/file:go_default_library",
         "//internal/settings:go_default_library",
+        "//internal/strs:go_default_library",
         "//internal/text:go_default_library",
         "//internal/vars:go_default_library",
         "//internal/wkt:go_default_library",
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c99422f..4d8fc33 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -32,6 +32,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -42,6 +43,7 @@ import (
 	"github.com/golang/protobuf/protoc-gen-go/descriptor"
 	"github.com/uber/prototool/internal/file"
 	"github.com/uber/prototool/internal/settings"
+	"github.com/uber/prototool/internal/strs"
 	"github.com/uber/prototool/internal/text"
 	"github.com/uber/prototool/internal/wkt"
 	"go.uber.org/zap"
@@ -151,12 +153,14 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 	}()
 
 	var failures []*text.Failure
-	var errs []error
+	// in the order of cmdMetas, not in the order in which they happen
+	errs := make([]error, len(cmdMetas))
+	hasErrs := false
 	var lock sync.Mutex
 	var wg sync.WaitGroup
 	semaphoreC := make(chan struct{}, runtime.NumCPU())
-	for _, cmdMeta := range cmdMetas {
-		cmdMeta := cmdMeta
+	for i, cmdMeta := range cmdMetas {
+		i, cmdMeta := i, cmdMeta
 		wg.Add(1)
 		semaphoreC <- struct{}{}
 		go func() {
@@ -165,7 +169,8 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 			lock.Lock()
 			failures = append(failures, iFailures...)
 			if iErr != nil {
-				errs = append(errs, iErr)
+				errs[i] = iErr
+				hasErrs = true
 			}
 			lock.Unlock()
 			<-semaphoreC
@@ -180,12 +185,15 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 	}
 	// errors are not text.Failures, these are actual unhandled
 	// system errors from calling protoc, so we short circuit
-	if len(errs) > 0 {
+	if hasErrs {
 		// I want newlines instead of spaces so not using multierr
 		errStrings := make([]string, 0, len(errs))
 		for _, err := range errs {
 			// errors.New("") is a non-nil error, so even
 			// if all error strings are empty, we still get an error
+			if err == nil {
+				continue
+			}
 			if errString := err.Error(); errString != "" {
 				errStrings = append(errStrings, errString)
 			}
@@ -259,7 +267,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 			}
 		}
 	}
-	for genDir := range genDirs {
+	for _, genDir := range strs.MapToSortedSlice(genDirs) {
 		// we could choose a different permission set, but this seems reasonable
 		// in a perfect world, if directories are created and we error out, we
 		// would want to remove any newly created directories, but this seems
@@ -351,7 +359,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	if _, err := downloader.Download(); err != nil {
 		return cmdMetas, err
 	}
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	for _, dirPath := range protoSet.SortedDirPaths() {
 		// skip those files not under the directory
 		if !file.IsWithin(dirPath, protoSet.DirPath) {
 			continue
@@ -371,6 +379,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 		if configDirPath == "" {
 			configDirPath = protoSet.WorkDirPath
 		}
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		includes, err := getIncludes(downloader, protoSet.Config, dirPath, configDirPath)
 		if err != nil {
 			return cmdMetas, err
@@ -599,9 +608,7 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 			}
 		}
 	}
-	for key, value := range modifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-	}
+	goFlags = append(goFlags, getGoModifierFlags(modifiers)...)
 	if protoSet.Config.Compile.IncludeWellKnownTypes {
 		var wktModifiers map[string]string
 		// one of these two must be true, we validate this above
@@ -610,16 +617,21 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 		} else if genPlugin.Type.IsGogo() {
 			wktModifiers = wkt.FilenameToGogoModifierMap
 		}
-		for key, value := range wktModifiers {
-			goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-		}
-	}
-	for key, value := range genGoPluginOptions.ExtraModifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
+		goFlags = append(goFlags, getGoModifierFlags(wktModifiers)...)
 	}
+	goFlags = append(goFlags, getGoModifierFlags(genGoPluginOptions.ExtraModifiers)...)
 	return strings.Join(goFlags, ","), nil
 }
 
+func getGoModifierFlags(modifiers map[string]string) []string {
+	flags := make([]string, 0, len(modifiers))
+	for key, value := range modifiers {
+		flags = append(flags, fmt.Sprintf("M%s=%s", key, value))
+	}
+	sort.Strings(flags)
+	return flags
+}
+
 func getIncludes(downloader Downloader, config settings.Config, dirPath string, configDirPath string) ([]string, error) {
 	var includes []string
 	fileInIncludePath := false
-- 
2.43.0


From 0b9203ef8a9b34284f596632df1a14e1c74301e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 10/27] fix: remove temporary files if a command fails and do
 not leak their descriptors

---
 internal/exec/runner.go     | 4 ++++
 internal/git/git.go         | 1 +
 internal/protoc/compiler.go | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 1a8de6a..3e1bc84 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -732,6 +732,10 @@ func (r *runner) DescriptorSet(args []string, includeImports bool, includeSource
 	}
 	defer func() {
 		retErr = multierr.Append(retErr, file.Close())
+		// nobody knows about the temporary file on failure
+		if tmp && retErr != nil {
+			_ = os.Remove(file.Name())
+		}
 	}()
 	if _, err := file.Write(data); err != nil {
 		return err
diff --git a/internal/git/git.go b/internal/git/git.go
index fbf3fbd..1ada68b 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -62,6 +62,7 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
+		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 4d8fc33..43f4362 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -961,6 +961,11 @@ func getTempFilePath() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	// protoc opens the file by name
+	if err := tempFile.Close(); err != nil {
+		tryRemoveTempFile(tempFile.Name())
+		return "", err
+	}
 	return tempFile.Name(), nil
 }
 
-- 
2.43.0


From 652199cfc4668ac9e496ee20d3f6e873ea208f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 11/27] fix: do not report success if writing to stdout failed

---
 internal/cmd/cmd.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/cmd.go b/internal/cmd/cmd.go
index 555943c..4c413c4 100644
--- a/internal/cmd/cmd.go
+++ b/internal/cmd/cmd.go
@@ -33,6 +33,7 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sync"
 	"time"
 
 	"github.com/spf13/cobra"
@@ -81,10 +82,19 @@ func GenManpages(args []string, stdin io.Reader, stdout io.Writer, stderr io.Wri
 }
 
 func runRootCommandOutput(develMode bool, args []string, stdin io.Reader, stdout io.Writer, stderr io.Writer, f func(*cobra.Command, io.Writer) error) int {
-	return runRootCommand(develMode, args, stdin, stdout, stderr, func(cmd *cobra.Command) error { return f(cmd, stdout) })
+	return runRootCommand(develMode, args, stdin, stdout, stderr, func(cmd *cobra.Command) error { return f(cmd, cmd.OutOrStdout()) })
 }
 
 func runRootCommand(develMode bool, args []string, stdin io.Reader, stdout io.Writer, stderr io.Writer, f func(*cobra.Command) error) (exitCode int) {
+	// many writes are not checked, so make sure that we do not return success if any of them failed
+	errorWriter := newErrorWriter(stdout)
+	stdout = errorWriter
+	defer func() {
+		if err := errorWriter.Err(); err != nil && exitCode == 0 {
+			_, _ = fmt.Fprintln(stderr, err.Error())
+			exitCode = 1
+		}
+	}()
 	if err := checkOS(); err != nil {
 		return printAndGetErrorExitCode(err, stdout)
 	}
@@ -155,3 +165,33 @@ func printAndGetErrorExitCode(err error, stdout io.Writer) int {
 	}
 	return 1
 }
+
+// errorWriter remembers the first error of the wrapped writer.
+type errorWriter struct {
+	writer io.Writer
+	err    error
+	lock   sync.Mutex
+}
+
+func newErrorWriter(writer io.Writer) *errorWriter {
+	return &errorWriter{writer: writer}
+}
+
+func (w *errorWriter) Write(data []byte) (int, error) {
+	w.lock.Lock()
+	defer w.lock.Unlock()
+	n, err := w.writer.Write(data)
+	if err == nil && n < len(data) {
+		err = io.ErrShortWrite
+	}
+	if err != nil && w.err == nil {
+		w.err = err
+	}
+	return n, err
+}
+
+func (w *errorWriter) Err() error {
+	w.lock.Lock()
+	defer w.lock.Unlock()
+	return w.err
+}
-- 
2.43.0


From ef3491acd14880ad5ab9bd4b020ba52f849a4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 12/27] fix: always return the timeout error if the walk
 timeout passed

---
 internal/file/proto_set_provider.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 1f7a693..3136328 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -21,6 +21,7 @@
 package file
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -214,7 +215,9 @@ func (c *protoSetProvider) getConfig(absDirPath string) (settings.Config, error)
 func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string) ([]*ProtoFile, error) {
 	var protoFiles []*ProtoFile
 	var numWalkedFiles int
-	var timedOut bool
+	errTimedOut := errors.New("timed out")
+	// closed on timeout
+	timedOutC := make(chan struct{})
 	var excludes []string
 	var err error
 	// if we have a configData, we compute the exclude prefixes once
@@ -237,10 +240,10 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 					return err
 				}
 				numWalkedFiles++
-				if timedOut {
-					return fmt.Errorf("walking the directory structure looking for proto files "+
-						"timed out after %v and having seen %d files, are you sure you are operating "+
-						"in the right context?", c.walkTimeout, numWalkedFiles)
+				select {
+				case <-timedOutC:
+					return errTimedOut
+				default:
 				}
 				// Verify if we should skip this directory/file.
 				if fileInfo.IsDir() {
@@ -292,11 +295,12 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 		}
 		return protoFiles, nil
 	case <-time.After(c.walkTimeout):
-		timedOut = true
-		if walkErr := <-walkErrC; walkErr != nil {
-			return nil, walkErr
-		}
-		return nil, fmt.Errorf("internal prototool error")
+		close(timedOutC)
+		// wait for the end of the walk, which may not have noticed the timeout
+		<-walkErrC
+		return nil, fmt.Errorf("walking the directory structure looking for proto files "+
+			"timed out after %v and having seen %d files, are you sure you are operating "+
+			"in the right context?", c.walkTimeout, numWalkedFiles)
 	}
 }
 
-- 
2.43.0


From 8ebef979bc7074fc3ea2ffdc328f55e59b452665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 13/27] fix: print failures that belong to no file if the
 argument is a file

---
 internal/exec/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 3e1bc84..e76359b 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -1161,7 +1161,9 @@ func (r *runner) printFailuresForErrorFormat(errorFormat string, filename string
 	for _, failure := range failures {
 		shouldPrint := false
 		if meta != nil {
-			if meta.SingleFilename == "" || meta.SingleFilename == failure.Filename {
+			// failures that do not belong to any file, such as plugin failures,
+			// must never get lost
+			if meta.SingleFilename == "" || failure.Filename == "" || meta.SingleFilename == failure.Filename {
 				shouldPrint = true
 			} else if meta.SingleFilename != "" {
 				// TODO: the compiler may not return the rel path due to logic in bestFilePath
-- 
2.43.0


From 1d12d545a390eba4a4c2d70fd61e1c6689f28b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 14/27] fix: fail a gRPC call if a received message cannot be
 printed

---
 internal/grpc/invocation_event_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/grpc/invocation_event_handler.go b/internal/grpc/invocation_event_handler.go
index 74622f4..0f9a5d4 100644
--- a/internal/grpc/invocation_event_handler.go
+++ b/internal/grpc/invocation_event_handler.go
@@ -22,6 +22,7 @@ package grpc
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"reflect"
 
@@ -97,6 +98,9 @@ func (i *invocationEventHandler) printProtoMessage(input proto.Message, detailsK
 	s, err := i.jsonpbMarshaler.MarshalToString(input)
 	if err != nil {
 		i.logger.Error("marshal error", zap.Error(err))
+		if i.err == nil {
+			i.err = fmt.Errorf("could not print a received message: %v", err)
+		}
 		return
 	}
 	i.println(i.marshalSanitize(s, detailsKey))
-- 
2.43.0


From aa6de1ad6e6675399ebac07e4e9add3b6f375fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 15/27] fix: send every header given to grpc, in the order
 given

---
 internal/exec/runner.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index e76359b..2eb264a 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -624,13 +624,13 @@ func (r *runner) GRPC(args, headers []string, address, method, data, callTimeout
 	}
 	reader := r.getInputReader(data, stdin)
 
-	parsedHeaders := make(map[string]string)
+	var parsedHeaders [][]string
 	for _, header := range headers {
 		split := strings.SplitN(header, ":", 2)
 		if len(split) != 2 {
 			return fmt.Errorf("headers must be key:value but got %s", header)
 		}
-		parsedHeaders[split[0]] = split[1]
+		parsedHeaders = append(parsedHeaders, split)
 	}
 	var parsedCallTimeout time.Duration
 	var parsedConnectTimeout time.Duration
@@ -1059,7 +1059,7 @@ func (r *runner) newCreateHandler(pkg string) create.Handler {
 }
 
 func (r *runner) newGRPCHandler(
-	headers map[string]string,
+	headers [][]string,
 	callTimeout time.Duration,
 	connectTimeout time.Duration,
 	keepaliveTime time.Duration,
@@ -1074,8 +1074,9 @@ func (r *runner) newGRPCHandler(
 	handlerOptions := []grpc.HandlerOption{
 		grpc.HandlerWithLogger(r.logger),
 	}
-	for key, value := range headers {
-		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(key, value))
+	// the same header can be given several times, in which case the order matters
+	for _, header := range headers {
+		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(header[0], header[1]))
 	}
 	if callTimeout != 0 {
 		handlerOptions = append(handlerOptions, grpc.HandlerWithCallTimeout(callTimeout))
-- 
2.43.0


From e5600f7979aed67821ee4c960b1e5aff41a56afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 16/27] fix: let a connect timeout beyond 20 seconds take
 effect

---
 internal/grpc/BUILD.bazel |  1 +
 internal/grpc/handler.go  | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/grpc/BUILD.bazel b/internal/grpc/BUILD.bazel
index fc11e65..f45a16d 100644
--- a/internal/grpc/BUILD.bazel
+++ b/internal/grpc/BUILD.bazel
@@ -18,6 +18,7 @@ go_library(
         "@com_github_jhump_protoreflect//desc:go_default_library",
         "@com_github_jhump_protoreflect//dynamic:go_default_library",
         "@org_golang_google_grpc//:go_default_library",
+        "@org_golang_google_grpc//backoff:go_default_library",
         "@org_golang_google_grpc//credentials:go_default_library",
         "@org_golang_google_grpc//keepalive:go_default_library",
         "@org_golang_google_grpc//metadata:go_default_library",
diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 3302c30..841b00b 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -38,6 +38,7 @@ import (
 	"github.com/uber/prototool/internal/desc"
 	"go.uber.org/zap"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/backoff"
 	"google.golang.org/grpc/credentials"
 	"google.golang.org/grpc/keepalive"
 )
@@ -148,7 +149,16 @@ func (h *handler) getClientTransportCredentials() (credentials.TransportCredenti
 }
 
 func (h *handler) getDialOptions() []grpc.DialOption {
-	var dialOptions []grpc.DialOption
+	dialOptions := []grpc.DialOption{
+		// without this, an attempt to connect fails after the default of
+		// 20 seconds even if the connect timeout is longer
+		grpc.WithConnectParams(
+			grpc.ConnectParams{
+				Backoff:           backoff.DefaultConfig,
+				MinConnectTimeout: h.connectTimeout,
+			},
+		),
+	}
 	if h.keepaliveTime != 0 {
 		dialOptions = append(
 			dialOptions,
-- 
2.43.0


From 94634e86c64fa37c4397a3e9e8a9690ff980b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 17/27] fix: apply the call timeout of grpc to waiting for
 input

---
 internal/grpc/handler.go                  | 20 +++++++++++++++-----
 internal/grpc/invocation_event_handler.go |  5 ++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 841b00b..a205e67 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -88,9 +88,10 @@ func (h *handler) Invoke(fileDescriptorSets []*descriptor.FileDescriptorSet, add
 		return err
 	}
 	defer func() { _ = clientConn.Close() }()
-	invocationEventHandler := newInvocationEventHandler(anyResolver, outputWriter, h.logger, h.details)
 	ctx, cancel := context.WithTimeout(context.Background(), h.callTimeout)
 	defer cancel()
+	// cancel once the call has ended, so that no more input is waited for
+	invocationEventHandler := newInvocationEventHandler(anyResolver, outputWriter, h.logger, h.details, cancel)
 	if err := grpcurl.InvokeRPC(
 		ctx,
 		descriptorSource,
@@ -98,7 +99,7 @@ func (h *handler) Invoke(fileDescriptorSets []*descriptor.FileDescriptorSet, add
 		method,
 		h.headers,
 		invocationEventHandler,
-		decodeFunc(inputReader),
+		decodeFunc(ctx, inputReader),
 	); err != nil {
 		return err
 	}
@@ -218,12 +219,21 @@ func getServiceForMethod(method string) (string, error) {
 	return split[0], nil
 }
 
-func decodeFunc(reader io.Reader) func(proto.Message) error {
+// decodeFunc returns a function that decodes the next message, and gives up
+// when the context is done even if the reader still blocks.
+func decodeFunc(ctx context.Context, reader io.Reader) func(proto.Message) error {
 	decoder := json.NewDecoder(reader)
 	return func(message proto.Message) error {
 		var rawMessage json.RawMessage
-		if err := decoder.Decode(&rawMessage); err != nil {
-			return err
+		errC := make(chan error, 1)
+		go func() { errC <- decoder.Decode(&rawMessage) }()
+		select {
+		case err := <-errC:
+			if err != nil {
+				return err
+			}
+		case <-ctx.Done():
+			return ctx.Err()
 		}
 		return jsonpb.Unmarshal(bytes.NewReader(rawMessage), message)
 	}
diff --git a/internal/grpc/invocation_event_handler.go b/internal/grpc/invocation_event_handler.go
index 0f9a5d4..ae83136 100644
--- a/internal/grpc/invocation_event_handler.go
+++ b/internal/grpc/invocation_event_handler.go
@@ -42,10 +42,11 @@ type invocationEventHandler struct {
 	output          io.Writer
 	logger          *zap.Logger
 	details         bool
+	onEnd           func()
 	err             error
 }
 
-func newInvocationEventHandler(anyResolver jsonpb.AnyResolver, output io.Writer, logger *zap.Logger, details bool) *invocationEventHandler {
+func newInvocationEventHandler(anyResolver jsonpb.AnyResolver, output io.Writer, logger *zap.Logger, details bool, onEnd func()) *invocationEventHandler {
 	return &invocationEventHandler{
 		jsonpbMarshaler: &jsonpb.Marshaler{
 			AnyResolver: anyResolver,
@@ -53,6 +54,7 @@ func newInvocationEventHandler(anyResolver jsonpb.AnyResolver, output io.Writer,
 		output:  output,
 		logger:  logger,
 		details: details,
+		onEnd:   onEnd,
 	}
 }
 
@@ -76,6 +78,7 @@ func (i *invocationEventHandler) OnReceiveResponse(message proto.Message) {
 }
 
 func (i *invocationEventHandler) OnReceiveTrailers(s *status.Status, trailers metadata.MD) {
+	i.onEnd()
 	if err := s.Err(); err != nil {
 		i.err = err
 	}
-- 
2.43.0


From b30584b1804d6a2c5ca2bed64ba8f3cd08fc6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 18/27] fix: do not replace a protoc install that could not be
 checked

---
 internal/protoc/downloader.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 4f50e8a..598ade8 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -26,6 +26,7 @@ import (
 	"context"
 	"crypto/sha512"
 	"encoding/base64"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/http"
@@ -36,6 +37,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"syscall"
 	"time"
 
 	"github.com/gofrs/flock"
@@ -178,6 +180,10 @@ func (d *downloader) cache() (_ string, retErr error) {
 	defer func() { retErr = multierr.Append(retErr, flockUnlock(lock)) }()
 
 	if err := d.checkDownloaded(basePath); err != nil {
+		if isInconclusive(err) {
+			// do not replace what may well be in use by other processes
+			return "", fmt.Errorf("could not check %s: %v", basePath, err)
+		}
 		if err := d.install(basePath); err != nil {
 			return "", err
 		}
@@ -210,6 +216,22 @@ func (d *downloader) checkDownloaded(basePath string) error {
 	return nil
 }
 
+// isInconclusive returns true if the error from checkDownloaded says that the check could
+// not be carried out, as opposed to that there is no valid installation of protoc.
+func isInconclusive(err error) bool {
+	if exitErr, ok := err.(*exec.ExitError); ok {
+		status, ok := exitErr.Sys().(syscall.WaitStatus)
+		// this is not something that protoc does by itself
+		return ok && status.Signaled() && status.Signal() == syscall.SIGKILL
+	}
+	for _, errno := range []syscall.Errno{syscall.EAGAIN, syscall.ENOMEM, syscall.EMFILE, syscall.ENFILE} {
+		if errors.Is(err, errno) {
+			return true
+		}
+	}
+	return false
+}
+
 // install downloads to a temporary directory next to basePath, and then moves the
 // complete and checked result to basePath. This must only be called with the file lock held.
 func (d *downloader) install(basePath string) (retErr error) {
-- 
2.43.0


From 6b45eaad2478f5a0505164d56a698fcce47a8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:01 +0000
Subject: [PATCH 19/27] fix: report that a streaming call could not be started
 instead of crashing

grpcurl uses the stream of a call even if creating it failed, so a call
timeout that has expired, or a connection that was lost before the call,
made the program crash with a nil pointer dereference.
---
 internal/grpc/channel.go | 80 ++++++++++++++++++++++++++++++++++++++++
 internal/grpc/handler.go |  2 +-
 2 files changed, 81 insertions(+), 1 deletion(-)
 create mode 100644 internal/grpc/channel.go

diff --git a/internal/grpc/channel.go b/internal/grpc/channel.go
new file mode 100644
index 0000000..c709781
--- /dev/null
+++ b/internal/grpc/channel.go
@@ -0,0 +1,80 @@
+// Copyright (c) 2020 Uber Technologies, Inc.
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+// THE SOFTWARE.
+
+package grpc
+
+import (
+	"context"
+	"io"
+
+	"google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
+)
+
+// channel is a client connection that always returns a stream.
+//
+// grpcurl uses the stream even if there was an error, so an error to create
+// the stream is what is received from the stream instead.
+type channel struct {
+	*grpc.ClientConn
+}
+
+func (c *channel) NewStream(ctx context.Context, streamDesc *grpc.StreamDesc, method string, options ...grpc.CallOption) (grpc.ClientStream, error) {
+	clientStream, err := c.ClientConn.NewStream(ctx, streamDesc, method, options...)
+	if err != nil {
+		return &failedClientStream{ctx: ctx, streamDesc: streamDesc, err: err}, nil
+	}
+	return clientStream, nil
+}
+
+type failedClientStream struct {
+	ctx        context.Context
+	streamDesc *grpc.StreamDesc
+	err        error
+}
+
+func (f *failedClientStream) Header() (metadata.MD, error) {
+	return nil, f.err
+}
+
+func (f *failedClientStream) Trailer() metadata.MD {
+	return nil
+}
+
+func (f *failedClientStream) CloseSend() error {
+	return nil
+}
+
+func (f *failedClientStream) Context() context.Context {
+	return f.ctx
+}
+
+// SendMsg behaves as for any other stream that failed: the error is
+// discovered with RecvMsg.
+func (f *failedClientStream) SendMsg(interface{}) error {
+	if f.streamDesc.ClientStreams {
+		return io.EOF
+	}
+	return nil
+}
+
+func (f *failedClientStream) RecvMsg(interface{}) error {
+	return f.err
+}
diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index a205e67..b6fbaf5 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -95,7 +95,7 @@ func (h *handler) Invoke(fileDescriptorSets []*descriptor.FileDescriptorSet, add
 	if err := grpcurl.InvokeRPC(
 		ctx,
 		descriptorSource,
-		clientConn,
+		&channel{clientConn},
 		method,
 		h.headers,
 		invocationEventHandler,
-- 
2.43.0


From aebd1aba1cc7710007fcdf091703b2910c5f07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 20/27] fix: do not refuse files in directories whose names
 begin with two dots

---
 internal/file/proto_set_provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 3136328..6aa2d38 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -326,7 +326,8 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	// a name can begin with two dots
+	if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
-- 
2.43.0


From 0ab5b318e2b824c59c2b6d29d8f04952bcf64237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:56 +0000
Subject: [PATCH 21/27] fix: flush an extracted protoc to disk before moving
 the installation to its final path

---
 internal/protoc/downloader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 598ade8..43593b8 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -311,8 +311,12 @@ func writeZipFile(writeFilePath string, zipFile *zip.File) (retErr error) {
 	defer func() {
 		retErr = multierr.Append(retErr, writeFile.Close())
 	}()
-	_, err = writeFile.Write(fileData)
-	return err
+	if _, err := writeFile.Write(fileData); err != nil {
+		return err
+	}
+	// the contents must have reached the disk before the installation is moved to its final
+	// path, as otherwise a loss of power can leave damaged files there that would be used
+	return writeFile.Sync()
 }
 
 func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retErr error) {
-- 
2.43.0


From 16363862fd056c1c2538d53432a1438ff24fafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 22/27] fix: do not silently select nothing if the root of the
 walk is a symbolic link

---
 internal/file/proto_set_provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 6aa2d38..11c6e0e 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -234,11 +234,14 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 	walkErrC := make(chan error)
 	go func() {
 		walkErrC <- filepath.Walk(
-			absDirPath,
+			// symbolic links are not followed, but with the separator at the end, absDirPath
+			// is if it is one, as it can be if it is derived from the working directory
+			absDirPath+string(filepath.Separator),
 			func(filePath string, fileInfo os.FileInfo, err error) error {
 				if err != nil {
 					return err
 				}
+				filePath = filepath.Clean(filePath)
 				numWalkedFiles++
 				select {
 				case <-timedOutC:
-- 
2.43.0


From e5cd96355e9f2f2f11274a57d212f2d8db8f5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:06 +0000
Subject: [PATCH 23/27] fix: do not ignore a configuration file that is a
 symbolic link leading nowhere

---
 internal/settings/config_provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 59a36ae..67f604a 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -140,7 +140,8 @@ func getSingleFilePathForDir(dirPath string) (string, error) {
 	var filePaths []string
 	for _, configFilename := range ConfigFilenames {
 		filePath := filepath.Join(dirPath, configFilename)
-		if _, err := os.Stat(filePath); err == nil {
+		// a symbolic link that leads nowhere must fail when it is read
+		if _, err := os.Lstat(filePath); err == nil {
 			filePaths = append(filePaths, filePath)
 		} else if !os.IsNotExist(err) {
 			// the file may exist, do not silently fall back to another configuration
-- 
2.43.0


From c76c8361f699f9cf2ebf69cfcd894c9475a0e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:29 +0000
Subject: [PATCH 24/27] fix: attribute option value errors of protoc 3.8 and
 later to their file

The line and the column became part of the file name, so the failure was
sorted wrongly, and not printed at all if the argument was that file.
---
 internal/protoc/compiler.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 43f4362..041ea2a 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -79,6 +79,8 @@ var (
 	optionValueRegexp                 = regexp.MustCompile("^(.*): Error while parsing option value for (.*)$")
 	programNotFoundRegexp             = regexp.MustCompile("protoc-gen-(.*): program not found or is not executable$")
 	firstEnumValueZeroRegexp          = regexp.MustCompile("^(.*): The first enum value must be zero in proto3.$")
+	// protoc started printing line and column information in 3.8.0
+	optionValue380Regexp = regexp.MustCompile(`^(.*):(\d+):(\d+): Error while parsing option value for (.*)$`)
 )
 
 type compiler struct {
@@ -833,6 +835,22 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 				Message:  matches[2],
 			}
 		}
+		if matches := optionValue380Regexp.FindStringSubmatch(protocLine); len(matches) > 4 {
+			line, err := strconv.Atoi(matches[2])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			column, err := strconv.Atoi(matches[3])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			return &text.Failure{
+				Filename: bestFilePath(cmdMeta, matches[1]),
+				Line:     line,
+				Column:   column,
+				Message:  fmt.Sprintf(`Error while parsing option value for %s`, matches[4]),
+			}
+		}
 		if matches := optionValueRegexp.FindStringSubmatch(protocLine); len(matches) > 2 {
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
-- 
2.43.0


From 1584548e51af2d521ee35f493285d8fd05d90ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:29 +0000
Subject: [PATCH 25/27] fix: find the file that protoc reports a failure for by
 the include paths

Comparing the end of the name that is displayed found no file if prototool
was run below the directory of the configuration, or if another file of
the directory ends like it (one.proto, zone.proto). If the argument was
that file, its failures were not printed at all.
---
 internal/protoc/compiler.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 041ea2a..87c1ccf 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -431,6 +431,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				execCmd:    exec.Command(protocPath, iArgs...),
 				protoSet:   protoSet,
 				dirPath:    dirPath,
+				includes:   includes,
 				protoFiles: protoFiles,
 				// used for cleaning up the cmdMeta after everything is done
 				descriptorSetTempFilePath: descriptorSetTempFilePath,
@@ -449,6 +450,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				execCmd:    exec.Command(protocPath, iArgs...),
 				protoSet:   protoSet,
 				dirPath:    dirPath,
+				includes:   includes,
 				protoFiles: protoFiles,
 			})
 		}
@@ -909,9 +911,6 @@ func (c *compiler) handleUninterpretedProtocLine(protocLine string) *text.Failur
 // that the file is on apparently
 // -I etc etc/testdata/foo.proto will result in testdata/foo.proto
 // this makes it consistent if possible
-// TODO: if the file name is not in the given compile command, ie
-// if it is imported from another directory, we do not handle this,
-// do we want to do a full search of all files in the ProtoSet?
 //
 // this does getDisplayFilePath but returns match if there is an error
 func bestFilePath(cmdMeta *cmdMeta, match string) string {
@@ -922,25 +921,22 @@ func bestFilePath(cmdMeta *cmdMeta, match string) string {
 	return displayFilePath
 }
 
-// this does bestFilePath but if there is not exactly one match,
-// returns an error
+// this does bestFilePath but if there is no match, returns an error
 func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
-	matchingFile := ""
-	for _, protoFile := range cmdMeta.protoFiles {
-		// if the suffix is the file name, this is a better display name
-		// we don't handle the reverse case, ie display path is a suffix of match
-		if strings.HasSuffix(protoFile.DisplayPath, match) {
-			// if there is more than one match, we don't know what to do
-			if matchingFile != "" {
-				return "", fmt.Errorf("duplicate matching file: %s", matchingFile)
+	// protoc outputs either the path it was given, or the path relative to
+	// the first include directory that has the file
+	paths := []string{match}
+	for _, include := range cmdMeta.includes {
+		paths = append(paths, filepath.Join(include, match))
+	}
+	for _, path := range paths {
+		for _, protoFile := range cmdMeta.protoSet.DirPathToFiles[filepath.Dir(path)] {
+			if protoFile.Path == path {
+				return protoFile.DisplayPath, nil
 			}
-			matchingFile = protoFile.DisplayPath
 		}
 	}
-	if matchingFile == "" {
-		return "", fmt.Errorf("no matching file for %s", match)
-	}
-	return matchingFile, nil
+	return "", fmt.Errorf("no matching file for %s", match)
 }
 
 func getFileDescriptorSet(cmdMeta *cmdMeta) (*FileDescriptorSet, error) {
@@ -997,6 +993,7 @@ type cmdMeta struct {
 	execCmd                   *exec.Cmd
 	protoSet                  *file.ProtoSet
 	dirPath                   string
+	includes                  []string
 	protoFiles                []*file.ProtoFile
 	descriptorSetTempFilePath string
 }
-- 
2.43.0


From e64d325928e148ae7a274976791aac15df090f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:47 +0000
Subject: [PATCH 26/27] fix: use the configuration of the argument for
 directories without files

If the directory given as an argument had no Protobuf files, the
configuration was looked up from the working directory instead, so that
for example cache update DIR installed another version of protoc.
---
 internal/file/proto_set_provider.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 11c6e0e..63b9293 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -110,7 +110,7 @@ func (c *protoSetProvider) getMultipleForDir(workDirPath string, dirPath string)
 		return nil, err
 	}
 	dirPathToProtoFiles := getDirPathToProtoFiles(protoFiles)
-	protoSets, err := c.getBaseProtoSets(workDirPath, dirPathToProtoFiles)
+	protoSets, err := c.getBaseProtoSets(workDirPath, configDirPath, dirPathToProtoFiles)
 	if err != nil {
 		return nil, err
 	}
@@ -127,9 +127,10 @@ func (c *protoSetProvider) getMultipleForDir(workDirPath string, dirPath string)
 	return protoSets, nil
 }
 
-func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, dirPathToProtoFiles map[string][]*ProtoFile) ([]*ProtoSet, error) {
+func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, absConfigDirPath string, dirPathToProtoFiles map[string][]*ProtoFile) ([]*ProtoSet, error) {
 	if len(dirPathToProtoFiles) == 0 {
-		protoSet, err := c.getDefaultBaseProtoSet(absWorkDirPath)
+		// the configuration is the one for the given directory, wherever we were invoked
+		protoSet, err := c.getDefaultBaseProtoSet(absConfigDirPath)
 		if err != nil {
 			return nil, err
 		}
@@ -187,12 +188,12 @@ func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, dirPathToProt
 	return protoSets, nil
 }
 
-// getDefaultBaseProtoSet gets a ProtoSet with no files for the given working directory path.
-func (c *protoSetProvider) getDefaultBaseProtoSet(absWorkDirPath string) (*ProtoSet, error) {
+// getDefaultBaseProtoSet gets a ProtoSet with no files for the given configuration directory path.
+func (c *protoSetProvider) getDefaultBaseProtoSet(absConfigDirPath string) (*ProtoSet, error) {
 	protoSet := &ProtoSet{
 		DirPathToFiles: make(map[string][]*ProtoFile),
 	}
-	config, err := c.getConfig(absWorkDirPath)
+	config, err := c.getConfig(absConfigDirPath)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6a8d160973acea720e910fb673c9045b4f49c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:49 +0000
Subject: [PATCH 27/27] fix: do not fail if a temporary file is removed while
 walking

A file that is rewritten in place by another prototool process, or by an
editor, has a temporary file next to it for a short time, and commands that
walked the directory at that time failed as they could not find it.
---
 internal/file/proto_set_provider.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 63b9293..5fcfc6a 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -239,10 +239,15 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 			// is if it is one, as it can be if it is derived from the working directory
 			absDirPath+string(filepath.Separator),
 			func(filePath string, fileInfo os.FileInfo, err error) error {
+				filePath = filepath.Clean(filePath)
+				// something that has been removed in the meantime, such as a temporary file of an
+				// editor or of another prototool process, is not ours to look at
+				if fileInfo == nil && os.IsNotExist(err) && filePath != absDirPath && filepath.Ext(filePath) != ".proto" {
+					return nil
+				}
 				if err != nil {
 					return err
 				}
-				filePath = filepath.Clean(filePath)
 				numWalkedFiles++
 				select {
 				case <-timedOutC:
-- 
2.43.0

