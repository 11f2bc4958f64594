From cd6374dbce6c6d8b5645502320c34418529075da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:30 +0000
Subject: [PATCH 01/30] fix: build heading tree of Org files from real nesting

Skipped heading levels put nil headings into the tree and serializing of
a urlMentions reply crashed the backend. Reslicing of the headings array
could attribute links to headings of an earlier subtree and levels
deeper than 10 were nested incorrectly.
---
 pkg/burl_links/extract_org.go | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..32d687c 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -126,10 +126,16 @@ func OrgLinkMatchIsUrl(match []string) *Link {
 }
 
 func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode, error) {
-	headings := make([]*Heading, 0, 10)
 	tree := NewTreeChildrenNode(nil)
-	treeNodes := make([]*TreeChildrenNode, 1, cap(headings)+1)
-	treeNodes[0] = &tree
+	// Chain of headings enclosing current line. Levels are strictly increasing
+	// but some of them may be skipped. Tree nodes are created only for headings
+	// having links inside.
+	type openNode struct {
+		level   int
+		heading *Heading
+		node    *TreeChildrenNode
+	}
+	open := append(make([]openNode, 0, 10), openNode{0, nil, &tree})
 	scanner := bufio.NewScanner(file)
 	scanner.Split(bufio.ScanLines)
 	lineNo := 0
@@ -138,29 +144,23 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
-			if level > cap(headings) {
-				level = cap(headings) - 1
-			}
-			headings = headings[0 : level-1]
-			if len(treeNodes) >= level {
-				treeNodes = treeNodes[0:level]
-			}
-			for i := len(headings); i < level-1; i++ {
-				headings = append(headings, nil)
+			for open[len(open)-1].level >= level {
+				open = open[:len(open)-1]
 			}
-			h := &Heading{lineNo, matchHeading[2]}
-			headings = append(headings, h)
+			open = append(open, openNode{level, &Heading{lineNo, matchHeading[2]}, nil})
 		}
 		if matchArray := reLink.FindAllStringSubmatch(line, -1); matchArray != nil {
 			for _, match := range matchArray {
 				if link := OrgLinkMatchIsUrl(match); link != nil &&
 					(filter == nil || filter(link)) {
-					for i := len(treeNodes) - 1; i < len(headings); i++ {
-						newNode := NewTreeChildrenNode(headings[i])
-						treeNodes = append(treeNodes, &newNode)
-						treeNodes[i].AddChild(&newNode)
+					for i := 1; i < len(open); i++ {
+						if open[i].node == nil {
+							newNode := NewTreeChildrenNode(open[i].heading)
+							open[i].node = &newNode
+							open[i-1].node.AddChild(&newNode)
+						}
 					}
-					tip := treeNodes[len(treeNodes)-1]
+					tip := open[len(open)-1].node
 					link.LineNo = lineNo
 					tip.AddLink(link)
 				}
-- 
2.43.0


From eb7d5aad43b80d6a7e498e9e8dfbfa7273fb65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:31 +0000
Subject: [PATCH 02/30] fix: skip whitespace left unread at the end of a frame

Depending on frame size and on fragmentation of the stream, JSON decoder
does not necessary consume whitespace after the value, e.g. trailing
newline. Next frame was considered as an error and the session was terminated.
---
 pkg/webextensions/frame.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..7493876 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -54,9 +54,8 @@ func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
 }
 
 func (r *FrameLimitedReader) ReadHeader() error {
-	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+	if err := r.skipPadding(); err != nil {
+		return err
 	}
 	r.LimitedReader.N = 4
 	var size uint32
@@ -70,6 +69,22 @@ func (r *FrameLimitedReader) ReadHeader() error {
 	return nil
 }
 
+// A parser of JSON stops just after the end of a value, so whitespace following
+// it may be still unread.
+func (r *FrameLimitedReader) skipPadding() error {
+	var buf [512]byte
+	for r.LimitedReader.N != 0 {
+		n, err := r.Read(buf[:])
+		if len(bytes.Trim(buf[:n], " \t\r\n")) != 0 {
+			return ErrReadBody
+		}
+		if err != nil && r.LimitedReader.N != 0 {
+			return err
+		}
+	}
+	return nil
+}
+
 type FrameWriter interface {
 	io.Writer
 	WriteFrame() error
-- 
2.43.0


From 253d96a4600ec62a5229b449553b9c270a8777cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:31 +0000
Subject: [PATCH 03/30] fix: do not write frames after a failed one

Peer may have received a part of the failed frame and so it could consider
bytes of following ones as its tail.
---
 pkg/webextensions/frame.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 7493876..4772f47 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -97,16 +97,25 @@ type FrameWriter interface {
 type FrameBufferedWriter struct {
 	bytes.Buffer
 	W io.Writer
+	// Stream state is undefined after a failure, so it is not recoverable.
+	err error
 }
 
 var _ FrameWriter = (*FrameBufferedWriter)(nil)
 
 func NewFrameBufferedWriter(w io.WriteCloser) FrameWriter {
-	return &FrameBufferedWriter{bytes.Buffer{}, w}
+	return &FrameBufferedWriter{W: w}
 }
 
 func (w *FrameBufferedWriter) WriteFrame() error {
 	defer w.Buffer.Reset()
+	if w.err == nil {
+		w.err = w.writeFrame()
+	}
+	return w.err
+}
+
+func (w *FrameBufferedWriter) writeFrame() error {
 	size := uint32(w.Buffer.Len())
 	if err := binary.Write(w.W, NativeEndian, &size); err != nil {
 		return err
-- 
2.43.0


From 12f0769395471241f3296afeeff9fb17927277af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 04/30] fix: concurrent requests must not share emacsclient
 arguments

The UserArgs slice has spare capacity, so arguments of a request were
stored into the array used by other requests as well.
---
 pkg/burl_emacs/emacs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..074dcb9 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,7 +57,11 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
-	allArgs := append(UserArgs, Args...)
+	// Do not append to UserArgs directly, spare capacity of the global slice
+	// would be shared by concurrent requests.
+	allArgs := make([]string, 0, len(UserArgs)+len(Args)+len(args))
+	allArgs = append(allArgs, UserArgs...)
+	allArgs = append(allArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
 	out, err := cmd.CombinedOutput()
-- 
2.43.0


From 255b228c3f6aea2b75a20f1e1a6d59a47a554a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:07 +0000
Subject: [PATCH 05/30] fix: urlMentions with negative or huge count limit

Negative value caused panic, integer overflow was possible for a large one.
---
 pkg/burl_links/node_count.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..296336a 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,12 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	if target > tree.Attrs.Count {
+		target = tree.Attrs.Count
+	}
+	if target < 0 {
+		target = 0
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0


From 7783a07a473cfdf3324d3be85c04e5798b2c9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 06/30] fix: avoid nil dereference when stat of an existing
 helper fails

---
 pkg/burl_fileutil/fileutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..7619509 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -53,7 +53,10 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		return err
 	}
 	stat, err := os.Stat(path)
-	if !errors.Is(err, os.ErrNotExist) {
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return fmt.Errorf("%w: unable to check existing helper", err)
+	}
+	if err == nil {
 		bufLen := 4096
 		if len(content) > bufLen {
 			bufLen += len(content)
-- 
2.43.0


From a6db60ee15b1890763c71e3c2a747983b307fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:09 +0000
Subject: [PATCH 07/30] fix: compare complete content of an existing helper

Empty file was reported as a read error even if overwriting is forced,
a single Read call may return less than whole file.
---
 pkg/burl_fileutil/fileutil.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7619509..4d682b0 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -58,7 +59,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	}
 	if err == nil {
 		bufLen := 4096
-		if len(content) > bufLen {
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
@@ -67,8 +68,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 			return fmt.Errorf("%w: unable to check contents of existing helper", err)
 		}
 		defer file.Close()
-		count, err := file.Read(data)
-		if err != nil {
+		count, err := io.ReadFull(file, data)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
-- 
2.43.0


From 7119249e4734cbada010716e8ef864119f2d0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 08/30] fix: make existing wrapper executable

Permissions were adjusted only if the file was not readable as well.
---
 pkg/burl_fileutil/fileutil.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 4d682b0..71f8878 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -83,8 +83,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
-				if err := os.Chmod(path, perm|0500); err != nil {
+			if need := mode & 0500; perm&need != need {
+				if err := os.Chmod(path, perm|need); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
 			}
-- 
2.43.0


From b8da74c2b6211640e720b621fb336e87afb3f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 09/30] fix: sync helper file before renaming it to the target
 path

---
 pkg/burl_fileutil/fileutil.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 71f8878..e541639 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -95,10 +95,10 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 	}
 	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path))
-	defer f.Close()
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	if err := f.Chmod(mode); err != nil {
 		os.Remove(f.Name()) // unlinkat(2) ?
 		return err
@@ -107,6 +107,11 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		os.Remove(f.Name()) // unlinkat(2) ?
 		return err
 	}
+	// Otherwise an empty or truncated file may be found after a power loss.
+	if err := f.Sync(); err != nil {
+		os.Remove(f.Name()) // unlinkat(2) ?
+		return err
+	}
 	// renameat(2) ?
 	if err := os.Rename(f.Name(), path); err != nil {
 		os.Remove(f.Name()) // unlinkat(2) ?
-- 
2.43.0


From d9792483a2d362e65699884e1d4b1477e3bf0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 10/30] fix: quote wrapper arguments for POSIX shell

Output of "printf %q" contains $'...' for control characters and some
locales, it is not supported by dash and other POSIX shells, so
the backend was started with different arguments.
---
 pkg/burl_fileutil/escape_printf.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..0e40c18 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,23 @@
 
 package burl_fileutil
 
-import "os/exec"
+import (
+	"errors"
+	"strings"
+)
 
-// TODO avoid printf external process
+// Characters having no special meaning for a POSIX shell.
+const shellSafeChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789" +
+	"%+,-./:=@_"
+
+// Quote an argument for a POSIX shell. The $'...' form, that is used by
+// "printf %q", is not supported e.g. by dash.
 func EscapeShellArg(arg string) (string, error) {
-	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
-	return string(out), err
+	if strings.IndexByte(arg, 0) >= 0 {
+		return "", errors.New("NUL character in a shell argument")
+	}
+	if arg != "" && strings.Trim(arg, shellSafeChars) == "" {
+		return arg, nil
+	}
+	return "'" + strings.ReplaceAll(arg, "'", `'\''`) + "'", nil
 }
-- 
2.43.0


From 910bd7e6cbb4363d2dc94df3b99c24688aacf913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:50 +0000
Subject: [PATCH 11/30] fix: well-formed message of the wrapper when the
 backend is missing

Size of the message was wrong for long paths (256 bytes and more) and, in
shells counting characters, for non-ASCII ones. Control characters and
backslashes led to invalid JSON.
---
 cmd/burl_backend/install.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index c4a1e1d..35c806e 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -130,12 +130,14 @@ BURL_BACKEND=%s
 # "trap HANDLER EXIT" is ignored as well. So a test is required.
 [ -x "$BURL_BACKEND" ] && \
 	exec "$BURL_BACKEND" %s
-err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"' "/'"): file not found or not executable\"}"
-# platform endian-dependent hack
-/usr/bin/printf "\\x$(printf '%%x' "${#err}")\\x00\\x00\\x00"
-printf '%%s' "$err"
+# Native messaging frame: platform endian-dependent size and JSON.
+printf '%s%%s' %s
 `
-			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "))
+			size, message, err := notExecutableMessage(backendOptions.Exe)
+			if err != nil {
+				return retval, err
+			}
+			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "), size, message)
 			err = burl_fileutil.WriteFile(installOptions.WrapperPath, []byte(content), 0755, installOptions.Force)
 			if err != nil {
 				return retval, fmt.Errorf("%w: failed to write wrapper", err)
@@ -198,6 +200,22 @@ printf '%%s' "$err"
 	return retval, nil
 }
 
+// Error to be reported to the browser by the wrapper if it can not start the backend.
+// Result is a format string for printf(1) and its argument quoted for shell.
+func notExecutableMessage(exe string) (size string, message string, err error) {
+	data, err := json.Marshal(map[string]string{"error": exe + ": file not found or not executable"})
+	if err != nil {
+		return "", "", err
+	}
+	var frameSize [4]byte
+	webextensions.NativeEndian.PutUint32(frameSize[:], uint32(len(data)))
+	for _, b := range frameSize {
+		size += fmt.Sprintf("\\%03o", b)
+	}
+	message, err = burl_fileutil.EscapeShellArg(string(data))
+	return size, message, err
+}
+
 func writeManifest(m *webextensions.Manifest, force bool) error {
 	m.Description = version.Description
 	if err := m.Init(); err != nil {
-- 
2.43.0


From a62f05909ffc6c47dafa9e9a56229b69029cff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 12/30] fix: make emacsclient path in the wrapper independent
 of working directory

---
 cmd/burl_backend/args.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/burl_backend/args.go b/cmd/burl_backend/args.go
index 598a79c..112d8f1 100644
--- a/cmd/burl_backend/args.go
+++ b/cmd/burl_backend/args.go
@@ -19,6 +19,8 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"path/filepath"
+	"strings"
 
 	"github.com/maxnikulin/burl/pkg/burl_emacs"
 	"github.com/maxnikulin/burl/pkg/burl_fileutil"
@@ -86,6 +88,12 @@ func (a *BurlBackendArgs) FixPaths() error {
 			return err
 		}
 	}
+	// Command without slash is searched in PATH.
+	if strings.Contains(burl_emacs.Command, "/") {
+		if burl_emacs.Command, err = filepath.Abs(burl_emacs.Command); err != nil {
+			return fmt.Errorf("emacsclient command: %w", err)
+		}
+	}
 	for i, s := range a.LinkSources {
 		if path, err := burl_fileutil.RealPath(s.Name()); err == nil {
 			a.LinkSources[i] = s.Clone(path)
-- 
2.43.0


From c74fa8fb04cf78bf0bc1b69061f5d4cc820775e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 13/30] fix: burl_client must report failure to print the
 response

---
 tools/burl_client/burl_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index 906f9a7..a885bfa 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -164,7 +164,9 @@ func mainWithGracefulShutdown() error {
 	if err = rpcClient.Call(method, data, &reply); err == nil {
 		enc := json.NewEncoder(os.Stdout)
 		enc.SetIndent("", "  ")
-		enc.Encode(reply)
+		if err := enc.Encode(reply); err != nil {
+			return fmt.Errorf("%s print response: %w", subcommandName, err)
+		}
 	} else {
 		return fmt.Errorf("%s response: %w", subcommandName, err)
 	}
-- 
2.43.0


From 563d9d0f63ed916e354738d89cc979b2d13af0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:52 +0000
Subject: [PATCH 14/30] fix: burl_tool must report failure to write its output

---
 cmd/burl_tool/burl_tool.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index d5638ab..1dc3369 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -79,7 +79,9 @@ func mainWithGracefulShutdown() error {
 			return err
 		}
 		for key, _ := range result {
-			fmt.Println(key)
+			if _, err := fmt.Println(key); err != nil {
+				return err
+			}
 		}
 		return nil
 	}
@@ -107,7 +109,9 @@ func mainWithGracefulShutdown() error {
 		if attrTree != nil {
 			enc := json.NewEncoder(os.Stdout)
 			enc.SetIndent("", "  ")
-			enc.Encode(attrTree)
+			if errEncode := enc.Encode(attrTree); errEncode != nil && err == nil {
+				err = errEncode
+			}
 			// enc.Encode(group)
 		}
 	}
-- 
2.43.0


From fd3943b10845ca7779ec8ee2cb228aceb25e4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:53 +0000
Subject: [PATCH 15/30] fix: burl_tool ignored the URL to search for

Result of UrlVariants was discarded, so all links were reported.
---
 cmd/burl_tool/burl_tool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index 1dc3369..66bd9a6 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -63,7 +63,7 @@ func mainWithGracefulShutdown() error {
 	nextArg := 0
 	variants := make([]string, 0, 8)
 	if len(set) == 0 {
-		burl_url.UrlVariants(flag.Arg(0))
+		variants = burl_url.UrlVariants(flag.Arg(0))
 		nextArg = 1
 	}
 	queryIsEmpty := len(variants) == 0
-- 
2.43.0


From 6693e614c6e5e8e63d3e59b3fdee9799006b3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:19 +0000
Subject: [PATCH 16/30] fix: find plain links with a single character after a
 linkSet prefix

---
 pkg/burl_links/extract_org.go | 19 +++++++++++++++++--
 pkg/burl_links/extract_txt.go |  3 +--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 32d687c..9128608 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -189,6 +189,19 @@ func MakeLinkSetBase(filters []string) (string, error) {
 	return "(?:" + strings.Join(base, "|") + ")", nil
 }
 
+// Pattern of a plain text link having scheme of one of the prefixes. The end of
+// a link does not depend on the prefix, so the latter should be checked separately.
+func makeLinkSetPlain(filters []string) string {
+	schemes := make([]string, 0, len(filters))
+	for _, prefix := range filters {
+		if colon := strings.IndexByte(prefix, ':'); colon >= 0 {
+			prefix = prefix[:colon]
+		}
+		schemes = append(schemes, regexp.QuoteMeta(prefix))
+	}
+	return "\\b((?:" + strings.Join(schemes, "|") + "):" + rePlainSuffixStr + ")"
+}
+
 // TODO: buld filter regexp ones for several files.
 func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[string]bool) error {
 	scanner := bufio.NewScanner(file)
@@ -198,7 +211,7 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 		return err
 	}
 	reAngle := "<(" + base + reAngleSuffixStr + ")>"
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	rePlain := makeLinkSetPlain(filters)
 	reSetLink, err := regexp.Compile(reBracketStr + "|" + reAngle + "|" + rePlain)
 	if err != nil {
 		return err
@@ -221,7 +234,9 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 			} else if angle := match[3]; len(angle) > 0 {
 				(*result)[angle] = true
 			} else if plain := match[4]; len(plain) > 0 {
-				(*result)[plain] = true
+				if reBracketPrefix.MatchString(plain) {
+					(*result)[plain] = true
+				}
 			} else {
 				log.Printf("burl_links.OrgLinkSource.ExtractSet: internal error '%v'", match[0])
 			}
diff --git a/pkg/burl_links/extract_txt.go b/pkg/burl_links/extract_txt.go
index 9c56289..324861c 100644
--- a/pkg/burl_links/extract_txt.go
+++ b/pkg/burl_links/extract_txt.go
@@ -108,8 +108,7 @@ func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
-	reSetLink, err := regexp.Compile(rePlain)
+	reSetLink, err := regexp.Compile(makeLinkSetPlain(filters))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d695341df2999b6a07bcc0707dbe0c934e13655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:37 +0000
Subject: [PATCH 17/30] fix: keep total count of mentions when only one file
 fits into the limit

---
 pkg/burl_links/node_count.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 296336a..7b52f44 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -78,7 +78,12 @@ func (p *LimitCountNode) MarshalJSON() ([]byte, error) {
 	if node, ok := p.Node.(*TreeChildrenNode); ok {
 		if _, ok := node.Props.(*FileGroupProps); ok {
 			if children := node.GetChildrenNodes(); len(children) == 1 {
-				return json.Marshal(children[0])
+				// The group may be omitted unless its total count includes
+				// links from files that do not fit into the limit.
+				child, ok := children[0].(*LimitCountNode)
+				if !ok || child.Attrs.Count == p.Attrs.Count {
+					return json.Marshal(children[0])
+				}
 			}
 		}
 	}
-- 
2.43.0


From 7359d970755b40d5368f5e0fd811dd124a4e2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 18/30] fix: wrapper path may be another name of the backend
 file

Overwriting is refused if -wrapper is the backend itself, but the check
was missing a path through a symlinked directory. With -force the backend
was replaced by a script executing itself.
---
 cmd/burl_backend/install.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index 35c806e..e792c04 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"path/filepath"
 	"strings"
 
 	"github.com/maxnikulin/burl/pkg/burl_fileutil"
@@ -108,6 +109,12 @@ func processInstallFlags(
 		); err != nil {
 			return retval, fmt.Errorf("%w: failed to get absolute wrapper path", err)
 		} else {
+			// Another name of the backend due to a symlink to its directory.
+			if real, err := burl_fileutil.RealPath(filepath.Dir(path)); err != nil {
+				return retval, fmt.Errorf("wrapper directory: %w", err)
+			} else if filepath.Join(real, filepath.Base(path)) == backendOptions.Exe {
+				path = backendOptions.Exe
+			}
 			manifestExe = path
 			installOptions.WrapperPath = path
 		}
-- 
2.43.0


From 590e507fa7138bb921f9a67bcb546b8310a7f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 19/30] fix: a helper must not overwrite another one requested
 at once

With -force e.g. the same file given for Firefox and Chrome manifests
was silently replaced by the latter one.
---
 cmd/burl_backend/install.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index e792c04..2939674 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -102,6 +102,7 @@ func processInstallFlags(
 	if err := backendOptions.FixPaths(); err != nil {
 		return retval, fmt.Errorf("make cwd independent args: %w", err)
 	}
+	targets := installTargets{}
 	manifestExe := ""
 	if installOptions.WrapperPath != "" && installOptions.WrapperPath != "-" {
 		if path, _, err := burl_fileutil.AsAbsFileName(
@@ -109,6 +110,9 @@ func processInstallFlags(
 		); err != nil {
 			return retval, fmt.Errorf("%w: failed to get absolute wrapper path", err)
 		} else {
+			if err := targets.add(path); err != nil {
+				return retval, fmt.Errorf("wrapper path: %w", err)
+			}
 			// Another name of the backend due to a symlink to its directory.
 			if real, err := burl_fileutil.RealPath(filepath.Dir(path)); err != nil {
 				return retval, fmt.Errorf("wrapper directory: %w", err)
@@ -166,6 +170,9 @@ printf '%s%%s' %s
 		if err != nil {
 			return retval, fmt.Errorf("Firefox manifest path: %w", err)
 		}
+		if err := targets.add(path); err != nil {
+			return retval, fmt.Errorf("Firefox manifest path: %w", err)
+		}
 		m := webextensions.Manifest{
 			Name:              name,
 			Path:              manifestExe,
@@ -186,6 +193,9 @@ printf '%s%%s' %s
 		if err != nil {
 			return retval, fmt.Errorf("Chrome manifest path: %w", err)
 		}
+		if err := targets.add(path); err != nil {
+			return retval, fmt.Errorf("Chrome manifest path: %w", err)
+		}
 		origins := make([]string, len(installOptions.ChromeExtensionID))
 		for i, id := range installOptions.ChromeExtensionID {
 			if strings.HasPrefix(id, "chrome-extension://") {
@@ -207,6 +217,25 @@ printf '%s%%s' %s
 	return retval, nil
 }
 
+// Files requested to be created. A helper must not overwrite another one.
+type installTargets map[string]bool
+
+func (t installTargets) add(path string) error {
+	if path == "-" {
+		return nil
+	}
+	dir, err := burl_fileutil.RealPath(filepath.Dir(path))
+	if err != nil {
+		return err
+	}
+	path = filepath.Join(dir, filepath.Base(path))
+	if t[path] {
+		return fmt.Errorf("%s: requested for more than one file", path)
+	}
+	t[path] = true
+	return nil
+}
+
 // Error to be reported to the browser by the wrapper if it can not start the backend.
 // Result is a format string for printf(1) and its argument quoted for shell.
 func notExecutableMessage(exe string) (size string, message string, err error) {
-- 
2.43.0


From 54eaa02f97093290b238c7dc0345ba7f0667d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:19 +0000
Subject: [PATCH 20/30] fix: refuse manifest with a path that can not be
 represented in JSON

Bytes that are not valid UTF-8 were replaced, so the manifest pointed to
a file that does not exist.
---
 pkg/webextensions/manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/webextensions/manifest.go b/pkg/webextensions/manifest.go
index 1bae90a..ce845cc 100644
--- a/pkg/webextensions/manifest.go
+++ b/pkg/webextensions/manifest.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"strings"
+	"unicode/utf8"
 )
 
 // Due to excessive number of fields, there is no point in New function.
@@ -48,6 +49,10 @@ func (m *Manifest) Init() error {
 	if m.Path == "" || !filepath.IsAbs(m.Path) {
 		return errors.New("\"path\" is not specified")
 	}
+	// Otherwise JSON encoder would replace invalid bytes.
+	if !utf8.ValidString(m.Name) || !utf8.ValidString(m.Path) {
+		return fmt.Errorf("\"name\" or \"path\" is not valid UTF-8: %q %q", m.Name, m.Path)
+	}
 	if m.ManifestPath == "" {
 		return errors.New("Path for manifest file is not specified")
 	}
-- 
2.43.0


From bd4603258823c7eebc2838730fb2ed7ea33b8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:09 +0000
Subject: [PATCH 21/30] fix: change permissions of the file that has been
 compared

Another installer may have replaced the helper in the meanwhile.
---
 pkg/burl_fileutil/fileutil.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index e541639..55604b0 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -53,7 +53,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		_, err := os.Stdout.Write(content)
 		return err
 	}
-	stat, err := os.Stat(path)
+	_, err := os.Stat(path)
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return fmt.Errorf("%w: unable to check existing helper", err)
 	}
@@ -82,9 +82,14 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 			}
 		}
 		if bytes.Equal(data[:count], content) {
+			// The path may be already taken by another file.
+			stat, err := file.Stat()
+			if err != nil {
+				return fmt.Errorf("%w: unable to check existing helper", err)
+			}
 			perm := stat.Mode().Perm()
 			if need := mode & 0500; perm&need != need {
-				if err := os.Chmod(path, perm|need); err != nil {
+				if err := file.Chmod(perm | need); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
 			}
-- 
2.43.0


From 1ddc26bed7a517c4776ca221bbb5335dbe14068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:25 +0000
Subject: [PATCH 22/30] fix: Default limit of mentions if options have no limit

An options object without countLimit was treated as request to show
no link at all.
---
 cmd/burl_backend/burl_backend.go | 4 ++--
 pkg/burl_rpc/burl_rpc.go         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/burl_backend/burl_backend.go b/cmd/burl_backend/burl_backend.go
index a0d358c..73668a2 100644
--- a/cmd/burl_backend/burl_backend.go
+++ b/cmd/burl_backend/burl_backend.go
@@ -186,8 +186,8 @@ func (b *BurlBackend) UrlMentions(query *burl_rpc.UrlMentionsQuery, reply *burl_
 		return false
 	}
 	countLimit := 8
-	if query.Options != nil {
-		countLimit = query.Options.CountLimit
+	if query.Options != nil && query.Options.CountLimit != nil {
+		countLimit = *query.Options.CountLimit
 	}
 	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
 	attrTree = burl_links.FilterChildrenCount(attrTree, countLimit)
diff --git a/pkg/burl_rpc/burl_rpc.go b/pkg/burl_rpc/burl_rpc.go
index 8d0204c..4242b29 100644
--- a/pkg/burl_rpc/burl_rpc.go
+++ b/pkg/burl_rpc/burl_rpc.go
@@ -32,7 +32,7 @@ type UrlMentionsQuery struct {
 }
 
 type UrlMentionsOptions struct {
-	CountLimit int `json:"countLimit"`
+	CountLimit *int `json:"countLimit,omitempty"`
 }
 
 type Location struct {
-- 
2.43.0


From d64fd40f4c0f603696efccd0dc34ca30af76b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 23/30] fix: recognize Org headings followed by spaces

---
 pkg/burl_links/extract_org.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 9128608..a0c1527 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -25,7 +25,7 @@ import (
 	"strings"
 )
 
-var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
+var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 
 // "mid": mail messages, absent in default Org configuration, see
 // RFC 2392 - Content-ID and Message-ID Uniform Resource Locators
-- 
2.43.0


From 70376dc75ea3895403e4e8d84f4094fd5aba52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 24/30] fix: linear memory for variants of a URL with a long
 redundant tail

---
 pkg/burl_url/url.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/burl_url/url.go b/pkg/burl_url/url.go
index 85e7b92..b4a4797 100644
--- a/pkg/burl_url/url.go
+++ b/pkg/burl_url/url.go
@@ -38,29 +38,24 @@ func RedundantTailVariants(url string) []string {
 	if l == 0 {
 		return retval
 	}
-	slice := make([]rune, l)
-	n := 0
-	for _, r := range url {
-		slice[n] = r
-		n++
-	}
-	slice = slice[:n]
-	i := n
-	if i > 0 && slice[i-1] == '#' {
+	// Only ASCII characters are dropped, so any prefix is a valid string. Variants
+	// share memory, copies of a long tail would require too much of it.
+	i := l
+	if i > 0 && url[i-1] == '#' {
 		i--
 	}
-	for i > 0 && slice[i-1] == '&' {
+	for i > 0 && url[i-1] == '&' {
 		i--
 	}
-	if i > 0 && slice[i-1] == '?' {
+	if i > 0 && url[i-1] == '?' {
 		i--
 	}
-	for i > 0 && slice[i-1] == '/' {
+	for i > 0 && url[i-1] == '/' {
 		i--
 	}
 
-	for ; i <= n; i++ {
-		retval = append(retval, string(slice[:i]))
+	for ; i <= l; i++ {
+		retval = append(retval, url[:i])
 	}
 	return retval
 }
-- 
2.43.0


From c621f6dc7f214a01aaa46de547963ae1526a7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 25/30] fix: answer with an error when a tree of mentions is
 too deep to be encoded

---
 cmd/burl_backend/burl_backend.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/burl_backend/burl_backend.go b/cmd/burl_backend/burl_backend.go
index 73668a2..cb69e6b 100644
--- a/cmd/burl_backend/burl_backend.go
+++ b/cmd/burl_backend/burl_backend.go
@@ -16,6 +16,7 @@
 package main
 
 import (
+	"encoding/json"
 	"errors"
 	"flag"
 	"fmt"
@@ -191,6 +192,10 @@ func (b *BurlBackend) UrlMentions(query *burl_rpc.UrlMentionsQuery, reply *burl_
 	}
 	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
 	attrTree = burl_links.FilterChildrenCount(attrTree, countLimit)
+	// Too deep tree can not be encoded, so the reply would be never sent.
+	if _, err := json.Marshal([]interface{}{attrTree}); err != nil {
+		return fmt.Errorf("linkremark.urlMentions: %w", err)
+	}
 	*reply = *attrTree
 	return nil
 }
-- 
2.43.0


From 60a3559e47ce4f9b8c5add5dc41417691749e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:11 +0000
Subject: [PATCH 26/30] fix: do not reject a call of the example add-on if its
 result is 0, false or empty

JsonRpcClient considered such results as an invalid response.
---
 examples/webextensions_addon/rpc_client.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/examples/webextensions_addon/rpc_client.js b/examples/webextensions_addon/rpc_client.js
index c465c22..7e8f13c 100644
--- a/examples/webextensions_addon/rpc_client.js
+++ b/examples/webextensions_addon/rpc_client.js
@@ -92,13 +92,16 @@ class JsonRpcClient {
 			console.error("%s: message with unknown id received '%s' %s", this.tag, id, JSON.stringify(response));
 			return;
 		}
+		this.promiseMap.delete(id);
 		if (response.result) {
 			promiseObj.resolve(response.result);
 		} else if (response.error) {
 			promiseObj.reject(new Error(response.error));
+		} else if (response.result != null) {
+			// 0, false, or empty string
+			promiseObj.resolve(response.result);
 		} else {
-			return promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
+			promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
 		}
-		this.promiseMap.delete(id);
 	};
 }
-- 
2.43.0


From 6a9743f56bf358d49cf94d76bee5d43031fa09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:04 +0000
Subject: [PATCH 27/30] fix: arguments added by the browser are not note files

---
 cmd/burl_backend/args.go         | 16 ++++++++++++++++
 cmd/burl_backend/burl_backend.go |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/burl_backend/args.go b/cmd/burl_backend/args.go
index 112d8f1..e8a3ee4 100644
--- a/cmd/burl_backend/args.go
+++ b/cmd/burl_backend/args.go
@@ -72,6 +72,22 @@ func (a *BurlBackendArgs) Customized() bool {
 		burl_emacs.Command != "emacsclient")
 }
 
+// Browsers add arguments to the command when manifest contains path
+// to the backend and not to a wrapper. They are not note files.
+//
+// Chrome: origin of the extension (and a window handle on Windows).
+// Firefox: path to the manifest, ID of the add-on ("name@domain" or "{UUID}").
+func withoutBrowserArgs(args []string) []string {
+	if len(args) > 0 && strings.HasPrefix(args[0], "chrome-extension://") {
+		return nil
+	}
+	if len(args) == 2 && filepath.IsAbs(args[0]) && filepath.Ext(args[0]) == ".json" &&
+		(strings.Contains(args[1], "@") || strings.HasPrefix(args[1], "{")) {
+		return nil
+	}
+	return args
+}
+
 // Initialize Exe and ensure absolute paths
 func (a *BurlBackendArgs) FixPaths() error {
 	var err error
diff --git a/cmd/burl_backend/burl_backend.go b/cmd/burl_backend/burl_backend.go
index cb69e6b..1971c96 100644
--- a/cmd/burl_backend/burl_backend.go
+++ b/cmd/burl_backend/burl_backend.go
@@ -288,7 +288,8 @@ func mainWithGracefulShutdown() error {
 	if info, err := processGeneralFlags(generalFlags); info || err != nil {
 		return err
 	}
-	backendFlags.LinkSources = burl_links.AddSourceArgs(backendFlags.LinkSources, flag.Args())
+	backendFlags.LinkSources = burl_links.AddSourceArgs(
+		backendFlags.LinkSources, withoutBrowserArgs(flag.Args()))
 	if helpers, err := processInstallFlags(installFlags, backendFlags); helpers || err != nil {
 		if err != nil {
 			return fmt.Errorf("make helpers: %w", err)
-- 
2.43.0


From a165740926951056edff7652bfc3008d30b0a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 28/30] fix: refuse names of manifests that browsers do not
 accept

---
 pkg/webextensions/manifest.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/webextensions/manifest.go b/pkg/webextensions/manifest.go
index ce845cc..c8f20ce 100644
--- a/pkg/webextensions/manifest.go
+++ b/pkg/webextensions/manifest.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"strings"
 	"unicode/utf8"
 )
@@ -37,6 +38,11 @@ type Manifest struct {
 	ManifestPath      string   `json:"-"`
 }
 
+var (
+	reChromeName  = regexp.MustCompile(`^[a-z0-9_]+(\.[a-z0-9_]+)*$`)
+	reFirefoxName = regexp.MustCompile(`^\w+(\.\w+)*$`)
+)
+
 func (m *Manifest) Init() error {
 	// "allowed_origins" field causes a error in Firefox.
 	if (m.AllowedOrigins == nil || len(m.AllowedOrigins) == 0) ==
@@ -46,6 +52,14 @@ func (m *Manifest) Init() error {
 	if m.Name == "" {
 		return errors.New("\"name\" is not specified")
 	}
+	// Browsers ignore manifest files having other names.
+	reName := reFirefoxName
+	if len(m.AllowedOrigins) != 0 {
+		reName = reChromeName
+	}
+	if !reName.MatchString(m.Name) {
+		return fmt.Errorf("\"name\" is not allowed by the browser: %q", m.Name)
+	}
 	if m.Path == "" || !filepath.IsAbs(m.Path) {
 		return errors.New("\"path\" is not specified")
 	}
-- 
2.43.0


From 173905faab1d6ca66aaf8b0163021c2deb7d1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:55 +0000
Subject: [PATCH 29/30] fix: origin of a Chrome extension ends with a slash

---
 cmd/burl_backend/install.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index 2939674..e580706 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -199,7 +199,8 @@ printf '%s%%s' %s
 		origins := make([]string, len(installOptions.ChromeExtensionID))
 		for i, id := range installOptions.ChromeExtensionID {
 			if strings.HasPrefix(id, "chrome-extension://") {
-				origins[i] = id
+				// Chrome ignores manifests with an origin without path.
+				origins[i] = strings.TrimSuffix(id, "/") + "/"
 			} else {
 				origins[i] = fmt.Sprintf("chrome-extension://%s/", id)
 			}
-- 
2.43.0


From 919e1858cc2db7f025655fbb703c3a32cd40ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:58 +0000
Subject: [PATCH 30/30] Revert "fix: do not reject a call of the example add-on
 if its result is 0, false or empty"

Files below examples/ are to be left as they are.
---
 examples/webextensions_addon/rpc_client.js | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/examples/webextensions_addon/rpc_client.js b/examples/webextensions_addon/rpc_client.js
index 7e8f13c..c465c22 100644
--- a/examples/webextensions_addon/rpc_client.js
+++ b/examples/webextensions_addon/rpc_client.js
@@ -92,16 +92,13 @@ class JsonRpcClient {
 			console.error("%s: message with unknown id received '%s' %s", this.tag, id, JSON.stringify(response));
 			return;
 		}
-		this.promiseMap.delete(id);
 		if (response.result) {
 			promiseObj.resolve(response.result);
 		} else if (response.error) {
 			promiseObj.reject(new Error(response.error));
-		} else if (response.result != null) {
-			// 0, false, or empty string
-			promiseObj.resolve(response.result);
 		} else {
-			promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
+			return promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
 		}
+		this.promiseMap.delete(id);
 	};
 }
-- 
2.43.0

