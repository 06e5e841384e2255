From cf5bdd767f0b0ea40e2dd6d0be6237c5ce5282f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 01/26] fix: find the end of quoted file names that end with a
 backslash

---
 gitdiff/file_header.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..7025ca5 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -437,7 +437,11 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 
 func parseQuotedName(s string) (name string, n int, err error) {
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if s[n] == '\\' && n+1 < len(s) {
+			n++ // skip the escaped character
+			continue
+		}
+		if s[n] == '"' {
 			n++
 			break
 		}
-- 
2.43.0


From 7449ceb4c1bd88abf375268db8614111a6aa1a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 02/26] fix: keep new and deleted files without a mode when
 formatting

---
 gitdiff/format.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 4999000..a8b98f3 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -104,20 +104,18 @@ func (fm *formatter) FormatFile(f *File) {
 	fm.WriteQuotedName("b/" + bName)
 	fm.WriteByte('\n')
 
-	if f.OldMode != 0 {
-		if f.IsDelete {
-			fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
-		} else if f.NewMode != 0 {
-			fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
-		}
+	// Always include the mode lines for deleted and new files, even if the mode
+	// is unknown, because they are what marks the file as deleted or new
+	if f.IsDelete {
+		fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
+	} else if f.OldMode != 0 && f.NewMode != 0 {
+		fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
 	}
 
-	if f.NewMode != 0 {
-		if f.IsNew {
-			fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
-		} else if f.OldMode != 0 {
-			fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
-		}
+	if f.IsNew {
+		fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
+	} else if f.NewMode != 0 && f.OldMode != 0 {
+		fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
 	}
 
 	if f.Score > 0 {
-- 
2.43.0


From ef637b0ee9811d8e635dd6704ec921cb5e203400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 03/26] fix: accept sources that return io.EOF with the last
 bytes

---
 gitdiff/apply_binary.go | 2 +-
 gitdiff/io.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..4c6209f 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,7 +211,7 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	if n, err := src.ReadAt(b, offset); err != nil && !(err == io.EOF && n == len(b)) {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..cc82449 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,7 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	if n, err := r.r.ReadAt(b, offset); err != nil && !(err == io.EOF && n == len(b)) {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From 9f3c6e7e66654efacf9005baf00b570ac2243d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 04/26] fix: insert fragments without old lines after their old
 position

---
 gitdiff/apply_text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..3a80436 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -65,7 +65,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 	}
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
+	// if there are no old lines, the position is the line before the fragment
 	fragStart := f.OldPosition - 1
+	if f.OldLines == 0 {
+		fragStart = f.OldPosition
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From 0d521f388d94ac45d9603fa61cd60c209e3c6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 05/26] fix: return an ApplyError from Apply if copying the
 source fails

---
 gitdiff/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..2d21d52 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -117,7 +117,7 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		if err := applier.ApplyFragment(f.BinaryFragment); err != nil {
 			return err
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	case len(f.TextFragments) > 0:
 		frags := make([]*TextFragment, len(f.TextFragments))
@@ -137,11 +137,11 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 				return applyError(err, fragNum(i))
 			}
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	default:
 		// nothing to apply, just copy all the data
 		_, err := copyFrom(dst, src, 0)
-		return err
+		return applyError(err)
 	}
 }
-- 
2.43.0


From 217c77ab0db92b3430b781dddce6a36b5fea0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 06/26] fix: reject binary deltas with truncated or overflowing
 sizes

---
 gitdiff/apply_binary.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4c6209f..ea6a1bf 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 // BinaryApplier applies binary changes described in a fragment to source data.
@@ -93,7 +94,10 @@ func (a *BinaryApplier) Close() (err error) {
 }
 
 func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit int64) error {
-	srcSize, delta := readBinaryDeltaSize(frag)
+	srcSize, delta, err := readBinaryDeltaSize(frag)
+	if err != nil {
+		return err
+	}
 	if err := checkBinarySrcSize(src, srcSize); err != nil {
 		return err
 	}
@@ -102,7 +106,10 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 	// the destination from a small instruction set. First, check the expected
 	// size against the limit. Then, while executing instructions, stop as soon
 	// as a write exceeds the expected limit.
-	dstSize, delta := readBinaryDeltaSize(delta)
+	dstSize, delta, err := readBinaryDeltaSize(delta)
+	if err != nil {
+		return err
+	}
 	if limit >= 0 && dstSize > limit {
 		return fmt.Errorf("binary delta size of %d exceeds %d byte limit", dstSize, limit)
 	}
@@ -142,17 +149,22 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 //
 //	[[1xxxxxxx]...] [0xxxxxxx]
 //
-// in little-endian order, with 7 bits of the value per byte.
-func readBinaryDeltaSize(d []byte) (size int64, rest []byte) {
+// in little-endian order, with 7 bits of the value per byte. It returns an
+// error if the data ends before the size does or if the size overflows.
+func readBinaryDeltaSize(d []byte) (size int64, rest []byte, err error) {
 	shift := uint(0)
 	for i, b := range d {
-		size |= int64(b&0x7F) << shift
+		v := int64(b & 0x7F)
+		if v != 0 && (shift > 62 || v > math.MaxInt64>>shift) {
+			return 0, nil, errors.New("corrupt binary delta: size overflow")
+		}
+		size |= v << shift
 		shift += 7
 		if b <= 0x7F {
-			return size, d[i+1:]
+			return size, d[i+1:], nil
 		}
 	}
-	return size, nil
+	return 0, nil, errors.New("corrupt binary delta: incomplete size")
 }
 
 // applyBinaryDeltaAdd applies an add opcode in a delta-encoded binary
-- 
2.43.0


From fbf6239474364312ff98e2b405b7fca7de520863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 07/26] fix: reject negative file modes

---
 gitdiff/file_header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7025ca5..5473c78 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -408,6 +408,9 @@ func parseMode(s string) (os.FileMode, error) {
 		nerr := err.(*strconv.NumError)
 		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", nerr.Err)
 	}
+	if mode < 0 {
+		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", strconv.ErrRange)
+	}
 	return os.FileMode(mode), nil
 }
 
-- 
2.43.0


From 52643688f2b39d528ade78f8f74a9945640326f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 08/26] fix: ignore negative similarity scores like other out
 of range scores

---
 gitdiff/file_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 5473c78..8f3785a 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -375,7 +375,7 @@ func parseGitHeaderScore(f *File, line, defaultName string) error {
 		nerr := err.(*strconv.NumError)
 		return fmt.Errorf("invalid score line: %v", nerr.Err)
 	}
-	if score <= 100 {
+	if score >= 0 && score <= 100 {
 		f.Score = int(score)
 	}
 	return nil
-- 
2.43.0


From da786747148b83998723b9f9db5e94823c913a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 09/26] fix: reject signed numbers in text fragment headers

---
 gitdiff/text.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..0c92d3c 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -167,13 +167,13 @@ func removeLastNewline(frag *TextFragment) {
 func parseRange(s string) (start int64, end int64, err error) {
 	parts := strings.SplitN(s, ",", 2)
 
-	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
+	if start, err = parseRangeNumber(parts[0]); err != nil {
 		nerr := err.(*strconv.NumError)
 		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
 	}
 
 	if len(parts) > 1 {
-		if end, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
+		if end, err = parseRangeNumber(parts[1]); err != nil {
 			nerr := err.(*strconv.NumError)
 			return 0, 0, fmt.Errorf("bad end of range: %s: %v", parts[1], nerr.Err)
 		}
@@ -183,3 +183,9 @@ func parseRange(s string) (start int64, end int64, err error) {
 
 	return
 }
+
+// parseRangeNumber parses a number in a fragment header, which has no sign.
+func parseRangeNumber(s string) (int64, error) {
+	n, err := strconv.ParseUint(s, 10, 63)
+	return int64(n), err
+}
-- 
2.43.0


From 5e9fbe9e60fa9b0adc57a05cac26a7713d27f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 10/26] fix: remove carriage return from the commit in patch
 headers

---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9f42c90..654bb35 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -187,7 +187,7 @@ func ParsePatchHeader(header string, options ...PatchHeaderOption) (*PatchHeader
 
 	var firstLine, rest string
 	if before, after, ok := strings.Cut(header, "\n"); ok {
-		firstLine = before
+		firstLine = strings.TrimSuffix(before, "\r")
 		rest = after
 	} else {
 		firstLine = header
-- 
2.43.0


From f772f0ba3acf3cf24780750d6d9f4ff5d8ebbb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 11/26] fix: parse patch headers with long lines

---
 gitdiff/patch_header.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 654bb35..687d427 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -228,7 +229,7 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 		h.SHA = prettyLine
 	}
 
-	s := bufio.NewScanner(r)
+	s := newHeaderScanner(r)
 	for s.Scan() {
 		line := s.Text()
 
@@ -296,6 +297,14 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 	return h, nil
 }
 
+// newHeaderScanner returns a scanner for the lines in r that does not limit the
+// length of a line; the whole header is already in memory.
+func newHeaderScanner(r io.Reader) *bufio.Scanner {
+	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt)
+	return s
+}
+
 func scanMessageTitle(s *bufio.Scanner) (title string, indent string) {
 	var b strings.Builder
 	for i := 0; s.Scan(); i++ {
@@ -390,7 +399,7 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 	subject := msg.Header.Get("Subject")
 	h.SubjectPrefix, h.Title = cleanSubject(subject, opts.subjectCleanMode)
 
-	s := bufio.NewScanner(msg.Body)
+	s := newHeaderScanner(msg.Body)
 	h.Body, h.BodyAppendix = scanMessageBody(s, "", true)
 	if s.Err() != nil {
 		return nil, s.Err()
-- 
2.43.0


From 6e9bae7d82c2dbdf1eb1aaef1162a0c7cd9e4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 12/26] fix: keep bytes that are not valid UTF-8 in quoted file
 names

---
 gitdiff/file_header.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 8f3785a..fcd0e2a 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 const (
@@ -452,12 +453,41 @@ func parseQuotedName(s string) (name string, n int, err error) {
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-	if name, err = strconv.Unquote(s[:n]); err != nil {
+	if name, err = unquoteName(s[:n]); err != nil {
 		return "", 0, err
 	}
 	return name, n, err
 }
 
+// unquoteName is like strconv.Unquote for double-quoted strings, but keeps
+// unescaped bytes as they are, even if they are not valid UTF-8.
+func unquoteName(s string) (string, error) {
+	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
+		return "", strconv.ErrSyntax
+	}
+	s = s[1 : len(s)-1]
+
+	var b strings.Builder
+	for len(s) > 0 {
+		if s[0] >= utf8.RuneSelf {
+			b.WriteByte(s[0])
+			s = s[1:]
+			continue
+		}
+		c, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return "", err
+		}
+		if multibyte {
+			b.WriteRune(c)
+		} else {
+			b.WriteByte(byte(c))
+		}
+		s = tail
+	}
+	return b.String(), nil
+}
+
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
 	for n = 0; n < len(s); n++ {
 		if s[n] == '\n' {
-- 
2.43.0


From 0af53a7e6e953b59c903125761ab0793f1d54912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 13/26] fix: order fragments with the same old position before
 applying them

---
 gitdiff/apply.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index 2d21d52..8c58291 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -123,8 +123,12 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		frags := make([]*TextFragment, len(f.TextFragments))
 		copy(frags, f.TextFragments)
 
-		sort.Slice(frags, func(i, j int) bool {
-			return frags[i].OldPosition < frags[j].OldPosition
+		// fragments without old lines start after the line at their position
+		sort.SliceStable(frags, func(i, j int) bool {
+			if frags[i].OldPosition != frags[j].OldPosition {
+				return frags[i].OldPosition < frags[j].OldPosition
+			}
+			return frags[i].OldLines > 0 && frags[j].OldLines == 0
 		})
 
 		// TODO(bkeyes): consider merging overlapping fragments
-- 
2.43.0


From 66ad123b617bccc25cc085c09782c1382bd8d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 14/26] fix: do not report read failures that wrap io.EOF as
 conflicts

The readers in this package signal the end of input with io.EOF itself. An
error that only wraps io.EOF is a failure and was lost in the conversion.
---
 gitdiff/apply_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 3a80436..b504a18 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -161,7 +161,7 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				err = &Conflict{"src has fewer lines than required by fragment"}
 			}
 			return nil, applyError(err, lineNum(start+int64(n)))
-- 
2.43.0


From ccaf3dc9eec7a507cb41b8c9dfad414f312d6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 15/26] fix: report short writes while applying fragments

Copying data already returned io.ErrShortWrite if the destination accepted
fewer bytes than offered without an error, but applying fragments did not.
---
 gitdiff/apply_binary.go |  3 +++
 gitdiff/apply_text.go   | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index ea6a1bf..b6f8f62 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -256,5 +256,8 @@ func (w *limitWriter) Write(p []byte) (n int, err error) {
 	}
 	n, err = w.w.Write(p)
 	w.limit -= int64(n)
+	if err == nil && n != len(p) {
+		err = io.ErrShortWrite
+	}
 	return
 }
diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index b504a18..4930931 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -100,7 +100,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// copy leading data before the fragment starts
 	for i, line := range preimage[:fragStart-start] {
-		if _, err := a.dst.Write(line); err != nil {
+		n, err := a.dst.Write(line)
+		if err == nil && n != len(line) {
+			err = io.ErrShortWrite
+		}
+		if err != nil {
 			a.nextLine = start + int64(i)
 			return applyError(err, lineNum(a.nextLine))
 		}
@@ -177,7 +181,11 @@ func applyTextLine(dst io.Writer, line Line, preimage [][]byte, i int64) (err er
 		return &Conflict{"fragment line does not match src line"}
 	}
 	if line.New() {
-		_, err = io.WriteString(dst, line.Line)
+		var n int
+		n, err = io.WriteString(dst, line.Line)
+		if err == nil && n != len(line.Line) {
+			err = io.ErrShortWrite
+		}
 	}
 	return err
 }
-- 
2.43.0


From a68eaa12ebb3a67ec36d9ead5a8ee8eb8461af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:25 +0000
Subject: [PATCH 16/26] fix: accept Z as the zone of a strict ISO date

Git writes a UTC date in the iso-strict format with a "Z" in place of the
offset since version 2.45.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 687d427..3e34700 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -76,7 +76,7 @@ func (h *PatchHeader) Message() string {
 func ParsePatchDate(s string) (time.Time, error) {
 	const (
 		isoFormat          = "2006-01-02 15:04:05 -0700"
-		isoStrictFormat    = "2006-01-02T15:04:05-07:00"
+		isoStrictFormat    = "2006-01-02T15:04:05Z07:00"
 		rfc2822Format      = "Mon, 2 Jan 2006 15:04:05 -0700"
 		shortFormat        = "2006-01-02"
 		defaultFormat      = "Mon Jan 2 15:04:05 2006 -0700"
-- 
2.43.0


From d409a0e3bd1475de9a9d4e78a0701e317755821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 17/26] fix: decode an encoded subject that follows a kept
 prefix

git format-patch encodes only the title of a commit, so in the clean modes
that keep some prefix the encoded words do not start the subject and the
title was left undecoded.
---
 gitdiff/patch_header.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 3e34700..0631fab 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -457,7 +457,9 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 // of a `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
 // See for reference: https://stackoverflow.com/questions/27695749/gmail-api-not-respecting-utf-encoding-in-subject
 func decodeSubject(encoded string) string {
-	if !strings.HasPrefix(encoded, "=?UTF-8?q?") {
+	// the encoded part may follow plain text, like a prefix that was not removed
+	start := strings.Index(encoded, "=?UTF-8?q?")
+	if start < 0 {
 		// not UTF-8 encoded
 		return encoded
 	}
@@ -465,7 +467,7 @@ func decodeSubject(encoded string) string {
 	// If the subject is too long, `git format-patch` may produce a subject line across
 	// multiple lines. When parsed, this can look like the following:
 	// <UTF8-prefix><first-line> <UTF8-prefix><second-line>
-	payload := " " + encoded
+	payload := " " + encoded[start:]
 	payload = strings.ReplaceAll(payload, " =?UTF-8?q?", "")
 	payload = strings.ReplaceAll(payload, "?=", "")
 
@@ -475,5 +477,5 @@ func decodeSubject(encoded string) string {
 		return encoded
 	}
 
-	return string(decoded)
+	return encoded[:start] + string(decoded)
 }
-- 
2.43.0


From a94e372faa2926a5dc1d90e2f30e505e218a22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 18/26] fix: decode encoded subjects of more than 4096 bytes

The decoder reads lines through a buffer of 4096 bytes and fails on longer
ones; the subject is a single line.
---
 gitdiff/patch_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 0631fab..ea3fc4a 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -471,7 +471,9 @@ func decodeSubject(encoded string) string {
 	payload = strings.ReplaceAll(payload, " =?UTF-8?q?", "")
 	payload = strings.ReplaceAll(payload, "?=", "")
 
-	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(strings.NewReader(payload)))
+	// the payload is a single line that must fit in the buffer of the decoder
+	r := bufio.NewReaderSize(strings.NewReader(payload), len(payload)+1)
+	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(r))
 	if err != nil {
 		// if err, abort decoding and return original subject
 		return encoded
-- 
2.43.0


From 9b6b8692d7f16b0bcb50f6a686d3145279518e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 19/26] fix: reject base85 groups that exceed four bytes

---
 gitdiff/base85.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdiff/base85.go b/gitdiff/base85.go
index 86db117..dc788d0 100644
--- a/gitdiff/base85.go
+++ b/gitdiff/base85.go
@@ -2,6 +2,7 @@ package gitdiff
 
 import (
 	"fmt"
+	"math"
 )
 
 var (
@@ -22,16 +23,19 @@ func init() {
 // alphabet defined by base85.c in the Git source tree. src must contain at
 // least len(dst) bytes of encoded data.
 func base85Decode(dst, src []byte) error {
-	var v uint32
+	var v uint64
 	var n, ndst int
 	for i, b := range src {
 		if b, ok := b85Table[b]; ok {
-			v = 85*v + uint32(b)
+			v = 85*v + uint64(b)
 			n++
 		} else {
 			return fmt.Errorf("invalid base85 byte at index %d: 0x%X", i, src[i])
 		}
 		if n == 5 {
+			if v > math.MaxUint32 {
+				return fmt.Errorf("invalid base85 sequence at index %d: %q", i-4, src[i-4:i+1])
+			}
 			rem := len(dst) - ndst
 			for j := 0; j < 4 && j < rem; j++ {
 				dst[ndst] = byte(v >> 24)
-- 
2.43.0


From ecba7f6e22fffc6c9666abca026d2608e00332b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 20/26] fix: reject headers with contradicting file operations

---
 gitdiff/file_header.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index fcd0e2a..9d66415 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -77,6 +77,9 @@ func (p *parser) ParseGitFileHeader() (*File, error) {
 	f := &File{}
 	for {
 		end, err := parseGitHeaderData(f, p.Line(1), defaultName)
+		if err == nil {
+			err = verifyGitHeaderOperation(f)
+		}
 		if err != nil {
 			return nil, p.Errorf(1, "git file header: %v", err)
 		}
@@ -300,6 +303,21 @@ func parseGitHeaderData(f *File, line, defaultName string) (end bool, err error)
 	return true, nil
 }
 
+// verifyGitHeaderOperation checks that the header lines describe at most one
+// of a creation, a deletion, a copy, and a rename.
+func verifyGitHeaderOperation(f *File) error {
+	var count int
+	for _, op := range []bool{f.IsNew, f.IsDelete, f.IsCopy, f.IsRename} {
+		if op {
+			count++
+		}
+	}
+	if count > 1 {
+		return fmt.Errorf("inconsistent header lines")
+	}
+	return nil
+}
+
 func parseGitHeaderOldName(f *File, line, defaultName string) error {
 	name, _, err := parseName(line, '\t', 1)
 	if err != nil {
-- 
2.43.0


From cb2888c2e30c30c3820ef9d27f1a61c24a7ff74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 21/26] fix: keep the stated offset of raw dates when it equals
 the local one

---
 gitdiff/patch_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index ea3fc4a..10be461 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -110,7 +110,9 @@ func ParsePatchDate(s string) (time.Time, error) {
 		unix, uerr := strconv.ParseInt(s[:space], 10, 64)
 		zone, zerr := time.Parse("-0700", s[space+1:])
 		if uerr == nil && zerr == nil {
-			return time.Unix(unix, 0).In(zone.Location()), nil
+			// the location of zone may be time.Local, which can have another
+			// offset at this time than at the one in zone
+			return time.Unix(unix, 0).In(time.FixedZone(zone.Zone())), nil
 		}
 	}
 
-- 
2.43.0


From 3dfd4d490e07e9f0b3a499fecbd6a1e7b7821f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 22/26] fix: keep the end of binary fragment data final

---
 gitdiff/binary_reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gitdiff/binary_reader.go b/gitdiff/binary_reader.go
index b57df40..2914843 100644
--- a/gitdiff/binary_reader.go
+++ b/gitdiff/binary_reader.go
@@ -15,6 +15,7 @@ type binaryReader struct {
 	c    io.Closer
 	size int64
 	raw  []byte
+	err  error
 }
 
 func newBinaryReader(f *BinaryFragment) io.Reader {
@@ -24,7 +25,13 @@ func newBinaryReader(f *BinaryFragment) io.Reader {
 	}
 }
 
-func (r *binaryReader) Read(p []byte) (int, error) {
+func (r *binaryReader) Read(p []byte) (n int, err error) {
+	// The first error is final: the zlib reader cannot be used once closed
+	if r.err != nil {
+		return 0, r.err
+	}
+	defer func() { r.err = err }()
+
 	// Defer initialization of the zlib reader so that we report any header
 	// errors from Read() instead of when creating the binaryReader. This
 	// allows clients to use io.ReadAll() directly with BinaryFragment.Data().
@@ -37,7 +44,7 @@ func (r *binaryReader) Read(p []byte) (int, error) {
 		r.c = zr
 	}
 
-	n, err := r.r.Read(p)
+	n, err = r.r.Read(p)
 	if err == io.EOF {
 		// If we reached the "end", first check that we read the correct amount
 		// of data. On an exact read, the limit reader has one byte remaining.
-- 
2.43.0


From a732f3f3140be768794851fc630e128c5b53b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 23/26] fix: name the fragment header's line when it miscounts
 lines

---
 gitdiff/text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index 0c92d3c..1dde3d3 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -79,6 +79,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 		return p.Errorf(0, "no content following fragment header")
 	}
 
+	header := p.lineno - 1
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
@@ -132,8 +133,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	}
 
 	if oldLines != 0 || newLines != 0 {
-		hdr := max(frag.OldLines-oldLines, frag.NewLines-newLines) + 1
-		return p.Errorf(-hdr, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
+		return p.Errorf(header-p.lineno, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
 	}
 	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
 		return p.Errorf(0, "fragment contains no changes")
-- 
2.43.0


From 682de808c2b899cf7639c8045205ec15b1740cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 24/26] fix: name the name's line in errors of traditional file
 headers

---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 9d66415..b097e3b 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -139,12 +139,12 @@ func (p *parser) ParseTraditionalFileHeader() (*File, error) {
 
 	oldName, _, err := parseName(oldLine[len(oldPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(0, "file header: %v", err)
+		return nil, p.Errorf(-2, "file header: %v", err)
 	}
 
 	newName, _, err := parseName(newLine[len(newPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(1, "file header: %v", err)
+		return nil, p.Errorf(-1, "file header: %v", err)
 	}
 
 	f := &File{}
-- 
2.43.0


From a23e93b1f9cd252ab77cb9d62f6a9f70cdce5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 25/26] fix: accept lines that come with the end of the input

A LineReaderAt that returned all requested lines together with io.EOF was
taken for a source with too few lines.
---
 gitdiff/apply_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 4930931..f45f79c 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -162,7 +162,7 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		preimage = append(preimage, make([][]byte, readSize)...)
 
 		n, err := r.ReadLinesAt(preimage[i:i+readSize], start)
-		if err != nil {
+		if err != nil && !(err == io.EOF && int64(n) == readSize) {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
 			if err == io.EOF {
-- 
2.43.0


From 083be7d9d3a9187c4a684bc31e6656155da68a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 26/26] fix: split the names of a git header line in linear
 time

The search for the prefix of the second name started over at every space,
so that a header line with n spaces took n^2 steps: a line of 400 kB kept
the parser busy for more than a minute.
---
 gitdiff/file_header.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index b097e3b..f9959f1 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -248,12 +248,20 @@ func parseGitHeaderName(header string) (string, error) {
 	// since names may contain spaces, we can't use a known separator
 	// instead, look for a split that produces two equal names
 
+	slash := 0
 	for i := 0; i < len(first)-1; i++ {
 		if !isSpace(first[i]) {
 			continue
 		}
-		second = trimTreePrefix(first[i+1:], 1)
-		if name := first[:i]; name == second {
+		// find the end of the prefix of the second name, unless it is known
+		if slash <= i {
+			n := strings.IndexByte(first[i+1:], '/')
+			if n < 0 {
+				break
+			}
+			slash = i + 1 + n
+		}
+		if name := first[:i]; name == first[slash+1:] {
 			return name, nil
 		}
 	}
-- 
2.43.0

