From 8713451a5edb2cfb257e1678834c08762c5712af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:23 +0000
Subject: [PATCH 01/74] fix: Ctrl-W in the first word must not delete the text
 after the cursor

It emptied the whole line, and left what it cut out of the kill buffer.
---
 runebuf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d95df1e..0182a06 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -340,7 +340,9 @@ func (r *RuneBuffer) BackEscapeWord() {
 			}
 		}
 
-		r.buf = r.buf[:0]
+		// the word starts the line: what follows the cursor stays
+		r.pushKill(r.buf[:r.idx])
+		r.buf = append(r.buf[:0], r.buf[r.idx:]...)
 		r.idx = 0
 	})
 }
-- 
2.43.0


From fb6b9b52a0835d70b000c8041399545a21a6d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 02/74] fix: vim 'e' on the last character of the line panicked

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 0182a06..0efc69e 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -311,7 +311,7 @@ func (r *RuneBuffer) MoveToEndWord() {
 			return
 		}
 		// if we are at the end of a word already, go to next
-		if !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
+		if r.idx+1 < len(r.buf) && !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
 			r.idx++
 		}
 
-- 
2.43.0


From afe0931b01efbefdf0078a90e57098adba0ec9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 03/74] fix: vim 'r' at the end of the line panicked

---
 runebuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runebuf.go b/runebuf.go
index 0efc69e..eb19c03 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -187,6 +187,9 @@ func (r *RuneBuffer) IsCursorInEnd() bool {
 
 func (r *RuneBuffer) Replace(ch rune) {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.buf[r.idx] = ch
 	})
 }
-- 
2.43.0


From 1176e3642a0160d42783fc3a0ec7b07f52b9956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 04/74] fix: Ctrl-T on a one character line moved the cursor
 past its end

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index eb19c03..2b45fb5 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -277,7 +277,7 @@ func (r *RuneBuffer) Kill() {
 func (r *RuneBuffer) Transpose() {
 	r.Refresh(func() {
 		if len(r.buf) == 1 {
-			r.idx++
+			r.idx = 1
 		}
 
 		if len(r.buf) < 2 {
-- 
2.43.0


From 788d0a61c3d0e616f21ec30436b41cff93368312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 05/74] fix: ColorFilter panicked on text that ends in ESC

---
 runes.go       | 2 +-
 runes/runes.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runes.go b/runes.go
index a669bc4..a6fb97c 100644
--- a/runes.go
+++ b/runes.go
@@ -116,7 +116,7 @@ func (Runes) Index(r rune, rs []rune) int {
 func (Runes) ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := runes.Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
diff --git a/runes/runes.go b/runes/runes.go
index b069440..925b09c 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -69,7 +69,7 @@ func Index(r rune, rs []rune) int {
 func ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
-- 
2.43.0


From 18fcb495ec04a6cd168421641ce8bad783eab3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 06/74] fix: editing a line found by search changed the history
 entry itself

The line shared its array with the entry (and with the line a Listener
returned), and most edits work in place.
---
 runebuf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 2b45fb5..e8e7d93 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -578,7 +578,9 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
 	r.Refresh(func() {
-		r.buf = buf
+		// editing happens in place, so it must not reach the caller's slice
+		// (a history entry, or what a Listener returned)
+		r.buf = runes.Copy(buf)
 		r.idx = idx
 	})
 }
-- 
2.43.0


From c1a9dd7ea5c26a0bd0dc50c01337c03065eb5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 07/74] fix: completing wrote into the arrays behind the
 completer's candidates

Candidates that are parts of a larger slice had the runes after them
overwritten.
---
 complete_segment.go | 2 +-
 runebuf.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/complete_segment.go b/complete_segment.go
index 5ceadd8..5fe3352 100644
--- a/complete_segment.go
+++ b/complete_segment.go
@@ -76,7 +76,7 @@ func (c *SegmentComplete) Do(line []rune, pos int) (newLine [][]rune, offset int
 	cands := c.DoSegment(segment, idx)
 	newLine, offset = RetSegment(segment, cands, idx)
 	for idx := range newLine {
-		newLine[idx] = append(newLine[idx], ' ')
+		newLine[idx] = append(runes.Copy(newLine[idx]), ' ')
 	}
 	return newLine, offset
 }
diff --git a/runebuf.go b/runebuf.go
index e8e7d93..6c33b49 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -164,7 +164,7 @@ func (r *RuneBuffer) WriteRune(s rune) {
 
 func (r *RuneBuffer) WriteRunes(s []rune) {
 	r.Refresh(func() {
-		tail := append(s, r.buf[r.idx:]...)
+		tail := append(runes.Copy(s), r.buf[r.idx:]...)
 		r.buf = append(r.buf[:r.idx], tail...)
 		r.idx += len(s)
 	})
-- 
2.43.0


From 2cd6af044295762af9f9754d0e9c623118cedc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 08/74] fix: history could record another line than the one
 submitted

When the cursor in the history was not on its last item, what was saved
was the text last edited on that item: not what a search had found and
Enter submitted, and not what SaveHistory was given.
---
 history.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/history.go b/history.go
index 6b17c46..26c9930 100644
--- a/history.go
+++ b/history.go
@@ -275,14 +275,8 @@ func (o *opHistory) New(current []rune) (err error) {
 		}
 	}
 
-	if o.current != o.history.Back() {
-		// move history item to current command
-		currentItem := o.current.Value.(*hisItem)
-		// set current to last item
-		o.current = o.history.Back()
-
-		current = runes.Copy(currentItem.Tmp)
-	}
+	// wherever the user has moved to, commit on the last item
+	o.current = o.history.Back()
 
 	// err only can be a IO error, just report
 	err = o.Update(current, true)
-- 
2.43.0


From 88269a6af999dc68447bc4cb4004d68ca9e4d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 09/74] fix: first line of an empty history: blank lines kept,
 nothing persisted

An empty line became an entry, and what SaveHistory was given after
ResetHistory did not reach the history file.
---
 history.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 26c9930..34d0512 100644
--- a/history.go
+++ b/history.go
@@ -252,6 +252,10 @@ func (o *opHistory) New(current []rune) (err error) {
 
 	current = runes.Copy(current)
 
+	if o.history.Len() == 0 {
+		o.Push(nil)
+	}
+
 	// if just use last command without modify
 	// just clean lastest history
 	if back := o.history.Back(); back != nil {
@@ -297,9 +301,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	defer o.fdLock.Unlock()
 	s = runes.Copy(s)
 	if o.current == nil {
-		o.Push(s)
-		o.Compact()
-		return
+		o.Push(nil)
 	}
 	r := o.current.Value.(*hisItem)
 	r.Version = o.historyVer
-- 
2.43.0


From 4253a7d4a7bb8913b82603ad67d735347e5294a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:56 +0000
Subject: [PATCH 10/74] fix: a line that is not saved left the history position
 where it was

The next line started from the entry recalled for the previous one, and
with HistoryDisable that entry was shown blank.
---
 history.go   | 1 +
 operation.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/history.go b/history.go
index 34d0512..499f59e 100644
--- a/history.go
+++ b/history.go
@@ -247,6 +247,7 @@ func (o *opHistory) New(current []rune) (err error) {
 
 	// history deactivated
 	if !o.enable {
+		o.Revert()
 		return nil
 	}
 
diff --git a/operation.go b/operation.go
index b60939a..693df73 100644
--- a/operation.go
+++ b/operation.go
@@ -259,6 +259,7 @@ func (o *Operation) ioloop() {
 				_ = o.history.New(data)
 			} else {
 				isUpdateHistory = false
+				o.history.Revert()
 			}
 		case CharBackward:
 			o.buf.MoveBackward()
-- 
2.43.0


From d9ea1ed62d627618963938cf2e7ab271f1cd678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:56 +0000
Subject: [PATCH 11/74] fix: HistoryLimit -1 emptied the history file instead
 of leaving it alone

---
 history.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 499f59e..a52f6b9 100644
--- a/history.go
+++ b/history.go
@@ -57,7 +57,8 @@ func (o *opHistory) Init() {
 }
 
 func (o *opHistory) initHistory() {
-	if o.cfg.HistoryFile != "" {
+	// HistoryLimit -1 turns history off: the file is not ours to truncate
+	if o.cfg.HistoryFile != "" && o.cfg.HistoryLimit >= 0 {
 		o.historyUpdatePath(o.cfg.HistoryFile)
 	}
 }
-- 
2.43.0


From c2f9123f377f92c27a810de10d933d8848f79314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:56 +0000
Subject: [PATCH 12/74] fix: every entry of the history file was there twice
 after ReadPassword

Switching back to a config whose history had been closed loaded the file
again on top of what was in memory.
---
 history.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/history.go b/history.go
index a52f6b9..d12ce48 100644
--- a/history.go
+++ b/history.go
@@ -28,6 +28,7 @@ type opHistory struct {
 	fd         *os.File
 	fdLock     sync.Mutex
 	enable     bool
+	loaded     bool
 }
 
 func newOpHistory(cfg *Config) (o *opHistory) {
@@ -72,6 +73,11 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	if o.loaded {
+		// opened again after Close: the entries are still in memory
+		return
+	}
+	o.loaded = true
 	r := bufio.NewReader(o.fd)
 	total := 0
 	for ; ; total++ {
-- 
2.43.0


From 77502a6b3fe31ac337fa64d84bb42899e2823f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:57 +0000
Subject: [PATCH 13/74] fix: last line of the history file lost when it has no
 newline

It was not loaded, and the next entry saved was appended to it.
---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index d12ce48..56054c8 100644
--- a/history.go
+++ b/history.go
@@ -83,7 +83,11 @@ func (o *opHistory) historyUpdatePath(path string) {
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
 		if err != nil {
-			break
+			if len(line) == 0 {
+				break
+			}
+			// the last line has no end: what is appended must not join it
+			o.fd.Write([]byte{'\n'})
 		}
 		// ignore the empty line
 		line = strings.TrimSpace(line)
-- 
2.43.0


From 68ac99ad2851993041b8c5a0c5c94b9f78f85472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:57 +0000
Subject: [PATCH 14/74] fix: a failed write while compacting replaced the
 history file by a torn one

---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 56054c8..79c49f4 100644
--- a/history.go
+++ b/history.go
@@ -132,7 +132,11 @@ func (o *opHistory) rewriteLocked() {
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
 		buf.WriteString(string(elem.Value.(*hisItem).Source) + "\n")
 	}
-	buf.Flush()
+	if err = buf.Flush(); err != nil {
+		fd.Close()
+		os.Remove(tmpFile)
+		return
+	}
 
 	// replace history file
 	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
-- 
2.43.0


From 1d2a9afd83b6345fe3ce55a08866b540a790d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:57 +0000
Subject: [PATCH 15/74] fix: SetHistoryPath at run time neither loaded nor
 saved anything

The file was never opened, and search kept using the old history.
---
 operation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operation.go b/operation.go
index 693df73..2c7397a 100644
--- a/operation.go
+++ b/operation.go
@@ -450,6 +450,11 @@ func (o *Operation) SetHistoryPath(path string) {
 	}
 	o.cfg.HistoryFile = path
 	o.history = newOpHistory(o.cfg)
+	o.history.Init()
+	if o.cfg.opHistory != nil {
+		o.cfg.opHistory = o.history
+		o.cfg.opSearch.history = o.history
+	}
 }
 
 func (o *Operation) IsNormalMode() bool {
-- 
2.43.0


From 84105dc41301fa2d6f650a23c3d8ecf9d5fdeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 16/74] fix: compacting a private history file made it readable
 by everyone

---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 79c49f4..708a3ce 100644
--- a/history.go
+++ b/history.go
@@ -123,7 +123,11 @@ func (o *opHistory) rewriteLocked() {
 	}
 
 	tmpFile := o.cfg.HistoryFile + ".tmp"
-	fd, err := os.OpenFile(tmpFile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC|os.O_APPEND, 0666)
+	mode := os.FileMode(0666)
+	if fi, err := os.Stat(o.cfg.HistoryFile); err == nil {
+		mode = fi.Mode().Perm()
+	}
+	fd, err := os.OpenFile(tmpFile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC|os.O_APPEND, mode)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From a80a4a4fe897607bd37af881ef707d9021c12c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 17/74] fix: cancelling a search must bring back the line it
 started from

Without any history it panicked; after a second Ctrl-R it went back to
the first match, and a default text was dropped.
---
 search.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index 52e8ff0..ce1eccb 100644
--- a/search.go
+++ b/search.go
@@ -22,6 +22,7 @@ type opSearch struct {
 	state     int
 	dir       int
 	source    *list.Element
+	origin    []rune
 	w         io.Writer
 	buf       *RuneBuffer
 	data      []rune
@@ -103,10 +104,11 @@ func (o *opSearch) SearchMode(dir int) bool {
 	alreadyInMode := o.inMode
 	o.inMode = true
 	o.dir = dir
-	o.source = o.history.current
 	if alreadyInMode {
 		o.search(false)
 	} else {
+		o.source = o.history.current
+		o.origin = o.buf.Runes()
 		o.SearchRefresh(-1)
 	}
 	return true
@@ -115,12 +117,13 @@ func (o *opSearch) SearchMode(dir int) bool {
 func (o *opSearch) ExitSearchMode(revert bool) {
 	if revert {
 		o.history.current = o.source
-		o.buf.Set(o.history.showItem(o.history.current.Value))
+		o.buf.Set(o.origin)
 	}
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
 	o.inMode = false
 	o.source = nil
+	o.origin = nil
 	o.data = nil
 }
 
-- 
2.43.0


From dcf697b698d89e4c3bf2fd7fa007793bbe92c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 18/74] fix: moving into the history and back lost the text of
 ReadlineWithDefault

---
 operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/operation.go b/operation.go
index 2c7397a..9d0a6b7 100644
--- a/operation.go
+++ b/operation.go
@@ -36,6 +36,7 @@ type Operation struct {
 
 func (o *Operation) SetBuffer(what string) {
 	o.buf.Set([]rune(what))
+	o.history.Update([]rune(what), false)
 }
 
 type wrapWriter struct {
-- 
2.43.0


From 84ed2a8fb11d3e91023c3d6b73bc934febb26ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:37 +0000
Subject: [PATCH 19/74] fix: Ctrl-K while selecting a completion panicked

Leaving select mode drops the candidates, but the list was drawn again.
---
 complete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index c08c994..a2ea26d 100644
--- a/complete.go
+++ b/complete.go
@@ -186,7 +186,7 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
-	if !o.inCompleteMode {
+	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
 	lineCnt := o.op.buf.CursorLineCount()
-- 
2.43.0


From 3cc185a495e96576be7623874fb112a04d4eaa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 20/74] fix: keys that move between rows panicked when a
 candidate is wider than the screen

---
 complete.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index a2ea26d..77edc03 100644
--- a/complete.go
+++ b/complete.go
@@ -203,8 +203,11 @@ func (o *opCompleter) CompleteRefresh() {
 	// -1 to avoid reach the end of line
 	width := o.width - 1
 	colNum := width / colWidth
-	if colNum != 0 {
+	if colNum > 0 {
 		colWidth += (width - (colWidth * colNum)) / colNum
+	} else {
+		// wider than the screen: one candidate per line
+		colNum = 1
 	}
 
 	o.candidateColNum = colNum
-- 
2.43.0


From 9180e85dde49d18fa65f2877f36ada869b95305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 21/74] fix: drawing the candidates panicked after wide
 characters or a changed line

The column was sized by the number of runes in the common part, not by
their width, and that part was cut out of a line a Listener may have
replaced by a shorter one.
---
 complete.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/complete.go b/complete.go
index 77edc03..39382dc 100644
--- a/complete.go
+++ b/complete.go
@@ -197,8 +197,13 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	colWidth += o.candidateOff + 1
-	same := o.op.buf.RuneSlice(-o.candidateOff)
+	// the line may have changed since: a Listener can replace it
+	off := o.candidateOff
+	if pos := o.op.buf.Pos(); off > pos {
+		off = pos
+	}
+	same := o.op.buf.RuneSlice(-off)
+	colWidth += runes.WidthAll(same) + 1
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
-- 
2.43.0


From ac0a1f479a8ec85f2b8df19ac974a233ffd603b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:35 +0000
Subject: [PATCH 22/74] fix: readline hung when vim mode consumed a key that
 ends the line

^D or ^J in normal mode, or Enter, ^C or ^D after r, d, c or f pause the
terminal, and nobody resumed it.
---
 operation.go | 10 +++++++++-
 terminal.go  | 15 +++++++++++----
 vim.go       |  2 +-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/operation.go b/operation.go
index 9d0a6b7..ab878d1 100644
--- a/operation.go
+++ b/operation.go
@@ -110,6 +110,7 @@ func (o *Operation) ioloop() {
 		keepInSearchMode := false
 		keepInCompleteMode := false
 		r := o.t.ReadRune()
+		key := r // the last key taken from the terminal
 
 		if o.GetConfig().FuncFilterInputRune != nil {
 			var process bool
@@ -157,8 +158,15 @@ func (o *Operation) ioloop() {
 		}
 
 		if o.IsEnableVimMode() {
-			r = o.HandleVim(r, o.t.ReadRune)
+			r = o.HandleVim(r, func() rune {
+				key = o.t.ReadRune()
+				return key
+			})
 			if r == 0 {
+				if pausesAfter(key) {
+					// it did not end the line, so there is more to read
+					o.t.KickRead()
+				}
 				continue
 			}
 		}
diff --git a/terminal.go b/terminal.go
index 38413d0..33b6382 100644
--- a/terminal.go
+++ b/terminal.go
@@ -195,7 +195,7 @@ func (t *Terminal) ioloop() {
 			}
 		}
 
-		expectNextChar = true
+		expectNextChar = !pausesAfter(r)
 		switch r {
 		case CharEsc:
 			if t.cfg.VimMode {
@@ -203,9 +203,6 @@ func (t *Terminal) ioloop() {
 				break
 			}
 			isEscape = true
-		case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
-			expectNextChar = false
-			fallthrough
 		default:
 			t.outchan <- r
 		}
@@ -213,6 +210,16 @@ func (t *Terminal) ioloop() {
 
 }
 
+// pausesAfter tells the keys that may end the line: nothing more is read after
+// one of them until KickRead
+func pausesAfter(r rune) bool {
+	switch r {
+	case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+		return true
+	}
+	return false
+}
+
 func (t *Terminal) Bell() {
 	fmt.Fprintf(t, "%c", CharBell)
 }
diff --git a/vim.go b/vim.go
index bedf2c1..7c5ef2e 100644
--- a/vim.go
+++ b/vim.go
@@ -132,7 +132,7 @@ func (o *opVim) handleVimNormalEnterInsert(r rune, readNext func() rune) (t rune
 
 func (o *opVim) HandleVimNormal(r rune, readNext func() rune) (t rune) {
 	switch r {
-	case CharEnter, CharInterrupt:
+	case CharEnter, CharCtrlJ, CharInterrupt:
 		o.ExitVimMode()
 		return r
 	}
-- 
2.43.0


From ccef8c45a5019888f02696a78dc3720580695ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:55 +0000
Subject: [PATCH 23/74] fix: translating a key that ends the line by
 FuncFilterInputRune hung

The terminal pauses for the key that was read, so it is resumed unless the
translated key ends the line too. A rejected key that did not pause it left
a stale kick, which made it read on after the end of the line, and rejecting
the 0 of EOF looped forever.
---
 operation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index ab878d1..db594ec 100644
--- a/operation.go
+++ b/operation.go
@@ -112,11 +112,14 @@ func (o *Operation) ioloop() {
 		r := o.t.ReadRune()
 		key := r // the last key taken from the terminal
 
-		if o.GetConfig().FuncFilterInputRune != nil {
+		if o.GetConfig().FuncFilterInputRune != nil && r != 0 {
 			var process bool
 			r, process = o.GetConfig().FuncFilterInputRune(r)
-			if !process {
+			if pausesAfter(key) && !(process && pausesAfter(r)) {
+				// the key will not end the line, so there is more to read
 				o.t.KickRead()
+			}
+			if !process {
 				o.buf.Refresh(nil) // to refresh the line
 				continue           // ignore this rune
 			}
-- 
2.43.0


From 66e2ae702a5e75c7509105c72623d38a33f4498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:56 +0000
Subject: [PATCH 24/74] fix: a NUL byte in the input was taken for EOF

---
 terminal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terminal.go b/terminal.go
index 33b6382..22a02d7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -203,6 +203,8 @@ func (t *Terminal) ioloop() {
 				break
 			}
 			isEscape = true
+		case 0:
+			// NUL (Ctrl-Space), 0 stands for EOF in ReadRune
 		default:
 			t.outchan <- r
 		}
-- 
2.43.0


From 3728da44e296d019c860c1eee681a48a84357c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:56 +0000
Subject: [PATCH 25/74] fix: ESC Ctrl-T put an invalid character in the line

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index db594ec..094ed01 100644
--- a/operation.go
+++ b/operation.go
@@ -213,6 +213,9 @@ func (o *Operation) ioloop() {
 		case CharKill:
 			o.buf.Kill()
 			keepInCompleteMode = true
+		case MetaTranspose:
+			// not supported
+			o.t.Bell()
 		case MetaForward:
 			o.buf.MoveToNextWord()
 		case CharTranspose:
-- 
2.43.0


From 4169bcb799ef735ac402f0221d4099609039ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 26/74] fix: WriteStdin lost or reordered what was written

Read dropped what did not fit in the buffer of its caller, and the data went
through a pipe and a goroutine, so that a Readline right after WriteStdin
could read the real stdin first.
---
 std.go | 63 ++++++++++++++++++++++++----------------------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/std.go b/std.go
index 61d44b7..9e61f7d 100644
--- a/std.go
+++ b/std.go
@@ -136,55 +136,42 @@ func (c *CancelableStdin) Close() error {
 // reading into the real stdin
 type FillableStdin struct {
 	sync.Mutex
-	stdin       io.Reader
-	stdinBuffer io.ReadCloser
-	buf         []byte
-	bufErr      error
+	stdin  io.Reader
+	buf    []byte
+	closed bool
+}
+
+// fillWriter is the end of a FillableStdin that takes the data to prepend
+type fillWriter struct {
+	s *FillableStdin
 }
 
 // NewFillableStdin gives you FillableStdin
 func NewFillableStdin(stdin io.Reader) (io.ReadCloser, io.Writer) {
-	r, w := io.Pipe()
 	s := &FillableStdin{
-		stdinBuffer: r,
-		stdin:       stdin,
+		stdin: stdin,
 	}
-	s.ioloop()
-	return s, w
-}
-
-func (s *FillableStdin) ioloop() {
-	go func() {
-		for {
-			bufR := make([]byte, 100)
-			var n int
-			n, s.bufErr = s.stdinBuffer.Read(bufR)
-			if s.bufErr != nil {
-				if s.bufErr == io.ErrClosedPipe {
-					break
-				}
-			}
-			s.Lock()
-			s.buf = append(s.buf, bufR[:n]...)
-			s.Unlock()
-		}
-	}()
+	return s, fillWriter{s}
+}
+
+func (w fillWriter) Write(b []byte) (int, error) {
+	w.s.Lock()
+	defer w.s.Unlock()
+	if w.s.closed {
+		return 0, io.ErrClosedPipe
+	}
+	w.s.buf = append(w.s.buf, b...)
+	return len(b), nil
 }
 
 // Read will read from the local buffer and if no data, read from stdin
 func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	s.Lock()
-	i := len(s.buf)
-	if len(p) < i {
-		i = len(p)
-	}
-	if i > 0 {
+	if len(s.buf) > 0 {
 		n := copy(p, s.buf)
-		s.buf = s.buf[:0]
-		cerr := s.bufErr
-		s.bufErr = nil
+		s.buf = s.buf[n:]
 		s.Unlock()
-		return n, cerr
+		return n, nil
 	}
 	s.Unlock()
 	n, err = s.stdin.Read(p)
@@ -192,6 +179,8 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 }
 
 func (s *FillableStdin) Close() error {
-	s.stdinBuffer.Close()
+	s.Lock()
+	s.closed = true
+	s.Unlock()
 	return nil
 }
-- 
2.43.0


From 63289d25f90341b9e4b9fd92fd0ec97b8797070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 27/74] fix: Readline after the end of the input blocked
 forever

EOF was handed out once. It is now sticky: at the end of the input, or after
Close, every Readline returns io.EOF.
---
 operation.go | 58 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/operation.go b/operation.go
index 094ed01..3e3b7a7 100644
--- a/operation.go
+++ b/operation.go
@@ -27,6 +27,10 @@ type Operation struct {
 	errchan chan error
 	w       io.Writer
 
+	// closed when there will be no more lines: at EOF, or by Close
+	done     chan struct{}
+	doneOnce sync.Once
+
 	history *opHistory
 	*opSearch
 	*opCompleter
@@ -74,6 +78,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
+		done:    make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -126,12 +131,14 @@ func (o *Operation) ioloop() {
 		}
 
 		if r == 0 { // io.EOF
+			if o.isDone() {
+				// closed: the line was not submitted
+				return
+			}
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
-				select {
-				case o.errchan <- io.EOF:
-				}
-				break
+				o.finish()
+				return
 			} else {
 				// if stdin got io.EOF and there is something left in buffer,
 				// let's flush them by sending CharEnter.
@@ -268,7 +275,11 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			o.outchan <- data
+			select {
+			case o.outchan <- data:
+			case <-o.done:
+				return
+			}
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
@@ -409,10 +420,36 @@ func (o *Operation) Runes() ([]rune, error) {
 	case r := <-o.outchan:
 		return r, nil
 	case err := <-o.errchan:
-		if e, ok := err.(*InterruptError); ok {
-			return e.Line, ErrInterrupt
+		return readError(err)
+	case <-o.done:
+		select {
+		case err := <-o.errchan:
+			// happened before
+			return readError(err)
+		default:
 		}
-		return nil, err
+		return nil, io.EOF
+	}
+}
+
+func readError(err error) ([]rune, error) {
+	if e, ok := err.(*InterruptError); ok {
+		return e.Line, ErrInterrupt
+	}
+	return nil, err
+}
+
+// finish makes every Readline return io.EOF from now on
+func (o *Operation) finish() {
+	o.doneOnce.Do(func() { close(o.done) })
+}
+
+func (o *Operation) isDone() bool {
+	select {
+	case <-o.done:
+		return true
+	default:
+		return false
 	}
 }
 
@@ -452,10 +489,7 @@ func (o *Operation) Slice() ([]byte, error) {
 }
 
 func (o *Operation) Close() {
-	select {
-	case o.errchan <- io.EOF:
-	default:
-	}
+	o.finish()
 	o.history.Close()
 }
 
-- 
2.43.0


From 94b604958ef3f0eb3f91060384b6106585130400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:28 +0000
Subject: [PATCH 28/74] fix: the line was handed out before it was in the
 history

Readline could return, and the program go on to ReadPassword or Close, while
the line that was just read still had to be recorded: it was lost, or went
into the history of the wrong config, such as a password.
---
 operation.go | 55 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/operation.go b/operation.go
index 3e3b7a7..1d437d6 100644
--- a/operation.go
+++ b/operation.go
@@ -77,7 +77,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		t:       t,
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
-		errchan: make(chan error, 1),
+		errchan: make(chan error),
 		done:    make(chan struct{}),
 	}
 	op.w = op.buf.w
@@ -114,6 +114,9 @@ func (o *Operation) ioloop() {
 	for {
 		keepInSearchMode := false
 		keepInCompleteMode := false
+		submitted := false
+		var data []rune
+		var err error
 		r := o.t.ReadRune()
 		key := r // the last key taken from the terminal
 
@@ -266,7 +269,6 @@ func (o *Operation) ioloop() {
 				o.ExitSearchMode(false)
 			}
 			o.buf.MoveToLineEnd()
-			var data []rune
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteRune('\n')
 				data = o.buf.Reset()
@@ -275,11 +277,7 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			select {
-			case o.outchan <- data:
-			case <-o.done:
-				return
-			}
+			submitted = true
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
@@ -321,7 +319,7 @@ func (o *Operation) ioloop() {
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- io.EOF
+			err = io.EOF
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
@@ -349,7 +347,7 @@ func (o *Operation) ioloop() {
 			}
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- &InterruptError{remain}
+			err = &InterruptError{remain}
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -389,6 +387,23 @@ func (o *Operation) ioloop() {
 			o.history.Update(o.buf.Runes(), false)
 		}
 		o.m.Unlock()
+
+		// Readline goes on in another goroutine, which can change the
+		// config or close: everything has to be done by now
+		if submitted {
+			select {
+			case o.outchan <- data:
+			case <-o.done:
+				return
+			}
+		}
+		if err != nil {
+			select {
+			case o.errchan <- err:
+			case <-o.done:
+				return
+			}
+		}
 	}
 }
 
@@ -406,6 +421,10 @@ func (o *Operation) String() (string, error) {
 }
 
 func (o *Operation) Runes() ([]rune, error) {
+	if o.isDone() {
+		return nil, io.EOF
+	}
+
 	o.t.EnterRawMode()
 	defer o.t.ExitRawMode()
 
@@ -420,25 +439,15 @@ func (o *Operation) Runes() ([]rune, error) {
 	case r := <-o.outchan:
 		return r, nil
 	case err := <-o.errchan:
-		return readError(err)
-	case <-o.done:
-		select {
-		case err := <-o.errchan:
-			// happened before
-			return readError(err)
-		default:
+		if e, ok := err.(*InterruptError); ok {
+			return e.Line, ErrInterrupt
 		}
+		return nil, err
+	case <-o.done:
 		return nil, io.EOF
 	}
 }
 
-func readError(err error) ([]rune, error) {
-	if e, ok := err.(*InterruptError); ok {
-		return e.Line, ErrInterrupt
-	}
-	return nil, err
-}
-
 // finish makes every Readline return io.EOF from now on
 func (o *Operation) finish() {
 	o.doneOnce.Do(func() { close(o.done) })
-- 
2.43.0


From b1c2ce6e9123e7f3e7dccc5a3c4d0faeab126325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:49 +0000
Subject: [PATCH 29/74] fix: Close blocked while a Readline was waiting for
 input

It did not close the stdin behind FillableStdin, and waited for a terminal
that could be waiting to hand out a key.
---
 readline.go |  2 +-
 std.go      |  5 +++++
 terminal.go | 18 ++++++++++++++++--
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/readline.go b/readline.go
index 63b9171..2daec2f 100644
--- a/readline.go
+++ b/readline.go
@@ -275,8 +275,8 @@ func (i *Instance) ReadSlice() ([]byte, error) {
 // if there has a pending reading operation, that reading will be interrupted.
 // so you can capture the signal and call Instance.Close(), it's thread-safe.
 func (i *Instance) Close() error {
-	i.Config.Stdin.Close()
 	i.Operation.Close()
+	i.Config.Stdin.Close()
 	if err := i.Terminal.Close(); err != nil {
 		return err
 	}
diff --git a/std.go b/std.go
index 9e61f7d..035b843 100644
--- a/std.go
+++ b/std.go
@@ -178,9 +178,14 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+// Close interrupts a pending Read, if the real stdin can be closed
 func (s *FillableStdin) Close() error {
 	s.Lock()
+	closed := s.closed
 	s.closed = true
 	s.Unlock()
+	if closer, ok := s.stdin.(io.Closer); ok && !closed {
+		return closer.Close()
+	}
 	return nil
 }
diff --git a/terminal.go b/terminal.go
index 22a02d7..5af04b9 100644
--- a/terminal.go
+++ b/terminal.go
@@ -199,19 +199,33 @@ func (t *Terminal) ioloop() {
 		switch r {
 		case CharEsc:
 			if t.cfg.VimMode {
-				t.outchan <- r
+				if !t.send(r) {
+					return
+				}
 				break
 			}
 			isEscape = true
 		case 0:
 			// NUL (Ctrl-Space), 0 stands for EOF in ReadRune
 		default:
-			t.outchan <- r
+			if !t.send(r) {
+				return
+			}
 		}
 	}
 
 }
 
+// send hands out a key, it returns false once the terminal is closed
+func (t *Terminal) send(r rune) bool {
+	select {
+	case t.outchan <- r:
+		return true
+	case <-t.stopChan:
+		return false
+	}
+}
+
 // pausesAfter tells the keys that may end the line: nothing more is read after
 // one of them until KickRead
 func pausesAfter(r rune) bool {
-- 
2.43.0


From a5846e08aa3b20c64159b5d7a18be9f9d5b88963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:49 +0000
Subject: [PATCH 30/74] fix: WriteStdin and Close did not reach the stdin in
 use after SetConfig

---
 terminal.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/terminal.go b/terminal.go
index 5af04b9..04e3b92 100644
--- a/terminal.go
+++ b/terminal.go
@@ -12,6 +12,8 @@ import (
 type Terminal struct {
 	m         sync.Mutex
 	cfg       *Config
+	stdin     io.ReadCloser // what ioloop reads, whatever SetConfig says
+	prefill   io.Writer
 	outchan   chan rune
 	closed    int32
 	stopChan  chan struct{}
@@ -29,6 +31,8 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 	}
 	t := &Terminal{
 		cfg:      cfg,
+		stdin:    cfg.Stdin,
+		prefill:  cfg.StdinWriter,
 		kickChan: make(chan struct{}, 1),
 		outchan:  make(chan rune),
 		stopChan: make(chan struct{}, 1),
@@ -68,7 +72,7 @@ func (t *Terminal) Write(b []byte) (int, error) {
 // WriteStdin prefill the next Stdin fetch
 // Next time you call ReadLine() this value will be writen before the user input
 func (t *Terminal) WriteStdin(b []byte) (int, error) {
-	return t.cfg.StdinWriter.Write(b)
+	return t.prefill.Write(b)
 }
 
 type termSize struct {
@@ -129,7 +133,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.getStdin())
+	buf := bufio.NewReader(t.stdin)
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -244,9 +248,7 @@ func (t *Terminal) Close() error {
 	if atomic.SwapInt32(&t.closed, 1) != 0 {
 		return nil
 	}
-	if closer, ok := t.cfg.Stdin.(io.Closer); ok {
-		closer.Close()
-	}
+	t.stdin.Close()
 	close(t.stopChan)
 	t.wg.Wait()
 	return t.ExitRawMode()
@@ -259,13 +261,6 @@ func (t *Terminal) GetConfig() *Config {
 	return &cfg
 }
 
-func (t *Terminal) getStdin() io.Reader {
-	t.m.Lock()
-	r := t.cfg.Stdin
-	t.m.Unlock()
-	return r
-}
-
 func (t *Terminal) SetConfig(c *Config) error {
 	if err := c.Init(); err != nil {
 		return err
-- 
2.43.0


From 85e8cb42483b72e612c5927516bf0cc39648ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:13 +0000
Subject: [PATCH 31/74] fix: ReadPassword changed the MaskRune of the config it
 came from

The mask is in the config, which SetConfig of the buffer takes over; setting
it before that wrote it into the previous one.
---
 operation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/operation.go b/operation.go
index 1d437d6..dcc6eba 100644
--- a/operation.go
+++ b/operation.go
@@ -531,7 +531,6 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-	op.SetMaskRune(cfg.MaskRune)
 	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
 
-- 
2.43.0


From e7e8b2eeb32b43c4c818a06549af2aaada820880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:13 +0000
Subject: [PATCH 32/74] fix: vim mode was not taken from the config of
 SetConfig

SetVimMode went on changing the first config, so that the terminal, which
has the new one, did not pass on ESC.
---
 readline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/readline.go b/readline.go
index 2daec2f..15dc152 100644
--- a/readline.go
+++ b/readline.go
@@ -319,6 +319,7 @@ func (i *Instance) SetConfig(cfg *Config) *Config {
 	old := i.Config
 	i.Config = cfg
 	i.Operation.SetConfig(cfg)
+	i.Operation.opVim.cfg = cfg
 	i.Terminal.SetConfig(cfg)
 	return old
 }
-- 
2.43.0


From 08d3f99500068abca59dd8120b1320dfbb56e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:14 +0000
Subject: [PATCH 33/74] fix: a config without a Painter panicked in SetConfig

---
 readline.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readline.go b/readline.go
index 15dc152..fec4310 100644
--- a/readline.go
+++ b/readline.go
@@ -127,6 +127,9 @@ func (c *Config) Init() error {
 	if c.AutoComplete == nil {
 		c.AutoComplete = &TabCompleter{}
 	}
+	if c.Painter == nil {
+		c.Painter = &defaultPainter{}
+	}
 	if c.FuncGetWidth == nil {
 		c.FuncGetWidth = GetScreenWidth
 	}
@@ -167,9 +170,6 @@ func NewEx(cfg *Config) (*Instance, error) {
 		return nil, err
 	}
 	rl := t.Readline()
-	if cfg.Painter == nil {
-		cfg.Painter = &defaultPainter{}
-	}
 	return &Instance{
 		Config:    cfg,
 		Terminal:  t,
-- 
2.43.0


From 78a520fa9b8a5976da1e9f12b867853dc76382cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:40 +0000
Subject: [PATCH 34/74] fix: ReadPassword put back the prompt of the config,
 not the one of SetPrompt

---
 password.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 414288c..847927a 100644
--- a/password.go
+++ b/password.go
@@ -1,8 +1,9 @@
 package readline
 
 type opPassword struct {
-	o         *Operation
-	backupCfg *Config
+	o            *Operation
+	backupCfg    *Config
+	backupPrompt string
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -11,10 +12,12 @@ func newOpPassword(o *Operation) *opPassword {
 
 func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
+	o.o.SetPrompt(o.backupPrompt)
 	o.backupCfg = nil
 }
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
+	o.backupPrompt = string(o.o.buf.prompt)
 	o.backupCfg, err = o.o.SetConfig(cfg)
 	return
 }
-- 
2.43.0


From 67f578e200184de35ae75ef671bc6b165506dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:40 +0000
Subject: [PATCH 35/74] fix: Ctrl-Y showed what was killed while typing a
 password

---
 password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/password.go b/password.go
index 847927a..f098b37 100644
--- a/password.go
+++ b/password.go
@@ -4,6 +4,7 @@ type opPassword struct {
 	o            *Operation
 	backupCfg    *Config
 	backupPrompt string
+	backupKill   []rune
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -13,11 +14,13 @@ func newOpPassword(o *Operation) *opPassword {
 func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
 	o.o.SetPrompt(o.backupPrompt)
+	o.o.buf.lastKill = o.backupKill // not a piece of the password
 	o.backupCfg = nil
 }
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
 	o.backupPrompt = string(o.o.buf.prompt)
+	o.backupKill = o.o.buf.lastKill
 	o.backupCfg, err = o.o.SetConfig(cfg)
 	return
 }
-- 
2.43.0


From 297033b40d0faeaa55c0a58736e78b28fefa825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:40 +0000
Subject: [PATCH 36/74] fix: Ctrl-R and Ctrl-S at a password prompt showed what
 was typed

---
 search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/search.go b/search.go
index ce1eccb..4a88ea0 100644
--- a/search.go
+++ b/search.go
@@ -101,6 +101,10 @@ func (o *opSearch) SearchMode(dir int) bool {
 	if o.width == 0 {
 		return false
 	}
+	if o.cfg.EnableMask {
+		// what is searched for would show
+		return false
+	}
 	alreadyInMode := o.inMode
 	o.inMode = true
 	o.dir = dir
-- 
2.43.0


From d74e2a4b15583530b1340248e036c1ee479f1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:41 +0000
Subject: [PATCH 37/74] fix: no password prompt in a remote session

The password config asked the local terminal whether it is one, and for its
width; and it made a new CancelableStdin, with its goroutine, every time.
---
 password.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/password.go b/password.go
index f098b37..70ac693 100644
--- a/password.go
+++ b/password.go
@@ -33,7 +33,12 @@ func (o *opPassword) PasswordConfig() *Config {
 		HistoryLimit:    -1,
 		Painter:         &defaultPainter{},
 
+		Stdin:  o.o.t.stdin,
 		Stdout: o.o.cfg.Stdout,
 		Stderr: o.o.cfg.Stderr,
+
+		FuncGetWidth:        o.o.cfg.FuncGetWidth,
+		FuncIsTerminal:      o.o.cfg.FuncIsTerminal,
+		ForceUseInteractive: o.o.cfg.ForceUseInteractive,
 	}
 }
-- 
2.43.0


From 1a40ede39eb2bbc3948671b9af534e89dccbcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:52 +0000
Subject: [PATCH 38/74] fix: vim 'r' at the end of the input put a NUL in the
 line

---
 vim.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vim.go b/vim.go
index 7c5ef2e..077a041 100644
--- a/vim.go
+++ b/vim.go
@@ -59,7 +59,9 @@ func (o *opVim) handleVimNormalMovement(r rune, readNext func() rune) (t rune, h
 			rb.MoveBackward()
 		}
 	case 'r':
-		rb.Replace(readNext())
+		if next := readNext(); next != 0 { // io.EOF
+			rb.Replace(next)
+		}
 	case 'd':
 		next := readNext()
 		switch next {
-- 
2.43.0


From 19a931c3d50c7fc1613983806df4ffd91140b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 39/74] fix: remote input lost, or never noticed

The reader was only told of data or EOF if it was waiting already; what came
in between its look at the buffer and the wait was not noticed. Data that
came together with EOF was dropped, and a lost connection not noticed.
---
 remote.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/remote.go b/remote.go
index 74dbf56..40fcfed 100644
--- a/remote.go
+++ b/remote.go
@@ -61,7 +61,7 @@ func NewRemoteSvr(conn net.Conn) (*RemoteSvr, error) {
 		width:      -1,
 		conn:       conn,
 		writeChan:  make(chan *writeCtx),
-		reciveChan: make(chan struct{}),
+		reciveChan: make(chan struct{}, 1),
 		stopChan:   make(chan struct{}),
 	}
 	buf := bufio.NewReader(rs.conn)
@@ -125,28 +125,24 @@ func (r *RemoteSvr) checkEOF() error {
 }
 
 func (r *RemoteSvr) Read(b []byte) (int, error) {
-	r.dataBufM.Lock()
-	n, err := r.dataBuf.Read(b)
-	r.dataBufM.Unlock()
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
-		}
-	}
-
-	if n == 0 && err == io.EOF {
-		<-r.reciveChan
+	for {
+		// data comes before EOF, so look for EOF first
+		eof := r.checkEOF()
 		r.dataBufM.Lock()
-		n, err = r.dataBuf.Read(b)
+		n, err := r.dataBuf.Read(b)
 		r.dataBufM.Unlock()
-	}
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
+		if n > 0 || err == nil {
+			return n, nil
+		}
+		if eof != nil {
+			return 0, eof
+		}
+		select {
+		case <-r.reciveChan:
+		case <-r.stopChan:
+			atomic.StoreInt32(&r.eof, 1)
 		}
 	}
-
-	return n, err
 }
 
 func (r *RemoteSvr) writeMsg(m *Message) error {
-- 
2.43.0


From f39a17a1c29b56e0fb8a70c0abd0017ddfb59ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 40/74] fix: writing to a closed remote session blocked forever

And Write counted the header of the message, which is more than it was given.
---
 remote.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/remote.go b/remote.go
index 40fcfed..09d117a 100644
--- a/remote.go
+++ b/remote.go
@@ -147,16 +147,20 @@ func (r *RemoteSvr) Read(b []byte) (int, error) {
 
 func (r *RemoteSvr) writeMsg(m *Message) error {
 	ctx := newWriteCtx(m)
-	r.writeChan <- ctx
+	select {
+	case r.writeChan <- ctx:
+	case <-r.stopChan:
+		return io.ErrClosedPipe
+	}
 	reply := <-ctx.reply
 	return reply.err
 }
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
-	ctx := newWriteCtx(NewMessage(T_DATA, b))
-	r.writeChan <- ctx
-	reply := <-ctx.reply
-	return reply.n, reply.err
+	if err := r.writeMsg(NewMessage(T_DATA, b)); err != nil {
+		return 0, err
+	}
+	return len(b), nil
 }
 
 func (r *RemoteSvr) EnterRawMode() error {
-- 
2.43.0


From 1c36a0615abc4a97c9f218928ebb4c4f895e8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 41/74] fix: a malformed message from a remote client panicked

---
 remote.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/remote.go b/remote.go
index 09d117a..7e58a04 100644
--- a/remote.go
+++ b/remote.go
@@ -228,6 +228,9 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 }
 
 func (r *RemoteSvr) GotIsTerminal(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	if binary.BigEndian.Uint16(data) == 0 {
 		r.isTerminal = false
 	} else {
@@ -236,6 +239,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 }
 
 func (r *RemoteSvr) GotReportWidth(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
 	if r.funcWidthChan != nil {
 		r.funcWidthChan()
@@ -262,6 +268,9 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if err := binary.Read(r, binary.BigEndian, &m.Type); err != nil {
 		return nil, err
 	}
+	if length < 2 {
+		return nil, fmt.Errorf("invalid message length %d", length)
+	}
 	m.Data = make([]byte, int(length)-2)
 	if _, err := io.ReadFull(r, m.Data); err != nil {
 		return nil, err
-- 
2.43.0


From c32826247d65cbae26cc7e4891d6851e1a1ef0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:39 +0000
Subject: [PATCH 42/74] fix: the cursor was drawn at the wrong place, or
 drawing never ended

With wide characters or tabs, a mask, a prompt as wide as the screen, or a
prompt or line changed since it was drawn. Drawing did not end if the width
of the prompt was a multiple of that of the screen. Positions now come from
laying out what is printed, and the line is erased from the row it was left in.
---
 complete.go |  13 ++--
 runebuf.go  | 194 ++++++++++++++++++++++++++++++----------------------
 search.go   |   9 +--
 3 files changed, 122 insertions(+), 94 deletions(-)

diff --git a/complete.go b/complete.go
index 39382dc..958455a 100644
--- a/complete.go
+++ b/complete.go
@@ -3,7 +3,6 @@ package readline
 import (
 	"bufio"
 	"bytes"
-	"fmt"
 	"io"
 )
 
@@ -65,7 +64,7 @@ func (o *opCompleter) nextCandidate(i int) {
 }
 
 func (o *opCompleter) OnComplete() bool {
-	if o.width == 0 {
+	if o.width <= 0 {
 		return false
 	}
 	if o.IsInCompleteSelectMode() {
@@ -214,6 +213,10 @@ func (o *opCompleter) CompleteRefresh() {
 		// wider than the screen: one candidate per line
 		colNum = 1
 	}
+	rows := 1 // of a candidate
+	if o.width > 0 {
+		rows = LineCount(o.width, colWidth)
+	}
 
 	o.candidateColNum = colNum
 	buf := bufio.NewWriter(o.w)
@@ -238,14 +241,14 @@ func (o *opCompleter) CompleteRefresh() {
 		colIdx++
 		if colIdx == colNum {
 			buf.WriteString("\n")
-			lines++
+			lines += rows
 			colIdx = 0
 		}
 	}
 
 	// move back
-	fmt.Fprintf(buf, "\033[%dA\r", lineCnt-1+lines)
-	fmt.Fprintf(buf, "\033[%dC", o.op.buf.idx+o.op.buf.PromptLen())
+	row, col := o.op.buf.cursor()
+	buf.Write(moveCursor(row+lineCnt-1+lines, row, col))
 	buf.Flush()
 }
 
diff --git a/runebuf.go b/runebuf.go
index 6c33b49..c5857ef 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -21,6 +21,7 @@ type RuneBuffer struct {
 	w      io.Writer
 
 	hadClean    bool
+	shown       []rune // what was printed up to the cursor
 	interactive bool
 	cfg         *Config
 
@@ -386,11 +387,13 @@ func (r *RuneBuffer) MoveToLineEnd() {
 }
 
 func (r *RuneBuffer) LineCount(width int) int {
+	r.Lock()
+	defer r.Unlock()
 	if width == -1 {
 		width = r.width
 	}
-	return LineCount(width,
-		runes.WidthAll(r.buf)+r.PromptLen())
+	row, _ := layout(width, r.upTo(len(r.buf)))
+	return row + 1
 }
 
 func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
@@ -423,29 +426,94 @@ func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
 }
 
 func (r *RuneBuffer) isInLineEdge() bool {
-	if isWindows {
+	if isWindows || r.width <= 0 {
 		return false
 	}
-	sp := r.getSplitByLine(r.buf)
-	return len(sp[len(sp)-1]) == 0
+	_, col := layoutFrom(r.width, 0, 0, r.upTo(len(r.buf)))
+	return col >= r.width
+}
+
+// layoutFrom returns where the cursor is after rs was printed from (row, col).
+// The column is width at the end of a full row, which only the next rune leaves.
+func layoutFrom(width, row, col int, rs []rune) (int, int) {
+	for _, e := range rs {
+		if e == '\n' {
+			row++
+			col = 0
+			continue
+		}
+		w, n := runes.Width(e), 1
+		if e == '\t' { // printed as spaces
+			w, n = 1, TabWidth
+		}
+		for ; n > 0; n-- {
+			if width > 0 && w > 0 && col+w > width {
+				row++
+				col = 0
+			}
+			col += w
+		}
+	}
+	return row, col
 }
 
-func (r *RuneBuffer) getSplitByLine(rs []rune) []string {
-	return SplitByLine(r.promptLen(), r.width, rs)
+// layout returns the row and the column of the cursor behind rs, which is
+// printed from the start of row 0
+func layout(width int, rs []rune) (int, int) {
+	row, col := layoutFrom(width, 0, 0, rs)
+	if width > 0 && col >= width {
+		return row + 1, 0
+	}
+	return row, col
 }
 
-func (r *RuneBuffer) IdxLine(width int) int {
+// upTo is what is printed up to the given index
+func (r *RuneBuffer) upTo(idx int) []rune {
+	ret := runes.ColorFilter(r.prompt)
+	if r.cfg.EnableMask {
+		return append(ret, r.masked(r.buf[:idx])...)
+	}
+	return append(ret, r.buf[:idx]...)
+}
+
+// masked is what shows of a password
+func (r *RuneBuffer) masked(rs []rune) []rune {
+	ret := make([]rune, len(rs))
+	for i := range rs {
+		ret[i] = r.cfg.MaskRune
+	}
+	if n := len(rs); n > 0 && rs[n-1] == '\n' {
+		ret[n-1] = '\n'
+	}
+	return ret
+}
+
+// cursor returns the row and the column of the cursor, counted from the prompt
+func (r *RuneBuffer) cursor() (int, int) {
 	r.Lock()
 	defer r.Unlock()
-	return r.idxLine(width)
+	return layout(r.width, r.upTo(r.idx))
 }
 
-func (r *RuneBuffer) idxLine(width int) int {
-	if width == 0 {
-		return 0
+func moveCursor(fromRow, row, col int) []byte {
+	var buf []byte
+	if row < fromRow {
+		buf = append(buf, "\033["+strconv.Itoa(fromRow-row)+"A"...)
+	} else if row > fromRow {
+		buf = append(buf, "\033["+strconv.Itoa(row-fromRow)+"B"...)
 	}
-	sp := r.getSplitByLine(r.buf[:r.idx])
-	return len(sp) - 1
+	buf = append(buf, '\r')
+	if col > 0 {
+		buf = append(buf, "\033["+strconv.Itoa(col)+"C"...)
+	}
+	return buf
+}
+
+func (r *RuneBuffer) IdxLine(width int) int {
+	r.Lock()
+	defer r.Unlock()
+	row, _ := layout(width, r.upTo(r.idx))
+	return row
 }
 
 func (r *RuneBuffer) CursorLineCount() int {
@@ -484,96 +552,56 @@ func (r *RuneBuffer) print() {
 func (r *RuneBuffer) output() []byte {
 	buf := bytes.NewBuffer(nil)
 	buf.WriteString(string(r.prompt))
-	if r.cfg.EnableMask && len(r.buf) > 0 {
-		buf.Write([]byte(strings.Repeat(string(r.cfg.MaskRune), len(r.buf)-1)))
-		if r.buf[len(r.buf)-1] == '\n' {
-			buf.Write([]byte{'\n'})
-		} else {
-			buf.Write([]byte(string(r.cfg.MaskRune)))
-		}
-		if len(r.buf) > r.idx {
-			buf.Write(r.getBackspaceSequence())
-		}
-
+	if r.cfg.EnableMask {
+		buf.WriteString(string(r.masked(r.buf)))
 	} else {
-		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
-			if e == '\t' {
-				buf.WriteString(strings.Repeat(" ", TabWidth))
-			} else {
-				buf.WriteRune(e)
-			}
-		}
-		if r.isInLineEdge() {
-			buf.Write([]byte(" \b"))
-		}
+		buf.WriteString(expandTab(r.cfg.Painter.Paint(r.buf, r.idx)))
+	}
+	if r.isInLineEdge() {
+		buf.Write([]byte(" \b"))
 	}
 	// cursor position
+	r.shown = r.upTo(r.idx)
 	if len(r.buf) > r.idx {
-		buf.Write(r.getBackspaceSequence())
+		last, _ := layout(r.width, r.upTo(len(r.buf)))
+		row, col := layout(r.width, r.shown)
+		buf.Write(moveCursor(last, row, col))
 	}
 	return buf.Bytes()
 }
 
-func (r *RuneBuffer) getBackspaceSequence() []byte {
-	var sep = map[int]bool{}
-
-	var i int
-	for {
-		if i >= runes.WidthAll(r.buf) {
-			break
-		}
-
-		if i == 0 {
-			i -= r.promptLen()
-		}
-		i += r.width
-
-		sep[i] = true
-	}
-	var buf []byte
-	for i := len(r.buf); i > r.idx; i-- {
-		// move input to the left of one
-		buf = append(buf, '\b')
-		if sep[i] {
-			// up one line, go to the start of the line and move cursor right to the end (r.width)
-			buf = append(buf, "\033[A\r"+"\033["+strconv.Itoa(r.width)+"C"...)
-		}
-	}
-
-	return buf
-
+func expandTab(rs []rune) string {
+	return strings.Replace(string(rs), "\t", strings.Repeat(" ", TabWidth), -1)
 }
 
 func (r *RuneBuffer) Reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
+	r.shown = nil
 	return ret
 }
 
-func (r *RuneBuffer) calWidth(m int) int {
-	if m > 0 {
-		return runes.WidthAll(r.buf[r.idx : r.idx+m])
-	}
-	return runes.WidthAll(r.buf[r.idx+m : r.idx])
-}
-
 func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	if end < start {
 		panic("end < start")
 	}
-
-	// goto start
-	move := start - r.idx
-	if move > 0 {
-		r.w.Write([]byte(string(r.buf[r.idx : r.idx+move])))
-	} else {
-		r.w.Write(bytes.Repeat([]byte("\b"), r.calWidth(move)))
+	r.Lock()
+	defer r.Unlock()
+	if end > len(r.buf) {
+		// not the text that was meant
+		return
 	}
+
+	row, col := layout(r.width, r.upTo(r.idx))
+	startRow, startCol := layout(r.width, r.upTo(start))
+	endRow, _ := layoutFrom(r.width, startRow, startCol, r.buf[start:end])
+
+	r.w.Write(moveCursor(row, startRow, startCol))
 	r.w.Write([]byte("\033[" + style + "m"))
-	r.w.Write([]byte(string(r.buf[start:end])))
+	r.w.Write([]byte(expandTab(r.buf[start:end])))
 	r.w.Write([]byte("\033[0m"))
-	// TODO: move back
+	r.w.Write(moveCursor(endRow, row, col))
 }
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
@@ -598,7 +626,7 @@ func (r *RuneBuffer) SetPrompt(prompt string) {
 func (r *RuneBuffer) cleanOutput(w io.Writer, idxLine int) {
 	buf := bufio.NewWriter(w)
 
-	if r.width == 0 {
+	if r.width <= 0 {
 		buf.WriteString(strings.Repeat("\r\b", len(r.buf)+r.promptLen()))
 		buf.Write([]byte("\033[J"))
 	} else {
@@ -624,7 +652,8 @@ func (r *RuneBuffer) Clean() {
 }
 
 func (r *RuneBuffer) clean() {
-	r.cleanWithIdxLine(r.idxLine(r.width))
+	row, _ := layout(r.width, r.shown)
+	r.cleanWithIdxLine(row)
 }
 
 func (r *RuneBuffer) cleanWithIdxLine(idxLine int) {
@@ -633,4 +662,5 @@ func (r *RuneBuffer) cleanWithIdxLine(idxLine int) {
 	}
 	r.hadClean = true
 	r.cleanOutput(r.w, idxLine)
+	r.shown = nil
 }
diff --git a/search.go b/search.go
index 4a88ea0..de41c2f 100644
--- a/search.go
+++ b/search.go
@@ -98,7 +98,7 @@ func (o *opSearch) SearchChar(r rune) {
 }
 
 func (o *opSearch) SearchMode(dir int) bool {
-	if o.width == 0 {
+	if o.width <= 0 {
 		return false
 	}
 	if o.cfg.EnableMask {
@@ -137,12 +137,7 @@ func (o *opSearch) SearchRefresh(x int) {
 	} else if x >= 0 {
 		o.state = S_STATE_FOUND
 	}
-	if x < 0 {
-		x = o.buf.idx
-	}
-	x = o.buf.CurrentWidth(x)
-	x += o.buf.PromptLen()
-	x = x % o.width
+	_, x = o.buf.cursor()
 
 	if o.markStart > 0 {
 		o.buf.SetStyle(o.markStart, o.markEnd, "4")
-- 
2.43.0


From 6ef4c3c2208c64ebb6bb0994829b0a575659f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:43 +0000
Subject: [PATCH 43/74] fix: completing a common prefix cut the candidates of
 the completer

A completer that returns the same slice again offered the rest only.
---
 complete.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index 958455a..e4d5eac 100644
--- a/complete.go
+++ b/complete.go
@@ -97,7 +97,8 @@ func (o *opCompleter) OnComplete() bool {
 			return true
 		}
 
-		same, size := runes.Aggregate(newLines)
+		// Aggregate cuts the candidates, which are not ours
+		same, size := runes.Aggregate(append([][]rune{}, newLines...))
 		if size > 0 {
 			buf.WriteRunes(same)
 			o.ExitCompleteMode(false)
-- 
2.43.0


From 7906a5952711bc0264107daea37873b08da9e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:39 +0000
Subject: [PATCH 44/74] fix: moving in the history lost the changes made by vim
 commands

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index dcc6eba..25ad731 100644
--- a/operation.go
+++ b/operation.go
@@ -180,6 +180,9 @@ func (o *Operation) ioloop() {
 					// it did not end the line, so there is more to read
 					o.t.KickRead()
 				}
+				if !o.IsSearchMode() {
+					o.history.Update(o.buf.Runes(), false)
+				}
 				continue
 			}
 		}
-- 
2.43.0


From 179cb528330c674edaccb6beb5ab9cc1261d33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:01 +0000
Subject: [PATCH 45/74] fix: the Painter got the editor's own line, which
 changed behind its back

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index c5857ef..ce609b5 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -555,7 +555,7 @@ func (r *RuneBuffer) output() []byte {
 	if r.cfg.EnableMask {
 		buf.WriteString(string(r.masked(r.buf)))
 	} else {
-		buf.WriteString(expandTab(r.cfg.Painter.Paint(r.buf, r.idx)))
+		buf.WriteString(expandTab(r.cfg.Painter.Paint(runes.Copy(r.buf), r.idx)))
 	}
 	if r.isInLineEdge() {
 		buf.Write([]byte(" \b"))
-- 
2.43.0


From c396130d8f467c900f38125f6cecd498583b7512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:07 +0000
Subject: [PATCH 46/74] fix: keys typed ahead were processed while no Readline
 was waiting for them

When FuncFilterInputRune translates a key into one that ends the line, the
terminal has read on, and the keys behind it changed the line, the history and
the screen before the next Readline had begun.
---
 operation.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/operation.go b/operation.go
index 25ad731..0a7792b 100644
--- a/operation.go
+++ b/operation.go
@@ -25,6 +25,7 @@ type Operation struct {
 	buf     *RuneBuffer
 	outchan chan []rune
 	errchan chan error
+	begin   chan struct{} // a Readline waits for its line
 	w       io.Writer
 
 	// closed when there will be no more lines: at EOF, or by Close
@@ -78,6 +79,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error),
+		begin:   make(chan struct{}),
 		done:    make(chan struct{}),
 	}
 	op.w = op.buf.w
@@ -111,7 +113,17 @@ func (o *Operation) GetConfig() *Config {
 }
 
 func (o *Operation) ioloop() {
+	inLine := false
 	for {
+		if !inLine {
+			// what is typed ahead is not processed before somebody reads it
+			select {
+			case <-o.begin:
+				inLine = true
+			case <-o.done:
+				return
+			}
+		}
 		keepInSearchMode := false
 		keepInCompleteMode := false
 		submitted := false
@@ -396,6 +408,7 @@ func (o *Operation) ioloop() {
 		if submitted {
 			select {
 			case o.outchan <- data:
+				inLine = false
 			case <-o.done:
 				return
 			}
@@ -403,6 +416,7 @@ func (o *Operation) ioloop() {
 		if err != nil {
 			select {
 			case o.errchan <- err:
+				inLine = false
 			case <-o.done:
 				return
 			}
@@ -439,6 +453,11 @@ func (o *Operation) Runes() ([]rune, error) {
 	o.buf.Refresh(nil) // print prompt
 	o.t.KickRead()
 	select {
+	case o.begin <- struct{}{}:
+	case <-o.done:
+		return nil, io.EOF
+	}
+	select {
 	case r := <-o.outchan:
 		return r, nil
 	case err := <-o.errchan:
-- 
2.43.0


From 1c59585024072ca826c9b5ca0b46f5299d5c167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 47/74] fix: a default text was returned as a line after the
 end of the input

---
 operation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 0a7792b..2af3629 100644
--- a/operation.go
+++ b/operation.go
@@ -127,6 +127,7 @@ func (o *Operation) ioloop() {
 		keepInSearchMode := false
 		keepInCompleteMode := false
 		submitted := false
+		ended := false
 		var data []rune
 		var err error
 		r := o.t.ReadRune()
@@ -157,8 +158,8 @@ func (o *Operation) ioloop() {
 			} else {
 				// if stdin got io.EOF and there is something left in buffer,
 				// let's flush them by sending CharEnter.
-				// And we will got io.EOF int next loop.
 				r = CharEnter
+				ended = true
 			}
 		}
 		isUpdateHistory := true
@@ -409,6 +410,10 @@ func (o *Operation) ioloop() {
 			select {
 			case o.outchan <- data:
 				inLine = false
+				if ended {
+					o.finish()
+					return
+				}
 			case <-o.done:
 				return
 			}
-- 
2.43.0


From 3187473ccd04842eb00c587b80315cd8db080a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 48/74] fix: search prompt of more than one row corrupted the
 screen

---
 search.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/search.go b/search.go
index de41c2f..eecd266 100644
--- a/search.go
+++ b/search.go
@@ -147,18 +147,21 @@ func (o *opSearch) SearchRefresh(x int) {
 	buf := bytes.NewBuffer(nil)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 	buf.WriteString("\033[J")
+	prompt := ""
 	if o.state == S_STATE_FAILING {
-		buf.WriteString("failing ")
+		prompt = "failing "
 	}
 	if o.dir == S_DIR_BCK {
-		buf.WriteString("bck")
+		prompt += "bck"
 	} else if o.dir == S_DIR_FWD {
-		buf.WriteString("fwd")
+		prompt += "fwd"
 	}
-	buf.WriteString("-i-search: ")
-	buf.WriteString(string(o.data))         // keyword
-	buf.WriteString("\033[4m \033[0m")      // _
-	fmt.Fprintf(buf, "\r\033[%dA", lineCnt) // move prev
+	prompt += "-i-search: " + string(o.data) // keyword
+	// it can take more than one row
+	rows, _ := layoutFrom(o.width, 0, 0, []rune(prompt+" "))
+	buf.WriteString(prompt)
+	buf.WriteString("\033[4m \033[0m")           // _
+	fmt.Fprintf(buf, "\r\033[%dA", lineCnt+rows) // move prev
 	if x > 0 {
 		fmt.Fprintf(buf, "\033[%dC", x) // move forward
 	}
-- 
2.43.0


From cf3393b6893975852e25847db6ab3d4ebfc8a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 49/74] fix: with UniqueEditLine ^C and ^D left all but the
 last row of the line on screen

---
 operation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index 2af3629..dce7284 100644
--- a/operation.go
+++ b/operation.go
@@ -331,14 +331,13 @@ func (o *Operation) ioloop() {
 			// treat as EOF
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(o.GetConfig().EOFPrompt + "\n")
+			} else {
+				o.buf.Clean()
 			}
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
 			err = io.EOF
-			if o.GetConfig().UniqueEditLine {
-				o.buf.Clean()
-			}
 		case CharInterrupt:
 			if o.IsSearchMode() {
 				o.t.KickRead()
@@ -356,6 +355,8 @@ func (o *Operation) ioloop() {
 			hint := o.GetConfig().InterruptPrompt + "\n"
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(hint)
+			} else {
+				o.buf.Clean()
 			}
 			remain := o.buf.Reset()
 			if !o.GetConfig().UniqueEditLine {
-- 
2.43.0


From 15bc362e98e6b29fb0d54ade3d129c4f508610e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 50/74] fix: Enter in a completion menu could print the prompt
 again

---
 operation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index dce7284..732e086 100644
--- a/operation.go
+++ b/operation.go
@@ -393,7 +393,9 @@ func (o *Operation) ioloop() {
 		} else if o.IsInCompleteMode() {
 			if !keepInCompleteMode {
 				o.ExitCompleteMode(false)
-				o.Refresh()
+				if !submitted && err == nil {
+					o.Refresh()
+				}
 			} else {
 				o.buf.Refresh(nil)
 				o.CompleteRefresh()
-- 
2.43.0


From ad00c1475925436b19e537ca04ea6a2bc8f4f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 51/74] fix: ReadlineWithDefault printed prompt and default
 after the end of input

---
 operation.go | 6 +++++-
 readline.go  | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 732e086..db6114b 100644
--- a/operation.go
+++ b/operation.go
@@ -31,6 +31,7 @@ type Operation struct {
 	// closed when there will be no more lines: at EOF, or by Close
 	done     chan struct{}
 	doneOnce sync.Once
+	ended    bool // the line handed out is the last one
 
 	history *opHistory
 	*opSearch
@@ -410,11 +411,11 @@ func (o *Operation) ioloop() {
 		// Readline goes on in another goroutine, which can change the
 		// config or close: everything has to be done by now
 		if submitted {
+			o.ended = ended
 			select {
 			case o.outchan <- data:
 				inLine = false
 				if ended {
-					o.finish()
 					return
 				}
 			case <-o.done:
@@ -467,6 +468,9 @@ func (o *Operation) Runes() ([]rune, error) {
 	}
 	select {
 	case r := <-o.outchan:
+		if o.ended {
+			o.finish()
+		}
 		return r, nil
 	case err := <-o.errchan:
 		if e, ok := err.(*InterruptError); ok {
diff --git a/readline.go b/readline.go
index fec4310..7b21b68 100644
--- a/readline.go
+++ b/readline.go
@@ -258,6 +258,9 @@ func (i *Instance) Readline() (string, error) {
 }
 
 func (i *Instance) ReadlineWithDefault(what string) (string, error) {
+	if i.Operation.isDone() {
+		return "", io.EOF // nothing to show any more
+	}
 	i.Operation.SetBuffer(what)
 	return i.Operation.String()
 }
-- 
2.43.0


From 4ebb79a901896807f6d58f660dd8171700238802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:35 +0000
Subject: [PATCH 52/74] fix: completion menu with wide characters on a narrow
 screen moved the cursor to the wrong row

---
 complete.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/complete.go b/complete.go
index e4d5eac..b66fd4e 100644
--- a/complete.go
+++ b/complete.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"strings"
 )
 
 type AutoCompleter interface {
@@ -214,26 +215,23 @@ func (o *opCompleter) CompleteRefresh() {
 		// wider than the screen: one candidate per line
 		colNum = 1
 	}
-	rows := 1 // of a candidate
-	if o.width > 0 {
-		rows = LineCount(o.width, colWidth)
-	}
 
 	o.candidateColNum = colNum
 	buf := bufio.NewWriter(o.w)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 
 	colIdx := 0
-	lines := 1
+	rows, x := 0, 0 // where the next one is printed
 	buf.WriteString("\033[J")
 	for idx, c := range o.candidate {
 		inSelect := idx == o.candidateChoise && o.IsInCompleteSelectMode()
 		if inSelect {
 			buf.WriteString("\033[30;47m")
 		}
-		buf.WriteString(string(same))
-		buf.WriteString(string(c))
-		buf.Write(bytes.Repeat([]byte(" "), colWidth-runes.WidthAll(c)-runes.WidthAll(same)))
+		pad := strings.Repeat(" ", colWidth-runes.WidthAll(c)-runes.WidthAll(same))
+		cell := string(same) + string(c) + pad
+		buf.WriteString(cell)
+		rows, x = layoutFrom(o.width, rows, x, []rune(cell))
 
 		if inSelect {
 			buf.WriteString("\033[0m")
@@ -242,14 +240,14 @@ func (o *opCompleter) CompleteRefresh() {
 		colIdx++
 		if colIdx == colNum {
 			buf.WriteString("\n")
-			lines += rows
+			rows, x = rows+1, 0
 			colIdx = 0
 		}
 	}
 
 	// move back
 	row, col := o.op.buf.cursor()
-	buf.Write(moveCursor(row+lineCnt-1+lines, row, col))
+	buf.Write(moveCursor(row+lineCnt+rows, row, col))
 	buf.Flush()
 }
 
-- 
2.43.0


From e4fccee28ac65eea66e8875a1ebf483f0dd4ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:54 +0000
Subject: [PATCH 53/74] fix: output written while the line was being started or
 ended was mixed with it

---
 operation.go | 33 +++++++++++++++------------------
 runebuf.go   | 42 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/operation.go b/operation.go
index db6114b..89681a6 100644
--- a/operation.go
+++ b/operation.go
@@ -52,17 +52,16 @@ type wrapWriter struct {
 }
 
 func (w *wrapWriter) Write(b []byte) (int, error) {
-	if !w.t.IsReading() {
-		return w.target.Write(b)
-	}
-
 	var (
 		n   int
 		err error
 	)
-	w.r.buf.Refresh(func() {
+	shown := w.r.buf.RefreshShown(func() {
 		n, err = w.target.Write(b)
 	})
+	if !shown {
+		return n, err
+	}
 
 	if w.r.IsSearchMode() {
 		w.r.SearchRefresh(-1)
@@ -114,6 +113,7 @@ func (o *Operation) GetConfig() *Config {
 }
 
 func (o *Operation) ioloop() {
+	defer o.buf.Leave()
 	inLine := false
 	for {
 		if !inLine {
@@ -153,7 +153,7 @@ func (o *Operation) ioloop() {
 				return
 			}
 			if o.buf.Len() == 0 {
-				o.buf.Clean()
+				o.buf.CleanReset()
 				o.finish()
 				return
 			} else {
@@ -291,8 +291,7 @@ func (o *Operation) ioloop() {
 				data = o.buf.Reset()
 				data = data[:len(data)-1] // trim \n
 			} else {
-				o.buf.Clean()
-				data = o.buf.Reset()
+				data = o.buf.CleanReset()
 			}
 			submitted = true
 			if !o.GetConfig().DisableAutoSaveHistory {
@@ -332,10 +331,10 @@ func (o *Operation) ioloop() {
 			// treat as EOF
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(o.GetConfig().EOFPrompt + "\n")
+				o.buf.Reset()
 			} else {
-				o.buf.Clean()
+				o.buf.CleanReset()
 			}
-			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
 			err = io.EOF
@@ -354,14 +353,13 @@ func (o *Operation) ioloop() {
 			o.buf.MoveToLineEnd()
 			o.buf.Refresh(nil)
 			hint := o.GetConfig().InterruptPrompt + "\n"
+			var remain []rune
 			if !o.GetConfig().UniqueEditLine {
 				o.buf.WriteString(hint)
-			} else {
-				o.buf.Clean()
-			}
-			remain := o.buf.Reset()
-			if !o.GetConfig().UniqueEditLine {
+				remain = o.buf.Reset()
 				remain = remain[:len(remain)-len([]rune(hint))]
+			} else {
+				remain = o.buf.CleanReset()
 			}
 			isUpdateHistory = false
 			o.history.Revert()
@@ -485,6 +483,7 @@ func (o *Operation) Runes() ([]rune, error) {
 // finish makes every Readline return io.EOF from now on
 func (o *Operation) finish() {
 	o.doneOnce.Do(func() { close(o.done) })
+	o.buf.Leave()
 }
 
 func (o *Operation) isDone() bool {
@@ -598,9 +597,7 @@ func (o *Operation) SaveHistory(content string) error {
 }
 
 func (o *Operation) Refresh() {
-	if o.t.IsReading() {
-		o.buf.Refresh(nil)
-	}
+	o.buf.RefreshShown(nil)
 }
 
 func (o *Operation) Clean() {
diff --git a/runebuf.go b/runebuf.go
index ce609b5..d415a2f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -21,6 +21,7 @@ type RuneBuffer struct {
 	w      io.Writer
 
 	hadClean    bool
+	onScreen    bool // prompt and line are there, from the first print to Reset
 	shown       []rune // what was printed up to the cursor
 	interactive bool
 	cfg         *Config
@@ -523,7 +524,24 @@ func (r *RuneBuffer) CursorLineCount() int {
 func (r *RuneBuffer) Refresh(f func()) {
 	r.Lock()
 	defer r.Unlock()
+	r.refresh(f)
+}
+
+// RefreshShown does the same if the line is on the screen, else it only calls f
+func (r *RuneBuffer) RefreshShown(f func()) bool {
+	r.Lock()
+	defer r.Unlock()
+	if !r.onScreen {
+		if f != nil {
+			f()
+		}
+		return false
+	}
+	r.refresh(f)
+	return true
+}
 
+func (r *RuneBuffer) refresh(f func()) {
 	if !r.interactive {
 		if f != nil {
 			f()
@@ -547,6 +565,7 @@ func (r *RuneBuffer) SetOffset(offset string) {
 func (r *RuneBuffer) print() {
 	r.w.Write(r.output())
 	r.hadClean = false
+	r.onScreen = true
 }
 
 func (r *RuneBuffer) output() []byte {
@@ -574,11 +593,34 @@ func expandTab(rs []rune) string {
 	return strings.Replace(string(rs), "\t", strings.Repeat(" ", TabWidth), -1)
 }
 
+// Reset ends the line, what is shown of it stays
 func (r *RuneBuffer) Reset() []rune {
+	r.Lock()
+	defer r.Unlock()
+	return r.reset()
+}
+
+// CleanReset ends the line and takes it off the screen
+func (r *RuneBuffer) CleanReset() []rune {
+	r.Lock()
+	defer r.Unlock()
+	r.clean()
+	return r.reset()
+}
+
+// Leave what is on the screen as it is, it is not refreshed any more
+func (r *RuneBuffer) Leave() {
+	r.Lock()
+	r.onScreen = false
+	r.Unlock()
+}
+
+func (r *RuneBuffer) reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
 	r.shown = nil
+	r.onScreen = false
 	return ret
 }
 
-- 
2.43.0


From 8a18075575ab8bd21899ee80da1fac819e67da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:29 +0000
Subject: [PATCH 54/74] fix: writing to Stdout during a search or completion
 raced with it and garbled the screen

---
 complete.go  | 21 ++++++++++-------
 operation.go | 12 +---------
 runebuf.go   | 64 +++++++++++++++++++++++++++++++++++-----------------
 search.go    | 42 +++++++++++++++++++---------------
 4 files changed, 81 insertions(+), 58 deletions(-)

diff --git a/complete.go b/complete.go
index b66fd4e..8239479 100644
--- a/complete.go
+++ b/complete.go
@@ -1,7 +1,6 @@
 package readline
 
 import (
-	"bufio"
 	"bytes"
 	"io"
 	"strings"
@@ -190,7 +189,6 @@ func (o *opCompleter) CompleteRefresh() {
 	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
-	lineCnt := o.op.buf.CursorLineCount()
 	colWidth := 0
 	for _, c := range o.candidate {
 		w := runes.WidthAll(c)
@@ -217,8 +215,7 @@ func (o *opCompleter) CompleteRefresh() {
 	}
 
 	o.candidateColNum = colNum
-	buf := bufio.NewWriter(o.w)
-	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
+	buf := bytes.NewBuffer(nil)
 
 	colIdx := 0
 	rows, x := 0, 0 // where the next one is printed
@@ -245,10 +242,17 @@ func (o *opCompleter) CompleteRefresh() {
 		}
 	}
 
-	// move back
-	row, col := o.op.buf.cursor()
-	buf.Write(moveCursor(row+lineCnt+rows, row, col))
-	buf.Flush()
+	// drawn again by the writers of Stdout
+	menu := buf.Bytes()
+	o.op.buf.SetBelow(func() []byte {
+		r := o.op.buf
+		lineCnt := r.cursorLineCount()
+		out := bytes.Repeat([]byte("\n"), lineCnt)
+		out = append(out, menu...)
+		// move back
+		row, col := layout(r.width, r.upTo(r.idx))
+		return append(out, moveCursor(row+lineCnt+rows, row, col)...)
+	})
 }
 
 func (o *opCompleter) aggCandidate(candidate [][]rune) int {
@@ -282,6 +286,7 @@ func (o *opCompleter) EnterCompleteMode(offset int, candidate [][]rune) {
 }
 
 func (o *opCompleter) ExitCompleteSelectMode() {
+	o.op.buf.SetBelow(nil)
 	o.inSelectMode = false
 	o.candidate = nil
 	o.candidateChoise = -1
diff --git a/operation.go b/operation.go
index 89681a6..1fd93cb 100644
--- a/operation.go
+++ b/operation.go
@@ -56,19 +56,9 @@ func (w *wrapWriter) Write(b []byte) (int, error) {
 		n   int
 		err error
 	)
-	shown := w.r.buf.RefreshShown(func() {
+	w.r.buf.RefreshShown(func() {
 		n, err = w.target.Write(b)
 	})
-	if !shown {
-		return n, err
-	}
-
-	if w.r.IsSearchMode() {
-		w.r.SearchRefresh(-1)
-	}
-	if w.r.IsInCompleteMode() {
-		w.r.CompleteRefresh()
-	}
 	return n, err
 }
 
diff --git a/runebuf.go b/runebuf.go
index d415a2f..7061e10 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -20,9 +20,11 @@ type RuneBuffer struct {
 	prompt []rune
 	w      io.Writer
 
-	hadClean    bool
-	onScreen    bool // prompt and line are there, from the first print to Reset
-	shown       []rune // what was printed up to the cursor
+	hadClean bool
+	onScreen bool // prompt and line are there, from the first print to Reset
+
+	below       func() []byte // draws what a search or completion shows below the line
+	shown       []rune        // what was printed up to the cursor
 	interactive bool
 	cfg         *Config
 
@@ -489,13 +491,6 @@ func (r *RuneBuffer) masked(rs []rune) []rune {
 	return ret
 }
 
-// cursor returns the row and the column of the cursor, counted from the prompt
-func (r *RuneBuffer) cursor() (int, int) {
-	r.Lock()
-	defer r.Unlock()
-	return layout(r.width, r.upTo(r.idx))
-}
-
 func moveCursor(fromRow, row, col int) []byte {
 	var buf []byte
 	if row < fromRow {
@@ -518,7 +513,15 @@ func (r *RuneBuffer) IdxLine(width int) int {
 }
 
 func (r *RuneBuffer) CursorLineCount() int {
-	return r.LineCount(r.width) - r.IdxLine(r.width)
+	r.Lock()
+	defer r.Unlock()
+	return r.cursorLineCount()
+}
+
+func (r *RuneBuffer) cursorLineCount() int {
+	last, _ := layout(r.width, r.upTo(len(r.buf)))
+	row, _ := layout(r.width, r.upTo(r.idx))
+	return last + 1 - row
 }
 
 func (r *RuneBuffer) Refresh(f func()) {
@@ -527,18 +530,32 @@ func (r *RuneBuffer) Refresh(f func()) {
 	r.refresh(f)
 }
 
-// RefreshShown does the same if the line is on the screen, else it only calls f
-func (r *RuneBuffer) RefreshShown(f func()) bool {
+// RefreshShown does the same if the line is on the screen, with what is below
+// it, else it only calls f
+func (r *RuneBuffer) RefreshShown(f func()) {
 	r.Lock()
 	defer r.Unlock()
 	if !r.onScreen {
 		if f != nil {
 			f()
 		}
-		return false
+		return
 	}
 	r.refresh(f)
-	return true
+	if r.below != nil {
+		r.w.Write(r.below())
+	}
+}
+
+// SetBelow draws something below the line, and again whenever output of the
+// program goes above it. draw is called with the lock held.
+func (r *RuneBuffer) SetBelow(draw func() []byte) {
+	r.Lock()
+	defer r.Unlock()
+	r.below = draw
+	if draw != nil {
+		r.w.Write(draw())
+	}
 }
 
 func (r *RuneBuffer) refresh(f func()) {
@@ -621,6 +638,7 @@ func (r *RuneBuffer) reset() []rune {
 	r.idx = 0
 	r.shown = nil
 	r.onScreen = false
+	r.below = nil
 	return ret
 }
 
@@ -630,20 +648,24 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	}
 	r.Lock()
 	defer r.Unlock()
+	r.w.Write(r.styled(start, end, style))
+}
+
+func (r *RuneBuffer) styled(start, end int, style string) []byte {
 	if end > len(r.buf) {
 		// not the text that was meant
-		return
+		return nil
 	}
 
 	row, col := layout(r.width, r.upTo(r.idx))
 	startRow, startCol := layout(r.width, r.upTo(start))
 	endRow, _ := layoutFrom(r.width, startRow, startCol, r.buf[start:end])
 
-	r.w.Write(moveCursor(row, startRow, startCol))
-	r.w.Write([]byte("\033[" + style + "m"))
-	r.w.Write([]byte(expandTab(r.buf[start:end])))
-	r.w.Write([]byte("\033[0m"))
-	r.w.Write(moveCursor(endRow, row, col))
+	buf := moveCursor(row, startRow, startCol)
+	buf = append(buf, "\033["+style+"m"...)
+	buf = append(buf, expandTab(r.buf[start:end])...)
+	buf = append(buf, "\033[0m"...)
+	return append(buf, moveCursor(endRow, row, col)...)
 }
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
diff --git a/search.go b/search.go
index eecd266..1910ae0 100644
--- a/search.go
+++ b/search.go
@@ -126,6 +126,7 @@ func (o *opSearch) ExitSearchMode(revert bool) {
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
 	o.inMode = false
+	o.buf.SetBelow(nil)
 	o.source = nil
 	o.origin = nil
 	o.data = nil
@@ -137,16 +138,7 @@ func (o *opSearch) SearchRefresh(x int) {
 	} else if x >= 0 {
 		o.state = S_STATE_FOUND
 	}
-	_, x = o.buf.cursor()
 
-	if o.markStart > 0 {
-		o.buf.SetStyle(o.markStart, o.markEnd, "4")
-	}
-
-	lineCnt := o.buf.CursorLineCount()
-	buf := bytes.NewBuffer(nil)
-	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
-	buf.WriteString("\033[J")
 	prompt := ""
 	if o.state == S_STATE_FAILING {
 		prompt = "failing "
@@ -157,13 +149,27 @@ func (o *opSearch) SearchRefresh(x int) {
 		prompt += "fwd"
 	}
 	prompt += "-i-search: " + string(o.data) // keyword
-	// it can take more than one row
-	rows, _ := layoutFrom(o.width, 0, 0, []rune(prompt+" "))
-	buf.WriteString(prompt)
-	buf.WriteString("\033[4m \033[0m")           // _
-	fmt.Fprintf(buf, "\r\033[%dA", lineCnt+rows) // move prev
-	if x > 0 {
-		fmt.Fprintf(buf, "\033[%dC", x) // move forward
-	}
-	o.w.Write(buf.Bytes())
+
+	// drawn again by the writers of Stdout, the search goes on meanwhile
+	width, start, end := o.width, o.markStart, o.markEnd
+	o.buf.SetBelow(func() []byte {
+		_, x := layout(o.buf.width, o.buf.upTo(o.buf.idx))
+		buf := bytes.NewBuffer(nil)
+		if start > 0 {
+			buf.Write(o.buf.styled(start, end, "4"))
+		}
+
+		lineCnt := o.buf.cursorLineCount()
+		buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
+		buf.WriteString("\033[J")
+		// it can take more than one row
+		rows, _ := layoutFrom(width, 0, 0, []rune(prompt+" "))
+		buf.WriteString(prompt)
+		buf.WriteString("\033[4m \033[0m")           // _
+		fmt.Fprintf(buf, "\r\033[%dA", lineCnt+rows) // move prev
+		if x > 0 {
+			fmt.Fprintf(buf, "\033[%dC", x) // move forward
+		}
+		return buf.Bytes()
+	})
 }
-- 
2.43.0


From 9b7fecef0bc3be5bf4c7ff8fadc3fd8ca988c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 55/74] fix: a history file that cannot be read completely is
 not cut

A read error while loading was taken for the end of the file, so a file with
many lines could be replaced by the few that had been read before.
---
 history.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 708a3ce..3671aa8 100644
--- a/history.go
+++ b/history.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"container/list"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 	"sync"
@@ -80,8 +81,14 @@ func (o *opHistory) historyUpdatePath(path string) {
 	o.loaded = true
 	r := bufio.NewReader(o.fd)
 	total := 0
+	complete := true
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
+		if err != nil && err != io.EOF {
+			// not all of it could be read
+			complete = false
+			break
+		}
 		if err != nil {
 			if len(line) == 0 {
 				break
@@ -97,7 +104,7 @@ func (o *opHistory) historyUpdatePath(path string) {
 		o.Push([]rune(line))
 		o.Compact()
 	}
-	if total > o.cfg.HistoryLimit {
+	if complete && total > o.cfg.HistoryLimit {
 		o.rewriteLocked()
 	}
 	o.historyVer++
-- 
2.43.0


From d8e1722dce3a5d18dea6a8d4f14308891fef924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 56/74] fix: an entry is not joined to one that was written
 only in part

When the disk was full for a while, the history file could end in the middle of
a line, and the next entry that could be written continued it.
---
 history.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 3671aa8..b05402e 100644
--- a/history.go
+++ b/history.go
@@ -30,6 +30,7 @@ type opHistory struct {
 	fdLock     sync.Mutex
 	enable     bool
 	loaded     bool
+	torn       bool // the file does not end with a newline
 }
 
 func newOpHistory(cfg *Config) (o *opHistory) {
@@ -85,8 +86,9 @@ func (o *opHistory) historyUpdatePath(path string) {
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
 		if err != nil && err != io.EOF {
-			// not all of it could be read
+			// not all of it could be read, nor how it ends
 			complete = false
+			o.torn = true
 			break
 		}
 		if err != nil {
@@ -94,7 +96,8 @@ func (o *opHistory) historyUpdatePath(path string) {
 				break
 			}
 			// the last line has no end: what is appended must not join it
-			o.fd.Write([]byte{'\n'})
+			_, err := o.fd.Write([]byte{'\n'})
+			o.torn = err != nil
 		}
 		// ignore the empty line
 		line = strings.TrimSpace(line)
@@ -160,6 +163,7 @@ func (o *opHistory) rewriteLocked() {
 	}
 	// fd is write only, just satisfy what we need.
 	o.fd = fd
+	o.torn = false
 }
 
 func (o *opHistory) Close() {
@@ -336,7 +340,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 		r.Source = s
 		if o.fd != nil {
 			// just report the error
-			_, err = o.fd.Write([]byte(string(r.Source) + "\n"))
+			err = o.append(string(r.Source) + "\n")
 		}
 	} else {
 		r.Tmp = append(r.Tmp[:0], s...)
@@ -346,6 +350,19 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	return
 }
 
+// append writes to the end of the history file
+func (o *opHistory) append(s string) error {
+	if o.torn {
+		// an earlier write was cut short: what follows must not join it
+		s = "\n" + s
+	}
+	n, err := o.fd.Write([]byte(s))
+	if n > 0 {
+		o.torn = s[n-1] != '\n'
+	}
+	return err
+}
+
 func (o *opHistory) Push(s []rune) {
 	s = runes.Copy(s)
 	elem := o.history.PushBack(&hisItem{Source: s})
-- 
2.43.0


From a82119f90ad405fc06ec803760f390c3141041a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 57/74] fix: a line ended after Close was recorded although
 Readline had returned EOF

---
 operation.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/operation.go b/operation.go
index 1fd93cb..0d4cee9 100644
--- a/operation.go
+++ b/operation.go
@@ -124,6 +124,11 @@ func (o *Operation) ioloop() {
 		r := o.t.ReadRune()
 		key := r // the last key taken from the terminal
 
+		if o.isDone() {
+			// closed: the line was not submitted
+			return
+		}
+
 		if o.GetConfig().FuncFilterInputRune != nil && r != 0 {
 			var process bool
 			r, process = o.GetConfig().FuncFilterInputRune(r)
@@ -138,10 +143,6 @@ func (o *Operation) ioloop() {
 		}
 
 		if r == 0 { // io.EOF
-			if o.isDone() {
-				// closed: the line was not submitted
-				return
-			}
 			if o.buf.Len() == 0 {
 				o.buf.CleanReset()
 				o.finish()
-- 
2.43.0


From 15db9f6b0f4aa665617f2ab10aadc9930a9298eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 58/74] fix: Close right after the start did not wait, and
 input was read after it

---
 terminal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 04e3b92..545e1bd 100644
--- a/terminal.go
+++ b/terminal.go
@@ -39,6 +39,7 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 		sizeChan: make(chan string, 1),
 	}
 
+	t.wg.Add(1)
 	go t.ioloop()
 	return t, nil
 }
@@ -120,7 +121,6 @@ func (t *Terminal) KickRead() {
 }
 
 func (t *Terminal) ioloop() {
-	t.wg.Add(1)
 	defer func() {
 		t.wg.Done()
 		close(t.outchan)
-- 
2.43.0


From 3a9d99f65701cfd5b00ca9d6d193878ddaf8b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 59/74] fix: Close put a terminal mode back that was not
 current any more

---
 utils.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 0706dd4..1d1528c 100644
--- a/utils.go
+++ b/utils.go
@@ -262,19 +262,27 @@ func GetInt(s []string, def int) int {
 }
 
 type RawMode struct {
+	m     sync.Mutex
 	state *State
 }
 
 func (r *RawMode) Enter() (err error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.state, err = MakeRaw(GetStdin())
 	return err
 }
 
+// Exit restores the mode before Enter, once
 func (r *RawMode) Exit() error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	if r.state == nil {
 		return nil
 	}
-	return Restore(GetStdin(), r.state)
+	state := r.state
+	r.state = nil
+	return Restore(GetStdin(), state)
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 5abadad6184ede23cbe084f56d5d5effaae980e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 60/74] fix: SetConfig during a Readline left the terminal raw

---
 terminal.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 545e1bd..b62cf48 100644
--- a/terminal.go
+++ b/terminal.go
@@ -14,6 +14,7 @@ type Terminal struct {
 	cfg       *Config
 	stdin     io.ReadCloser // what ioloop reads, whatever SetConfig says
 	prefill   io.Writer
+	exitRaw   func() error // leaves the raw mode that was entered
 	outchan   chan rune
 	closed    int32
 	stopChan  chan struct{}
@@ -59,11 +60,23 @@ func (t *Terminal) SleepToResume() {
 }
 
 func (t *Terminal) EnterRawMode() (err error) {
-	return t.cfg.FuncMakeRaw()
+	t.m.Lock()
+	cfg := t.cfg
+	t.exitRaw = cfg.FuncExitRaw
+	t.m.Unlock()
+	return cfg.FuncMakeRaw()
 }
 
+// ExitRawMode undoes EnterRawMode, also if there is another config now
 func (t *Terminal) ExitRawMode() (err error) {
-	return t.cfg.FuncExitRaw()
+	t.m.Lock()
+	exit := t.exitRaw
+	if exit == nil {
+		exit = t.cfg.FuncExitRaw
+	}
+	t.exitRaw = nil
+	t.m.Unlock()
+	return exit()
 }
 
 func (t *Terminal) Write(b []byte) (int, error) {
-- 
2.43.0


From 43e5ad986cd5d55ac3fa9b9d9611af05e3bb2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 61/74] fix: an interrupted read in the middle of an escape
 sequence lost the sequence

---
 terminal.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/terminal.go b/terminal.go
index b62cf48..6415d82 100644
--- a/terminal.go
+++ b/terminal.go
@@ -146,7 +146,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.stdin)
+	buf := bufio.NewReader(restartReader{t.stdin})
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -160,10 +160,6 @@ func (t *Terminal) ioloop() {
 		expectNextChar = false
 		r, _, err := buf.ReadRune()
 		if err != nil {
-			if strings.Contains(err.Error(), "interrupted system call") {
-				expectNextChar = true
-				continue
-			}
 			break
 		}
 
@@ -233,6 +229,23 @@ func (t *Terminal) ioloop() {
 
 }
 
+// restartReader goes on after an interrupted system call
+type restartReader struct {
+	r io.Reader
+}
+
+func (r restartReader) Read(b []byte) (int, error) {
+	for {
+		n, err := r.r.Read(b)
+		if err == nil || !strings.Contains(err.Error(), "interrupted system call") {
+			return n, err
+		}
+		if n > 0 {
+			return n, nil
+		}
+	}
+}
+
 // send hands out a key, it returns false once the terminal is closed
 func (t *Terminal) send(r rune) bool {
 	select {
-- 
2.43.0


From d8b47857c322514833ef8d83ff5b538377ed586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 62/74] fix: a password could be recorded in the history when
 Close came at the end of the input

ReadPassword put the ordinary config back while the key that was being
processed, with the password in the line, was still to be recorded.
---
 operation.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index 0d4cee9..f24b307 100644
--- a/operation.go
+++ b/operation.go
@@ -31,7 +31,8 @@ type Operation struct {
 	// closed when there will be no more lines: at EOF, or by Close
 	done     chan struct{}
 	doneOnce sync.Once
-	ended    bool // the line handed out is the last one
+	ended    bool          // the line handed out is the last one
+	stopped  chan struct{} // closed when the last key has been processed
 
 	history *opHistory
 	*opSearch
@@ -71,6 +72,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		errchan: make(chan error),
 		begin:   make(chan struct{}),
 		done:    make(chan struct{}),
+		stopped: make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -103,6 +105,7 @@ func (o *Operation) GetConfig() *Config {
 }
 
 func (o *Operation) ioloop() {
+	defer close(o.stopped)
 	defer o.buf.Leave()
 	inLine := false
 	for {
@@ -121,7 +124,7 @@ func (o *Operation) ioloop() {
 		ended := false
 		var data []rune
 		var err error
-		r := o.t.ReadRune()
+		r := o.readRune()
 		key := r // the last key taken from the terminal
 
 		if o.isDone() {
@@ -177,7 +180,7 @@ func (o *Operation) ioloop() {
 
 		if o.IsEnableVimMode() {
 			r = o.HandleVim(r, func() rune {
-				key = o.t.ReadRune()
+				key = o.readRune()
 				return key
 			})
 			if r == 0 {
@@ -467,10 +470,23 @@ func (o *Operation) Runes() ([]rune, error) {
 		}
 		return nil, err
 	case <-o.done:
+		// a key that is still being processed belongs to this line and its
+		// config: ReadPassword puts the other one back
+		<-o.stopped
 		return nil, io.EOF
 	}
 }
 
+// readRune is 0 at EOF, and when there will be no more lines
+func (o *Operation) readRune() rune {
+	select {
+	case r := <-o.t.outchan:
+		return r
+	case <-o.done:
+		return 0
+	}
+}
+
 // finish makes every Readline return io.EOF from now on
 func (o *Operation) finish() {
 	o.doneOnce.Do(func() { close(o.done) })
-- 
2.43.0


From 6957f7ac08b8c3912e3e40f37a06e7f19c8e41f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 63/74] fix: CancelableStdin wrote into the buffer of a Read
 that Close had ended

---
 std.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/std.go b/std.go
index 035b843..41bff62 100644
--- a/std.go
+++ b/std.go
@@ -72,8 +72,8 @@ type CancelableStdin struct {
 	stop   chan struct{}
 	closed int32
 	notify chan struct{}
-	data   []byte
-	read   int
+	size   int    // of the next read
+	data   []byte // what was read
 	err    error
 }
 
@@ -88,11 +88,16 @@ func NewCancelableStdin(r io.Reader) *CancelableStdin {
 }
 
 func (c *CancelableStdin) ioloop() {
+	var buf []byte // not the caller's, who may be gone by the time of the answer
 loop:
 	for {
 		select {
 		case <-c.notify:
-			c.read, c.err = c.r.Read(c.data)
+			if len(buf) < c.size {
+				buf = make([]byte, c.size)
+			}
+			n, err := c.r.Read(buf[:c.size])
+			c.data, c.err = buf[:n], err
 			select {
 			case c.notify <- struct{}{}:
 			case <-c.stop:
@@ -111,7 +116,7 @@ func (c *CancelableStdin) Read(b []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 
-	c.data = b
+	c.size = len(b)
 	select {
 	case c.notify <- struct{}{}:
 	case <-c.stop:
@@ -119,7 +124,7 @@ func (c *CancelableStdin) Read(b []byte) (n int, err error) {
 	}
 	select {
 	case <-c.notify:
-		return c.read, c.err
+		return copy(b, c.data), c.err
 	case <-c.stop:
 		return 0, io.EOF
 	}
-- 
2.43.0


From 3ba57978fa39553fa226ecf97dd5517fc6125fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:00 +0000
Subject: [PATCH 64/74] fix: a few bytes from a remote client made the server
 take 2 GB of memory

---
 remote.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/remote.go b/remote.go
index 7e58a04..d1648b5 100644
--- a/remote.go
+++ b/remote.go
@@ -271,10 +271,12 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if length < 2 {
 		return nil, fmt.Errorf("invalid message length %d", length)
 	}
-	m.Data = make([]byte, int(length)-2)
-	if _, err := io.ReadFull(r, m.Data); err != nil {
+	// the length may be wrong, take memory only for what comes
+	var data bytes.Buffer
+	if _, err := io.CopyN(&data, r, int64(length)-2); err != nil {
 		return nil, err
 	}
+	m.Data = data.Bytes()
 	return m, nil
 }
 
-- 
2.43.0


From 9b2d789bc0e7f36a39048468edde9253b35cd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:00 +0000
Subject: [PATCH 65/74] fix: a remote client went on reading its input after
 the connection was broken

---
 remote.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/remote.go b/remote.go
index d1648b5..eb59355 100644
--- a/remote.go
+++ b/remote.go
@@ -411,8 +411,8 @@ func (r *RemoteCli) ServeBy(source io.Reader) error {
 	go func() {
 		defer r.Close()
 		for {
-			n, _ := io.Copy(r, source)
-			if n == 0 {
+			n, err := io.Copy(r, source)
+			if n == 0 || err != nil {
 				break
 			}
 		}
-- 
2.43.0


From 6fd5944916a356cee13c02b38df7f8c006f0ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:01 +0000
Subject: [PATCH 66/74] fix: a width change while the editor was starting was
 lost

---
 operation.go |  9 +++++++--
 remote.go    | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/operation.go b/operation.go
index f24b307..f940fc7 100644
--- a/operation.go
+++ b/operation.go
@@ -79,12 +79,17 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 	op.opVim = newVimMode(op)
 	op.opCompleter = newOpCompleter(op.buf.w, op, width)
 	op.opPassword = newOpPassword(op)
-	op.cfg.FuncOnWidthChanged(func() {
+	onWidthChanged := func() {
 		newWidth := cfg.FuncGetWidth()
 		op.opCompleter.OnWidthChange(newWidth)
 		op.opSearch.OnWidthChange(newWidth)
 		op.buf.OnWidthChange(newWidth)
-	})
+	}
+	op.cfg.FuncOnWidthChanged(onWidthChanged)
+	// it may have changed when nobody was told yet
+	if cfg.FuncGetWidth() != width {
+		onWidthChanged()
+	}
 	go op.ioloop()
 	return op
 }
diff --git a/remote.go b/remote.go
index eb59355..1e05f4f 100644
--- a/remote.go
+++ b/remote.go
@@ -32,6 +32,7 @@ type RemoteSvr struct {
 	writeChan     chan *writeCtx
 	conn          net.Conn
 	isTerminal    bool
+	funcWidthM    sync.Mutex
 	funcWidthChan func()
 	stopChan      chan struct{}
 
@@ -109,7 +110,9 @@ func (r *RemoteSvr) HandleConfig(cfg *Config) {
 	cfg.FuncExitRaw = r.ExitRawMode
 	cfg.FuncGetWidth = r.GetWidth
 	cfg.FuncOnWidthChanged = func(f func()) {
+		r.funcWidthM.Lock()
 		r.funcWidthChan = f
+		r.funcWidthM.Unlock()
 	}
 }
 
@@ -243,8 +246,11 @@ func (r *RemoteSvr) GotReportWidth(data []byte) {
 		return
 	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
-	if r.funcWidthChan != nil {
-		r.funcWidthChan()
+	r.funcWidthM.Lock()
+	f := r.funcWidthChan
+	r.funcWidthM.Unlock()
+	if f != nil {
+		f()
 	}
 }
 
-- 
2.43.0


From ac7094c0f077eec924edb36eb55f82bf7d5da0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:32 +0000
Subject: [PATCH 67/74] fix: ReadPassword(fd) left the terminal without echo

The state to restore was a second pointer to the one that was changed.
---
 term.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index ea5db93..062b668 100644
--- a/term.go
+++ b/term.go
@@ -85,11 +85,11 @@ func ReadPassword(fd int) ([]byte, error) {
 		return nil, err
 	}
 
-	newState := oldState
+	newState := *oldState
 	newState.Lflag &^= syscall.ECHO
 	newState.Lflag |= syscall.ICANON | syscall.ISIG
 	newState.Iflag |= syscall.ICRNL
-	if err := setTermios(fd, newState); err != nil {
+	if err := setTermios(fd, &newState); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 91ca68e3825fbc9a8cbcab5cea2d49aef5fa14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:50 +0000
Subject: [PATCH 68/74] fix: widths of East Asian characters

Fullwidth punctuation and letters take two cells of a terminal, halfwidth
katakana one: the cursor was elsewhere in lines with them.
---
 runes.go       | 29 +++++++++++++++++++++++------
 runes/runes.go | 29 +++++++++++++++++++++++------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/runes.go b/runes.go
index a6fb97c..9d37971 100644
--- a/runes.go
+++ b/runes.go
@@ -136,12 +136,29 @@ var zeroWidth = []*unicode.RangeTable{
 	unicode.Cf,
 }
 
-var doubleWidth = []*unicode.RangeTable{
-	unicode.Han,
-	unicode.Hangul,
-	unicode.Hiragana,
-	unicode.Katakana,
-}
+// doubleWidth are the characters that take two cells of a terminal: East Asian
+// wide and fullwidth ones.
+var doubleWidth = []*unicode.RangeTable{{
+	R16: []unicode.Range16{
+		{0x1100, 0x115f, 1},
+		{0x2329, 0x232a, 1},
+		{0x2e80, 0x303e, 1},
+		{0x3041, 0xa4cf, 1},
+		{0xa960, 0xa97c, 1},
+		{0xac00, 0xd7a3, 1},
+		{0xf900, 0xfaff, 1},
+		{0xfe10, 0xfe19, 1},
+		{0xfe30, 0xfe6f, 1},
+		{0xff01, 0xff60, 1},
+		{0xffe0, 0xffe6, 1},
+	},
+	R32: []unicode.Range32{
+		{0x16fe0, 0x18d08, 1},
+		{0x1aff0, 0x1b2fb, 1},
+		{0x20000, 0x2fffd, 1},
+		{0x30000, 0x3fffd, 1},
+	},
+}}
 
 func (Runes) Width(r rune) int {
 	if r == '\t' {
diff --git a/runes/runes.go b/runes/runes.go
index 925b09c..9e3ebc3 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -89,12 +89,29 @@ var zeroWidth = []*unicode.RangeTable{
 	unicode.Cf,
 }
 
-var doubleWidth = []*unicode.RangeTable{
-	unicode.Han,
-	unicode.Hangul,
-	unicode.Hiragana,
-	unicode.Katakana,
-}
+// doubleWidth are the characters that take two cells of a terminal: East Asian
+// wide and fullwidth ones.
+var doubleWidth = []*unicode.RangeTable{{
+	R16: []unicode.Range16{
+		{0x1100, 0x115f, 1},
+		{0x2329, 0x232a, 1},
+		{0x2e80, 0x303e, 1},
+		{0x3041, 0xa4cf, 1},
+		{0xa960, 0xa97c, 1},
+		{0xac00, 0xd7a3, 1},
+		{0xf900, 0xfaff, 1},
+		{0xfe10, 0xfe19, 1},
+		{0xfe30, 0xfe6f, 1},
+		{0xff01, 0xff60, 1},
+		{0xffe0, 0xffe6, 1},
+	},
+	R32: []unicode.Range32{
+		{0x16fe0, 0x18d08, 1},
+		{0x1aff0, 0x1b2fb, 1},
+		{0x20000, 0x2fffd, 1},
+		{0x30000, 0x3fffd, 1},
+	},
+}}
 
 func Width(r rune) int {
 	if unicode.IsOneOf(zeroWidth, r) {
-- 
2.43.0


From 48ae1b11f6d1ca993ae9107f8e36089e90bb428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 69/74] fix: SetAutoComplete dropped the history

---
 std.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std.go b/std.go
index 41bff62..c36fdad 100644
--- a/std.go
+++ b/std.go
@@ -44,6 +44,8 @@ func SetAutoComplete(completer AutoCompleter) {
 	ins := getInstance()
 	cfg := ins.Config.Clone()
 	cfg.AutoComplete = completer
+	// only the completer changes: the history stays
+	cfg.opHistory, cfg.opSearch = ins.Config.opHistory, ins.Config.opSearch
 	ins.SetConfig(cfg)
 }
 
-- 
2.43.0


From 8d317e67d2d48e74907cec711ebc92951fc8e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 70/74] fix: a search or a menu stays on the screen while it
 goes on

Tab in a search took the candidates off with it, Ctrl-R and Ctrl-S in a menu
did so with the search prompt, and a vim command or a key dropped by
FuncFilterInputRune redrew the line only.
---
 operation.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index f940fc7..aa75e6b 100644
--- a/operation.go
+++ b/operation.go
@@ -145,8 +145,8 @@ func (o *Operation) ioloop() {
 				o.t.KickRead()
 			}
 			if !process {
-				o.buf.Refresh(nil) // to refresh the line
-				continue           // ignore this rune
+				o.Refresh() // to refresh the line
+				continue    // ignore this rune
 			}
 		}
 
@@ -193,9 +193,14 @@ func (o *Operation) ioloop() {
 					// it did not end the line, so there is more to read
 					o.t.KickRead()
 				}
-				if !o.IsSearchMode() {
+				if o.IsSearchMode() {
+					o.SearchRefresh(-1)
+				} else {
 					o.history.Update(o.buf.Runes(), false)
 				}
+				if o.IsInCompleteMode() {
+					o.CompleteRefresh()
+				}
 				continue
 			}
 		}
@@ -388,12 +393,20 @@ func (o *Operation) ioloop() {
 		if !keepInSearchMode && o.IsSearchMode() {
 			o.ExitSearchMode(false)
 			o.buf.Refresh(nil)
+			if keepInCompleteMode {
+				// they were taken off with the search
+				o.CompleteRefresh()
+			}
 		} else if o.IsInCompleteMode() {
 			if !keepInCompleteMode {
 				o.ExitCompleteMode(false)
 				if !submitted && err == nil {
 					o.Refresh()
 				}
+				if keepInSearchMode {
+					// it was taken off with the candidates
+					o.SearchRefresh(-1)
+				}
 			} else {
 				o.buf.Refresh(nil)
 				o.CompleteRefresh()
-- 
2.43.0


From 0e4e18042f467192c502e7f9309b173783a41e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:59 +0000
Subject: [PATCH 71/74] fix: SetTitle sent a sequence terminals do not know

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index aa75e6b..3e895fe 100644
--- a/operation.go
+++ b/operation.go
@@ -544,7 +544,7 @@ func (o *Operation) Password(prompt string) ([]byte, error) {
 }
 
 func (o *Operation) SetTitle(t string) {
-	o.w.Write([]byte("\033[2;" + t + "\007"))
+	o.w.Write([]byte("\033]2;" + t + "\007"))
 }
 
 func (o *Operation) Slice() ([]byte, error) {
-- 
2.43.0


From 2a18459c4a1585b372cfc41e154a6ce1baefdb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:26 +0000
Subject: [PATCH 72/74] fix: a search went on in a history that is no longer in
 use

---
 operation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/operation.go b/operation.go
index 3e895fe..41cdec0 100644
--- a/operation.go
+++ b/operation.go
@@ -561,6 +561,7 @@ func (o *Operation) Close() {
 }
 
 func (o *Operation) SetHistoryPath(path string) {
+	o.leaveSearch()
 	if o.history != nil {
 		o.history.Close()
 	}
@@ -573,6 +574,13 @@ func (o *Operation) SetHistoryPath(path string) {
 	}
 }
 
+// a search does not go on in another history
+func (o *Operation) leaveSearch() {
+	if o.opSearch != nil && o.IsSearchMode() {
+		o.ExitSearchMode(false)
+	}
+}
+
 func (o *Operation) IsNormalMode() bool {
 	return !o.IsInCompleteMode() && !o.IsSearchMode()
 }
@@ -586,6 +594,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	if err := cfg.Init(); err != nil {
 		return op.cfg, err
 	}
+	op.leaveSearch()
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-- 
2.43.0


From 8d87ba7a8693e4f88a73a0baee1cbd6c0bb60a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:55 +0000
Subject: [PATCH 73/74] fix: a search laid itself out for the width there was
 when its config was last in use

---
 operation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operation.go b/operation.go
index 41cdec0..1f8a844 100644
--- a/operation.go
+++ b/operation.go
@@ -617,6 +617,8 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	}
 
 	op.opSearch = cfg.opSearch
+	// it may have changed since cfg was in use
+	op.opSearch.OnWidthChange(width)
 	return old, nil
 }
 
-- 
2.43.0


From 83f63f7e7861e3b2c825a719157e7ab2b552403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:14 +0000
Subject: [PATCH 74/74] fix: r and Escape put an Escape into the line

---
 vim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim.go b/vim.go
index 077a041..17bf8b5 100644
--- a/vim.go
+++ b/vim.go
@@ -59,7 +59,7 @@ func (o *opVim) handleVimNormalMovement(r rune, readNext func() rune) (t rune, h
 			rb.MoveBackward()
 		}
 	case 'r':
-		if next := readNext(); next != 0 { // io.EOF
+		if next := readNext(); next != 0 && next != CharEsc { // io.EOF
 			rb.Replace(next)
 		}
 	case 'd':
-- 
2.43.0

