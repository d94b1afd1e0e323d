From 93b22fe372b1858f07b9b7f19fcc40e7ea66f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 01/49] Put locks and goroutines behind a seam (verif build
 tag)

---
 backend.go      |   3 +-
 terminal.go     |   8 +--
 tty_frontend.go |   3 +-
 verif_off.go    |  12 +++++
 verif_on.go     | 129 ++++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 147 insertions(+), 8 deletions(-)
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/backend.go b/backend.go
index f2f66cb..eae9fac 100644
--- a/backend.go
+++ b/backend.go
@@ -6,7 +6,6 @@ import (
 	"os"
 	"os/exec"
 	"strings"
-	"sync"
 
 	"github.com/creack/pty"
 )
@@ -138,7 +137,7 @@ func (b *NoPTYBackend) Close() error {
 // TeeBackend duplicates all reads into tee.
 type TeeBackend struct {
 	backend Backend
-	mu      sync.Mutex
+	mu      mutex
 	tee     io.Writer
 }
 
diff --git a/terminal.go b/terminal.go
index 245d013..e1e234e 100644
--- a/terminal.go
+++ b/terminal.go
@@ -6,7 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
-	"sync"
+
 	"testing"
 )
 
@@ -30,7 +30,7 @@ type Terminal interface {
 }
 
 type terminal struct {
-	sync.Mutex
+	mutex
 
 	frontend    Frontend
 	onAltScreen bool
@@ -165,10 +165,10 @@ func (t *terminal) startReadLoop() {
 	if t.readLoopDone == nil {
 		t.readLoopDone = make(chan struct{})
 	}
-	go func() {
+	spawn(func() {
 		defer close(t.readLoopDone)
 		t.ptyReadLoop()
-	}()
+	})
 }
 
 // Line returns the plain text content of line y.
diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..11f93b0 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"sync"
 )
 
 const (
@@ -21,7 +20,7 @@ const (
 // TTYFrontend renders changed regions to a terminal (tty) output.
 // It can be attached to a region of the screen and detached to stop updates.
 type TTYFrontend struct {
-	mu       sync.Mutex
+	mu       mutex
 	term     Terminal
 	out      io.Writer
 	attached bool
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..fb4e923
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package termemu
+
+import "sync"
+
+// mutex is the lock used by the package. Builds with the verif tag replace it
+// with one whose scheduling a simulator decides.
+type mutex = sync.Mutex
+
+// spawn starts a background goroutine of the package.
+func spawn(f func()) { go f() }
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..02a0a7e
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,129 @@
+//go:build verif
+
+package termemu
+
+import "sync"
+
+// This file is only built with the verif tag. It puts the package's locks and
+// goroutines behind a scheduler supplied by a simulator, and lets the
+// simulator look at state that has no exported accessor.
+
+// VerifSched is implemented by the simulator. A nil VerifHooks means plain
+// locks and goroutines.
+type VerifSched interface {
+	// Lock and Unlock acquire and release the lock identified by l.
+	Lock(l *VerifLock)
+	TryLock(l *VerifLock) bool
+	Unlock(l *VerifLock)
+	// Spawn runs f as a new task.
+	Spawn(f func())
+}
+
+// VerifHooks is the scheduler in force. It must be set before any terminal is
+// created and not changed while one is in use.
+var VerifHooks VerifSched
+
+// VerifLock replaces sync.Mutex.
+type VerifLock struct {
+	mu sync.Mutex
+
+	// Owner and Data belong to the simulator.
+	Owner int
+	Data  any
+}
+
+type mutex = VerifLock
+
+func (l *VerifLock) Lock() {
+	if h := VerifHooks; h != nil {
+		h.Lock(l)
+		return
+	}
+	l.mu.Lock()
+}
+
+func (l *VerifLock) TryLock() bool {
+	if h := VerifHooks; h != nil {
+		return h.TryLock(l)
+	}
+	return l.mu.TryLock()
+}
+
+func (l *VerifLock) Unlock() {
+	if h := VerifHooks; h != nil {
+		h.Unlock(l)
+		return
+	}
+	l.mu.Unlock()
+}
+
+func spawn(f func()) {
+	if h := VerifHooks; h != nil {
+		h.Spawn(f)
+		return
+	}
+	go f()
+}
+
+// VerifNew is NewWithMode with a choice of screen buffer.
+func VerifNew(f Frontend, b Backend, mode TextReadMode, grid bool) Terminal {
+	t := newTerminal(f, b, mode)
+	if t == nil {
+		return nil
+	}
+	if grid {
+		t.mainScreen = newGridScreen(t.frontend)
+		t.altScreen = newGridScreen(t.frontend)
+	}
+	t.startReadLoop()
+	return t
+}
+
+// VerifLockOf returns the terminal's lock.
+func VerifLockOf(term Terminal) *VerifLock {
+	return &term.(*terminal).mutex
+}
+
+// VerifBuffer describes one of the two screen buffers.
+type VerifBuffer struct {
+	Size, Cursor Pos
+	Top, Bottom  int
+	AutoWrap     bool
+	Style        Style
+	screen       screen
+}
+
+// Line returns the whole row as StyledLine would for the active buffer.
+func (b VerifBuffer) StyledLine(x, w, y int) Line { return b.screen.StyledLine(x, w, y) }
+
+// ANSILine returns the row as ANSILine would for the active buffer.
+func (b VerifBuffer) ANSILine(y int) string { return b.screen.renderLineANSI(y) }
+
+func verifBuffer(s screen) VerifBuffer {
+	return VerifBuffer{
+		Size:     s.Size(),
+		Cursor:   s.CursorPos(),
+		Top:      s.TopMargin(),
+		Bottom:   s.BottomMargin(),
+		AutoWrap: s.AutoWrap(),
+		Style:    s.Style(),
+		screen:   s,
+	}
+}
+
+// VerifOnAlt reports which buffer is active.
+func VerifOnAlt(term Terminal) bool { return term.(*terminal).onAltScreen }
+
+// VerifActive and VerifInactive return the two buffers.
+func VerifActive(term Terminal) VerifBuffer { return verifBuffer(term.(*terminal).screen()) }
+
+func VerifInactive(term Terminal) VerifBuffer {
+	t := term.(*terminal)
+	if t.onAltScreen {
+		return verifBuffer(t.mainScreen)
+	}
+	return verifBuffer(t.altScreen)
+}
+
+// VerifKeyboardFlags returns the active screen's keyboard flags.
+func VerifKeyboardFlags(term Terminal) int { return term.(*terminal).keyboardFlags() }
-- 
2.43.0


From 78ed915a9dde6b2aebb8bd99aedd4ae18017bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 02/49] fix: cursor down clamps at the bottom of the screen
 instead of scrolling

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a70bc01..1bd0742 100644
--- a/escapes.go
+++ b/escapes.go
@@ -335,7 +335,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
 			if paramCount == 0 {
 				paramStore[0] = 1
-- 
2.43.0


From b7754286c9120e85a643129c68481cb645bbf24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 03/49] fix: a count parameter of zero means one

---
 escapes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/escapes.go b/escapes.go
index 1bd0742..08d98ba 100644
--- a/escapes.go
+++ b/escapes.go
@@ -320,6 +320,13 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	params := paramStore[:paramCount]
 
+	if prefix == 0 && paramCount > 0 && params[0] == 0 {
+		switch b {
+		case 'A', 'B', 'C', 'D', 'L', 'M', 'P', 'S', 'T', 'X': // a count of zero means one
+			params[0] = 1
+		}
+	}
+
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-- 
2.43.0


From a69a3c5602d3a52688c75042cc64ad0375eb553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 04/49] fix: fold every CSI parameter and bound parameter
 values

---
 escapes.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/escapes.go b/escapes.go
index 08d98ba..01ac528 100644
--- a/escapes.go
+++ b/escapes.go
@@ -19,6 +19,10 @@ var colorModes = [7]Mode{
 	ModeInvisible, // SGR 8
 }
 
+// maxCSIParam bounds the value of a CSI parameter, so that arithmetic on it
+// cannot overflow.
+const maxCSIParam = 1 << 24
+
 func (t *terminal) ptyReadLoop() {
 	reader := bufio.NewReader(t.backend)
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
@@ -276,6 +280,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
 	var paramStore [8]int
+	params := paramStore[:0]
 	paramCount := 0
 	param := 0
 	paramSet := false
@@ -286,15 +291,15 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if paramSet || sawSeparator || paramCount > 0 {
 				value = param
 			}
-			if paramCount < len(paramStore) {
-				paramStore[paramCount] = value
-				paramCount++
-			}
+			params = append(params, value)
+			paramCount++
 			param = 0
 			paramSet = false
 			sawSeparator = true
 		} else {
-			param = param*10 + int(b-'0')
+			if param < maxCSIParam {
+				param = param*10 + int(b-'0')
+			}
 			paramSet = true
 			sawSeparator = false
 		}
@@ -312,14 +317,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		if paramSet {
 			value = param
 		}
-		if paramCount < len(paramStore) {
-			paramStore[paramCount] = value
-			paramCount++
-		}
+		params = append(params, value)
+		paramCount++
 	}
 
-	params := paramStore[:paramCount]
-
 	if prefix == 0 && paramCount > 0 && params[0] == 0 {
 		switch b {
 		case 'A', 'B', 'C', 'D', 'L', 'M', 'P', 'S', 'T', 'X': // a count of zero means one
-- 
2.43.0


From d67058d62355614fe26b45c09c61464f78f4d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 05/49] fix: consume CSI sequences with unknown parameter or
 intermediate bytes whole

---
 escapes.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/escapes.go b/escapes.go
index 01ac528..3698aac 100644
--- a/escapes.go
+++ b/escapes.go
@@ -321,6 +321,24 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		paramCount++
 	}
 
+	unknown := false
+	for b >= 0x20 && b <= 0x3f {
+		// Parameter or intermediate bytes of a sequence we don't know. Consume
+		// the rest of it.
+		unknown = true
+		b, err = r.ReadByte()
+		if err != nil {
+			if err != io.EOF {
+				debugPrintln(debugErrors, "ERR ReadByte10:", err)
+			}
+			return true
+		}
+	}
+	if unknown {
+		debugPrintf(debugTodo, "TODO: Unhandled CSI sequence: %#v %v %#v\n", string(prefix), append([]int(nil), params...), string(b))
+		return true
+	}
+
 	if prefix == 0 && paramCount > 0 && params[0] == 0 {
 		switch b {
 		case 'A', 'B', 'C', 'D', 'L', 'M', 'P', 'S', 'T', 'X': // a count of zero means one
-- 
2.43.0


From 8487883ce97c55bff5a85f6b9e44575ef571947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 06/49] fix: consume ESC sequences with intermediate bytes
 whole

---
 escapes.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/escapes.go b/escapes.go
index 3698aac..b33c103 100644
--- a/escapes.go
+++ b/escapes.go
@@ -218,6 +218,8 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	case ']': // OSC Operating System Commands
 		return t.handleCmdOSC(r)
 
+	case ' ', '!', '"', '#', '$', '%', '&', '\'', ',', '-', '.', '/': // other intermediates
+		fallthrough
 	case '(': // G0
 		fallthrough
 	case ')': // G1
@@ -225,14 +227,16 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	case '*': // G2
 		fallthrough
 	case '+': // G3
-		C, err := r.ReadByte()
-		if err != nil {
-			if err != io.EOF {
-				debugPrintln(debugErrors, "ERR ReadByte4:", err)
+		C := b
+		for C >= 0x20 && C <= 0x2f { // more intermediates, up to the final byte
+			C, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte4:", err)
+				}
+				return false
 			}
-			return false
 		}
-		_ = C
 		return true
 
 	case '=': // Application Keypad
-- 
2.43.0


From 7d33c07893bb85e4300ad3e268e2db4fbd29e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 07/49] fix: find the end of OSC and DCS strings, including
 ones without a payload or with UTF-8 in it

---
 escapes.go | 69 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/escapes.go b/escapes.go
index b33c103..0e62d41 100644
--- a/escapes.go
+++ b/escapes.go
@@ -941,7 +941,34 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	return true
 }
 
+// stScanner recognises the string terminator of an OSC or DCS sequence, either
+// ESC \ or a 0x9c byte that is not part of a UTF-8 character.
+type stScanner struct {
+	prev byte
+	cont int // continuation bytes still expected
+}
+
+func (s *stScanner) isST(b byte) bool {
+	prev := s.prev
+	s.prev = b
+	switch {
+	case b >= 0x80 && b <= 0xbf && s.cont > 0:
+		s.cont--
+		return false
+	case b >= 0xc2 && b <= 0xdf:
+		s.cont = 1
+	case b >= 0xe0 && b <= 0xef:
+		s.cont = 2
+	case b >= 0xf0 && b <= 0xf4:
+		s.cont = 3
+	default:
+		s.cont = 0
+	}
+	return b == 0x9c || (prev == 27 && b == '\\')
+}
+
 func (t *terminal) handleCmdOSC(r escapeReader) bool {
+	var st stScanner
 	paramBytes := []byte{}
 	var err error
 	var b byte
@@ -961,7 +988,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 		}
 	}
 
-	param, _ := strconv.Atoi(string(paramBytes))
+	param, numErr := strconv.Atoi(string(paramBytes))
 
 	param2 := []byte{}
 
@@ -975,18 +1002,37 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 				}
 				return false
 			}
-			if b == 7 || b == 0x9c { // BEL , ST
+			if b == 7 { // BEL
 				break
 			}
-			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
-				param2 = param2[:len(param2)-1]
+			if st.isST(b) {
+				if b == '\\' { // ESC \ is also ST
+					param2 = param2[:len(param2)-1]
+				}
 				break
 			}
 
 			param2 = append(param2, byte(b))
 		}
-	} else if b != 7 && b != 0x9c { // BEL, ST
-		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
+	} else if b != 7 && !st.isST(b) { // BEL, ST
+		if b != 27 {
+			debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
+			numErr = strconv.ErrSyntax
+		}
+		for b != 7 { // consume the rest of it
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte11:", err)
+				}
+				return false
+			}
+			if st.isST(b) {
+				break
+			}
+		}
+	}
+	if numErr != nil {
 		return false
 	}
 
@@ -1031,7 +1077,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 }
 
 func (t *terminal) handleDCS(r escapeReader) bool {
-	prev := byte(0)
+	var st stScanner
 	var payload []byte
 	for {
 		b, err := r.ReadByte()
@@ -1041,13 +1087,7 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			}
 			return false
 		}
-		if b == 0x9c {
-			if *debugCmd {
-				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
-			}
-			return true
-		}
-		if prev == 27 && b == '\\' {
+		if st.isST(b) {
 			if *debugCmd {
 				if len(payload) > 0 && payload[len(payload)-1] == 27 {
 					payload = payload[:len(payload)-1]
@@ -1059,6 +1099,5 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 		if *debugCmd {
 			payload = append(payload, b)
 		}
-		prev = b
 	}
 }
-- 
2.43.0


From e130bd5bc14d7186ea91f4379febe6395443f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 08/49] fix: answer a primary device attributes request without
 a parameter

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 0e62d41..00a67ea 100644
--- a/escapes.go
+++ b/escapes.go
@@ -391,7 +391,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if paramCount == 0 {
-				paramStore[0] = 1
+				paramStore[0] = 0
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-- 
2.43.0


From 2ce2316bb55da4056494f56a3131150dcdf8dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 09/49] fix: erase to start of line includes the cursor cell

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 00a67ea..c47ed59 100644
--- a/escapes.go
+++ b/escapes.go
@@ -597,7 +597,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From e987bf7910dc76622b5cd0dfc85fefd742b978d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 10/49] fix: ignore scroll margins whose top lies below the
 bottom, and default a zero bottom

---
 escapes.go     | 2 +-
 screen.go      | 3 +++
 screen_grid.go | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index c47ed59..75eca0e 100644
--- a/escapes.go
+++ b/escapes.go
@@ -725,7 +725,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if len(params) >= 1 {
 				top = params[0]
 			}
-			if len(params) >= 2 {
+			if len(params) >= 2 && params[1] != 0 {
 				bottom = params[1]
 			}
 			// debugPrintf("cursor home: %v, %v\n", x, y)
diff --git a/screen.go b/screen.go
index 4d652f9..78aa654 100644
--- a/screen.go
+++ b/screen.go
@@ -426,6 +426,9 @@ func (s *spanScreen) setCursorPos(x, y int) {
 
 func (s *spanScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
+	if top > bottom {
+		return
+	}
 	s.topMargin = clamp(top, 0, s.size.Y-1)
 	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..d27a8fd 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -567,6 +567,9 @@ func (s *gridScreen) setCursorPos(x, y int) {
 
 func (s *gridScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
+	if top > bottom {
+		return
+	}
 	s.topMargin = clamp(top, 0, s.size.Y-1)
 	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
 }
-- 
2.43.0


From 30e941975c627a45da07d743ca9daf6b890c3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 11/49] fix: alternate screen mode is level-triggered and
 switching announces cursor and style

---
 escapes.go  | 4 +++-
 terminal.go | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 75eca0e..0045b6f 100644
--- a/escapes.go
+++ b/escapes.go
@@ -848,7 +848,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					if value != t.onAltScreen {
+						t.switchScreen()
+					}
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
diff --git a/terminal.go b/terminal.go
index e1e234e..0e69e3b 100644
--- a/terminal.go
+++ b/terminal.go
@@ -330,6 +330,15 @@ func (t *terminal) switchScreen() {
 	t.onAltScreen = !t.onAltScreen
 	size := t.screen().Size()
 	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	t.announceScreen()
+}
+
+// announceScreen tells the frontend the cursor position and style of the active
+// screen.
+func (t *terminal) announceScreen() {
+	pos := t.screen().CursorPos()
+	t.frontend.CursorMoved(pos.X, pos.Y)
+	t.frontend.StyleChanged(t.screen().Style())
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From 90e32bf42a758f40d016674816467fb2d0013118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 12/49] fix: release the terminal lock while waiting for the
 rest of an escape sequence

---
 escapes.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 0045b6f..f144846 100644
--- a/escapes.go
+++ b/escapes.go
@@ -140,9 +140,10 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	case 27: // ESC ^[ Escape Character
 
 		t.WithLock(func() {
+			er := &unlockingReader{t: t, gr: gr}
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: er, buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -152,7 +153,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(er)
 			}
 		})
 
@@ -171,6 +172,21 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// unlockingReader reads the rest of an escape sequence. It is used with the
+// terminal lock held, and releases the lock while it waits for more input.
+type unlockingReader struct {
+	t  *terminal
+	gr *GraphemeReader
+}
+
+func (u *unlockingReader) ReadByte() (byte, error) {
+	if u.gr.Buffered() == 0 {
+		u.t.Unlock()
+		defer u.t.Lock()
+	}
+	return u.gr.ReadByte()
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
-- 
2.43.0


From fa93e4ac0a498c4f73afa583dcbcc8b7253da1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 13/49] fix: read the screen state text is written to under the
 terminal lock

---
 escapes.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/escapes.go b/escapes.go
index f144846..b555ab9 100644
--- a/escapes.go
+++ b/escapes.go
@@ -35,17 +35,23 @@ func (t *terminal) ptyReadLoop() {
 }
 
 func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
-	bw, useBytes := t.screen().(interface {
+	var bw interface {
 		writeString(string, int, bool, TextReadMode)
-	})
-	if useBytes {
-		maxWidth := 0
+	}
+	useBytes := false
+	maxWidth := 0
+	t.WithLock(func() {
+		bw, useBytes = t.screen().(interface {
+			writeString(string, int, bool, TextReadMode)
+		})
 		if t.screen().AutoWrap() {
 			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
 			if maxWidth < 1 {
 				maxWidth = 1
 			}
 		}
+	})
+	if useBytes {
 		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
 		if err != nil {
 			if err != io.EOF {
-- 
2.43.0


From eb9cd70aa3192d57e10be7ea11f451ed5bd02a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 14/49] fix: keep reading after an empty read and do not read
 past a reported error

---
 grapheme_reader.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..8b79053 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -37,6 +37,7 @@ type GraphemeReader struct {
 	forceMergeNext bool
 	lastWasRI      bool
 	mode           TextReadMode
+	err            error // reported by src along with data, not returned yet
 }
 
 const graphemeReadBufferSize = 4096
@@ -115,11 +116,8 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 				before := r.Buffered()
 				err := r.fill()
 				runStart = r.start
-				if r.Buffered() == before {
-					if err != nil {
-						return "", 0, false, err
-					}
-					return "", 0, false, io.EOF
+				if r.Buffered() == before && err != nil {
+					return "", 0, false, err
 				}
 				continue
 			}
@@ -192,11 +190,8 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 			}
 			before := r.Buffered()
 			err := r.fill()
-			if r.Buffered() == before {
-				if err != nil {
-					return nil, err
-				}
-				return nil, io.EOF
+			if r.Buffered() == before && err != nil {
+				return nil, err
 			}
 			continue
 		}
@@ -237,9 +232,16 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
+	if r.err != nil {
+		err := r.err
+		r.err = nil
+		return err
+	}
 	n, err := r.src.Read(r.data[r.end:])
 	if n > 0 {
 		r.end += n
+		r.err = err
+		return nil
 	}
 	return err
 }
-- 
2.43.0


From d528d7be66eaa2b0fac7f724284f7179e83abae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 15/49] fix: segment text independently of what was buffered or
 read before it

---
 grapheme_reader.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 8b79053..7c4cfce 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -65,6 +65,10 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// Text does not combine across control bytes.
+	r.state = -1
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
@@ -282,13 +286,18 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 		return nil, 0, 0, state, false
 	}
 	width := boundaries >> uniseg.ShiftWidth
+	if width <= 0 {
+		width = 1
+	}
 	consumed := len(buf) - len(rest)
 	return cluster, consumed, width, newState, true
 }
 
 func (r *GraphemeReader) nextTokenInfo(buf []byte) ([]byte, int, int, bool, int, bool, bool, bool) {
 	if r.mode == TextReadModeGrapheme {
-		return nextGraphemeTokenInfo(buf, r.state, r.forceMergeNext, r.lastWasRI)
+		// The state uniseg returned describes the text as it was buffered then,
+		// which may have ended here. Clusters don't need it: segment afresh.
+		return nextGraphemeTokenInfo(buf, -1, r.forceMergeNext, r.lastWasRI)
 	}
 	return nextRuneTokenInfo(buf, r.state, r.forceMergeNext, r.lastWasRI)
 }
@@ -324,7 +333,9 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	case isVariationSelectorOnly(cluster):
 		merge = true
 	case isRegionalIndicator(cluster):
-		if nextLastWasRI {
+		if utf8.RuneCount(cluster) > 1 { // a complete flag
+			nextLastWasRI = false
+		} else if nextLastWasRI {
 			merge = true
 			nextLastWasRI = false
 		} else {
-- 
2.43.0


From e896a413c906276fdfb81b2828a306d3f735bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 16/49] fix: store U+FFFD for bytes that are not valid UTF-8

---
 grapheme_reader.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 7c4cfce..a1a7ee2 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -152,7 +152,7 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 	if r.start == runStart {
 		return "", 0, false, nil
 	}
-	out := string(r.data[runStart:r.start])
+	out := validText(r.data[runStart:r.start])
 	return out, widthUsed, mergeRun, nil
 }
 
@@ -207,7 +207,7 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 		if maxWidth > 0 && widthUsed+tokenWidth > maxWidth && len(out) > 0 {
 			return out, nil
 		}
-		tokenBytes := append([]byte(nil), cluster...)
+		tokenBytes := []byte(validText(cluster))
 		out = append(out, GraphemeToken{Bytes: tokenBytes, Width: width, Merge: merge})
 		widthUsed += tokenWidth
 		r.start += consumed
@@ -250,6 +250,16 @@ func (r *GraphemeReader) fill() error {
 	return err
 }
 
+// validText returns b with every byte that is not part of a valid UTF-8
+// encoding replaced by U+FFFD, so that it cannot become part of a character
+// when it ends up next to other text.
+func validText(b []byte) string {
+	if utf8.Valid(b) {
+		return string(b)
+	}
+	return string([]rune(string(b)))
+}
+
 func isPrintableByte(b byte) bool {
 	return b >= 32 && b != 127
 }
-- 
2.43.0


From f4141a5e7d511cf2fd7c50faca9907cffc1763c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 17/49] fix: clamp a region's bottom to the bottom of the
 bounds

---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From ff4ce4855b8da2a31adb0d79c88ae65c147313c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 18/49] fix: limit scrolling to the scroll region and start it
 only from inside

---
 escapes.go     |  8 ++++++--
 screen.go      | 12 ++++++------
 screen_grid.go | 18 ++++++------------
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/escapes.go b/escapes.go
index b555ab9..c096463 100644
--- a/escapes.go
+++ b/escapes.go
@@ -694,7 +694,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			if t.screen().CursorPos().Y >= t.screen().TopMargin() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if paramCount == 0 {
@@ -702,7 +704,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			if t.screen().CursorPos().Y >= t.screen().TopMargin() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if paramCount == 0 {
diff --git a/screen.go b/screen.go
index 78aa654..4333494 100644
--- a/screen.go
+++ b/screen.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 )
 
@@ -438,8 +437,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	y1 = clamp(y1, 0, s.size.Y-1)
 	y2 = clamp(y2, 0, s.size.Y-1)
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, y1-y2-1, y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
@@ -468,6 +468,7 @@ func (s *spanScreen) clampRegion(r Region) Region {
 }
 
 func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	startY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -485,17 +486,16 @@ func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		if s.cursorPos.Y < s.topMargin && startY >= s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if s.cursorPos.Y > s.bottomMargin && startY <= s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
diff --git a/screen_grid.go b/screen_grid.go
index d27a8fd..1fa5621 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 	"unicode/utf8"
 
@@ -582,8 +581,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// 	fmt.Println("scroll outside margin", y, s.topMargin, s.bottomMargin)
 	// }
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, y1-y2-1, y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
@@ -632,6 +632,7 @@ func (s *gridScreen) clampRegion(r Region) Region {
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	startY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -649,23 +650,16 @@ func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		if s.cursorPos.Y < s.topMargin && startY >= s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if s.cursorPos.Y > s.bottomMargin && startY <= s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
-			s.cursorPos.Y += s.size.Y
-		}
-		for s.cursorPos.Y >= s.size.Y {
-			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
-- 
2.43.0


From 5d99f584bafe3da848ce293b05ac9656b24a7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 19/49] fix: Resize locks the terminal, keeps cursor and
 margins inside and announces the screen

---
 screen.go      | 13 +++++++------
 screen_grid.go | 13 +++++++------
 terminal.go    |  7 +++++++
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/screen.go b/screen.go
index 4333494..fa188a3 100644
--- a/screen.go
+++ b/screen.go
@@ -274,18 +274,19 @@ func (s *spanScreen) setSize(w, h int) {
 	s.lines = newLines
 
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	if s.bottomMargin < s.topMargin {
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, w-1)
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 1fa5621..78bc329 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -267,16 +267,17 @@ func (s *gridScreen) setSize(w, h int) {
 	s.cellStyles = styleRect
 
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	if s.bottomMargin < s.topMargin {
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
 	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, w-1)
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
 
 	s.setStyle(s.style)
 }
diff --git a/terminal.go b/terminal.go
index 0e69e3b..b55db4f 100644
--- a/terminal.go
+++ b/terminal.go
@@ -143,9 +143,16 @@ type winsize struct {
 	wsYPixel uint16
 }
 
+// Resize changes the size of both screens and of the backend. The caller must
+// not hold the terminal lock.
 func (t *terminal) Resize(w, h int) error {
+	t.Lock()
+	defer t.Unlock()
+
 	t.mainScreen.setSize(w, h)
 	t.altScreen.setSize(w, h)
+	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: w, Y2: h}, CRRedraw)
+	t.announceScreen()
 
 	if t.backend == nil {
 		return nil
-- 
2.43.0


From d5a6113a2a20c77c28682af49476865ed5b0858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 20/49] fix: compare whole styles and keep spans non-empty when
 replacing part of a row

---
 screen.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/screen.go b/screen.go
index fa188a3..ad7a5c3 100644
--- a/screen.go
+++ b/screen.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type screen interface {
@@ -622,7 +623,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		return left, right, Span{}
 	}
 
-	if mode == TextReadModeRune && sp.Width == len(sp.Text) {
+	if mode == TextReadModeRune && isSingleByteCells(sp) {
 		// Simple mode where each rune is one cell - can't have wide clusters
 		leftText := sp.Text[:cellOffset]
 		rightText := sp.Text[cellOffset:]
@@ -697,6 +698,19 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 	return left, right, Span{}
 }
 
+// isSingleByteCells reports whether every byte of the span's text is one cell.
+func isSingleByteCells(sp Span) bool {
+	if sp.Width != len(sp.Text) {
+		return false
+	}
+	for i := 0; i < len(sp.Text); i++ {
+		if sp.Text[i] >= utf8.RuneSelf {
+			return false
+		}
+	}
+	return true
+}
+
 func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int) {
 	if cellOffset <= 0 || len(text) == 0 {
 		return 0, 0
@@ -798,7 +812,9 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	spans := line.spans
 	// Handle empty lines by inserting directly.
 	if len(spans) == 0 {
-		line.spans = append(line.spans[:0], insert)
+		if insert.Width > 0 {
+			line.spans = append(line.spans[:0], insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -852,7 +868,10 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		}
 	}
 	if x == 0 && n >= totalWidth {
-		line.spans = append(line.spans[:0], insert)
+		line.spans = line.spans[:0]
+		if insert.Width > 0 {
+			line.spans = append(line.spans, insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -870,20 +889,19 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	if startIdx == endIdx {
 		sp := spans[startIdx]
 		if startOffset == 0 && endOffset == sp.Width {
-			spans[startIdx] = insert
+			if insert.Width > 0 {
+				spans[startIdx] = insert
+			} else {
+				line.spans = append(spans[:startIdx], spans[startIdx+1:]...)
+			}
 			line.width = totalWidth - n + insert.Width
 			return
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
+		if insert.Width == n && sp.Style == insert.Style {
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) {
+			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && isSingleByteCells(sp) && isSingleByteCells(insert) {
 				sp.Text = sp.Text[:startOffset] + insert.Text + sp.Text[startOffset+n:]
 				spans[startIdx] = sp
 				line.width = totalWidth
-- 
2.43.0


From 294e346d5674d345897b7602ad8547d863c1141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 21/49] fix: StyledLine keeps its width when an edge cuts a
 wide character

---
 screen.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/screen.go b/screen.go
index ad7a5c3..4b7548a 100644
--- a/screen.go
+++ b/screen.go
@@ -201,13 +201,22 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 			} else {
 				// We need a sub-span
 				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
+				// Spaces stand in for the cells of a wide character cut at the edges
+				if pad := sp.Width - offset - sub.Width; pad > 0 {
+					pad = min(pad, width)
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: pad})
+					width -= pad
+				}
 				// now sub is from offset to end. we might need to truncate it if it's too long
 				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
+					sub, _, _ = splitSpan(sub, width, s.textMode)
+				}
+				if sub.Width > 0 {
 					spans = append(spans, sub)
 				}
+				if pad := width - sub.Width; pad > 0 {
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: pad})
+				}
 			}
 		}
 
-- 
2.43.0


From d54f676b7eaa6f8682db30d202c8e5cfa5163d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 22/49] fix: writes, erases and resizes never leave half a wide
 character, and text is written per row

---
 screen.go | 108 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 91 insertions(+), 17 deletions(-)

diff --git a/screen.go b/screen.go
index 4b7548a..f95576d 100644
--- a/screen.go
+++ b/screen.go
@@ -330,22 +330,47 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		s.mergeIntoPreviousCell(text)
 		return
 	}
-	if width < 1 {
-		width = 1
-	}
-	if width > s.size.X {
-		width = s.size.X
+	for len(text) > 0 {
+		part, width := s.textForRow(text)
+		text = text[len(part):]
+		if width > s.size.X { // a character that is wider than the screen
+			part, width = " ", 1
+		}
+		if s.cursorPos.X+width > s.size.X {
+			if s.autoWrap {
+				s.moveCursor(-s.cursorPos.X, 1, false, true)
+			} else {
+				s.cursorPos.X = s.size.X - width
+			}
+		}
+		sp := Span{Style: s.style, Text: part, Width: width}
+		end := s.writeSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
+		s.moveCursor(end-s.cursorPos.X, 0, true, true)
 	}
-	if s.cursorPos.X+width > s.size.X {
-		if s.autoWrap {
-			s.moveCursor(-s.cursorPos.X, 1, false, true)
-		} else {
-			s.cursorPos.X = s.size.X - width
+}
+
+// textForRow returns as much of the start of text as fits on the rest of the
+// cursor's row, and its width. It is at least one character, and just one when
+// the cursor is inside a wide character.
+func (s *spanScreen) textForRow(text string) (string, int) {
+	room := s.size.X - s.cursorPos.X
+	if _, end := wideAcross(&s.lines[s.cursorPos.Y], s.cursorPos.X, s.textMode); end > s.cursorPos.X {
+		room = 1
+	}
+	idx, width, state := 0, 0, -1
+	for idx < len(text) {
+		_, consumed, w, newState, ok := stepTextCluster([]byte(text[idx:]), state, s.textMode)
+		if !ok || consumed <= 0 {
+			return text, max(width, 1)
+		}
+		if idx > 0 && width+w > room {
+			break
 		}
+		idx += consumed
+		width += w
+		state = newState
 	}
-	sp := Span{Style: s.style, Text: text, Width: width}
-	s.rawWriteSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
-	s.moveCursor(width, 0, true, true)
+	return text[:idx], width
 }
 
 func (s *spanScreen) insertRunes(b []rune) {
@@ -370,14 +395,60 @@ func (s *spanScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
+	s.writeSpan(x, y, sp, cr)
+}
+
+// writeSpan writes sp at x, or after the wide character that x is in the
+// middle of if there is room for that. It returns the column after the span.
+func (s *spanScreen) writeSpan(x int, y int, sp Span, cr ChangeReason) int {
 	if sp.Width <= 0 {
-		return
+		return x
 	}
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
-	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
+	line := &s.lines[y]
+	changed := Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}
+	if _, end := wideAcross(line, x, s.textMode); end > x && sp.Text != "" && end+sp.Width <= s.size.X {
+		// Keep the wide character and shift the rest of the row
+		n := min(end-x, sp.Width)
+		insertSpan(line, end, Span{Style: s.style, Rune: ' ', Width: n}, s.textMode)
+		blankAcross(line, s.size.X, s.style, s.textMode)
+		truncateLine(line, s.size.X, s.textMode)
+		x = end
+		changed.X, changed.X2 = x, s.size.X
+	}
+	start, _ := blankAcross(line, x, s.style, s.textMode)
+	_, end := blankAcross(line, x+sp.Width, s.style, s.textMode)
+	changed.X, changed.X2 = min(changed.X, start), max(changed.X2, end)
+	replaceRange(line, x, sp.Width, sp, s.textMode)
+	s.frontend.RegionChanged(changed, cr)
+	return x + sp.Width
+}
+
+// wideAcross returns the columns of the character that column x of the line
+// is inside of, or x, x if a character starts there.
+func wideAcross(line *spanLine, x int, mode TextReadMode) (int, int) {
+	idx, offset := findSpanAtX(line, x)
+	if offset <= 0 || idx >= len(line.spans) {
+		return x, x
+	}
+	left, _, wide := splitSpan(line.spans[idx], offset, mode)
+	if wide.Width == 0 || left.Width == offset {
+		return x, x
+	}
+	start := x - offset + left.Width
+	return start, start + wide.Width
+}
+
+// blankAcross replaces the character that column x of the line is inside of,
+// if any, by blanks. It returns the columns it changed, or x, x.
+func blankAcross(line *spanLine, x int, style Style, mode TextReadMode) (int, int) {
+	start, end := wideAcross(line, x, mode)
+	if start < end {
+		replaceRange(line, start, end-start, Span{Style: style, Rune: ' ', Width: end - start}, mode)
+	}
+	return start, end
 }
 
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -415,6 +486,8 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 	}
 
 	line := &s.lines[y]
+	start, _ := blankAcross(line, x, s.style, s.textMode)
+	blankAcross(line, x+n, s.style, s.textMode)
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
 	replaceRange(line, x, n, Span{}, s.textMode)
 	// Now append spaces to fill the end to width s.size.X
@@ -424,7 +497,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		line.width = s.size.X
 	}
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: s.size.X}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: s.size.X}, cr)
 }
 
 func (s *spanScreen) setCursorPos(x, y int) {
@@ -589,6 +662,7 @@ func blankSpanLine(width int, style Style) spanLine {
 func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	cur := lineCellWidth(line)
 	if cur > width {
+		blankAcross(line, width, style, mode)
 		truncateLine(line, width, mode)
 		return
 	}
-- 
2.43.0


From d769f3a55b9507127bc14536a862ff54152637f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 23/49] fix: merge text into the previous cell only when they
 form one character

---
 grapheme_reader.go |  5 ++++
 screen.go          | 69 +++++++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index a1a7ee2..54ee9ea 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -361,6 +361,11 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	return cluster, consumed, width, merge, newState, nextForceMergeNext, nextLastWasRI, true
 }
 
+// isMergeOnly reports whether b only makes sense merged into other text.
+func isMergeOnly(b []byte) bool {
+	return isCombiningOnly(b) || isVariationSelectorOnly(b) || isZWJOnly(b)
+}
+
 func isCombiningOnly(b []byte) bool {
 	if len(b) == 0 {
 		return false
diff --git a/screen.go b/screen.go
index f95576d..8648dc6 100644
--- a/screen.go
+++ b/screen.go
@@ -1127,46 +1127,53 @@ func truncateLine(line *spanLine, width int, mode TextReadMode) {
 	replaceRange(line, width, lineCellWidth(line)-width, Span{}, mode)
 }
 
+// mergeIntoPreviousCell adds fragments to the character before the cursor.
+// Fragments that don't combine with it are written as text of their own, or
+// dropped if they cannot stand alone.
 func (s *spanScreen) mergeIntoPreviousCell(text string) {
+	state := -1
+	for len(text) > 0 {
+		fragment, consumed, width, newState, ok := stepTextCluster([]byte(text), state, s.textMode)
+		if !ok || consumed <= 0 {
+			return
+		}
+		text = text[consumed:]
+		state = newState
+		if !s.mergeFragment(string(fragment)) && !isMergeOnly(fragment) {
+			s.writeString(string(fragment), width, false, s.textMode)
+		}
+	}
+}
+
+func (s *spanScreen) mergeFragment(fragment string) bool {
 	if s.cursorPos.X <= 0 {
-		return
+		return false
 	}
 	y := s.cursorPos.Y
 	line := &s.lines[y]
-	cell := s.cursorPos.X - 1
-
-	// Find the span at cell position
-	idx, offset := findSpanAtX(line, cell)
-	if idx >= len(line.spans) {
-		return
+	start, end := wideAcross(line, s.cursorPos.X-1, s.textMode)
+	if start == end {
+		start, end = s.cursorPos.X-1, s.cursorPos.X
 	}
-
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
-
-		// Now the cell we want to merge into is at idx+1
-		idx++
+	if _, wideEnd := wideAcross(line, end, s.textMode); wideEnd > end { // the cursor is inside of it
+		end = wideEnd
 	}
-
-	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
+	prev := s.StyledLine(start, end-start, y).Spans
+	if len(prev) != 1 {
+		return false
+	}
+	sp := prev[0]
 	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
+		sp.Text = string(sp.Rune)
 	}
-	sp.Text += text
-	// Width doesn't change for merge
-
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
+	sp.Text += fragment
+	cluster, _, width, _, ok := stepTextCluster([]byte(sp.Text), -1, s.textMode)
+	if !ok || len(cluster) != len(sp.Text) || width != sp.Width {
+		return false
+	}
+	replaceRange(line, start, end-start, sp, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: end}, CRText)
+	return true
 }
 
 func max(a, b int) int {
-- 
2.43.0


From 56dee57c4b95262bf6b6113b6b672b8d7a2297cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 24/49] fix: the grid screen stores whole characters and never
 leaves half of one

---
 screen_grid.go | 202 +++++++++++++++++++++++--------------------------
 1 file changed, 96 insertions(+), 106 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 78bc329..dad9daa 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -113,14 +113,14 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		}
 
 		// For this run, check if we can represent it as a single repeat or simple text
-		// We have text[start:start+width] and cellText[start:start+width]
+		// We have cellText[start:start+width]
 
-		// Optimization: check if all runes are same and simple (width 1)
+		// Optimization: check if all cells are same and simple (a single rune of width 1)
 		firstRune := text[start]
 		isRepeat := true
 		for k := 0; k < width; k++ {
 			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
+			if cellText[idx] != string(firstRune) || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
 				isRepeat = false
 				break
 			}
@@ -131,21 +131,19 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		} else {
 			// Construct text for span
 			var sb strings.Builder
-			spanWidth := 0
-			for k := 0; k < width; k++ {
-				idx := start + k
-				if s.cellCont[y][idx] {
-					// continuation cell, don't add text, it's part of previous
-					spanWidth++ // visual width increases
+			for idx := start; idx < start+width; {
+				w := int(s.cellWidth[y][idx])
+				if s.cellCont[y][idx] || idx+w > start+width {
+					// part of a wide character that is cut off by the edge
+					sb.WriteByte(' ')
+					idx++
 					continue
 				}
-				// It's a start of a char
-				// If visual width is > 1, next cells will be cont.
 				sb.WriteString(cellText[idx])
-				spanWidth++
+				idx += w
 			}
 
-			spans = append(spans, Span{Style: style, Text: sb.String(), Width: spanWidth})
+			spans = append(spans, Span{Style: style, Text: sb.String(), Width: width})
 		}
 	}
 	return Line{
@@ -172,9 +170,7 @@ func (s *gridScreen) renderLineANSI(y int) string {
 		buf.Write(currentStyle.ANSIEscape())
 
 		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
-			}
+			buf.WriteString(s.cellText[y][x])
 			x++
 		}
 	}
@@ -266,6 +262,26 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
+	if w < prevW {
+		for y := 0; y < minH; y++ { // blank the wide characters that were cut
+			for x := w - 1; x >= 0; x-- {
+				if cellCont[y][x] {
+					continue
+				}
+				if x+int(cellWidth[y][x]) > w {
+					for i := x; i < w; i++ {
+						rect[y][i] = ' '
+						cellText[y][i] = " "
+						cellWidth[y][i] = 1
+						cellCont[y][i] = false
+						styleRect[y][i] = s.style
+					}
+				}
+				break
+			}
+		}
+	}
+
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
 	if s.bottomMargin < s.topMargin {
 		s.topMargin, s.bottomMargin = 0, h-1
@@ -299,19 +315,7 @@ func (s *gridScreen) eraseRegion(r Region, cr ChangeReason) {
 // the bytes are printable bytes
 func (s *gridScreen) writeRunes(b []rune) {
 	for _, r := range b {
-		width := runeCellWidth(r)
-		if width > s.size.X {
-			width = s.size.X
-		}
-		if s.cursorPos.X+width > s.size.X {
-			if s.autoWrap {
-				s.moveCursor(-s.cursorPos.X, 1, false, true)
-			} else {
-				s.cursorPos.X = s.size.X - width
-			}
-		}
-		s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-		s.moveCursor(width, 0, true, true)
+		s.writeText(string(r), runeCellWidth(r))
 	}
 }
 
@@ -325,59 +329,51 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 			s.mergeIntoPreviousCell(text)
 			continue
 		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
-			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
-			continue
-		}
-		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
-				break
-			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
+		s.writeText(text, tok.Width)
+	}
+}
+
+// writeText writes a character at the cursor. It wraps as necessary.
+func (s *gridScreen) writeText(text string, width int) {
+	if width < 1 {
+		width = 1
+	}
+	if width > s.size.X { // a character that is wider than the screen
+		text, width = " ", 1
+	}
+	if s.cursorPos.X+width > s.size.X {
+		if s.autoWrap {
+			s.moveCursor(-s.cursorPos.X, 1, false, true)
+		} else {
+			s.cursorPos.X = s.size.X - width
 		}
 	}
+	s.rawWriteText(s.cursorPos.X, s.cursorPos.Y, text, width, CRText)
+	s.moveCursor(width, 0, true, true)
 }
 
+// mergeIntoPreviousCell adds a fragment to the character before the cursor. A
+// fragment that doesn't combine with it is written as text of its own, or
+// dropped if it cannot stand alone.
 func (s *gridScreen) mergeIntoPreviousCell(text string) {
-	if len(text) == 0 || s.cursorPos.X <= 0 {
-		return
+	if s.cursorPos.X > 0 {
+		y := s.cursorPos.Y
+		x := s.cursorPos.X - 1
+		for x > 0 && s.cellCont[y][x] {
+			x--
+		}
+		prevWidth := int(s.cellWidth[y][x])
+		merged := s.cellText[y][x] + text
+		cluster, _, width, _, ok := stepGraphemeCluster([]byte(merged), -1)
+		if ok && len(cluster) == len(merged) && width == prevWidth {
+			s.cellText[y][x] = merged
+			s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, CRText)
+			return
+		}
 	}
-	y := s.cursorPos.Y
-	x := s.cursorPos.X - 1
-	for x > 0 && s.cellCont[y][x] {
-		x--
+	if !isMergeOnly([]byte(text)) {
+		s.writeText(text, uniseg.StringWidth(text))
 	}
-	s.cellText[y][x] += text
 }
 
 // This is like writeRunes, but it moves existing runes to the right
@@ -405,14 +401,15 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
+	if len(b) > 0 {
+		s.clearWideAcross(y, x)
+		s.clearWideAcross(y, x+len(b))
+	}
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
 	for i, r := range b {
 		idx := x + i
-		if contRow[idx] {
-			s.clearWideAt(y, idx)
-		}
 		s.chars[y][idx] = r
 		textRow[idx] = string(r)
 		widthRow[idx] = 1
@@ -423,23 +420,23 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteText(x, y, string(r), width, cr)
+}
+
+// rawWriteText writes a character, which may consist of several runes.
+func (s *gridScreen) rawWriteText(x int, y int, text string, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
-		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
-	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
-	}
-
-	prevWidth := int(s.cellWidth[y][x])
-	if prevWidth < 1 {
-		prevWidth = 1
+		panic(fmt.Sprintf("rawWriteText out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, text))
 	}
+	s.clearWideAcross(y, x)
+	s.clearWideAcross(y, x+width)
 
+	r, _ := utf8.DecodeRuneInString(text)
 	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
@@ -449,25 +446,15 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		s.cellWidth[y][idx] = 0
 		s.cellCont[y][idx] = true
 	}
-	for i := width; i < prevWidth; i++ {
-		idx := x + i
-		if idx >= s.size.X {
-			break
-		}
-		s.chars[y][idx] = ' '
-		s.cellText[y][idx] = " "
-		s.cellWidth[y][idx] = 1
-		s.cellCont[y][idx] = false
-	}
-	end := x + width
-	if prevWidth > width {
-		end = x + prevWidth
-	}
-	if end > s.size.X {
-		end = s.size.X
+	s.rawWriteStyles(y, x, x+width)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, cr)
+}
+
+// clearWideAcross blanks the wide character that column x is inside of, if any.
+func (s *gridScreen) clearWideAcross(y int, x int) {
+	if x < s.size.X && s.cellCont[y][x] {
+		s.clearWideAt(y, x)
 	}
-	s.rawWriteStyles(y, x, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, cr)
 }
 
 func (s *gridScreen) clearWideAt(y int, x int) {
@@ -525,6 +512,9 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	s.clearWideAcross(y, x)
+	s.clearWideAcross(y, x+n)
+
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
-- 
2.43.0


From 00cc49bbdf41f61d57652ad1f63bd4e10e33ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 25/49] Wrap the grid screens' frontends in the verif
 constructor too

---
 verif_on.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verif_on.go b/verif_on.go
index 02a0a7e..ac98036 100644
--- a/verif_on.go
+++ b/verif_on.go
@@ -74,6 +74,7 @@ func VerifNew(f Frontend, b Backend, mode TextReadMode, grid bool) Terminal {
 	if grid {
 		t.mainScreen = newGridScreen(t.frontend)
 		t.altScreen = newGridScreen(t.frontend)
+		t.SetFrontend(t.frontend)
 	}
 	t.startReadLoop()
 	return t
-- 
2.43.0


From e9babb0e3a5c8777a63e68351c50dfcc99b9d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 26/49] fix: announce lines scrolled off the top of the main
 screen

---
 screen.go      |  3 +++
 screen_grid.go |  3 +++
 terminal.go    | 10 ++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 8648dc6..b2e94ae 100644
--- a/screen.go
+++ b/screen.go
@@ -524,6 +524,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 		return
 	}
 	dy = clamp(dy, y1-y2-1, y2-y1+1)
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index dad9daa..9fa1ab2 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -575,6 +575,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 		return
 	}
 	dy = clamp(dy, y1-y2-1, y2-y1+1)
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/terminal.go b/terminal.go
index b55db4f..8e0cfbb 100644
--- a/terminal.go
+++ b/terminal.go
@@ -83,7 +83,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(noScrollback{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -95,9 +95,15 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 func (t *terminal) SetFrontend(f Frontend) {
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(noScrollback{f})
 }
 
+// noScrollback is the frontend of the alternate screen, whose lines are not
+// saved when they are scrolled off.
+type noScrollback struct{ Frontend }
+
+func (noScrollback) ScrollLines(y int) {}
+
 // func NewNoPTY(f Frontend) Terminal {
 // 	return &terminal{
 // 		frontend: f,
-- 
2.43.0


From f24d385c8f7aa6bf7e4609a8485233ad3a337404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 27/49] fix: concurrent writes to the backend do not interleave

---
 terminal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminal.go b/terminal.go
index 8e0cfbb..52b89df 100644
--- a/terminal.go
+++ b/terminal.go
@@ -38,6 +38,7 @@ type terminal struct {
 	altScreen   screen
 
 	backend Backend
+	writeMu mutex // held while writing to backend; locked after the terminal
 
 	viewFlags   []bool
 	viewInts    []int
@@ -120,6 +121,8 @@ func (t *terminal) Write(b []byte) (int, error) {
 	if t.backend == nil {
 		return 0, errors.New("backend is nil")
 	}
+	t.writeMu.Lock()
+	defer t.writeMu.Unlock()
 	total := 0
 	for len(b) > 0 {
 		n, err := t.backend.Write(b)
-- 
2.43.0


From 2f2514b7735bb13ed5307a40af3195a4c7d3c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 28/49] fix: SetFrontend, SendKey and SendMouseRaw take the
 terminal lock

---
 keys.go     |  4 ++++
 terminal.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index a30d8e9..7876dbe 100644
--- a/keys.go
+++ b/keys.go
@@ -184,8 +184,12 @@ type KeyEvent struct {
 	Text []rune
 }
 
+// SendKey encodes a key event for the keyboard mode in force and writes it to
+// the backend. The caller must not hold the terminal lock.
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
+	t.Lock()
 	seq := t.encodeKey(ev)
+	t.Unlock()
 	if len(seq) == 0 {
 		return 0, nil
 	}
diff --git a/terminal.go b/terminal.go
index 52b89df..be3705b 100644
--- a/terminal.go
+++ b/terminal.go
@@ -93,7 +93,10 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	}
 }
 
+// SetFrontend changes the frontend. The caller must not hold the terminal lock.
 func (t *terminal) SetFrontend(f Frontend) {
+	t.Lock()
+	defer t.Unlock()
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
 	t.altScreen.SetFrontend(noScrollback{f})
@@ -244,7 +247,11 @@ const (
 // x and y should start at 1
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	t.Lock()
+	mouseMode, mouseEncoding := t.viewInts[VIMouseMode], t.viewInts[VIMouseEncoding]
+	t.Unlock()
+
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -262,7 +269,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
-- 
2.43.0


From 07dac6f6caf8e19ea4c783f5350cfa0f2e5ff304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 29/49] fix: mouse reports are filtered and encoded per mode,
 and a failed write is an error

---
 terminal.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/terminal.go b/terminal.go
index be3705b..7fecdbd 100644
--- a/terminal.go
+++ b/terminal.go
@@ -255,7 +255,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -263,7 +263,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
+		if mods&MMotion != 0 && btn == MRelease { // no button is held
 			return nil
 		}
 	case MMPressReleaseMoveAll:
@@ -276,18 +276,10 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		if 32+x > 255 {
-			x = 255 - 32
-		}
-		if 32+y > 255 {
-			y = 255 - 32
-		}
+		x = clamp(x, 1, 255-32)
+		y = clamp(y, 1, 255-32)
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
-		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
+		_, err := t.Write([]byte{27, '[', 'M', 32 + btnByte, byte(32 + x), byte(32 + y)})
 		return err
 
 	case MEUTF8:
@@ -296,7 +288,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		_, err := t.Write([]byte("\033[M" + string(32+btnByte) + string(rune(32+x)) + string(rune(32+y))))
+		_, err := t.Write([]byte("\033[M" + string(rune(32+btnByte)) + string(rune(32+x)) + string(rune(32+y))))
 		return err
 
 	case MESGR:
-- 
2.43.0


From f867fd362b41df6cd4d3235acb1cb528eb89d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 30/49] fix: TTYFrontend locks the terminal first, is silent
 when detached and keeps the cursor hidden

---
 tty_frontend.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index 11f93b0..c40ed54 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -47,32 +47,36 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
+	t.mu.Lock()
+	term := t.term
+	t.mu.Unlock()
+
+	// Callbacks lock the terminal first, then t.mu.
+	if term != nil {
+		term.Lock()
+		defer term.Unlock()
+	}
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
 	t.region = r
 	t.attached = true
-	if !t.showCur {
-		t.showCur = true
-	}
 
 	if t.term == nil {
 		return
 	}
 
-	t.term.WithLock(func() {
-		t.renderRegionLocked(t.region)
-	})
+	t.renderRegionLocked(t.region)
+	t.renderCursorLocked()
 }
 
 // Detach stops updating the attached region.
 func (t *TTYFrontend) Detach() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.attached = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -87,11 +91,10 @@ func (t *TTYFrontend) Focus() {
 // Blur disables cursor updates and restores cursor visibility.
 func (t *TTYFrontend) Blur() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.focused = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -155,6 +158,7 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 	buf.WriteString(ansiWrapDisable)
 	for y := r.Y; y < r.Y2; y++ {
 		buf.WriteString(ansiMoveCursor(r.X, y))
+		buf.WriteString(ansiEraseChars(r.X2 - r.X)) // no wide character is left across the edge
 		line := t.term.StyledLine(r.X, r.X2-r.X, y)
 		buf.Write(renderStyledLineANSI(line))
 	}
@@ -167,10 +171,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
@@ -204,6 +208,10 @@ func ansiMoveCursor(x, y int) string {
 	return fmt.Sprintf("\x1b[%d;%dH", y+1, x+1)
 }
 
+func ansiEraseChars(n int) string {
+	return fmt.Sprintf("\x1b[%dX", n)
+}
+
 func clampRegion(r Region, w, h int) Region {
 	r.X = clamp(r.X, 0, w)
 	r.Y = clamp(r.Y, 0, h)
-- 
2.43.0


From cebab8c6dc8c203f7ebb9bb85e3d0f4a829f03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 31/49] fix: release events produce no bytes unless event
 reporting is enabled

---
 keys.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index 7876dbe..2b09fc8 100644
--- a/keys.go
+++ b/keys.go
@@ -198,11 +198,17 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
+	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
 		}
 	}
+	if ev.Event == KeyRelease { // the legacy encoding has only press events
+		return nil
+	}
 	return t.encodeLegacyKey(ev)
 }
 
@@ -269,7 +275,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(24, ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
-			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, ev.Event, 0), "")
+			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, KeyPress, 0), "")
 		}
 		return nil
 	}
-- 
2.43.0


From 42f8b7fefbf08981bf07cab226f0a7f0ae06ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 32/49] fix: lock modifiers do not change legacy key encodings

---
 keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keys.go b/keys.go
index 2b09fc8..eaaf57e 100644
--- a/keys.go
+++ b/keys.go
@@ -21,6 +21,8 @@ const (
 	ModNumLock
 )
 
+const modLocks = ModCapsLock | ModNumLock
+
 // KeyEventType is press/repeat/release. Zero is treated as press.
 type KeyEventType uint8
 
@@ -213,6 +215,7 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	ev.Mod &^= modLocks // not encoded in legacy mode
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeLegacyKey(mapped)
@@ -371,6 +374,7 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
 	if flags&int(KbdDisambiguate) != 0 {
+		ev.Mod &^= modLocks // not reported for text keys
 		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
 			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 		}
-- 
2.43.0


From 011a9e9df19c28b89e8f33faa0700de79a6badc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 33/49] fix: legacy modifier parameters include super, hyper
 and meta

---
 keys.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/keys.go b/keys.go
index eaaf57e..c2d619e 100644
--- a/keys.go
+++ b/keys.go
@@ -667,7 +667,7 @@ func (t *terminal) encodeCursorKey(final byte, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b, '[', final}
 	}
-	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
+	return []byte(fmt.Sprintf("\033[1;%d%c", kittyModParam(mod), final))
 }
 
 func (t *terminal) encodeHomeEndKey(final byte, mod KeyMod) []byte {
@@ -677,7 +677,7 @@ func (t *terminal) encodeHomeEndKey(final byte, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b, '[', final}
 	}
-	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
+	return []byte(fmt.Sprintf("\033[1;%d%c", kittyModParam(mod), final))
 }
 
 func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
@@ -736,18 +736,18 @@ func encodeTildeKey(code int, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte(fmt.Sprintf("\033[%d~", code))
 	}
-	return []byte(fmt.Sprintf("\033[%d;%d~", code, xtermModParam(mod)))
+	return []byte(fmt.Sprintf("\033[%d;%d~", code, kittyModParam(mod)))
 }
 
 func encodeFunctionKey(final byte, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b, 'O', final}
 	}
-	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
+	return []byte(fmt.Sprintf("\033[1;%d%c", kittyModParam(mod), final))
 }
 
 func encodeModifyOtherKeys(code int, mod KeyMod) []byte {
-	return []byte(fmt.Sprintf("\033[27;%d;%d~", xtermModParam(mod), code))
+	return []byte(fmt.Sprintf("\033[27;%d;%d~", kittyModParam(mod), code))
 }
 
 func kittyModParam(mod KeyMod) int {
@@ -837,20 +837,6 @@ func kittyCSIu(keyField, modField, textField string) []byte {
 	return []byte("\033[" + strings.Join(params, ";") + "u")
 }
 
-func xtermModParam(mod KeyMod) int {
-	param := 1
-	if mod&ModShift != 0 {
-		param += 1
-	}
-	if mod&ModAlt != 0 {
-		param += 2
-	}
-	if mod&ModCtrl != 0 {
-		param += 4
-	}
-	return param
-}
-
 func normalizeEventType(event KeyEventType) KeyEventType {
 	if event == 0 {
 		return KeyPress
-- 
2.43.0


From 2c34ca4cc37dc67a9aefc4e851535aad5b162350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 34/49] fix: encode F3, Menu and keypad Begin as
 keyboard-protocol.rst defines

---
 keys.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/keys.go b/keys.go
index c2d619e..fc6efcf 100644
--- a/keys.go
+++ b/keys.go
@@ -276,6 +276,10 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(23, ev.Mod)
 	case KeyF12:
 		return encodeTildeKey(24, ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
+	case KeyKPBegin:
+		return t.encodeCursorKey('E', ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, KeyPress, 0), "")
@@ -319,9 +323,11 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		return kittyCSITilde(13, modField) // CSI R is a cursor position report
 	case KeyF4:
 		return kittyCSI1('S', modField)
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	case KeyF5:
 		return kittyCSITilde(15, modField)
 	case KeyF6:
@@ -453,8 +459,6 @@ func keypadEquivalent(ev KeyEvent) (KeyEvent, bool) {
 		mapped.Code = KeyInsert
 	case KeyKPDelete:
 		mapped.Code = KeyDelete
-	case KeyKPBegin:
-		mapped.Code, mapped.Rune = KeyRune, '5'
 	default:
 		return KeyEvent{}, false
 	}
@@ -577,8 +581,6 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 		return 57425, true
 	case KeyKPDelete:
 		return 57426, true
-	case KeyKPBegin:
-		return 57427, true
 	case KeyMediaPlay:
 		return 57428, true
 	case KeyMediaPause:
-- 
2.43.0


From 382e789af8822b4a61bb2ee27191a17f0dc12ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 35/49] fix: reporting all keys implies disambiguating keypad
 keys

---
 keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index fc6efcf..77f570b 100644
--- a/keys.go
+++ b/keys.go
@@ -289,7 +289,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
+	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate|KbdReportAllKeys) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeKittyKey(mapped, flags)
 		}
-- 
2.43.0


From 3fa420c3aa63979539d847a71d5d447214ec7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 36/49] fix: modifier keys are only reported when all keys are

---
 keys.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keys.go b/keys.go
index 77f570b..3f03fbb 100644
--- a/keys.go
+++ b/keys.go
@@ -203,6 +203,9 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
 		return nil
 	}
+	if isModifierKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
@@ -388,6 +391,10 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	return nil
 }
 
+func isModifierKey(code KeyCode) bool {
+	return code >= KeyLeftShift && code <= KeyISOLevel5Shift
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
-- 
2.43.0


From c6cb0d9c8b9ce1aaa0f7406de016c90da37f7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 37/49] fix: Kitty key codes are always unshifted

---
 keys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 3f03fbb..5b0eb34 100644
--- a/keys.go
+++ b/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // KeyMod is a bitmask of active modifier keys.
@@ -379,13 +380,14 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if ev.Rune == 0 {
 		return nil
 	}
+	code := int(unicode.ToLower(ev.Rune)) // key codes are always unshifted
 	if flags&int(KbdReportAllKeys) != 0 {
-		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
+		return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
 	if flags&int(KbdDisambiguate) != 0 {
 		ev.Mod &^= modLocks // not reported for text keys
 		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
-			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
+			return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 		}
 	}
 	return nil
-- 
2.43.0


From 83edddc815e0767f0463797d02d11a3bf8cc5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 38/49] fix: associated text is what the key event generates,
 without control codes

---
 keys.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/keys.go b/keys.go
index 5b0eb34..d370485 100644
--- a/keys.go
+++ b/keys.go
@@ -393,6 +393,18 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	return nil
 }
 
+// textRune returns the character that a KeyRune event without modifiers other
+// than shift produces.
+func textRune(ev KeyEvent) rune {
+	if ev.Mod&ModShift == 0 {
+		return ev.Rune
+	}
+	if ev.Shifted != 0 {
+		return ev.Shifted
+	}
+	return unicode.ToUpper(ev.Rune)
+}
+
 func isModifierKey(code KeyCode) bool {
 	return code >= KeyLeftShift && code <= KeyISOLevel5Shift
 }
@@ -806,16 +818,18 @@ func kittyTextField(ev KeyEvent, flags int) string {
 	if flags&int(KbdReportAllKeys) == 0 || flags&int(KbdReportText) == 0 {
 		return ""
 	}
-	text := ev.Text
-	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
-		text = []rune{ev.Rune}
-	}
-	if len(text) == 0 {
+	if ev.Event == KeyRelease { // generates no text
 		return ""
 	}
+	text := ev.Text
+	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 && ev.Mod&^(ModShift|modLocks) == 0 {
+		text = []rune{textRune(ev)}
+	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
-		parts = append(parts, strconv.Itoa(int(r)))
+		if !unicode.IsControl(r) {
+			parts = append(parts, strconv.Itoa(int(r)))
+		}
 	}
 	return strings.Join(parts, ":")
 }
-- 
2.43.0


From 6a06a3ea9a70deb88ddf8bfa860ec245c1471676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 39/49] fix: complete the legacy ctrl mapping

---
 keys.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/keys.go b/keys.go
index d370485..a295f30 100644
--- a/keys.go
+++ b/keys.go
@@ -877,19 +877,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case ' ', '2', '@':
 		return 0, true
-	case '[':
+	case '3', '[':
 		return 27, true
-	case '\\':
+	case '4', '\\':
 		return 28, true
-	case ']':
+	case '5', ']':
 		return 29, true
-	case '^':
+	case '6', '^', '~':
 		return 30, true
-	case '_':
+	case '7', '/', '_':
 		return 31, true
-	case '?':
+	case '8', '?':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From a2a2a745ed608eff784b73e63aeed39e2cad8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 40/49] fix: legacy text keys are shifted, and other modifiers
 are encoded with CSI u

---
 keys.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/keys.go b/keys.go
index a295f30..99183f5 100644
--- a/keys.go
+++ b/keys.go
@@ -227,7 +227,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 	switch ev.Code {
 	case KeyRune:
-		return t.encodeRuneKey(ev.Rune, ev.Mod)
+		return t.encodeRuneKey(ev)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -661,28 +661,43 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 	}
 }
 
-func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
+func (t *terminal) encodeRuneKey(ev KeyEvent) []byte {
+	r, mod := ev.Rune, ev.Mod
 	if r == 0 {
 		return nil
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 && mod != 0 {
+	if t.modifyOtherKeys() && mod != 0 {
 		return encodeModifyOtherKeys(int(r), mod)
 	}
+	key := unicode.ToLower(r)
+	if mod&^(ModShift|ModAlt|ModCtrl) != 0 || (mod&(ModShift|ModCtrl) == ModShift|ModCtrl && isLegacyTextKey(key)) {
+		return kittyCSIu(strconv.Itoa(int(key)), kittyModField(mod, KeyPress, 0), "")
+	}
+	out := []byte(string(textRune(ev)))
 	if mod&ModCtrl != 0 {
+		out = []byte(string(r))
 		if b, ok := ctrlByte(r); ok {
-			if mod&ModAlt != 0 {
-				return []byte{0x1b, b}
-			}
-			return []byte{b}
+			out = []byte{b}
 		}
 	}
-	out := []byte(string(r))
 	if mod&ModAlt != 0 {
 		return append([]byte{0x1b}, out...)
 	}
 	return out
 }
 
+// isLegacyTextKey reports whether r is one of the keys listed in "Legacy text
+// keys" in keyboard-protocol.rst.
+func isLegacyTextKey(r rune) bool {
+	return r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || strings.ContainsRune("`-=[]\\;',./", r)
+}
+
+// modifyOtherKeys reports whether xterm's modifyOtherKeys is in force. Kitty
+// flags override it.
+func (t *terminal) modifyOtherKeys() bool {
+	return t.viewInts[VIModifyOtherKeys] > 0 && t.keyboardFlags() == 0
+}
+
 func (t *terminal) encodeCursorKey(final byte, mod KeyMod) []byte {
 	if mod == 0 && t.viewFlags[VFAppCursorKeys] {
 		return []byte{0x1b, 'O', final}
@@ -707,7 +722,7 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x7f}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(127, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -723,7 +738,7 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(9, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -736,7 +751,7 @@ func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{'\r'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(13, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -749,7 +764,7 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(27, mod)
 	}
 	return []byte{0x1b}
-- 
2.43.0


From b6e7ea0f921a717eca069d0e06c9f58309138399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 41/49] fix: encode Backspace, Tab, Enter and Escape with
 modifiers as keyboard-protocol.rst defines

---
 keys.go | 58 +++++++++++++++++++++++----------------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/keys.go b/keys.go
index 99183f5..b95e1a4 100644
--- a/keys.go
+++ b/keys.go
@@ -719,55 +719,43 @@ func (t *terminal) encodeHomeEndKey(final byte, mod KeyMod) []byte {
 }
 
 func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{0x7f}
-	}
-	if t.modifyOtherKeys() {
-		return encodeModifyOtherKeys(127, mod)
-	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+	if mod&ModCtrl != 0 {
+		return t.encodeC0Key(127, mod, "\b")
 	}
-	return []byte{0x7f}
+	return t.encodeC0Key(127, mod, "\x7f")
 }
 
 func (t *terminal) encodeTabKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{'\t'}
-	}
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.modifyOtherKeys() {
-		return encodeModifyOtherKeys(9, mod)
+	if mod&ModShift != 0 {
+		return t.encodeC0Key(9, mod, "\x1b[Z")
 	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\t'}
-	}
-	return []byte{'\t'}
+	return t.encodeC0Key(9, mod, "\t")
 }
 
 func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{'\r'}
-	}
-	if t.modifyOtherKeys() {
-		return encodeModifyOtherKeys(13, mod)
-	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\r'}
-	}
-	return []byte{'\r'}
+	return t.encodeC0Key(13, mod, "\r")
 }
 
 func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{0x1b}
-	}
-	if t.modifyOtherKeys() {
-		return encodeModifyOtherKeys(27, mod)
-	}
-	return []byte{0x1b}
+	return t.encodeC0Key(27, mod, "\x1b")
+}
+
+// encodeC0Key encodes a key that is sent as seq, or as CSI u with modifiers for
+// which that is not defined.
+func (t *terminal) encodeC0Key(code int, mod KeyMod, seq string) []byte {
+	const all = ModShift | ModAlt | ModCtrl
+	switch {
+	case mod != 0 && t.modifyOtherKeys():
+		return encodeModifyOtherKeys(code, mod)
+	case mod&^all != 0 || mod == all:
+		return kittyCSIu(strconv.Itoa(code), kittyModField(mod, KeyPress, 0), "")
+	case mod&ModAlt != 0:
+		return []byte("\x1b" + seq)
+	}
+	return []byte(seq)
 }
 
 func encodeTildeKey(code int, mod KeyMod) []byte {
-- 
2.43.0


From f4a7d756583bd4632084b43b77e41a0842d0bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 42/49] fix: fragments that follow other text in a run are
 merged or dropped as if they were read alone

---
 grapheme_reader.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 54ee9ea..eb721b7 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -127,9 +127,10 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 			}
 			break
 		}
-		if mergeRun && !merge {
+		if r.start > runStart && merge != mergeRun {
 			break
 		}
+		mergeRun = merge
 
 		tokenWidth := width
 		if merge {
@@ -144,9 +145,6 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 		r.forceMergeNext = nextForceMergeNext
 		r.lastWasRI = nextLastWasRI
 		widthUsed += tokenWidth
-		if merge && widthUsed == 0 {
-			mergeRun = true
-		}
 	}
 
 	if r.start == runStart {
-- 
2.43.0


From 5eb0af109a53e029b63452a50814ba061dcfd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 43/49] fix: text after an empty read is not mistaken for a
 control byte

---
 grapheme_reader.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index eb721b7..3d9db8f 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -81,13 +81,13 @@ func (r *GraphemeReader) Buffered() int {
 // the total cell width returned; pass <=0 for unlimited. merge is true when the
 // returned text should be merged into the previous cell.
 func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, error) {
-	if r.Buffered() == 0 {
+	for r.Buffered() == 0 {
 		err := r.fill()
 		if err != nil && r.Buffered() == 0 {
 			return "", 0, false, err
 		}
 	}
-	if r.Buffered() == 0 || !isPrintableByte(r.data[r.start]) {
+	if !isPrintableByte(r.data[r.start]) {
 		return "", 0, false, nil
 	}
 
@@ -167,7 +167,7 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 	out := dst[:0]
 	widthUsed := 0
 	for {
-		if r.Buffered() == 0 {
+		for r.Buffered() == 0 {
 			if len(out) > 0 {
 				return out, nil
 			}
@@ -178,9 +178,6 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 				}
 			}
 		}
-		if r.Buffered() == 0 {
-			return out, nil
-		}
 		if !isPrintableByte(r.data[r.start]) {
 			return out, nil
 		}
-- 
2.43.0


From f1138f9b719390527ea785d5b1f3793775b7914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 44/49] fix: stop when the backend reports an error inside an
 escape sequence

---
 escapes.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/escapes.go b/escapes.go
index c096463..6bcbc33 100644
--- a/escapes.go
+++ b/escapes.go
@@ -144,9 +144,8 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 		})
 
 	case 27: // ESC ^[ Escape Character
-
+		er := &unlockingReader{t: t, gr: gr}
 		t.WithLock(func() {
-			er := &unlockingReader{t: t, gr: gr}
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
 				cmdReader := &captureReader{r: er, buf: &cmdBytes}
@@ -162,6 +161,9 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 				_ = t.handleCommand(er)
 			}
 		})
+		if er.err != nil {
+			return er.err
+		}
 
 	case 127: // DEL  Delete Character (treat as backspace)
 		t.WithLock(func() {
@@ -181,8 +183,9 @@ type escapeReader interface {
 // unlockingReader reads the rest of an escape sequence. It is used with the
 // terminal lock held, and releases the lock while it waits for more input.
 type unlockingReader struct {
-	t  *terminal
-	gr *GraphemeReader
+	t   *terminal
+	gr  *GraphemeReader
+	err error // the last error, after which nothing more is read
 }
 
 func (u *unlockingReader) ReadByte() (byte, error) {
@@ -190,7 +193,11 @@ func (u *unlockingReader) ReadByte() (byte, error) {
 		u.t.Unlock()
 		defer u.t.Lock()
 	}
-	return u.gr.ReadByte()
+	b, err := u.gr.ReadByte()
+	if err != nil {
+		u.err = err
+	}
+	return b, err
 }
 
 type captureReader struct {
-- 
2.43.0


From 152d26578a4d9c25c5929db61bc01e20c8f47186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 45/49] fix: replacing the first columns of a row does not drop
 the rest of it

---
 screen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index b2e94ae..d0406d4 100644
--- a/screen.go
+++ b/screen.go
@@ -941,8 +941,8 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		pos = endPos
 	}
 
-	// Clamp to total width (tracked by pos after the scan).
-	totalWidth := pos
+	// Clamp to total width.
+	totalWidth := lineCellWidth(line)
 	if x > totalWidth {
 		x = totalWidth
 	}
-- 
2.43.0


From 312898d83d71fbd3b601cc42e85aaa456378ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 46/49] fix: writing at the first column of a wide character
 inside a span replaces it

---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index d0406d4..91663ce 100644
--- a/screen.go
+++ b/screen.go
@@ -738,7 +738,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
-- 
2.43.0


From 3d744618cafb1fce259ba2aefec497d8550e0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 47/49] fix: announce all of a wide character that writing
 blanks

---
 screen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 91663ce..c769eea 100644
--- a/screen.go
+++ b/screen.go
@@ -418,9 +418,9 @@ func (s *spanScreen) writeSpan(x int, y int, sp Span, cr ChangeReason) int {
 		x = end
 		changed.X, changed.X2 = x, s.size.X
 	}
-	start, _ := blankAcross(line, x, s.style, s.textMode)
+	start, startEnd := blankAcross(line, x, s.style, s.textMode)
 	_, end := blankAcross(line, x+sp.Width, s.style, s.textMode)
-	changed.X, changed.X2 = min(changed.X, start), max(changed.X2, end)
+	changed.X, changed.X2 = min(changed.X, start), max(changed.X2, max(startEnd, end))
 	replaceRange(line, x, sp.Width, sp, s.textMode)
 	s.frontend.RegionChanged(changed, cr)
 	return x + sp.Width
-- 
2.43.0


From 0ff0f9a78ee0ac8366313b9ee006b5aba277a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 48/49] fix: only CSI > 4 selects modifyOtherKeys, not any
 sequence with a parameter of 4

---
 escapes.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/escapes.go b/escapes.go
index 6bcbc33..7e17774 100644
--- a/escapes.go
+++ b/escapes.go
@@ -906,13 +906,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'm': // modifyOtherKeys
 			mode := -1
-			for i := 0; i < len(params); i++ {
-				if params[i] == 4 {
-					if i+1 < len(params) {
-						mode = params[i+1]
-					} else {
-						mode = 0
-					}
+			if len(params) > 0 && params[0] == 4 {
+				mode = 0
+				if len(params) > 1 {
+					mode = params[1]
 				}
 			}
 			if mode >= 0 {
-- 
2.43.0


From fe43ebcf1f42bf3ef806c6b03c710647dc14975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 49/49] fix: keep the width of characters wider than 255
 columns in the grid buffer

---
 screen_grid.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 9fa1ab2..de91608 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -12,7 +12,7 @@ import (
 type gridScreen struct {
 	chars      [][]rune
 	cellText   [][]string
-	cellWidth  [][]uint8
+	cellWidth  [][]int
 	cellCont   [][]bool
 	cellStyles [][]Style
 	frontend   Frontend
@@ -132,7 +132,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 			// Construct text for span
 			var sb strings.Builder
 			for idx := start; idx < start+width; {
-				w := int(s.cellWidth[y][idx])
+				w := s.cellWidth[y][idx]
 				if s.cellCont[y][idx] || idx+w > start+width {
 					// part of a wide character that is cut off by the edge
 					sb.WriteByte(' ')
@@ -221,7 +221,7 @@ func (s *gridScreen) setSize(w, h int) {
 	// fmt.Println("setSize", w, h, s.chars, s.chars[0], len(s.chars[0]))
 
 	cellText := makeStringGrid(w, h, " ")
-	cellWidth := makeUint8Grid(w, h, 1)
+	cellWidth := makeIntGrid(w, h, 1)
 	cellCont := makeBoolGrid(w, h, false)
 
 	if len(s.cellText) > 0 {
@@ -268,7 +268,7 @@ func (s *gridScreen) setSize(w, h int) {
 				if cellCont[y][x] {
 					continue
 				}
-				if x+int(cellWidth[y][x]) > w {
+				if x+cellWidth[y][x] > w {
 					for i := x; i < w; i++ {
 						rect[y][i] = ' '
 						cellText[y][i] = " "
@@ -362,7 +362,7 @@ func (s *gridScreen) mergeIntoPreviousCell(text string) {
 		for x > 0 && s.cellCont[y][x] {
 			x--
 		}
-		prevWidth := int(s.cellWidth[y][x])
+		prevWidth := s.cellWidth[y][x]
 		merged := s.cellText[y][x] + text
 		cluster, _, width, _, ok := stepGraphemeCluster([]byte(merged), -1)
 		if ok && len(cluster) == len(merged) && width == prevWidth {
@@ -437,7 +437,7 @@ func (s *gridScreen) rawWriteText(x int, y int, text string, width int, cr Chang
 	r, _ := utf8.DecodeRuneInString(text)
 	s.chars[y][x] = r
 	s.cellText[y][x] = text
-	s.cellWidth[y][x] = uint8(width)
+	s.cellWidth[y][x] = width
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
 		idx := x + i
@@ -462,7 +462,7 @@ func (s *gridScreen) clearWideAt(y int, x int) {
 	for base > 0 && s.cellCont[y][base] {
 		base--
 	}
-	width := int(s.cellWidth[y][base])
+	width := s.cellWidth[y][base]
 	if width <= 1 {
 		return
 	}
@@ -701,9 +701,9 @@ func makeStringGrid(w, h int, fill string) [][]string {
 	return grid
 }
 
-func makeUint8Grid(w, h int, fill uint8) [][]uint8 {
-	grid := make([][]uint8, h)
-	raw := make([]uint8, w*h)
+func makeIntGrid(w, h int, fill int) [][]int {
+	grid := make([][]int, h)
+	raw := make([]int, w*h)
 	for i := range grid {
 		grid[i], raw = raw[:w], raw[w:]
 		for x := 0; x < w; x++ {
-- 
2.43.0

