From f05acc1ee7126b420ea5d88a8125432df4ea5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 001/141] fix: render: reset active attributes when the style
 changes

SGR attributes accumulate; switching from a styled cell to another style or
to the default one kept the old colours and attributes active, also while
erasing the screen.
---
 render/internal/infrastructure/ansi/writer.go | 49 +++++++++++--------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index dacd7b7..1d2219d 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -76,11 +76,25 @@ func (w *Writer) SetStyle(style value2.Style) error {
 		return nil // Style already set
 	}
 
-	// Write style sequence.
-	ansi := style.ToANSI()
-	if ansi != "" {
-		_, err := w.buf.WriteString(ansi)
-		if err != nil {
+	return w.switchStyle(style)
+}
+
+// switchStyle emits the sequences that replace the active style with style.
+// SGR attributes accumulate, so a styled state must be reset first.
+// The caller holds w.mu.
+func (w *Writer) switchStyle(style value2.Style) error {
+	if style.Equals(w.currentStyle) {
+		return nil
+	}
+
+	if !w.currentStyle.IsEmpty() {
+		if _, err := w.buf.WriteString(Reset); err != nil {
+			return err
+		}
+	}
+
+	if ansi := style.ToANSI(); ansi != "" {
+		if _, err := w.buf.WriteString(ansi); err != nil {
 			return err
 		}
 	}
@@ -95,14 +109,8 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 	defer w.mu.Unlock()
 
 	// Set style if different.
-	if !cell.Style().Equals(w.currentStyle) {
-		ansi := cell.Style().ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
-		}
-		w.currentStyle = cell.Style()
+	if err := w.switchStyle(cell.Style()); err != nil {
+		return err
 	}
 
 	// Write character.
@@ -129,14 +137,8 @@ func (w *Writer) WriteString(text string, style value2.Style) error {
 	defer w.mu.Unlock()
 
 	// Set style.
-	if !style.Equals(w.currentStyle) {
-		ansi := style.ToANSI()
-		if ansi != "" {
-			if _, err := w.buf.WriteString(ansi); err != nil {
-				return err
-			}
-		}
-		w.currentStyle = style
+	if err := w.switchStyle(style); err != nil {
+		return err
 	}
 
 	// Write text.
@@ -163,6 +165,11 @@ func (w *Writer) Clear() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// Erased cells take the active background: erase with the default style.
+	if err := w.switchStyle(value2.NewStyle()); err != nil {
+		return err
+	}
+
 	_, err := w.buf.WriteString(ClearScreen)
 	return err
 }
-- 
2.43.0


From 5c463a31a08b04a00cd8d3161b6b9059abf71a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 002/141] fix: render: do not assume the cursor is at the
 origin

At start and after clearing the screen the cursor can be anywhere, but the
move to (0,0) was skipped, so the first cells were drawn at the wrong place.
---
 render/internal/infrastructure/ansi/writer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 1d2219d..2b463e0 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -17,6 +17,7 @@ type Writer struct {
 	buf          *bufio.Writer
 	currentX     int
 	currentY     int
+	posKnown     bool // currentX/currentY reflect the terminal's cursor
 	currentStyle value2.Style
 	mu           sync.Mutex
 }
@@ -48,7 +49,7 @@ func (w *Writer) MoveCursor(x, y int) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	if x == w.currentX && y == w.currentY {
+	if w.posKnown && x == w.currentX && y == w.currentY {
 		return nil // Already at position
 	}
 
@@ -59,6 +60,7 @@ func (w *Writer) MoveCursor(x, y int) error {
 
 	w.currentX = x
 	w.currentY = y
+	w.posKnown = true
 	return nil
 }
 
@@ -170,6 +172,10 @@ func (w *Writer) Clear() error {
 		return err
 	}
 
+	// Erasing does not move the cursor and is often issued because something
+	// else wrote to the terminal: address the cursor explicitly afterwards.
+	w.posKnown = false
+
 	_, err := w.buf.WriteString(ClearScreen)
 	return err
 }
@@ -272,6 +278,7 @@ func (w *Writer) SetPosition(x, y int) {
 
 	w.currentX = x
 	w.currentY = y
+	w.posKnown = true
 }
 
 // Close flushes and closes the writer.
-- 
2.43.0


From f0a37e94db0ee6742f2c98770b9fc877383988c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 003/141] fix: render: pooled buffers have the renderer's
 current size

A buffer released before Resize was handed out again with its old size.
---
 render/internal/application/renderer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index db22005..44ebaa9 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -295,6 +295,10 @@ func (r *Renderer) Height() int {
 // GetBuffer returns a buffer from the pool (for zero-allocation).
 func (r *Renderer) GetBuffer() *model.Buffer {
 	buf := r.bufferPool.Get().(*model.Buffer)
+	if width, height := r.Width(), r.Height(); buf.Width() != width || buf.Height() != height {
+		// Pooled before a resize: drop it.
+		return model.NewBuffer(width, height)
+	}
 	buf.Clear()
 	return buf
 }
-- 
2.43.0


From 474ba274d065b7c7ffd93344f2f302efd092a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 004/141] fix: render: Close leaves the default style active

---
 render/internal/application/renderer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 44ebaa9..5b74b84 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -270,7 +270,8 @@ func (r *Renderer) Close() error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	// Show cursor on exit.
+	// Leave no colours or attributes active and show the cursor on exit.
+	_ = r.writer.SetStyle(value.NewStyle())
 	_ = r.writer.ShowCursor()
 
 	return r.writer.Close()
-- 
2.43.0


From 8d81dab49d6085173adab4fe2fbaa1c428a8f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 005/141] fix: render: keep whole grapheme clusters

Buffer.SetString stored only the first code point of a cluster: combining
marks, emoji sequences and flags were lost.
---
 render/internal/domain/model/buffer.go        |  9 +------
 render/internal/domain/model/cell.go          | 26 +++++++++++++++++--
 render/internal/infrastructure/ansi/writer.go |  2 +-
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index 9d63dde..f2e2b63 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -114,17 +114,10 @@ func (b *Buffer) SetString(pos value2.Position, text string, style value2.Style)
 		var cluster string
 		cluster, text, _, state = uniseg.FirstGraphemeClusterInString(text, state)
 
-		// Get rune and calculate width.
-		runes := []rune(cluster)
-		if len(runes) == 0 {
-			continue
-		}
-
-		char := runes[0]
 		width := uniseg.StringWidth(cluster)
 
 		// Create and set cell.
-		cell := NewCellWithWidth(char, style, width)
+		cell := NewClusterCell(cluster, style, width)
 		b.Set(value2.NewPosition(x, y), cell)
 
 		x += width
diff --git a/render/internal/domain/model/cell.go b/render/internal/domain/model/cell.go
index 69ce995..3bceee4 100644
--- a/render/internal/domain/model/cell.go
+++ b/render/internal/domain/model/cell.go
@@ -1,6 +1,8 @@
 package model
 
 import (
+	"unicode/utf8"
+
 	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
 	"github.com/rivo/uniseg"
 )
@@ -11,6 +13,7 @@ type Cell struct {
 	char  rune
 	style value.Style
 	width int
+	tail  string // remaining code points of the grapheme cluster started by char
 }
 
 // NewCell creates a new cell with character and style.
@@ -42,11 +45,28 @@ func NewCellWithWidth(char rune, style value.Style, width int) Cell {
 	}
 }
 
+// NewClusterCell creates a cell holding a whole grapheme cluster, i.e. a base
+// character together with the combining code points that follow it.
+func NewClusterCell(cluster string, style value.Style, width int) Cell {
+	char, size := utf8.DecodeRuneInString(cluster)
+	return Cell{
+		char:  char,
+		style: style,
+		width: width,
+		tail:  cluster[size:],
+	}
+}
+
 // Char returns the character.
 func (c Cell) Char() rune {
 	return c.char
 }
 
+// Text returns the complete grapheme cluster of the cell.
+func (c Cell) Text() string {
+	return string(c.char) + c.tail
+}
+
 // Style returns the style.
 func (c Cell) Style() value.Style {
 	return c.style
@@ -59,12 +79,13 @@ func (c Cell) Width() int {
 
 // IsEmpty returns true if cell is empty (space with no style).
 func (c Cell) IsEmpty() bool {
-	return c.char == ' ' && c.style.IsEmpty()
+	return c.char == ' ' && c.tail == "" && c.style.IsEmpty()
 }
 
 // Equals checks if two cells are equal (for diff optimization).
 func (c Cell) Equals(other Cell) bool {
 	return c.char == other.char &&
+		c.tail == other.tail &&
 		c.width == other.width &&
 		c.style.Equals(other.style)
 }
@@ -80,6 +101,7 @@ func (c Cell) WithStyle(style value.Style) Cell {
 		char:  c.char,
 		style: style,
 		width: c.width,
+		tail:  c.tail,
 	}
 }
 
@@ -88,7 +110,7 @@ func (c Cell) String() string {
 	if c.IsEmpty() {
 		return " "
 	}
-	return string(c.char)
+	return c.Text()
 }
 
 // calculateWidth calculates display width for a rune using uniseg.
diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 2b463e0..927aab1 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -116,7 +116,7 @@ func (w *Writer) WriteCell(cell model.Cell) error {
 	}
 
 	// Write character.
-	if _, err := w.buf.WriteRune(cell.Char()); err != nil {
+	if _, err := w.buf.WriteString(cell.Text()); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 400bb08cbc555b32855bfbcfde59f07b149545e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 006/141] fix: render: draw wide characters and undrawable
 cells correctly

The cell right of a wide character was drawn over its second half, a wide
character in the last column wrapped to the next line, and control characters
or lone combining marks in a buffer were sent to the terminal verbatim.
---
 render/internal/application/renderer.go |  7 ++++++-
 render/internal/domain/model/buffer.go  | 12 ++++++++++++
 render/internal/domain/model/cell.go    |  9 +++++++++
 render/internal/domain/service/diff.go  | 16 +++++++++++++---
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 5b74b84..31b4df1 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -134,8 +134,13 @@ func (r *Renderer) renderFullScreen(buffer *model.Buffer) error {
 
 	// Render all non-empty cells.
 	for y := 0; y < buffer.Height(); y++ {
+		end := 0 // First column after the last drawn cell.
 		for x := 0; x < buffer.Width(); x++ {
-			cell := buffer.Get(value.NewPosition(x, y))
+			if x < end {
+				continue // Drawn as part of the wide cell before it.
+			}
+			cell := buffer.Get(value.NewPosition(x, y)).Fit(buffer.Width() - x)
+			end = x + cell.Width()
 			if !cell.IsEmpty() {
 				if err := r.writer.MoveCursor(x, y); err != nil {
 					return err
diff --git a/render/internal/domain/model/buffer.go b/render/internal/domain/model/buffer.go
index f2e2b63..e4ac09e 100644
--- a/render/internal/domain/model/buffer.go
+++ b/render/internal/domain/model/buffer.go
@@ -116,10 +116,22 @@ func (b *Buffer) SetString(pos value2.Position, text string, style value2.Style)
 
 		width := uniseg.StringWidth(cluster)
 
+		if width <= 0 {
+			continue // Control characters and lone combining marks occupy no cell.
+		}
+		if x+width > b.width {
+			break // A wide cluster does not fit the last column.
+		}
+
 		// Create and set cell.
 		cell := NewClusterCell(cluster, style, width)
 		b.Set(value2.NewPosition(x, y), cell)
 
+		// The columns a wide cluster covers hold no character of their own.
+		for i := 1; i < width; i++ {
+			b.Set(value2.NewPosition(x+i, y), NewCellWithWidth(' ', style, 1))
+		}
+
 		x += width
 		cellsWritten += width
 	}
diff --git a/render/internal/domain/model/cell.go b/render/internal/domain/model/cell.go
index 3bceee4..d48e17f 100644
--- a/render/internal/domain/model/cell.go
+++ b/render/internal/domain/model/cell.go
@@ -77,6 +77,15 @@ func (c Cell) Width() int {
 	return c.width
 }
 
+// Fit returns the cell as it can be displayed when room columns are left:
+// characters that occupy no column or more than there are become a blank.
+func (c Cell) Fit(room int) Cell {
+	if c.width <= 0 || c.width > room {
+		return Cell{char: ' ', style: c.style, width: 1}
+	}
+	return c
+}
+
 // IsEmpty returns true if cell is empty (space with no style).
 func (c Cell) IsEmpty() bool {
 	return c.char == ' ' && c.tail == "" && c.style.IsEmpty()
diff --git a/render/internal/domain/service/diff.go b/render/internal/domain/service/diff.go
index 78005f3..4e7aa0f 100644
--- a/render/internal/domain/service/diff.go
+++ b/render/internal/domain/service/diff.go
@@ -49,13 +49,23 @@ func (s *DiffService) Diff(oldBuf, newBuf *model2.Buffer) []DiffOp {
 
 	// Compare cell by cell.
 	for y := 0; y < newBuf.Height(); y++ {
+		oldEnd, newEnd := 0, 0 // First column after the last drawn cell.
 		for x := 0; x < newBuf.Width(); x++ {
 			pos := value.NewPosition(x, y)
-			oldCell := oldBuf.Get(pos)
-			newCell := newBuf.Get(pos)
+			oldCell := oldBuf.Get(pos).Fit(newBuf.Width() - x)
+			newCell := newBuf.Get(pos).Fit(newBuf.Width() - x)
+
+			oldCovered := x < oldEnd
+			if !oldCovered {
+				oldEnd = x + oldCell.Width()
+			}
+			if x < newEnd {
+				continue // Drawn as part of the wide cell before it.
+			}
+			newEnd = x + newCell.Width()
 
 			// Only emit operation if cells differ.
-			if !oldCell.Equals(newCell) {
+			if oldCovered || !oldCell.Equals(newCell) {
 				ops = append(ops, DiffOp{
 					Type:     OpTypeSet,
 					Position: pos,
-- 
2.43.0


From cc697e8480a55af74fed89e9c23bfb887bd569fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 007/141] fix: render: recover from output errors

After a failed or short write the buffered writer stayed in error forever and
the renderer went on believing its last frame was on screen. Drop what is
pending and repaint completely with the next frame.
---
 render/internal/application/renderer.go       | 35 ++++++++++++++-----
 render/internal/infrastructure/ansi/writer.go | 21 +++++++++--
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/render/internal/application/renderer.go b/render/internal/application/renderer.go
index 31b4df1..2b930f3 100644
--- a/render/internal/application/renderer.go
+++ b/render/internal/application/renderer.go
@@ -27,6 +27,8 @@ type Renderer struct {
 	width  int
 	height int
 
+	stale bool // an output error left the screen in an unknown state
+
 	bufferPool sync.Pool // For zero-allocation rendering
 	mu         sync.Mutex
 }
@@ -72,16 +74,17 @@ func NewRendererWithOptions(width, height int, output io.Writer, bufferSize int)
 
 // Render renders a buffer to the terminal.
 // This is the main rendering method - implements differential rendering for performance.
-func (r *Renderer) Render(buffer *model.Buffer) error {
+func (r *Renderer) Render(buffer *model.Buffer) (err error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	defer func() { r.checkOutput(err) }()
 
 	if buffer == nil {
 		return nil
 	}
 
-	// Check if dimensions changed.
-	if buffer.Width() != r.width || buffer.Height() != r.height {
+	// Check if dimensions changed or the screen content is unknown.
+	if r.stale || buffer.Width() != r.width || buffer.Height() != r.height {
 		return r.renderFullScreen(buffer)
 	}
 
@@ -118,6 +121,15 @@ func (r *Renderer) Render(buffer *model.Buffer) error {
 	return nil
 }
 
+// checkOutput prepares for a full repaint after an output error: part of the
+// frame may have reached the terminal. The caller holds r.mu.
+func (r *Renderer) checkOutput(err error) {
+	if err != nil {
+		r.writer.Recover()
+		r.stale = true
+	}
+}
+
 // renderFullScreen renders entire buffer (for resize or large changes).
 //
 //nolint:gocognit // Fullscreen rendering orchestrates multiple operations
@@ -161,6 +173,7 @@ func (r *Renderer) renderFullScreen(buffer *model.Buffer) error {
 	r.width = buffer.Width()
 	r.height = buffer.Height()
 	r.previousBuffer = buffer.Clone()
+	r.stale = false
 
 	return nil
 }
@@ -198,9 +211,10 @@ func (r *Renderer) applyOperations(ops []service2.DiffOp) error {
 }
 
 // Clear clears the screen and resets state.
-func (r *Renderer) Clear() error {
+func (r *Renderer) Clear() (err error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	defer func() { r.checkOutput(err) }()
 
 	return r.clearUnlocked()
 }
@@ -222,14 +236,16 @@ func (r *Renderer) clearUnlocked() error {
 	// Reset buffers.
 	r.currentBuffer.Clear()
 	r.previousBuffer.Clear()
+	r.stale = false
 
 	return nil
 }
 
 // Resize resizes the renderer and buffers.
-func (r *Renderer) Resize(width, height int) error {
+func (r *Renderer) Resize(width, height int) (err error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	defer func() { r.checkOutput(err) }()
 
 	r.width = width
 	r.height = height
@@ -247,9 +263,10 @@ func (r *Renderer) Resize(width, height int) error {
 }
 
 // HideCursor hides the terminal cursor.
-func (r *Renderer) HideCursor() error {
+func (r *Renderer) HideCursor() (err error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	defer func() { r.checkOutput(err) }()
 
 	if err := r.writer.HideCursor(); err != nil {
 		return err
@@ -259,9 +276,10 @@ func (r *Renderer) HideCursor() error {
 }
 
 // ShowCursor shows the terminal cursor.
-func (r *Renderer) ShowCursor() error {
+func (r *Renderer) ShowCursor() (err error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	defer func() { r.checkOutput(err) }()
 
 	if err := r.writer.ShowCursor(); err != nil {
 		return err
@@ -271,9 +289,10 @@ func (r *Renderer) ShowCursor() error {
 }
 
 // Close flushes and closes the renderer.
-func (r *Renderer) Close() error {
+func (r *Renderer) Close() (err error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	defer func() { r.checkOutput(err) }()
 
 	// Leave no colours or attributes active and show the cursor on exit.
 	_ = r.writer.SetStyle(value.NewStyle())
diff --git a/render/internal/infrastructure/ansi/writer.go b/render/internal/infrastructure/ansi/writer.go
index 927aab1..2483cc1 100644
--- a/render/internal/infrastructure/ansi/writer.go
+++ b/render/internal/infrastructure/ansi/writer.go
@@ -19,6 +19,7 @@ type Writer struct {
 	currentY     int
 	posKnown     bool // currentX/currentY reflect the terminal's cursor
 	currentStyle value2.Style
+	styleUnknown bool // an output error left the terminal's style undefined
 	mu           sync.Mutex
 }
 
@@ -74,7 +75,7 @@ func (w *Writer) SetStyle(style value2.Style) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	if style.Equals(w.currentStyle) {
+	if !w.styleUnknown && style.Equals(w.currentStyle) {
 		return nil // Style already set
 	}
 
@@ -85,11 +86,11 @@ func (w *Writer) SetStyle(style value2.Style) error {
 // SGR attributes accumulate, so a styled state must be reset first.
 // The caller holds w.mu.
 func (w *Writer) switchStyle(style value2.Style) error {
-	if style.Equals(w.currentStyle) {
+	if !w.styleUnknown && style.Equals(w.currentStyle) {
 		return nil
 	}
 
-	if !w.currentStyle.IsEmpty() {
+	if w.styleUnknown || !w.currentStyle.IsEmpty() {
 		if _, err := w.buf.WriteString(Reset); err != nil {
 			return err
 		}
@@ -102,6 +103,7 @@ func (w *Writer) switchStyle(style value2.Style) error {
 	}
 
 	w.currentStyle = style
+	w.styleUnknown = false
 	return nil
 }
 
@@ -200,6 +202,7 @@ func (w *Writer) Reset() error {
 	}
 
 	w.currentStyle = value2.NewStyle()
+	w.styleUnknown = false
 	return nil
 }
 
@@ -247,6 +250,18 @@ func (w *Writer) Flush() error {
 	return w.buf.Flush()
 }
 
+// Recover makes the writer usable again after an output error. What reached
+// the terminal is unknown then: pending output is dropped and cursor position
+// and style are established anew with the next output.
+func (w *Writer) Recover() {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	w.buf.Reset(w.output)
+	w.posKnown = false
+	w.styleUnknown = true
+}
+
 // BufferedSize returns the number of bytes currently buffered.
 func (w *Writer) BufferedSize() int {
 	w.mu.Lock()
-- 
2.43.0


From 1b1d1ee73ee4b0fa17a61f459610ae242443f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 008/141] fix: tea: event loop that cannot block on itself,
 lose a quit signal or leave goroutines behind

Batch/Sequence messages were re-sent to the loop's own bounded channel by the
loop itself (deadlock when full); the unbuffered quit channel dropped a quit
sent while the loop was busy and let command and input goroutines consume it;
Stop claimed the program had stopped after one second, which allowed a second
loop; finished programs left the input reader and commands running.
---
 tea/internal/application/program/program.go | 256 ++++++++++----------
 1 file changed, 131 insertions(+), 125 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 34e1a5b..e1bbb00 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -66,9 +66,12 @@ type Program[T any] struct {
 	cmdCh  chan model2.Cmd // Commands to execute
 	viewCh chan string     // View updates for rendering
 
-	// Quit channel
+	// Quit channel (buffered so that a quit signal is never lost)
 	quitCh chan struct{}
 
+	// Closed when the current event loop ends; nil before the first Run/Start.
+	loopDone chan struct{}
+
 	// Inline renderer for non-alt-screen mode.
 	// Initialized lazily in renderView() on the first render call.
 	// Tracks linesRendered so subsequent renders overwrite the previous frame
@@ -103,7 +106,7 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 		model:  m,
 		input:  os.Stdin,  // Default
 		output: os.Stdout, // Default
-		quitCh: make(chan struct{}),
+		quitCh: make(chan struct{}, 1),
 		msgCh:  make(chan model2.Msg, 100), // Buffered for performance
 		cmdCh:  make(chan model2.Cmd, 10),
 		viewCh: make(chan string, 10),
@@ -139,8 +142,6 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 //	}
 //
 // Returns error if program is already running or initialization fails.
-//
-//nolint:gocognit // Event loop orchestration requires sequential logic
 func (p *Program[T]) Run() error {
 	p.mu.Lock()
 	if p.running {
@@ -148,6 +149,7 @@ func (p *Program[T]) Run() error {
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
+	p.beginLoop()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -157,6 +159,8 @@ func (p *Program[T]) Run() error {
 
 	// Cleanup on exit
 	defer func() {
+		p.endLoop()
+
 		p.mu.Lock()
 
 		// Exit raw mode if we're in it
@@ -190,65 +194,8 @@ func (p *Program[T]) Run() error {
 	}
 	p.mu.Unlock()
 
-	// STEP 1: Call Init() to get initial command
-	initCmd := p.model.Init()
-	if initCmd != nil {
-		p.executeCommand(initCmd)
-	}
-	// Start input reader
-	p.startInputReader()
-
-	// STEP 2: Render initial view
-	p.renderView()
-
-	// STEP 3: EVENT LOOP - THE HEART OF ELM ARCHITECTURE
-	for {
-		select {
-		case msg := <-p.msgCh:
-			// Check for quit
-			if _, isQuit := msg.(model2.QuitMsg); isQuit {
-				return nil // Exit loop
-			}
-
-			// Handle BatchMsg - expand to individual messages
-			if batchMsg, ok := msg.(model2.BatchMsg); ok {
-				for _, m := range batchMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Handle SequenceMsg - expand to individual messages (in order)
-			if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-				for _, m := range seqMsg.Messages {
-					p.msgCh <- m
-				}
-				continue
-			}
-
-			// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-			if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-				if p.inlineRenderer != nil {
-					p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-				}
-			}
-
-			// Update model
-			newModel, cmd := p.model.Update(msg)
-			p.model = newModel
-
-			// Execute command (if any)
-			if cmd != nil {
-				p.executeCommand(cmd)
-			}
-
-			// Render view
-			p.renderView()
-
-		case <-p.quitCh:
-			return nil // External quit signal
-		}
-	}
+	p.eventLoop()
+	return nil
 }
 
 // Start starts the program in a goroutine and returns immediately.
@@ -266,8 +213,6 @@ func (p *Program[T]) Run() error {
 //	p.Stop()
 //
 // Returns error if program is already running.
-//
-//nolint:gocognit // Event loop orchestration requires sequential logic
 func (p *Program[T]) Start() error {
 	p.mu.Lock()
 	if p.running {
@@ -275,6 +220,7 @@ func (p *Program[T]) Start() error {
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
+	p.beginLoop()
 
 	// Initialize terminal if not set (auto-detect best implementation)
 	if p.terminal == nil {
@@ -284,6 +230,8 @@ func (p *Program[T]) Start() error {
 
 	go func() {
 		defer func() {
+			p.endLoop()
+
 			p.mu.Lock()
 
 			// Exit raw mode if we're in it
@@ -319,66 +267,111 @@ func (p *Program[T]) Start() error {
 		p.mu.Unlock()
 
 		// Same event loop as Run(), but in goroutine
-		initCmd := p.model.Init()
-		if initCmd != nil {
-			p.executeCommand(initCmd)
-		}
-		// Start input reader
-		p.startInputReader()
+		p.eventLoop()
+	}()
 
-		p.renderView()
+	return nil
+}
 
-		for {
-			select {
-			case msg := <-p.msgCh:
-				if _, isQuit := msg.(model2.QuitMsg); isQuit {
-					return
-				}
+// beginLoop prepares the channels of a new event loop. Each loop has its own,
+// so that nothing left over from an earlier run reaches it.
+// Must be called with p.mu held.
+func (p *Program[T]) beginLoop() {
+	p.msgCh = make(chan model2.Msg, cap(p.msgCh))
+	p.quitCh = make(chan struct{}, 1)
+	p.loopDone = make(chan struct{})
+}
 
-				// Handle BatchMsg
-				if batchMsg, ok := msg.(model2.BatchMsg); ok {
-					for _, m := range batchMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
+// endLoop releases every goroutine the event loop started.
+func (p *Program[T]) endLoop() {
+	p.mu.Lock()
+	close(p.loopDone)
+	p.mu.Unlock()
 
-				// Handle SequenceMsg
-				if seqMsg, ok := msg.(model2.SequenceMsg); ok {
-					for _, m := range seqMsg.Messages {
-						p.msgCh <- m
-					}
-					continue
-				}
+	p.stopInputReader()
+}
 
-				// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-				if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
-					if p.inlineRenderer != nil {
-						p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
-					}
-				}
+// eventLoop runs the program until it quits.
+//
+//nolint:gocognit // Event loop orchestration requires sequential logic
+func (p *Program[T]) eventLoop() {
+	// STEP 1: Call Init() to get initial command
+	initCmd := p.model.Init()
+	if initCmd != nil {
+		p.executeCommand(initCmd)
+	}
+	// Start input reader
+	p.startInputReader()
 
-				// Update
-				newModel, cmd := p.model.Update(msg)
-				p.model = newModel
+	// STEP 2: Render initial view
+	p.renderView()
 
-				if cmd != nil {
-					p.executeCommand(cmd)
-				}
+	// Messages expanded from BatchMsg/SequenceMsg and not handled yet. The loop
+	// keeps them itself: it is the only receiver of msgCh, so sending them
+	// there would block forever once the channel is full.
+	var pending []model2.Msg
 
-				p.renderView()
+	// STEP 3: EVENT LOOP - THE HEART OF ELM ARCHITECTURE
+	for {
+		// External quit signal (checked first: it must not wait for messages)
+		select {
+		case <-p.quitCh:
+			return
+		default:
+		}
 
+		var msg model2.Msg
+		if len(pending) > 0 {
+			msg, pending = pending[0], pending[1:]
+		} else {
+			select {
+			case msg = <-p.msgCh:
 			case <-p.quitCh:
-				return
+				return // External quit signal
 			}
 		}
-	}()
 
-	return nil
+		// Check for quit
+		if _, isQuit := msg.(model2.QuitMsg); isQuit {
+			return // Exit loop
+		}
+
+		// Handle BatchMsg - expand to individual messages
+		if batchMsg, ok := msg.(model2.BatchMsg); ok {
+			pending = append(batchMsg.Messages[:len(batchMsg.Messages):len(batchMsg.Messages)], pending...)
+			continue
+		}
+
+		// Handle SequenceMsg - expand to individual messages (in order)
+		if seqMsg, ok := msg.(model2.SequenceMsg); ok {
+			pending = append(seqMsg.Messages[:len(seqMsg.Messages):len(seqMsg.Messages)], pending...)
+			continue
+		}
+
+		// Intercept WindowSizeMsg to keep inline renderer dimensions current.
+		if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
+			if p.inlineRenderer != nil {
+				p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
+			}
+		}
+
+		// Update model
+		newModel, cmd := p.model.Update(msg)
+		p.model = newModel
+
+		// Execute command (if any)
+		if cmd != nil {
+			p.executeCommand(cmd)
+		}
+
+		// Render view
+		p.renderView()
+	}
 }
 
 // Stop stops a running program gracefully.
-// Blocks until the program has fully stopped.
+// Blocks until the program has fully stopped, or gives up waiting after one
+// second if the model does not return (the program then stops afterwards).
 //
 // Safe to call multiple times.
 func (p *Program[T]) Stop() {
@@ -387,11 +380,12 @@ func (p *Program[T]) Stop() {
 		p.mu.Unlock()
 		return
 	}
+	quitCh := p.quitCh
 	p.mu.Unlock()
 
 	// Signal quit
 	select {
-	case p.quitCh <- struct{}{}:
+	case quitCh <- struct{}{}:
 	default:
 		// Already quitting
 	}
@@ -404,10 +398,8 @@ func (p *Program[T]) Stop() {
 	for {
 		select {
 		case <-timeout:
-			// Timeout - force stop
-			p.mu.Lock()
-			p.running = false
-			p.mu.Unlock()
+			// Timeout - the loop is busy in the model; it stops as soon as it is
+			// back (claiming that it has stopped would allow a second loop).
 			return
 		case <-ticker.C:
 			p.mu.Lock()
@@ -437,8 +429,12 @@ func (p *Program[T]) Stop() {
 //
 // Internal use - will be called from event loop in Day 4.
 func (p *Program[T]) Quit() {
+	p.mu.Lock()
+	quitCh := p.quitCh
+	p.mu.Unlock()
+
 	select {
-	case p.quitCh <- struct{}{}:
+	case quitCh <- struct{}{}:
 	default:
 		// Already quitting
 	}
@@ -466,6 +462,7 @@ func (p *Program[T]) IsRunning() bool {
 func (p *Program[T]) Send(msg model2.Msg) error {
 	p.mu.Lock()
 	running := p.running
+	msgCh, loopDone := p.msgCh, p.loopDone
 	p.mu.Unlock()
 
 	if !running {
@@ -473,8 +470,10 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 	}
 
 	select {
-	case p.msgCh <- msg:
+	case msgCh <- msg:
 		return nil
+	case <-loopDone:
+		return fmt.Errorf("program not running")
 	case <-time.After(100 * time.Millisecond):
 		return fmt.Errorf("timeout sending message")
 	}
@@ -482,14 +481,18 @@ func (p *Program[T]) Send(msg model2.Msg) error {
 
 // executeCommand runs a command in a goroutine and sends result to msgCh.
 func (p *Program[T]) executeCommand(cmd model2.Cmd) {
+	p.mu.Lock()
+	msgCh, loopDone := p.msgCh, p.loopDone
+	p.mu.Unlock()
+
 	go func() {
 		msg := cmd() // Execute command (may block)
 
 		// Send result back to event loop
 		select {
-		case p.msgCh <- msg:
-		case <-p.quitCh:
-			// Program quitting, don't send
+		case msgCh <- msg:
+		case <-loopDone:
+			// Program quit, don't send
 		}
 	}()
 }
@@ -529,15 +532,18 @@ func (p *Program[T]) renderView() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	p.inputReader = input.NewReader(p.input)
+	reader := input.NewReader(p.input)
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
 
 	// Set state under mutex protection
 	p.mu.Lock()
+	done := make(chan struct{})
+	msgCh, loopDone := p.msgCh, p.loopDone
+	p.inputReader = reader
 	p.inputReaderCancel = cancel
-	p.inputReaderDone = make(chan struct{})
+	p.inputReaderDone = done
 	p.inputReaderRunning = true
 	p.inputReaderGeneration++             // Increment generation for new goroutine
 	generation := p.inputReaderGeneration // Capture for this goroutine
@@ -546,7 +552,7 @@ func (p *Program[T]) startInputReader() {
 	go func() {
 		defer func() {
 			// Signal that goroutine has exited
-			close(p.inputReaderDone)
+			close(done)
 
 			// Only clear state if we're still the current generation
 			// (prevents race with restart after stop timeout)
@@ -569,7 +575,7 @@ func (p *Program[T]) startInputReader() {
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := p.inputReader.Read()
+			msg, err := reader.Read()
 			if err != nil {
 				// EOF or error - stop reading
 				return
@@ -582,10 +588,10 @@ func (p *Program[T]) startInputReader() {
 
 			// Send to event loop (with cancellation check)
 			select {
-			case p.msgCh <- msg:
+			case msgCh <- msg:
 			case <-ctx.Done():
 				return
-			case <-p.quitCh:
+			case <-loopDone:
 				return
 			}
 		}
-- 
2.43.0


From 384b83b5248cac34f8e7641a2fda5fabcefddab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 009/141] fix: tea: Start enters the alternate screen like Run

---
 tea/internal/application/program/program.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index e1bbb00..b26881d 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -248,20 +248,19 @@ func (p *Program[T]) Start() error {
 			p.mu.Unlock()
 		}()
 
-		// Enter raw mode for TUI
+		// Enter raw mode for TUI (best effort - may fail in test environments)
 		p.mu.Lock()
 		rawModeErr := p.terminal.EnterRawMode()
-		if rawModeErr != nil {
-			// Can't return error from goroutine - just don't enter raw mode
-			// This allows tests to run without requiring actual terminal
-		} else {
-			// Enter alt screen if enabled and raw mode succeeded
-			if p.altScreen {
-				if altScreenErr := p.terminal.EnterAltScreen(); altScreenErr != nil {
+
+		// Enter alt screen if enabled (as in Run)
+		if p.altScreen {
+			if altScreenErr := p.terminal.EnterAltScreen(); altScreenErr != nil {
+				// Can't return error from goroutine
+				if rawModeErr == nil {
 					_ = p.terminal.ExitRawMode() // Cleanup raw mode
-					p.mu.Unlock()
-					return
 				}
+				p.mu.Unlock()
+				return
 			}
 		}
 		p.mu.Unlock()
-- 
2.43.0


From 54bb125040e7bcf66e53b48c17da029985d1a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 010/141] fix: tea: suspension excludes the event loop's
 rendering and ends with the program

Resume rendered from the caller's goroutine (a data race with the event loop),
frames were written while an external process owned the terminal, concurrent
external processes overlapped, and a program quitting while suspended was
resumed afterwards: raw mode, hidden cursor and an input reader were left.
---
 tea/internal/application/program/program.go   | 151 +++++++++++++-----
 .../application/program/tty_control_darwin.go |   2 +-
 .../application/program/tty_control_linux.go  |   2 +-
 .../program/tty_control_windows.go            |   4 +-
 4 files changed, 112 insertions(+), 47 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index b26881d..6efd78d 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -81,6 +81,12 @@ type Program[T any] struct {
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
 	suspendState *suspendedState // Saved state when suspended
+	cursorHidden bool            // True if Resume has hidden the cursor
+	suspendMu    sync.Mutex      // Serializes Suspend, Resume and the cleanup on exit
+	execMu       sync.Mutex      // Serializes external processes
+
+	renderMu  sync.Mutex    // Held while writing to the terminal
+	repaintCh chan struct{} // Asks the event loop to redraw everything
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -158,24 +164,7 @@ func (p *Program[T]) Run() error {
 	p.mu.Unlock()
 
 	// Cleanup on exit
-	defer func() {
-		p.endLoop()
-
-		p.mu.Lock()
-
-		// Exit raw mode if we're in it
-		if p.terminal != nil && p.terminal.IsInRawMode() {
-			_ = p.terminal.ExitRawMode() // Best effort cleanup
-		}
-
-		// Exit alt screen if we're in it
-		if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-			_ = p.terminal.ExitAltScreen() // Best effort cleanup
-		}
-
-		p.running = false
-		p.mu.Unlock()
-	}()
+	defer p.endLoop()
 
 	// Enter raw mode for TUI (best effort - may fail in test environments)
 	p.mu.Lock()
@@ -229,24 +218,7 @@ func (p *Program[T]) Start() error {
 	p.mu.Unlock()
 
 	go func() {
-		defer func() {
-			p.endLoop()
-
-			p.mu.Lock()
-
-			// Exit raw mode if we're in it
-			if p.terminal != nil && p.terminal.IsInRawMode() {
-				_ = p.terminal.ExitRawMode() // Best effort cleanup
-			}
-
-			// Exit alt screen if we're in it
-			if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
-				_ = p.terminal.ExitAltScreen() // Best effort cleanup
-			}
-
-			p.running = false
-			p.mu.Unlock()
-		}()
+		defer p.endLoop()
 
 		// Enter raw mode for TUI (best effort - may fail in test environments)
 		p.mu.Lock()
@@ -279,15 +251,48 @@ func (p *Program[T]) beginLoop() {
 	p.msgCh = make(chan model2.Msg, cap(p.msgCh))
 	p.quitCh = make(chan struct{}, 1)
 	p.loopDone = make(chan struct{})
+	p.repaintCh = make(chan struct{}, 1)
+	p.suspended = false
+	p.suspendState = nil
 }
 
-// endLoop releases every goroutine the event loop started.
+// endLoop releases every goroutine the event loop started and leaves the
+// terminal in its normal state.
 func (p *Program[T]) endLoop() {
 	p.mu.Lock()
 	close(p.loopDone)
 	p.mu.Unlock()
 
+	// A Suspend or Resume in progress completes first
+	p.suspendMu.Lock()
+	defer p.suspendMu.Unlock()
+
 	p.stopInputReader()
+
+	p.mu.Lock()
+
+	// Exit raw mode if we're in it
+	if p.terminal != nil && p.terminal.IsInRawMode() {
+		_ = p.terminal.ExitRawMode() // Best effort cleanup
+	}
+
+	// Exit alt screen if we're in it
+	if p.terminal != nil && p.altScreen && p.terminal.IsInAltScreen() {
+		_ = p.terminal.ExitAltScreen() // Best effort cleanup
+	}
+
+	// Show the cursor if Resume has hidden it
+	if p.terminal != nil && p.cursorHidden {
+		_ = p.terminal.ShowCursor() // Best effort cleanup
+		p.cursorHidden = false
+	}
+
+	// Nothing is left to resume
+	p.suspended = false
+	p.suspendState = nil
+
+	p.running = false
+	p.mu.Unlock()
 }
 
 // eventLoop runs the program until it quits.
@@ -316,6 +321,9 @@ func (p *Program[T]) eventLoop() {
 		select {
 		case <-p.quitCh:
 			return
+		case <-p.repaintCh:
+			p.repaint()
+			continue
 		default:
 		}
 
@@ -327,6 +335,9 @@ func (p *Program[T]) eventLoop() {
 			case msg = <-p.msgCh:
 			case <-p.quitCh:
 				return // External quit signal
+			case <-p.repaintCh:
+				p.repaint()
+				continue
 			}
 		}
 
@@ -507,6 +518,13 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 func (p *Program[T]) renderView() {
 	view := p.model.View()
 
+	// While suspended the terminal belongs to someone else; Resume redraws.
+	p.renderMu.Lock()
+	defer p.renderMu.Unlock()
+	if p.IsSuspended() {
+		return
+	}
+
 	if !p.altScreen {
 		// Lazily initialize the inline renderer on the first call.
 		// Width/height start at 0 (disables truncation/clipping) until
@@ -523,6 +541,18 @@ func (p *Program[T]) renderView() {
 	_, _ = p.output.Write([]byte(view))
 }
 
+// repaint renders the current model's view, all lines of it.
+//
+// It clears the inline renderer diff cache so all lines are repainted: an
+// external command may have written arbitrary content to the terminal,
+// invalidating our previous frame tracking.
+func (p *Program[T]) repaint() {
+	if p.inlineRenderer != nil {
+		p.inlineRenderer.Repaint()
+	}
+	p.renderView()
+}
+
 // startInputReader starts reading input in a goroutine.
 // Creates a new goroutine with cancellation support for ExecProcess.
 //
@@ -712,11 +742,18 @@ func (p *Program[T]) restartInputReader() {
 // Returns error if suspension fails (e.g., terminal operation error).
 // Safe to call multiple times - subsequent calls are no-ops.
 func (p *Program[T]) Suspend() error {
+	p.suspendMu.Lock()
+	defer p.suspendMu.Unlock()
+
 	p.mu.Lock()
 	if p.suspended {
 		p.mu.Unlock()
 		return nil // Already suspended
 	}
+	if p.loopDone != nil && !p.running {
+		p.mu.Unlock()
+		return nil // Program has ended, the terminal is in its normal state
+	}
 
 	// Validate terminal exists
 	if p.terminal == nil {
@@ -728,6 +765,10 @@ func (p *Program[T]) Suspend() error {
 	// Must be done outside mutex (stopInputReader uses mutex internally)
 	p.stopInputReader()
 
+	// Let a frame being written finish; none follows until Resume
+	p.renderMu.Lock()
+	defer p.renderMu.Unlock()
+
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
@@ -768,6 +809,7 @@ func (p *Program[T]) Suspend() error {
 		// Non-fatal - continue anyway
 		// Some terminals may not support cursor control
 	}
+	p.cursorHidden = false
 
 	// Mark as suspended and save state
 	p.suspended = true
@@ -800,6 +842,9 @@ func (p *Program[T]) Suspend() error {
 // Safe to call multiple times - subsequent calls are no-ops.
 // If Resume fails partway, terminal may be in inconsistent state.
 func (p *Program[T]) Resume() error {
+	p.suspendMu.Lock()
+	defer p.suspendMu.Unlock()
+
 	p.mu.Lock()
 	if !p.suspended {
 		p.mu.Unlock()
@@ -820,6 +865,7 @@ func (p *Program[T]) Resume() error {
 	if err := p.terminal.HideCursor(); err != nil {
 		// Non-fatal - continue anyway
 	}
+	p.cursorHidden = true
 	p.mu.Unlock()
 
 	// STEP 2: Re-enter alternate screen (if was active before)
@@ -850,13 +896,19 @@ func (p *Program[T]) Resume() error {
 	p.restartInputReader()
 
 	// STEP 5: Force full redraw.
-	// Clear the inline renderer diff cache so all lines are repainted.
-	// The external command may have written arbitrary content to the terminal,
-	// invalidating our previous frame tracking.
-	if p.inlineRenderer != nil {
-		p.inlineRenderer.Repaint()
+	// The event loop does it: the model and the renderer belong to it.
+	p.mu.Lock()
+	repaintCh := p.repaintCh
+	p.mu.Unlock()
+	if repaintCh == nil {
+		p.repaint() // No event loop yet
+		return nil
+	}
+	select {
+	case repaintCh <- struct{}{}:
+	default:
+		// Already requested
 	}
-	p.renderView()
 
 	return nil
 }
@@ -912,6 +964,15 @@ func (p *Program[T]) IsSuspended() bool {
 //
 // Returns error if command execution fails.
 func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
+	// One external process at a time has the terminal
+	p.execMu.Lock()
+	defer p.execMu.Unlock()
+
+	return p.execProcess(cmd)
+}
+
+// execProcess implements ExecProcess; execMu must be held.
+func (p *Program[T]) execProcess(cmd *exec.Cmd) error {
 	// Validate command
 	if cmd == nil {
 		return fmt.Errorf("exec: cmd is nil")
@@ -984,6 +1045,10 @@ func (p *Program[T]) ExecProcess(cmd *exec.Cmd) error {
 //
 // Returns error if command execution fails.
 func (p *Program[T]) ExecProcessWithTTY(cmd *exec.Cmd, opts TTYOptions) error {
+	// One external process at a time has the terminal
+	p.execMu.Lock()
+	defer p.execMu.Unlock()
+
 	// Platform-specific implementation in tty_control_unix.go or tty_control_windows.go
 	return p.execWithTTYControl(cmd, opts)
 }
diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index 1c74ba8..904c186 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -74,7 +74,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	if err != nil {
 		// Not a TTY - fall back to simple ExecProcess
 		log.Printf("WARNING: tcgetpgrp failed (not a TTY?): %v - falling back to simple exec", err)
-		return p.ExecProcess(cmd)
+		return p.execProcess(cmd)
 	}
 
 	// Temporarily ignore SIGTTOU to prevent being stopped
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 316915c..98e7ba6 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -74,7 +74,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	if err != nil {
 		// Not a TTY - fall back to simple ExecProcess
 		log.Printf("WARNING: tcgetpgrp failed (not a TTY?): %v - falling back to simple exec", err)
-		return p.ExecProcess(cmd)
+		return p.execProcess(cmd)
 	}
 
 	// Temporarily ignore SIGTTOU to prevent being stopped
diff --git a/tea/internal/application/program/tty_control_windows.go b/tea/internal/application/program/tty_control_windows.go
index 9c7395b..00fc8b2 100644
--- a/tea/internal/application/program/tty_control_windows.go
+++ b/tea/internal/application/program/tty_control_windows.go
@@ -57,7 +57,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	if err != nil {
 		// Not a console - fall back to simple ExecProcess
 		log.Printf("WARNING: GetStdHandle failed (not a console?): %v - falling back to simple exec", err)
-		return p.ExecProcess(cmd)
+		return p.execProcess(cmd)
 	}
 
 	// STEP 3: Save current console mode
@@ -65,7 +65,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 	if err := windows.GetConsoleMode(consoleHandle, &originalMode); err != nil {
 		// Not a console (e.g., piped input) - fall back to simple ExecProcess
 		log.Printf("WARNING: GetConsoleMode failed (not a console?): %v - falling back to simple exec", err)
-		return p.ExecProcess(cmd)
+		return p.execProcess(cmd)
 	}
 
 	// STEP 4: Disable virtual terminal processing (let child control console)
-- 
2.43.0


From cdf21da0cf754e9f1c3fd5d3e057a1ef91adda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 011/141] fix: tea: reap the child when the terminal cannot be
 handed over

---
 tea/internal/application/program/tty_control_darwin.go | 1 +
 tea/internal/application/program/tty_control_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tea/internal/application/program/tty_control_darwin.go b/tea/internal/application/program/tty_control_darwin.go
index 904c186..1955645 100644
--- a/tea/internal/application/program/tty_control_darwin.go
+++ b/tea/internal/application/program/tty_control_darwin.go
@@ -118,6 +118,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
+			_ = cmd.Wait() // Reap it; it must be gone before the TUI is back
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
diff --git a/tea/internal/application/program/tty_control_linux.go b/tea/internal/application/program/tty_control_linux.go
index 98e7ba6..58a8d38 100644
--- a/tea/internal/application/program/tty_control_linux.go
+++ b/tea/internal/application/program/tty_control_linux.go
@@ -118,6 +118,7 @@ func (p *Program[T]) execWithTTYControl(cmd *exec.Cmd, opts TTYOptions) error {
 		if err := tcsetpgrp(ttyFD, int32(childPid)); err != nil {
 			// Failed to transfer - kill child and restore TUI
 			_ = cmd.Process.Kill()
+			_ = cmd.Wait() // Reap it; it must be gone before the TUI is back
 			if resumeErr := p.Resume(); resumeErr != nil {
 				return fmt.Errorf("exec: failed to transfer foreground (%v) and %w", err, resumeErr)
 			}
-- 
2.43.0


From 5d4cd89d1a915c27a6b6399963b5f44b05d6ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 012/141] fix: tea: escape sequences of any length, however
 they are split across reads

A sequence split across reads was taken for an Esc key and stray characters, a
key following Esc in the same read was swallowed, and CancelableReader.Read
dropped what did not fit the buffer.
---
 .../infrastructure/input/cancelable_reader.go | 54 +++++++++--
 tea/internal/infrastructure/input/reader.go   | 92 ++++++++++++++-----
 2 files changed, 113 insertions(+), 33 deletions(-)

diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index 1f3ff8b..e1c13fc 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -39,6 +39,10 @@ type CancelableReader struct {
 	// Read result channel - buffered to allow background reader to continue
 	readCh chan readResult
 
+	// Result (or rest of one) that Read has not returned yet
+	restMu sync.Mutex
+	rest   *readResult
+
 	// Cleanup synchronization
 	readerDone chan struct{}
 
@@ -248,18 +252,50 @@ func (cr *CancelableReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
-	select {
-	case result := <-cr.readCh:
-		if result.n > 0 {
-			n := copy(p, result.data)
-			return n, result.err
+	cr.restMu.Lock()
+	defer cr.restMu.Unlock()
+
+	if cr.rest == nil {
+		select {
+		case result := <-cr.readCh:
+			cr.rest = &result
+
+		case <-cr.done:
+			// Canceled while waiting
+			return 0, io.EOF
 		}
-		return 0, result.err
+	}
 
-	case <-cr.done:
-		// Canceled while waiting
-		return 0, io.EOF
+	n := copy(p, cr.rest.data)
+	if n < len(cr.rest.data) {
+		// p is too small: the next Read continues here
+		cr.rest.data = cr.rest.data[n:]
+		return n, nil
+	}
+	err := cr.rest.err
+	cr.rest = nil
+	return n, err
+}
+
+// wait reports whether Read has data to return within timeout.
+func (cr *CancelableReader) wait(timeout time.Duration) bool {
+	cr.restMu.Lock()
+	defer cr.restMu.Unlock()
+
+	if cr.rest == nil {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+
+		select {
+		case result := <-cr.readCh:
+			cr.rest = &result
+		case <-cr.done:
+			return false
+		case <-timer.C:
+			return false
+		}
 	}
+	return len(cr.rest.data) > 0
 }
 
 // Cancel stops the reader immediately.
diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index fc192f5..1ed3512 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -4,11 +4,17 @@ package input
 import (
 	"bufio"
 	"io"
+	"time"
 
 	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/ansi"
 )
 
+// escapeTimeout is how long the next byte of an escape sequence may take to
+// arrive. Sequences can be split across reads (slow or remote terminals); an ESC
+// that nothing follows within this time is the Esc key.
+const escapeTimeout = 50 * time.Millisecond
+
 // Reader reads input from stdin and parses it into messages.
 // Supports cancellation for ExecProcess stdin release.
 //
@@ -86,31 +92,9 @@ func (ir *Reader) Read() (model.Msg, error) {
 	// Build sequence
 	seq := []byte{b}
 
-	// If ESC, try to read more bytes for ANSI sequence
+	// If ESC, read the rest of the ANSI sequence
 	if b == 0x1B {
-		// Peek ahead to see if more bytes available
-		// (with simple buffered check to avoid blocking forever)
-
-		// Try to read up to 10 more bytes (enough for most sequences)
-		for i := 0; i < 10; i++ {
-			// Check if byte available (non-blocking peek)
-			if ir.reader.Buffered() > 0 {
-				nextByte, err := ir.reader.ReadByte()
-				if err != nil {
-					break
-				}
-				seq = append(seq, nextByte)
-
-				// Stop if we hit a letter or tilde (end of most sequences)
-				if (nextByte >= 'A' && nextByte <= 'Z') ||
-					(nextByte >= 'a' && nextByte <= 'z') ||
-					nextByte == '~' {
-					break
-				}
-			} else {
-				break
-			}
-		}
+		seq = ir.readEscape(seq)
 	}
 
 	// Parse sequence (handles special keys, ANSI sequences, ASCII)
@@ -147,3 +131,63 @@ func (ir *Reader) Read() (model.Msg, error) {
 	//nolint:nilnil // Intentional: nil msg + nil error = skip this byte, continue reading
 	return nil, nil
 }
+
+// readEscape appends to seq, which holds an ESC, the rest of the escape
+// sequence it starts. If it starts none, the ESC is a key of its own and the
+// bytes after it stay unread:
+//   - CSI: ESC [ <parameter and intermediate bytes> <final byte>
+//     (and ESC [ [ <byte>, the Linux console's function keys)
+//   - SS3: ESC O <byte>
+func (ir *Reader) readEscape(seq []byte) []byte {
+	next, ok := ir.readByteSoon()
+	if !ok {
+		return seq
+	}
+
+	switch next {
+	case '[', 'O':
+		if !ir.waitInput() {
+			_ = ir.reader.UnreadByte() // ESC and '[' or 'O' are keys
+			return seq
+		}
+		seq = append(seq, next)
+	default:
+		_ = ir.reader.UnreadByte() // ESC is followed by another key
+		return seq
+	}
+
+	for {
+		b, ok := ir.readByteSoon()
+		if !ok {
+			return seq // Incomplete
+		}
+		if b < 0x20 || b > 0x7E {
+			_ = ir.reader.UnreadByte() // Not part of a sequence
+			return seq
+		}
+		seq = append(seq, b)
+
+		switch {
+		case next == 'O':
+			return seq
+		case len(seq) == 3 && b == '[':
+			// One more byte follows
+		case b >= 0x40:
+			return seq
+		}
+	}
+}
+
+// readByteSoon reads a byte if one arrives within escapeTimeout.
+func (ir *Reader) readByteSoon() (byte, bool) {
+	if !ir.waitInput() {
+		return 0, false
+	}
+	b, err := ir.reader.ReadByte()
+	return b, err == nil
+}
+
+// waitInput reports whether input arrives within escapeTimeout.
+func (ir *Reader) waitInput() bool {
+	return ir.reader.Buffered() > 0 || ir.cancelableReader.wait(escapeTimeout)
+}
-- 
2.43.0


From 39739e848fc11dc64e7d94480566278059f492b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 013/141] fix: tea: stopping the input reader neither steals
 nor loses input

On a terminal in blocking mode the relay stayed in read(2) after Suspend and
took the first input meant for the external process; other streams lost
whatever the stopped reader had taken but not delivered.
---
 tea/internal/application/program/program.go   | 32 +++++--
 .../infrastructure/input/cancelable_reader.go | 89 +++++++++++++++--
 tea/internal/infrastructure/input/reader.go   | 42 +++++++-
 tea/internal/infrastructure/input/source.go   | 96 +++++++++++++++++++
 .../infrastructure/input/source_wait_linux.go | 46 +++++++++
 .../infrastructure/input/source_wait_other.go | 13 +++
 6 files changed, 302 insertions(+), 16 deletions(-)
 create mode 100644 tea/internal/infrastructure/input/source.go
 create mode 100644 tea/internal/infrastructure/input/source_wait_linux.go
 create mode 100644 tea/internal/infrastructure/input/source_wait_other.go

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 6efd78d..977189a 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -46,6 +46,8 @@ type Program[T any] struct {
 
 	// Input reader for parsing stdin
 	inputReader *input.Reader
+	inputSource *input.Source // What successive input readers read from
+	undelivered model2.Msg    // Read by an input reader that was stopped before it could send it
 
 	// Input reader goroutine lifecycle management
 	inputReaderCancel     context.CancelFunc // Cancel function to stop inputReader goroutine
@@ -561,7 +563,12 @@ func (p *Program[T]) repaint() {
 func (p *Program[T]) startInputReader() {
 	// Always create a new Reader (CancelableReader cannot be reused after Cancel)
 	// This ensures fresh state after ExecProcess
-	reader := input.NewReader(p.input)
+	p.mu.Lock()
+	if p.inputSource == nil {
+		p.inputSource = input.NewSource(p.input)
+	}
+	reader := input.NewSourceReader(p.inputSource)
+	p.mu.Unlock()
 
 	// Create cancellation context for this inputReader goroutine
 	ctx, cancel := context.WithCancel(context.Background())
@@ -570,6 +577,8 @@ func (p *Program[T]) startInputReader() {
 	p.mu.Lock()
 	done := make(chan struct{})
 	msgCh, loopDone := p.msgCh, p.loopDone
+	undelivered := p.undelivered
+	p.undelivered = nil
 	p.inputReader = reader
 	p.inputReaderCancel = cancel
 	p.inputReaderDone = done
@@ -594,20 +603,30 @@ func (p *Program[T]) startInputReader() {
 			p.mu.Unlock()
 		}()
 
+		// What an earlier input reader could not send comes first
+		msg := undelivered
+
 		for {
 			// Check if context canceled before reading
+			// (the next input reader sends what this one does not)
 			select {
 			case <-ctx.Done():
+				p.mu.Lock()
+				p.undelivered = msg
+				p.mu.Unlock()
 				return
 			default:
 			}
 
 			// Read input (blocks until input available)
 			// Note: Read() itself is blocking, but we check ctx.Done() on each iteration
-			msg, err := reader.Read()
-			if err != nil {
-				// EOF or error - stop reading
-				return
+			if msg == nil {
+				var err error
+				msg, err = reader.Read()
+				if err != nil {
+					// EOF or error - stop reading
+					return
+				}
 			}
 
 			// Skip nil messages (unknown sequences)
@@ -618,8 +637,9 @@ func (p *Program[T]) startInputReader() {
 			// Send to event loop (with cancellation check)
 			select {
 			case msgCh <- msg:
+				msg = nil
 			case <-ctx.Done():
-				return
+				// Handled above
 			case <-loopDone:
 				return
 			}
diff --git a/tea/internal/infrastructure/input/cancelable_reader.go b/tea/internal/infrastructure/input/cancelable_reader.go
index e1c13fc..49a1487 100644
--- a/tea/internal/infrastructure/input/cancelable_reader.go
+++ b/tea/internal/infrastructure/input/cancelable_reader.go
@@ -29,7 +29,8 @@ import (
 // Fallback: If os.Pipe() fails, falls back to direct read with
 // platform-specific UnblockStdinRead().
 type CancelableReader struct {
-	r io.Reader
+	r   io.Reader
+	src *Source // Reads from r, keeps what this reader does not use
 
 	// Cancellation state
 	canceled atomic.Bool
@@ -50,8 +51,18 @@ type CancelableReader struct {
 	pipeReader     *os.File      // Read end - readLoop reads from this
 	pipeWriter     *os.File      // Write end - relay writes to this, Cancel() closes
 	pipeWriterOnce sync.Once     // Protects pipeWriter from double-close
+	shutdownOnce   sync.Once     // Protects the cleanup in WaitForShutdown
 	relayDone      chan struct{} // Signals when relay goroutine exits
 	usePipe        bool          // true if pipe relay is active
+
+	// Wakes up the relay if it waits for a file (nil otherwise)
+	wakeReader *os.File
+	wakeWriter *os.File // Cancel() closes
+
+	// Input read but not delivered when canceled, in the order of the stream.
+	// Owned by the goroutines, readable once they have exited.
+	readerRest []byte
+	relayRest  []byte
 }
 
 // readResult holds the result of a single read operation.
@@ -75,13 +86,27 @@ type readResult struct {
 //	    // Either actual EOF or canceled
 //	}
 func NewCancelableReader(r io.Reader) *CancelableReader {
+	return newCancelableReader(NewSource(r))
+}
+
+// newCancelableReader creates a reader that reads from a source.
+func newCancelableReader(src *Source) *CancelableReader {
 	cr := &CancelableReader{
-		r:          r,
+		r:          src.r,
+		src:        src,
 		done:       make(chan struct{}),
 		readCh:     make(chan readResult, 1), // Buffered for non-blocking send
 		readerDone: make(chan struct{}),
 	}
 
+	if src.waitable {
+		wakeReader, wakeWriter, err := os.Pipe()
+		if err == nil {
+			cr.wakeReader = wakeReader
+			cr.wakeWriter = wakeWriter
+		}
+	}
+
 	// Try pipe-based relay (works on all platforms including MSYS/mintty)
 	pipeReader, pipeWriter, err := os.Pipe()
 	if err == nil {
@@ -138,13 +163,14 @@ func (cr *CancelableReader) relayLoop() {
 		}
 
 		// Read from underlying reader (may block on real stdin)
-		n, err := cr.r.Read(buf)
+		n, err := cr.src.read(buf, cr.done, cr.wakeReader)
 
 		if n > 0 {
 			// Write to pipe (may fail if pipe closed by Cancel)
-			_, writeErr := cr.pipeWriter.Write(buf[:n])
+			written, writeErr := cr.pipeWriter.Write(buf[:n])
 			if writeErr != nil {
 				// Pipe closed by Cancel() — expected during cancellation
+				cr.relayRest = buf[written:n]
 				return
 			}
 		}
@@ -191,6 +217,7 @@ func (cr *CancelableReader) readLoopPipe() {
 			// Result delivered
 		case <-cr.done:
 			// Canceled while trying to send
+			cr.readerRest = result.data
 			return
 		}
 
@@ -216,7 +243,7 @@ func (cr *CancelableReader) readLoop() {
 		default:
 		}
 
-		n, err := cr.r.Read(buf)
+		n, err := cr.src.read(buf, cr.done, cr.wakeReader)
 
 		result := readResult{
 			n:   n,
@@ -230,6 +257,7 @@ func (cr *CancelableReader) readLoop() {
 		select {
 		case cr.readCh <- result:
 		case <-cr.done:
+			cr.readerRest = result.data
 			return
 		}
 
@@ -324,6 +352,10 @@ func (cr *CancelableReader) Cancel() {
 			// Legacy fallback: inject fake input for direct-read mode
 			_ = UnblockStdinRead()
 		}
+
+		if cr.wakeWriter != nil {
+			_ = cr.wakeWriter.Close()
+		}
 	})
 }
 
@@ -371,6 +403,7 @@ func (cr *CancelableReader) WaitForShutdown() {
 	}
 
 	// Wait for relay goroutine (pipe mode only)
+	relayExited := true
 	if cr.usePipe && cr.relayDone != nil {
 		select {
 		case <-cr.relayDone:
@@ -378,13 +411,20 @@ func (cr *CancelableReader) WaitForShutdown() {
 		case <-time.After(50 * time.Millisecond):
 			// Relay may still be blocked in stdin Read — acceptable.
 			// It will exit on next input event or when process exits.
+			relayExited = false
 		}
 	}
 
-	// Cleanup pipe reader
-	if cr.pipeReader != nil {
-		_ = cr.pipeReader.Close()
-	}
+	// Cleanup
+	cr.shutdownOnce.Do(func() {
+		cr.giveBack(relayExited)
+		if cr.pipeReader != nil {
+			_ = cr.pipeReader.Close()
+		}
+		if cr.wakeReader != nil && relayExited {
+			_ = cr.wakeReader.Close()
+		}
+	})
 
 	// Reset stdin deadline for next CancelableReader instance
 	if cr.usePipe {
@@ -393,3 +433,34 @@ func (cr *CancelableReader) WaitForShutdown() {
 		}
 	}
 }
+
+// giveBack returns to the source what was read from it but not delivered.
+func (cr *CancelableReader) giveBack(relayExited bool) {
+	if !cr.canceled.Load() {
+		return
+	}
+
+	cr.restMu.Lock()
+	defer cr.restMu.Unlock()
+
+	var data []byte
+	if cr.rest != nil {
+		data = append(data, cr.rest.data...)
+		cr.rest = nil
+	}
+	select {
+	case result := <-cr.readCh:
+		data = append(data, result.data...)
+	default:
+	}
+	data = append(data, cr.readerRest...)
+	if cr.usePipe {
+		if piped, err := io.ReadAll(cr.pipeReader); err == nil {
+			data = append(data, piped...) // The write end is closed
+		}
+		if relayExited {
+			data = append(data, cr.relayRest...)
+		}
+	}
+	cr.src.giveBack(data)
+}
diff --git a/tea/internal/infrastructure/input/reader.go b/tea/internal/infrastructure/input/reader.go
index 1ed3512..6adc690 100644
--- a/tea/internal/infrastructure/input/reader.go
+++ b/tea/internal/infrastructure/input/reader.go
@@ -4,7 +4,9 @@ package input
 import (
 	"bufio"
 	"io"
+	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/ansi"
@@ -20,9 +22,11 @@ const escapeTimeout = 50 * time.Millisecond
 //
 // The zero value is not usable; use NewReader.
 type Reader struct {
+	mu               sync.Mutex // Held by Read
 	reader           *bufio.Reader
 	parser           *ansi.Parser
 	cancelableReader *CancelableReader // For cancellation support
+	partial          []byte            // Start of an escape sequence that Cancel() cut off
 }
 
 // NewReader creates a new input reader with cancellation support.
@@ -31,8 +35,15 @@ type Reader struct {
 // allowing Cancel() to immediately unblock any pending Read() calls.
 // This is essential for ExecProcess to cleanly release stdin.
 func NewReader(r io.Reader) *Reader {
+	return NewSourceReader(NewSource(r))
+}
+
+// NewSourceReader creates a new input reader like NewReader. Input that it has
+// taken from the source but not returned when it is canceled is left for the
+// next reader of the source.
+func NewSourceReader(src *Source) *Reader {
 	// Wrap with CancelableReader for cancellation support
-	cancelableReader := NewCancelableReader(r)
+	cancelableReader := newCancelableReader(src)
 
 	return &Reader{
 		reader:           bufio.NewReader(cancelableReader),
@@ -61,6 +72,16 @@ func (ir *Reader) WaitForShutdown() {
 	if ir.cancelableReader != nil {
 		ir.cancelableReader.WaitForShutdown()
 	}
+
+	// Input taken from the CancelableReader precedes what it has given back
+	ir.mu.Lock()
+	defer ir.mu.Unlock()
+	if ir.IsCanceled() {
+		buffered, _ := ir.reader.Peek(ir.reader.Buffered())
+		ir.cancelableReader.src.giveBack(append(ir.partial, buffered...))
+		ir.partial = nil
+		_, _ = ir.reader.Discard(len(buffered))
+	}
 }
 
 // IsCanceled returns true if the reader has been canceled.
@@ -83,6 +104,9 @@ func (ir *Reader) IsCanceled() bool {
 //
 //nolint:gocognit,gocyclo,cyclop,nestif // Input parsing requires sequential byte analysis
 func (ir *Reader) Read() (model.Msg, error) {
+	ir.mu.Lock()
+	defer ir.mu.Unlock()
+
 	// Read one byte to detect input type
 	b, err := ir.reader.ReadByte()
 	if err != nil {
@@ -95,6 +119,11 @@ func (ir *Reader) Read() (model.Msg, error) {
 	// If ESC, read the rest of the ANSI sequence
 	if b == 0x1B {
 		seq = ir.readEscape(seq)
+		if ir.IsCanceled() {
+			// May be cut off: the next reader sees all of it
+			ir.partial = seq
+			return nil, io.EOF
+		}
 	}
 
 	// Parse sequence (handles special keys, ANSI sequences, ASCII)
@@ -111,6 +140,17 @@ func (ir *Reader) Read() (model.Msg, error) {
 			return nil, err
 		}
 
+		// Wait until the rune is complete
+		for n := 1; n <= utf8.UTFMax; n++ {
+			head, err := ir.reader.Peek(n)
+			if err != nil && ir.IsCanceled() {
+				return nil, io.EOF // Left for the next reader
+			}
+			if err != nil || utf8.FullRune(head) {
+				break
+			}
+		}
+
 		// Read as rune (handles multi-byte UTF-8 automatically)
 		r, _, err := ir.reader.ReadRune()
 		if err != nil {
diff --git a/tea/internal/infrastructure/input/source.go b/tea/internal/infrastructure/input/source.go
new file mode 100644
index 0000000..a8c6679
--- /dev/null
+++ b/tea/internal/infrastructure/input/source.go
@@ -0,0 +1,96 @@
+package input
+
+import (
+	"io"
+	"os"
+	"sync"
+	"time"
+)
+
+// Source is an input stream that successive CancelableReaders read from.
+//
+// A reader that is canceled (ExecProcess releases stdin this way) may have taken
+// input that nobody has seen yet, or be blocked in a read of a stream that
+// cannot be interrupted. The source keeps that input for the next reader.
+//
+// The zero value is not usable; use NewSource.
+type Source struct {
+	r io.Reader
+
+	interruptible bool // r is a file whose Read is interrupted by a deadline
+	waitable      bool // r is a file that can only be waited for (a terminal in blocking mode)
+
+	mu      sync.Mutex
+	unread  []byte          // Input given back by a canceled reader
+	reading bool            // True if a read is in progress or has a result
+	results chan readResult // Result of the read in progress
+}
+
+// NewSource creates a source that reads from r.
+func NewSource(r io.Reader) *Source {
+	s := &Source{r: r, results: make(chan readResult, 1)}
+	if f, ok := r.(*os.File); ok {
+		s.interruptible = f.SetReadDeadline(time.Time{}) == nil
+		s.waitable = !s.interruptible && canWaitReadable
+	}
+	return s
+}
+
+// read reads like io.Reader. It returns 0, io.EOF once done is closed.
+//
+// wake is a pipe whose other end is closed together with done; it is needed
+// only if the source is waitable.
+func (s *Source) read(p []byte, done <-chan struct{}, wake *os.File) (int, error) {
+	s.mu.Lock()
+	if len(s.unread) > 0 {
+		n := copy(p, s.unread)
+		s.unread = s.unread[n:]
+		s.mu.Unlock()
+		return n, nil
+	}
+
+	// A file is read when it has input, unless done is closed first.
+	if s.interruptible || s.waitable {
+		s.mu.Unlock()
+		if s.waitable && !waitReadable(s.r.(*os.File), wake) {
+			return 0, io.EOF
+		}
+		return s.r.Read(p)
+	}
+
+	// Other streams are read in the background: if done is closed first, the
+	// result is left for the next reader.
+	if !s.reading {
+		s.reading = true
+		go func() {
+			buf := make([]byte, len(p))
+			n, err := s.r.Read(buf)
+			s.results <- readResult{data: buf[:n], n: n, err: err}
+		}()
+	}
+	s.mu.Unlock()
+
+	select {
+	case <-done:
+		return 0, io.EOF
+	default:
+	}
+	select {
+	case result := <-s.results:
+		s.mu.Lock()
+		s.reading = false
+		n := copy(p, result.data)
+		s.unread = append(s.unread, result.data[n:]...)
+		s.mu.Unlock()
+		return n, result.err
+	case <-done:
+		return 0, io.EOF
+	}
+}
+
+// giveBack returns input that has been read but not used.
+func (s *Source) giveBack(data []byte) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.unread = append(data[:len(data):len(data)], s.unread...)
+}
diff --git a/tea/internal/infrastructure/input/source_wait_linux.go b/tea/internal/infrastructure/input/source_wait_linux.go
new file mode 100644
index 0000000..46a6096
--- /dev/null
+++ b/tea/internal/infrastructure/input/source_wait_linux.go
@@ -0,0 +1,46 @@
+package input
+
+import (
+	"errors"
+	"os"
+
+	"golang.org/x/sys/unix"
+)
+
+// canWaitReadable is true if waitReadable is implemented.
+const canWaitReadable = true
+
+// waitReadable blocks until f is readable (or at its end) and returns true, or
+// until the other end of the pipe wake is closed and returns false.
+func waitReadable(f, wake *os.File) bool {
+	ready := false
+	fconn, err := f.SyscallConn()
+	if err != nil {
+		return true // Let Read report it
+	}
+	wconn, err := wake.SyscallConn()
+	if err != nil {
+		return false
+	}
+	werr := wconn.Control(func(wfd uintptr) {
+		err = fconn.Control(func(fd uintptr) {
+			fds := []unix.PollFd{
+				{Fd: int32(wfd), Events: unix.POLLIN},
+				{Fd: int32(fd), Events: unix.POLLIN},
+			}
+			for {
+				_, perr := unix.Poll(fds, -1)
+				if errors.Is(perr, unix.EINTR) {
+					continue
+				}
+				// Closed by Cancel, which takes precedence
+				ready = perr != nil || fds[0].Revents == 0
+				return
+			}
+		})
+	})
+	if werr != nil {
+		return false // wake is closed
+	}
+	return ready || err != nil
+}
diff --git a/tea/internal/infrastructure/input/source_wait_other.go b/tea/internal/infrastructure/input/source_wait_other.go
new file mode 100644
index 0000000..4c0ab6e
--- /dev/null
+++ b/tea/internal/infrastructure/input/source_wait_other.go
@@ -0,0 +1,13 @@
+//go:build !linux
+
+package input
+
+import "os"
+
+// canWaitReadable is true if waitReadable is implemented.
+const canWaitReadable = false
+
+// waitReadable is implemented on Linux only.
+func waitReadable(_, _ *os.File) bool {
+	return true
+}
-- 
2.43.0


From e65809d6cffba7848fa9bf9b714cf556b615fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 014/141] fix: tea: inline frames keep their last line and
 column

A frame that got shorter erased its last line if that was unchanged, a line as
wide as the terminal lost its last character, and an empty view was not drawn
after Resize or Repaint.
---
 tea/internal/infrastructure/renderer/inline.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 6c633e7..4970a8a 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -79,7 +79,8 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	defer r.mu.Unlock()
 
 	// No-op if the view is identical to the previous render.
-	if view == r.lastView && r.linesRendered > 0 {
+	// (lastLines is nil if a full repaint is due.)
+	if view == r.lastView && r.linesRendered > 0 && r.lastLines != nil {
 		return nil
 	}
 
@@ -121,8 +122,15 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 
 		// Write the (possibly truncated) line content followed by erase-to-EOL.
 		// The erase sequence clears any leftover characters from a longer previous line.
-		buf.WriteString(line)
-		buf.WriteString(eraseLineRight)
+		// After a line that fills the width the cursor is still on its last
+		// character, which the sequence would erase: there it comes first.
+		if r.width > 0 && visualWidth(line) >= r.width {
+			buf.WriteString(eraseLineRight)
+			buf.WriteString(line)
+		} else {
+			buf.WriteString(line)
+			buf.WriteString(eraseLineRight)
+		}
 
 		if i < len(newLines)-1 {
 			buf.WriteString("\r\n")
@@ -130,8 +138,11 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	}
 
 	// Erase any extra lines from the previous render that are no longer present.
+	// The cursor is on the last line that remains: erase from the next one.
 	if r.linesRendered > len(newLines) {
+		buf.WriteString("\r\n")
 		buf.WriteString(eraseScreenBelow)
+		buf.WriteString(cursorUp(1))
 	}
 
 	// Leave cursor at column 0 of the last rendered line for consistent positioning.
-- 
2.43.0


From 9f3706808d8a3e5ca7e81d232864c3096336685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 015/141] fix: tea: truncated lines keep the escape sequences
 that end their style

---
 tea/internal/infrastructure/renderer/inline.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 4970a8a..d7bc6ab 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -335,6 +335,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 	var b strings.Builder
 	b.Grow(len(s))
 	width := 0
+	full := false
 	i := 0
 
 	for i < len(s) {
@@ -384,12 +385,14 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 		// Decode rune and check remaining width budget.
 		r, size := decodeRune(s, i)
 		rw := runeDisplayWidth(r)
-		if width+rw > maxWidth {
-			break
+		i += size
+		if full || width+rw > maxWidth {
+			// Go on for the escape sequences (the style must still be reset)
+			full = true
+			continue
 		}
 		b.WriteRune(r)
 		width += rw
-		i += size
 	}
 
 	return b.String()
-- 
2.43.0


From 506d659bce3c6eb5324d772884135920d9967c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 016/141] fix: tea: styles that span lines survive line diffing
 and clipping

---
 .../infrastructure/renderer/inline.go         | 45 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index d7bc6ab..8bb7a0c 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -23,6 +23,9 @@ const (
 	// Used when the new frame has fewer lines than the previous frame.
 	eraseScreenBelow = "\x1b[J"
 
+	// resetStyle returns to the default colors and attributes.
+	resetStyle = "\x1b[0m"
+
 	// carriageReturn moves the cursor to column 0 of the current line.
 	carriageReturn = "\r"
 )
@@ -95,7 +98,7 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	// and subsequent renders where cursor sits at end of last line).
 	buf.WriteString(carriageReturn)
 
-	newLines := strings.Split(view, "\n")
+	newLines := selfContained(strings.Split(view, "\n"))
 
 	// Clip to terminal height — cannot scroll into the scrollback buffer
 	// while the inline render region is active.
@@ -398,6 +401,46 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 	return b.String()
 }
 
+// selfContained makes each line independent of the lines before it: a style that
+// spans lines is set again on each and reset at its end. Only then can lines be
+// skipped, clipped or rewritten one by one.
+func selfContained(lines []string) []string {
+	active := ""
+	for i, line := range lines {
+		before := active
+		for rest := line; ; {
+			start := strings.Index(rest, "\x1b[")
+			if start < 0 {
+				break
+			}
+			rest = rest[start:]
+			end := 2
+			for end < len(rest) && (rest[end] < 0x40 || rest[end] > 0x7E) {
+				end++
+			}
+			if end >= len(rest) {
+				break
+			}
+			if rest[end] == 'm' {
+				switch params := rest[2:end]; {
+				case params == "" || params == "0":
+					active = ""
+				case strings.HasPrefix(params, "0;"):
+					active = rest[:end+1]
+				default:
+					active += rest[:end+1]
+				}
+			}
+			rest = rest[end+1:]
+		}
+		lines[i] = before + line
+		if active != "" {
+			lines[i] += resetStyle
+		}
+	}
+	return lines
+}
+
 // decodeRune decodes a UTF-8 rune from s starting at byte offset i.
 // Returns the rune and the number of bytes consumed.
 func decodeRune(s string, i int) (rune, int) {
-- 
2.43.0


From 02b1404c1c82805d812788dd9c0018f8e772974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 017/141] fix: tea: inline frames count the width of emoji
 symbols

---
 .../infrastructure/renderer/inline.go         | 47 +++++++++++++++++--
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 8bb7a0c..52dbf5a 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -303,6 +303,14 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r >= 0x1F300 && r <= 0x1F9FF: // Miscellaneous Symbols + Emoji
 		return 2
+	case r >= 0x16FE0 && r <= 0x18CFF, r >= 0x1AFF0 && r <= 0x1B2FF: // Tangut, Khitan, Kana, Nushu
+		return 2
+	case r == 0x1F18E, r >= 0x1F191 && r <= 0x1F19A, r >= 0x1F200 && r <= 0x1F265: // Enclosed Supplement
+		return 2
+	case r >= 0x1FA70 && r <= 0x1FAFF: // Symbols and Pictographs Extended-A
+		return 2
+	case unicode.Is(wideSymbols, r):
+		return 2
 	case r >= 0x20000 && r <= 0x2FFFD: // CJK Extension B-F
 		return 2
 	case r >= 0x30000 && r <= 0x3FFFD: // CJK Extension G+
@@ -315,13 +323,44 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 	return 1
 }
 
+// wideSymbols are the symbols of the BMP that are shown as emoji by default.
+var wideSymbols = &unicode.RangeTable{
+	R16: []unicode.Range16{
+		{Lo: 0x231A, Hi: 0x231B, Stride: 1}, {Lo: 0x23E9, Hi: 0x23EC, Stride: 1},
+		{Lo: 0x23F0, Hi: 0x23F3, Stride: 3}, {Lo: 0x25FD, Hi: 0x25FE, Stride: 1},
+		{Lo: 0x2614, Hi: 0x2615, Stride: 1}, {Lo: 0x2648, Hi: 0x2653, Stride: 1},
+		{Lo: 0x267F, Hi: 0x2693, Stride: 20}, {Lo: 0x26A1, Hi: 0x26A1, Stride: 1},
+		{Lo: 0x26AA, Hi: 0x26AB, Stride: 1}, {Lo: 0x26BD, Hi: 0x26BE, Stride: 1},
+		{Lo: 0x26C4, Hi: 0x26C5, Stride: 1}, {Lo: 0x26CE, Hi: 0x26D4, Stride: 6},
+		{Lo: 0x26EA, Hi: 0x26EA, Stride: 1}, {Lo: 0x26F2, Hi: 0x26F3, Stride: 1},
+		{Lo: 0x26F5, Hi: 0x26FA, Stride: 5}, {Lo: 0x26FD, Hi: 0x26FD, Stride: 1},
+		{Lo: 0x2705, Hi: 0x2705, Stride: 1}, {Lo: 0x270A, Hi: 0x270B, Stride: 1},
+		{Lo: 0x2728, Hi: 0x2728, Stride: 1}, {Lo: 0x274C, Hi: 0x274E, Stride: 2},
+		{Lo: 0x2753, Hi: 0x2755, Stride: 1}, {Lo: 0x2757, Hi: 0x2757, Stride: 1},
+		{Lo: 0x2795, Hi: 0x2797, Stride: 1}, {Lo: 0x27B0, Hi: 0x27BF, Stride: 15},
+		{Lo: 0x2B1B, Hi: 0x2B1C, Stride: 1}, {Lo: 0x2B50, Hi: 0x2B55, Stride: 5},
+	},
+}
+
+// emojiPresentation is the variation selector that widens a narrow symbol.
+const emojiPresentation = 0xFE0F
+
+// nextWidth returns the width of r after a rune of width prev.
+func nextWidth(prev int, r rune) int {
+	if r == emojiPresentation && prev == 1 {
+		return 1
+	}
+	return runeDisplayWidth(r)
+}
+
 // visualWidth returns the number of terminal columns that s occupies,
 // ignoring any ANSI escape sequences.
 func visualWidth(s string) int {
 	plain := stripANSI(s)
-	w := 0
+	w, rw := 0, 0
 	for _, r := range plain {
-		w += runeDisplayWidth(r)
+		rw = nextWidth(rw, r)
+		w += rw
 	}
 	return w
 }
@@ -337,7 +376,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 
 	var b strings.Builder
 	b.Grow(len(s))
-	width := 0
+	width, rw := 0, 0
 	full := false
 	i := 0
 
@@ -387,7 +426,7 @@ func truncateLine(s string, maxWidth int) string { //nolint:gocognit,gocyclo,cyc
 
 		// Decode rune and check remaining width budget.
 		r, size := decodeRune(s, i)
-		rw := runeDisplayWidth(r)
+		rw = nextWidth(rw, r)
 		i += size
 		if full || width+rw > maxWidth {
 			// Go on for the escape sequences (the style must still be reset)
-- 
2.43.0


From 62279c955794b7bfc537f7fff6e0b4f9334d2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 018/141] fix: tea: frames on the alternate screen start at its
 top and replace each other

They were written raw, one after the other, at whatever position the cursor
was, and with line feeds that do not return to the first column in raw mode.
---
 tea/internal/application/program/program.go | 57 +++++++++++++--------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 977189a..d448280 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -74,11 +74,12 @@ type Program[T any] struct {
 	// Closed when the current event loop ends; nil before the first Run/Start.
 	loopDone chan struct{}
 
-	// Inline renderer for non-alt-screen mode.
+	// Inline renderer.
 	// Initialized lazily in renderView() on the first render call.
 	// Tracks linesRendered so subsequent renders overwrite the previous frame
 	// instead of appending below it.
 	inlineRenderer *renderer.InlineRenderer
+	screenCleared  bool // True if the frame starts at the top of the cleared alternate screen
 
 	// Suspend/Resume state (for ExecProcess and public API)
 	suspended    bool            // True if TUI is suspended
@@ -256,6 +257,12 @@ func (p *Program[T]) beginLoop() {
 	p.repaintCh = make(chan struct{}, 1)
 	p.suspended = false
 	p.suspendState = nil
+
+	// The first frame starts at the cursor, whatever was rendered earlier
+	p.screenCleared = false
+	if p.inlineRenderer != nil {
+		p.inlineRenderer.SetOutput(p.output)
+	}
 }
 
 // endLoop releases every goroutine the event loop started and leaves the
@@ -361,9 +368,14 @@ func (p *Program[T]) eventLoop() {
 		}
 
 		// Intercept WindowSizeMsg to keep inline renderer dimensions current.
-		if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok && !p.altScreen {
+		if sizeMsg, ok := msg.(model2.WindowSizeMsg); ok {
 			if p.inlineRenderer != nil {
 				p.inlineRenderer.Resize(sizeMsg.Width, sizeMsg.Height)
+				if p.altScreen {
+					// The terminal may have moved the frame: start over
+					p.inlineRenderer.SetOutput(p.output)
+					p.screenCleared = false
+				}
 			}
 		}
 
@@ -511,12 +523,9 @@ func (p *Program[T]) executeCommand(cmd model2.Cmd) {
 
 // renderView renders the current model's view to output.
 //
-// In inline (non-alt-screen) mode the InlineRenderer is used to overwrite
-// the previous frame using ANSI cursor-up sequences, preventing the
-// stacked-output bug where each update appends below the last.
-//
-// In alt-screen mode a plain write is used; the alt-screen renderer will be
-// integrated in a future release.
+// The InlineRenderer is used to overwrite the previous frame using ANSI
+// cursor-up sequences, preventing the stacked-output bug where each update
+// appends below the last. In alt-screen mode frames start at the top left.
 func (p *Program[T]) renderView() {
 	view := p.model.View()
 
@@ -527,20 +536,21 @@ func (p *Program[T]) renderView() {
 		return
 	}
 
-	if !p.altScreen {
-		// Lazily initialize the inline renderer on the first call.
-		// Width/height start at 0 (disables truncation/clipping) until
-		// a WindowSizeMsg updates the dimensions.
-		if p.inlineRenderer == nil {
-			p.inlineRenderer = renderer.NewInlineRenderer(p.output, 0, 0)
-		}
-		// Render errors are non-fatal (e.g. write to closed pipe during tests).
-		_ = p.inlineRenderer.Render(view)
-		return
+	// Lazily initialize the inline renderer on the first call.
+	// Width/height start at 0 (disables truncation/clipping) until
+	// a WindowSizeMsg updates the dimensions.
+	if p.inlineRenderer == nil {
+		p.inlineRenderer = renderer.NewInlineRenderer(p.output, 0, 0)
+	}
+
+	// Alt-screen mode: the first frame starts at the top of an empty screen.
+	if p.altScreen && !p.screenCleared {
+		_, _ = io.WriteString(p.output, "\x1b[H\x1b[2J")
+		p.screenCleared = true
 	}
 
-	// Alt-screen mode: plain write (cursor is at absolute position after \x1b[H).
-	_, _ = p.output.Write([]byte(view))
+	// Render errors are non-fatal (e.g. write to closed pipe during tests).
+	_ = p.inlineRenderer.Render(view)
 }
 
 // repaint renders the current model's view, all lines of it.
@@ -549,7 +559,12 @@ func (p *Program[T]) renderView() {
 // external command may have written arbitrary content to the terminal,
 // invalidating our previous frame tracking.
 func (p *Program[T]) repaint() {
-	if p.inlineRenderer != nil {
+	switch {
+	case p.inlineRenderer == nil:
+	case p.altScreen:
+		p.inlineRenderer.SetOutput(p.output)
+		p.screenCleared = false
+	default:
 		p.inlineRenderer.Repaint()
 	}
 	p.renderView()
-- 
2.43.0


From c167210c9083b1fda9da31d4a8d57d9cb036d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 019/141] fix: tea: Resume can be retried after the terminal
 refused it halfway

---
 tea/internal/application/program/program.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index d448280..39870ec 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -905,7 +905,8 @@ func (p *Program[T]) Resume() error {
 
 	// STEP 2: Re-enter alternate screen (if was active before)
 	p.mu.Lock()
-	if state.wasInAltScreen {
+	// (a Resume that failed later on may have done so already)
+	if state.wasInAltScreen && !p.terminal.IsInAltScreen() {
 		if err := p.terminal.EnterAltScreen(); err != nil {
 			p.mu.Unlock()
 			return fmt.Errorf("resume: failed to restore alt screen: %w", err)
@@ -915,7 +916,7 @@ func (p *Program[T]) Resume() error {
 
 	// STEP 3: Re-enter raw mode (if was active before)
 	p.mu.Lock()
-	if state.wasInRawMode {
+	if state.wasInRawMode && !p.terminal.IsInRawMode() {
 		if err := p.terminal.EnterRawMode(); err != nil {
 			p.mu.Unlock()
 			return fmt.Errorf("resume: failed to restore raw mode: %w", err)
-- 
2.43.0


From de3a5fa3214f01a1b1ad9529976309a784ac9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 020/141] fix: tea: a key waiting for delivery does not keep
 the input reader alive after the program ends

---
 tea/internal/application/program/program.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 39870ec..2f5defb 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -591,7 +591,7 @@ func (p *Program[T]) startInputReader() {
 	// Set state under mutex protection
 	p.mu.Lock()
 	done := make(chan struct{})
-	msgCh, loopDone := p.msgCh, p.loopDone
+	msgCh := p.msgCh
 	undelivered := p.undelivered
 	p.undelivered = nil
 	p.inputReader = reader
@@ -654,9 +654,7 @@ func (p *Program[T]) startInputReader() {
 			case msgCh <- msg:
 				msg = nil
 			case <-ctx.Done():
-				// Handled above
-			case <-loopDone:
-				return
+				// Handled above (endLoop cancels, too)
 			}
 		}
 	}()
-- 
2.43.0


From 9f4bd4ee8300d1618c634095ee4b77dd6d556c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 021/141] fix: tea: a Suspend during startup waits until the
 program has the terminal and the input

---
 tea/internal/application/program/program.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 2f5defb..0236c0a 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -152,9 +152,13 @@ func New[T any](m model2.Model[T], opts ...Option[T]) *Program[T] {
 //
 // Returns error if program is already running or initialization fails.
 func (p *Program[T]) Run() error {
+	// Suspend waits until the program has the terminal and the input
+	p.suspendMu.Lock()
+
 	p.mu.Lock()
 	if p.running {
 		p.mu.Unlock()
+		p.suspendMu.Unlock()
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
@@ -181,11 +185,15 @@ func (p *Program[T]) Run() error {
 				_ = p.terminal.ExitRawMode() // Cleanup raw mode if we entered it
 			}
 			p.mu.Unlock()
+			p.suspendMu.Unlock()
 			return fmt.Errorf("failed to enter alt screen: %w", err)
 		}
 	}
 	p.mu.Unlock()
 
+	p.startInputReader()
+	p.suspendMu.Unlock()
+
 	p.eventLoop()
 	return nil
 }
@@ -206,9 +214,13 @@ func (p *Program[T]) Run() error {
 //
 // Returns error if program is already running.
 func (p *Program[T]) Start() error {
+	// Suspend waits until the program has the terminal and the input
+	p.suspendMu.Lock()
+
 	p.mu.Lock()
 	if p.running {
 		p.mu.Unlock()
+		p.suspendMu.Unlock()
 		return fmt.Errorf("program already running")
 	}
 	p.running = true
@@ -235,11 +247,15 @@ func (p *Program[T]) Start() error {
 					_ = p.terminal.ExitRawMode() // Cleanup raw mode
 				}
 				p.mu.Unlock()
+				p.suspendMu.Unlock()
 				return
 			}
 		}
 		p.mu.Unlock()
 
+		p.startInputReader()
+		p.suspendMu.Unlock()
+
 		// Same event loop as Run(), but in goroutine
 		p.eventLoop()
 	}()
@@ -313,8 +329,6 @@ func (p *Program[T]) eventLoop() {
 	if initCmd != nil {
 		p.executeCommand(initCmd)
 	}
-	// Start input reader
-	p.startInputReader()
 
 	// STEP 2: Render initial view
 	p.renderView()
-- 
2.43.0


From bf5c11ea250eabe913614bb9b1215a127c768cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 022/141] fix: tea: no frame is drawn over foreign output
 before the redraw that Resume asks for

---
 tea/internal/application/program/program.go | 45 +++++++++++----------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 0236c0a..55f3aea 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -88,8 +88,9 @@ type Program[T any] struct {
 	suspendMu    sync.Mutex      // Serializes Suspend, Resume and the cleanup on exit
 	execMu       sync.Mutex      // Serializes external processes
 
-	renderMu  sync.Mutex    // Held while writing to the terminal
-	repaintCh chan struct{} // Asks the event loop to redraw everything
+	renderMu      sync.Mutex    // Held while writing to the terminal
+	repaintCh     chan struct{} // Asks the event loop to render
+	repaintNeeded bool          // True if the next frame must redraw everything
 }
 
 // suspendedState holds terminal state saved during Suspend().
@@ -271,6 +272,7 @@ func (p *Program[T]) beginLoop() {
 	p.quitCh = make(chan struct{}, 1)
 	p.loopDone = make(chan struct{})
 	p.repaintCh = make(chan struct{}, 1)
+	p.repaintNeeded = false
 	p.suspended = false
 	p.suspendState = nil
 
@@ -345,7 +347,7 @@ func (p *Program[T]) eventLoop() {
 		case <-p.quitCh:
 			return
 		case <-p.repaintCh:
-			p.repaint()
+			p.renderView()
 			continue
 		default:
 		}
@@ -359,7 +361,7 @@ func (p *Program[T]) eventLoop() {
 			case <-p.quitCh:
 				return // External quit signal
 			case <-p.repaintCh:
-				p.repaint()
+				p.renderView()
 				continue
 			}
 		}
@@ -550,6 +552,21 @@ func (p *Program[T]) renderView() {
 		return
 	}
 
+	// After Resume all lines are repainted: an external command may have written
+	// arbitrary content to the terminal, invalidating our previous frame tracking.
+	p.mu.Lock()
+	repaint := p.repaintNeeded
+	p.repaintNeeded = false
+	p.mu.Unlock()
+	if repaint && p.inlineRenderer != nil {
+		if p.altScreen {
+			p.inlineRenderer.SetOutput(p.output)
+			p.screenCleared = false
+		} else {
+			p.inlineRenderer.Repaint()
+		}
+	}
+
 	// Lazily initialize the inline renderer on the first call.
 	// Width/height start at 0 (disables truncation/clipping) until
 	// a WindowSizeMsg updates the dimensions.
@@ -567,23 +584,6 @@ func (p *Program[T]) renderView() {
 	_ = p.inlineRenderer.Render(view)
 }
 
-// repaint renders the current model's view, all lines of it.
-//
-// It clears the inline renderer diff cache so all lines are repainted: an
-// external command may have written arbitrary content to the terminal,
-// invalidating our previous frame tracking.
-func (p *Program[T]) repaint() {
-	switch {
-	case p.inlineRenderer == nil:
-	case p.altScreen:
-		p.inlineRenderer.SetOutput(p.output)
-		p.screenCleared = false
-	default:
-		p.inlineRenderer.Repaint()
-	}
-	p.renderView()
-}
-
 // startInputReader starts reading input in a goroutine.
 // Creates a new goroutine with cancellation support for ExecProcess.
 //
@@ -937,6 +937,7 @@ func (p *Program[T]) Resume() error {
 
 	// Clear suspended state
 	p.suspended = false
+	p.repaintNeeded = true
 	p.suspendState = nil
 	p.mu.Unlock()
 
@@ -949,7 +950,7 @@ func (p *Program[T]) Resume() error {
 	repaintCh := p.repaintCh
 	p.mu.Unlock()
 	if repaintCh == nil {
-		p.repaint() // No event loop yet
+		p.renderView() // No event loop yet
 		return nil
 	}
 	select {
-- 
2.43.0


From 5613cf030a8f06aba0e00c7db05a58551e0da09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 023/141] fix: tea: a frame cut by a shrinking terminal is not
 scrolled away by the next smaller one

---
 tea/internal/infrastructure/renderer/inline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 52dbf5a..9822c3a 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -185,6 +185,9 @@ func (r *InlineRenderer) Resize(width, height int) {
 	defer r.mu.Unlock()
 	r.width = width
 	r.height = height
+	if height > 0 && r.linesRendered > height {
+		r.linesRendered = height // the others have left the top of the screen
+	}
 	r.lastView = ""
 	r.lastLines = nil
 }
-- 
2.43.0


From 4b198837fde4a74d2ae4322c68f1861b037f02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 024/141] fix: tea: reading a file that a command has put into
 blocking mode can be stopped

---
 tea/internal/infrastructure/input/source.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tea/internal/infrastructure/input/source.go b/tea/internal/infrastructure/input/source.go
index a8c6679..12543e5 100644
--- a/tea/internal/infrastructure/input/source.go
+++ b/tea/internal/infrastructure/input/source.go
@@ -18,7 +18,7 @@ type Source struct {
 	r io.Reader
 
 	interruptible bool // r is a file whose Read is interrupted by a deadline
-	waitable      bool // r is a file that can only be waited for (a terminal in blocking mode)
+	waitable      bool // r is a file whose input can be waited for (also in blocking mode)
 
 	mu      sync.Mutex
 	unread  []byte          // Input given back by a canceled reader
@@ -30,8 +30,10 @@ type Source struct {
 func NewSource(r io.Reader) *Source {
 	s := &Source{r: r, results: make(chan readResult, 1)}
 	if f, ok := r.(*os.File); ok {
-		s.interruptible = f.SetReadDeadline(time.Time{}) == nil
-		s.waitable = !s.interruptible && canWaitReadable
+		// Deadlines have no effect once a file is in blocking mode, which a
+		// command that gets it as its stdin puts it in
+		s.waitable = canWaitReadable
+		s.interruptible = !s.waitable && f.SetReadDeadline(time.Time{}) == nil
 	}
 	return s
 }
-- 
2.43.0


From 145b5d15c3817638c04c1f191da0e76563970dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 025/141] fix: terminal: every 256color TERM counts as 256
 colors, as documented

---
 terminal/internal/infrastructure/unix/ansi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terminal/internal/infrastructure/unix/ansi.go b/terminal/internal/infrastructure/unix/ansi.go
index da36f82..9dd55bd 100644
--- a/terminal/internal/infrastructure/unix/ansi.go
+++ b/terminal/internal/infrastructure/unix/ansi.go
@@ -14,6 +14,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"strings"
 	"sync"
 
 	"golang.org/x/term"
@@ -312,7 +313,7 @@ func (a *ANSITerminal) ColorDepth() int {
 
 	// Check for 256 color support.
 	termEnv := os.Getenv("TERM")
-	if termEnv == "xterm-256color" || termEnv == "screen-256color" || termEnv == "tmux-256color" {
+	if strings.Contains(termEnv, "256color") {
 		return 256 // 8-bit
 	}
 
-- 
2.43.0


From 995d71c0fceb7ef14872e719e5d21ab2cd85d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 026/141] fix: style: alignment within a width works on each
 line and cuts whole characters

---
 style/internal/application/command/render.go  |  3 ++-
 style/internal/domain/service/text_aligner.go | 25 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index aa92847..1051c11 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -112,7 +112,8 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		if targetWidth > 0 && targetHeight > 0 {
 			content = rc.textAligner.AlignBoth(content, targetWidth, targetHeight, alignment)
 		} else if targetWidth > 0 {
-			content = rc.textAligner.AlignHorizontal(content, targetWidth, alignment.Horizontal())
+			height := strings.Count(content, "\n") + 1
+			content = rc.textAligner.AlignBoth(content, targetWidth, height, alignment)
 		} else if targetHeight > 0 {
 			content = rc.textAligner.AlignVertical(content, targetHeight, alignment.Vertical())
 		}
diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index a2ff647..6385400 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -40,8 +40,10 @@ func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment
 	textWidth := core.StringWidth(text)
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
+	// A wide character that does not fit as a whole leaves space to fill.
 	if textWidth > width {
-		return text[:width] // Simple truncation for now
+		text = truncateToWidth(text, width)
+		textWidth = core.StringWidth(text)
 	}
 
 	// If text fits exactly, return as-is.
@@ -171,3 +173,24 @@ func (ta *DefaultTextAligner) AlignBoth(text string, width, height int, alignmen
 	horizontallyAligned := strings.Join(alignedLines, "\n")
 	return ta.AlignVertical(horizontallyAligned, height, alignment.Vertical())
 }
+
+// truncateToWidth returns the longest prefix of text that occupies at most
+// width columns and does not end inside a character.
+func truncateToWidth(text string, width int) string {
+	total := core.StringWidth(text)
+
+	cut := 0
+	for i := range text {
+		prefixWidth := core.StringWidth(text[:i])
+		if prefixWidth > width {
+			break
+		}
+		// Widths do not add up where a cut would split a sequence of runes
+		// that is displayed as one character.
+		if prefixWidth+core.StringWidth(text[i:]) == total {
+			cut = i
+		}
+	}
+
+	return text[:cut]
+}
-- 
2.43.0


From 823503f90f4334e753b15b0b3964ca9f52f31aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 027/141] fix: style: padding and margin around lines of
 different widths form a rectangle

---
 .../domain/service/spacing_calculator.go      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/style/internal/domain/service/spacing_calculator.go b/style/internal/domain/service/spacing_calculator.go
index 4154279..f31669e 100644
--- a/style/internal/domain/service/spacing_calculator.go
+++ b/style/internal/domain/service/spacing_calculator.go
@@ -67,7 +67,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 	leftPad := strings.Repeat(" ", padding.Left())
 	rightPad := strings.Repeat(" ", padding.Right())
 
-	for _, line := range lines {
+	for _, line := range equalizeWidths(lines) {
 		paddedLine := leftPad + line + rightPad
 		paddedLines = append(paddedLines, paddedLine)
 	}
@@ -116,7 +116,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	leftMargin := strings.Repeat(" ", margin.Left())
 	rightMargin := strings.Repeat(" ", margin.Right())
 
-	for _, line := range lines {
+	for _, line := range equalizeWidths(lines) {
 		marginedLine := leftMargin + line + rightMargin
 		marginedLines = append(marginedLines, marginedLine)
 	}
@@ -153,3 +153,18 @@ func (sc *DefaultSpacingCalculator) ApplyBoth(content string, padding value2.Pad
 	padded := sc.ApplyPadding(content, padding)
 	return sc.ApplyMargin(padded, margin)
 }
+
+// equalizeWidths fills shorter lines up with spaces, so that the lines form a
+// rectangle as wide as the widest of them.
+func equalizeWidths(lines []string) []string {
+	maxWidth := 0
+	for _, line := range lines {
+		maxWidth = max(maxWidth, core.StringWidth(line))
+	}
+
+	result := make([]string, len(lines))
+	for i, line := range lines {
+		result[i] = line + strings.Repeat(" ", maxWidth-core.StringWidth(line))
+	}
+	return result
+}
-- 
2.43.0


From e3e9ebfd7029d1b167b981219e56314f211b8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 028/141] fix: style: the border color covers exactly the
 border's characters

---
 .../application/command/border_renderer.go    | 67 +++----------------
 1 file changed, 11 insertions(+), 56 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 4147202..2948e7a 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -65,8 +65,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 
 	// Content lines with left/right borders.
 	for _, line := range lines {
-		borderedLine := br.buildContentLine(line, border, maxWidth, hasLeft, hasRight)
-		borderedLine = br.applyBorderColorToSides(borderedLine, border, style, hasLeft, hasRight)
+		borderedLine := br.buildContentLine(line, border, style, maxWidth, hasLeft, hasRight)
 		result = append(result, borderedLine)
 	}
 
@@ -133,7 +132,9 @@ func (br *BorderRenderer) buildBottomBorder(border value2.Border, width int, has
 }
 
 // buildContentLine builds a content line with left/right borders.
-func (br *BorderRenderer) buildContentLine(line string, border value2.Border, targetWidth int, hasLeft, hasRight bool) string {
+func (br *BorderRenderer) buildContentLine(
+	line string, border value2.Border, style model.Style, targetWidth int, hasLeft, hasRight bool,
+) string {
 	// Calculate padding needed to reach target width.
 	currentWidth := core.StringWidth(line)
 	paddingWidth := targetWidth - currentWidth
@@ -148,7 +149,7 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Left border.
 	if hasLeft {
-		parts = append(parts, border.Left)
+		parts = append(parts, br.applyBorderColor(border.Left, style))
 	}
 
 	// Content.
@@ -156,70 +157,24 @@ func (br *BorderRenderer) buildContentLine(line string, border value2.Border, ta
 
 	// Right border.
 	if hasRight {
-		parts = append(parts, border.Right)
+		parts = append(parts, br.applyBorderColor(border.Right, style))
 	}
 
 	return strings.Join(parts, "")
 }
 
-// applyBorderColor applies border color to entire line.
-func (br *BorderRenderer) applyBorderColor(line string, style model.Style) string {
+// applyBorderColor applies border color to border characters.
+func (br *BorderRenderer) applyBorderColor(chars string, style model.Style) string {
 	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
-		return line
+	if !hasBorderColor || chars == "" {
+		return chars
 	}
 
 	// Adapt color to terminal capability.
 	termCap := style.GetTerminalCapability()
 	ansiCode := br.colorToANSI(borderColor, termCap, true)
 
-	return ansiCode + line + br.ansiGenerator.Reset()
-}
-
-// applyBorderColorToSides applies border color only to left/right border characters.
-// This is more complex because we need to color only the border chars, not the content.
-func (br *BorderRenderer) applyBorderColorToSides(line string, _ value2.Border, style model.Style, hasLeft, hasRight bool) string {
-	borderColor, hasBorderColor := style.GetBorderColor()
-	if !hasBorderColor {
-		return line
-	}
-
-	// If neither side has border, return as-is.
-	if !hasLeft && !hasRight {
-		return line
-	}
-
-	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-	reset := br.ansiGenerator.Reset()
-
-	// Split line to color only border characters.
-	runes := []rune(line)
-	var result strings.Builder
-
-	// Left border (first character).
-	if hasLeft && len(runes) > 0 {
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[0])
-		result.WriteString(reset)
-		runes = runes[1:]
-	}
-
-	// Middle content (no color).
-	if hasRight && len(runes) > 0 {
-		// All but last character.
-		result.WriteString(string(runes[:len(runes)-1]))
-
-		// Right border (last character).
-		result.WriteString(ansiCode)
-		result.WriteRune(runes[len(runes)-1])
-		result.WriteString(reset)
-	} else {
-		// No right border, write remaining content.
-		result.WriteString(string(runes))
-	}
-
-	return result.String()
+	return ansiCode + chars + br.ansiGenerator.Reset()
 }
 
 // colorToANSI converts a Color to ANSI code based on terminal capability.
-- 
2.43.0


From f54fb20e8c2ffefaf71a777c8327f22af9868c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 029/141] fix: style: border colors are adapted to the terminal
 like all others

---
 .../application/command/border_renderer.go    | 103 ++----------------
 style/internal/application/command/render.go  |   2 +-
 2 files changed, 9 insertions(+), 96 deletions(-)

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 2948e7a..80319f2 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
+	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
 )
@@ -13,14 +14,17 @@ import (
 // BorderRenderer handles border rendering around content.
 // This is a helper for RenderCommand that encapsulates border logic.
 type BorderRenderer struct {
+	colorAdapter  service2.ColorAdapter
 	ansiGenerator *ansi.ANSICodeGenerator
 }
 
 // NewBorderRenderer creates a new BorderRenderer.
 func NewBorderRenderer(
+	colorAdapter service2.ColorAdapter,
 	ansiGenerator *ansi.ANSICodeGenerator,
 ) *BorderRenderer {
 	return &BorderRenderer{
+		colorAdapter:  colorAdapter,
 		ansiGenerator: ansiGenerator,
 	}
 }
@@ -172,101 +176,10 @@ func (br *BorderRenderer) applyBorderColor(chars string, style model.Style) stri
 
 	// Adapt color to terminal capability.
 	termCap := style.GetTerminalCapability()
-	ansiCode := br.colorToANSI(borderColor, termCap, true)
-
-	return ansiCode + chars + br.ansiGenerator.Reset()
-}
-
-// colorToANSI converts a Color to ANSI code based on terminal capability.
-func (br *BorderRenderer) colorToANSI(color value2.Color, termCap value2.TerminalCapability, isForeground bool) string {
-	r, g, b := color.RGB()
-
-	switch termCap {
-	case value2.TrueColor:
-		if isForeground {
-			return br.ansiGenerator.Foreground(r, g, b)
-		}
-		return br.ansiGenerator.Background(r, g, b)
-
-	case value2.ANSI256:
-		// Convert RGB to 256-color palette.
-		code := br.rgbTo256(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground256(code)
-		}
-		return br.ansiGenerator.Background256(code)
-
-	case value2.ANSI16:
-		// Convert RGB to 16-color palette.
-		code := br.rgbTo16(r, g, b)
-		if isForeground {
-			return br.ansiGenerator.Foreground16(code)
-		}
-		return br.ansiGenerator.Background16(code)
-
-	default:
-		return ""
-	}
-}
-
-// rgbTo256 converts RGB to 256-color palette index.
-// Uses 6x6x6 color cube + grayscale ramp.
-func (br *BorderRenderer) rgbTo256(r, g, b uint8) uint8 {
-	// Grayscale detection.
-	if r == g && g == b {
-		// Use grayscale ramp (232-255).
-		if r < 8 {
-			return 16 // black
-		}
-		if r > 247 {
-			return 231 // white
-		}
-		//nolint:gosec // G115: Overflow impossible - result range 0-24 from (r-8)/10 where r ∈ [8,247]
-		return 232 + uint8((int(r)-8)/10)
-	}
-
-	// Color cube (16-231): 16 + 36*R + 6*G + B.
-	// Where R, G, B are in range 0-5.
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (r*6)/256 where r ∈ [0,255]
-	r6 := uint8((int(r) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (g*6)/256
-	g6 := uint8((int(g) * 6) / 256)
-	//nolint:gosec // G115: Overflow impossible - result range 0-5 from (b*6)/256
-	b6 := uint8((int(b) * 6) / 256)
-
-	return 16 + 36*r6 + 6*g6 + b6
-}
-
-// rgbTo16 converts RGB to 16-color palette index.
-// Maps to basic ANSI colors (0-15).
-func (br *BorderRenderer) rgbTo16(r, g, b uint8) uint8 {
-	// Calculate brightness.
-	brightness := (int(r) + int(g) + int(b)) / 3
-
-	// Determine if color is bright (8-15) or normal (0-7).
-	bright := brightness > 128
-
-	// Determine dominant color.
-	red := r > 128
-	green := g > 128
-	blue := b > 128
-
-	// Build color code.
-	var code uint8
-	if red {
-		code |= 1
-	}
-	if green {
-		code |= 2
-	}
-	if blue {
-		code |= 4
-	}
-
-	// Add bright bit.
-	if bright {
-		code |= 8
+	ansiCode := br.colorAdapter.ToANSIForeground(borderColor, termCap)
+	if ansiCode == "" {
+		return chars
 	}
 
-	return code
+	return ansiCode + chars + br.ansiGenerator.Reset()
 }
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 1051c11..62fc037 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -50,7 +50,7 @@ func NewRenderCommand(
 		spacingCalculator: spacingCalculator,
 		textAligner:       textAligner,
 		ansiGenerator:     ansiGenerator,
-		borderRenderer:    NewBorderRenderer(ansiGenerator),
+		borderRenderer:    NewBorderRenderer(colorAdapter, ansiGenerator),
 	}
 }
 
-- 
2.43.0


From 7b712f66ac33ce527805525fee13be046e8ff14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 030/141] fix: style: colors and decorations continue after a
 colored border

---
 style/internal/application/command/render.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 62fc037..dc1cb3f 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -220,10 +220,7 @@ func (rc *RenderCommand) applyColors(content string, style model.Style) string {
 	}
 
 	// Apply colors to entire content.
-	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
-
-	return prefix + content + suffix
+	return rc.wrap(content, strings.Join(codes, ""))
 }
 
 // applyDecorations applies text decorations (bold, italic, underline, strikethrough).
@@ -249,8 +246,12 @@ func (rc *RenderCommand) applyDecorations(content string, style model.Style) str
 	}
 
 	// Apply decorations to entire content.
-	prefix := strings.Join(codes, "")
-	suffix := rc.ansiGenerator.Reset()
+	return rc.wrap(content, strings.Join(codes, ""))
+}
 
-	return prefix + content + suffix
+// wrap puts content between prefix and a reset. A reset within content (the
+// end of a colored border) ends only what was started there: prefix continues.
+func (rc *RenderCommand) wrap(content, prefix string) string {
+	reset := rc.ansiGenerator.Reset()
+	return prefix + strings.ReplaceAll(content, reset, reset+prefix) + reset
 }
-- 
2.43.0


From a2035777850d8b01325dd8219ac9c810d27c21c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 031/141] fix: style: size limits count only the border sides
 that are drawn

---
 style/internal/application/command/render.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index dc1cb3f..069b732 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -79,11 +79,15 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 		}
 
 		// Add border dimensions.
-		if style.GetBorderLeft() || style.GetBorderRight() {
-			contentWidth += 2 // Left + right border
+		for _, side := range []bool{style.GetBorderLeft(), style.GetBorderRight()} {
+			if side {
+				contentWidth++
+			}
 		}
-		if style.GetBorderTop() || style.GetBorderBottom() {
-			contentHeight += 2 // Top + bottom border
+		for _, side := range []bool{style.GetBorderTop(), style.GetBorderBottom()} {
+			if side {
+				contentHeight++
+			}
 		}
 
 		// Add margin dimensions.
-- 
2.43.0


From a996bd25bd2ec371a11d6f147db7ca91cc88b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 032/141] fix: style: 256-color mapping picks the closest
 color, as documented

---
 .../internal/domain/service/color_adapter.go  | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/style/internal/domain/service/color_adapter.go b/style/internal/domain/service/color_adapter.go
index 48ff5e0..2fef2c7 100644
--- a/style/internal/domain/service/color_adapter.go
+++ b/style/internal/domain/service/color_adapter.go
@@ -88,31 +88,32 @@ func (a *DefaultColorAdapter) toANSI256Background(color value2.Color) string {
 func (a *DefaultColorAdapter) rgbToANSI256(color value2.Color) uint8 {
 	r, g, b := color.RGB()
 
-	// Check if it's close to a grayscale value (232-255).
+	// Grays at the ends of the range are black and white of the color cube.
+	gray := (uint16(r) + uint16(g) + uint16(b)) / 3
 	if isGrayish(r, g, b) {
-		// Map to grayscale range (232-255): 24 shades from near-black to near-white.
-		// gray = 8 + (code-232)*10, so code = (gray-8)/10 + 232.
-		gray := (uint16(r) + uint16(g) + uint16(b)) / 3
 		if gray < 8 {
 			return 16 // Use black from color cube
 		}
 		if gray > 238 {
 			return 231 // Use white from color cube
 		}
-		code := (gray-8)/10 + 232
-		//nolint:gosec // G115: Overflow impossible - result range 232-255
-		return uint8(code)
 	}
 
-	// Use 6x6x6 RGB color cube (16-231).
-	// Map RGB (0-255) to cube index (0-5).
-	rCube := rgbToCubeIndex(r)
-	gCube := rgbToCubeIndex(g)
-	bCube := rgbToCubeIndex(b)
+	// Closest color of the 6x6x6 RGB color cube (16-231):
+	// map RGB (0-255) to cube index (0-5) and calculate 16 + 36*r + 6*g + b.
+	cubeCode := 16 + 36*rgbToCubeIndex(r) + 6*rgbToCubeIndex(g) + rgbToCubeIndex(b)
 
-	// Calculate ANSI 256 code: 16 + 36*r + 6*g + b.
-	code := 16 + 36*rCube + 6*gCube + bCube
-	return code
+	// Closest of the 24 grays (232-255), which are 8, 18, ... 238.
+	step := min(max(int(gray)-3, 0)/10, 23)
+	//nolint:gosec // G115: Overflow impossible - result range 232-255
+	grayCode := uint8(232 + step)
+
+	cr, cg, cb := value2.FromANSI256(cubeCode).RGB()
+	gr, gg, gb := value2.FromANSI256(grayCode).RGB()
+	if colorDistance(r, g, b, gr, gg, gb) < colorDistance(r, g, b, cr, cg, cb) {
+		return grayCode
+	}
+	return cubeCode
 }
 
 // isGrayish returns true if the color is close to grayscale (low color variance).
-- 
2.43.0


From f4a3367642021b409178d4a5f1c4d15262141ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 033/141] fix: style: escape sequences do not count as width
 when styled lines are padded, aligned or framed

---
 .../application/command/border_renderer.go    |  5 +--
 style/internal/application/command/render.go  |  3 +-
 .../domain/service/spacing_calculator.go      |  9 ++--
 style/internal/domain/service/text_aligner.go | 18 ++++----
 style/internal/domain/service/width.go        | 44 +++++++++++++++++++
 5 files changed, 60 insertions(+), 19 deletions(-)
 create mode 100644 style/internal/domain/service/width.go

diff --git a/style/internal/application/command/border_renderer.go b/style/internal/application/command/border_renderer.go
index 80319f2..28d5c89 100644
--- a/style/internal/application/command/border_renderer.go
+++ b/style/internal/application/command/border_renderer.go
@@ -4,7 +4,6 @@ package command
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
@@ -87,7 +86,7 @@ func (br *BorderRenderer) Render(content string, style model.Style) string {
 func (br *BorderRenderer) calculateMaxWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.DisplayWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
@@ -140,7 +139,7 @@ func (br *BorderRenderer) buildContentLine(
 	line string, border value2.Border, style model.Style, targetWidth int, hasLeft, hasRight bool,
 ) string {
 	// Calculate padding needed to reach target width.
-	currentWidth := core.StringWidth(line)
+	currentWidth := service2.DisplayWidth(line)
 	paddingWidth := targetWidth - currentWidth
 	if paddingWidth < 0 {
 		paddingWidth = 0
diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 069b732..22a2022 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
 	service2 "github.com/phoenix-tui/phoenix/style/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
@@ -154,7 +153,7 @@ func (rc *RenderCommand) calculateContentDimensions(content string) (int, int) {
 
 	maxWidth := 0
 	for _, line := range lines {
-		width := core.StringWidth(line)
+		width := service2.DisplayWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
diff --git a/style/internal/domain/service/spacing_calculator.go b/style/internal/domain/service/spacing_calculator.go
index f31669e..1ec6801 100644
--- a/style/internal/domain/service/spacing_calculator.go
+++ b/style/internal/domain/service/spacing_calculator.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	value2 "github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -80,7 +79,7 @@ func (sc *DefaultSpacingCalculator) ApplyPadding(content string, padding value2.
 	// Use the first line's width if available.
 	emptyLineWidth := padding.Left() + padding.Right()
 	if len(paddedLines) > 0 {
-		emptyLineWidth = core.StringWidth(paddedLines[0])
+		emptyLineWidth = DisplayWidth(paddedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -128,7 +127,7 @@ func (sc *DefaultSpacingCalculator) ApplyMargin(content string, margin value2.Ma
 	// Calculate width of margined lines for empty margin lines.
 	emptyLineWidth := margin.Left() + margin.Right()
 	if len(marginedLines) > 0 {
-		emptyLineWidth = core.StringWidth(marginedLines[0])
+		emptyLineWidth = DisplayWidth(marginedLines[0])
 	}
 	emptyLine := strings.Repeat(" ", emptyLineWidth)
 
@@ -159,12 +158,12 @@ func (sc *DefaultSpacingCalculator) ApplyBoth(content string, padding value2.Pad
 func equalizeWidths(lines []string) []string {
 	maxWidth := 0
 	for _, line := range lines {
-		maxWidth = max(maxWidth, core.StringWidth(line))
+		maxWidth = max(maxWidth, DisplayWidth(line))
 	}
 
 	result := make([]string, len(lines))
 	for i, line := range lines {
-		result[i] = line + strings.Repeat(" ", maxWidth-core.StringWidth(line))
+		result[i] = line + strings.Repeat(" ", maxWidth-DisplayWidth(line))
 	}
 	return result
 }
diff --git a/style/internal/domain/service/text_aligner.go b/style/internal/domain/service/text_aligner.go
index 6385400..adb91fe 100644
--- a/style/internal/domain/service/text_aligner.go
+++ b/style/internal/domain/service/text_aligner.go
@@ -3,7 +3,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
 )
 
@@ -37,13 +36,13 @@ func NewTextAligner() TextAligner {
 // Handles Unicode correctly by using visual width, not string length.
 func (ta *DefaultTextAligner) AlignHorizontal(text string, width int, alignment value.HorizontalAlignment) string {
 	// Calculate actual visual width of text.
-	textWidth := core.StringWidth(text)
+	textWidth := DisplayWidth(text)
 
 	// If text is wider than target width, truncate (future: could add ellipsis).
 	// A wide character that does not fit as a whole leaves space to fill.
 	if textWidth > width {
 		text = truncateToWidth(text, width)
-		textWidth = core.StringWidth(text)
+		textWidth = DisplayWidth(text)
 	}
 
 	// If text fits exactly, return as-is.
@@ -99,7 +98,7 @@ func (ta *DefaultTextAligner) AlignVertical(text string, height int, alignment v
 	// Determine width for empty lines (use max line width).
 	emptyLineWidth := 0
 	for _, line := range lines {
-		lineWidth := core.StringWidth(line)
+		lineWidth := DisplayWidth(line)
 		if lineWidth > emptyLineWidth {
 			emptyLineWidth = lineWidth
 		}
@@ -175,22 +174,23 @@ func (ta *DefaultTextAligner) AlignBoth(text string, width, height int, alignmen
 }
 
 // truncateToWidth returns the longest prefix of text that occupies at most
-// width columns and does not end inside a character.
+// width columns and does not end inside a character. Escape sequences in the
+// rest are kept, so that a style started in the prefix still ends.
 func truncateToWidth(text string, width int) string {
-	total := core.StringWidth(text)
+	total := DisplayWidth(text)
 
 	cut := 0
 	for i := range text {
-		prefixWidth := core.StringWidth(text[:i])
+		prefixWidth := DisplayWidth(text[:i])
 		if prefixWidth > width {
 			break
 		}
 		// Widths do not add up where a cut would split a sequence of runes
 		// that is displayed as one character.
-		if prefixWidth+core.StringWidth(text[i:]) == total {
+		if prefixWidth+DisplayWidth(text[i:]) == total {
 			cut = i
 		}
 	}
 
-	return text[:cut]
+	return text[:cut] + escapeSequences(text[cut:])
 }
diff --git a/style/internal/domain/service/width.go b/style/internal/domain/service/width.go
new file mode 100644
index 0000000..3b499f8
--- /dev/null
+++ b/style/internal/domain/service/width.go
@@ -0,0 +1,44 @@
+package service
+
+import (
+	"strings"
+
+	"github.com/phoenix-tui/phoenix/core"
+)
+
+// DisplayWidth returns the number of columns text occupies when displayed.
+// Unlike core.StringWidth it does not count escape sequences (CSI), so text
+// that is already styled is measured correctly.
+func DisplayWidth(text string) int {
+	if !strings.Contains(text, "\x1b[") {
+		return core.StringWidth(text)
+	}
+	plain, _ := splitEscapes(text)
+	return core.StringWidth(plain)
+}
+
+// escapeSequences returns the escape sequences (CSI) in text.
+func escapeSequences(text string) string {
+	_, escapes := splitEscapes(text)
+	return escapes
+}
+
+// splitEscapes separates the escape sequences (CSI) in text from the rest.
+func splitEscapes(text string) (plain, escapes string) {
+	var p, e strings.Builder
+	for i := 0; i < len(text); i++ {
+		if !strings.HasPrefix(text[i:], "\x1b[") {
+			p.WriteByte(text[i])
+			continue
+		}
+		// Parameters up to the final byte (0x40-0x7E).
+		end := i + 2
+		for end < len(text) && (text[end] < 0x40 || text[end] > 0x7e) {
+			end++
+		}
+		end = min(end+1, len(text))
+		e.WriteString(text[i:end])
+		i = end - 1
+	}
+	return p.String(), e.String()
+}
-- 
2.43.0


From 8a09016c7920c1307681962380374472a84574ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 034/141] fix: style: colors and decorations end with each line

---
 style/internal/application/command/render.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 22a2022..ba95d41 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -252,9 +252,14 @@ func (rc *RenderCommand) applyDecorations(content string, style model.Style) str
 	return rc.wrap(content, strings.Join(codes, ""))
 }
 
-// wrap puts content between prefix and a reset. A reset within content (the
-// end of a colored border) ends only what was started there: prefix continues.
+// wrap puts each line of content between prefix and a reset, so that nothing
+// continues beyond the end of a line. A reset within content (the end of a
+// colored border) ends only what was started there: prefix continues.
 func (rc *RenderCommand) wrap(content, prefix string) string {
 	reset := rc.ansiGenerator.Reset()
-	return prefix + strings.ReplaceAll(content, reset, reset+prefix) + reset
+	lines := strings.Split(content, "\n")
+	for i, line := range lines {
+		lines[i] = prefix + strings.ReplaceAll(line, reset, reset+prefix) + reset
+	}
+	return strings.Join(lines, "\n")
 }
-- 
2.43.0


From 09af40b7a5e4ce641a3f8cb400b36cd18152a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 035/141] fix: layout: box borders enclose content of any width

---
 layout/internal/domain/service/cells.go       | 40 +++++++++++++++++++
 .../domain/service/measure_service.go         |  3 +-
 .../internal/domain/service/render_service.go |  7 ++--
 3 files changed, 44 insertions(+), 6 deletions(-)
 create mode 100644 layout/internal/domain/service/cells.go

diff --git a/layout/internal/domain/service/cells.go b/layout/internal/domain/service/cells.go
new file mode 100644
index 0000000..78aaed1
--- /dev/null
+++ b/layout/internal/domain/service/cells.go
@@ -0,0 +1,40 @@
+package service
+
+import (
+	"strings"
+
+	"github.com/phoenix-tui/phoenix/core"
+)
+
+// displayWidth returns the number of cells a line occupies when displayed.
+// Escape sequences (CSI) of already styled content occupy none.
+func displayWidth(line string) int {
+	if !strings.Contains(line, "\x1b[") {
+		return core.StringWidth(line)
+	}
+
+	var plain strings.Builder
+	for len(line) > 0 {
+		if n := escapeLength(line); n > 0 {
+			line = line[n:]
+			continue
+		}
+		plain.WriteByte(line[0])
+		line = line[1:]
+	}
+	return core.StringWidth(plain.String())
+}
+
+// escapeLength returns the length of the escape sequence (CSI) line starts
+// with, 0 if there is none.
+func escapeLength(line string) int {
+	if !strings.HasPrefix(line, "\x1b[") {
+		return 0
+	}
+	// Parameters up to the final byte (0x40-0x7E).
+	end := 2
+	for end < len(line) && (line[end] < 0x40 || line[end] > 0x7e) {
+		end++
+	}
+	return min(end+1, len(line))
+}
diff --git a/layout/internal/domain/service/measure_service.go b/layout/internal/domain/service/measure_service.go
index 0943bd0..9b74ee3 100644
--- a/layout/internal/domain/service/measure_service.go
+++ b/layout/internal/domain/service/measure_service.go
@@ -5,7 +5,6 @@ package service
 import (
 	"strings"
 
-	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/layout/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/layout/internal/domain/value"
 )
@@ -125,7 +124,7 @@ func (ms *MeasureService) measureContent(content string) (width, height int) {
 	// Find maximum width (Unicode-aware)
 	maxWidth := 0
 	for _, line := range lines {
-		lineWidth := core.StringWidth(line)
+		lineWidth := displayWidth(line)
 		if lineWidth > maxWidth {
 			maxWidth = lineWidth
 		}
diff --git a/layout/internal/domain/service/render_service.go b/layout/internal/domain/service/render_service.go
index b41a621..59fbe92 100644
--- a/layout/internal/domain/service/render_service.go
+++ b/layout/internal/domain/service/render_service.go
@@ -144,7 +144,7 @@ func (rs *RenderService) Render(box *model2.Box) string {
 		line += contentLine
 
 		// Add right padding to align right border
-		lineWidth := len(contentLine)
+		lineWidth := displayWidth(contentLine)
 		spacesNeeded := contentWidth - lineWidth
 
 		// Only pad to contentWidth if we have a border (to align it)
@@ -206,12 +206,11 @@ func (rs *RenderService) RenderNode(node *model2.Node) string {
 	return rs.Render(node.Box())
 }
 
-// calculateContentWidth finds the maximum line width in content.
-// This is a simple character count (Unicode width handled by caller if needed).
+// calculateContentWidth finds the maximum line width in content (in cells).
 func (rs *RenderService) calculateContentWidth(lines []string) int {
 	maxWidth := 0
 	for _, line := range lines {
-		width := len(line)
+		width := displayWidth(line)
 		if width > maxWidth {
 			maxWidth = width
 		}
-- 
2.43.0


From 87e4381404248a3f8c67a7a03f38b956b3040cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 036/141] fix: layout: flex containers count wide characters
 and styles in cells

---
 layout/internal/domain/service/cells.go | 57 +++++++++++++++++++++++++
 layout/layout.go                        | 37 +++++++++++-----
 2 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/layout/internal/domain/service/cells.go b/layout/internal/domain/service/cells.go
index 78aaed1..8390e5c 100644
--- a/layout/internal/domain/service/cells.go
+++ b/layout/internal/domain/service/cells.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/core"
 )
@@ -38,3 +39,59 @@ func escapeLength(line string) int {
 	}
 	return min(end+1, len(line))
 }
+
+// SplitCells splits a line into the cells it is displayed in. A wide character
+// is found in its first cell and leaves the others empty. Zero-width characters
+// belong to the character before them, escape sequences to the one after them;
+// tail holds the escape sequences at the end of the line.
+func SplitCells(line string) (cells []string, tail string) {
+	var cluster string // Current character, still without its first cell if empty.
+	width := 0
+
+	emit := func() {
+		if width == 0 {
+			return
+		}
+		cells = append(cells, tail+cluster)
+		for i := 1; i < width; i++ {
+			cells = append(cells, "")
+		}
+		tail, cluster, width = "", "", 0
+	}
+
+	for len(line) > 0 {
+		if n := escapeLength(line); n > 0 {
+			emit()
+			tail += line[:n]
+			line = line[n:]
+			continue
+		}
+
+		_, n := utf8.DecodeRuneInString(line)
+		char := line[:n]
+		line = line[n:]
+
+		// Widths do not add up within a sequence that is displayed as one character.
+		charWidth, joined := core.StringWidth(char), core.StringWidth(cluster+char)
+		if charWidth > 0 && joined == width+charWidth {
+			emit()
+			joined = charWidth
+		}
+		cluster += char
+		width = joined
+	}
+
+	emit()
+	return cells, tail + cluster
+}
+
+// EscapeSequences returns the escape sequences (CSI) in a line.
+func EscapeSequences(line string) string {
+	var escapes strings.Builder
+	for len(line) > 0 {
+		n := escapeLength(line)
+		escapes.WriteString(line[:n])
+		line = line[max(n, 1):]
+	}
+	return escapes.String()
+}
diff --git a/layout/layout.go b/layout/layout.go
index 07e45cb..57bd071 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -767,11 +767,11 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	var result strings.Builder
 
 	// Create a grid to track occupied positions
-	grid := make([][]rune, containerHeight)
+	grid := make([][]string, containerHeight)
 	for i := range grid {
-		grid[i] = make([]rune, containerWidth)
+		grid[i] = make([]string, containerWidth)
 		for j := range grid[i] {
-			grid[i][j] = ' '
+			grid[i][j] = " "
 		}
 	}
 
@@ -787,20 +787,15 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 				break
 			}
 
-			x := pos.X()
-			for _, ch := range line {
-				if x >= containerWidth {
-					break
-				}
-				grid[y][x] = ch
-				x++
+			if pos.X() < containerWidth {
+				drawLine(grid[y][pos.X():], line)
 			}
 		}
 	}
 
 	// Convert grid to string
 	for i, row := range grid {
-		result.WriteString(string(row))
+		result.WriteString(strings.Join(row, ""))
 		if i < len(grid)-1 {
 			result.WriteRune('\n')
 		}
@@ -809,6 +804,26 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	return result.String()
 }
 
+// drawLine draws a line into the cells of a row, cutting it at their end.
+func drawLine(row []string, line string) {
+	cells, tail := service2.SplitCells(line)
+
+	if len(cells) > len(row) {
+		// A wide character that does not fit as a whole leaves a blank.
+		end := len(row)
+		for end > 0 && cells[end] == "" {
+			end--
+		}
+		tail = service2.EscapeSequences(strings.Join(cells[end:], "")) + tail
+		cells = cells[:end]
+	}
+
+	copy(row, cells)
+	if len(cells) > 0 {
+		row[len(cells)-1] += tail
+	}
+}
+
 // String implements fmt.Stringer.
 // Renders the flexbox with default terminal size (80x24).
 func (f *Flex) String() string {
-- 
2.43.0


From 46a3ee4ac2607c1731b242fd0d412b21a95e1e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 037/141] fix: layout: rendering a box does not fix its size

---
 layout/layout.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/layout/layout.go b/layout/layout.go
index 57bd071..4e05701 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -406,11 +406,8 @@ func (b *Box) Render() string {
 	// Measure box to get natural size
 	size := measureService.Measure(b.domain)
 
-	// Update domain box with measured size (for rendering)
-	b.domain = b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height()))
-
-	// Render the box
-	return renderService.Render(b.domain)
+	// Render the box with its measured size (the box itself keeps its constraints)
+	return renderService.Render(b.domain.WithSize(value2.NewSizeExact(size.Width(), size.Height())))
 }
 
 // String implements fmt.Stringer for convenient printing.
-- 
2.43.0


From 688748ce789de6426ec03b3f623aea3bceb481c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 038/141] fix: layout: flex items occupy the rows they are
 drawn with

---
 .../domain/service/flexbox_layout_service.go        | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/layout/internal/domain/service/flexbox_layout_service.go b/layout/internal/domain/service/flexbox_layout_service.go
index 998a70c..40562d4 100644
--- a/layout/internal/domain/service/flexbox_layout_service.go
+++ b/layout/internal/domain/service/flexbox_layout_service.go
@@ -107,7 +107,18 @@ func (f *FlexboxLayoutService) measureItems(container *model2.FlexContainer) []v
 	sizes := make([]value2.Size, len(items))
 
 	for i, item := range items {
-		sizes[i] = f.measureService.Measure(item.Box())
+		box := item.Box()
+		size := f.measureService.Measure(box)
+
+		if box.HasBorder() {
+			// Measure counts a row of aesthetic spacing above and below bordered
+			// content that is not drawn: items take the rows they are drawn with.
+			natural := f.measureService.Measure(box.WithSize(value2.NewSizeUnconstrained()))
+			width, height := box.Size().Constrain(natural.Width(), natural.Height()-2)
+			size = value2.NewSizeExact(width, height)
+		}
+
+		sizes[i] = size
 	}
 
 	return sizes
-- 
2.43.0


From 74dca47efa1880fcd7e86f7db55c036d2f4d834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 039/141] fix: layout: a flex container without room draws
 nothing

---
 layout/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layout/layout.go b/layout/layout.go
index 4e05701..dab4336 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -757,6 +757,9 @@ func (f *Flex) Render(containerWidth, containerHeight int) string {
 	flexService := service2.NewFlexboxLayoutService(measureService)
 	renderService := service2.NewRenderService()
 
+	// There is nothing to draw on a container without area
+	containerWidth, containerHeight = max(containerWidth, 0), max(containerHeight, 0)
+
 	// Layout the flexbox
 	laidOut := flexService.Layout(f.domain, containerWidth, containerHeight)
 
-- 
2.43.0


From dc57910af8cb64f5518e51c7b3cee6093e99a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 040/141] fix: components/input: the view shows whole
 characters and fits its width

---
 components/input/input.go | 97 +++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 51 deletions(-)

diff --git a/components/input/input.go b/components/input/input.go
index 1eef6a5..1eba3df 100644
--- a/components/input/input.go
+++ b/components/input/input.go
@@ -2,11 +2,15 @@
 package input
 
 import (
+	"strings"
+
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/model"
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/domain/service"
 	"github.com/phoenix-tui/phoenix/components/input/internal/input/infrastructure"
+	"github.com/phoenix-tui/phoenix/core"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
+	"github.com/rivo/uniseg"
 )
 
 // Input is the public API for the TextInput component.
@@ -196,70 +200,61 @@ func (i Input) renderPlaceholder() string {
 	return style.Render(placeholderStyle, i.domain.Placeholder())
 }
 
-// renderContent renders the input content with cursor.
-//
-//nolint:gocognit // rendering logic requires multiple conditions
+// renderContent renders the part of the content that fits the width, with the cursor in view.
 func (i Input) renderContent() string {
 	before, at, after := i.domain.ContentParts()
+	width := i.domain.Width()
+	highlight := i.domain.Focused()
 
-	// Calculate visible portion based on width.
-	content := before + at + after
-
-	if len(content) <= i.domain.Width() {
-		// Content fits, render cursor.
-		if i.domain.Focused() {
-			return before + i.renderCursor(at) + after
+	// The cursor needs a cell of its own behind the last character.
+	cursorWidth := core.StringWidth(at)
+	needed := core.StringWidth(before + at + after)
+	if at == "" {
+		cursorWidth = 1
+		if highlight && i.domain.ShowCursor() {
+			needed++
 		}
-		return content
 	}
 
-	// Content too long, needs scrolling.
-	// Simple approach: keep cursor in view.
-	cursorPos := i.domain.CursorPosition()
-	width := i.domain.Width()
-
-	// Calculate scroll offset to keep cursor visible.
-	scrollOffset := i.domain.ScrollOffset()
-
-	// Adjust scroll if cursor is out of view.
-	if cursorPos < scrollOffset {
-		scrollOffset = cursorPos
-	}
-	if cursorPos >= scrollOffset+width {
-		scrollOffset = cursorPos - width + 1
+	if needed > width {
+		// Content too long: show what fits around the cursor, in whole characters.
+		if cursorWidth > width {
+			at, cursorWidth = strings.Repeat(" ", width), width
+		}
+		before = lastCells(before, width-cursorWidth)
+		after = firstCells(after, width-cursorWidth-core.StringWidth(before))
 	}
 
-	// Extract visible portion.
-	// Note: Uses byte offsets for simplicity - works for ASCII and most Unicode.
-	// For complex grapheme clusters (emoji with modifiers), phoenix/core UnicodeService
-	// should be used, but that's a future optimization.
-	visibleStart := scrollOffset
-	visibleEnd := scrollOffset + width
-	if visibleEnd > len(content) {
-		visibleEnd = len(content)
+	if highlight {
+		at = i.renderCursor(at)
 	}
+	return before + at + after
+}
 
-	visibleContent := content[visibleStart:visibleEnd]
-
-	// Render cursor if in visible range.
-	//nolint:nestif // rendering logic requires nested conditions for cursor positioning
-	if i.domain.Focused() && cursorPos >= scrollOffset && cursorPos < scrollOffset+width {
-		cursorInVisible := cursorPos - scrollOffset
-		if cursorInVisible <= len(visibleContent) {
-			visibleBefore := visibleContent[:cursorInVisible]
-			visibleAt := ""
-			if cursorInVisible < len(visibleContent) {
-				visibleAt = string(visibleContent[cursorInVisible])
-			}
-			visibleAfter := ""
-			if cursorInVisible+1 < len(visibleContent) {
-				visibleAfter = visibleContent[cursorInVisible+1:]
-			}
-			return visibleBefore + i.renderCursor(visibleAt) + visibleAfter
+// firstCells returns the leading characters of text that fit into width cells.
+func firstCells(text string, width int) string {
+	end := 0
+	gr := uniseg.NewGraphemes(text)
+	for gr.Next() {
+		width -= core.StringWidth(gr.Str())
+		if width < 0 {
+			break
 		}
+		_, end = gr.Positions()
 	}
+	return text[:end]
+}
 
-	return visibleContent
+// lastCells returns the trailing characters of text that fit into width cells.
+func lastCells(text string, width int) string {
+	hidden := core.StringWidth(text) - width
+	start := 0
+	gr := uniseg.NewGraphemes(text)
+	for hidden > 0 && gr.Next() {
+		hidden -= core.StringWidth(gr.Str())
+		_, start = gr.Positions()
+	}
+	return text[start:]
 }
 
 // renderCursor renders the cursor at the current position using theme colors.
-- 
2.43.0


From 34748a6fbbd95bb47496029fff5c7a54ad53db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 041/141] fix: components/input: typing a combining character
 keeps the cursor behind it

---
 components/input/internal/input/domain/model/input.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/input/domain/model/input.go b/components/input/internal/input/domain/model/input.go
index 7c48090..b52f4da 100644
--- a/components/input/internal/input/domain/model/input.go
+++ b/components/input/internal/input/domain/model/input.go
@@ -234,8 +234,12 @@ func (t TextInput) InsertRune(r rune) TextInput {
 	before, at, after := t.cursorMovement.SplitAtCursor(t.content, t.cursor.Offset())
 	t.content = before + string(r) + at + after
 
-	// Move cursor right.
-	t.cursor = t.cursor.MoveBy(1, t.cursorMovement.GraphemeCount(t.content))
+	// Move cursor behind the rune. A rune that extends the character before it
+	// (combining mark, joined emoji) adds no character to move over.
+	t.cursor = t.cursor.MoveTo(
+		t.cursorMovement.GraphemeCount(before+string(r)),
+		t.cursorMovement.GraphemeCount(t.content),
+	)
 
 	return t
 }
-- 
2.43.0


From ffa91e1e4862d1d231e3c5ab62ffef25c2161517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 042/141] fix: components/input: key combinations without a
 binding insert no text

---
 .../input/internal/input/infrastructure/keybindings.go       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/input/internal/input/infrastructure/keybindings.go b/components/input/internal/input/infrastructure/keybindings.go
index c6ea532..92cc489 100644
--- a/components/input/internal/input/infrastructure/keybindings.go
+++ b/components/input/internal/input/infrastructure/keybindings.go
@@ -39,6 +39,11 @@ func (kb *DefaultKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) mode
 		}
 	}
 
+	// Other key combinations are commands, not text.
+	if (msg.Ctrl || msg.Alt) && (msg.Type == tea.KeyRune || msg.Type == tea.KeySpace) {
+		return input
+	}
+
 	switch msg.Type {
 	// Navigation.
 	case tea.KeyLeft:
-- 
2.43.0


From c60b1e4c3039c8a0891864a6d5d6cc7baae3ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 043/141] fix: components/input: length validators count
 characters

---
 .../input/domain/service/validation.go         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/components/input/internal/input/domain/service/validation.go b/components/input/internal/input/domain/service/validation.go
index b89d6c6..83131f8 100644
--- a/components/input/internal/input/domain/service/validation.go
+++ b/components/input/internal/input/domain/service/validation.go
@@ -1,6 +1,10 @@
 package service
 
-import "errors"
+import (
+	"errors"
+
+	"github.com/rivo/uniseg"
+)
 
 // ValidationFunc is a function that validates input content.
 // It returns nil if the content is valid, or an error describing the problem.
@@ -46,30 +50,30 @@ func NotEmpty() ValidationFunc {
 	}
 }
 
-// MinLength returns a validator that ensures content has minimum length.
+// MinLength returns a validator that ensures content has minimum length (in characters).
 func MinLength(minLen int) ValidationFunc {
 	return func(content string) error {
-		if len(content) < minLen {
+		if uniseg.GraphemeClusterCount(content) < minLen {
 			return ErrTooShort
 		}
 		return nil
 	}
 }
 
-// MaxLength returns a validator that ensures content doesn't exceed maximum length.
+// MaxLength returns a validator that ensures content doesn't exceed maximum length (in characters).
 func MaxLength(maxLen int) ValidationFunc {
 	return func(content string) error {
-		if len(content) > maxLen {
+		if uniseg.GraphemeClusterCount(content) > maxLen {
 			return ErrTooLong
 		}
 		return nil
 	}
 }
 
-// Range returns a validator that ensures content length is within range.
+// Range returns a validator that ensures content length is within range (in characters).
 func Range(minLen, maxLen int) ValidationFunc {
 	return func(content string) error {
-		length := len(content)
+		length := uniseg.GraphemeClusterCount(content)
 		if length < minLen {
 			return ErrTooShort
 		}
-- 
2.43.0


From 4b39f8933cb9451dca71b77745dc08eed83f4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 044/141] fix: components/textarea: killing text keeps the
 cursor in place

---
 .../input/internal/textarea/domain/service/editing.go       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9f3e3c5..1ca69d6 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -172,7 +172,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 			newBuffer := buffer.SetLine(row, currentLine+nextLineContent)
 			newBuffer, _ = newBuffer.DeleteLine(row + 1)
 
-			return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+			return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 		}
 		return ta
 	}
@@ -184,7 +184,7 @@ func (s *EditingService) KillLine(ta *model.TextArea) *model.TextArea {
 	// Delete from cursor to end.
 	newBuffer, _ := buffer.DeleteToLineEnd(row, col)
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, col)).WithKillRing(killRing)
 }
 
 // KillWord deletes word after cursor (Alt+D).
@@ -217,7 +217,7 @@ func (s *EditingService) KillWord(ta *model.TextArea) *model.TextArea {
 		newBuffer = newBuffer.DeleteChar(row, startCol)
 	}
 
-	return ta.WithBuffer(newBuffer).WithKillRing(killRing)
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, startCol)).WithKillRing(killRing)
 }
 
 // KillWordBackward deletes word before cursor (Ctrl+W, Alt+Backspace).
-- 
2.43.0


From 776df469c805ce83b636ea47fcaa0c81f45c91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 045/141] fix: components/textarea: the cursor stays in view
 when the text, the cursor or the size is set

---
 .../internal/textarea/domain/model/textarea.go      | 13 +++++--------
 components/input/textarea.go                        |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index c895a3a..29ce28c 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -65,8 +65,9 @@ func NewTextArea() *TextArea {
 // WithSize sets display dimensions (returns new instance).
 func (t *TextArea) WithSize(width, height int) *TextArea {
 	updated := t.copy()
-	updated.width = width
-	updated.height = height
+	updated.width = max(width, 0)
+	updated.height = max(height, 0)
+	updated.ensureCursorVisible()
 	return updated
 }
 
@@ -274,9 +275,7 @@ func (t *TextArea) MoveCursorToEnd() *TextArea {
 	lastLine := t.buffer.Line(lastRow)
 	lastCol := len([]rune(lastLine))
 
-	updated := t.copy()
-	updated.cursor = NewCursor(lastRow, lastCol)
-	return updated
+	return t.withCursor(NewCursor(lastRow, lastCol))
 }
 
 // SetCursorPosition sets cursor to specific position with bounds checking.
@@ -305,9 +304,7 @@ func (t *TextArea) SetCursorPosition(row, col int) *TextArea {
 		col = maxCol
 	}
 
-	updated := t.copy()
-	updated.cursor = NewCursor(row, col)
-	return updated
+	return t.withCursor(NewCursor(row, col))
 }
 
 // Public Methods for Services (used by domain services)
diff --git a/components/input/textarea.go b/components/input/textarea.go
index 2439cea..f2a1b90 100644
--- a/components/input/textarea.go
+++ b/components/input/textarea.go
@@ -145,7 +145,7 @@ func (t TextArea) Value() string {
 
 // SetValue replaces all text.
 func (t TextArea) SetValue(text string) TextArea {
-	t.model = t.model.WithBuffer(model.NewBufferFromString(text))
+	t.model = t.model.WithBuffer(model.NewBufferFromString(text)).WithCursor(model.NewCursor(0, 0))
 	return t
 }
 
-- 
2.43.0


From ffb7803c8cbec537c356475f262eed7d59f91970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 046/141] fix: components/textarea: line and character limits
 hold for typing and yanking

---
 .../textarea/domain/model/textarea.go         |  5 ++++
 .../textarea/domain/service/editing.go        | 30 +++++++++++++++----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/components/input/internal/textarea/domain/model/textarea.go b/components/input/internal/textarea/domain/model/textarea.go
index 29ce28c..af7b256 100644
--- a/components/input/internal/textarea/domain/model/textarea.go
+++ b/components/input/internal/textarea/domain/model/textarea.go
@@ -261,6 +261,11 @@ func (t *TextArea) ShowCursor() bool {
 	return t.showCursor
 }
 
+// MaxChars returns the maximum number of characters (0 = unlimited).
+func (t *TextArea) MaxChars() int {
+	return t.maxChars
+}
+
 // MaxLines returns the maximum number of lines (0 = unlimited).
 func (t *TextArea) MaxLines() int {
 	return t.maxLines
diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 1ca69d6..beb6543 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -1,7 +1,11 @@
 // Package service provides domain services for textarea.
 package service
 
-import "github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
+import (
+	"unicode/utf8"
+
+	"github.com/phoenix-tui/phoenix/components/input/internal/textarea/domain/model"
+)
 
 // EditingService handles text editing operations.
 // This is a domain service that operates on the TextArea aggregate.
@@ -17,6 +21,9 @@ func (s *EditingService) InsertChar(ta *model.TextArea, ch rune) *model.TextArea
 	if ta.IsReadOnly() {
 		return ta // Read-only
 	}
+	if charsFull(ta, ta.GetBuffer()) {
+		return ta // Character limit reached
+	}
 
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
@@ -130,10 +137,8 @@ func (s *EditingService) InsertNewline(ta *model.TextArea) *model.TextArea {
 		return ta
 	}
 
-	// Check max lines (if limit is set)
-	maxLines := ta.MaxLines()
-	if maxLines > 0 && ta.LineCount() >= maxLines {
-		// Max lines reached.
+	// Check limits (if set)
+	if linesFull(ta, ta.GetBuffer()) || charsFull(ta, ta.GetBuffer()) {
 		return ta
 	}
 
@@ -288,8 +293,11 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	row, col := ta.CursorPosition()
 	buffer := ta.GetBuffer()
 
-	// Insert each character.
+	// Insert each character, as far as the limits allow.
 	for _, ch := range text {
+		if charsFull(ta, buffer) || ch == '\n' && linesFull(ta, buffer) {
+			break
+		}
 		if ch == '\n' {
 			// Insert newline.
 			buffer = buffer.InsertNewline(row, col)
@@ -305,3 +313,13 @@ func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	newCursor := model.NewCursor(row, col)
 	return ta.WithBuffer(buffer).WithCursor(newCursor)
 }
+
+// linesFull returns true if buffer has the maximum number of lines (if a limit is set).
+func linesFull(ta *model.TextArea, buffer *model.Buffer) bool {
+	return ta.MaxLines() > 0 && buffer.LineCount() >= ta.MaxLines()
+}
+
+// charsFull returns true if buffer has the maximum number of characters (if a limit is set).
+func charsFull(ta *model.TextArea, buffer *model.Buffer) bool {
+	return ta.MaxChars() > 0 && utf8.RuneCountInString(buffer.String()) >= ta.MaxChars()
+}
-- 
2.43.0


From 14f62ffddb99e5611931b1d3ea5c8ce8432cf72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 047/141] fix: components/textarea: killing a word backward
 respects the movement validator

---
 .../input/internal/textarea/domain/service/editing.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index beb6543..9505705 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -260,6 +260,17 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 		return ta // No word to kill
 	}
 
+	// Check validator BEFORE deleting (see DeleteCharBackward).
+	if validator := ta.GetMovementValidator(); validator != nil {
+		to := model.NewCursorPos(row, newCol)
+		if !validator(model.NewCursorPos(row, col), to) {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(to, "kill word blocked by validator")
+			}
+			return ta
+		}
+	}
+
 	// Kill from newCol to endCol.
 	killed := string(line[newCol:endCol])
 	killRing := ta.GetKillRing().Kill(killed)
-- 
2.43.0


From 849140a3d7c645bdc35209ac2eb08513e4cf9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 048/141] fix: components/textarea: Ctrl+U kills only the text
 before the cursor

---
 .../textarea/domain/service/editing.go        | 34 +++++++++++++++++++
 .../infrastructure/keybindings/emacs.go       |  3 +-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/components/input/internal/textarea/domain/service/editing.go b/components/input/internal/textarea/domain/service/editing.go
index 9505705..163ce87 100644
--- a/components/input/internal/textarea/domain/service/editing.go
+++ b/components/input/internal/textarea/domain/service/editing.go
@@ -287,6 +287,40 @@ func (s *EditingService) KillWordBackward(ta *model.TextArea) *model.TextArea {
 	return ta.WithBuffer(newBuffer).WithCursor(newCursor).WithKillRing(killRing)
 }
 
+// KillToLineStart kills text from start of line to cursor (Ctrl+U).
+// With a movement validator it kills from the first position of the line the
+// cursor can move to, as MoveToLineStart does.
+func (s *EditingService) KillToLineStart(ta *model.TextArea) *model.TextArea {
+	if ta.IsReadOnly() {
+		return ta
+	}
+
+	row, col := ta.CursorPosition()
+	if col == 0 {
+		return ta // At start of line, nothing to kill
+	}
+
+	start := 0
+	if validator := ta.GetMovementValidator(); validator != nil {
+		from := model.NewCursorPos(row, col)
+		for start < col && !validator(from, model.NewCursorPos(row, start)) {
+			start++
+		}
+		if start == col {
+			if handler := ta.GetBoundaryHitHandler(); handler != nil {
+				handler(model.NewCursorPos(row, 0), "no valid position found in line")
+			}
+			return ta
+		}
+	}
+
+	line := []rune(ta.CurrentLine())
+	killRing := ta.GetKillRing().Kill(string(line[start:col]))
+	newBuffer := ta.GetBuffer().SetLine(row, string(line[:start])+string(line[col:]))
+
+	return ta.WithBuffer(newBuffer).WithCursor(model.NewCursor(row, start)).WithKillRing(killRing)
+}
+
 // Yank inserts text from kill ring (Ctrl+Y).
 func (s *EditingService) Yank(ta *model.TextArea) *model.TextArea {
 	if ta.IsReadOnly() {
diff --git a/components/input/internal/textarea/infrastructure/keybindings/emacs.go b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
index ec43e57..701c391 100644
--- a/components/input/internal/textarea/infrastructure/keybindings/emacs.go
+++ b/components/input/internal/textarea/infrastructure/keybindings/emacs.go
@@ -57,8 +57,7 @@ func (e *EmacsKeybindings) Handle(msg tea.KeyMsg, ta *model.TextArea) (*model.Te
 
 			case 'u', 'U':
 				// Kill from start of line to cursor.
-				ta = e.navigation.MoveToLineStart(ta)
-				return e.editing.KillLine(ta), nil
+				return e.editing.KillToLineStart(ta), nil
 
 			case 'w', 'W':
 				return e.editing.KillWordBackward(ta), nil
-- 
2.43.0


From 715c736171e441a2836e2ec9efe1b8147b69a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 049/141] fix: components/input: a placeholder longer than the
 width is cut

---
 components/input/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/input/input.go b/components/input/input.go
index 1eba3df..713c90a 100644
--- a/components/input/input.go
+++ b/components/input/input.go
@@ -197,7 +197,7 @@ func (i Input) renderPlaceholder() string {
 
 	// Apply placeholder color from theme
 	placeholderStyle := style.New().Foreground(theme.Typography().PlaceholderColor)
-	return style.Render(placeholderStyle, i.domain.Placeholder())
+	return style.Render(placeholderStyle, firstCells(i.domain.Placeholder(), i.domain.Width()))
 }
 
 // renderContent renders the part of the content that fits the width, with the cursor in view.
-- 
2.43.0


From 52b0462053d1029344e1c438043a7d39920ff6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 050/141] fix: components/viewport: follow mode stays at the
 bottom when the size changes

---
 .../internal/domain/model/viewport.go         | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index 91e9379..c3ba082 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -47,27 +47,31 @@ func (v *Viewport) WithContent(content []string) *Viewport {
 	newV.content = make([]string, len(content))
 	copy(newV.content, content)
 
-	// If follow mode is enabled, scroll to bottom.
-	if newV.followMode {
-		offset := newV.scrollSvc.FollowModeOffset(len(newV.content), newV.size.Height())
-		newV.scrollOffset = value2.NewScrollOffset(offset)
-	} else {
-		// Clamp existing offset to new content bounds.
-		maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), newV.size.Height())
-		newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
-	}
+	newV.adjustScroll()
 
 	return newV
 }
 
+// adjustScroll moves the scroll offset to where it belongs after a change of
+// content or size: to the bottom in follow mode, otherwise inside the bounds.
+func (v *Viewport) adjustScroll() {
+	if v.followMode {
+		offset := v.scrollSvc.FollowModeOffset(len(v.content), v.size.Height())
+		v.scrollOffset = value2.NewScrollOffset(offset)
+		return
+	}
+
+	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.content), v.size.Height())
+	v.scrollOffset = v.scrollOffset.Clamp(maxOffset)
+}
+
 // WithSize returns a new Viewport with the given dimensions.
+// If follow mode is enabled, the viewport stays at the bottom.
 func (v *Viewport) WithSize(width, height int) *Viewport {
 	newV := v.clone()
 	newV.size = value2.NewViewportSize(width, height)
 
-	// Clamp scroll offset to new size bounds.
-	maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), height)
-	newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
+	newV.adjustScroll()
 
 	return newV
 }
-- 
2.43.0


From f33a0a1da565a8cf1c599e1fe4159eab6f3780e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 051/141] fix: components/viewport: wrapped content stays
 within the height and scrolls row by row

---
 .../internal/domain/model/viewport.go         | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index c3ba082..a2be093 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -14,6 +14,7 @@ import (
 // All operations are immutable - they return new Viewport instances.
 type Viewport struct {
 	content      []string
+	rows         []string // Content as displayed: long lines are split if wrapLines is set
 	size         *value2.ViewportSize
 	scrollOffset *value2.ScrollOffset
 	followMode   bool
@@ -47,21 +48,27 @@ func (v *Viewport) WithContent(content []string) *Viewport {
 	newV.content = make([]string, len(content))
 	copy(newV.content, content)
 
-	newV.adjustScroll()
+	newV.reflow()
 
 	return newV
 }
 
-// adjustScroll moves the scroll offset to where it belongs after a change of
-// content or size: to the bottom in follow mode, otherwise inside the bounds.
-func (v *Viewport) adjustScroll() {
+// reflow updates the rows after a change of content, size or wrapping and moves
+// the scroll offset to where it belongs: to the bottom in follow mode,
+// otherwise inside the bounds.
+func (v *Viewport) reflow() {
+	v.rows = v.content
+	if v.wrapLines && v.size.Width() > 0 {
+		v.rows = v.wrapContent()
+	}
+
 	if v.followMode {
-		offset := v.scrollSvc.FollowModeOffset(len(v.content), v.size.Height())
+		offset := v.scrollSvc.FollowModeOffset(len(v.rows), v.size.Height())
 		v.scrollOffset = value2.NewScrollOffset(offset)
 		return
 	}
 
-	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.content), v.size.Height())
+	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.rows), v.size.Height())
 	v.scrollOffset = v.scrollOffset.Clamp(maxOffset)
 }
 
@@ -71,7 +78,7 @@ func (v *Viewport) WithSize(width, height int) *Viewport {
 	newV := v.clone()
 	newV.size = value2.NewViewportSize(width, height)
 
-	newV.adjustScroll()
+	newV.reflow()
 
 	return newV
 }
@@ -95,6 +102,7 @@ func (v *Viewport) WithFollowMode(enabled bool) *Viewport {
 func (v *Viewport) WithWrapLines(enabled bool) *Viewport {
 	newV := v.clone()
 	newV.wrapLines = enabled
+	newV.reflow()
 	return newV
 }
 
@@ -111,12 +119,12 @@ func (v *Viewport) ScrollUp(lines int) *Viewport {
 // ScrollDown returns a new Viewport scrolled down by the given number of lines.
 func (v *Viewport) ScrollDown(lines int) *Viewport {
 	newV := v.clone()
-	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.content), v.size.Height())
+	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.rows), v.size.Height())
 	newOffset := v.scrollSvc.ScrollDown(v.scrollOffset.Offset(), lines, maxOffset)
 	newV.scrollOffset = value2.NewScrollOffset(newOffset)
 
 	// Re-enable follow mode if we've scrolled to the bottom.
-	if newV.scrollSvc.IsAtBottom(newOffset, len(v.content), v.size.Height()) {
+	if newV.scrollSvc.IsAtBottom(newOffset, len(v.rows), v.size.Height()) {
 		newV.followMode = true
 	}
 
@@ -136,7 +144,7 @@ func (v *Viewport) ScrollToTop() *Viewport {
 // Follow mode is enabled.
 func (v *Viewport) ScrollToBottom() *Viewport {
 	newV := v.clone()
-	offset := v.scrollSvc.FollowModeOffset(len(v.content), v.size.Height())
+	offset := v.scrollSvc.FollowModeOffset(len(v.rows), v.size.Height())
 	newV.scrollOffset = value2.NewScrollOffset(offset)
 	newV.followMode = true
 	return newV
@@ -148,7 +156,7 @@ func (v *Viewport) ScrollToBottom() *Viewport {
 // This provides low-level control over viewport position.
 func (v *Viewport) WithScrollOffset(offset int) *Viewport {
 	newV := v.clone()
-	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.content), v.size.Height())
+	maxOffset := v.scrollSvc.MaxScrollOffset(len(v.rows), v.size.Height())
 	// Clamp to valid range.
 	if offset < 0 {
 		offset = 0
@@ -172,14 +180,10 @@ func (v *Viewport) PageDown() *Viewport {
 }
 
 // VisibleLines returns the currently visible lines in the viewport.
-// Lines are truncated or wrapped based on the wrapLines setting.
+// Lines are truncated or wrapped based on the wrapLines setting,
+// wrapped lines are scrolled through row by row.
 func (v *Viewport) VisibleLines() []string {
-	visible := v.scrollSvc.VisibleLines(v.content, v.scrollOffset.Offset(), v.size.Height())
-
-	if v.wrapLines {
-		return v.wrapVisibleLines(visible)
-	}
-
+	visible := v.scrollSvc.VisibleLines(v.rows, v.scrollOffset.Offset(), v.size.Height())
 	return v.truncateVisibleLines(visible)
 }
 
@@ -195,7 +199,7 @@ func (v *Viewport) CanScrollUp() bool {
 
 // CanScrollDown returns true if the viewport can scroll down.
 func (v *Viewport) CanScrollDown() bool {
-	return v.scrollSvc.CanScrollDown(v.scrollOffset.Offset(), len(v.content), v.size.Height())
+	return v.scrollSvc.CanScrollDown(v.scrollOffset.Offset(), len(v.rows), v.size.Height())
 }
 
 // IsAtTop returns true if the viewport is at the top.
@@ -205,7 +209,7 @@ func (v *Viewport) IsAtTop() bool {
 
 // IsAtBottom returns true if the viewport is at the bottom.
 func (v *Viewport) IsAtBottom() bool {
-	return v.scrollSvc.IsAtBottom(v.scrollOffset.Offset(), len(v.content), v.size.Height())
+	return v.scrollSvc.IsAtBottom(v.scrollOffset.Offset(), len(v.rows), v.size.Height())
 }
 
 // TotalLines returns the total number of content lines.
@@ -241,6 +245,7 @@ func (v *Viewport) Content() []string {
 func (v *Viewport) clone() *Viewport {
 	return &Viewport{
 		content:      v.content,
+		rows:         v.rows,
 		size:         v.size,
 		scrollOffset: v.scrollOffset,
 		followMode:   v.followMode,
@@ -288,17 +293,12 @@ func (v *Viewport) truncateLine(line string, width int) string {
 	return result.String()
 }
 
-// wrapVisibleLines wraps lines that exceed the viewport width.
-// This is a simple implementation - each line that's too wide is split.
-func (v *Viewport) wrapVisibleLines(lines []string) []string {
-	if v.size.Width() <= 0 {
-		return []string{}
-	}
-
+// wrapContent returns the content with the lines that exceed the viewport width
+// wrapped. This is a simple implementation - each line that's too wide is split.
+func (v *Viewport) wrapContent() []string {
 	var result []string
-	for _, line := range lines {
-		wrapped := v.wrapLine(line, v.size.Width())
-		result = append(result, wrapped...)
+	for _, line := range v.content {
+		result = append(result, v.wrapLine(line, v.size.Width())...)
 	}
 	return result
 }
-- 
2.43.0


From c36a8392307d54afd0857409f0b74adb39744a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 052/141] fix: components/viewport: escape sequences in the
 content take no room and are never cut

---
 .../internal/domain/model/viewport.go         | 84 +++++++++++--------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index a2be093..fdb17ef 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -268,27 +268,26 @@ func (v *Viewport) truncateVisibleLines(lines []string) []string {
 }
 
 // truncateLine truncates a single line to fit within the given width.
-// Uses Unicode-aware width calculation.
+// Uses Unicode-aware width calculation. Escape sequences take no room and are
+// all kept, so that styles end where they do in the full line.
 func (v *Viewport) truncateLine(line string, width int) string {
 	if width <= 0 {
 		return ""
 	}
 
 	currentWidth := 0
+	full := false
 	var result strings.Builder
 
-	graphemes := uniseg.NewGraphemes(line)
-	for graphemes.Next() {
-		g := graphemes.Str()
-		gWidth := uniseg.StringWidth(g)
-
-		if currentWidth+gWidth > width {
-			break
+	forEachCharacter(line, func(char string, charWidth int, escape bool) {
+		if !escape {
+			if full = full || currentWidth+charWidth > width; full {
+				return
+			}
+			currentWidth += charWidth
 		}
-
-		result.WriteString(g)
-		currentWidth += gWidth
-	}
+		result.WriteString(char)
+	})
 
 	return result.String()
 }
@@ -304,41 +303,60 @@ func (v *Viewport) wrapContent() []string {
 }
 
 // wrapLine wraps a single line to fit within the given width.
-// Returns multiple lines if wrapping is needed.
+// Returns multiple lines if wrapping is needed, styles that continue on the
+// next line are repeated there.
 func (v *Viewport) wrapLine(line string, width int) []string {
 	if width <= 0 {
 		return []string{}
 	}
 
-	lineWidth := uniseg.StringWidth(line)
-	if lineWidth <= width {
-		return []string{line}
-	}
-
 	var result []string
 	currentWidth := 0
 	var currentLine strings.Builder
-
-	graphemes := uniseg.NewGraphemes(line)
-	for graphemes.Next() {
-		g := graphemes.Str()
-		gWidth := uniseg.StringWidth(g)
-
-		if currentWidth+gWidth > width && currentWidth > 0 {
+	styles := "" // Escape sequences in effect.
+
+	forEachCharacter(line, func(char string, charWidth int, escape bool) {
+		switch {
+		case escape && (char == "\x1b[0m" || char == "\x1b[m"):
+			styles = ""
+		case escape:
+			styles += char
+		case currentWidth+charWidth > width && currentWidth > 0:
 			// Start a new line.
+			if styles != "" {
+				currentLine.WriteString("\x1b[0m")
+			}
 			result = append(result, currentLine.String())
 			currentLine.Reset()
+			currentLine.WriteString(styles)
 			currentWidth = 0
 		}
 
-		currentLine.WriteString(g)
-		currentWidth += gWidth
-	}
+		currentLine.WriteString(char)
+		currentWidth += charWidth
+	})
 
-	// Add the last line.
-	if currentLine.Len() > 0 {
-		result = append(result, currentLine.String())
-	}
+	return append(result, currentLine.String())
+}
 
-	return result
+// forEachCharacter calls fn for each character and each escape sequence (CSI) of line.
+func forEachCharacter(line string, fn func(char string, width int, escape bool)) {
+	state := -1
+	for line != "" {
+		if strings.HasPrefix(line, "\x1b[") {
+			// Parameters up to the final byte (0x40-0x7E).
+			end := 2
+			for end < len(line) && (line[end] < 0x40 || line[end] > 0x7e) {
+				end++
+			}
+			end = min(end+1, len(line))
+			fn(line[:end], 0, true)
+			line, state = line[end:], -1
+			continue
+		}
+
+		var char string
+		char, line, _, state = uniseg.FirstGraphemeClusterInString(line, state)
+		fn(char, uniseg.StringWidth(char), false)
+	}
 }
-- 
2.43.0


From 8b62c5c47a5c23712dcfc148b2c208c26061b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 053/141] fix: components/viewport: enabling follow mode goes
 to the last row of wrapped content

---
 components/viewport/internal/domain/model/viewport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index fdb17ef..43e1584 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -91,7 +91,7 @@ func (v *Viewport) WithFollowMode(enabled bool) *Viewport {
 
 	// If enabling follow mode, scroll to bottom immediately.
 	if enabled {
-		offset := newV.scrollSvc.FollowModeOffset(len(newV.content), newV.size.Height())
+		offset := newV.scrollSvc.FollowModeOffset(len(newV.rows), newV.size.Height())
 		newV.scrollOffset = value2.NewScrollOffset(offset)
 	}
 
-- 
2.43.0


From de6688a6c9de5cfdeeb5ffc498e37e3a272ee02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 054/141] fix: components/list: typing extends the filter and
 backspace removes one character of it

---
 components/list/internal/domain/model/list.go |  5 +++++
 components/list/list.go                       | 12 +++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index 63385be..f5621f6 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -253,6 +253,11 @@ func (l *List) FilteredItems() []*value.Item {
 	return result
 }
 
+// FilterQuery returns the current filter query.
+func (l *List) FilterQuery() string {
+	return l.filterQuery
+}
+
 // IsFiltered returns true if a filter is currently active.
 func (l *List) IsFiltered() bool {
 	return l.filterQuery != ""
diff --git a/components/list/list.go b/components/list/list.go
index 401896b..a96a75f 100644
--- a/components/list/list.go
+++ b/components/list/list.go
@@ -28,6 +28,7 @@ package list
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
@@ -235,13 +236,14 @@ func (l *List) handleKey(msg tea.KeyMsg) (*List, tea.Cmd) {
 		return newList, tea.Quit()
 	default:
 		// If no action matched, check if it's a printable character for filtering.
-		if newList.showFilter && msg.Type == tea.KeyRune {
+		query := newList.domain.FilterQuery()
+		if newList.showFilter && msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 			// Add character to filter query.
-			currentQuery := string(msg.Rune)
-			newList.domain = newList.domain.SetFilterQuery(currentQuery)
-		} else if newList.showFilter && msg.Type == tea.KeyBackspace {
+			newList.domain = newList.domain.SetFilterQuery(query + string(msg.Rune))
+		} else if newList.showFilter && msg.Type == tea.KeyBackspace && query != "" {
 			// Remove last character from filter query.
-			newList.domain = newList.domain.ClearFilter()
+			_, size := utf8.DecodeLastRuneInString(query)
+			newList.domain = newList.domain.SetFilterQuery(query[:len(query)-size])
 		}
 	}
 
-- 
2.43.0


From 71ca622c6f84701a1e158861e1b9669814c39189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 055/141] fix: components/list: changing the filter function
 keeps the focus on an item and visible

---
 components/list/internal/domain/model/list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index f5621f6..db178b6 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -82,6 +82,7 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 	newList := l.clone()
 	newList.filterFunc = filterFunc
 	newList.applyFilter()
+	newList.resetFocus()
 	return newList
 }
 
-- 
2.43.0


From 02f3cb2138acd42314e3da8c0a5c9369334c7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 056/141] fix: components/list: selected items are reported in
 list order

---
 components/list/internal/domain/model/list.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index db178b6..a6b37fb 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"sort"
+
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/components/list/internal/domain/value"
 )
@@ -207,10 +209,10 @@ func (l *List) ClearSelection() *List {
 	return newList
 }
 
-// SelectedItems returns the selected items.
+// SelectedItems returns the selected items in list order.
 func (l *List) SelectedItems() []*value.Item {
 	result := make([]*value.Item, 0, len(l.selectedIndices))
-	for idx := range l.selectedIndices {
+	for _, idx := range l.SelectedIndices() {
 		if idx < len(l.filteredItems) {
 			result = append(result, l.filteredItems[idx])
 		}
@@ -269,12 +271,13 @@ func (l *List) FocusedIndex() int {
 	return l.focusedIndex
 }
 
-// SelectedIndices returns the indices of selected items (in filtered list).
+// SelectedIndices returns the indices of selected items (in filtered list) in ascending order.
 func (l *List) SelectedIndices() []int {
 	result := make([]int, 0, len(l.selectedIndices))
 	for idx := range l.selectedIndices {
 		result = append(result, idx)
 	}
+	sort.Ints(result)
 	return result
 }
 
-- 
2.43.0


From b0f70d047ef53bdb31b1a3388bdd9635cbb17d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 057/141] fix: components/list: a negative height shows nothing
 instead of crashing

---
 components/list/internal/domain/model/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/list/internal/domain/model/list.go b/components/list/internal/domain/model/list.go
index a6b37fb..5539030 100644
--- a/components/list/internal/domain/model/list.go
+++ b/components/list/internal/domain/model/list.go
@@ -91,7 +91,7 @@ func (l *List) WithFilter(filterFunc func(*value.Item, string) bool) *List {
 // WithHeight returns a new List with the specified visible height.
 func (l *List) WithHeight(height int) *List {
 	newList := l.clone()
-	newList.height = height
+	newList.height = max(height, 0)
 	newList.updateScrollOffset()
 	return newList
 }
-- 
2.43.0


From 72d5723f357185a35e71d19880021daba840696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 058/141] fix: components/select: backspace removes one whole
 character of the filter

---
 components/select/select.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/select/select.go b/components/select/select.go
index 565732e..975b9ed 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -30,6 +30,7 @@ package selectcomponent
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
@@ -190,7 +191,8 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := s.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			_, size := utf8.DecodeLastRuneInString(currentQuery)
+			newQuery := currentQuery[:len(currentQuery)-size]
 			newS.domain = newS.domain.SetFilterQuery(newQuery)
 		}
 		return newS
-- 
2.43.0


From 8c4773cbd115d9d44cc0ec096844f0aec19e82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 059/141] fix: components/select: Ctrl+C as read from a
 terminal quits

---
 components/select/internal/infrastructure/keyboard.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/select/internal/infrastructure/keyboard.go b/components/select/internal/infrastructure/keyboard.go
index eb4e94f..fa8d6ca 100644
--- a/components/select/internal/infrastructure/keyboard.go
+++ b/components/select/internal/infrastructure/keyboard.go
@@ -49,6 +49,11 @@ func DefaultKeyBindingMap() *KeyBindingMap {
 
 // GetAction returns the action for the given key message.
 func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
+	// Ctrl+C read from a terminal is a rune with the Ctrl modifier
+	if msg.Type == tea.KeyRune && msg.Ctrl && msg.Rune == 'c' {
+		msg = tea.KeyMsg{Type: tea.KeyCtrlC}
+	}
+
 	// Check type-based bindings first
 	if action, ok := k.bindings[msg.Type]; ok {
 		return action
-- 
2.43.0


From 5b800991c60584c76fd569692624778cb1d3f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 060/141] fix: components/select: key combinations are neither
 navigation nor filter text

---
 components/select/internal/infrastructure/keyboard.go | 2 +-
 components/select/select.go                           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/select/internal/infrastructure/keyboard.go b/components/select/internal/infrastructure/keyboard.go
index fa8d6ca..cf19423 100644
--- a/components/select/internal/infrastructure/keyboard.go
+++ b/components/select/internal/infrastructure/keyboard.go
@@ -60,7 +60,7 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	}
 
 	// Check rune-based bindings
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		if action, ok := k.runeMap[msg.Rune]; ok {
 			return action
 		}
diff --git a/components/select/select.go b/components/select/select.go
index 975b9ed..e65759f 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -181,7 +181,7 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 		return newS
 	}
 
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		currentQuery := s.domain.FilterQuery()
 		newQuery := currentQuery + string(msg.Rune)
 		newS.domain = newS.domain.SetFilterQuery(newQuery)
-- 
2.43.0


From 18616c23efd933d7f3ffab7c336f2287ece3a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 061/141] fix: components/select: an empty filter shows every
 option, whatever the filter function

---
 components/select/internal/domain/model/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index e7e4800..70e9774 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -144,7 +144,7 @@ func (s *Select[T]) SetFilterQuery(query string) *Select[T] {
 	// Filter options based on query
 	filtered := make([]*value.Option[T], 0)
 	for _, opt := range s.options {
-		if s.filterFunc(opt, query) {
+		if query == "" || s.filterFunc(opt, query) {
 			filtered = append(filtered, opt)
 		}
 	}
-- 
2.43.0


From 6eed9f5edf1a6de526497f923a2c402c5e1a62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 062/141] fix: components/multiselect: backspace removes one
 whole character of the filter

---
 components/multiselect/multiselect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 70a1258..5487aaa 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -37,6 +37,7 @@ package multiselect
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/multiselect/internal/domain/value"
@@ -270,7 +271,8 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 	if msg.Type == tea.KeyBackspace {
 		currentQuery := m.domain.FilterQuery()
 		if currentQuery != "" {
-			newQuery := currentQuery[:len(currentQuery)-1]
+			_, size := utf8.DecodeLastRuneInString(currentQuery)
+			newQuery := currentQuery[:len(currentQuery)-size]
 			newM.domain = newM.domain.SetFilterQuery(newQuery)
 		}
 		return newM
-- 
2.43.0


From 32b7c1a0a54618cea9e699b2b9daa909bf2ff68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 063/141] fix: components/multiselect: Ctrl+C as read from a
 terminal quits

---
 components/multiselect/internal/infrastructure/keyboard.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/multiselect/internal/infrastructure/keyboard.go b/components/multiselect/internal/infrastructure/keyboard.go
index 73b537b..4d33b7b 100644
--- a/components/multiselect/internal/infrastructure/keyboard.go
+++ b/components/multiselect/internal/infrastructure/keyboard.go
@@ -55,6 +55,11 @@ func DefaultKeyBindingMap() *KeyBindingMap {
 
 // GetAction returns the action for the given key message.
 func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
+	// Ctrl+C read from a terminal is a rune with the Ctrl modifier
+	if msg.Type == tea.KeyRune && msg.Ctrl && msg.Rune == 'c' {
+		msg = tea.KeyMsg{Type: tea.KeyCtrlC}
+	}
+
 	// Check type-based bindings first
 	if action, ok := k.bindings[msg.Type]; ok {
 		return action
-- 
2.43.0


From 18caf605495bb78f80badaf5426fd0289c797d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 064/141] fix: components/multiselect: key combinations are
 neither navigation nor filter text

---
 components/multiselect/internal/infrastructure/keyboard.go | 2 +-
 components/multiselect/multiselect.go                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/multiselect/internal/infrastructure/keyboard.go b/components/multiselect/internal/infrastructure/keyboard.go
index 4d33b7b..c449c55 100644
--- a/components/multiselect/internal/infrastructure/keyboard.go
+++ b/components/multiselect/internal/infrastructure/keyboard.go
@@ -66,7 +66,7 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	}
 
 	// Check rune-based bindings
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		if action, ok := k.runeMap[msg.Rune]; ok {
 			return action
 		}
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index 5487aaa..ea7457a 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -255,7 +255,7 @@ func (m *MultiSelect[T]) handleFilterInput(newM *MultiSelect[T], msg tea.KeyMsg)
 		return newM
 	}
 
-	if msg.Type == tea.KeyRune {
+	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		// Skip if it's a bound rune (a, n, j, k, g, G)
 		action := m.keymap.GetAction(msg)
 		if action != infrastructure.ActionNone {
-- 
2.43.0


From cd0136ba4c99ecef9384067309558bf2a946b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 065/141] fix: components/multiselect: an empty filter shows
 every option, whatever the filter function

---
 components/multiselect/internal/domain/model/multiselect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 0d8ef32..1a638ec 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -188,7 +188,7 @@ func (m *MultiSelect[T]) SetFilterQuery(query string) *MultiSelect[T] {
 	// Filter options based on query
 	filtered := make([]*value.Option[T], 0)
 	for _, opt := range m.options {
-		if m.filterFunc(opt, query) {
+		if query == "" || m.filterFunc(opt, query) {
 			filtered = append(filtered, opt)
 		}
 	}
-- 
2.43.0


From 67011a066935a968d8291a531e2711339f29fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 066/141] fix: components/select: changing the filter function
 applies it to the current filter

---
 components/select/internal/domain/model/select.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 70e9774..6174278 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -64,7 +64,7 @@ func (s *Select[T]) WithHeight(height int) *Select[T] {
 
 // WithFilterFunc returns a new Select with the specified filter function.
 func (s *Select[T]) WithFilterFunc(fn FilterFunc[T]) *Select[T] {
-	return &Select[T]{
+	newS := &Select[T]{
 		options:       s.options,
 		cursor:        s.cursor,
 		selectedIndex: s.selectedIndex,
@@ -75,6 +75,7 @@ func (s *Select[T]) WithFilterFunc(fn FilterFunc[T]) *Select[T] {
 		filterFunc:    fn,
 		renderFunc:    s.renderFunc,
 	}
+	return newS.SetFilterQuery(newS.filterQuery)
 }
 
 // WithRenderFunc returns a new Select with the specified render function.
-- 
2.43.0


From 22445d02d16a7ba77ec4eb1fcf6f7796ac650fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 067/141] fix: components/select: setting the options keeps the
 height, filter and render functions

---
 components/select/internal/domain/model/select.go | 9 +++++++++
 components/select/select.go                       | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 6174278..76d901b 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -44,6 +44,15 @@ func New[T any](options []*value.Option[T]) *Select[T] {
 	}
 }
 
+// WithOptions returns a new Select with the given options, no filter and nothing selected.
+func (s *Select[T]) WithOptions(options []*value.Option[T]) *Select[T] {
+	newS := New(options)
+	newS.height = s.height
+	newS.filterFunc = s.filterFunc
+	newS.renderFunc = s.renderFunc
+	return newS
+}
+
 // WithHeight returns a new Select with the specified visible height.
 func (s *Select[T]) WithHeight(height int) *Select[T] {
 	if height < 1 {
diff --git a/components/select/select.go b/components/select/select.go
index e65759f..7bb3b89 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -65,7 +65,7 @@ func New[T any](title string) *Select[T] {
 func (s *Select[T]) Options(options ...*value.Option[T]) *Select[T] {
 	return &Select[T]{
 		title:      s.title,
-		domain:     model.New(options),
+		domain:     s.domain.WithOptions(options),
 		keymap:     s.keymap,
 		filterable: s.filterable,
 	}
-- 
2.43.0


From 635ad57877da3f306b6f84e2ee3421b2dbe22acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 068/141] fix: components/select: the options are independent
 of the caller's slice

---
 components/select/internal/domain/model/select.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index 76d901b..ceadcec 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -27,9 +27,7 @@ type RenderFunc[T any] func(opt *value.Option[T], index int, focused bool) strin
 
 // New creates a new Select with the given options.
 func New[T any](options []*value.Option[T]) *Select[T] {
-	if len(options) == 0 {
-		options = make([]*value.Option[T], 0)
-	}
+	options = append([]*value.Option[T]{}, options...)
 
 	return &Select[T]{
 		options:       options,
-- 
2.43.0


From ec995dc852b1602503ec052a4533ba91aab9d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 069/141] fix: components/multiselect: changing the filter
 function applies it to the current filter

---
 components/multiselect/internal/domain/model/multiselect.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 1a638ec..6b61876 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -64,7 +64,7 @@ func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 
 // WithFilterFunc returns a new MultiSelect with the specified filter function.
 func (m *MultiSelect[T]) WithFilterFunc(fn FilterFunc[T]) *MultiSelect[T] {
-	return &MultiSelect[T]{
+	newM := &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
 		selection:    m.selection,
@@ -75,6 +75,7 @@ func (m *MultiSelect[T]) WithFilterFunc(fn FilterFunc[T]) *MultiSelect[T] {
 		filterFunc:   fn,
 		renderFunc:   m.renderFunc,
 	}
+	return newM.SetFilterQuery(newM.filterQuery)
 }
 
 // WithRenderFunc returns a new MultiSelect with the specified render function.
-- 
2.43.0


From 1baa8f5fb5d1f41cf08199d3a8e02b3f5b60c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 070/141] fix: components/multiselect: setting the options
 keeps the height, filter and render functions

---
 .../multiselect/internal/domain/model/multiselect.go   | 10 ++++++++++
 components/multiselect/multiselect.go                  |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 6b61876..92b23b3 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -44,6 +44,16 @@ func New[T any](options []*value.Option[T], minCount, maxCount int) *MultiSelect
 	}
 }
 
+// WithOptions returns a new MultiSelect with the given options, no filter and nothing selected.
+func (m *MultiSelect[T]) WithOptions(options []*value.Option[T]) *MultiSelect[T] {
+	newM := New(options, 0, 0)
+	newM.selection = m.selection.Clear()
+	newM.height = m.height
+	newM.filterFunc = m.filterFunc
+	newM.renderFunc = m.renderFunc
+	return newM
+}
+
 // WithHeight returns a new MultiSelect with the specified visible height.
 func (m *MultiSelect[T]) WithHeight(height int) *MultiSelect[T] {
 	if height < 1 {
diff --git a/components/multiselect/multiselect.go b/components/multiselect/multiselect.go
index ea7457a..1e05f9c 100644
--- a/components/multiselect/multiselect.go
+++ b/components/multiselect/multiselect.go
@@ -76,7 +76,7 @@ func New[T any](title string) *MultiSelect[T] {
 func (m *MultiSelect[T]) Options(options ...*value.Option[T]) *MultiSelect[T] {
 	return &MultiSelect[T]{
 		title:      m.title,
-		domain:     model.New(options, m.min, m.max),
+		domain:     m.domain.WithOptions(options),
 		keymap:     m.keymap,
 		filterable: m.filterable,
 		min:        m.min,
-- 
2.43.0


From fc0d3bb8d83c20ad60261fef12558bc10ee42c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 071/141] fix: components/multiselect: the options are
 independent of the caller's slice

---
 components/multiselect/internal/domain/model/multiselect.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 92b23b3..93f8cfe 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -27,9 +27,7 @@ type RenderFunc[T any] func(opt *value.Option[T], index int, focused bool, selec
 
 // New creates a new MultiSelect with the given options.
 func New[T any](options []*value.Option[T], minCount, maxCount int) *MultiSelect[T] {
-	if len(options) == 0 {
-		options = make([]*value.Option[T], 0)
-	}
+	options = append([]*value.Option[T]{}, options...)
 
 	return &MultiSelect[T]{
 		options:      options,
-- 
2.43.0


From c0ef4283ed91e186649e79fa2dc11d8bb63cbc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 072/141] fix: components/select: confirming while nothing
 matches does not report an earlier selection

---
 components/select/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/select/select.go b/components/select/select.go
index 7bb3b89..095b149 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -163,7 +163,7 @@ func (s *Select[T]) handleKey(msg tea.KeyMsg) (*Select[T], tea.Cmd) {
 		newS.domain = newS.domain.MoveToEnd()
 	case infrastructure.ActionSelect:
 		newS.domain = newS.domain.Select()
-		return newS, ConfirmSelectionCmd[T](newS.SelectedValue)
+		return newS, ConfirmSelectionCmd[T](newS.FocusedValue)
 	case infrastructure.ActionClearFilter:
 		newS.domain = newS.domain.ClearFilter()
 	case infrastructure.ActionQuit:
-- 
2.43.0


From 5e4d8e0cc1f8589886f9c6339140ecfb7a76b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 073/141] fix: components/select: a disabled option cannot be
 selected

---
 components/select/internal/domain/model/select.go | 7 ++++++-
 components/select/select.go                       | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index ceadcec..f52acf7 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -133,9 +133,14 @@ func (s *Select[T]) MoveToEnd() *Select[T] {
 	return s.withCursor(maxIndex)
 }
 
+// FocusedDisabled returns true if the currently focused option cannot be selected.
+func (s *Select[T]) FocusedDisabled() bool {
+	return s.cursor >= 0 && s.cursor < len(s.filteredOpts) && s.filteredOpts[s.cursor].Disabled()
+}
+
 // Select marks the currently focused option as selected.
 func (s *Select[T]) Select() *Select[T] {
-	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) {
+	if s.cursor >= 0 && s.cursor < len(s.filteredOpts) && !s.FocusedDisabled() {
 		// Find the original index in options array
 		selectedOpt := s.filteredOpts[s.cursor]
 		for i, opt := range s.options {
diff --git a/components/select/select.go b/components/select/select.go
index 095b149..15d65fe 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -162,6 +162,9 @@ func (s *Select[T]) handleKey(msg tea.KeyMsg) (*Select[T], tea.Cmd) {
 	case infrastructure.ActionMoveToEnd:
 		newS.domain = newS.domain.MoveToEnd()
 	case infrastructure.ActionSelect:
+		if newS.domain.FocusedDisabled() {
+			return newS, nil
+		}
 		newS.domain = newS.domain.Select()
 		return newS, ConfirmSelectionCmd[T](newS.FocusedValue)
 	case infrastructure.ActionClearFilter:
-- 
2.43.0


From 9572a8122030efe2b1b9327fe5f33aff19dc9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 074/141] fix: components/select: spaces can be typed into the
 filter

---
 components/select/select.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/select/select.go b/components/select/select.go
index 15d65fe..cd6b2fe 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -184,6 +184,11 @@ func (s *Select[T]) handleFilterInput(newS *Select[T], msg tea.KeyMsg) *Select[T
 		return newS
 	}
 
+	// Space is parsed as KeySpace, not KeyRune
+	if msg.Type == tea.KeySpace {
+		msg.Type, msg.Rune = tea.KeyRune, ' '
+	}
+
 	if msg.Type == tea.KeyRune && !msg.Ctrl && !msg.Alt {
 		currentQuery := s.domain.FilterQuery()
 		newQuery := currentQuery + string(msg.Rune)
-- 
2.43.0


From 6306bb11dbce6d5d2db56ccf3cec475b06633194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 075/141] fix: components/select: WithDefault selects and
 focuses the default option

---
 components/select/internal/domain/model/select.go | 12 ++++++++++++
 components/select/select.go                       | 12 ++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/components/select/internal/domain/model/select.go b/components/select/internal/domain/model/select.go
index f52acf7..c876a87 100644
--- a/components/select/internal/domain/model/select.go
+++ b/components/select/internal/domain/model/select.go
@@ -2,6 +2,8 @@
 package model
 
 import (
+	"reflect"
+
 	"github.com/phoenix-tui/phoenix/components/select/internal/domain/value"
 )
 
@@ -100,6 +102,16 @@ func (s *Select[T]) WithRenderFunc(fn RenderFunc[T]) *Select[T] {
 	}
 }
 
+// WithDefault returns a new Select with the first option holding val selected and focused.
+func (s *Select[T]) WithDefault(val T) *Select[T] {
+	for i, opt := range s.options {
+		if reflect.DeepEqual(opt.Value(), val) {
+			return s.ClearFilter().withCursor(i).withSelectedIndex(i)
+		}
+	}
+	return s
+}
+
 // MoveUp moves the cursor up one position.
 func (s *Select[T]) MoveUp() *Select[T] {
 	newCursor := s.cursor
diff --git a/components/select/select.go b/components/select/select.go
index cd6b2fe..d3071d0 100644
--- a/components/select/select.go
+++ b/components/select/select.go
@@ -112,10 +112,14 @@ func (s *Select[T]) WithRenderFunc(fn func(opt *value.Option[T], index int, focu
 }
 
 // WithDefault sets the default selected value.
-func (s *Select[T]) WithDefault(_ T) *Select[T] {
-	// TODO: Find matching option and select it
-	// This is a simplified implementation for now
-	return s
+// The first option with this value is selected and focused.
+func (s *Select[T]) WithDefault(val T) *Select[T] {
+	return &Select[T]{
+		title:      s.title,
+		domain:     s.domain.WithDefault(val),
+		keymap:     s.keymap,
+		filterable: s.filterable,
+	}
 }
 
 // SelectedValue returns the currently selected value, or zero value if nothing selected.
-- 
2.43.0


From f28e88e6ef9de40651d44b5aa20d5b60d3a6de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 076/141] fix: components/multiselect: disabled options cannot
 be selected

---
 components/multiselect/internal/domain/model/multiselect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 93f8cfe..35b5938 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -154,6 +154,9 @@ func (m *MultiSelect[T]) Toggle() *MultiSelect[T] {
 	if m.cursor >= 0 && m.cursor < len(m.filteredOpts) {
 		// Find the original index in options array
 		focusedOpt := m.filteredOpts[m.cursor]
+		if focusedOpt.Disabled() {
+			return m
+		}
 		for i, opt := range m.options {
 			if opt == focusedOpt {
 				return m.withSelection(m.selection.Toggle(i))
@@ -168,6 +171,9 @@ func (m *MultiSelect[T]) SelectAll() *MultiSelect[T] {
 	// Build list of indices for filtered options
 	indices := make([]int, 0, len(m.filteredOpts))
 	for _, filteredOpt := range m.filteredOpts {
+		if filteredOpt.Disabled() {
+			continue
+		}
 		for i, opt := range m.options {
 			if opt == filteredOpt {
 				indices = append(indices, i)
-- 
2.43.0


From 94c76668290b81a063be690260ec2afa578382db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 077/141] fix: components/multiselect: preselecting options
 that do not exist selects nothing

---
 .../multiselect/internal/domain/model/multiselect.go     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/components/multiselect/internal/domain/model/multiselect.go b/components/multiselect/internal/domain/model/multiselect.go
index 35b5938..6315b2f 100644
--- a/components/multiselect/internal/domain/model/multiselect.go
+++ b/components/multiselect/internal/domain/model/multiselect.go
@@ -103,10 +103,17 @@ func (m *MultiSelect[T]) WithRenderFunc(fn RenderFunc[T]) *MultiSelect[T] {
 
 // WithSelected returns a new MultiSelect with the specified indices pre-selected.
 func (m *MultiSelect[T]) WithSelected(indices ...int) *MultiSelect[T] {
+	existing := make([]int, 0, len(indices))
+	for _, idx := range indices {
+		if idx < len(m.options) {
+			existing = append(existing, idx)
+		}
+	}
+
 	return &MultiSelect[T]{
 		options:      m.options,
 		cursor:       m.cursor,
-		selection:    m.selection.WithSelected(indices...),
+		selection:    m.selection.WithSelected(existing...),
 		filterQuery:  m.filterQuery,
 		filteredOpts: m.filteredOpts,
 		height:       m.height,
-- 
2.43.0


From de946f7841ea670f941d078acc6aad7935bfd4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 078/141] fix: components/table: cells are cut and padded by
 the columns they take

---
 components/internal/text/text.go | 55 ++++++++++++++++++++++++++++++++
 components/table/table.go        | 21 ++++++------
 2 files changed, 66 insertions(+), 10 deletions(-)
 create mode 100644 components/internal/text/text.go

diff --git a/components/internal/text/text.go b/components/internal/text/text.go
new file mode 100644
index 0000000..3f78a63
--- /dev/null
+++ b/components/internal/text/text.go
@@ -0,0 +1,55 @@
+// Package text measures and cuts text that may contain escape sequences.
+package text
+
+import (
+	"strings"
+
+	"github.com/rivo/uniseg"
+)
+
+// Each calls fn for each character and each escape sequence (CSI) of s,
+// escape sequences have no width.
+func Each(s string, fn func(char string, width int, escape bool)) {
+	state := -1
+	for s != "" {
+		if strings.HasPrefix(s, "\x1b[") {
+			// Parameters up to the final byte (0x40-0x7E).
+			end := 2
+			for end < len(s) && (s[end] < 0x40 || s[end] > 0x7e) {
+				end++
+			}
+			end = min(end+1, len(s))
+			fn(s[:end], 0, true)
+			s, state = s[end:], -1
+			continue
+		}
+
+		var char string
+		char, s, _, state = uniseg.FirstGraphemeClusterInString(s, state)
+		fn(char, uniseg.StringWidth(char), false)
+	}
+}
+
+// Width returns the number of columns s takes.
+func Width(s string) int {
+	total := 0
+	Each(s, func(_ string, width int, _ bool) { total += width })
+	return total
+}
+
+// Truncate returns the characters of s that fit in width columns.
+// All escape sequences are kept, so that styles end where they do in s.
+func Truncate(s string, width int) string {
+	var b strings.Builder
+	used, full := 0, false
+	Each(s, func(char string, w int, escape bool) {
+		if !escape {
+			if full = full || used+w > width; full {
+				return
+			}
+			used += w
+		}
+		b.WriteString(char)
+	})
+	return b.String()
+}
diff --git a/components/table/table.go b/components/table/table.go
index b496527..8dcf333 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/components/internal/text"
 	model2 "github.com/phoenix-tui/phoenix/components/table/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/table/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/components/table/internal/domain/value"
@@ -308,33 +309,33 @@ func (t *Table) View() string {
 }
 
 // formatCell formats a cell with alignment and width.
-func (t *Table) formatCell(text string, width int, alignment value2.Alignment) string {
+func (t *Table) formatCell(content string, width int, alignment value2.Alignment) string {
 	// Truncate if too long.
-	if len(text) > width {
+	if text.Width(content) > width {
 		if width > 3 {
-			text = text[:width-3] + "..."
+			content = text.Truncate(content, width-3) + "..."
 		} else {
-			text = text[:width]
+			content = text.Truncate(content, width)
 		}
 	}
 
 	// Pad based on alignment.
-	padding := width - len(text)
+	padding := width - text.Width(content)
 	if padding <= 0 {
-		return text
+		return content
 	}
 
 	switch {
 	case alignment.IsLeft():
-		return text + strings.Repeat(" ", padding)
+		return content + strings.Repeat(" ", padding)
 	case alignment.IsRight():
-		return strings.Repeat(" ", padding) + text
+		return strings.Repeat(" ", padding) + content
 	case alignment.IsCenter():
 		leftPad := padding / 2
 		rightPad := padding - leftPad
-		return strings.Repeat(" ", leftPad) + text + strings.Repeat(" ", rightPad)
+		return strings.Repeat(" ", leftPad) + content + strings.Repeat(" ", rightPad)
 	default:
-		return text
+		return content
 	}
 }
 
-- 
2.43.0


From 483d64f949e37807118aca5674293f05e89c071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 079/141] fix: components/table: the selection indicator
 replaces a whole character

---
 components/table/table.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/components/table/table.go b/components/table/table.go
index 8dcf333..65b09f3 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -291,9 +291,7 @@ func (t *Table) View() string {
 
 			// Add selection indicator.
 			if isSelected && colIdx == 0 {
-				if cell != "" {
-					cell = ">" + cell[1:]
-				}
+				cell = markSelected(cell)
 			}
 
 			b.WriteString(cell)
@@ -308,6 +306,20 @@ func (t *Table) View() string {
 	return b.String()
 }
 
+// markSelected replaces the first character of a cell by the selection indicator.
+func markSelected(cell string) string {
+	var b strings.Builder
+	marked := false
+	text.Each(cell, func(char string, width int, _ bool) {
+		if !marked && width > 0 {
+			char = ">" + strings.Repeat(" ", width-1)
+			marked = true
+		}
+		b.WriteString(char)
+	})
+	return b.String()
+}
+
 // formatCell formats a cell with alignment and width.
 func (t *Table) formatCell(content string, width int, alignment value2.Alignment) string {
 	// Truncate if too long.
-- 
2.43.0


From a2e46fc670772ed7b8c93f69e7559d503376a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 080/141] fix: components/table: changing the height or header
 keeps the selected row visible and never crashes

---
 .../table/internal/domain/model/table.go      | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/components/table/internal/domain/model/table.go b/components/table/internal/domain/model/table.go
index 9e42ef7..b80fb29 100644
--- a/components/table/internal/domain/model/table.go
+++ b/components/table/internal/domain/model/table.go
@@ -68,7 +68,7 @@ func (t *Table) WithRows(rows []Row) *Table {
 
 // WithHeight returns a new table with the specified visible height.
 func (t *Table) WithHeight(height int) *Table {
-	return &Table{
+	return (&Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -78,12 +78,12 @@ func (t *Table) WithHeight(height int) *Table {
 		scrollOffset:  t.scrollOffset,
 		height:        height,
 		showHeader:    t.showHeader,
-	}
+	}).withSelectionVisible()
 }
 
 // WithShowHeader returns a new table with header visibility set.
 func (t *Table) WithShowHeader(show bool) *Table {
-	return &Table{
+	return (&Table{
 		columns:       t.columns,
 		rows:          t.rows,
 		sortedRows:    t.sortedRows,
@@ -93,7 +93,29 @@ func (t *Table) WithShowHeader(show bool) *Table {
 		scrollOffset:  t.scrollOffset,
 		height:        t.height,
 		showHeader:    show,
+	}).withSelectionVisible()
+}
+
+// visibleRowCount returns the number of rows that can be shown.
+func (t *Table) visibleRowCount() int {
+	if t.showHeader {
+		return max(0, t.height-1) // Header takes one row
+	}
+	return max(0, t.height)
+}
+
+// withSelectionVisible scrolls as little as needed to show the selected row
+// and as many rows as possible.
+func (t *Table) withSelectionVisible() *Table {
+	visibleRows := t.visibleRowCount()
+	if visibleRows == 0 {
+		return t
 	}
+
+	offset := min(t.scrollOffset, len(t.effectiveRows())-visibleRows)
+	offset = max(offset, t.selectedIndex-visibleRows+1, 0)
+	t.scrollOffset = min(offset, t.selectedIndex)
+	return t
 }
 
 // SortBy returns a new table sorted by the specified column and direction.
@@ -165,10 +187,7 @@ func (t *Table) MoveDown() *Table {
 	newOffset := t.scrollOffset
 
 	// Scroll down if needed.
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows-- // Header takes one row
-	}
+	visibleRows := t.visibleRowCount()
 	if newIndex >= t.scrollOffset+visibleRows {
 		newOffset = newIndex - visibleRows + 1
 	}
@@ -208,10 +227,7 @@ func (t *Table) MoveToEnd() *Table {
 		maxIndex = 0
 	}
 
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
+	visibleRows := t.visibleRowCount()
 
 	newOffset := maxIndex - visibleRows + 1
 	if newOffset < 0 {
@@ -266,10 +282,7 @@ func (t *Table) Rows() []Row {
 // VisibleRows returns the rows currently visible in the viewport.
 func (t *Table) VisibleRows() []Row {
 	rows := t.effectiveRows()
-	visibleRows := t.height
-	if t.showHeader {
-		visibleRows--
-	}
+	visibleRows := t.visibleRowCount()
 
 	start := t.scrollOffset
 	end := start + visibleRows
-- 
2.43.0


From 63f4d7e04e7bf44b3c95de435cc9fa0b68fdebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 081/141] fix: components/table: a negative column width shows
 nothing instead of crashing

---
 components/table/internal/domain/model/column.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/table/internal/domain/model/column.go b/components/table/internal/domain/model/column.go
index cc932b2..0aba5e4 100644
--- a/components/table/internal/domain/model/column.go
+++ b/components/table/internal/domain/model/column.go
@@ -21,7 +21,7 @@ func NewColumn(key, title string, width int) *Column {
 	return &Column{
 		key:       key,
 		title:     title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: value.AlignmentLeft,
 		sortable:  false,
 		renderer:  nil,
@@ -33,7 +33,7 @@ func NewColumnWithAlignment(key, title string, width int, alignment value.Alignm
 	return &Column{
 		key:       key,
 		title:     title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: alignment,
 		sortable:  false,
 		renderer:  nil,
@@ -45,7 +45,7 @@ func (c *Column) WithWidth(width int) *Column {
 	return &Column{
 		key:       c.key,
 		title:     c.title,
-		width:     width,
+		width:     max(width, 0),
 		alignment: c.alignment,
 		sortable:  c.sortable,
 		renderer:  c.renderer,
-- 
2.43.0


From 7a25edda8a7a5dd750106cad27d8b488e5d63877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 082/141] fix: components/table: numbers of different types are
 sorted by value

---
 .../table/internal/domain/service/sort.go     | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/components/table/internal/domain/service/sort.go b/components/table/internal/domain/service/sort.go
index bb81227..49ea5f1 100644
--- a/components/table/internal/domain/service/sort.go
+++ b/components/table/internal/domain/service/sort.go
@@ -3,6 +3,7 @@ package service
 
 import (
 	"fmt"
+	"reflect"
 	"sort"
 
 	"github.com/phoenix-tui/phoenix/components/table/internal/domain/model"
@@ -93,10 +94,31 @@ func (s *SortService) Compare(a, b interface{}) int {
 		}
 	}
 
+	// Numbers of different types compare by value.
+	if aNum, ok := toFloat64(a); ok {
+		if bNum, ok := toFloat64(b); ok {
+			return compareFloat64s(aNum, bNum)
+		}
+	}
+
 	// Fallback: compare as strings.
 	return compareStrings(fmt.Sprintf("%v", a), fmt.Sprintf("%v", b))
 }
 
+// toFloat64 returns the value of a number of any type.
+func toFloat64(v interface{}) (float64, bool) {
+	r := reflect.ValueOf(v)
+	switch {
+	case r.CanInt():
+		return float64(r.Int()), true
+	case r.CanUint():
+		return float64(r.Uint()), true
+	case r.CanFloat():
+		return r.Float(), true
+	}
+	return 0, false
+}
+
 // compareStrings compares two strings lexicographically.
 func compareStrings(a, b string) int {
 	if a < b {
-- 
2.43.0


From 5fac0799b5d918acba1a6274cfc527f15f3b1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 083/141] fix: components/modal: a hidden modal keeps track of
 the terminal size

---
 components/modal/modal.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 2824674..091a07e 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -199,11 +199,6 @@ func (m *Modal) Init() tea.Cmd {
 
 // Update implements tea.Model.
 func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
-	// If modal is not visible, don't process any input.
-	if !m.domain.IsVisible() {
-		return m, nil
-	}
-
 	switch msg := msg.(type) {
 	case tea.WindowSizeMsg:
 		// Update terminal size for rendering.
@@ -217,7 +212,10 @@ func (m *Modal) Update(msg tea.Msg) (*Modal, tea.Cmd) {
 		}, nil
 
 	case tea.KeyMsg:
-		return m.handleKeyPress(msg)
+		// If modal is not visible, don't process any input.
+		if m.domain.IsVisible() {
+			return m.handleKeyPress(msg)
+		}
 	}
 
 	return m, nil
-- 
2.43.0


From 2d53361cafcc19c1d712e48ba7d5000aa87f8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 084/141] fix: components/modal: text is padded and cut by
 columns, not bytes

---
 components/modal/modal.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 091a07e..8e515ee 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"strings"
 
+	text2 "github.com/phoenix-tui/phoenix/components/internal/text"
 	model2 "github.com/phoenix-tui/phoenix/components/modal/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/modal/internal/domain/service"
 	"github.com/phoenix-tui/phoenix/components/modal/internal/domain/value"
@@ -412,13 +413,15 @@ func (m *Modal) renderButtons(availableWidth int) string {
 
 // padOrTruncate pads or truncates a string to the specified width.
 func (m *Modal) padOrTruncate(text string, width int) string {
-	if len(text) > width {
+	width = max(width, 0)
+	if text2.Width(text) > width {
 		if width > 3 {
-			return text[:width-3] + "..."
+			text = text2.Truncate(text, width-3) + "..."
+		} else {
+			text = text2.Truncate(text, width)
 		}
-		return text[:width]
 	}
-	return text + strings.Repeat(" ", width-len(text))
+	return text + strings.Repeat(" ", width-text2.Width(text))
 }
 
 // IsVisible returns true if the modal is currently visible.
-- 
2.43.0


From 326d6b5ea15ac7092ec4c9075f6585547e4b7132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 085/141] fix: components/modal: the box has its full height
 and closed sides, content is not drawn over

---
 components/modal/modal.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 8e515ee..ca275cd 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -357,20 +357,25 @@ func (m *Modal) renderModalBox(x, y, width, height int) string {
 		contentStartY = y + 4
 	}
 
-	contentLines := strings.Split(m.domain.Content(), "\n")
-	contentHeight := height - 4 // Reserve space for borders and buttons
-	if m.domain.Title() != "" {
-		contentHeight -= 2 // Reserve space for title and separator
+	// Content rows end above the button rows (if any) and the bottom border.
+	contentEndY := y + height
+	if len(m.domain.Buttons()) > 0 {
+		contentEndY -= 2
 	}
 
-	for i := 0; i < contentHeight && i < len(contentLines); i++ {
-		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", contentStartY+i, x+1))
-		b.WriteString("│ " + m.padOrTruncate(contentLines[i], width-4) + " │\n")
+	contentLines := strings.Split(m.domain.Content(), "\n")
+	for row := contentStartY; row < contentEndY; row++ {
+		line := ""
+		if i := row - contentStartY; i < len(contentLines) {
+			line = contentLines[i]
+		}
+		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", row, x+1))
+		b.WriteString("│ " + m.padOrTruncate(line, width-4) + " │\n")
 	}
 
 	// Buttons (if any)
 	if len(m.domain.Buttons()) > 0 {
-		buttonY := y + height - 3
+		buttonY := y + height - 2
 		b.WriteString(fmt.Sprintf("\x1b[%d;%dH", buttonY, x+1))
 		b.WriteString("├" + strings.Repeat("─", width-2) + "┤\n")
 
@@ -379,9 +384,9 @@ func (m *Modal) renderModalBox(x, y, width, height int) string {
 		b.WriteString("│ " + m.renderButtons(width-4) + " │\n")
 	}
 
-	// Bottom border.
-	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height-1, x+1))
-	b.WriteString("└" + strings.Repeat("─", width-2) + "┘\n")
+	// Bottom border, without a newline: it may be the last row of the terminal.
+	b.WriteString(fmt.Sprintf("\x1b[%d;%dH", y+height, x+1))
+	b.WriteString("└" + strings.Repeat("─", width-2) + "┘")
 
 	return b.String()
 }
-- 
2.43.0


From 743d722d67fd53d47f8cfed34815ad04c1a16753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 086/141] fix: components/modal: the dimmed background does not
 scroll the terminal

---
 components/modal/modal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index ca275cd..5f3a55a 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -325,7 +325,9 @@ func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight i
 				b.WriteString("░") // Dim character for background
 			}
 		}
-		b.WriteString("\n")
+		if row < m.terminalHeight-1 {
+			b.WriteString("\n") // Not after the last row: the terminal would scroll
+		}
 	}
 
 	return b.String()
-- 
2.43.0


From fe02d6dd918d1b7502082581b2c05eb31cc9cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 087/141] fix: components/modal: any size and position gives a
 whole box on the screen

---
 components/modal/modal.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/components/modal/modal.go b/components/modal/modal.go
index 5f3a55a..5a21e1a 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -288,8 +288,7 @@ func (m *Modal) View() string {
 	var b strings.Builder
 
 	// Calculate modal position.
-	modalWidth := m.domain.Size().Width()
-	modalHeight := m.domain.Size().Height()
+	modalWidth, modalHeight := m.boxSize()
 	x, y := m.layoutService.CalculatePosition(
 		m.domain.Position(),
 		m.terminalWidth,
@@ -298,6 +297,10 @@ func (m *Modal) View() string {
 		modalHeight,
 	)
 
+	// Keep the box on the screen.
+	x = max(min(x, m.terminalWidth-modalWidth), 0)
+	y = max(min(y, m.terminalHeight-modalHeight), 0)
+
 	// Render dimmed background (if enabled)
 	if m.domain.DimBackground() {
 		b.WriteString(m.renderDimmedBackground(x, y, modalWidth, modalHeight))
@@ -309,6 +312,22 @@ func (m *Modal) View() string {
 	return b.String()
 }
 
+// boxSize returns the size of the box on the screen: at most the terminal, and
+// at least the borders, the title and the buttons.
+func (m *Modal) boxSize() (width, height int) {
+	minHeight := 2
+	if m.domain.Title() != "" {
+		minHeight += 2
+	}
+	if len(m.domain.Buttons()) > 0 {
+		minHeight += 2
+	}
+
+	width = max(min(m.domain.Size().Width(), m.terminalWidth), 4)
+	height = max(min(m.domain.Size().Height(), m.terminalHeight), minHeight)
+	return width, height
+}
+
 // renderDimmedBackground renders the dimmed background overlay.
 func (m *Modal) renderDimmedBackground(modalX, modalY, modalWidth, modalHeight int) string {
 	var b strings.Builder
-- 
2.43.0


From 860c2d8fb43ccea84e996d2b7500b4af4f974e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 088/141] fix: components/confirm: the shortcut is the first
 character of the label, not its first byte

---
 .../confirm/internal/domain/value/button.go   | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/components/confirm/internal/domain/value/button.go b/components/confirm/internal/domain/value/button.go
index 3bd5084..b0a8955 100644
--- a/components/confirm/internal/domain/value/button.go
+++ b/components/confirm/internal/domain/value/button.go
@@ -1,6 +1,11 @@
 // Package value provides value objects for the confirm component.
 package value
 
+import (
+	"unicode"
+	"unicode/utf8"
+)
+
 // Button represents a button option in the confirm dialog.
 // This is a value object - immutable and defined by its attributes.
 type Button struct {
@@ -13,7 +18,7 @@ type Button struct {
 func NewButton(label string) *Button {
 	var key rune
 	if label != "" {
-		key = rune(label[0])
+		key, _ = utf8.DecodeRuneInString(label)
 	}
 	return &Button{
 		label: label,
@@ -33,16 +38,10 @@ func (b *Button) Key() rune {
 
 // MatchesKey returns true if the given rune matches this button's key (case-insensitive).
 func (b *Button) MatchesKey(r rune) bool {
-	// Case-insensitive comparison
-	keyLower := toLower(b.key)
-	rLower := toLower(r)
-	return keyLower == rLower
-}
-
-// toLower converts a rune to lowercase (simple ASCII conversion).
-func toLower(r rune) rune {
-	if r >= 'A' && r <= 'Z' {
-		return r + 32
+	if b.key == 0 {
+		return false // No label, no shortcut
 	}
-	return r
+
+	// Case-insensitive comparison
+	return unicode.ToLower(b.key) == unicode.ToLower(r)
 }
-- 
2.43.0


From d682f1572c97a84b5e5522829a6ad00c0b476684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 089/141] fix: components/confirm: Ctrl+C cancels, other key
 combinations press no button

---
 components/confirm/internal/infrastructure/keyboard.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/confirm/internal/infrastructure/keyboard.go b/components/confirm/internal/infrastructure/keyboard.go
index 79915f8..72772b5 100644
--- a/components/confirm/internal/infrastructure/keyboard.go
+++ b/components/confirm/internal/infrastructure/keyboard.go
@@ -51,8 +51,13 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 	case tea.KeyEsc, tea.KeyCtrlC:
 		return ActionCancel
 	case tea.KeyRune:
-		// Any rune is a potential shortcut key
-		return ActionShortcut
+		if msg.Ctrl && !msg.Alt && msg.Rune == 'c' {
+			return ActionCancel
+		}
+		// Any rune is a potential shortcut key, but not in a combination
+		if !msg.Ctrl && !msg.Alt {
+			return ActionShortcut
+		}
 	}
 	return ActionNone
 }
-- 
2.43.0


From c33b65d0dfb0d43acd640dda770e2b237a61672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 090/141] fix: components/confirm: the affirmative button
 answers yes whatever the labels

---
 .../confirm/internal/domain/model/confirm.go  | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/components/confirm/internal/domain/model/confirm.go b/components/confirm/internal/domain/model/confirm.go
index 2ffd5da..9453629 100644
--- a/components/confirm/internal/domain/model/confirm.go
+++ b/components/confirm/internal/domain/model/confirm.go
@@ -125,8 +125,7 @@ func (c *Confirm) Confirm() *Confirm {
 		return c
 	}
 
-	label := c.buttons[c.focused].Label()
-	result := c.labelToResult(label)
+	result := c.focusedResult()
 
 	return &Confirm{
 		title:       c.title,
@@ -208,20 +207,15 @@ func (c *Confirm) withFocusedButton(index int) *Confirm {
 	}
 }
 
-// labelToResult converts a button label to a Result.
-func (c *Confirm) labelToResult(label string) Result {
-	switch label {
-	case "Yes":
+// focusedResult returns the Result of the focused button: whatever its label,
+// the first button is the affirmative one.
+func (c *Confirm) focusedResult() Result {
+	switch {
+	case c.focused == 0:
 		return ResultYes
-	case "No":
-		return ResultNo
-	case "Cancel":
+	case c.buttons[c.focused].Label() == "Cancel":
 		return ResultCanceled
 	default:
-		// For custom labels, assume first button = Yes, others = No
-		if c.focused == 0 {
-			return ResultYes
-		}
 		return ResultNo
 	}
 }
-- 
2.43.0


From 6106a0d0302e18c318d8b59429332e56d621a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 091/141] fix: components/confirm: DefaultNo focuses the
 negative button whatever the labels

---
 components/confirm/internal/domain/model/confirm.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/components/confirm/internal/domain/model/confirm.go b/components/confirm/internal/domain/model/confirm.go
index 9453629..78c2061 100644
--- a/components/confirm/internal/domain/model/confirm.go
+++ b/components/confirm/internal/domain/model/confirm.go
@@ -91,14 +91,8 @@ func (c *Confirm) WithDefaultYes() *Confirm {
 
 // WithDefaultNo returns a new Confirm with "No" focused by default.
 func (c *Confirm) WithDefaultNo() *Confirm {
-	// Find "No" button index
-	for i, btn := range c.buttons {
-		if btn.Label() == "No" {
-			return c.withFocusedButton(i)
-		}
-	}
-	// Fallback to last button if "No" not found
-	return c.withFocusedButton(len(c.buttons) - 1)
+	// The second button is the negative one, whatever its label
+	return c.withFocusedButton(min(1, len(c.buttons)-1))
 }
 
 // MoveFocusLeft moves focus to the previous button.
-- 
2.43.0


From c4c25490791b7119a29db5539d3792a65943173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 092/141] fix: components/form: lengths are counted in
 characters, not bytes

---
 components/form/internal/domain/value/validator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/components/form/internal/domain/value/validator.go b/components/form/internal/domain/value/validator.go
index f77dc63..51124ed 100644
--- a/components/form/internal/domain/value/validator.go
+++ b/components/form/internal/domain/value/validator.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+
+	"github.com/rivo/uniseg"
 )
 
 // Validator is a function that validates a value and returns an error if invalid.
@@ -36,7 +38,7 @@ func MinLength(n int) Validator {
 			return fmt.Errorf("invalid type (expected string)")
 		}
 
-		if len(str) < n {
+		if uniseg.GraphemeClusterCount(str) < n {
 			return fmt.Errorf("must be at least %d characters", n)
 		}
 
@@ -52,7 +54,7 @@ func MaxLength(n int) Validator {
 			return fmt.Errorf("invalid type (expected string)")
 		}
 
-		if len(str) > n {
+		if uniseg.GraphemeClusterCount(str) > n {
 			return fmt.Errorf("must be at most %d characters", n)
 		}
 
-- 
2.43.0


From 24b18af9a59b7da9b5cf7fb34a99f1a3fb7dcccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 093/141] fix: components/form: a field without a value is
 validated too

---
 components/form/internal/domain/model/form.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/components/form/internal/domain/model/form.go b/components/form/internal/domain/model/form.go
index 5123b69..40b2191 100644
--- a/components/form/internal/domain/model/form.go
+++ b/components/form/internal/domain/model/form.go
@@ -175,11 +175,8 @@ func (f *Form) ValidateAll(fieldValues map[string]interface{}) *Form {
 	for i, field := range newFields {
 		var errors []error
 
-		// Get value for this field
-		fieldValue, ok := fieldValues[field.Name()]
-		if !ok {
-			continue
-		}
+		// Get value for this field, nil if it has none
+		fieldValue := fieldValues[field.Name()]
 
 		// Run all validators
 		for _, validator := range field.Validators() {
-- 
2.43.0


From 6b6c5d7c228cb487e2e724436cec42bf9b48aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 094/141] fix: components/form: forms built from the same form
 do not share fields

---
 components/form/form.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index f6a6752..0949bfc 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -73,7 +73,9 @@ func New(title string) *Form {
 func (f *Form) Field(name, label string, fieldModel value.FieldModel, validators ...value.Validator) *Form {
 	field := value.NewField(name, label, fieldModel).WithValidators(validators...)
 
-	fields := append(f.domain.Fields(), field)
+	// Copied: forms made from the same form must not share their fields.
+	oldFields := f.domain.Fields()
+	fields := append(oldFields[:len(oldFields):len(oldFields)], field)
 
 	// Update field name mapping
 	newFieldNames := make(map[string]int, len(f.fieldNames)+1)
-- 
2.43.0


From c6090246b38ba79ea0565f660e5d60203fac5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 095/141] fix: components/form: each error of a field has its
 own line

---
 components/form/form.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index 0949bfc..9cb0f37 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -329,8 +329,8 @@ func (f *Form) renderField(b *strings.Builder, field *value.Field, focused bool)
 
 	// Render errors
 	if len(field.Errors()) > 0 {
-		_ = b.WriteByte('\n')
 		for _, err := range field.Errors() {
+			_ = b.WriteByte('\n')
 			b.WriteString("✗ ")
 			b.WriteString(err.Error())
 		}
-- 
2.43.0


From 4c51b301cfde0867022bb4a72bb0170463d18f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 096/141] fix: components/form: the title is underlined by its
 columns, not its bytes

---
 components/form/form.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/form/form.go b/components/form/form.go
index 9cb0f37..1267f73 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -43,6 +43,7 @@ import (
 	"github.com/phoenix-tui/phoenix/components/form/internal/domain/model"
 	"github.com/phoenix-tui/phoenix/components/form/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/components/form/internal/infrastructure"
+	"github.com/phoenix-tui/phoenix/components/internal/text"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
 )
@@ -278,7 +279,7 @@ func (f *Form) View() string {
 	if f.domain.Title() != "" {
 		b.WriteString(f.domain.Title())
 		_ = b.WriteByte('\n')
-		b.WriteString(strings.Repeat("─", len(f.domain.Title())))
+		b.WriteString(strings.Repeat("─", text.Width(f.domain.Title())))
 		_ = b.WriteByte('\n')
 		_ = b.WriteByte('\n')
 	}
-- 
2.43.0


From 3e68f9e527e10a7cf1f553e63fef2fc11dc7b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 097/141] fix: components/form: Ctrl+C quits

---
 components/form/internal/infrastructure/keyboard.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/form/internal/infrastructure/keyboard.go b/components/form/internal/infrastructure/keyboard.go
index 0c49d84..686172a 100644
--- a/components/form/internal/infrastructure/keyboard.go
+++ b/components/form/internal/infrastructure/keyboard.go
@@ -56,6 +56,9 @@ func (k *KeyBindingMap) GetAction(msg tea.KeyMsg) Action {
 
 	// Check rune bindings
 	if msg.Type == tea.KeyRune {
+		if msg.Ctrl && !msg.Alt && msg.Rune == 'c' {
+			return ActionQuit
+		}
 		if action, ok := k.runes[msg.Rune]; ok {
 			return action
 		}
-- 
2.43.0


From 3e0c17fd52ccee6a2e65d0f477481c215056babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 098/141] fix: components/form: the focused field receives the
 messages of the form

---
 components/form/form.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index 1267f73..cd70578 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -38,6 +38,7 @@
 package form
 
 import (
+	"reflect"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/components/form/internal/domain/model"
@@ -230,10 +231,7 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	focusedField := f.domain.Fields()[focusedIndex]
 
 	// Update the focused field's model
-	if updater, ok := focusedField.Model().(interface {
-		Update(tea.Msg) (value.FieldModel, tea.Cmd)
-	}); ok {
-		newModel, cmd := updater.Update(msg)
+	if newModel, cmd, ok := updateModel(focusedField.Model(), msg); ok {
 		newDomain := f.domain.UpdateField(focusedIndex, newModel)
 
 		newForm := &Form{
@@ -248,6 +246,26 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	return f, nil
 }
 
+// updateModel calls the Update method of a field model, if it has one. Components
+// return their own type from Update, which no single interface describes.
+func updateModel(fieldModel value.FieldModel, msg tea.Msg) (value.FieldModel, tea.Cmd, bool) {
+	update := reflect.ValueOf(fieldModel).MethodByName("Update")
+	if !update.IsValid() {
+		return nil, nil, false
+	}
+
+	t := update.Type()
+	if t.NumIn() != 1 || t.In(0) != reflect.TypeFor[tea.Msg]() ||
+		t.NumOut() != 2 || t.Out(1) != reflect.TypeFor[tea.Cmd]() {
+		return nil, nil, false
+	}
+
+	results := update.Call([]reflect.Value{reflect.ValueOf(&msg).Elem()})
+	newModel, ok := results[0].Interface().(value.FieldModel)
+	cmd, _ := results[1].Interface().(tea.Cmd)
+	return newModel, cmd, ok
+}
+
 // extractFieldValues extracts values from field models.
 // This assumes field models have a Value() method (like TextInput).
 func (f *Form) extractFieldValues() map[string]interface{} {
-- 
2.43.0


From 2e093625b7ffcc817214f1d8e921df6454faf86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 099/141] fix: components/form: only a change of its value
 modifies a field

---
 components/form/form.go                       | 37 +++++++++++++------
 components/form/internal/domain/model/form.go | 15 ++++++++
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index cd70578..8bcb4b8 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -231,8 +231,13 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	focusedField := f.domain.Fields()[focusedIndex]
 
 	// Update the focused field's model
+	valueBefore := extractValue(focusedField.Model())
 	if newModel, cmd, ok := updateModel(focusedField.Model(), msg); ok {
-		newDomain := f.domain.UpdateField(focusedIndex, newModel)
+		// The field has been modified if its value is another one.
+		newDomain := f.domain.WithModel(focusedIndex, newModel)
+		if !reflect.DeepEqual(valueBefore, extractValue(newModel)) {
+			newDomain = f.domain.UpdateField(focusedIndex, newModel)
+		}
 
 		newForm := &Form{
 			domain:     newDomain,
@@ -272,23 +277,31 @@ func (f *Form) extractFieldValues() map[string]interface{} {
 	result := make(map[string]interface{})
 
 	for _, field := range f.domain.Fields() {
-		// Try to extract value using common patterns
-		switch valuer := field.Model().(type) {
-		case interface{ Value() string }:
-			result[field.Name()] = valuer.Value()
-		case interface{ SelectedValue() (interface{}, bool) }:
-			if val, ok := valuer.SelectedValue(); ok {
-				result[field.Name()] = val
-			}
-		default:
-			// Default: use the model itself as value
-			result[field.Name()] = field.Model()
+		if val := extractValue(field.Model()); val != nil {
+			result[field.Name()] = val
 		}
 	}
 
 	return result
 }
 
+// extractValue extracts the value from a field model using common patterns,
+// nil if it has none.
+func extractValue(fieldModel value.FieldModel) interface{} {
+	switch valuer := fieldModel.(type) {
+	case interface{ Value() string }:
+		return valuer.Value()
+	case interface{ SelectedValue() (interface{}, bool) }:
+		if val, ok := valuer.SelectedValue(); ok {
+			return val
+		}
+		return nil
+	default:
+		// Default: use the model itself as value
+		return fieldModel
+	}
+}
+
 // View implements tea.Model.
 func (f *Form) View() string {
 	var b strings.Builder
diff --git a/components/form/internal/domain/model/form.go b/components/form/internal/domain/model/form.go
index 40b2191..ac802ee 100644
--- a/components/form/internal/domain/model/form.go
+++ b/components/form/internal/domain/model/form.go
@@ -115,6 +115,21 @@ func (f *Form) MoveFocusPrev() *Form {
 	}
 }
 
+// WithModel returns a form whose field at the given index has another model,
+// but is not modified by it.
+func (f *Form) WithModel(index int, model value.FieldModel) *Form {
+	newFields := make([]*value.Field, len(f.fields))
+	copy(newFields, f.fields)
+	newFields[index] = newFields[index].WithModel(model)
+
+	return &Form{
+		title:     f.title,
+		fields:    newFields,
+		focused:   f.focused,
+		submitted: f.submitted,
+	}
+}
+
 // UpdateField updates the field at the given index with a new model.
 func (f *Form) UpdateField(index int, model interface{}) *Form {
 	if index < 0 || index >= len(f.fields) {
-- 
2.43.0


From d030a996142c6cbf9948634662936d46413f1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 100/141] fix: components/form: the value of a select field is
 its selected value

---
 components/form/form.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index 8bcb4b8..1b1633b 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -296,10 +296,23 @@ func extractValue(fieldModel value.FieldModel) interface{} {
 			return val
 		}
 		return nil
-	default:
-		// Default: use the model itself as value
-		return fieldModel
 	}
+
+	// Select components return the type of their options
+	selected := reflect.ValueOf(fieldModel).MethodByName("SelectedValue")
+	if selected.IsValid() {
+		t := selected.Type()
+		if t.NumIn() == 0 && t.NumOut() == 2 && t.Out(1).Kind() == reflect.Bool {
+			results := selected.Call(nil)
+			if results[1].Bool() {
+				return results[0].Interface()
+			}
+			return nil
+		}
+	}
+
+	// Default: use the model itself as value
+	return fieldModel
 }
 
 // View implements tea.Model.
-- 
2.43.0


From dde5876ca6b2d793080f37e45416b90f092c594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 101/141] fix: components/form: a field shown as valid has been
 validated

---
 components/form/form.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/components/form/form.go b/components/form/form.go
index 1b1633b..d78de01 100644
--- a/components/form/form.go
+++ b/components/form/form.go
@@ -173,7 +173,7 @@ func (f *Form) handleKey(msg tea.KeyMsg) (*Form, tea.Cmd) {
 	switch action {
 	case infrastructure.ActionNextField:
 		newForm := &Form{
-			domain:     f.domain.MoveFocusNext(),
+			domain:     f.validateFocusedField().MoveFocusNext(),
 			keymap:     f.keymap,
 			fieldNames: f.fieldNames,
 		}
@@ -181,7 +181,7 @@ func (f *Form) handleKey(msg tea.KeyMsg) (*Form, tea.Cmd) {
 
 	case infrastructure.ActionPrevField:
 		newForm := &Form{
-			domain:     f.domain.MoveFocusPrev(),
+			domain:     f.validateFocusedField().MoveFocusPrev(),
 			keymap:     f.keymap,
 			fieldNames: f.fieldNames,
 		}
@@ -237,6 +237,10 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 		newDomain := f.domain.WithModel(focusedIndex, newModel)
 		if !reflect.DeepEqual(valueBefore, extractValue(newModel)) {
 			newDomain = f.domain.UpdateField(focusedIndex, newModel)
+			if focusedField.Touched() || !focusedField.IsValid() {
+				// Keep what is shown about the field up to date.
+				newDomain = newDomain.ValidateField(focusedIndex, extractValue(newModel))
+			}
 		}
 
 		newForm := &Form{
@@ -251,6 +255,15 @@ func (f *Form) delegateToFocusedField(msg tea.Msg) (*Form, tea.Cmd) {
 	return f, nil
 }
 
+// validateFocusedField validates the field that is about to lose the focus.
+func (f *Form) validateFocusedField() *model.Form {
+	field := f.domain.FocusedField()
+	if field == nil {
+		return f.domain
+	}
+	return f.domain.ValidateField(f.domain.FocusedIndex(), extractValue(field.Model()))
+}
+
 // updateModel calls the Update method of a field model, if it has one. Components
 // return their own type from Update, which no single interface describes.
 func updateModel(fieldModel value.FieldModel, msg tea.Msg) (value.FieldModel, tea.Cmd, bool) {
-- 
2.43.0


From 571612b0c8cf70845ef7dfb188306f9a06d4ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 102/141] fix: components/progress: a custom spinner has the
 given frames and speed

---
 components/progress/spinner.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/components/progress/spinner.go b/components/progress/spinner.go
index 7233184..abf88ba 100644
--- a/components/progress/spinner.go
+++ b/components/progress/spinner.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/model"
+	"github.com/phoenix-tui/phoenix/components/progress/internal/domain/value"
 	"github.com/phoenix-tui/phoenix/components/progress/internal/infrastructure"
 	"github.com/phoenix-tui/phoenix/style"
 	"github.com/phoenix-tui/phoenix/tea"
@@ -37,11 +38,9 @@ func NewSpinner(style string) *Spinner {
 
 // NewSpinnerCustom creates a new spinner with custom frames and FPS.
 // Returns pointer for initialization, but store as value in Model.
-//
-//nolint:revive // frames parameter will be used when custom spinner support is added
-func NewSpinnerCustom(_ []string, fps int) *Spinner {
+func NewSpinnerCustom(frames []string, fps int) *Spinner {
 	return &Spinner{
-		domain: *model.NewSpinner(infrastructure.GetSpinnerStyle("dots")), // Dereference!
+		domain: *model.NewSpinner(value.NewSpinnerStyle(frames, fps)), // Dereference!
 	}
 }
 
-- 
2.43.0


From 86af635ee5226b47c83e64fdfed7433680eb3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 103/141] fix: components/progress: extreme increments are
 clamped like others

---
 components/progress/internal/domain/value/percentage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/progress/internal/domain/value/percentage.go b/components/progress/internal/domain/value/percentage.go
index 20a1cd8..effda60 100644
--- a/components/progress/internal/domain/value/percentage.go
+++ b/components/progress/internal/domain/value/percentage.go
@@ -23,13 +23,13 @@ func (p *Percentage) Value() int {
 // Add returns a new Percentage with the delta added.
 // The result is clamped to [0, 100].
 func (p *Percentage) Add(delta int) *Percentage {
-	return NewPercentage(p.value + delta)
+	return NewPercentage(p.value + clamp(delta, -100, 100))
 }
 
 // Subtract returns a new Percentage with the delta subtracted.
 // The result is clamped to [0, 100].
 func (p *Percentage) Subtract(delta int) *Percentage {
-	return NewPercentage(p.value - delta)
+	return NewPercentage(p.value - clamp(delta, -100, 100))
 }
 
 // IsComplete returns true if the percentage is 100%.
-- 
2.43.0


From a98e52aa704959f134419645786f8b66be8ee92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 104/141] fix: components/form: a field keeps its own list of
 validators

---
 components/form/internal/domain/value/field.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/form/internal/domain/value/field.go b/components/form/internal/domain/value/field.go
index 30cc806..fb63c7e 100644
--- a/components/form/internal/domain/value/field.go
+++ b/components/form/internal/domain/value/field.go
@@ -1,6 +1,8 @@
 // Package value contains value objects for the form component.
 package value
 
+import "slices"
+
 // FieldModel is a minimal interface for field models (anything with a View method).
 type FieldModel interface {
 	View() string
@@ -71,7 +73,7 @@ func (f *Field) WithValidators(validators ...Validator) *Field {
 		name:       f.name,
 		label:      f.label,
 		model:      f.model,
-		validators: validators,
+		validators: slices.Clone(validators),
 		touched:    f.touched,
 		dirty:      f.dirty,
 		errors:     f.errors,
-- 
2.43.0


From 70f30b20ac2e85902c38c3a1ec353d06e6baa67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 105/141] fix: components/table: rows are copies, not shared
 with the caller

---
 components/table/table.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/components/table/table.go b/components/table/table.go
index 65b09f3..67325f6 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -13,6 +13,7 @@ package table
 
 import (
 	"fmt"
+	"maps"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/components/internal/text"
@@ -77,7 +78,7 @@ func NewWithRows(columns []Column, rows []Row) *Table {
 	// Convert to domain rows.
 	domainRows := make([]model2.Row, len(rows))
 	for i, row := range rows {
-		domainRows[i] = model2.Row(row)
+		domainRows[i] = model2.Row(maps.Clone(row))
 	}
 
 	t.domain = t.domain.WithRows(domainRows)
@@ -119,7 +120,7 @@ func (t *Table) Theme(theme *style.Theme) *Table {
 func (t *Table) SetRows(rows []Row) *Table {
 	domainRows := make([]model2.Row, len(rows))
 	for i, row := range rows {
-		domainRows[i] = model2.Row(row)
+		domainRows[i] = model2.Row(maps.Clone(row))
 	}
 	return &Table{
 		domain:      t.domain.WithRows(domainRows),
@@ -353,7 +354,7 @@ func (t *Table) formatCell(content string, width int, alignment value2.Alignment
 
 // SelectedRow returns the currently selected row.
 func (t *Table) SelectedRow() Row {
-	return Row(t.domain.SelectedRow())
+	return Row(maps.Clone(t.domain.SelectedRow()))
 }
 
 // SelectedIndex returns the index of the selected row.
@@ -366,7 +367,7 @@ func (t *Table) Rows() []Row {
 	domainRows := t.domain.Rows()
 	rows := make([]Row, len(domainRows))
 	for i, row := range domainRows {
-		rows[i] = Row(row)
+		rows[i] = Row(maps.Clone(row))
 	}
 	return rows
 }
-- 
2.43.0


From a33016ed9f1e187b7de68ead6ac4980321429b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 106/141] fix: mouse: reports of movement are motion events,
 URxvt codes are read with their offset

---
 mouse/internal/application/mouse_handler.go   | 20 ++++++++++++++++++-
 .../infrastructure/parser/sgr_parser.go       |  5 +++--
 .../infrastructure/parser/x10_parser.go       |  4 +++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/mouse/internal/application/mouse_handler.go b/mouse/internal/application/mouse_handler.go
index 83bf18c..859e101 100644
--- a/mouse/internal/application/mouse_handler.go
+++ b/mouse/internal/application/mouse_handler.go
@@ -2,9 +2,11 @@ package application
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
+	value2 "github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
 	parser2 "github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/parser"
 	"github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/platform"
 )
@@ -109,7 +111,23 @@ func (h *MouseHandler) parseURxvt(sequence string) (*model.MouseEvent, error) {
 	// Remove 'M' suffix
 	sequence = strings.TrimSuffix(sequence, "M")
 
-	return h.urxvtParser.Parse(sequence)
+	// As in X10, the button code is sent with an offset of 32
+	code, position, _ := strings.Cut(sequence, ";")
+	buttonCode, err := strconv.Atoi(code)
+	if err != nil || buttonCode < 32 {
+		return nil, fmt.Errorf("invalid URxvt button code: %q", code)
+	}
+	buttonCode -= 32
+
+	event, err := h.urxvtParser.Parse(fmt.Sprintf("%d;%s", buttonCode, position))
+	if err != nil {
+		return nil, err
+	}
+	if buttonCode&0x60 == 32 { // motion bit set, not a wheel
+		motion := event.WithType(value2.EventMotion)
+		return &motion, nil
+	}
+	return event, nil
 }
 
 // Processor returns the event processor (for advanced use cases).
diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index b33cbe6..18769eb 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -62,6 +62,8 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 	var eventType value2.EventType
 	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
+	} else if p.IsMotion(buttonCode) {
+		eventType = value2.EventMotion
 	} else if isPress {
 		eventType = value2.EventPress
 	} else {
@@ -107,8 +109,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 
 // IsMotion checks if the button code represents a motion event.
 func (p *SGRParser) IsMotion(buttonCode int) bool {
-	baseButton := buttonCode & 0x63 // same mask as decodeButton
-	return baseButton == 32 || baseButton == 35
+	return buttonCode&0x60 == 32 // motion bit set, not a wheel
 }
 
 // FormatSequence formats a mouse event as an SGR sequence (for testing).
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index 915d2ec..ce5af30 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -37,8 +37,10 @@ func (p *X10Parser) Parse(data []byte) (*model.MouseEvent, error) {
 	// X10 doesn't distinguish press/release for normal buttons
 	// We'll treat it as a press event
 	var eventType value2.EventType
-	if button.IsWheel() {
+	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
+	} else if buttonCode&0x60 == 32 { // motion bit set, not a wheel
+		eventType = value2.EventMotion
 	} else {
 		eventType = value2.EventPress
 	}
-- 
2.43.0


From 4fada1f714fd593818e32bdbe1e7bee075d6b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 107/141] fix: mouse: X10 and URxvt releases are releases, and
 click the pressed button

---
 mouse/internal/application/event_processor.go        | 10 ++++++++--
 mouse/internal/domain/model/mouse_event.go           |  6 ++++++
 mouse/internal/infrastructure/parser/urxvt_parser.go |  6 ++++--
 mouse/internal/infrastructure/parser/x10_parser.go   |  5 +++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/mouse/internal/application/event_processor.go b/mouse/internal/application/event_processor.go
index 2c06ac9..38cb7d7 100644
--- a/mouse/internal/application/event_processor.go
+++ b/mouse/internal/application/event_processor.go
@@ -63,12 +63,18 @@ func (p *EventProcessor) ProcessEvent(event model.MouseEvent) []model.MouseEvent
 		events = append(events, event)
 
 	case value.EventRelease:
+		// X10 and URxvt don't say which button is released: it is the pressed one
+		released := event
+		if event.Button() == value.ButtonNone && p.dragTracker.IsActive() {
+			released = event.WithButton(p.dragTracker.State().Button())
+		}
+
 		// Check for drag end
-		wasDrag, _, _ := p.dragTracker.ProcessRelease(event)
+		wasDrag, _, _ := p.dragTracker.ProcessRelease(released)
 
 		// Only detect clicks if it wasn't a drag
 		if !wasDrag {
-			if clickEvent := p.clickDetector.DetectClick(event); clickEvent != nil {
+			if clickEvent := p.clickDetector.DetectClick(released); clickEvent != nil {
 				events = append(events, *clickEvent)
 			}
 		}
diff --git a/mouse/internal/domain/model/mouse_event.go b/mouse/internal/domain/model/mouse_event.go
index 0f0bef6..0e52f1c 100644
--- a/mouse/internal/domain/model/mouse_event.go
+++ b/mouse/internal/domain/model/mouse_event.go
@@ -98,6 +98,12 @@ func (e MouseEvent) WithType(eventType value2.EventType) MouseEvent {
 	}
 }
 
+// WithButton returns a new event with the specified button.
+func (e MouseEvent) WithButton(button value2.Button) MouseEvent {
+	e.button = button
+	return e
+}
+
 // IsAt checks if the event is at the specified position (with tolerance).
 func (e MouseEvent) IsAt(pos value2.Position, tolerance int) bool {
 	return e.position.IsWithinTolerance(pos, tolerance)
diff --git a/mouse/internal/infrastructure/parser/urxvt_parser.go b/mouse/internal/infrastructure/parser/urxvt_parser.go
index 0481361..71826bf 100644
--- a/mouse/internal/infrastructure/parser/urxvt_parser.go
+++ b/mouse/internal/infrastructure/parser/urxvt_parser.go
@@ -52,10 +52,12 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 	button, modifiers := p.decodeButton(buttonCode)
 	position := value2.NewPosition(x, y)
 
-	// URxvt doesn't distinguish press/release
+	// URxvt reports the release of any button as button 3
 	var eventType value2.EventType
-	if button.IsWheel() {
+	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
+	} else if buttonCode&^0x1C == 3 {
+		eventType = value2.EventRelease
 	} else {
 		eventType = value2.EventPress
 	}
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index ce5af30..eecf8ca 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -34,13 +34,14 @@ func (p *X10Parser) Parse(data []byte) (*model.MouseEvent, error) {
 	button, modifiers := p.decodeButton(buttonCode)
 	position := value2.NewPosition(x, y)
 
-	// X10 doesn't distinguish press/release for normal buttons
-	// We'll treat it as a press event
+	// X10 reports the release of any button as button 3
 	var eventType value2.EventType
 	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
 	} else if buttonCode&0x60 == 32 { // motion bit set, not a wheel
 		eventType = value2.EventMotion
+	} else if buttonCode&^0x1C == 3 {
+		eventType = value2.EventRelease
 	} else {
 		eventType = value2.EventPress
 	}
-- 
2.43.0


From 22beebb6aa9c911453d6e6e2f0914676d94149f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 108/141] fix: mouse: truncated and malformed reports are
 errors, not events

---
 mouse/internal/application/mouse_handler.go | 36 +++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/mouse/internal/application/mouse_handler.go b/mouse/internal/application/mouse_handler.go
index 859e101..987b882 100644
--- a/mouse/internal/application/mouse_handler.go
+++ b/mouse/internal/application/mouse_handler.go
@@ -85,13 +85,18 @@ func (h *MouseHandler) parseRawEvent(sequence string) (*model.MouseEvent, error)
 // parseSGR parses an SGR mouse sequence.
 func (h *MouseHandler) parseSGR(sequence string) (*model.MouseEvent, error) {
 	// Extract press/release indicator
-	isPress := strings.HasSuffix(sequence, "M")
-
-	// Remove suffix
-	sequence = strings.TrimSuffix(sequence, "M")
-	sequence = strings.TrimSuffix(sequence, "m")
+	content, isPress := strings.CutSuffix(sequence, "M")
+	if !isPress {
+		var isRelease bool
+		if content, isRelease = strings.CutSuffix(sequence, "m"); !isRelease {
+			return nil, fmt.Errorf("incomplete SGR sequence: %s", sequence)
+		}
+	}
+	if err := checkParameters(strings.TrimPrefix(content, "<")); err != nil {
+		return nil, err
+	}
 
-	return h.sgrParser.Parse(sequence, isPress)
+	return h.sgrParser.Parse(content, isPress)
 }
 
 // parseX10 parses an X10 mouse sequence.
@@ -103,6 +108,10 @@ func (h *MouseHandler) parseX10(sequence string) (*model.MouseEvent, error) {
 		return nil, fmt.Errorf("invalid X10 sequence length: %d", len(sequence))
 	}
 
+	if sequence[0] < 32 || sequence[1] <= 32 || sequence[2] <= 32 {
+		return nil, fmt.Errorf("invalid X10 sequence: %q", sequence)
+	}
+
 	return h.x10Parser.Parse([]byte(sequence))
 }
 
@@ -110,6 +119,9 @@ func (h *MouseHandler) parseX10(sequence string) (*model.MouseEvent, error) {
 func (h *MouseHandler) parseURxvt(sequence string) (*model.MouseEvent, error) {
 	// Remove 'M' suffix
 	sequence = strings.TrimSuffix(sequence, "M")
+	if err := checkParameters(sequence); err != nil {
+		return nil, err
+	}
 
 	// As in X10, the button code is sent with an offset of 32
 	code, position, _ := strings.Cut(sequence, ";")
@@ -130,6 +142,18 @@ func (h *MouseHandler) parseURxvt(sequence string) (*model.MouseEvent, error) {
 	return event, nil
 }
 
+// checkParameters rejects sequences whose parameters are not plain numbers,
+// and coordinates below 1.
+func checkParameters(sequence string) error {
+	for i, part := range strings.Split(sequence, ";") {
+		n, err := strconv.ParseUint(part, 10, 31)
+		if err != nil || (i > 0 && n == 0) {
+			return fmt.Errorf("invalid mouse sequence: %q", sequence)
+		}
+	}
+	return nil
+}
+
 // Processor returns the event processor (for advanced use cases).
 func (h *MouseHandler) Processor() *EventProcessor {
 	return h.eventProcessor
-- 
2.43.0


From 76f4326b364f7b58bf3e92a122e6a3327e2f4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 109/141] fix: mouse: extra buttons are not taken for the left
 one, the horizontal wheel scrolls

---
 mouse/internal/infrastructure/parser/sgr_parser.go   | 11 ++++++++---
 mouse/internal/infrastructure/parser/urxvt_parser.go |  4 ++--
 mouse/internal/infrastructure/parser/x10_parser.go   |  4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/mouse/internal/infrastructure/parser/sgr_parser.go b/mouse/internal/infrastructure/parser/sgr_parser.go
index 18769eb..479afba 100644
--- a/mouse/internal/infrastructure/parser/sgr_parser.go
+++ b/mouse/internal/infrastructure/parser/sgr_parser.go
@@ -60,7 +60,7 @@ func (p *SGRParser) Parse(sequence string, isPress bool) (*model.MouseEvent, err
 
 	// Determine event type
 	var eventType value2.EventType
-	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
+	if isWheel(buttonCode) { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
 	} else if p.IsMotion(buttonCode) {
 		eventType = value2.EventMotion
@@ -83,8 +83,7 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	// Mask: keep bits 0,1,5,6 (0x63 = 0b01100011)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code &^ (4 | 8 | 16)
 
 	var button value2.Button
 	switch baseButton {
@@ -107,6 +106,12 @@ func (p *SGRParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	return button, modifiers
 }
 
+// isWheel checks if the button code is one of the wheel buttons (64-67). The
+// horizontal ones (66 and 67) scroll too, but have no name of their own.
+func isWheel(buttonCode int) bool {
+	return buttonCode&^(1|2|4|8|16) == 64
+}
+
 // IsMotion checks if the button code represents a motion event.
 func (p *SGRParser) IsMotion(buttonCode int) bool {
 	return buttonCode&0x60 == 32 // motion bit set, not a wheel
diff --git a/mouse/internal/infrastructure/parser/urxvt_parser.go b/mouse/internal/infrastructure/parser/urxvt_parser.go
index 71826bf..cb40af5 100644
--- a/mouse/internal/infrastructure/parser/urxvt_parser.go
+++ b/mouse/internal/infrastructure/parser/urxvt_parser.go
@@ -54,7 +54,7 @@ func (p *URxvtParser) Parse(sequence string) (*model.MouseEvent, error) {
 
 	// URxvt reports the release of any button as button 3
 	var eventType value2.EventType
-	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
+	if isWheel(buttonCode) { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
 	} else if buttonCode&^0x1C == 3 {
 		eventType = value2.EventRelease
@@ -75,7 +75,7 @@ func (p *URxvtParser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code &^ (4 | 8 | 16)
 
 	var button value2.Button
 	switch baseButton {
diff --git a/mouse/internal/infrastructure/parser/x10_parser.go b/mouse/internal/infrastructure/parser/x10_parser.go
index eecf8ca..4fed354 100644
--- a/mouse/internal/infrastructure/parser/x10_parser.go
+++ b/mouse/internal/infrastructure/parser/x10_parser.go
@@ -36,7 +36,7 @@ func (p *X10Parser) Parse(data []byte) (*model.MouseEvent, error) {
 
 	// X10 reports the release of any button as button 3
 	var eventType value2.EventType
-	if button.IsWheel() { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
+	if isWheel(buttonCode) { //nolint:gocritic // ifElseChain: Event type determination requires conditional checks
 		eventType = value2.EventScroll
 	} else if buttonCode&0x60 == 32 { // motion bit set, not a wheel
 		eventType = value2.EventMotion
@@ -59,7 +59,7 @@ func (p *X10Parser) decodeButton(code int) (value2.Button, value2.Modifiers) {
 	modifiers := value2.NewModifiers(shift, ctrl, alt)
 
 	// Extract base button (remove modifier bits)
-	baseButton := code & 0x63 // bits 0-1 and 5-6
+	baseButton := code &^ (4 | 8 | 16)
 
 	var button value2.Button
 	switch baseButton {
-- 
2.43.0


From d56cb7fc423d0bd121e8908881627421bf496f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 110/141] fix: mouse: a drag that returns to its start is still
 a drag, not a click

---
 mouse/internal/domain/model/drag_state.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mouse/internal/domain/model/drag_state.go b/mouse/internal/domain/model/drag_state.go
index 5f9d968..4068bdd 100644
--- a/mouse/internal/domain/model/drag_state.go
+++ b/mouse/internal/domain/model/drag_state.go
@@ -14,7 +14,8 @@ type DragState struct {
 	current   value2.Position
 	button    value2.Button
 	modifiers value2.Modifiers
-	threshold int // Minimum distance to consider it a drag
+	threshold int  // Minimum distance to consider it a drag
+	dragged   bool // Whether the pointer has been that far from the start
 }
 
 // NewDragState creates a new DragState with the specified threshold.
@@ -31,6 +32,7 @@ func NewDragState(threshold int) *DragState {
 // Start begins a drag operation.
 func (d *DragState) Start(pos value2.Position, button value2.Button, modifiers value2.Modifiers) {
 	d.active = true
+	d.dragged = false
 	d.start = pos
 	d.current = pos
 	d.button = button
@@ -41,6 +43,7 @@ func (d *DragState) Start(pos value2.Position, button value2.Button, modifiers v
 func (d *DragState) Update(pos value2.Position) {
 	if d.active {
 		d.current = pos
+		d.dragged = d.dragged || d.start.DistanceTo(pos) >= d.threshold
 	}
 }
 
@@ -54,13 +57,9 @@ func (d *DragState) IsActive() bool {
 	return d.active
 }
 
-// IsDrag returns true if the movement is beyond the threshold (actual drag).
+// IsDrag returns true if the movement is or was beyond the threshold (actual drag).
 func (d *DragState) IsDrag() bool {
-	if !d.active {
-		return false
-	}
-	distance := d.start.DistanceTo(d.current)
-	return distance >= d.threshold
+	return d.active && d.dragged
 }
 
 // StartPosition returns the starting position of the drag.
-- 
2.43.0


From aaff56323d4e4215508b6e4c25228927b20332e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 111/141] fix: mouse: releasing a button elsewhere is not a
 click when no movement was reported

---
 mouse/internal/domain/service/drag_tracker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mouse/internal/domain/service/drag_tracker.go b/mouse/internal/domain/service/drag_tracker.go
index b1ba9c3..c34e127 100644
--- a/mouse/internal/domain/service/drag_tracker.go
+++ b/mouse/internal/domain/service/drag_tracker.go
@@ -55,11 +55,13 @@ func (d *DragTracker) ProcessMotion(motionEvent model2.MouseEvent) *model2.Mouse
 
 // ProcessRelease handles a release event, ending the drag.
 // Returns the final drag state information.
-func (d *DragTracker) ProcessRelease(_ model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
+func (d *DragTracker) ProcessRelease(releaseEvent model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
 	if !d.state.IsActive() {
 		return false, value2.NewPosition(0, 0), value2.NewPosition(0, 0)
 	}
 
+	d.state.Update(releaseEvent.Position())
+
 	wasDrag = d.state.IsDrag()
 	start = d.state.StartPosition()
 	end = d.state.Current()
-- 
2.43.0


From da9b5934def6735040e3fd0e1c0874d958458373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 112/141] fix: mouse: a menu opened left of or above the screen
 is shifted onto it

---
 mouse/internal/domain/service/menu_positioner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mouse/internal/domain/service/menu_positioner.go b/mouse/internal/domain/service/menu_positioner.go
index 6864a8a..560c239 100644
--- a/mouse/internal/domain/service/menu_positioner.go
+++ b/mouse/internal/domain/service/menu_positioner.go
@@ -65,8 +65,8 @@ func (p *MenuPositioner) CalculatePosition(
 	}
 
 	// Start with cursor position
-	x := cursorPos.X()
-	y := cursorPos.Y()
+	x := max(cursorPos.X(), 0)
+	y := max(cursorPos.Y(), 0)
 
 	// Check right edge overflow
 	if x+menuWidth > screenWidth {
-- 
2.43.0


From 1ad6210fa7d31136fcdefd06f9705fbc7b124e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 113/141] fix: mouse: buttons held at the same time are
 followed one by one

---
 mouse/internal/domain/service/drag_tracker.go | 72 +++++++++++++++----
 1 file changed, 59 insertions(+), 13 deletions(-)

diff --git a/mouse/internal/domain/service/drag_tracker.go b/mouse/internal/domain/service/drag_tracker.go
index c34e127..9520162 100644
--- a/mouse/internal/domain/service/drag_tracker.go
+++ b/mouse/internal/domain/service/drag_tracker.go
@@ -7,20 +7,29 @@ import (
 
 // DragTracker is a domain service that tracks drag operations.
 type DragTracker struct {
-	state *model2.DragState
+	state     *model2.DragState   // The button pressed last
+	held      []*model2.DragState // Other buttons still held, oldest first
+	threshold int
 }
 
 // NewDragTracker creates a new DragTracker.
 // threshold: minimum distance (in cells) to consider it a drag (typically 2)
 func NewDragTracker(threshold int) *DragTracker {
 	return &DragTracker{
-		state: model2.NewDragState(threshold),
+		state:     model2.NewDragState(threshold),
+		threshold: threshold,
 	}
 }
 
 // ProcessPress handles a press event, potentially starting a drag.
 func (d *DragTracker) ProcessPress(pressEvent model2.MouseEvent) {
 	if pressEvent.Type() == value2.EventPress {
+		d.moveTo(pressEvent.Position())
+		d.remove(pressEvent.Button())
+		if d.state.IsActive() {
+			d.held = append(d.held, d.state)
+			d.state = model2.NewDragState(d.threshold)
+		}
 		d.state.Start(
 			pressEvent.Position(),
 			pressEvent.Button(),
@@ -36,15 +45,19 @@ func (d *DragTracker) ProcessMotion(motionEvent model2.MouseEvent) *model2.Mouse
 		return nil
 	}
 
-	d.state.Update(motionEvent.Position())
+	d.moveTo(motionEvent.Position())
+	dragged := d.state
+	for i := len(d.held) - 1; i >= 0 && !dragged.IsDrag(); i-- {
+		dragged = d.held[i]
+	}
 
 	// Only emit drag events if beyond threshold
-	if d.state.IsDrag() {
+	if dragged.IsDrag() {
 		dragEvent := model2.NewMouseEventWithTimestamp(
 			value2.EventDrag,
-			d.state.Button(),
+			dragged.Button(),
 			motionEvent.Position(),
-			d.state.Modifiers(),
+			dragged.Modifiers(),
 			motionEvent.Timestamp(),
 		)
 		return &dragEvent
@@ -56,20 +69,47 @@ func (d *DragTracker) ProcessMotion(motionEvent model2.MouseEvent) *model2.Mouse
 // ProcessRelease handles a release event, ending the drag.
 // Returns the final drag state information.
 func (d *DragTracker) ProcessRelease(releaseEvent model2.MouseEvent) (wasDrag bool, start, end value2.Position) {
-	if !d.state.IsActive() {
+	d.moveTo(releaseEvent.Position())
+	released := d.remove(releaseEvent.Button())
+	if released == nil {
 		return false, value2.NewPosition(0, 0), value2.NewPosition(0, 0)
 	}
 
-	d.state.Update(releaseEvent.Position())
+	wasDrag = released.IsDrag()
+	start = released.StartPosition()
+	end = released.Current()
 
-	wasDrag = d.state.IsDrag()
-	start = d.state.StartPosition()
-	end = d.state.Current()
-
-	d.state.End()
+	released.End()
 	return wasDrag, start, end
 }
 
+// moveTo updates the position of the pointer for every button held.
+func (d *DragTracker) moveTo(position value2.Position) {
+	d.state.Update(position)
+	for _, held := range d.held {
+		held.Update(position)
+	}
+}
+
+// remove forgets the button as held and returns its state, nil if it is not held.
+// The button pressed last remains the current one.
+func (d *DragTracker) remove(button value2.Button) *model2.DragState {
+	for i, held := range d.held {
+		if held.Button() == button {
+			d.held = append(d.held[:i], d.held[i+1:]...)
+			return held
+		}
+	}
+	if !d.state.IsActive() || d.state.Button() != button {
+		return nil
+	}
+	released := d.state
+	if n := len(d.held); n > 0 {
+		d.state, d.held = d.held[n-1], d.held[:n-1]
+	}
+	return released
+}
+
 // IsActive returns true if a drag is currently active.
 func (d *DragTracker) IsActive() bool {
 	return d.state.IsActive()
@@ -77,6 +117,11 @@ func (d *DragTracker) IsActive() bool {
 
 // IsDrag returns true if the current drag is beyond the threshold.
 func (d *DragTracker) IsDrag() bool {
+	for _, held := range d.held {
+		if held.IsDrag() {
+			return true
+		}
+	}
 	return d.state.IsDrag()
 }
 
@@ -87,5 +132,6 @@ func (d *DragTracker) State() *model2.DragState {
 
 // Reset resets the drag tracker.
 func (d *DragTracker) Reset() {
+	d.held = nil
 	d.state.Reset()
 }
-- 
2.43.0


From 5a0c963f50302391adc70ba3cd3b391c00cd5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 114/141] fix: clipboard: an OSC 52 write to a terminal does
 not fail for want of fsync

---
 .../internal/infrastructure/osc52/osc52_provider.go      | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/clipboard/internal/infrastructure/osc52/osc52_provider.go b/clipboard/internal/infrastructure/osc52/osc52_provider.go
index 3d3611b..300db11 100644
--- a/clipboard/internal/infrastructure/osc52/osc52_provider.go
+++ b/clipboard/internal/infrastructure/osc52/osc52_provider.go
@@ -53,13 +53,10 @@ func (p *Provider) Write(content *model.ClipboardContent) error {
 	// Write to terminal with timeout
 	done := make(chan error, 1)
 	go func() {
+		// Files are written unbuffered, and a terminal cannot be synced: fsync
+		// fails on it with EINVAL, although the sequence has been sent.
 		_, err := p.output.WriteString(sequence)
-		if err != nil {
-			done <- err
-			return
-		}
-		// Flush is important to ensure the escape sequence is sent immediately
-		done <- p.output.Sync()
+		done <- err
 	}()
 
 	// Wait for write to complete or timeout
-- 
2.43.0


From 7494b3adaaace85e2bea3c617248c8bcd14fedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 115/141] fix: clipboard: a provider that fails does not keep
 the next one from being used

---
 .../domain/service/clipboard_service.go       | 43 ++++++++++++++-----
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_service.go b/clipboard/internal/domain/service/clipboard_service.go
index 132a90b..7112ce7 100644
--- a/clipboard/internal/domain/service/clipboard_service.go
+++ b/clipboard/internal/domain/service/clipboard_service.go
@@ -2,6 +2,7 @@
 package service
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
@@ -23,28 +24,50 @@ func NewClipboardService(providers []Provider) (*ClipboardService, error) {
 	}, nil
 }
 
-// Read reads content from the first available provider.
+// Read reads content from the first available provider that can be read.
 func (s *ClipboardService) Read() (*model.ClipboardContent, error) {
-	provider := s.getAvailableProvider()
-	if provider == nil {
-		return nil, fmt.Errorf("no clipboard provider available")
+	var content *model.ClipboardContent
+	err := s.try(func(provider Provider) (err error) {
+		content, err = provider.Read()
+		return err
+	})
+	if err != nil {
+		return nil, err
 	}
 
-	return provider.Read()
+	return content, nil
 }
 
-// Write writes content using the first available provider.
+// Write writes content using the first available provider that accepts it.
 func (s *ClipboardService) Write(content *model.ClipboardContent) error {
 	if content == nil {
 		return fmt.Errorf("content cannot be nil")
 	}
 
-	provider := s.getAvailableProvider()
-	if provider == nil {
-		return fmt.Errorf("no clipboard provider available")
+	return s.try(func(provider Provider) error {
+		return provider.Write(content)
+	})
+}
+
+// try runs the operation with the available providers in order until one
+// succeeds. When none does, it returns what each of them reported.
+func (s *ClipboardService) try(operation func(Provider) error) error {
+	var errs []error
+	for _, provider := range s.providers {
+		if !provider.IsAvailable() {
+			continue
+		}
+		err := operation(provider)
+		if err == nil {
+			return nil
+		}
+		errs = append(errs, err)
 	}
 
-	return provider.Write(content)
+	if len(errs) == 0 {
+		return fmt.Errorf("no clipboard provider available")
+	}
+	return errors.Join(errs...)
 }
 
 // ReadText reads text content from the clipboard.
-- 
2.43.0


From 7868b8bcf5117126eda60da0f6f4ed5ba7fe6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 116/141] fix: clipboard: a large history limit does not
 allocate the whole history up front

---
 clipboard/internal/domain/service/clipboard_history.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index 0fce74f..dab59e4 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -32,7 +32,6 @@ func NewClipboardHistory(maxSize int, maxAge time.Duration) *ClipboardHistory {
 	}
 
 	return &ClipboardHistory{
-		entries: make([]*model.HistoryEntry, 0, maxSize),
 		maxSize: maxSize,
 		maxAge:  maxAge,
 	}
@@ -149,7 +148,7 @@ func (h *ClipboardHistory) Clear() {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 
-	h.entries = make([]*model.HistoryEntry, 0, h.maxSize)
+	h.entries = nil
 }
 
 // RemoveExpired removes all entries older than maxAge.
-- 
2.43.0


From 76283bb9e090e11878a7bacba53a2e5cd89f907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 117/141] fix: clipboard: history entries of the same instant
 are listed newest first

---
 .../domain/service/clipboard_history.go       | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/clipboard/internal/domain/service/clipboard_history.go b/clipboard/internal/domain/service/clipboard_history.go
index dab59e4..4a2ac2c 100644
--- a/clipboard/internal/domain/service/clipboard_history.go
+++ b/clipboard/internal/domain/service/clipboard_history.go
@@ -82,16 +82,7 @@ func (h *ClipboardHistory) GetAll() []*model.HistoryEntry {
 	h.mu.RLock()
 	defer h.mu.RUnlock()
 
-	// Create a copy to avoid external modification
-	result := make([]*model.HistoryEntry, len(h.entries))
-	copy(result, h.entries)
-
-	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
-
-	return result
+	return newestFirst(h.entries)
 }
 
 // GetRecent returns the N most recent entries.
@@ -105,13 +96,7 @@ func (h *ClipboardHistory) GetRecent(count int) []*model.HistoryEntry {
 		count = len(h.entries)
 	}
 
-	// Get all entries sorted by timestamp
-	result := make([]*model.HistoryEntry, len(h.entries))
-	copy(result, h.entries)
-
-	sort.Slice(result, func(i, j int) bool {
-		return result[i].Timestamp().After(result[j].Timestamp())
-	})
+	result := newestFirst(h.entries)
 
 	// Limit to requested count
 	if count < len(result) {
@@ -135,8 +120,19 @@ func (h *ClipboardHistory) GetByMIMEType(mimeType value.MIMEType) []*model.Histo
 		}
 	}
 
-	// Sort by timestamp (newest first)
-	sort.Slice(result, func(i, j int) bool {
+	return newestFirst(result)
+}
+
+// newestFirst returns a copy of the entries, which are in the order they were
+// added, sorted by timestamp (newest first). Of entries with the same timestamp
+// the one added last comes first.
+func newestFirst(entries []*model.HistoryEntry) []*model.HistoryEntry {
+	result := make([]*model.HistoryEntry, len(entries))
+	for i, entry := range entries {
+		result[len(entries)-1-i] = entry
+	}
+
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Timestamp().After(result[j].Timestamp())
 	})
 
-- 
2.43.0


From e927a1a71ca61d6a101ff728e266753ee5bb9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 118/141] fix: clipboard: the history may be used, enabled and
 disabled from any goroutine

---
 clipboard/clipboard.go                        |  15 +--
 .../internal/application/clipboard_manager.go | 100 +++++++++++-------
 2 files changed, 66 insertions(+), 49 deletions(-)

diff --git a/clipboard/clipboard.go b/clipboard/clipboard.go
index 3d4fd94..e3156f5 100644
--- a/clipboard/clipboard.go
+++ b/clipboard/clipboard.go
@@ -159,18 +159,9 @@ import (
 //	c2, _ := clipboard.New()       // Correct - auto-detected providers
 //	c3, _ := clipboard.NewBuilder().Build()  // Custom configuration
 //
-// Thread safety: Clipboard is NOT safe for concurrent use.
-// Clipboard operations involve OS API calls and provider state management.
-// Synchronize external access if sharing across goroutines.
-//
-//	// UNSAFE - concurrent clipboard access
-//	go c.Write("text1")
-//	go c.Write("text2")  // Race condition on provider state!
-//
-//	// SAFE - external synchronization
-//	var mu sync.Mutex
-//	go func() { mu.Lock(); c.Write("text1"); mu.Unlock() }()
-//	go func() { mu.Lock(); c.Write("text2"); mu.Unlock() }()
+// Thread safety: Clipboard is safe for concurrent use. Writes from several
+// goroutines are done one after the other, and the history records them in
+// that order.
 type Clipboard struct {
 	manager *application.ClipboardManager
 }
diff --git a/clipboard/internal/application/clipboard_manager.go b/clipboard/internal/application/clipboard_manager.go
index a5d2c48..8c47100 100644
--- a/clipboard/internal/application/clipboard_manager.go
+++ b/clipboard/internal/application/clipboard_manager.go
@@ -3,6 +3,7 @@ package application
 
 import (
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
@@ -21,6 +22,36 @@ type ClipboardManager struct {
 	richTextCodec  *service2.RichTextCodec
 	history        *service2.ClipboardHistory
 	historyEnabled bool
+	mu             sync.RWMutex // guards history and historyEnabled
+	writeMu        sync.Mutex   // keeps the history in the order of the writes
+}
+
+// activeHistory returns the history, or nil when it is not enabled.
+func (m *ClipboardManager) activeHistory() *service2.ClipboardHistory {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	if !m.historyEnabled {
+		return nil
+	}
+	return m.history
+}
+
+// write writes text to the clipboard and, if history is enabled, adds it to
+// the history as content of the given type.
+func (m *ClipboardManager) write(text string, mimeType value.MIMEType) error {
+	m.writeMu.Lock()
+	defer m.writeMu.Unlock()
+
+	if err := m.service.WriteText(text); err != nil {
+		return err
+	}
+
+	if history := m.activeHistory(); history != nil {
+		_ = history.Add([]byte(text), mimeType)
+	}
+
+	return nil
 }
 
 // NewClipboardManager creates a new clipboard manager with auto-detected providers.
@@ -69,17 +100,7 @@ func (m *ClipboardManager) Read() (string, error) {
 // Write writes text to the clipboard.
 // If history is enabled, the content is added to history.
 func (m *ClipboardManager) Write(text string) error {
-	// Write to clipboard
-	if err := m.service.WriteText(text); err != nil {
-		return err
-	}
-
-	// Add to history if enabled
-	if m.historyEnabled && m.history != nil {
-		_ = m.history.Add([]byte(text), value.MIMETypePlainText)
-	}
-
-	return nil
+	return m.write(text, value.MIMETypePlainText)
 }
 
 // IsAvailable returns true if clipboard is available.
@@ -160,15 +181,10 @@ func (m *ClipboardManager) ReadHTML() (string, error) {
 func (m *ClipboardManager) WriteHTML(html string) error {
 	// For now, write as plain text
 	// Future: providers should support writing HTML directly
-	if err := m.service.WriteText(html); err != nil {
+	if err := m.write(html, value.MIMETypeHTML); err != nil {
 		return fmt.Errorf("failed to write HTML to clipboard: %w", err)
 	}
 
-	// Add to history if enabled
-	if m.historyEnabled && m.history != nil {
-		_ = m.history.Add([]byte(html), value.MIMETypeHTML)
-	}
-
 	return nil
 }
 
@@ -193,15 +209,10 @@ func (m *ClipboardManager) ReadRTF() (string, error) {
 func (m *ClipboardManager) WriteRTF(rtf string) error {
 	// For now, write as plain text
 	// Future: providers should support writing RTF directly
-	if err := m.service.WriteText(rtf); err != nil {
+	if err := m.write(rtf, value.MIMETypeRTF); err != nil {
 		return fmt.Errorf("failed to write RTF to clipboard: %w", err)
 	}
 
-	// Add to history if enabled
-	if m.historyEnabled && m.history != nil {
-		_ = m.history.Add([]byte(rtf), value.MIMETypeRTF)
-	}
-
 	return nil
 }
 
@@ -245,80 +256,95 @@ func (m *ClipboardManager) ConvertRTFToHTML(rtf string) (string, error) {
 // maxSize: maximum number of entries (0 = unlimited)
 // maxAge: maximum age of entries (0 = no expiration)
 func (m *ClipboardManager) EnableHistory(maxSize int, maxAge time.Duration) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	m.history = service2.NewClipboardHistory(maxSize, maxAge)
 	m.historyEnabled = true
 }
 
 // DisableHistory disables clipboard history tracking.
 func (m *ClipboardManager) DisableHistory() {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	m.historyEnabled = false
 	m.history = nil
 }
 
 // IsHistoryEnabled returns true if clipboard history tracking is active.
 func (m *ClipboardManager) IsHistoryEnabled() bool {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	return m.historyEnabled
 }
 
 // GetHistory returns all clipboard history entries.
 // Returns nil if history is not enabled.
 func (m *ClipboardManager) GetHistory() []*model.HistoryEntry {
-	if !m.historyEnabled || m.history == nil {
+	history := m.activeHistory()
+	if history == nil {
 		return nil
 	}
-	return m.history.GetAll()
+	return history.GetAll()
 }
 
 // GetHistoryEntry returns a specific history entry by ID.
 // Returns an error if history is not enabled or entry not found.
 func (m *ClipboardManager) GetHistoryEntry(id string) (*model.HistoryEntry, error) {
-	if !m.historyEnabled || m.history == nil {
+	history := m.activeHistory()
+	if history == nil {
 		return nil, fmt.Errorf("clipboard history is not enabled")
 	}
-	return m.history.Get(id)
+	return history.Get(id)
 }
 
 // GetRecentHistory returns the N most recent history entries.
 // Returns nil if history is not enabled.
 func (m *ClipboardManager) GetRecentHistory(count int) []*model.HistoryEntry {
-	if !m.historyEnabled || m.history == nil {
+	history := m.activeHistory()
+	if history == nil {
 		return nil
 	}
-	return m.history.GetRecent(count)
+	return history.GetRecent(count)
 }
 
 // ClearHistory removes all history entries.
 // Does nothing if history is not enabled.
 func (m *ClipboardManager) ClearHistory() {
-	if m.historyEnabled && m.history != nil {
-		m.history.Clear()
+	if history := m.activeHistory(); history != nil {
+		history.Clear()
 	}
 }
 
 // GetHistorySize returns the number of entries in history.
 // Returns 0 if history is not enabled.
 func (m *ClipboardManager) GetHistorySize() int {
-	if !m.historyEnabled || m.history == nil {
+	history := m.activeHistory()
+	if history == nil {
 		return 0
 	}
-	return m.history.Size()
+	return history.Size()
 }
 
 // GetHistoryTotalSize returns the total memory usage of history in bytes.
 // Returns 0 if history is not enabled.
 func (m *ClipboardManager) GetHistoryTotalSize() int {
-	if !m.historyEnabled || m.history == nil {
+	history := m.activeHistory()
+	if history == nil {
 		return 0
 	}
-	return m.history.TotalSize()
+	return history.TotalSize()
 }
 
 // RemoveExpiredHistory removes expired entries from history.
 // Returns the number of entries removed.
 // Returns 0 if history is not enabled.
 func (m *ClipboardManager) RemoveExpiredHistory() int {
-	if !m.historyEnabled || m.history == nil {
+	history := m.activeHistory()
+	if history == nil {
 		return 0
 	}
-	return m.history.RemoveExpired()
+	return history.RemoveExpired()
 }
-- 
2.43.0


From edc412b99e0f1b3ec4a6cbb88345d9a0c72f02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 119/141] fix: clipboard: RTF escapes of characters above
 U+7FFF are 16-bit numbers

---
 clipboard/internal/domain/service/richtext_codec.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clipboard/internal/domain/service/richtext_codec.go b/clipboard/internal/domain/service/richtext_codec.go
index 9acbecb..7da90b8 100644
--- a/clipboard/internal/domain/service/richtext_codec.go
+++ b/clipboard/internal/domain/service/richtext_codec.go
@@ -6,6 +6,7 @@ import (
 	"html"
 	"regexp"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
 )
@@ -330,9 +331,12 @@ func (c *RichTextCodec) escapeRTF(text string) string {
 			// Skip carriage returns
 			continue
 		default:
-			// For non-ASCII characters, use Unicode escape
+			// For non-ASCII characters, use Unicode escapes: UTF-16 code
+			// units, as signed 16-bit numbers
 			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\u%d?", r))
+				for _, unit := range utf16.Encode([]rune{r}) {
+					buf.WriteString(fmt.Sprintf("\\u%d?", int16(unit))) //nolint:gosec // wraps as RTF demands
+				}
 			} else {
 				buf.WriteRune(r)
 			}
-- 
2.43.0


From 8a2dab523576d248d7232310641916820cde1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 120/141] fix: clipboard: reading RTF keeps escaped characters,
 line breaks and spaces

---
 .../internal/domain/service/richtext_codec.go | 143 ++++++++++++------
 1 file changed, 95 insertions(+), 48 deletions(-)

diff --git a/clipboard/internal/domain/service/richtext_codec.go b/clipboard/internal/domain/service/richtext_codec.go
index 7da90b8..2a24bf6 100644
--- a/clipboard/internal/domain/service/richtext_codec.go
+++ b/clipboard/internal/domain/service/richtext_codec.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 	"html"
 	"regexp"
+	"strconv"
 	"strings"
 	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
 )
@@ -187,22 +189,8 @@ func (c *RichTextCodec) DecodeRTF(rtfContent string) (string, value.TextStyles,
 		return "", value.NewTextStyles(), fmt.Errorf("invalid RTF format: missing header")
 	}
 
-	styles := value.NewTextStyles()
-
-	// Detect bold
-	if strings.Contains(rtfContent, "\\b ") {
-		styles = styles.WithBold(true)
-	}
-
-	// Detect italic
-	if strings.Contains(rtfContent, "\\i ") {
-		styles = styles.WithItalic(true)
-	}
-
-	// Detect underline
-	if strings.Contains(rtfContent, "\\ul ") {
-		styles = styles.WithUnderline(true)
-	}
+	// Read text and formatting
+	plainText, styles := parseRTF(rtfContent)
 
 	// Detect color from color table
 	colorTableRegex := regexp.MustCompile(`\\colortbl\s*;\\red(\d+)\\green(\d+)\\blue(\d+);`)
@@ -222,12 +210,6 @@ func (c *RichTextCodec) DecodeRTF(rtfContent string) (string, value.TextStyles,
 		}
 	}
 
-	// Strip RTF formatting
-	plainText, err := c.StripRTFFormatting(rtfContent)
-	if err != nil {
-		return "", styles, err
-	}
-
 	return plainText, styles, nil
 }
 
@@ -237,40 +219,105 @@ func (c *RichTextCodec) StripRTFFormatting(rtfContent string) (string, error) {
 		return "", nil
 	}
 
-	// Remove RTF control words and groups
-	text := rtfContent
-
-	// Remove color table
-	colorTableRegex := regexp.MustCompile(`\{\\colortbl[^}]*\}`)
-	text = colorTableRegex.ReplaceAllString(text, "")
+	text, _ := parseRTF(rtfContent)
 
-	// Remove RTF header
-	text = strings.TrimPrefix(text, "{\\rtf1\\ansi\\deff0")
-	text = strings.TrimPrefix(text, "\n")
+	return text, nil
+}
 
-	// Remove formatting codes
-	text = strings.ReplaceAll(text, "\\b ", "")
-	text = strings.ReplaceAll(text, "\\b0 ", "")
-	text = strings.ReplaceAll(text, "\\i ", "")
-	text = strings.ReplaceAll(text, "\\i0 ", "")
-	text = strings.ReplaceAll(text, "\\ul ", "")
-	text = strings.ReplaceAll(text, "\\ul0 ", "")
-	text = regexp.MustCompile(`\\cf\d+ `).ReplaceAllString(text, "")
+// rtfGroup is the state that an RTF group inherits and restores.
+type rtfGroup struct {
+	hidden bool // a destination that is not part of the text
+	skip   int  // characters that follow a Unicode escape as its replacement
+}
 
-	// Remove remaining control sequences
-	controlRegex := regexp.MustCompile(`\\[a-z]+\d*\s*`)
-	text = controlRegex.ReplaceAllString(text, "")
+// parseRTF reads RTF content: the text it contains, and the formatting used in
+// it. Line breaks of content that has no RTF header are kept.
+func parseRTF(rtf string) (string, value.TextStyles) {
+	var (
+		units  []uint16 // the text in UTF-16, as RTF escapes it
+		styles = value.NewTextStyles()
+		groups []rtfGroup
+		group  = rtfGroup{skip: 1}
+		skip   int
+	)
+
+	rest := strings.TrimSpace(rtf)
+	isRTF := strings.HasPrefix(rest, "{\\rtf")
+
+	emit := func(r rune) {
+		if skip > 0 {
+			skip--
+		} else if !group.hidden {
+			units = utf16.AppendRune(units, r)
+		}
+	}
 
-	// Remove braces
-	text = strings.ReplaceAll(text, "{", "")
-	text = strings.ReplaceAll(text, "}", "")
+	for rest != "" {
+		r, size := utf8.DecodeRuneInString(rest)
+		rest = rest[size:]
 
-	// Trim whitespace
-	text = strings.TrimSpace(text)
+		switch {
+		case r == '{':
+			groups = append(groups, group)
+			skip = 0
+		case r == '}':
+			if n := len(groups); n > 0 {
+				group, groups = groups[n-1], groups[:n-1]
+			}
+			skip = 0
+		case (r == '\n' || r == '\r') && isRTF:
+			// Line breaks of the source are not part of the text
+		case r != '\\':
+			emit(r)
+		default:
+			m := rtfControl.FindStringSubmatch(rest)
+			if m == nil { // a backslash at the end
+				return string(utf16.Decode(units)), styles
+			}
+			rest = rest[len(m[0]):]
+
+			n, err := strconv.Atoi(m[2])
+			on := err != nil || n != 0
+			switch m[1] + m[4] {
+			case "\\", "{", "}":
+				emit(rune(m[4][0]))
+			case "~":
+				emit('\u00a0')
+			case "_":
+				emit('\u2011')
+			case "": // the code of a character, as \'e9
+				code, _ := strconv.ParseUint(m[3], 16, 8)
+				emit(rune(code))
+			case "*", "fonttbl", "colortbl", "stylesheet", "info", "pict":
+				group.hidden = true
+			case "line", "par", "\n", "\r":
+				emit('\n')
+			case "tab":
+				emit('\t')
+			case "uc":
+				group.skip = max(n, 0)
+			case "u":
+				if !group.hidden {
+					units = append(units, uint16(n)) //nolint:gosec // negative numbers wrap
+				}
+				skip = group.skip
+			case "b":
+				styles.Bold = styles.Bold || on && !group.hidden
+			case "i":
+				styles.Italic = styles.Italic || on && !group.hidden
+			case "ul":
+				styles.Underline = styles.Underline || on && !group.hidden
+			}
+		}
+	}
 
-	return text, nil
+	return string(utf16.Decode(units)), styles
 }
 
+// rtfControl matches what follows a backslash: a control word with its
+// parameter and delimiter, the code of a character, or a control symbol.
+var rtfControl = regexp.MustCompile(`(?s)^(?:([a-zA-Z]+)(-?[0-9]+)? ?|'([0-9a-fA-F]{2})|(.))`)
+
 // HTMLToRTF converts HTML content to RTF format.
 func (c *RichTextCodec) HTMLToRTF(htmlContent string) (string, error) {
 	if htmlContent == "" {
-- 
2.43.0


From 2044e452a7b943b60d0754404648a89debab0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 121/141] fix: clipboard: a line break in HTML is one in the
 text

---
 clipboard/internal/domain/service/richtext_codec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clipboard/internal/domain/service/richtext_codec.go b/clipboard/internal/domain/service/richtext_codec.go
index 2a24bf6..d9bb3b9 100644
--- a/clipboard/internal/domain/service/richtext_codec.go
+++ b/clipboard/internal/domain/service/richtext_codec.go
@@ -107,6 +107,10 @@ func (c *RichTextCodec) StripHTMLTags(htmlContent string) (string, error) {
 		return "", nil
 	}
 
+	// Line breaks are part of the text
+	lineBreakRegex := regexp.MustCompile(`(?i)<br\s*/?>`)
+	htmlContent = lineBreakRegex.ReplaceAllString(htmlContent, "\n")
+
 	// Remove all HTML tags using regex
 	tagRegex := regexp.MustCompile(`<[^>]*>`)
 	stripped := tagRegex.ReplaceAllString(htmlContent, "")
-- 
2.43.0


From efee994a703a615424e44ea283bf2f6ea9cf6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 122/141] fix: terminal: a cursor position outside the screen's
 coordinates is an error

A negative coordinate wrote a sequence terminals ignore and reported success,
so WriteAt wrote at whatever position the cursor happened to be; the largest
coordinates overflowed to negative ones.
---
 terminal/internal/infrastructure/unix/ansi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terminal/internal/infrastructure/unix/ansi.go b/terminal/internal/infrastructure/unix/ansi.go
index 9dd55bd..f50f38e 100644
--- a/terminal/internal/infrastructure/unix/ansi.go
+++ b/terminal/internal/infrastructure/unix/ansi.go
@@ -67,8 +67,12 @@ func NewANSIWithOutput(output *os.File) *ANSITerminal {
 // SetCursorPosition moves cursor to absolute position (x, y).
 // ANSI: "\033[{row};{col}H" (1-based indexing!).
 func (a *ANSITerminal) SetCursorPosition(x, y int) error {
+	// A negative parameter makes a sequence no terminal understands.
+	if x < 0 || y < 0 {
+		return fmt.Errorf("terminal: cursor position (%d, %d) is out of bounds", x, y)
+	}
 	// ANSI uses 1-based indexing, API uses 0-based.
-	_, err := fmt.Fprintf(a.output, "\033[%d;%dH", y+1, x+1)
+	_, err := fmt.Fprintf(a.output, "\033[%d;%dH", uint(y)+1, uint(x)+1)
 	return err
 }
 
-- 
2.43.0


From 77b9f7513ee4378b3dae622e75d8046a5d187e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 123/141] fix: phoenix: NewTerminal detects the terminal's
 capabilities

It is documented as equivalent to AutoDetectTerminal, but returned a terminal
without any colours or control sequences whatever the environment.
---
 phoenix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phoenix.go b/phoenix.go
index a7b7ae3..d60ed51 100644
--- a/phoenix.go
+++ b/phoenix.go
@@ -124,7 +124,7 @@ func AutoDetectTerminal() *coreapi.Terminal {
 //	term := phoenix.NewTerminal()
 //	fmt.Printf("Terminal size: %dx%d\n", term.Size().Width, term.Size().Height)
 func NewTerminal() *coreapi.Terminal {
-	return coreapi.NewTerminal()
+	return coreapi.AutoDetect()
 }
 
 // NewTerminalWithCapabilities creates a new Terminal with the specified capabilities.
-- 
2.43.0


From b09215579f874f8027bdc236413fdd53725c53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 124/141] fix: core: decomposed kana and Hangul, tag flags and
 format characters are not counted twice

---
 .../domain/service/unicode_service.go         | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/core/internal/domain/service/unicode_service.go b/core/internal/domain/service/unicode_service.go
index c08a99a..bc68591 100644
--- a/core/internal/domain/service/unicode_service.go
+++ b/core/internal/domain/service/unicode_service.go
@@ -1,6 +1,7 @@
 package service
 
 import (
+	"strings"
 	"unicode"
 
 	"github.com/phoenix-tui/phoenix/core/internal/domain/value"
@@ -42,7 +43,7 @@ func (us *UnicodeService) StringWidth(s string) int {
 	if s == "" {
 		return 0
 	}
-	return uniwidth.StringWidth(s)
+	return stringWidth(s)
 }
 
 // ClusterWidth calculates the visual width of a single grapheme cluster.
@@ -71,7 +72,38 @@ func (us *UnicodeService) ClusterWidth(cluster string) int {
 	if cluster == "" {
 		return 0
 	}
-	return uniwidth.StringWidth(cluster)
+	return stringWidth(cluster)
+}
+
+// stringWidth is the width of s without the characters that take no column of
+// their own although uniwidth counts them.
+func stringWidth(s string) int {
+	if strings.IndexFunc(s, joins) >= 0 {
+		s = strings.Map(func(r rune) rune {
+			if joins(r) {
+				return -1
+			}
+			return r
+		}, s)
+	}
+	return uniwidth.StringWidth(s)
+}
+
+// joins reports whether r adds no column to the character it follows: the sound
+// marks of decomposed kana, the vowels and finals of decomposed Hangul, the tags
+// of flags and the invisible format characters.
+func joins(r rune) bool {
+	switch {
+	case r < 0x300:
+		return false
+	case r == 0x3099, r == 0x309A: // dakuten, handakuten
+		return true
+	case r >= 0x1160 && r <= 0x11FF, r >= 0xD7B0 && r <= 0xD7FF: // Hangul Jamo
+		return true
+	case r == '\u200D': // uniwidth joins emoji by it
+		return false
+	}
+	return unicode.Is(unicode.Cf, r) && !unicode.Is(unicode.Prepended_Concatenation_Mark, r)
 }
 
 // isZeroWidth checks if a rune is zero-width.
@@ -203,7 +235,7 @@ func (us *UnicodeService) StringWidthWithConfig(s string, config value.UnicodeCo
 	}
 
 	// Base width (handles emoji/ZWJ/modifiers correctly via grapheme awareness)
-	width := uniwidth.StringWidth(s)
+	width := stringWidth(s)
 
 	// Adjust for East Asian Ambiguous characters in wide mode.
 	// We compute per-rune delta because StringWidthWithOptions lacks
@@ -240,7 +272,7 @@ func (us *UnicodeService) ClusterWidthWithConfig(cluster string, config value.Un
 	}
 
 	// Base width (handles emoji/ZWJ/modifiers correctly via grapheme awareness)
-	width := uniwidth.StringWidth(cluster)
+	width := stringWidth(cluster)
 
 	// Adjust for East Asian Ambiguous characters in wide mode.
 	// We compute per-rune delta because StringWidthWithOptions lacks
-- 
2.43.0


From 7e8a93a991b33cfa784c368388655c11ed8608ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 125/141] fix: core: symbols that are text by default are one
 column wide

---
 .../domain/service/unicode_service.go         | 66 ++++++++++++++++++-
 1 file changed, 63 insertions(+), 3 deletions(-)

diff --git a/core/internal/domain/service/unicode_service.go b/core/internal/domain/service/unicode_service.go
index bc68591..f2c5090 100644
--- a/core/internal/domain/service/unicode_service.go
+++ b/core/internal/domain/service/unicode_service.go
@@ -86,7 +86,67 @@ func stringWidth(s string) int {
 			return r
 		}, s)
 	}
-	return uniwidth.StringWidth(s)
+	width := uniwidth.StringWidth(s)
+	if strings.IndexFunc(s, textSymbol) >= 0 {
+		runes := []rune(s)
+		for i, r := range runes {
+			if textSymbol(r) && !emojiStyled(runes, i) {
+				width--
+			}
+		}
+	}
+	return width
+}
+
+// runeWidth is the width of a rune that stands alone.
+func runeWidth(r rune) int {
+	if textSymbol(r) {
+		return 1
+	}
+	return uniwidth.RuneWidth(r)
+}
+
+// textSymbol reports whether r is a symbol that is one column wide unless it is
+// shown as an emoji, and that uniwidth counts as an emoji: ✓ ☀ ▶ © ™ and the like.
+func textSymbol(r rune) bool {
+	if r != 0xA9 && r != 0xAE && (r < 0x2000 || r > 0x2BFF) {
+		return false
+	}
+	return !unicode.Is(wideSymbols, r) && uniwidth.RuneWidth(r) == 2
+}
+
+// emojiStyled reports whether the symbol at i is not counted alone: a variation
+// selector chose its width, or it is part of an emoji sequence.
+func emojiStyled(runes []rune, i int) bool {
+	if i > 0 && runes[i-1] == '\u200D' {
+		return true
+	}
+	if i+1 == len(runes) {
+		return false
+	}
+	next := runes[i+1]
+	return next == '\uFE0E' || next == '\uFE0F' || next == '\u200D' || next >= 0x1F3FB && next <= 0x1F3FF
+}
+
+// wideSymbols are the wide characters among the symbols of the BMP: the brackets
+// U+2329 and U+232A, the emoji shown as such by default, and the trigrams.
+var wideSymbols = &unicode.RangeTable{
+	R16: []unicode.Range16{
+		{Lo: 0x231A, Hi: 0x231B, Stride: 1}, {Lo: 0x2329, Hi: 0x232A, Stride: 1},
+		{Lo: 0x23E9, Hi: 0x23EC, Stride: 1}, {Lo: 0x23F0, Hi: 0x23F3, Stride: 3},
+		{Lo: 0x25FD, Hi: 0x25FE, Stride: 1}, {Lo: 0x2614, Hi: 0x2615, Stride: 1},
+		{Lo: 0x2630, Hi: 0x2637, Stride: 1}, {Lo: 0x2648, Hi: 0x2653, Stride: 1},
+		{Lo: 0x267F, Hi: 0x267F, Stride: 1}, {Lo: 0x268A, Hi: 0x268F, Stride: 1},
+		{Lo: 0x2693, Hi: 0x26A1, Stride: 14}, {Lo: 0x26AA, Hi: 0x26AB, Stride: 1},
+		{Lo: 0x26BD, Hi: 0x26BE, Stride: 1}, {Lo: 0x26C4, Hi: 0x26C5, Stride: 1},
+		{Lo: 0x26CE, Hi: 0x26D4, Stride: 6}, {Lo: 0x26EA, Hi: 0x26F2, Stride: 8},
+		{Lo: 0x26F3, Hi: 0x26F5, Stride: 2}, {Lo: 0x26FA, Hi: 0x26FD, Stride: 3},
+		{Lo: 0x2705, Hi: 0x2705, Stride: 1}, {Lo: 0x270A, Hi: 0x270B, Stride: 1},
+		{Lo: 0x2728, Hi: 0x2728, Stride: 1}, {Lo: 0x274C, Hi: 0x274E, Stride: 2},
+		{Lo: 0x2753, Hi: 0x2755, Stride: 1}, {Lo: 0x2757, Hi: 0x2757, Stride: 1},
+		{Lo: 0x2795, Hi: 0x2797, Stride: 1}, {Lo: 0x27B0, Hi: 0x27BF, Stride: 15},
+		{Lo: 0x2B1B, Hi: 0x2B1C, Stride: 1}, {Lo: 0x2B50, Hi: 0x2B55, Stride: 5},
+	},
 }
 
 // joins reports whether r adds no column to the character it follows: the sound
@@ -244,7 +304,7 @@ func (us *UnicodeService) StringWidthWithConfig(s string, config value.UnicodeCo
 		for _, r := range s {
 			wideW := uniwidth.RuneWidthWithOptions(r,
 				uniwidth.WithEastAsianAmbiguous(config.EastAsianAmbiguous()))
-			narrowW := uniwidth.RuneWidth(r)
+			narrowW := runeWidth(r)
 			if wideW > narrowW {
 				width += wideW - narrowW
 			}
@@ -281,7 +341,7 @@ func (us *UnicodeService) ClusterWidthWithConfig(cluster string, config value.Un
 		for _, r := range cluster {
 			wideW := uniwidth.RuneWidthWithOptions(r,
 				uniwidth.WithEastAsianAmbiguous(config.EastAsianAmbiguous()))
-			narrowW := uniwidth.RuneWidth(r)
+			narrowW := runeWidth(r)
 			if wideW > narrowW {
 				width += wideW - narrowW
 			}
-- 
2.43.0


From c51facac218ce4a23193e113436c8ac3c31a652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:15 +0000
Subject: [PATCH 126/141] fix: tea: combining kana marks and Hangul vowels take
 no column

---
 tea/internal/infrastructure/renderer/inline.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 9822c3a..d134080 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -272,8 +272,14 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 	if r < 0x20 || (r >= 0x7F && r < 0xA0) {
 		return 0
 	}
+	// Combining / zero-width characters, whatever block they are in.
+	if r >= 0xAD && unicode.In(r, unicode.Mn, unicode.Me, unicode.Cf) {
+		return 0
+	}
 	// East Asian Wide and Fullwidth ranges that occupy 2 columns.
 	switch {
+	case r >= 0x1160 && r <= 0x11FF, r >= 0xD7B0 && r <= 0xD7FF: // Vowels and finals of decomposed Hangul
+		return 0
 	case r >= 0x1100 && r <= 0x115F: // Hangul Jamo
 		return 2
 	case r == 0x2329 || r == 0x232A: // Angle brackets
@@ -288,7 +294,7 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r >= 0xA960 && r <= 0xA97F: // Hangul Jamo Extended-A
 		return 2
-	case r >= 0xAC00 && r <= 0xD7FF: // Hangul Syllables + Jamo Extended-B
+	case r >= 0xAC00 && r <= 0xD7A3: // Hangul Syllables
 		return 2
 	case r >= 0xF900 && r <= 0xFAFF: // CJK Compatibility Ideographs
 		return 2
@@ -319,10 +325,6 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 	case r >= 0x30000 && r <= 0x3FFFD: // CJK Extension G+
 		return 2
 	}
-	// Combining / zero-width characters.
-	if unicode.In(r, unicode.Mn, unicode.Me, unicode.Cf) {
-		return 0
-	}
 	return 1
 }
 
-- 
2.43.0


From 910706f985ef3737834ff63c3ac3e48771a94009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 127/141] fix: tea: tiles, cards and geometric symbols are one
 column wide

---
 tea/internal/infrastructure/renderer/inline.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index d134080..41dcf89 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -308,11 +308,13 @@ func runeDisplayWidth(r rune) int { //nolint:gocognit,gocyclo,cyclop,funlen // U
 		return 2
 	case r >= 0x1B000 && r <= 0x1B0FF: // Kana Supplement
 		return 2
-	case r >= 0x1F004 && r <= 0x1F0CF: // Playing cards, Mahjong
+	case r == 0x1F004, r == 0x1F0CF: // Mahjong red dragon, joker
 		return 2
-	case r >= 0x1F300 && r <= 0x1F9FF: // Miscellaneous Symbols + Emoji
+	case r >= 0x1F300 && r <= 0x1F64F, r >= 0x1F680 && r <= 0x1F6FF, r >= 0x1F900 && r <= 0x1F9FF: // Emoji
 		return 2
-	case r >= 0x16FE0 && r <= 0x18CFF, r >= 0x1AFF0 && r <= 0x1B2FF: // Tangut, Khitan, Kana, Nushu
+	case r >= 0x1F7E0 && r <= 0x1F7EB, r == 0x1F7F0: // Colored circles and squares
+		return 2
+	case r >= 0x16FE0 && r <= 0x18D08, r >= 0x1AFF0 && r <= 0x1B2FF: // Tangut, Khitan, Kana, Nushu
 		return 2
 	case r == 0x1F18E, r >= 0x1F191 && r <= 0x1F19A, r >= 0x1F200 && r <= 0x1F265: // Enclosed Supplement
 		return 2
-- 
2.43.0


From 61a7c5c7d3a8f28a2cc2a31347ae982421138116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 128/141] fix: components/table: large integers of different
 types are sorted by their exact value

---
 .../table/internal/domain/service/sort.go     | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/components/table/internal/domain/service/sort.go b/components/table/internal/domain/service/sort.go
index 49ea5f1..b74d8e5 100644
--- a/components/table/internal/domain/service/sort.go
+++ b/components/table/internal/domain/service/sort.go
@@ -3,6 +3,8 @@ package service
 
 import (
 	"fmt"
+	"math"
+	"math/big"
 	"reflect"
 	"sort"
 
@@ -95,9 +97,9 @@ func (s *SortService) Compare(a, b interface{}) int {
 	}
 
 	// Numbers of different types compare by value.
-	if aNum, ok := toFloat64(a); ok {
-		if bNum, ok := toFloat64(b); ok {
-			return compareFloat64s(aNum, bNum)
+	if aNum, ok := toNumber(a); ok {
+		if bNum, ok := toNumber(b); ok {
+			return aNum.Cmp(bNum)
 		}
 	}
 
@@ -105,18 +107,21 @@ func (s *SortService) Compare(a, b interface{}) int {
 	return compareStrings(fmt.Sprintf("%v", a), fmt.Sprintf("%v", b))
 }
 
-// toFloat64 returns the value of a number of any type.
-func toFloat64(v interface{}) (float64, bool) {
+// toNumber returns the exact value of a number of any type.
+func toNumber(v interface{}) (*big.Float, bool) {
 	r := reflect.ValueOf(v)
 	switch {
 	case r.CanInt():
-		return float64(r.Int()), true
+		return new(big.Float).SetInt64(r.Int()), true
 	case r.CanUint():
-		return float64(r.Uint()), true
+		return new(big.Float).SetUint64(r.Uint()), true
 	case r.CanFloat():
-		return r.Float(), true
+		if math.IsNaN(r.Float()) {
+			return nil, false
+		}
+		return big.NewFloat(r.Float()), true
 	}
-	return 0, false
+	return nil, false
 }
 
 // compareStrings compares two strings lexicographically.
-- 
2.43.0


From 663ea986e4f1b7fb6445ff260051d386af2ba328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 129/141] fix: components/table: values that are not numbers
 (NaN) do not disturb the order of the others

---
 .../table/internal/domain/service/sort.go     | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/components/table/internal/domain/service/sort.go b/components/table/internal/domain/service/sort.go
index b74d8e5..3dfa12a 100644
--- a/components/table/internal/domain/service/sort.go
+++ b/components/table/internal/domain/service/sort.go
@@ -2,6 +2,7 @@
 package service
 
 import (
+	"cmp"
 	"fmt"
 	"math"
 	"math/big"
@@ -38,12 +39,12 @@ func (s *SortService) Sort(rows []model.Row, columnKey string, direction value.S
 		valI := sorted[i][columnKey]
 		valJ := sorted[j][columnKey]
 
-		cmp := s.Compare(valI, valJ)
+		order := s.Compare(valI, valJ)
 
 		if direction.IsAscending() {
-			return cmp < 0
+			return order < 0
 		}
-		return cmp > 0
+		return order > 0
 	})
 
 	return sorted
@@ -99,7 +100,7 @@ func (s *SortService) Compare(a, b interface{}) int {
 	// Numbers of different types compare by value.
 	if aNum, ok := toNumber(a); ok {
 		if bNum, ok := toNumber(b); ok {
-			return aNum.Cmp(bNum)
+			return compareNumbers(aNum, bNum)
 		}
 	}
 
@@ -107,7 +108,7 @@ func (s *SortService) Compare(a, b interface{}) int {
 	return compareStrings(fmt.Sprintf("%v", a), fmt.Sprintf("%v", b))
 }
 
-// toNumber returns the exact value of a number of any type.
+// toNumber returns the exact value of a number of any type (nil for NaN).
 func toNumber(v interface{}) (*big.Float, bool) {
 	r := reflect.ValueOf(v)
 	switch {
@@ -117,7 +118,7 @@ func toNumber(v interface{}) (*big.Float, bool) {
 		return new(big.Float).SetUint64(r.Uint()), true
 	case r.CanFloat():
 		if math.IsNaN(r.Float()) {
-			return nil, false
+			return nil, true
 		}
 		return big.NewFloat(r.Float()), true
 	}
@@ -157,15 +158,17 @@ func compareInt64s(a, b int64) int {
 	return 0
 }
 
-// compareFloat64s compares two float64 values.
+// compareFloat64s compares two float64 values (NaN is less than any number).
 func compareFloat64s(a, b float64) int {
-	if a < b {
-		return -1
-	}
-	if a > b {
-		return 1
+	return cmp.Compare(a, b)
+}
+
+// compareNumbers compares two results of toNumber.
+func compareNumbers(a, b *big.Float) int {
+	if a == nil || b == nil {
+		return compareBools(a != nil, b != nil)
 	}
-	return 0
+	return a.Cmp(b)
 }
 
 // compareBools compares two boolean values (false < true).
-- 
2.43.0


From 265b47360bcba3404f846ec7037d793c9f8f183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 130/141] fix: components/viewport: a very large number of
 lines per wheel step scrolls to the end, not to the top

---
 components/viewport/internal/domain/service/scroll.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/components/viewport/internal/domain/service/scroll.go b/components/viewport/internal/domain/service/scroll.go
index 2f528e3..8fccaf9 100644
--- a/components/viewport/internal/domain/service/scroll.go
+++ b/components/viewport/internal/domain/service/scroll.go
@@ -57,11 +57,10 @@ func (s *ScrollService) ScrollUp(currentOffset, lines int) int {
 // ScrollDown calculates the new offset after scrolling down by the given number of lines.
 // The result is clamped to maxOffset.
 func (s *ScrollService) ScrollDown(currentOffset, lines, maxOffset int) int {
-	newOffset := currentOffset + lines
-	if newOffset > maxOffset {
+	if lines > maxOffset-currentOffset { // currentOffset+lines may overflow
 		return maxOffset
 	}
-	return newOffset
+	return currentOffset + lines
 }
 
 // FollowModeOffset calculates the scroll offset for follow mode (tail -f style).
-- 
2.43.0


From c7a906337d21a2d5666060f99855c029a3fb4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 131/141] fix: components/list: page down in a list of very
 large height goes to the last item

---
 components/list/internal/domain/service/navigation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/components/list/internal/domain/service/navigation.go b/components/list/internal/domain/service/navigation.go
index 666571d..9016397 100644
--- a/components/list/internal/domain/service/navigation.go
+++ b/components/list/internal/domain/service/navigation.go
@@ -47,11 +47,10 @@ func (s *NavigationService) MovePageDown(currentIndex, pageSize, itemCount int)
 	if itemCount == 0 {
 		return 0
 	}
-	newIndex := currentIndex + pageSize
-	if newIndex >= itemCount {
+	if pageSize >= itemCount-currentIndex { // currentIndex+pageSize may overflow
 		return itemCount - 1
 	}
-	return newIndex
+	return currentIndex + pageSize
 }
 
 // MoveToStart moves the focus to the first item.
-- 
2.43.0


From 9f65731864702d353e1e2c09cfef821e37bf6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:40 +0000
Subject: [PATCH 132/141] fix: style: text styled by other programs keeps the
 surrounding style after its reset

---
 style/internal/application/command/render.go | 21 ++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index ba95d41..5d593e5 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -2,6 +2,7 @@ package command
 
 import (
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/phoenix-tui/phoenix/style/internal/domain/model"
@@ -10,6 +11,10 @@ import (
 	"github.com/phoenix-tui/phoenix/style/internal/infrastructure/ansi"
 )
 
+// sgrReset matches the SGR sequences that end all styles: those whose first
+// parameter is zero or missing. The parameters that set something are captured.
+var sgrReset = regexp.MustCompile(`\x1b\[0*(?:;(?:0*|2[2-9]|[34]9))*(?:;([0-9;:]+))?m`)
+
 // RenderCommand applies a Style to content and generates ANSI-styled output.
 // This is the main application service that orchestrates all domain services.
 // to execute the complete styling pipeline.
@@ -254,12 +259,24 @@ func (rc *RenderCommand) applyDecorations(content string, style model.Style) str
 
 // wrap puts each line of content between prefix and a reset, so that nothing
 // continues beyond the end of a line. A reset within content (the end of a
-// colored border) ends only what was started there: prefix continues.
+// colored border or of text that was already styled, by any program) ends only
+// what was started there: prefix continues.
 func (rc *RenderCommand) wrap(content, prefix string) string {
 	reset := rc.ansiGenerator.Reset()
 	lines := strings.Split(content, "\n")
 	for i, line := range lines {
-		lines[i] = prefix + strings.ReplaceAll(line, reset, reset+prefix) + reset
+		lines[i] = prefix + resumeAfterReset(line, prefix) + reset
 	}
 	return strings.Join(lines, "\n")
 }
+
+// resumeAfterReset repeats prefix after every reset in line. What a sequence
+// sets after resetting everything applies on top of prefix.
+func resumeAfterReset(line, prefix string) string {
+	return sgrReset.ReplaceAllStringFunc(line, func(seq string) string {
+		if set := sgrReset.FindStringSubmatch(seq)[1]; set != "" {
+			return "\x1b[0m" + prefix + "\x1b[" + set + "m"
+		}
+		return seq + prefix
+	})
+}
-- 
2.43.0


From 9dc6b88442d99f1e0c4ea7cd333df356f77f6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:50 +0000
Subject: [PATCH 133/141] fix: tea: tabs and carriage returns in a view do not
 move over what an earlier frame left

---
 .../infrastructure/renderer/inline.go         | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tea/internal/infrastructure/renderer/inline.go b/tea/internal/infrastructure/renderer/inline.go
index 41dcf89..34ea527 100644
--- a/tea/internal/infrastructure/renderer/inline.go
+++ b/tea/internal/infrastructure/renderer/inline.go
@@ -107,6 +107,8 @@ func (r *InlineRenderer) Render(view string) error { //nolint:gocognit,gocyclo,c
 	}
 
 	for i, line := range newLines {
+		line = drawable(line)
+
 		// Truncate to terminal width to prevent line wrap, which would
 		// inflate the physical line count and corrupt cursor positioning.
 		if r.width > 0 {
@@ -487,6 +489,35 @@ func selfContained(lines []string) []string {
 	return lines
 }
 
+// tabWidth is the distance between the tab stops of a terminal.
+const tabWidth = 8
+
+// drawable returns line without the characters that move the cursor: what they
+// move over would keep what an earlier frame left there. Tabs become spaces, a
+// carriage return (as in the line ends of Windows) and the like have no width.
+func drawable(line string) string {
+	line = strings.Map(func(r rune) rune {
+		keep := r == '\t' || r == '\x1b' || r == '\a' // Bells end escape sequences
+		if unicode.IsControl(r) && !keep {
+			return -1
+		}
+		return r
+	}, line)
+
+	var b strings.Builder
+	column := 0
+	for i, part := range strings.Split(line, "\t") {
+		if i > 0 {
+			spaces := tabWidth - column%tabWidth
+			b.WriteString(strings.Repeat(" ", spaces))
+			column += spaces
+		}
+		b.WriteString(part)
+		column += visualWidth(part)
+	}
+	return b.String()
+}
+
 // decodeRune decodes a UTF-8 rune from s starting at byte offset i.
 // Returns the rune and the number of bytes consumed.
 func decodeRune(s string, i int) (rune, int) {
-- 
2.43.0


From 3a5532deecfceeecc1a37cbbb68cdd7e4f7564b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 134/141] fix: components/viewport: lines with tabs are cut and
 wrapped at the width they have on the screen

---
 .../internal/domain/model/viewport.go         | 36 ++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index 43e1584..0817547 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -57,9 +57,12 @@ func (v *Viewport) WithContent(content []string) *Viewport {
 // the scroll offset to where it belongs: to the bottom in follow mode,
 // otherwise inside the bounds.
 func (v *Viewport) reflow() {
-	v.rows = v.content
+	v.rows = make([]string, len(v.content))
+	for i, line := range v.content {
+		v.rows[i] = expandTabs(line)
+	}
 	if v.wrapLines && v.size.Width() > 0 {
-		v.rows = v.wrapContent()
+		v.rows = v.wrapRows(v.rows)
 	}
 
 	if v.followMode {
@@ -292,11 +295,11 @@ func (v *Viewport) truncateLine(line string, width int) string {
 	return result.String()
 }
 
-// wrapContent returns the content with the lines that exceed the viewport width
+// wrapRows returns the lines with those that exceed the viewport width
 // wrapped. This is a simple implementation - each line that's too wide is split.
-func (v *Viewport) wrapContent() []string {
+func (v *Viewport) wrapRows(lines []string) []string {
 	var result []string
-	for _, line := range v.content {
+	for _, line := range lines {
 		result = append(result, v.wrapLine(line, v.size.Width())...)
 	}
 	return result
@@ -339,6 +342,29 @@ func (v *Viewport) wrapLine(line string, width int) []string {
 	return append(result, currentLine.String())
 }
 
+// tabWidth is the distance between the tab stops of a line.
+const tabWidth = 8
+
+// expandTabs returns line with spaces in place of its tabs. On the screen a tab
+// takes a room that depends on what is before it.
+func expandTabs(line string) string {
+	if !strings.Contains(line, "\t") {
+		return line
+	}
+
+	var b strings.Builder
+	column := 0
+	forEachCharacter(line, func(char string, charWidth int, _ bool) {
+		if char == "\t" {
+			charWidth = tabWidth - column%tabWidth
+			char = strings.Repeat(" ", charWidth)
+		}
+		b.WriteString(char)
+		column += charWidth
+	})
+	return b.String()
+}
+
 // forEachCharacter calls fn for each character and each escape sequence (CSI) of line.
 func forEachCharacter(line string, fn func(char string, width int, escape bool)) {
 	state := -1
-- 
2.43.0


From c32c60673bf105dec8c8c0f8ef416d1219e7ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 135/141] fix: style: text with tabs is measured, aligned and
 framed as it is shown

---
 style/internal/application/command/render.go |  1 +
 style/internal/domain/service/width.go       | 21 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/style/internal/application/command/render.go b/style/internal/application/command/render.go
index 5d593e5..067e994 100644
--- a/style/internal/application/command/render.go
+++ b/style/internal/application/command/render.go
@@ -68,6 +68,7 @@ func (rc *RenderCommand) Execute(style model.Style, content string) (string, err
 	}
 
 	// 2. Size validation & content preparation.
+	content = service2.ExpandTabs(content)
 	targetWidth := 0
 	targetHeight := 0
 
diff --git a/style/internal/domain/service/width.go b/style/internal/domain/service/width.go
index 3b499f8..8a638c9 100644
--- a/style/internal/domain/service/width.go
+++ b/style/internal/domain/service/width.go
@@ -17,6 +17,27 @@ func DisplayWidth(text string) int {
 	return core.StringWidth(plain)
 }
 
+// tabWidth is the distance between the tab stops of a line.
+const tabWidth = 8
+
+// ExpandTabs returns text with spaces in place of its tabs. What a tab takes on
+// the screen depends on what is before it, also around the text.
+func ExpandTabs(text string) string {
+	lines := strings.Split(text, "\n")
+	for i, line := range lines {
+		parts := strings.Split(line, "\t")
+		column := 0
+		for j, part := range parts[:len(parts)-1] {
+			column += DisplayWidth(part)
+			spaces := tabWidth - column%tabWidth
+			parts[j] += strings.Repeat(" ", spaces)
+			column += spaces
+		}
+		lines[i] = strings.Join(parts, "")
+	}
+	return strings.Join(lines, "\n")
+}
+
 // escapeSequences returns the escape sequences (CSI) in text.
 func escapeSequences(text string) string {
 	_, escapes := splitEscapes(text)
-- 
2.43.0


From 3add93174b836f43159565343d20fc675c25278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:07 +0000
Subject: [PATCH 136/141] fix: layout: text with tabs is measured, framed and
 cut as it is shown

---
 layout/internal/domain/service/cells.go | 21 +++++++++++++++++++++
 layout/layout.go                        |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/layout/internal/domain/service/cells.go b/layout/internal/domain/service/cells.go
index 8390e5c..da8da30 100644
--- a/layout/internal/domain/service/cells.go
+++ b/layout/internal/domain/service/cells.go
@@ -26,6 +26,27 @@ func displayWidth(line string) int {
 	return core.StringWidth(plain.String())
 }
 
+// tabWidth is the distance between the tab stops of a line.
+const tabWidth = 8
+
+// ExpandTabs returns text with spaces in place of its tabs. What a tab takes on
+// the screen depends on what is before it, also around the text.
+func ExpandTabs(text string) string {
+	lines := strings.Split(text, "\n")
+	for i, line := range lines {
+		parts := strings.Split(line, "\t")
+		column := 0
+		for j, part := range parts[:len(parts)-1] {
+			column += displayWidth(part)
+			spaces := tabWidth - column%tabWidth
+			parts[j] += strings.Repeat(" ", spaces)
+			column += spaces
+		}
+		lines[i] = strings.Join(parts, "")
+	}
+	return strings.Join(lines, "\n")
+}
+
 // escapeLength returns the length of the escape sequence (CSI) line starts
 // with, 0 if there is none.
 func escapeLength(line string) int {
diff --git a/layout/layout.go b/layout/layout.go
index dab4336..7bf6a59 100644
--- a/layout/layout.go
+++ b/layout/layout.go
@@ -127,7 +127,7 @@ type Box struct {
 //	box := layout.NewBox("Hello World")
 func NewBox(content string) *Box {
 	return &Box{
-		domain: model2.NewBox(content),
+		domain: model2.NewBox(service2.ExpandTabs(content)),
 	}
 }
 
-- 
2.43.0


From cac5962eb9d0f7630f19a63d284c06cea0a7fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:02 +0000
Subject: [PATCH 137/141] fix: components/table: line breaks and tabs in a cell
 or title do not break the row

---
 components/table/table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/table/table.go b/components/table/table.go
index 67325f6..fb9c1e5 100644
--- a/components/table/table.go
+++ b/components/table/table.go
@@ -321,8 +321,14 @@ func markSelected(cell string) string {
 	return b.String()
 }
 
+// cellBreaks replaces what would move the rest of a row to another line or column.
+var cellBreaks = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ", "\t", " ")
+
 // formatCell formats a cell with alignment and width.
 func (t *Table) formatCell(content string, width int, alignment value2.Alignment) string {
+	// A row is one line: line breaks and tabs become spaces.
+	content = cellBreaks.Replace(content)
+
 	// Truncate if too long.
 	if text.Width(content) > width {
 		if width > 3 {
-- 
2.43.0


From 03bdca52d085d92b65a1417ca69eb5dcb6dee17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:03 +0000
Subject: [PATCH 138/141] fix: components/modal: lines with tabs are padded and
 cut at the width they have on the screen

---
 components/internal/text/text.go              | 23 ++++++++++++++++
 components/modal/modal.go                     |  1 +
 .../internal/domain/model/viewport.go         | 26 ++-----------------
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/components/internal/text/text.go b/components/internal/text/text.go
index 3f78a63..9a9cb5f 100644
--- a/components/internal/text/text.go
+++ b/components/internal/text/text.go
@@ -53,3 +53,26 @@ func Truncate(s string, width int) string {
 	})
 	return b.String()
 }
+
+// tabWidth is the distance between the tab stops of a line.
+const tabWidth = 8
+
+// ExpandTabs returns line with spaces in place of its tabs. On the screen a tab
+// takes a room that depends on what is before it.
+func ExpandTabs(line string) string {
+	if !strings.Contains(line, "\t") {
+		return line
+	}
+
+	var b strings.Builder
+	column := 0
+	Each(line, func(char string, width int, _ bool) {
+		if char == "\t" {
+			width = tabWidth - column%tabWidth
+			char = strings.Repeat(" ", width)
+		}
+		b.WriteString(char)
+		column += width
+	})
+	return b.String()
+}
diff --git a/components/modal/modal.go b/components/modal/modal.go
index 5a21e1a..c48534f 100644
--- a/components/modal/modal.go
+++ b/components/modal/modal.go
@@ -440,6 +440,7 @@ func (m *Modal) renderButtons(availableWidth int) string {
 // padOrTruncate pads or truncates a string to the specified width.
 func (m *Modal) padOrTruncate(text string, width int) string {
 	width = max(width, 0)
+	text = text2.ExpandTabs(text)
 	if text2.Width(text) > width {
 		if width > 3 {
 			text = text2.Truncate(text, width-3) + "..."
diff --git a/components/viewport/internal/domain/model/viewport.go b/components/viewport/internal/domain/model/viewport.go
index 0817547..240aa53 100644
--- a/components/viewport/internal/domain/model/viewport.go
+++ b/components/viewport/internal/domain/model/viewport.go
@@ -4,6 +4,7 @@ package model
 import (
 	"strings"
 
+	"github.com/phoenix-tui/phoenix/components/internal/text"
 	"github.com/phoenix-tui/phoenix/components/viewport/internal/domain/service"
 	value2 "github.com/phoenix-tui/phoenix/components/viewport/internal/domain/value"
 	"github.com/rivo/uniseg"
@@ -59,7 +60,7 @@ func (v *Viewport) WithContent(content []string) *Viewport {
 func (v *Viewport) reflow() {
 	v.rows = make([]string, len(v.content))
 	for i, line := range v.content {
-		v.rows[i] = expandTabs(line)
+		v.rows[i] = text.ExpandTabs(line)
 	}
 	if v.wrapLines && v.size.Width() > 0 {
 		v.rows = v.wrapRows(v.rows)
@@ -342,29 +343,6 @@ func (v *Viewport) wrapLine(line string, width int) []string {
 	return append(result, currentLine.String())
 }
 
-// tabWidth is the distance between the tab stops of a line.
-const tabWidth = 8
-
-// expandTabs returns line with spaces in place of its tabs. On the screen a tab
-// takes a room that depends on what is before it.
-func expandTabs(line string) string {
-	if !strings.Contains(line, "\t") {
-		return line
-	}
-
-	var b strings.Builder
-	column := 0
-	forEachCharacter(line, func(char string, charWidth int, _ bool) {
-		if char == "\t" {
-			charWidth = tabWidth - column%tabWidth
-			char = strings.Repeat(" ", charWidth)
-		}
-		b.WriteString(char)
-		column += charWidth
-	})
-	return b.String()
-}
-
 // forEachCharacter calls fn for each character and each escape sequence (CSI) of line.
 func forEachCharacter(line string, fn func(char string, width int, escape bool)) {
 	state := -1
-- 
2.43.0


From 4be1f90d8eb7a6cf9eaa2dff5a2e2cf3498d5828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:04 +0000
Subject: [PATCH 139/141] fix: tea: Resume of a program that does not run yet
 neither draws nor reads

---
 tea/internal/application/program/program.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 55f3aea..3c555b7 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -939,10 +939,14 @@ func (p *Program[T]) Resume() error {
 	p.suspended = false
 	p.repaintNeeded = true
 	p.suspendState = nil
+	wasReading := p.inputReader != nil
 	p.mu.Unlock()
 
 	// STEP 4: Restart inputReader goroutine
-	p.restartInputReader()
+	// (a program that does not run yet has none, Run starts it)
+	if wasReading {
+		p.restartInputReader()
+	}
 
 	// STEP 5: Force full redraw.
 	// The event loop does it: the model and the renderer belong to it.
@@ -950,8 +954,7 @@ func (p *Program[T]) Resume() error {
 	repaintCh := p.repaintCh
 	p.mu.Unlock()
 	if repaintCh == nil {
-		p.renderView() // No event loop yet
-		return nil
+		return nil // No event loop yet
 	}
 	select {
 	case repaintCh <- struct{}{}:
-- 
2.43.0


From e4a4bea0fff573d4129105c0ee841088f376636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:37 +0000
Subject: [PATCH 140/141] fix: components/input: what a custom key handler does
 to selection, focus and settings counts as handling the key

---
 .../input/infrastructure/keybindings.go        | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/components/input/internal/input/infrastructure/keybindings.go b/components/input/internal/input/infrastructure/keybindings.go
index 92cc489..e5f6c44 100644
--- a/components/input/internal/input/infrastructure/keybindings.go
+++ b/components/input/internal/input/infrastructure/keybindings.go
@@ -133,7 +133,7 @@ func (kb *CustomKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) model
 	for _, handler := range kb.handlers {
 		result := handler(input, msg)
 		// Check if handler modified the input.
-		if result.Content() != input.Content() || result.CursorPosition() != input.CursorPosition() {
+		if modified(input, result) {
 			return result
 		}
 	}
@@ -142,6 +142,22 @@ func (kb *CustomKeyBindings) Handle(input model.TextInput, msg tea.KeyMsg) model
 	return kb.fallback.Handle(input, msg)
 }
 
+// modified tells whether a handler changed anything about the input.
+func modified(before, after model.TextInput) bool {
+	if before.HasSelection() != after.HasSelection() {
+		return true
+	}
+	if before.HasSelection() && *before.Selection() != *after.Selection() {
+		return true
+	}
+	return before.Content() != after.Content() ||
+		before.CursorPosition() != after.CursorPosition() ||
+		before.Focused() != after.Focused() ||
+		before.ShowCursor() != after.ShowCursor() ||
+		before.Width() != after.Width() ||
+		before.Placeholder() != after.Placeholder()
+}
+
 // AddHandler adds a custom key handler.
 func (kb *CustomKeyBindings) AddHandler(handler KeyHandler) {
 	kb.handlers = append(kb.handlers, handler)
-- 
2.43.0


From 7a0f23c44afef33df8d81f63523c2777583f6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:30 +0000
Subject: [PATCH 141/141] fix: tea: an input that reached its end gives its
 pipes back

---
 tea/internal/application/program/program.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tea/internal/application/program/program.go b/tea/internal/application/program/program.go
index 3c555b7..ebc32ad 100644
--- a/tea/internal/application/program/program.go
+++ b/tea/internal/application/program/program.go
@@ -654,6 +654,9 @@ func (p *Program[T]) startInputReader() {
 				msg, err = reader.Read()
 				if err != nil {
 					// EOF or error - stop reading
+					// (stopInputReader has nothing to stop then: release the pipes here)
+					reader.Cancel()
+					reader.WaitForShutdown()
 					return
 				}
 			}
-- 
2.43.0

