From ada85b294c339fe810993084a70c3c4228d194d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 01/94] fix: GSUB 4.1 matching must not share one buffer for
 matched and skipped positions

---
 opentype/gtab/gsub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b372a9..68e8c52 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -585,7 +585,7 @@ ligLoop:
 		lig := &ligSet[j]
 
 		matchPos = matchPos[:0]
-		skipPos = matchPos[:0]
+		skipPos = skipPos[:0]
 		text = text[:0]
 
 		matchPos = append(matchPos, a)
-- 
2.43.0


From ddfde79a999a1975c1e749a780253a5140b6aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 02/94] fix: chained context format 3 must record every input
 position once and skip ignored glyphs

---
 opentype/gtab/nested.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8a6ab08..3f7038c 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -1423,34 +1423,43 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 		}
 	}
 
+	if !l.Input[0][seq[a].GID] {
+		return -1
+	}
+
 	p = a
 	matchPos := append(ctx.scratch[:0], p)
-	glyphsNeeded = len(l.Input)
-	for _, cov := range l.Input {
-		if p+glyphsNeeded-1 >= b || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
-		matchPos = append(matchPos, p)
+	glyphsNeeded = len(l.Input) - 1
+	for _, cov := range l.Input[1:] {
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < b && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= b || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+		matchPos = append(matchPos, p)
 	}
 	next := p
 
 	glyphsNeeded = len(l.Lookahead)
 	for _, cov := range l.Lookahead {
-		if p+glyphsNeeded-1 >= len(seq) || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= len(seq) || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+	}
+
+	next++
+	for next < b && !keep.Keep(seq[next].GID) {
+		next++
 	}
 
 	ctx.scratch = nil // claim the scratch space as our own
-- 
2.43.0


From afc313b9b269b410cddd3910ae26063264f5142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 03/94] fix: nested actions with an out-of-range sequence index
 must be dropped, not retried

---
 opentype/gtab/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 0b905bc..f2565d0 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -121,12 +121,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 
 		lookupIndex := ctx.stack[k].Actions[0].LookupListIndex
 		seqIdx := ctx.stack[k].Actions[0].SequenceIndex
+		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 		if int(seqIdx) >= len(ctx.stack[k].InputPos) {
 			continue
 		}
 		pos := ctx.stack[k].InputPos[seqIdx]
 		end := ctx.stack[k].EndPos
-		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 
 		if int(lookupIndex) >= len(ctx.ll) {
 			continue
-- 
2.43.0


From d083597b8a26188558e64accbe7bf31b48789c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 04/94] fix: do not leave abandoned nested actions on the stack

---
 opentype/gtab/layout.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index f2565d0..6bb71dc 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -145,6 +145,11 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 			ctx.keep = oldKeep
 		}
 	}
+	if len(ctx.stack) > 0 {
+		// The action budget is exhausted: abandon the remaining actions.
+		next = ctx.stack[0].EndPos
+		ctx.stack = ctx.stack[:0]
+	}
 
 	return next
 }
-- 
2.43.0


From 43613068498e74ba626b956045bc76e1a6a49c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 05/94] fix: account for all merged glyphs when shrinking the
 range of nested actions

---
 opentype/gtab/layout.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 6bb71dc..796e16e 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -245,6 +245,13 @@ func (ctx *Context) fixStackMerge(pos []int) {
 			j++
 		}
 
+		// Also count the merged glyphs after the end of the input sequence.
+		for ; i < len(pos); i++ {
+			if i > 0 {
+				delta++
+			}
+		}
+
 		// We need to decide whether or not to add the new glyphs to the input
 		// glyph sequence of this action.  The behaviour is not specified in
 		// the OpenType spec, so we try to imitate the behavior of the Windows
-- 
2.43.0


From f63bb8ba08f99b59799271fbce1e238e8c775ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 06/94] fix: GSUB 2.1 must not panic on empty replacement
 sequences

---
 opentype/gtab/gsub.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 68e8c52..683b586 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -267,6 +267,9 @@ func (l *Gsub2_1) apply(ctx *Context, a, b int) int {
 	}
 
 	repl := l.Repl[idx]
+	if len(repl) == 0 {
+		return -1
+	}
 	seq[a].GID = repl[0]
 	k := len(repl)
 	if k > 1 {
-- 
2.43.0


From 4ba5804af112ea46933dabc3848efd528d7de8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 07/94] fix: lookup flags with an out-of-range mark filtering
 set must not panic

---
 opentype/gtab/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/filter.go b/opentype/gtab/filter.go
index 6b7c5b9..841ad30 100644
--- a/opentype/gtab/filter.go
+++ b/opentype/gtab/filter.go
@@ -86,7 +86,7 @@ func (k *keepFunc) Keep(gid glyph.ID) bool {
 			// If a mark filtering set is specified, this supersedes any mark
 			// attachment type indication in the lookup flag.
 			set := k.Meta.MarkFilteringSet
-			if k.Gdef.MarkGlyphSets == nil || !k.Gdef.MarkGlyphSets[set][gid] {
+			if int(set) >= len(k.Gdef.MarkGlyphSets) || !k.Gdef.MarkGlyphSets[set][gid] {
 				return false
 			}
 		} else if m := flags & MarkAttachTypeMask; m != 0 {
-- 
2.43.0


From 8faff2d607996e6e6dbf7c2581331c7c4d8b4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 08/94] fix: SeqContext2 must not panic for classes without a
 rule set

---
 opentype/gtab/nested.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 3f7038c..cfd3c69 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -392,6 +392,9 @@ func (l *SeqContext2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	ruleIdx := l.Input[gid]
+	if int(ruleIdx) >= len(l.Rules) {
+		return -1
+	}
 	rules := l.Rules[ruleIdx]
 
 	matchPos := ctx.scratch
-- 
2.43.0


From da81c1e90e7abf6d10eeb46ec51266d618297fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 09/94] fix: context rules without input glyphs never match

---
 opentype/gtab/nested.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index cfd3c69..7a79327 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -577,7 +577,7 @@ func (l *SeqContext3) apply(ctx *Context, a, b int) int {
 	keep := ctx.keep
 
 	gid := seq[a].GID
-	if !l.Input[0][gid] {
+	if len(l.Input) == 0 || !l.Input[0][gid] {
 		return -1
 	}
 
@@ -1426,7 +1426,7 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 		}
 	}
 
-	if !l.Input[0][seq[a].GID] {
+	if len(l.Input) == 0 || !l.Input[0][seq[a].GID] {
 		return -1
 	}
 
-- 
2.43.0


From e2a0e8403b57553e078cf80a296dd6181c0647d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 10/94] fix: mark attachment must not panic on mark classes
 outside the anchor arrays

---
 opentype/gtab/gpos4.go | 3 +++
 opentype/gtab/gpos6.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 87d534a..52ddf68 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -145,6 +145,9 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
+	if int(markRecord.Class) >= len(l.BaseArray[baseIdx]) {
+		return -1
+	}
 	baseRecord := l.BaseArray[baseIdx][markRecord.Class]
 	if baseRecord.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 29d78da..b170581 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -143,6 +143,9 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
+	if int(mark1Record.Class) >= len(l.Mark2Array[mark2Idx]) {
+		return -1
+	}
 	mark2Record := l.Mark2Array[mark2Idx][mark1Record.Class]
 	if mark2Record.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
-- 
2.43.0


From 5453d96718ac7a440f721d1dddc7aff91fffbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 11/94] fix: marks must follow the offset of the glyph they are
 attached to

---
 opentype/gtab/gpos4.go | 4 ++--
 opentype/gtab/gpos6.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 52ddf68..c153d3d 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -154,8 +154,8 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 
-	dx := baseRecord.X - markRecord.X
-	dy := baseRecord.Y - markRecord.Y
+	dx := seq[p].XOffset + baseRecord.X - markRecord.X
+	dy := seq[p].YOffset + baseRecord.Y - markRecord.Y
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index b170581..73af87f 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -152,8 +152,8 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 
-	dx := mark2Record.X - mark1Record.X
-	dy := mark2Record.Y - mark1Record.Y
+	dx := seq[p].XOffset + mark2Record.X - mark1Record.X
+	dy := seq[p].YOffset + mark2Record.Y - mark1Record.Y
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
-- 
2.43.0


From 1e0b0b8e03799f222c0306a5ed49299a6e4b6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 12/94] fix: mark-to-mark attachment must use the preceding
 glyph which is not ignored

---
 opentype/gtab/gpos6.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 73af87f..10bff3a 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -128,21 +128,18 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	}
 	mark1Record := l.Mark1Array[mark1Idx]
 
-	if a == 0 {
-		return -1
-	}
+	// The mark attaches to the preceding glyph, skipping ignored glyphs.
 	p := a - 1
-	var mark2Idx int
-	for p >= 0 {
-		mark2Idx, ok = l.Mark2Cov[seq[p].GID]
-		if ok {
-			break
-		}
+	for p >= 0 && !ctx.keep.Keep(seq[p].GID) {
 		p--
 	}
 	if p < 0 {
 		return -1
 	}
+	mark2Idx, ok := l.Mark2Cov[seq[p].GID]
+	if !ok {
+		return -1
+	}
 	if int(mark1Record.Class) >= len(l.Mark2Array[mark2Idx]) {
 		return -1
 	}
-- 
2.43.0


From f59e07413ef6ce24c937fb1e3b52961ed028544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 13/94] fix: mark-to-base attachment must not look past the
 preceding base glyph

---
 opentype/gtab/gpos4.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index c153d3d..1f5d5b4 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -140,6 +140,10 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 		if ok {
 			break
 		}
+		if ctx.gdef != nil && ctx.gdef.GlyphClass != nil && !ctx.gdef.IsMark(seq[p].GID) {
+			// The preceding base glyph is not covered by this subtable.
+			return -1
+		}
 		p--
 	}
 	if p < 0 {
-- 
2.43.0


From f3dd40871a624776e560c96982e4556f25b49016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 14/94] fix: cursive attachment must skip ignored glyphs and
 respect missing anchors

---
 opentype/gtab/gpos.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index dfdf87d..f4dc160 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -655,26 +655,39 @@ func (l *Gpos3_1) apply(ctx *Context, a, b int) int {
 	// TODO(voss): this is only correct if the RIGHT_TO_LEFT flag is not set.
 
 	seq := ctx.seq
+	keep := ctx.keep
 
 	idx, ok := l.Cov[seq[a].GID]
 	if !ok {
 		return -1
 	}
 	rec := l.Records[idx]
-	if a > 0 {
-		prevGlyph := seq[a-1] // TODO(voss): use ctx.Keep?
+
+	p := a - 1
+	for p >= 0 && !keep.Keep(seq[p].GID) {
+		p--
+	}
+	if p >= 0 && !rec.Entry.IsEmpty() {
+		prevGlyph := seq[p]
 		prev, ok := l.Cov[prevGlyph.GID]
-		if ok {
+		if ok && !l.Records[prev].Exit.IsEmpty() {
 			prevRec := l.Records[prev]
 			seq[a].YOffset = prevGlyph.YOffset + prevRec.Exit.Y - rec.Entry.Y
 		}
 	}
-	if a < b-1 {
-		nextGlyph := seq[a+1] // TODO(voss): use ctx.Keep?
+
+	p = a + 1
+	dx := seq[a].XOffset + rec.Exit.X
+	for p < b && !keep.Keep(seq[p].GID) {
+		dx -= seq[p].Advance
+		p++
+	}
+	if p < b && !rec.Exit.IsEmpty() {
+		nextGlyph := seq[p]
 		next, ok := l.Cov[nextGlyph.GID]
-		if ok {
+		if ok && !l.Records[next].Entry.IsEmpty() {
 			nextRec := l.Records[next]
-			seq[a].Advance = seq[a].XOffset + rec.Exit.X - nextGlyph.XOffset - nextRec.Entry.X
+			seq[a].Advance = dx - nextGlyph.XOffset - nextRec.Entry.X
 		}
 	}
 
-- 
2.43.0


From c40498cb0a20d3a6110b7d0af5521ed9baf73e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 15/94] fix: read the anchors of GPOS 5.1 subtables using the
 per-component offsets

---
 opentype/gtab/gpos5.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index a7dd3ed..23db7ee 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -90,6 +90,7 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	}
 
 	ligArray := make([][][]anchor.Table, ligCount)
+	total := 2 + 2*int(ligCount)
 	for i := range ligArray {
 		ligAttachPos := ligArrayPos + int64(offsets[i])
 		err = p.SeekPos(ligAttachPos)
@@ -101,20 +102,38 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
-		ligAttach := make([][]anchor.Table, componentCount)
+		numOffsets := uint(componentCount) * uint(markClassCount)
+		if total > 0xFFFF || numOffsets > (65536-2-2)/2 {
+			// All offsets are 16-bit.
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    "GPOS5.1 table too large",
+			}
+		}
+		anchorOffsets := make([]uint16, numOffsets)
+		for j := range anchorOffsets {
+			anchorOffsets[j], err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
+		total += 2 + 2*len(anchorOffsets)
 
-		for j := 0; j < int(componentCount); j++ {
+		ligAttach := make([][]anchor.Table, componentCount)
+		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
-			for j := range row {
-				if offsets[j] == 0 {
+			for k := range row {
+				if anchorOffsets[k] == 0 {
 					continue
 				}
-				row[j], err = anchor.Read(p, ligAttachPos+int64(offsets[j]))
+				row[k], err = anchor.Read(p, ligAttachPos+int64(anchorOffsets[k]))
 				if err != nil {
 					return nil, err
 				}
+				total += 6
 			}
-			ligAttach[i] = row
+			ligAttach[j] = row
+			anchorOffsets = anchorOffsets[markClassCount:]
 		}
 
 		ligArray[i] = ligAttach
-- 
2.43.0


From e4c2d6a0c3378f8fc3bf6064c89ddfd6021979ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 16/94] fix: fonts with GPOS 5.1 subtables could be read but
 writing them caused a panic

---
 opentype/gtab/gpos5.go | 118 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 114 insertions(+), 4 deletions(-)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index 23db7ee..f9568a2 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -153,12 +153,122 @@ func (l *Gpos5_1) apply(ctx *Context, a, b int) int {
 	return -1
 }
 
-// encode implements the [Subtable] interface.
-func (l *Gpos5_1) encode() []byte {
-	panic("not implemented")
+func (l *Gpos5_1) countMarkClasses() int {
+	for _, lig := range l.LigArray {
+		if len(lig) > 0 {
+			return len(lig[0])
+		}
+	}
+
+	var maxClass uint16
+	for _, rec := range l.MarkArray {
+		if rec.Class > maxClass {
+			maxClass = rec.Class
+		}
+	}
+	return int(maxClass) + 1
+}
+
+// ligAttachLen returns the encoded size of a LigatureAttach table.
+func ligAttachLen(lig [][]anchor.Table) int {
+	total := 2
+	for _, row := range lig {
+		for _, rec := range row {
+			total += 2
+			if !rec.IsEmpty() {
+				total += 6
+			}
+		}
+	}
+	return total
 }
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gpos5_1) encodeLen() int {
-	panic("not implemented")
+	total := 12
+	total += l.MarkCov.EncodeLen()
+	total += l.LigCov.EncodeLen()
+	total += 2 + (4+6)*len(l.MarkArray)
+	total += 2
+	for _, lig := range l.LigArray {
+		total += 2 + ligAttachLen(lig)
+	}
+	return total
+}
+
+// encode implements the [Subtable] interface.
+func (l *Gpos5_1) encode() []byte {
+	markCount := len(l.MarkArray)
+	markClassCount := l.countMarkClasses()
+	ligCount := len(l.LigArray)
+
+	total := 12
+	markCoverageOffset := total
+	total += l.MarkCov.EncodeLen()
+	ligCoverageOffset := total
+	total += l.LigCov.EncodeLen()
+	markArrayOffset := total
+	total += 2 + (4+6)*markCount
+	ligArrayOffset := total
+
+	res := make([]byte, 0, l.encodeLen())
+	res = append(res,
+		0, 1, // posFormat
+		byte(markCoverageOffset>>8), byte(markCoverageOffset),
+		byte(ligCoverageOffset>>8), byte(ligCoverageOffset),
+		byte(markClassCount>>8), byte(markClassCount),
+		byte(markArrayOffset>>8), byte(markArrayOffset),
+		byte(ligArrayOffset>>8), byte(ligArrayOffset),
+	)
+
+	res = append(res, l.MarkCov.Encode()...)
+	res = append(res, l.LigCov.Encode()...)
+
+	res = append(res,
+		byte(markCount>>8), byte(markCount),
+	)
+	offs := 2 + 4*markCount
+	for _, rec := range l.MarkArray {
+		res = append(res,
+			byte(rec.Class>>8), byte(rec.Class),
+			byte(offs>>8), byte(offs),
+		)
+		offs += 6
+	}
+	for _, rec := range l.MarkArray {
+		res = rec.Append(res)
+	}
+
+	res = append(res,
+		byte(ligCount>>8), byte(ligCount),
+	)
+	offs = 2 + 2*ligCount
+	for _, lig := range l.LigArray {
+		res = append(res, byte(offs>>8), byte(offs))
+		offs += ligAttachLen(lig)
+	}
+	for _, lig := range l.LigArray {
+		res = append(res, byte(len(lig)>>8), byte(len(lig)))
+		offs = 2 + 2*len(lig)*markClassCount
+		for _, row := range lig {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					res = append(res, 0, 0)
+					continue
+				}
+				res = append(res, byte(offs>>8), byte(offs))
+				offs += 6
+			}
+		}
+		for _, row := range lig {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					continue
+				}
+				res = rec.Append(res)
+			}
+		}
+	}
+
+	return res
 }
-- 
2.43.0


From 3741b302bb1a14dcf9781037bbd1f7e334e74e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 17/94] fix: GlyphWidth must not panic for glyphs outside the
 font

---
 font.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 95e0adb..1dffa4a 100644
--- a/font.go
+++ b/font.go
@@ -340,12 +340,17 @@ func (f *Font) GlyphBBoxes() []funit.Rect16 {
 
 // GlyphWidth returns the advance width of the glyph with the given glyph ID,
 // in font design units.
+//
+// The width of glyphs which are not present in the font is 0.
 func (f *Font) GlyphWidth(gid glyph.ID) float64 {
 	switch f := f.Outlines.(type) {
 	case *cff.Outlines:
+		if int(gid) >= len(f.Glyphs) {
+			return 0
+		}
 		return f.Glyphs[gid].Width
 	case *glyf.Outlines:
-		if f.Widths == nil {
+		if int(gid) >= len(f.Widths) {
 			return 0
 		}
 		return float64(f.Widths[gid])
-- 
2.43.0


From 651e11c79f85baf493779db1b52ec7c15d9b5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 18/94] fix: FindLookups must not depend on map iteration order

---
 opentype/gtab/lookup.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index bbcbfe0..b825cdb 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -17,7 +17,9 @@
 package gtab
 
 import (
+	"slices"
 	"sort"
+	"strings"
 
 	"golang.org/x/text/language"
 	"seehuhn.de/go/sfnt/parser"
@@ -580,8 +582,23 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	for tag := range info.ScriptList {
 		tags = append(tags, tag)
 	}
-	// TODO(voss): make sure a sensible default comes first.
+	// The matcher prefers tags which come first in the list, and falls back to
+	// the first tag if nothing matches.  Use a fixed order, with the default
+	// script first, so that the result does not depend on map iteration order.
+	// TODO(voss): is there a better choice of default?
 	//     Maybe this could be based on the number of features supported?
+	slices.SortFunc(tags, func(a, b language.Tag) int {
+		sa, sb := a.String(), b.String()
+		aIsDefault := strings.HasPrefix(sa, "und-Zzzz")
+		bIsDefault := strings.HasPrefix(sb, "und-Zzzz")
+		if aIsDefault != bIsDefault {
+			if aIsDefault {
+				return -1
+			}
+			return 1
+		}
+		return strings.Compare(sa, sb)
+	})
 
 	matcher := language.NewMatcher(tags)
 	_, index, _ := matcher.Match(lang)
-- 
2.43.0


From 9a897ac55db1d866ef355c8bf690efd81747c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 19/94] fix: CFF charstring operator mul must multiply its
 operands

---
 cff/t2decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 9792159..dc9caa9 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -465,7 +465,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] = float64(int64(stack[k]) * int64(stack[k+1]) >> 16)
+				stack[k] = fix(stack[k] * stack[k+1])
 				stack = stack[:k+1]
 			case t2sqrt:
 				k := len(stack) - 1
-- 
2.43.0


From a4bb70a7f731817fe55975d0d504bb2cc713516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 20/94] fix: CFF charstring operator flex1 must return to the
 start coordinate

---
 cff/t2decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index dc9caa9..bc9c4cc 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -300,11 +300,11 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 					if math.Abs(dx) > math.Abs(dy) {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							extra, 0)
+							extra, -dy)
 					} else {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							0, extra)
+							-dx, extra)
 					}
 					// fd = 0.5
 				}
-- 
2.43.0


From 6654e1c326f60d0855a20a590c060a6bbd642581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 21/94] fix: CFF charstring deltas can use the whole 16.16
 range

---
 cff/t2decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index bc9c4cc..d2ffaaa 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -645,12 +645,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 	return nil, errIncomplete
 }
 
-// Fix a float64 to a 16.16 fixed point number in the range [-32000, 32000].
+// Fix a float64 to a 16.16 fixed point number, in the range [-32768, 32768).
 func fix(x float64) float64 {
-	if x > 32000 {
-		return 32000
-	} else if x < -32000 {
-		return -32000
+	if x > 32768-1.0/65536 {
+		return 32768 - 1.0/65536
+	} else if x < -32768 {
+		return -32768
 	}
 	return math.Round(x*65536) / 65536
 }
-- 
2.43.0


From 8007305ab5a38b47d5ed0abd8a8622fb4983382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 22/94] fix: CFF charstring operator roll accepts a count of
 zero

---
 cff/t2decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index d2ffaaa..1717276 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -509,7 +509,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				}
 				n := int(stack[k])
 				j := int(stack[k+1])
-				if n <= 0 || n > k {
+				if n < 0 || n > k {
 					return nil, errors.New("invalid roll count")
 				}
 				roll(stack[k-n:k], j)
@@ -675,6 +675,9 @@ func getSubr(subrs cffIndex, biased int) ([]byte, error) {
 
 func roll(data []float64, j int) {
 	n := len(data)
+	if n == 0 {
+		return
+	}
 
 	j = j % n
 	if j < 0 {
-- 
2.43.0


From a30700ec1fee0b53623cacf2d2cc664bf210702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 23/94] fix: reject CFF charstrings where path operators lack
 operands

---
 cff/t2decode.go | 132 ++++++++++++++++++++++++++++++------------------
 1 file changed, 84 insertions(+), 48 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 1717276..3dd9737 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -170,26 +170,32 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			switch op {
 			case t2rmoveto:
 				setGlyphWidth(len(stack) > 2)
-				if len(stack) >= 2 {
-					rMoveTo(stack[0], stack[1])
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(stack[0], stack[1])
 				clearStack()
 
 			case t2hmoveto:
 				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(stack[0], 0)
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(stack[0], 0)
 				clearStack()
 
 			case t2vmoveto:
 				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(0, stack[0])
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(0, stack[0])
 				clearStack()
 
 			case t2rlineto:
+				if len(stack) < 2 || len(stack)%2 != 0 {
+					return nil, errStackUnderflow
+				}
 				pos := 0
 				for pos+1 < len(stack) {
 					rLineTo(stack[pos], stack[pos+1])
@@ -198,6 +204,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hlineto, t2vlineto:
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
+				}
 				horizontal := op == t2hlineto
 				for _, z := range stack {
 					if horizontal {
@@ -210,6 +219,20 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2rrcurveto, t2rcurveline, t2rlinecurve:
+				switch n := len(stack); op {
+				case t2rrcurveto:
+					if n < 6 || n%6 != 0 {
+						return nil, errStackUnderflow
+					}
+				case t2rcurveline:
+					if n < 8 || n%6 != 2 {
+						return nil, errStackUnderflow
+					}
+				case t2rlinecurve:
+					if n < 8 || n%2 != 0 {
+						return nil, errStackUnderflow
+					}
+				}
 				tmp := stack
 				for op == t2rlinecurve && len(tmp) >= 8 {
 					rLineTo(tmp[0], tmp[1])
@@ -227,6 +250,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hhcurveto:
+				if len(stack) < 4 || len(stack)%4 > 1 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dy1 float64
 				if len(tmp)%4 != 0 {
@@ -242,6 +268,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2vvcurveto:
+				if len(stack) < 4 || len(stack)%4 > 1 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				var dx1 float64
 				if len(tmp)%4 != 0 {
@@ -257,6 +286,9 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2hvcurveto, t2vhcurveto:
+				if len(stack) < 4 || len(stack)%4 > 1 {
+					return nil, errStackUnderflow
+				}
 				tmp := stack
 				horizontal := op == t2hvcurveto
 				for len(tmp) >= 4 {
@@ -279,58 +311,62 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				clearStack()
 
 			case t2flex:
-				if len(stack) >= 13 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], stack[5])
-					rCurveTo(stack[6], stack[7],
-						stack[8], stack[9],
-						stack[10], stack[11])
-					// fd = stack[12] / 100
+				if len(stack) < 13 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], stack[5])
+				rCurveTo(stack[6], stack[7],
+					stack[8], stack[9],
+					stack[10], stack[11])
+				// fd = stack[12] / 100
 				clearStack()
 			case t2flex1:
-				if len(stack) >= 11 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], stack[5])
-					extra := stack[10]
-					dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
-					dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
-					if math.Abs(dx) > math.Abs(dy) {
-						rCurveTo(stack[6], stack[7],
-							stack[8], stack[9],
-							extra, -dy)
-					} else {
-						rCurveTo(stack[6], stack[7],
-							stack[8], stack[9],
-							-dx, extra)
-					}
-					// fd = 0.5
+				if len(stack) < 11 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], stack[5])
+				extra := stack[10]
+				dx := stack[0] + stack[2] + stack[4] + stack[6] + stack[8]
+				dy := stack[1] + stack[3] + stack[5] + stack[7] + stack[9]
+				if math.Abs(dx) > math.Abs(dy) {
+					rCurveTo(stack[6], stack[7],
+						stack[8], stack[9],
+						extra, -dy)
+				} else {
+					rCurveTo(stack[6], stack[7],
+						stack[8], stack[9],
+						-dx, extra)
+				}
+				// fd = 0.5
 				clearStack()
 			case t2hflex:
-				if len(stack) >= 7 {
-					rCurveTo(stack[0], 0,
-						stack[1], stack[2],
-						stack[3], 0)
-					rCurveTo(stack[4], 0,
-						stack[5], -stack[2],
-						stack[6], 0)
-					// fd = 0.5
+				if len(stack) < 7 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], 0,
+					stack[1], stack[2],
+					stack[3], 0)
+				rCurveTo(stack[4], 0,
+					stack[5], -stack[2],
+					stack[6], 0)
+				// fd = 0.5
 				clearStack()
 			case t2hflex1:
-				if len(stack) >= 9 {
-					rCurveTo(stack[0], stack[1],
-						stack[2], stack[3],
-						stack[4], 0)
-					dy := stack[1] + stack[3] + stack[7]
-					rCurveTo(stack[5], 0,
-						stack[6], stack[7],
-						stack[8], -dy)
-					// fd = 0.5
+				if len(stack) < 9 {
+					return nil, errStackUnderflow
 				}
+				rCurveTo(stack[0], stack[1],
+					stack[2], stack[3],
+					stack[4], 0)
+				dy := stack[1] + stack[3] + stack[7]
+				rCurveTo(stack[5], 0,
+					stack[6], stack[7],
+					stack[8], -dy)
+				// fd = 0.5
 				clearStack()
 
 			case t2dotsection: // deprecated
-- 
2.43.0


From 9286b1f639ece2f415ee65a8e20e20b6bbdd698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 24/94] fix: rounding errors must not accumulate in CFF stem
 hints

---
 cff/t2encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index e803fd9..a524649 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -72,8 +72,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			stems = stems[2*k:]
 			prev := 0.0
 			for _, x := range chunk {
-				header = append(header, encodeNumber(x-prev).Code)
-				prev = x
+				delta := encodeNumber(x - prev)
+				header = append(header, delta.Code)
+				prev += delta.Val
 			}
 
 			canOmitVStem := (i == 1 &&
-- 
2.43.0


From 7de75e96b555c6af2eade61a420db0c0c26d92a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 25/94] fix: refuse to encode CFF charstring numbers outside
 the 16.16 range

---
 cff/t2encode.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index a524649..a38e1fb 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -33,6 +33,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	w := g.Width
 	if w != defaultWidth {
 		x := encodeNumber(w - nominalWidth)
+		if x.isOverflow(w - nominalWidth) {
+			return nil, errNumberRange
+		}
 		header = append(header, x.Code)
 	}
 
@@ -73,6 +76,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			prev := 0.0
 			for _, x := range chunk {
 				delta := encodeNumber(x - prev)
+				if delta.isOverflow(x - prev) {
+					return nil, errNumberRange
+				}
 				header = append(header, delta.Code)
 				prev += delta.Val
 			}
@@ -88,7 +94,10 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 		}
 	}
 
-	data := encodePaths(g.Cmds)
+	data, err := encodePaths(g.Cmds)
+	if err != nil {
+		return nil, err
+	}
 
 	k := 0
 	for _, b := range header {
@@ -108,10 +117,13 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	return code, nil
 }
 
-func encodePaths(commands []GlyphOp) [][]byte {
+func encodePaths(commands []GlyphOp) ([][]byte, error) {
 	var res [][]byte
 
-	cmds := encodeArgs(commands)
+	cmds, err := encodeArgs(commands)
+	if err != nil {
+		return nil, err
+	}
 
 	for len(cmds) > 0 {
 		switch cmds[0].Op {
@@ -149,12 +161,21 @@ func encodePaths(commands []GlyphOp) [][]byte {
 	}
 	res = append(res, t2endchar.Bytes())
 
-	return res
+	return res, nil
 }
 
-func encodeArgs(cmds []GlyphOp) []enCmd {
+func encodeArgs(cmds []GlyphOp) ([]enCmd, error) {
 	res := make([]enCmd, len(cmds))
 
+	overflow := false
+	encodeNumber := func(x float64) encodedNumber {
+		enc := encodeNumber(x)
+		if enc.isOverflow(x) {
+			overflow = true
+		}
+		return enc
+	}
+
 	var posX float64
 	var posY float64
 	for i, cmd := range cmds {
@@ -192,7 +213,10 @@ func encodeArgs(cmds []GlyphOp) []enCmd {
 			panic("unhandled command")
 		}
 	}
-	return res
+	if overflow {
+		return nil, errNumberRange
+	}
+	return res, nil
 }
 
 func encodeSubPath(cmds []enCmd) [][]byte {
@@ -480,6 +504,14 @@ type encodedNumber struct {
 	Code []byte
 }
 
+// isOverflow returns true if the number val, from which x was obtained,
+// cannot be represented in a Type 2 charstring.
+func (x encodedNumber) isOverflow(val float64) bool {
+	return !(math.Abs(x.Val-val) <= 1.0/65536)
+}
+
+var errNumberRange = errors.New("cff: number out of range for Type 2 charstring")
+
 func (x encodedNumber) String() string {
 	return fmt.Sprintf("%g (% x)", x.Val, x.Code)
 }
-- 
2.43.0


From 1ab14a208a81268b88060a0b5351a50b36db6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:18 +0000
Subject: [PATCH 26/94] fix: default and nominal CFF glyph widths must be
 exactly representable

---
 cff/write.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 8a83315..e9badc3 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -242,8 +242,6 @@ func (f *Font) selectWidths() (float64, float64) {
 	numGlyphs := int32(len(f.Glyphs))
 	if numGlyphs == 0 {
 		return 0, 0
-	} else if numGlyphs == 1 {
-		return f.Glyphs[0].Width, f.Glyphs[0].Width
 	}
 
 	widthHist := make(map[float64]int32)
@@ -251,7 +249,9 @@ func (f *Font) selectWidths() (float64, float64) {
 	var defaultWidth float64
 	for _, glyph := range f.Glyphs {
 		w := glyph.Width
-		if math.Abs(w) > 32767 {
+		if math.Abs(w) > 32767 || w != math.Trunc(w) {
+			// The private dict stores defaultWidth with limited precision,
+			// only integer values are guaranteed to be represented exactly.
 			continue
 		}
 		widthHist[w]++
@@ -278,12 +278,23 @@ func (f *Font) selectWidths() (float64, float64) {
 			maxWidth = w
 		}
 	}
-	nominalWidth := math.Round(sum / float64(numGlyphs))
+	if minWidth > maxWidth { // all glyphs have the default width
+		return defaultWidth, defaultWidth
+	}
+	nominalWidth := sum / float64(numGlyphs)
 	if nominalWidth < minWidth+107 {
 		nominalWidth = minWidth + 107
 	} else if nominalWidth > maxWidth-107 {
 		nominalWidth = maxWidth - 107
 	}
+	// Make sure that all differences fit into a 16.16 fixed point number.
+	if nominalWidth < maxWidth-32767 {
+		nominalWidth = maxWidth - 32767
+	} else if nominalWidth > minWidth+32767 {
+		nominalWidth = minWidth + 32767
+	}
+	// As for defaultWidth, we only use integer values.
+	nominalWidth = math.Round(nominalWidth)
 	return defaultWidth, nominalWidth
 }
 
-- 
2.43.0


From 8f2a6cd55ab62c179dea9d7c5925801c9e541cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:48 +0000
Subject: [PATCH 27/94] fix: cmap format 4 lookup returned BMP glyphs for
 supplementary characters

---
 cmap/format4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 21d841a..12bb5ec 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -96,6 +96,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 
 // Lookup implements the Subtable interface.
 func (cmap Format4) Lookup(r rune) glyph.ID {
+	if r < 0 || r > 0xFFFF {
+		return 0
+	}
 	return cmap[uint16(r)]
 }
 
-- 
2.43.0


From 1cce02fc88a9192ca38587bb723f389820562bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:50 +0000
Subject: [PATCH 28/94] fix: cmap format 4 decoder ignored idDelta in segments
 with glyph arrays

---
 cmap/format4.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmap/format4.go b/cmap/format4.go
index 12bb5ec..39a4f86 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -85,6 +85,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 			}
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(glyphIDArray[d+int(idx-start)])
+				if c != 0 {
+					c += glyph.ID(idDelta[k])
+				}
 				if c != 0 {
 					cmap[uint16(code2rune(int(idx)))] = c
 				}
-- 
2.43.0


From ef9986d2cf66e1e8da24b0c9d12c87b61a140027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 29/94] fix: cmap format 12 encoder let groups run past glyph
 65535

---
 cmap/format12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmap/format12.go b/cmap/format12.go
index 06f727b..37bb4ba 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -84,7 +84,7 @@ func (cmap Format12) Encode(language uint16) []byte {
 	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
 	segStart := 0
 	for i := 1; i < len(keys); i++ {
-		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 {
+		if keys[i] != keys[i-1]+1 || int(cmap[keys[i]]) != int(cmap[keys[i-1]])+1 {
 			ss = append(ss, format12segment{
 				StartCharCode: keys[segStart],
 				EndCharCode:   keys[i-1],
-- 
2.43.0


From f964fb162d0de5cf50f9892aafca67e238f1030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:53 +0000
Subject: [PATCH 30/94] fix: cmap format 0 subtables for Mac Roman were indexed
 by Unicode code point

---
 cmap/format0.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 765f596..f0e8757 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -26,15 +26,22 @@ import (
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/cmap#format-0-byte-encoding-table
 func decodeFormat0(data []byte, code2rune func(c int) rune) (Subtable, error) {
-	if code2rune == nil {
-		code2rune = unicode
-	}
-
 	data = data[6:]
 	if len(data) != 256 {
 		return nil, fmt.Errorf("cmap: format 0: expected 256 bytes, got %d", len(data))
 	}
 
+	if code2rune != nil {
+		// the character codes are not Unicode code points
+		res := Format4{}
+		for code, gid := range data {
+			if gid != 0 {
+				res[uint16(code2rune(code))] = glyph.ID(gid)
+			}
+		}
+		return res, nil
+	}
+
 	res := &Format0{}
 	copy(res.Data[:], data)
 
@@ -48,7 +55,7 @@ type Format0 struct {
 // Lookup returns the glyph index for the given rune.
 // If the rune is not found, Lookup returns 0 (corresponding to the ".notdef" glyph).
 func (cmap *Format0) Lookup(r rune) glyph.ID {
-	if r > 255 {
+	if r < 0 || r > 255 {
 		return 0
 	}
 	return glyph.ID(cmap.Data[r])
-- 
2.43.0


From 98292cfe62df6e29aaa0086a92a8dac731f5793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 31/94] fix: glyf: accept simple glyphs without contours,
 reject decreasing end points

---
 glyf/simple.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/glyf/simple.go b/glyf/simple.go
index c0dae8e..e3e3af6 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -48,15 +48,23 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 	buf := glyph.Encoded
 
 	numContours := int(glyph.NumContours)
-	if len(buf) < 2*numContours+2 {
+	if numContours == 0 && len(buf) < 2 {
+		// the instruction length may be omitted for glyphs without contours
+		return &GlyphInfo{}, nil
+	}
+	if numContours < 0 || len(buf) < 2*numContours+2 {
 		return nil, errInvalidGlyphData
 	}
 	endPtsOfContours := make([]uint16, numContours)
+	numPoints := 0
 	for i := 0; i < numContours; i++ {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
+		if int(endPtsOfContours[i]) < numPoints {
+			return nil, errInvalidGlyphData
+		}
+		numPoints = int(endPtsOfContours[i]) + 1
 	}
 	buf = buf[2*numContours:]
-	numPoints := int(endPtsOfContours[numContours-1]) + 1
 
 	instructionLength := int(buf[0])<<8 | int(buf[1])
 	if len(buf) < 2+instructionLength {
@@ -170,6 +178,11 @@ func (glyph *SimpleGlyph) removePadding() error {
 	buf := glyph.Encoded
 
 	numContours := int(glyph.NumContours)
+	if numContours == 0 && len(buf) < 2 {
+		// the instruction length may be omitted for glyphs without contours
+		glyph.Encoded = nil
+		return nil
+	}
 	if len(buf) < 2*numContours+2 {
 		return errInvalidGlyphData
 	}
-- 
2.43.0


From 2e021f0fd502f5aeaa057f1cdea7038125c48cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:32 +0000
Subject: [PATCH 32/94] fix: sfnt.Read: accept TrueType fonts with an empty
 glyf table

---
 read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index eff0cae..d3d573b 100644
--- a/read.go
+++ b/read.go
@@ -74,7 +74,9 @@ func Read(r io.Reader) (*Font, error) {
 		return nil, fmt.Errorf("sfnt header: %w", err)
 	}
 
-	if !(dir.Has("glyf", "loca") || dir.Has("CFF ")) {
+	// the "glyf" table may be empty, in case all glyphs are blank
+	_, hasGlyf := dir.Toc["glyf"]
+	if !(hasGlyf && dir.Has("loca") || dir.Has("CFF ")) {
 		if dir.Has("CFF2") {
 			return nil, &parser.NotSupportedError{
 				SubSystem: "sfnt",
-- 
2.43.0


From e61442f28570ffc91e8268dc186d05f41352c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 33/94] fix: header.Write: count only the tables written, allow
 any head table length, agree with Read on the number of tables

---
 header/tables.go | 28 ++++++++++++++++++----------
 header/write.go  | 16 +++++++++++-----
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index 8ae0c9e..f94f283 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -72,12 +72,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 			Feature:   fmt.Sprintf("scaler type 0x%08x", scalerType),
 		}
 	}
-	if numTables > 280 {
-		// the largest value observed amongst the fonts on my laptop is 28
-		return nil, &parser.InvalidFontError{
-			SubSystem: "sfnt/header",
-			Reason:    "too many tables",
-		}
+	if numTables > maxTables {
+		return nil, errTooManyTables
 	}
 
 	h := &Info{
@@ -122,10 +118,7 @@ func Read(r io.ReaderAt) (*Info, error) {
 		})
 	}
 	if len(h.Toc) == 0 {
-		return nil, &parser.InvalidFontError{
-			SubSystem: "sfnt/header",
-			Reason:    "no tables",
-		}
+		return nil, errNoTables
 	}
 
 	// perform some sanity checks
@@ -162,6 +155,21 @@ func Read(r io.ReaderAt) (*Info, error) {
 	return h, nil
 }
 
+// maxTables is the maximal number of tables for which the search range in the
+// file header can be represented.
+const maxTables = 1<<12 - 1
+
+var (
+	errNoTables = &parser.InvalidFontError{
+		SubSystem: "sfnt/header",
+		Reason:    "no tables",
+	}
+	errTooManyTables = &parser.InvalidFontError{
+		SubSystem: "sfnt/header",
+		Reason:    "too many tables",
+	}
+)
+
 // Has returns true if all of the given tables are present in the font,
 // and none of them are empty.
 func (h *Info) Has(tableNames ...string) bool {
diff --git a/header/write.go b/header/write.go
index e46b5e3..3e0a071 100644
--- a/header/write.go
+++ b/header/write.go
@@ -29,14 +29,18 @@ import (
 // to write a table with no data.
 // This changes the checksum in the "head" table in place.
 func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, error) {
-	numTables := len(tables)
-
-	tableNames := make([]string, 0, numTables)
+	tableNames := make([]string, 0, len(tables))
 	for name, data := range tables {
 		if data != nil && len(name) == 4 {
 			tableNames = append(tableNames, name)
 		}
 	}
+	numTables := len(tableNames)
+	if numTables == 0 {
+		return 0, errNoTables
+	} else if numTables > maxTables {
+		return 0, errTooManyTables
+	}
 
 	// sort the table names in the recommended order
 	sort.Slice(tableNames, func(i, j int) bool {
@@ -59,7 +63,9 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	}
 
 	// temporarily clear the checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	headData := tables["head"]
+	hasChecksum := len(headData) >= 12
+	if hasChecksum {
 		clearChecksum(headData)
 	}
 
@@ -90,7 +96,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	totalSum += checksum(headerBytes)
 
 	// set the final checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	if hasChecksum {
 		patchChecksum(headData, totalSum)
 	}
 
-- 
2.43.0


From eb5f0469c5f75e93d0681654def6f4be47cf9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 34/94] fix: header.Read: table extents could wrap around

---
 header/tables.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index f94f283..0e0e285 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -81,8 +81,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 		Toc:        make(map[string]Record, numTables),
 	}
 	type alloc struct {
-		Start uint32
-		End   uint32
+		Start uint64
+		End   uint64
 	}
 	var coverage []alloc
 	for i := 0; i < numTables; i++ {
@@ -113,8 +113,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 			Length: length,
 		}
 		coverage = append(coverage, alloc{
-			Start: offset,
-			End:   offset + length,
+			Start: uint64(offset),
+			End:   uint64(offset) + uint64(length),
 		})
 	}
 	if len(h.Toc) == 0 {
-- 
2.43.0


From 06e2850726a1c2ae7658c800f03a52bb6b4842f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:41 +0000
Subject: [PATCH 35/94] fix: cff: font matrices with integer entries were
 ignored

---
 cff/dict.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 76c3194..e025c14 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -407,14 +407,17 @@ func (d cffDict) getFontMatrix(op dictOp, isCIDKeyed bool) (res matrix.Matrix) {
 	}
 
 	for i, x := range xx {
-		xi, ok := x.(float64)
-		if !ok {
+		switch x := x.(type) {
+		case int32:
+			res[i] = float64(x)
+		case float64:
+			res[i] = x
+		default:
 			if isCIDKeyed {
 				return matrix.Identity
 			}
 			return defaultFontMatrix
 		}
-		res[i] = xi
 	}
 
 	return res
-- 
2.43.0


From 53dd30514498ee589a1256d37c37466e0777dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:43 +0000
Subject: [PATCH 36/94] fix: cff: font matrices and BlueScale values close to
 the default were lost

---
 cff/dict.go | 17 ++++-------------
 cff/font.go |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index e025c14..bd4dbe0 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -438,20 +438,11 @@ func (d cffDict) setDeltaF16(op dictOp, val []funit.Int16) {
 }
 
 func (d cffDict) setFontMatrix(op dictOp, fm matrix.Matrix, isCIDKeyed bool) {
-	needed := false
-	for i, xi := range fm {
-		var def float64
-		if isCIDKeyed {
-			def = matrix.Identity[i]
-		} else {
-			def = defaultFontMatrix[i]
-		}
-		if math.Abs(xi-def) > 1e-5 {
-			needed = true
-			break
-		}
+	def := defaultFontMatrix
+	if isCIDKeyed {
+		def = matrix.Identity
 	}
-	if !needed {
+	if fm == def {
 		return
 	}
 
diff --git a/cff/font.go b/cff/font.go
index 3b4cf17..83b9836 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -130,7 +130,7 @@ func (f *Font) makePrivateDict(idx int, defaultWidth, nominalWidth float64) cffD
 
 	privateDict.setDeltaF16(opBlueValues, private.BlueValues)
 	privateDict.setDeltaF16(opOtherBlues, private.OtherBlues)
-	if math.Abs(private.BlueScale-defaultBlueScale) > 1e-6 {
+	if private.BlueScale != defaultBlueScale {
 		privateDict[opBlueScale] = []interface{}{private.BlueScale}
 	}
 	if private.BlueShift != defaultBlueShift {
-- 
2.43.0


From 522183ecdfa7fce8053d6025d075d646f615e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:45 +0000
Subject: [PATCH 37/94] fix: cff: fractional underline positions and
 thicknesses were truncated

---
 cff/dict.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index bd4dbe0..b3db0fb 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -472,6 +472,14 @@ func (d cffDict) sortedKeys() []dictOp {
 	return keys
 }
 
+// dictNumber returns the most compact representation of x for use in a DICT.
+func dictNumber(x float64) interface{} {
+	if x == math.Trunc(x) && math.Abs(x) < 1<<31 {
+		return int32(x)
+	}
+	return x
+}
+
 func makeTopDict(info *type1.FontInfo) cffDict {
 	topDict := cffDict{}
 	if info.Version != "" {
@@ -499,10 +507,10 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 		topDict[opItalicAngle] = []interface{}{info.ItalicAngle}
 	}
 	if info.UnderlinePosition != defaultUnderlinePosition {
-		topDict[opUnderlinePosition] = []interface{}{int32(info.UnderlinePosition)}
+		topDict[opUnderlinePosition] = []interface{}{dictNumber(float64(info.UnderlinePosition))}
 	}
 	if info.UnderlineThickness != defaultUnderlineThickness {
-		topDict[opUnderlineThickness] = []interface{}{int32(info.UnderlineThickness)}
+		topDict[opUnderlineThickness] = []interface{}{dictNumber(float64(info.UnderlineThickness))}
 	}
 	// if info.IsOutlined {
 	// 	topDict[opPaintType] = []interface{}{int32(2)} // per font
-- 
2.43.0


From 8cd485b33988f0ad485a04547184d54eec4cfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 38/94] fix: cff: differences between blue values could
 overflow

---
 cff/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index b3db0fb..4d9b0ad 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -431,7 +431,7 @@ func (d cffDict) setDeltaF16(op dictOp, val []funit.Int16) {
 	res := make([]interface{}, len(val))
 	var prev funit.Int16
 	for i, x := range val {
-		res[i] = int32(x - prev)
+		res[i] = int32(x) - int32(prev)
 		prev = x
 	}
 	d[op] = res
-- 
2.43.0


From e194fb5c44ca98f6b7180c91e4d75fcc28f067ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:47 +0000
Subject: [PATCH 39/94] fix: cff: small italic angles lost precision when read

---
 cff/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 53da4bf..4bffd78 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -328,6 +328,9 @@ func fdSelectSimple(git glyph.ID) int {
 }
 
 func normaliseAngle(x float64) float64 {
+	if x >= -180 && x < 180 {
+		return x
+	}
 	y := math.Mod(x+180, 360)
 	if y < 0 {
 		y += 360
-- 
2.43.0


From 0667c97552c00e0beafa47d0c3c3f272e0dbcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:54 +0000
Subject: [PATCH 40/94] fix: cff: refuse to write fonts with too many glyphs or
 glyph names

---
 cff/write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cff/write.go b/cff/write.go
index e9badc3..9cfe201 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -24,6 +24,9 @@ import (
 
 // Write writes the binary form of a CFF font.
 func (f *Font) Write(w io.Writer) error {
+	if len(f.Glyphs) > 0xFFFF {
+		return invalidSince("too many glyphs")
+	}
 	numGlyphs := uint16(len(f.Glyphs))
 
 	// TODO(voss): this should be done per private dict.
@@ -86,6 +89,9 @@ func (f *Font) Write(w io.Writer) error {
 		for i := uint16(0); i < numGlyphs; i++ {
 			glyphNames[i] = strings.lookup(f.Glyphs[i].Name)
 		}
+		if len(strings.data) > 0x10000-int(nStdString) {
+			return invalidSince("too many strings")
+		}
 
 		if len(f.Encoding) == 0 || isStandardEncoding(f.Encoding, f.Glyphs) {
 			// topDict[opEncoding] = []interface{}{int32(0)}
-- 
2.43.0


From 24285a1f1eefae2571364b8225f03d305dbeff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:59 +0000
Subject: [PATCH 41/94] fix: cff: real numbers of very large and very small
 magnitude were changed

---
 cff/dict.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 4d9b0ad..6147bd7 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"sort"
 	"strconv"
+	"strings"
 
 	"seehuhn.de/go/geom/matrix"
 	"seehuhn.de/go/postscript/funit"
@@ -226,12 +227,10 @@ func decodeFloat(buf []byte) ([]byte, float64, error) {
 		case 0xf:
 			x, err := strconv.ParseFloat(string(s), 64)
 			switch {
-			case x > 1e300:
-				x = 1e300
-			case x > -1e-300 && x < 1e-300:
-				x = 0
-			case x < -1e300:
-				x = -1e300
+			case math.IsInf(x, +1):
+				x, err = math.MaxFloat64, nil
+			case math.IsInf(x, -1):
+				x, err = -math.MaxFloat64, nil
 			}
 			return buf, x, err
 		default:
@@ -253,16 +252,16 @@ func encodeFloat(x float64) []byte {
 
 	const numDigits = 9
 
-	l := int(math.Floor(math.Log10(x))) + 1
-	i := int(math.Round(x / math.Pow10(l-numDigits)))
-	if i < 100_000_000 {
-		l--
-		i *= 10
-	} else if i > 999_999_999 {
-		l++
-		i /= 10
+	s := strconv.FormatFloat(x, 'e', -1, 64)
+	if strings.IndexByte(s, 'e') > numDigits+1 {
+		s = strconv.FormatFloat(x, 'e', numDigits-1, 64)
 	}
-	// now i contains all the digits
+	mant, exp, _ := strings.Cut(s, "e")
+	mant = strings.Replace(mant, ".", "", 1)
+	i, _ := strconv.Atoi(mant)
+	l, _ := strconv.Atoi(exp)
+	l++
+	// now i contains all the digits, and the first digit has value 10^(l-1)
 
 	// remove trailing zeros
 	for i%10 == 0 {
-- 
2.43.0


From 8998b8e73b51c924ecddc38f317b4d6c374b606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 42/94] fix: hhea side bearings and extents must use the left
 side bearings

---
 hmtx/hmtx.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index ec247c7..647fa91 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -195,7 +195,8 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 			if ext.IsZero() {
 				continue
 			}
-			rsb := info.Widths[i] - ext.URx
+			// rsb = aw - (lsb + xMax - xMin)
+			rsb := clamp16(int(info.Widths[i]) - (int(lsbs[i]) + int(ext.URx) - int(ext.LLx)))
 			if first || rsb < hhea.MinRightSideBearing {
 				hhea.MinRightSideBearing = rsb
 			}
@@ -205,12 +206,14 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 	if info.GlyphExtents != nil {
 		first = true
-		for _, ext := range info.GlyphExtents {
+		for i, ext := range info.GlyphExtents {
 			if ext.IsZero() {
 				continue
 			}
-			if first || ext.URx > hhea.XMaxExtent {
-				hhea.XMaxExtent = ext.URx
+			// extent = lsb + (xMax - xMin)
+			extent := clamp16(int(lsbs[i]) + int(ext.URx) - int(ext.LLx))
+			if first || extent > hhea.XMaxExtent {
+				hhea.XMaxExtent = extent
 			}
 			first = false
 		}
@@ -255,6 +258,10 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 const hheaLength = 36
 
+func clamp16(x int) funit.Int16 {
+	return funit.Int16(max(math.MinInt16, min(math.MaxInt16, x)))
+}
+
 func toAngle(rise, run int16) float64 {
 	// slope = rise / run (rise = 1, run = 0 for vertical)
 	// angle = 0 for vertical, angle<0 for italic
-- 
2.43.0


From 6d6e577c28c3280dcafd872d9714c49cb087f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 43/94] fix: caret slopes close to horizontal could be reversed

---
 hmtx/hmtx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index 647fa91..a51dfae 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -292,7 +292,7 @@ func fromAngle(caretAngle float64) (rise, run int16) {
 		return -1, 0
 	}
 	rise0, run0 := bestRationalApproximation(s/c, 32767)
-	if s*float64(rise0) < 0 {
+	if s*float64(rise0) < 0 || rise0 == 0 && c*float64(run0) < 0 {
 		rise0, run0 = -rise0, -run0
 	}
 	return int16(rise0), int16(run0)
-- 
2.43.0


From 11ed5bf6947eeaac8e9ebf56af06f4c0f7472e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:37 +0000
Subject: [PATCH 44/94] fix: WidthsPDF ignored the matrices of the font
 dictionaries

---
 cff/font.go | 5 ++---
 font.go     | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/cff/font.go b/cff/font.go
index 83b9836..fcd53df 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -76,9 +76,8 @@ func (f *Font) Widths() []float64 {
 // in PDF glyph space units (1/1000th of a text space unit).
 func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
-	q := f.FontMatrix[0] * 1000
-	for gid, glyph := range f.Glyphs {
-		widths[gid] = glyph.Width * q
+	for gid := range f.Glyphs {
+		widths[gid] = f.GlyphWidthPDF(glyph.ID(gid))
 	}
 	return widths
 }
diff --git a/font.go b/font.go
index 1dffa4a..a14f269 100644
--- a/font.go
+++ b/font.go
@@ -278,8 +278,8 @@ func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
 	switch outlines := f.Outlines.(type) {
 	case *cff.Outlines:
-		for gid, g := range outlines.Glyphs {
-			widths[gid] = g.Width * f.FontMatrix[0]
+		for gid := range outlines.Glyphs {
+			widths[gid] = f.GlyphWidthPDF(glyph.ID(gid)) / 1000
 		}
 		return widths
 	case *glyf.Outlines:
-- 
2.43.0


From 0aae2ef2838fd923ed13f87be0635782268de6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:50 +0000
Subject: [PATCH 45/94] fix: cff: glyph bounding boxes ignored the extrema of
 curves

---
 cff/glyph.go    | 91 +++++++++++++++++++++++++++++++++++--------------
 cff/outlines.go | 34 +-----------------
 2 files changed, 67 insertions(+), 58 deletions(-)

diff --git a/cff/glyph.go b/cff/glyph.go
index 2b0fda4..e24ba6f 100644
--- a/cff/glyph.go
+++ b/cff/glyph.go
@@ -21,6 +21,9 @@ import (
 	"math"
 	"strings"
 
+	"seehuhn.de/go/geom/matrix"
+	"seehuhn.de/go/geom/rect"
+
 	"seehuhn.de/go/postscript/funit"
 )
 
@@ -79,41 +82,79 @@ func (g *Glyph) CurveTo(x1, y1, x2, y2, x3, y3 float64) {
 
 // Extent computes the Glyph extent in font design units
 func (g *Glyph) Extent() funit.Rect16 {
-	var left, right, top, bottom float64
+	bbox := g.bbox(matrix.Identity)
+	return funit.Rect16{
+		LLx: funit.Int16(math.Floor(bbox.LLx)),
+		LLy: funit.Int16(math.Floor(bbox.LLy)),
+		URx: funit.Int16(math.Ceil(bbox.URx)),
+		URy: funit.Int16(math.Ceil(bbox.URy)),
+	}
+}
+
+// bbox computes the bounding box of the glyph outline after the
+// transformation M is applied.
+func (g *Glyph) bbox(M matrix.Matrix) (bbox rect.Rect) {
 	first := true
-cmdLoop:
+	var x0, y0 float64 // current point, after transformation
 	for _, cmd := range g.Cmds {
-		var x, y float64
 		switch cmd.Op {
 		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
+			x, y := M.Apply(cmd.Args[0], cmd.Args[1])
+			if first {
+				bbox = rect.Rect{LLx: x, LLy: y, URx: x, URy: y}
+				first = false
+			}
+			bbox.LLx, bbox.URx = min(bbox.LLx, x), max(bbox.URx, x)
+			bbox.LLy, bbox.URy = min(bbox.LLy, y), max(bbox.URy, y)
+			x0, y0 = x, y
 		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-		if first || x < left {
-			left = x
+			x1, y1 := M.Apply(cmd.Args[0], cmd.Args[1])
+			x2, y2 := M.Apply(cmd.Args[2], cmd.Args[3])
+			x3, y3 := M.Apply(cmd.Args[4], cmd.Args[5])
+			if first {
+				bbox = rect.Rect{LLx: x3, LLy: y3, URx: x3, URy: y3}
+				first = false
+			}
+			lo, hi := bezierRange(x0, x1, x2, x3)
+			bbox.LLx, bbox.URx = min(bbox.LLx, lo), max(bbox.URx, hi)
+			lo, hi = bezierRange(y0, y1, y2, y3)
+			bbox.LLy, bbox.URy = min(bbox.LLy, lo), max(bbox.URy, hi)
+			x0, y0 = x3, y3
 		}
-		if first || x > right {
-			right = x
+	}
+	return bbox
+}
+
+// bezierRange returns the range of values which one coordinate of a cubic
+// Bezier curve takes.
+func bezierRange(p0, p1, p2, p3 float64) (lo, hi float64) {
+	lo, hi = min(p0, p3), max(p0, p3)
+	if lo <= min(p1, p2) && max(p1, p2) <= hi {
+		return lo, hi
+	}
+
+	// The derivative is 3*(a*t^2 + 2*b*t + c).
+	a := p3 - 3*p2 + 3*p1 - p0
+	b := p2 - 2*p1 + p0
+	c := p1 - p0
+
+	check := func(t float64) {
+		if t > 0 && t < 1 {
+			s := 1 - t
+			p := s*s*s*p0 + 3*s*s*t*p1 + 3*s*t*t*p2 + t*t*t*p3
+			lo, hi = min(lo, p), max(hi, p)
 		}
-		if first || y < bottom {
-			bottom = y
+	}
+	if d := b*b - a*c; d >= 0 {
+		q := -(b + math.Copysign(math.Sqrt(d), b))
+		if a != 0 {
+			check(q / a)
 		}
-		if first || y > top {
-			top = y
+		if q != 0 {
+			check(c / q)
 		}
-		first = false
-	}
-	return funit.Rect16{
-		LLx: funit.Int16(math.Floor(left)),
-		LLy: funit.Int16(math.Floor(bottom)),
-		URx: funit.Int16(math.Ceil(right)),
-		URy: funit.Int16(math.Ceil(top)),
 	}
+	return lo, hi
 }
 
 // GlyphOp is a CFF glyph drawing command.
diff --git a/cff/outlines.go b/cff/outlines.go
index 24af24e..b272370 100644
--- a/cff/outlines.go
+++ b/cff/outlines.go
@@ -138,37 +138,5 @@ func (o *Outlines) GlyphBBoxPDF(fm matrix.Matrix, gid glyph.ID) (bbox rect.Rect)
 	}
 	M = M.Mul(matrix.Scale(1000, 1000))
 
-	first := true
-cmdLoop:
-	for _, cmd := range g.Cmds {
-		var x, y float64
-		switch cmd.Op {
-		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
-		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-
-		x, y = M.Apply(x, y)
-
-		if first || x < bbox.LLx {
-			bbox.LLx = x
-		}
-		if first || x > bbox.URx {
-			bbox.URx = x
-		}
-		if first || y < bbox.LLy {
-			bbox.LLy = y
-		}
-		if first || y > bbox.URy {
-			bbox.URy = y
-		}
-		first = false
-	}
-
-	return bbox
+	return g.bbox(M)
 }
-- 
2.43.0


From 861c667e5fbde775b8246d023a8e0d22036797d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 46/94] fix: short writes without an error were not noticed
 when writing fonts

---
 cff/write.go    |  4 +++-
 header/write.go | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 9cfe201..c8fe408 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -235,9 +235,11 @@ func (f *Font) Write(w io.Writer) error {
 	}
 
 	for i := 0; i < numSections; i++ {
-		_, err = w.Write(blobs[i])
+		n, err := w.Write(blobs[i])
 		if err != nil {
 			return err
+		} else if n < len(blobs[i]) {
+			return io.ErrShortWrite
 		}
 	}
 
diff --git a/header/write.go b/header/write.go
index 3e0a071..a06c8c9 100644
--- a/header/write.go
+++ b/header/write.go
@@ -102,7 +102,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 
 	// write the tables
 	var totalSize int64
-	n, err := w.Write(headerBytes)
+	n, err := writeAll(w, headerBytes)
 	totalSize += int64(n)
 	if err != nil {
 		return totalSize, err
@@ -110,13 +110,13 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	var pad [3]byte
 	for _, name := range tableNames {
 		body := tables[name]
-		n, err := w.Write(body)
+		n, err := writeAll(w, body)
 		totalSize += int64(n)
 		if err != nil {
 			return totalSize, err
 		}
 		if k := n % 4; k != 0 {
-			l, err := w.Write(pad[:4-k])
+			l, err := writeAll(w, pad[:4-k])
 			totalSize += int64(l)
 			if err != nil {
 				return totalSize, err
@@ -126,6 +126,16 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	return totalSize, nil
 }
 
+// writeAll writes data to w.  Short writes are reported as errors, even if w
+// fails to do so.
+func writeAll(w io.Writer, data []byte) (int, error) {
+	n, err := w.Write(data)
+	if err == nil && n < len(data) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
+
 // clearChecksum zeros the checksum field of the head table.
 func clearChecksum(head []byte) {
 	binary.BigEndian.PutUint32(head[8:12], 0)
-- 
2.43.0


From 6eb3fe692adac33d57d1d8aa5de099e0b48c7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:50 +0000
Subject: [PATCH 47/94] fix: two Windows language ids were mapped to the wrong
 language tags

---
 name/locale.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/name/locale.go b/name/locale.go
index 51ba707..a30e4aa 100644
--- a/name/locale.go
+++ b/name/locale.go
@@ -154,7 +154,7 @@ var msBCP = map[uint16]string{
 	0x3401: "ar-KW",       // Arabic, Kuwait
 	0x3001: "ar-LB",       // Arabic, Lebanon
 	0x1001: "ar-LY",       // Arabic, Libya
-	0x1801: "ar-MO",       // Arabic, Morocco
+	0x1801: "ar-MA",       // Arabic, Morocco
 	0x2001: "ar-OM",       // Arabic, Oman
 	0x4001: "ar-QA",       // Arabic, Qatar
 	0x0401: "ar-SA",       // Arabic, Saudi Arabia
@@ -319,7 +319,6 @@ var msBCP = map[uint16]string{
 	0x280a: "es-PE",       // Spanish, Peru
 	0x500a: "es-PR",       // Spanish, Puerto Rico
 	0x0c0a: "es-ES",       // Spanish (Modern Sort), Spain
-	0x040a: "es-ES",       // Spanish (Traditional Sort), Spain
 	0x540a: "es-US",       // Spanish, United States
 	0x380a: "es-UY",       // Spanish, Uruguay
 	0x200a: "es-VE",       // Spanish, Venezuela
@@ -347,4 +346,6 @@ var msBCP = map[uint16]string{
 	0x0485: "sah-RU",      // Yakut, Russia
 	0x0478: "ii-CN",       // Yi, PRC
 	0x046a: "yo-NG",       // Yoruba, Nigeria
+
+	0x040a: "es-ES-u-co-trad", // Spanish (Traditional Sort), Spain
 }
-- 
2.43.0


From 7859ce540a00468f8b9efa9aba10e8794fb7c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:52 +0000
Subject: [PATCH 48/94] fix: the name table was encoded in random order, and
 string offsets could overflow

---
 name/name.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/name/name.go b/name/name.go
index 6515f8c..01ff2e7 100644
--- a/name/name.go
+++ b/name/name.go
@@ -20,6 +20,7 @@
 package name
 
 import (
+	"slices"
 	"sort"
 	"unicode/utf16"
 
@@ -148,13 +149,11 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 		EncodingID uint16
 		LanguageID uint16
 		NameID     uint16
+		data       []byte
 		offset     uint16
-		length     uint16
 	}
 	var records []*recInfo
 
-	b := newNameBuilder()
-
 	// platform ID 1 (Macintosh)
 	for languageID, tag := range appleBCP {
 		t := info.Mac[tag]
@@ -163,14 +162,12 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 		}
 		for _, nameID := range t.keys() {
 			val := t.get(nameID)
-			offset, length := b.Add(mac.Encode(val))
 			rec := &recInfo{
 				PlatformID: 1, // Macintosh
 				EncodingID: 0, // Roman
 				LanguageID: languageID,
 				NameID:     uint16(nameID),
-				offset:     offset,
-				length:     length,
+				data:       mac.Encode(val),
 			}
 			records = append(records, rec)
 		}
@@ -187,14 +184,12 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 		for _, nameID := range t.keys() {
 			val := t.get(nameID)
 			// TODO(voss): implement support for different encodings
-			offset, length := b.Add(utf16Encode(val))
 			rec := &recInfo{
 				PlatformID: 3, // Windows
 				EncodingID: windowsEncodingID,
 				LanguageID: languageID,
 				NameID:     uint16(nameID),
-				offset:     offset,
-				length:     length,
+				data:       utf16Encode(val),
 			}
 			records = append(records, rec)
 		}
@@ -213,6 +208,16 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 		return records[i].NameID < records[j].NameID
 	})
 
+	// Add short strings first, to keep the 16-bit offsets small.
+	b := newNameBuilder()
+	byLength := slices.Clone(records)
+	sort.SliceStable(byLength, func(i, j int) bool {
+		return len(byLength[i].data) < len(byLength[j].data)
+	})
+	for _, rec := range byLength {
+		rec.offset = b.Add(rec.data)
+	}
+
 	numRec := len(records)
 	startOfRecords := 6
 	startOfStrings := startOfRecords + numRec*12
@@ -233,8 +238,8 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 		res[base+5] = byte(rec.LanguageID)
 		res[base+6] = byte(rec.NameID >> 8)
 		res[base+7] = byte(rec.NameID)
-		res[base+8] = byte(rec.length >> 8)
-		res[base+9] = byte(rec.length)
+		res[base+8] = byte(len(rec.data) >> 8)
+		res[base+9] = byte(len(rec.data))
 		res[base+10] = byte(rec.offset >> 8)
 		res[base+11] = byte(rec.offset)
 	}
@@ -254,15 +259,15 @@ func newNameBuilder() *nameBuilder {
 	}
 }
 
-func (nb *nameBuilder) Add(b []byte) (offs, length uint16) {
+func (nb *nameBuilder) Add(b []byte) uint16 {
 	key := string(b)
 	if idx, ok := nb.idx[key]; ok {
-		return idx, uint16(len(b))
+		return idx
 	}
 	idx := uint16(len(nb.data))
 	nb.idx[key] = idx
 	nb.data = append(nb.data, b...)
-	return idx, uint16(len(b))
+	return idx
 }
 
 func utf16Encode(s string) []byte {
-- 
2.43.0


From 4cf61a3840861a34d22f3d0904e2b878c218f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:55 +0000
Subject: [PATCH 49/94] fix: glyph names which do not fit the post table
 corrupted other names

---
 post/names.go | 21 +++++++++++++++++++++
 post/post.go  |  7 +++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/post/names.go b/post/names.go
index 669d511..fb302f9 100644
--- a/post/names.go
+++ b/post/names.go
@@ -16,6 +16,8 @@
 
 package post
 
+import "math"
+
 func isMacRoman(names []string) bool {
 	if len(names) != len(macRoman) {
 		return false
@@ -28,6 +30,25 @@ func isMacRoman(names []string) bool {
 	return true
 }
 
+// canEncode returns true if the glyph names can be represented in the "post"
+// table.
+func canEncode(names []string) bool {
+	if len(names) > math.MaxUint16 {
+		return false
+	}
+	seen := make(map[string]bool, len(macRoman)+len(names))
+	for _, name := range macRoman {
+		seen[name] = true
+	}
+	for _, name := range names {
+		if len(name) > math.MaxUint8 {
+			return false
+		}
+		seen[name] = true
+	}
+	return len(seen) <= math.MaxUint16+1
+}
+
 // TODO(voss): this seems to be duplicated at least two times:
 //    mac/encoding.go
 //    post/names.go
diff --git a/post/post.go b/post/post.go
index b042a68..f96c56f 100644
--- a/post/post.go
+++ b/post/post.go
@@ -114,7 +114,7 @@ func Read(r parser.ReadSeekSizer) (*Info, error) {
 // Encode encodes the "post" table.
 func (info *Info) Encode() []byte {
 	var version uint32
-	if info.Names == nil {
+	if info.Names == nil || !canEncode(info.Names) {
 		version = 0x00030000
 	} else if isMacRoman(info.Names) {
 		version = 0x00010000
@@ -143,15 +143,14 @@ func (info *Info) Encode() []byte {
 			mac[name] = i
 		}
 		var stringData []byte
-		numStrings := 0
 
 		for _, name := range info.Names {
 			idx, ok := mac[name]
 			if !ok {
-				idx = len(macRoman) + numStrings
+				idx = len(mac)
+				mac[name] = idx
 				stringData = append(stringData, byte(len(name)))
 				stringData = append(stringData, name...)
-				numStrings++
 			}
 			buf.Write([]byte{byte(idx >> 8), byte(idx)})
 		}
-- 
2.43.0


From 347b2503c4ad1cb4527deeb1dad4a5ef51f79d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:10 +0000
Subject: [PATCH 50/94] fix: language systems for the scripts lao, nko, vai and
 yi were dropped

---
 opentype/gtab/locale.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 01b5e93..c7ee35f 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -41,7 +41,7 @@ func otfToBCP47(script otfScript, lang otfLang) (language.Tag, error) {
 		tag += "-" + bcpScript
 	}
 
-	tag += "-x-" + string(script)
+	tag += "-x-" + strings.TrimRight(string(script), " ")
 	for len(lang) > 0 && lang[len(lang)-1] == ' ' {
 		lang = lang[:len(lang)-1]
 	}
@@ -66,6 +66,9 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		if script == "dflt" {
 			script = "DFLT"
 		}
+		for len(script) < 4 {
+			script += " "
+		}
 		if len(m) > 2 {
 			lang = strings.ToUpper(m[2])
 			for len(lang) < 4 {
-- 
2.43.0


From 9316ccf76bb7fc75fd11bca044514d0c2ed2fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:12 +0000
Subject: [PATCH 51/94] fix: unused entries in feature index lists activated
 the first feature

---
 opentype/gtab/scriptlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 51de9bc..94964bb 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -188,7 +188,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		}
 	}
 
-	featureIndices := make([]FeatureIndex, featureIndexCount)
+	featureIndices := make([]FeatureIndex, 0, featureIndexCount)
 	for i := 0; i < int(featureIndexCount); i++ {
 		idx, err := p.ReadUint16()
 		if err != nil {
@@ -196,7 +196,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		} else if idx == 0xFFFF {
 			continue
 		}
-		featureIndices[i] = FeatureIndex(idx)
+		featureIndices = append(featureIndices, FeatureIndex(idx))
 	}
 
 	return &Features{
-- 
2.43.0


From 4e2a641b0729540279a0f7d050ca205103bc4e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:40 +0000
Subject: [PATCH 52/94] fix: script lists were encoded in random order, and
 with invalid tags

---
 opentype/gtab/locale.go     | 12 ++++++++----
 opentype/gtab/scriptlist.go | 27 +++++++++++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index c7ee35f..add4502 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -90,21 +90,25 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		scriptTag, _ := tag.Script()
 		bcpScript := scriptTag.String()
 
+		// If there is more than one choice, use the first tag in alphabetical
+		// order.
 		for key, val := range langBcp47 {
-			if val == bcpLang {
+			if val == bcpLang && (lang == "" || string(key) < lang) {
 				lang = string(key)
-				break
 			}
 		}
 
 		for key, val := range scriptBcp47 {
-			if val == bcpScript {
+			if val == bcpScript && (script == "" || string(key) < script) {
 				script = string(key)
-				break
 			}
 		}
 	}
 
+	if len(script) != 4 || lang != "" && len(lang) != 4 {
+		return "", "", fmt.Errorf("no OpenType script/language tags for %q", tag)
+	}
+
 	return otfScript(script), otfLang(lang), nil
 }
 
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 94964bb..eed693c 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -19,7 +19,9 @@ package gtab
 import (
 	"sort"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
+
 	"seehuhn.de/go/sfnt/parser"
 )
 
@@ -210,13 +212,29 @@ func (info ScriptListInfo) encode() []byte {
 		return nil
 	}
 
+	tags := maps.Keys(info)
+	sort.Slice(tags, func(i, j int) bool {
+		return tags[i].String() < tags[j].String()
+	})
+
+	// If several tags correspond to the same language system, only the first
+	// one is used.
+	type langSysKey struct {
+		script otfScript
+		lang   otfLang
+	}
+	seen := map[langSysKey]bool{}
 	scriptLangs := map[otfScript][]language.Tag{}
-	for tag := range info {
-		script, _, err := bcp47ToOtf(tag)
+	for _, tag := range tags {
+		script, lang, err := bcp47ToOtf(tag)
 		if err != nil {
-			// TODO(voss): what to do here?
+			panic(err)
+		}
+		key := langSysKey{script, lang}
+		if seen[key] {
 			continue
 		}
+		seen[key] = true
 		scriptLangs[script] = append(scriptLangs[script], tag)
 	}
 
@@ -276,9 +294,6 @@ func (info ScriptListInfo) encode() []byte {
 				}
 				continue
 			}
-			if len(lang) != 4 {
-				panic("invalid language " + string(lang))
-			}
 			langSysRecords = append(langSysRecords, &langSysRecord{
 				langSys: langSys,
 				tag:     lang,
-- 
2.43.0


From c588fc6990388bf8c981f7977a93a6855a48eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 53/94] fix: class definition tables covering all glyphs were
 written with a glyph count of zero

---
 opentype/classdef/classdef.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 03a3a48..a336149 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -20,6 +20,7 @@ package classdef
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
@@ -158,7 +159,12 @@ func (info Table) getEncInfo() *encInfo {
 		}
 	}
 
-	format1Size := 6 + 2*(int(maxGid)-int(minGid)+1)
+	glyphCount := int(maxGid) - int(minGid) + 1
+	format1Size := 6 + 2*glyphCount
+	if glyphCount > 0xFFFF {
+		// The glyph count in format 1 is a 16-bit value.
+		format1Size = math.MaxInt
+	}
 
 	segCount := 0
 	segStart := -1
@@ -225,6 +231,9 @@ func (info Table) Append(buf []byte) []byte {
 	}
 
 	segCount := (encInfo.format2Size - 4) / 6
+	if segCount > 0xFFFF {
+		panic("class definition table too large")
+	}
 	buf = append(buf, 0, 2, byte(segCount>>8), byte(segCount))
 	segStart := -1
 	var segClass uint16
-- 
2.43.0


From 985d1158002450d4d68568a28e86ea271d4b2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 54/94] fix: invalid coverage tables were not always detected
 when encoding

---
 opentype/coverage/coverage.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index d7672c0..c34b9db 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -150,12 +150,9 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 }
 
 func (table Table) encInfo() ([]glyph.ID, int, int) {
-	rev := make([]glyph.ID, len(table))
-	for gid, i := range table {
-		rev[i] = gid
-	}
-	for i := 1; i < len(rev); i++ {
-		if rev[i-1] >= rev[i] {
+	rev := table.Glyphs()
+	for i, gid := range rev {
+		if table[gid] != i {
 			panic("invalid coverage table")
 		}
 	}
-- 
2.43.0


From b5dad4709db41b0a2c340e18e0417afbb4507c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 55/94] fix: GDEF tables with more than 64k of class data were
 written with wrong offsets

---
 opentype/gdef/gdef.go | 115 ++++++++++++++++++++++++++++++------------
 1 file changed, 83 insertions(+), 32 deletions(-)

diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 0dd5540..b8134e0 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -18,7 +18,9 @@
 package gdef
 
 import (
+	"errors"
 	"fmt"
+	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/classdef"
@@ -135,9 +137,40 @@ func Read(r parser.ReadSeekSizer) (*Table, error) {
 
 	_ = itemVarStoreOffset // TODO(voss): implement
 
+	// If the class definition tables overlap, there may be too much data to
+	// write the table again.
+	size := 14
+	for _, l := range []classdef.Table{table.GlyphClass, table.MarkAttachClass} {
+		if l != nil {
+			size += l.AppendLen()
+		}
+	}
+	if size > 0xFFFF && !table.canEncode() {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gdef",
+			Reason:    "GDEF table too large",
+		}
+	}
+
 	return table, nil
 }
 
+var errTooLarge = errors.New("sfnt/opentype/gdef: GDEF table too large")
+
+// canEncode returns true if the table can be converted to binary form.
+func (table *Table) canEncode() (ok bool) {
+	defer func() {
+		if r := recover(); r != nil {
+			if r != errTooLarge {
+				panic(r)
+			}
+			ok = false
+		}
+	}()
+	table.Encode()
+	return true
+}
+
 // Encode converts the GDEF table to its binary form.
 func (table *Table) Encode() []byte {
 	version := uint32(0x00010000)
@@ -148,24 +181,42 @@ func (table *Table) Encode() []byte {
 		total = 14
 	}
 
-	var glyphClassDefOffset int
+	// All offsets in the header are 16-bit, so we write the largest table last
+	// in case there is too much data.
+	var glyphClassDef, markAttachClassDef, markGlyphSetsDef []byte
 	if table.GlyphClass != nil {
-		glyphClassDefOffset = total
-		total += table.GlyphClass.AppendLen()
+		glyphClassDef = table.GlyphClass.Append(nil)
 	}
-	var markAttachClassDefOffset int
 	if table.MarkAttachClass != nil {
-		markAttachClassDefOffset = total
-		total += table.MarkAttachClass.AppendLen()
+		markAttachClassDef = table.MarkAttachClass.Append(nil)
 	}
-	var markGlyphSetsDefOffset int
 	if table.MarkGlyphSets != nil {
-		markGlyphSetsDefOffset = total
-		total += 4 + 4*len(table.MarkGlyphSets)
-		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			total += cov.EncodeLen()
+		markGlyphSetsDef = encodeMarkGlyphSets(table.MarkGlyphSets)
+	}
+
+	var glyphClassDefOffset, markAttachClassDefOffset, markGlyphSetsDefOffset int
+	parts := []struct {
+		data []byte
+		offs *int
+	}{
+		{glyphClassDef, &glyphClassDefOffset},
+		{markAttachClassDef, &markAttachClassDefOffset},
+		{markGlyphSetsDef, &markGlyphSetsDefOffset},
+	}
+	if total+len(glyphClassDef)+len(markAttachClassDef) > 0xFFFF {
+		sort.SliceStable(parts, func(i, j int) bool {
+			return len(parts[i].data) < len(parts[j].data)
+		})
+	}
+	for _, part := range parts {
+		if part.data == nil {
+			continue
 		}
+		if total > 0xFFFF {
+			panic(errTooLarge)
+		}
+		*part.offs = total
+		total += len(part.data)
 	}
 
 	buf := make([]byte, 12, total)
@@ -181,30 +232,30 @@ func (table *Table) Encode() []byte {
 	if version >= 0x00010002 {
 		buf = append(buf, byte(markGlyphSetsDefOffset>>8), byte(markGlyphSetsDefOffset))
 	}
-	if glyphClassDefOffset > 0 {
-		buf = table.GlyphClass.Append(buf)
+	for _, part := range parts {
+		buf = append(buf, part.data...)
 	}
-	if markAttachClassDefOffset > 0 {
-		buf = table.MarkAttachClass.Append(buf)
+	return buf
+}
+
+func encodeMarkGlyphSets(sets []coverage.Set) []byte {
+	markGlyphSetCount := len(sets)
+	if markGlyphSetCount > 0xFFFF {
+		panic("too many mark glyph sets")
+	}
+	buf := []byte{
+		0, 1, // format
+		byte(markGlyphSetCount >> 8), byte(markGlyphSetCount),
 	}
-	if markGlyphSetsDefOffset > 0 {
-		markGlyphSetCount := len(table.MarkGlyphSets)
+	var data []byte
+	offs := 4 + 4*markGlyphSetCount
+	for _, set := range sets {
+		pos := offs + len(data)
 		buf = append(buf,
-			0, 1, // format
-			byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
-		offs := 4 + 4*markGlyphSetCount
-		for _, set := range table.MarkGlyphSets {
-			buf = append(buf,
-				byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
-			cov := set.ToTable()
-			offs += cov.EncodeLen()
-		}
-		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			buf = append(buf, cov.Encode()...)
-		}
+			byte(pos>>24), byte(pos>>16), byte(pos>>8), byte(pos))
+		data = append(data, set.ToTable().Encode()...)
 	}
-	return buf
+	return append(buf, data...)
 }
 
 // Possible values for the GlyphClass field.
-- 
2.43.0


From 7ecd79d296fa0bb6ce79638be34dba7e0f49ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 56/94] fix: GSUB and GPOS tables with more than 64k of data
 were written with wrong offsets

---
 opentype/gtab/featurelist.go |  5 +--
 opentype/gtab/gpos.go        | 26 ++++++++---
 opentype/gtab/gpos4.go       |  3 ++
 opentype/gtab/gpos5.go       |  5 +++
 opentype/gtab/gpos6.go       |  3 ++
 opentype/gtab/gsub.go        | 25 +++++++----
 opentype/gtab/gtab.go        | 60 ++++++++++++++++++--------
 opentype/gtab/lookup.go      | 81 ++++++++++++++++++++++++----------
 opentype/gtab/nested.go      | 58 +++++++++++++------------
 opentype/gtab/scriptlist.go  |  8 ++--
 opentype/gtab/size.go        | 84 ++++++++++++++++++++++++++++++++++++
 11 files changed, 271 insertions(+), 87 deletions(-)
 create mode 100644 opentype/gtab/size.go

diff --git a/opentype/gtab/featurelist.go b/opentype/gtab/featurelist.go
index 91bdd6a..b11c088 100644
--- a/opentype/gtab/featurelist.go
+++ b/opentype/gtab/featurelist.go
@@ -127,9 +127,7 @@ func (info FeatureListInfo) encode() []byte {
 		offs[i] = uint16(totalSize)
 		totalSize += 4 + 2*len(f.Lookups)
 	}
-	if largestOffset > 0xFFFF {
-		panic("featureListInfo too large")
-	}
+	checkUint16(largestOffset, "feature list")
 
 	buf := make([]byte, totalSize)
 	buf[0] = byte(len(info) >> 8)
@@ -146,6 +144,7 @@ func (info FeatureListInfo) encode() []byte {
 	for i, f := range info {
 		p := int(offs[i])
 		// featureParamsOffset
+		checkUint16(len(f.Lookups), "feature table")
 		buf[p+2] = byte(len(f.Lookups) >> 8)
 		buf[p+3] = byte(len(f.Lookups))
 		for i, l := range f.Lookups {
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index f4dc160..2a180bf 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -50,7 +50,14 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	l, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	if err := checkSize(l); err != nil {
+		return nil, err
+	}
+	return l, nil
 }
 
 // https://docs.microsoft.com/en-us/typography/opentype/spec/gpos#gsubLookupTypeEnum
@@ -218,6 +225,8 @@ func (l *Gpos1_2) encode() []byte {
 		total += l.Adjust[0].encodeLen(valueFormat) * valueCount
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset, "GPOS 1.2 subtable")
+	checkUint16(valueCount, "GPOS 1.2 subtable")
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -398,6 +407,7 @@ func (l Gpos2_1) encode() []byte {
 	pairSetCount := len(adjust)
 	total := 10 + 2*pairSetCount
 	coverageOffset := total
+	checkUint16(coverageOffset, "GPOS 2.1 subtable")
 	total += cov.EncodeLen()
 	var valueFormat1, valueFormat2 uint16
 	for _, adj := range adjust {
@@ -408,7 +418,7 @@ func (l Gpos2_1) encode() []byte {
 	}
 	pairSetOffsets := make([]uint16, pairSetCount)
 	for i, adj := range adjust {
-		pairSetOffsets[i] = uint16(total)
+		pairSetOffsets[i] = checkUint16(total, "GPOS 2.1 subtable")
 		total += 2 + 2*len(adj)
 		for _, v := range adj {
 			total += v.First.encodeLen(valueFormat1)
@@ -431,7 +441,7 @@ func (l Gpos2_1) encode() []byte {
 	buf = append(buf, cov.Encode()...)
 
 	for _, adj := range adjust {
-		pairValueCount := len(adj)
+		pairValueCount := checkUint16(len(adj), "GPOS 2.1 subtable")
 		buf = append(buf, byte(pairValueCount>>8), byte(pairValueCount))
 
 		keys := maps.Keys(adj)
@@ -609,6 +619,11 @@ func (l *Gpos2_2) encode() []byte {
 	total += l.Class1.AppendLen()
 	classDef2Offset := total
 	total += l.Class2.AppendLen()
+	checkUint16(coverageOffset, "GPOS 2.2 subtable")
+	checkUint16(classDef1Offset, "GPOS 2.2 subtable")
+	checkUint16(classDef2Offset, "GPOS 2.2 subtable")
+	checkUint16(class1Count, "GPOS 2.2 subtable")
+	checkUint16(class2Count, "GPOS 2.2 subtable")
 
 	res := make([]byte, 0, total)
 	res = append(res,
@@ -768,15 +783,16 @@ func (l *Gpos3_1) encode() []byte {
 	exitOffs := make([]uint16, entryExitCount)
 	for i, rec := range l.Records {
 		if !rec.Entry.IsEmpty() {
-			entryOffs[i] = uint16(total)
+			entryOffs[i] = checkUint16(total, "GPOS 3.1 subtable")
 			total += 6
 		}
 		if !rec.Exit.IsEmpty() {
-			exitOffs[i] = uint16(total)
+			exitOffs[i] = checkUint16(total, "GPOS 3.1 subtable")
 			total += 6
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset, "GPOS 3.1 subtable")
 	total += l.Cov.EncodeLen()
 
 	res := make([]byte, 0, total)
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 1f5d5b4..d1e3001 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -215,6 +215,7 @@ func (l *Gpos4_1) encode() []byte {
 	markArrayOffset := total
 	total += 2 + (4+6)*markCount
 	baseArrayOffset := total
+	checkUint16(baseArrayOffset, "GPOS 4.1 subtable")
 	total += 2
 	for _, row := range l.BaseArray {
 		for _, rec := range row {
@@ -243,6 +244,7 @@ func (l *Gpos4_1) encode() []byte {
 	)
 	offs := 2 + 4*markCount
 	for _, rec := range l.MarkArray {
+		checkUint16(offs, "GPOS 4.1 subtable")
 		res = append(res,
 			byte(rec.Class>>8), byte(rec.Class),
 			byte(offs>>8), byte(offs),
@@ -263,6 +265,7 @@ func (l *Gpos4_1) encode() []byte {
 				res = append(res, 0, 0)
 				continue
 			}
+			checkUint16(offs, "GPOS 4.1 subtable")
 			res = append(res,
 				byte(offs>>8), byte(offs),
 			)
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index f9568a2..0ca81f6 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -210,6 +210,7 @@ func (l *Gpos5_1) encode() []byte {
 	markArrayOffset := total
 	total += 2 + (4+6)*markCount
 	ligArrayOffset := total
+	checkUint16(ligArrayOffset, "GPOS 5.1 subtable")
 
 	res := make([]byte, 0, l.encodeLen())
 	res = append(res,
@@ -229,6 +230,7 @@ func (l *Gpos5_1) encode() []byte {
 	)
 	offs := 2 + 4*markCount
 	for _, rec := range l.MarkArray {
+		checkUint16(offs, "GPOS 5.1 subtable")
 		res = append(res,
 			byte(rec.Class>>8), byte(rec.Class),
 			byte(offs>>8), byte(offs),
@@ -244,10 +246,12 @@ func (l *Gpos5_1) encode() []byte {
 	)
 	offs = 2 + 2*ligCount
 	for _, lig := range l.LigArray {
+		checkUint16(offs, "GPOS 5.1 subtable")
 		res = append(res, byte(offs>>8), byte(offs))
 		offs += ligAttachLen(lig)
 	}
 	for _, lig := range l.LigArray {
+		checkUint16(len(lig), "GPOS 5.1 subtable")
 		res = append(res, byte(len(lig)>>8), byte(len(lig)))
 		offs = 2 + 2*len(lig)*markClassCount
 		for _, row := range lig {
@@ -256,6 +260,7 @@ func (l *Gpos5_1) encode() []byte {
 					res = append(res, 0, 0)
 					continue
 				}
+				checkUint16(offs, "GPOS 5.1 subtable")
 				res = append(res, byte(offs>>8), byte(offs))
 				offs += 6
 			}
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 10bff3a..8a16fcc 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -206,6 +206,7 @@ func (l *Gpos6_1) encode() []byte {
 	mark1ArrayOffset := total
 	total += 2 + (4+6)*mark1Count
 	mark2ArrayOffset := total
+	checkUint16(mark2ArrayOffset, "GPOS 6.1 subtable")
 	total += 2
 	for _, row := range l.Mark2Array {
 		for _, rec := range row {
@@ -234,6 +235,7 @@ func (l *Gpos6_1) encode() []byte {
 	)
 	offs := 2 + 4*mark1Count
 	for _, rec := range l.Mark1Array {
+		checkUint16(offs, "GPOS 6.1 subtable")
 		res = append(res,
 			byte(rec.Class>>8), byte(rec.Class),
 			byte(offs>>8), byte(offs),
@@ -254,6 +256,7 @@ func (l *Gpos6_1) encode() []byte {
 				res = append(res, 0, 0)
 				continue
 			}
+			checkUint16(offs, "GPOS 6.1 subtable")
 			res = append(res,
 				byte(offs>>8), byte(offs),
 			)
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 683b586..a6a283a 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -46,7 +46,14 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	l, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	if err := checkSize(l); err != nil {
+		return nil, err
+	}
+	return l, nil
 }
 
 var gsubReaders = map[uint16]func(p *parser.Parser, pos int64) (Subtable, error){
@@ -187,6 +194,7 @@ func (l *Gsub1_2) encodeLen() int {
 func (l *Gsub1_2) encode() []byte {
 	n := len(l.SubstituteGlyphIDs)
 	covOffs := 6 + 2*n
+	checkUint16(covOffs, "GSUB 1.2 subtable")
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -306,9 +314,10 @@ func (l *Gsub2_1) encode() []byte {
 
 	sequenceOffsets := make([]uint16, sequenceCount)
 	for i, repl := range l.Repl {
-		sequenceOffsets[i] = uint16(covOffs)
+		sequenceOffsets[i] = checkUint16(covOffs, "GSUB 2.1 subtable")
 		covOffs += 2 + 2*len(repl)
 	}
+	checkUint16(covOffs, "GSUB 2.1 subtable")
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -430,9 +439,10 @@ func (l *Gsub3_1) encode() []byte {
 
 	alternateSetOffsets := make([]uint16, alternateSetCount)
 	for i, repl := range l.Alternates {
-		alternateSetOffsets[i] = uint16(covOffs)
+		alternateSetOffsets[i] = checkUint16(covOffs, "GSUB 3.1 subtable")
 		covOffs += 2 + 2*len(repl)
 	}
+	checkUint16(covOffs, "GSUB 3.1 subtable")
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -655,9 +665,7 @@ func (l *Gsub4_1) encode() []byte {
 	}
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
-	if coverageOffset > 0xFFFF {
-		panic("coverage offset overflow")
-	}
+	checkUint16(coverageOffset, "GSUB 4.1 subtable")
 
 	buf := make([]byte, 0, total)
 
@@ -825,15 +833,16 @@ func (l *Gsub8_1) encode() []byte {
 	total += 2 * lookaheadGlyphCount
 	total += 2 * glyphCount
 	coverageOffset := total
+	checkUint16(coverageOffset, "GSUB 8.1 subtable")
 	total += l.Input.EncodeLen()
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, cov := range l.Backtrack {
-		backtrackCoverageOffsets[i] = uint16(total)
+		backtrackCoverageOffsets[i] = checkUint16(total, "GSUB 8.1 subtable")
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, cov := range l.Lookahead {
-		lookaheadCoverageOffsets[i] = uint16(total)
+		lookaheadCoverageOffsets[i] = checkUint16(total, "GSUB 8.1 subtable")
 		total += cov.EncodeLen()
 	}
 
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a9593fb..94526ae 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -19,6 +19,7 @@ package gtab
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -158,6 +159,11 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 
 	_ = FeatureVariationsOffset // TODO(voss): implement this
 
+	err = info.checkSize()
+	if err != nil {
+		return nil, err
+	}
+
 	return info, nil
 }
 
@@ -166,25 +172,45 @@ func (info *Info) Encode() []byte {
 	scriptList := info.ScriptList.encode()
 	featureList := info.FeatureList.encode()
 	lookupList := info.LookupList.encode()
+	if len(info.ScriptList)+len(info.FeatureList)+len(info.LookupList) > 0 {
+		// The table can only be read back, if all three lists are present.
+		if scriptList == nil {
+			scriptList = []byte{0, 0}
+		}
+		if featureList == nil {
+			featureList = []byte{0, 0}
+		}
+		if lookupList == nil {
+			lookupList = []byte{0, 0}
+		}
+	}
 
-	total := 10
-	var scriptListOffset int
-	if scriptList != nil {
-		scriptListOffset = total
-		total += len(scriptList)
+	// All offsets are 16-bit, so a list with more than 64k of data must come
+	// last.  Normally this can only be the lookup list.
+	const headerLen = 10
+	var scriptListOffset, featureListOffset, lookupListOffset int
+	lists := []struct {
+		data []byte
+		offs *int
+	}{
+		{scriptList, &scriptListOffset},
+		{featureList, &featureListOffset},
+		{lookupList, &lookupListOffset},
 	}
-	var featureListOffset int
-	if featureList != nil {
-		featureListOffset = total
-		total += len(featureList)
+	if headerLen+len(scriptList)+len(featureList) > 0xFFFF {
+		sort.SliceStable(lists, func(i, j int) bool {
+			return len(lists[i].data) < len(lists[j].data)
+		})
 	}
-	var lookupListOffset int
-	if lookupList != nil {
-		lookupListOffset = total
-		total += len(lookupList)
+	total := headerLen
+	for _, l := range lists {
+		if l.data != nil {
+			*l.offs = int(checkUint16(total, "layout table"))
+			total += len(l.data)
+		}
 	}
 
-	buf := make([]byte, total)
+	buf := make([]byte, headerLen, total)
 	copy(buf, []byte{
 		0, 1, // major version
 		0, 0, // minor version
@@ -192,9 +218,9 @@ func (info *Info) Encode() []byte {
 		byte(featureListOffset >> 8), byte(featureListOffset),
 		byte(lookupListOffset >> 8), byte(lookupListOffset),
 	})
-	copy(buf[scriptListOffset:], scriptList)
-	copy(buf[featureListOffset:], featureList)
-	copy(buf[lookupListOffset:], lookupList)
+	for _, l := range lists {
+		buf = append(buf, l.data...)
+	}
 
 	return buf
 }
diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index b825cdb..ff0643c 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -319,6 +319,20 @@ findTypeLoop:
 			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
+			case *SeqContext1, *SeqContext2, *SeqContext3:
+				if l.Meta.LookupType == 7 {
+					extLookupType = gposExtensionLookupType
+				} else {
+					extLookupType = gsubExtensionLookupType
+				}
+				break findTypeLoop
+			case *ChainedSeqContext1, *ChainedSeqContext2, *ChainedSeqContext3:
+				if l.Meta.LookupType == 8 {
+					extLookupType = gposExtensionLookupType
+				} else {
+					extLookupType = gsubExtensionLookupType
+				}
+				break findTypeLoop
 			}
 		}
 	}
@@ -359,11 +373,15 @@ findTypeLoop:
 	// If needed, reorder the chunks or introduce extension records.
 	isTooLarge := false
 	var total uint32
+	var tablePos uint32
 	for i := range chunks {
 		code := chunks[i].code
-		if code&chunkTypeMask == chunkTable && total > 0xFFFF {
-			isTooLarge = true
-			break
+		switch code & chunkTypeMask {
+		case chunkTable:
+			tablePos = total
+			isTooLarge = isTooLarge || tablePos > 0xFFFF
+		case chunkSubtable:
+			isTooLarge = isTooLarge || total-tablePos > 0xFFFF
 		}
 		total += chunks[i].size
 	}
@@ -389,7 +407,7 @@ findTypeLoop:
 			buf = append(buf, byte(lookupCount>>8), byte(lookupCount))
 			for i := range ll {
 				tCode := chunkCode(i) << 14
-				lookupOffset := chunkPos[chunkTable|tCode]
+				lookupOffset := checkUint16(int(chunkPos[chunkTable|tCode]), "lookup list table")
 				buf = append(buf, byte(lookupOffset>>8), byte(lookupOffset))
 			}
 		case chunkTable:
@@ -414,7 +432,7 @@ findTypeLoop:
 				if !replaced {
 					subtablePos = chunkPos[chunkSubtable|tCode|sCode]
 				}
-				subtableOffset := subtablePos - base
+				subtableOffset := checkUint16(int(subtablePos-base), "lookup table")
 				buf = append(buf, byte(subtableOffset>>8), byte(subtableOffset))
 			}
 			if li.Meta.LookupFlags&UseMarkFilteringSet != 0 {
@@ -455,6 +473,7 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	}
 
 	lookupSize := make(map[chunkCode]uint32)
+	lastSize := make(map[chunkCode]uint32)
 	var lookups []chunkCode
 	for i := range chunks {
 		code := chunks[i].code
@@ -466,39 +485,55 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 			lookups = append(lookups, tCode)
 		}
 		lookupSize[tCode] += chunks[i].size
+		lastSize[tCode] = chunks[i].size
 	}
 	sort.SliceStable(lookups, func(i, j int) bool {
 		return lookupSize[lookups[i]] < lookupSize[lookups[j]]
 	})
 
+	// replacedSize returns the size of a lookup table, when all subtables are
+	// replaced with extension records.
+	replacedSize := func(tCode chunkCode) uint32 {
+		l := ll[tCode>>14]
+		size := 6 + 2*len(l.Subtables) + 8*len(l.Subtables)
+		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
+			size += 2
+		}
+		return uint32(size)
+	}
+
 	// Move the largest table to the end and introduce extension subtables
-	// as needed.
-	biggestLookup := lookups[len(lookups)-1]
-	lastPos := total - lookupSize[biggestLookup]
-	idx := len(lookups) - 2
+	// as needed.  If the subtable offsets within a lookup overflow, we always
+	// need to use extension subtables.
 	replace := make(map[chunkCode]bool)
+	biggestLookup := chunkCode(chunkTypeMask) // not a valid table code
+	lastPos := total
 	extra := 0
-	for lastPos > 0xFFFF && idx >= 0 {
+	for _, tCode := range lookups {
+		if lookupSize[tCode]-lastSize[tCode] > 0xFFFF {
+			replace[tCode] = true
+			extra += len(ll[tCode>>14].Subtables)
+			lastPos -= lookupSize[tCode] - replacedSize(tCode)
+		} else {
+			biggestLookup = tCode
+		}
+	}
+	if biggestLookup != chunkTypeMask {
+		lastPos -= lookupSize[biggestLookup]
+	}
+	for idx := len(lookups) - 1; lastPos > 0xFFFF && idx >= 0; idx-- {
 		tCode := lookups[idx]
-
-		oldSize := lookupSize[tCode]
-		l := ll[tCode>>14]
-		lookupHeaderLen := 6 + 2*len(l.Subtables)
-		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
-			lookupHeaderLen += 2
+		if tCode == biggestLookup || replace[tCode] {
+			continue
 		}
-		newSize := uint32(lookupHeaderLen) + 8*uint32(len(l.Subtables))
 
+		oldSize := lookupSize[tCode]
+		newSize := replacedSize(tCode)
 		if newSize < oldSize {
 			replace[tCode] = true
-			extra += len(l.Subtables)
+			extra += len(ll[tCode>>14].Subtables)
 			lastPos -= oldSize - newSize
 		}
-
-		idx--
-	}
-	if lastPos > 0xFFFF {
-		panic("too much data for lookup list table")
 	}
 
 	res := make([]layoutChunk, 0, len(chunks)+extra)
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 7a79327..e3b773d 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -212,13 +212,14 @@ func (l *SeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleSetOffsets[i] = uint16(total)
+		seqRuleSetOffsets[i] = checkUint16(total, "SeqContext1")
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset, "SeqContext1")
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -240,6 +241,7 @@ func (l *SeqContext1) encode() []byte {
 		)
 		pos := 2 + 2*seqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos, "SeqContext1")
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -459,21 +461,19 @@ func (l *SeqContext2) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleSetOffsets[i] = uint16(total)
+		seqRuleSetOffsets[i] = checkUint16(total, "SeqContext2")
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset, "SeqContext2")
 	total += l.Cov.EncodeLen()
 	classDefOffset := total
+	checkUint16(classDefOffset, "SeqContext2")
 	total += l.Input.AppendLen()
 
-	if classDefOffset > 0xFFFF {
-		panic("classDefOffset too large")
-	}
-
 	buf := make([]byte, 0, total)
 	buf = append(buf,
 		0, 2, // format
@@ -494,6 +494,7 @@ func (l *SeqContext2) encode() []byte {
 		)
 		pos := 2 + 2*seqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos, "SeqContext2")
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -623,12 +624,12 @@ func (l *SeqContext3) encodeLen() int {
 // encode implements the [Subtable] interface.
 func (l *SeqContext3) encode() []byte {
 	glyphCount := len(l.Input)
-	seqLookupCount := len(l.Actions)
+	seqLookupCount := checkUint16(len(l.Actions), "SeqContext3")
 
 	total := 6 + 2*len(l.Input) + 4*len(l.Actions)
 	coverageOffsets := make([]uint16, glyphCount)
 	for i, cov := range l.Input {
-		coverageOffsets[i] = uint16(total)
+		coverageOffsets[i] = checkUint16(total, "SeqContext3")
 		total += cov.ToTable().EncodeLen()
 	}
 
@@ -880,13 +881,14 @@ func (l *ChainedSeqContext1) encode() []byte {
 	chainedSeqRuleSetCount := len(l.Rules)
 	total := 6 + 2*len(l.Rules)
 	coverageOffset := total
+	checkUint16(coverageOffset, "ChainedSeqContext1")
 	total += l.Cov.EncodeLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
 	for i, rules := range l.Rules {
 		if rules == nil {
 			continue
 		}
-		chainedSeqRuleSetOffsets[i] = uint16(total)
+		chainedSeqRuleSetOffsets[i] = checkUint16(total, "ChainedSeqContext1")
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 2 + 2*len(rule.Backtrack)
@@ -919,6 +921,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos, "ChainedSeqContext1")
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -928,28 +931,28 @@ func (l *ChainedSeqContext1) encode() []byte {
 			pos += 2 + 4*len(rule.Actions)
 		}
 		for _, rule := range rules {
-			backtrackGlyphCount := len(rule.Backtrack)
+			backtrackGlyphCount := checkUint16(len(rule.Backtrack), "ChainedSeqContext1")
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
 			for _, gid := range rule.Backtrack {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			inputGlyphCount := len(rule.Input) + 1
+			inputGlyphCount := checkUint16(len(rule.Input)+1, "ChainedSeqContext1")
 			buf = append(buf,
 				byte(inputGlyphCount>>8), byte(inputGlyphCount),
 			)
 			for _, gid := range rule.Input {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			lookaheadGlyphCount := len(rule.Lookahead)
+			lookaheadGlyphCount := checkUint16(len(rule.Lookahead), "ChainedSeqContext1")
 			buf = append(buf,
 				byte(lookaheadGlyphCount>>8), byte(lookaheadGlyphCount),
 			)
 			for _, gid := range rule.Lookahead {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			seqLookupCount := len(rule.Actions)
+			seqLookupCount := checkUint16(len(rule.Actions), "ChainedSeqContext1")
 			buf = append(buf,
 				byte(seqLookupCount>>8), byte(seqLookupCount),
 			)
@@ -1234,22 +1237,23 @@ func (l *ChainedSeqContext2) encode() []byte {
 	chainedSeqRuleSetCount := len(l.Rules)
 	total := 12 + 2*len(l.Rules)
 	coverageOffset := total
+	checkUint16(coverageOffset, "ChainedSeqContext2")
 	total += l.Cov.EncodeLen()
 	backtrackOffset := total
+	checkUint16(backtrackOffset, "ChainedSeqContext2")
 	total += l.Backtrack.AppendLen()
 	inputOffset := total
+	checkUint16(inputOffset, "ChainedSeqContext2")
 	total += l.Input.AppendLen()
 	lookaheadOffset := total
+	checkUint16(lookaheadOffset, "ChainedSeqContext2")
 	total += l.Lookahead.AppendLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
 	for i, rr := range l.Rules {
 		if rr == nil {
 			continue
 		}
-		if total > 0xFFFF {
-			panic("ChainedSeqContext2 too large")
-		}
-		chainedSeqRuleSetOffsets[i] = uint16(total)
+		chainedSeqRuleSetOffsets[i] = checkUint16(total, "ChainedSeqContext2")
 		total += 2 + 2*len(rr)
 		for _, rule := range rr {
 			total += 2 + 2*len(rule.Backtrack)
@@ -1288,9 +1292,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rr {
-			if pos > 0xFFFF {
-				panic("ChainedSeqContext2 too large")
-			}
+			checkUint16(pos, "ChainedSeqContext2")
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -1300,28 +1302,28 @@ func (l *ChainedSeqContext2) encode() []byte {
 			pos += 2 + 4*len(rule.Actions)
 		}
 		for _, rule := range rr {
-			backtrackGlyphCount := len(rule.Backtrack)
+			backtrackGlyphCount := checkUint16(len(rule.Backtrack), "ChainedSeqContext2")
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
 			for _, gid := range rule.Backtrack {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			inputGlyphCount := len(rule.Input) + 1
+			inputGlyphCount := checkUint16(len(rule.Input)+1, "ChainedSeqContext2")
 			buf = append(buf,
 				byte(inputGlyphCount>>8), byte(inputGlyphCount),
 			)
 			for _, gid := range rule.Input {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			lookaheadGlyphCount := len(rule.Lookahead)
+			lookaheadGlyphCount := checkUint16(len(rule.Lookahead), "ChainedSeqContext2")
 			buf = append(buf,
 				byte(lookaheadGlyphCount>>8), byte(lookaheadGlyphCount),
 			)
 			for _, gid := range rule.Lookahead {
 				buf = append(buf, byte(gid>>8), byte(gid))
 			}
-			seqLookupCount := len(rule.Actions)
+			seqLookupCount := checkUint16(len(rule.Actions), "ChainedSeqContext2")
 			buf = append(buf,
 				byte(seqLookupCount>>8), byte(seqLookupCount),
 			)
@@ -1501,7 +1503,7 @@ func (l *ChainedSeqContext3) encode() []byte {
 	backtrackGlyphCount := len(l.Backtrack)
 	inputGlyphCount := len(l.Input)
 	lookaheadGlyphCount := len(l.Lookahead)
-	seqLookupCount := len(l.Actions)
+	seqLookupCount := checkUint16(len(l.Actions), "ChainedSeqContext3")
 
 	total := 10
 	total += 2 * len(l.Backtrack)
@@ -1510,19 +1512,19 @@ func (l *ChainedSeqContext3) encode() []byte {
 	total += 4 * len(l.Actions)
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, set := range l.Backtrack {
-		backtrackCoverageOffsets[i] = uint16(total)
+		backtrackCoverageOffsets[i] = checkUint16(total, "ChainedSeqContext3")
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	inputCoverageOffsets := make([]uint16, inputGlyphCount)
 	for i, set := range l.Input {
-		inputCoverageOffsets[i] = uint16(total)
+		inputCoverageOffsets[i] = checkUint16(total, "ChainedSeqContext3")
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, set := range l.Lookahead {
-		lookaheadCoverageOffsets[i] = uint16(total)
+		lookaheadCoverageOffsets[i] = checkUint16(total, "ChainedSeqContext3")
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index eed693c..0ab57fa 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -250,7 +250,7 @@ func (info ScriptListInfo) encode() []byte {
 
 	totalSize := 2 + 6*len(scriptLangs) // scriptCount, scriptRecords
 	for _, sRec := range scriptList {
-		sRec.offset = uint16(totalSize)
+		sRec.offset = checkUint16(totalSize, "script list")
 		langCount := 0
 		for _, tag := range scriptLangs[sRec.script] {
 			_, lang, _ := bcp47ToOtf(tag)
@@ -305,11 +305,11 @@ func (info ScriptListInfo) encode() []byte {
 		})
 		pos := 4 + 6*len(langSysRecords)
 		if defaultRecord != nil {
-			defaultRecord.offs = uint16(pos)
+			defaultRecord.offs = checkUint16(pos, "script table")
 			pos += 6 + len(defaultRecord.langSys.Optional)*2
 		}
 		for _, lRec := range langSysRecords {
-			lRec.offs = uint16(pos)
+			lRec.offs = checkUint16(pos, "script table")
 			pos += 6 + len(lRec.langSys.Optional)*2
 		}
 
@@ -332,6 +332,7 @@ func (info ScriptListInfo) encode() []byte {
 			ff := defaultRecord.langSys
 			buf[p+2] = byte(ff.Required >> 8)
 			buf[p+3] = byte(ff.Required)
+			checkUint16(len(ff.Optional), "language system table")
 			buf[p+4] = byte(len(ff.Optional) >> 8)
 			buf[p+5] = byte(len(ff.Optional))
 			for i, idx := range ff.Optional {
@@ -344,6 +345,7 @@ func (info ScriptListInfo) encode() []byte {
 			ff := lRec.langSys
 			buf[p+2] = byte(ff.Required >> 8)
 			buf[p+3] = byte(ff.Required)
+			checkUint16(len(ff.Optional), "language system table")
 			buf[p+4] = byte(len(ff.Optional) >> 8)
 			buf[p+5] = byte(len(ff.Optional))
 			for i, idx := range ff.Optional {
diff --git a/opentype/gtab/size.go b/opentype/gtab/size.go
new file mode 100644
index 0000000..a72338a
--- /dev/null
+++ b/opentype/gtab/size.go
@@ -0,0 +1,84 @@
+// seehuhn.de/go/sfnt - a library for reading and writing font files
+// Copyright (C) 2025  Jochen Voss <voss@seehuhn.de>
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package gtab
+
+import "seehuhn.de/go/sfnt/parser"
+
+// overflowError is used to panic, when data is too large to be represented
+// in the binary format.
+type overflowError string
+
+func (err overflowError) Error() string {
+	return "sfnt/opentype/gtab: " + string(err) + " too large"
+}
+
+// checkUint16 panics if x is not representable as an unsigned 16-bit integer.
+// Otherwise x is returned.
+func checkUint16(x int, what string) uint16 {
+	if x < 0 || x > 0xFFFF {
+		panic(overflowError(what))
+	}
+	return uint16(x)
+}
+
+// checkSize returns an error, if the subtable cannot be encoded because some
+// of the offsets would overflow.  This can happen for subtables which use the
+// same data more than once.
+func checkSize(l Subtable) (err error) {
+	if l.encodeLen() <= 0xFFFF {
+		// all offsets and counts are smaller than the length
+		return nil
+	}
+
+	return tryEncode(func() { l.encode() })
+}
+
+// checkSize returns an error, if the table cannot be encoded because some of
+// the lists overlap and are too large when stored separately.
+func (info *Info) checkSize() error {
+	// We don't check the lookup list here:  The conditions in
+	// readLookupList make sure that this can always be encoded.
+	short := &Info{
+		ScriptList:  info.ScriptList,
+		FeatureList: info.FeatureList,
+	}
+	shortLen := 0
+	err := tryEncode(func() { shortLen = len(short.Encode()) })
+	if err != nil || shortLen <= 0xFFFF {
+		return err
+	}
+	return tryEncode(func() { info.Encode() })
+}
+
+// tryEncode calls the function encode.  If encode panics because the data
+// is too large, an error is returned instead.
+func tryEncode(encode func()) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			overflow, ok := r.(overflowError)
+			if !ok {
+				panic(r)
+			}
+			err = &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    string(overflow) + " too large",
+			}
+		}
+	}()
+	encode()
+	return nil
+}
-- 
2.43.0


From a7141608504c16d76d2bd5949dfb9dd3f37336bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:51 +0000
Subject: [PATCH 57/94] fix: extension records for pair adjustment lookups were
 written with lookup type 0

---
 opentype/gtab/lookup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index ff0643c..cd98f90 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -316,7 +316,7 @@ findTypeLoop:
 			case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:
 				extLookupType = gsubExtensionLookupType
 				break findTypeLoop
-			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
+			case *Gpos1_1, *Gpos1_2, Gpos2_1, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
 			case *SeqContext1, *SeqContext2, *SeqContext3:
-- 
2.43.0


From 0f029c84bc488f8290abb0d9332582a58a14ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:26 +0000
Subject: [PATCH 58/94] fix: Subset could overwrite data behind the slice of
 glyph IDs

---
 subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 13b21d7..c66abf8 100644
--- a/subset.go
+++ b/subset.go
@@ -40,7 +40,7 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	res := f.Clone()
 
 	s := subsetter{
-		glyphs: glyphs,
+		glyphs: append([]glyph.ID{}, glyphs...), // may be extended below
 		newGid: map[glyph.ID]glyph.ID{},
 	}
 	for newgid, oldGid := range glyphs {
-- 
2.43.0


From 62ae97dfa20cd02a33651747991e863d4125475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:29 +0000
Subject: [PATCH 59/94] fix: Subset removed all entries from the cmap table

---
 subset.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index c66abf8..73c39c6 100644
--- a/subset.go
+++ b/subset.go
@@ -50,7 +50,10 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	if f.CMapTable != nil {
 		res.CMapTable = make(cmap.Table, len(f.CMapTable))
 		for key := range f.CMapTable {
-			c, err := res.CMapTable.Get(key)
+			// Use a Unicode platform key here, to get the character codes
+			// as they are stored in the subtable.
+			raw := cmap.Table{{PlatformID: 0}: f.CMapTable[key]}
+			c, err := raw.Get(cmap.Key{PlatformID: 0})
 			if err != nil {
 				continue
 			}
@@ -99,6 +102,17 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 	}
 
 	switch c := c.(type) {
+	case *cmap.Format0:
+		// The new glyph indices may not fit into one byte.
+		res := cmap.Format4{}
+		for code, oldGid := range c.Data {
+			newGid, ok := s.newGid[glyph.ID(oldGid)]
+			if oldGid == 0 || !ok {
+				continue
+			}
+			res[uint16(code)] = newGid
+		}
+		return res
 	case cmap.Format4:
 		res := cmap.Format4{}
 		for key, oldGid := range c {
-- 
2.43.0


From 97f72c7301760a0525765dbc2c24634ecd76db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:04 +0000
Subject: [PATCH 60/94] fix: Subset used wrong component glyphs in composite
 glyphs

---
 subset.go | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/subset.go b/subset.go
index 73c39c6..952844b 100644
--- a/subset.go
+++ b/subset.go
@@ -473,21 +473,10 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 		Maxp:   oldOutlines.Maxp,
 	}
 
-	todo := make(map[glyph.ID]bool, len(s.glyphs))
-	for _, oldGid := range s.glyphs {
-		todo[oldGid] = true
-	}
-	for len(todo) > 0 {
-		oldGid := pop(todo)
-		cc := oldOutlines.Glyphs[oldGid].Components()
-		for _, componentGidOld := range cc {
-			if _, ok := s.newGid[componentGidOld]; ok {
-				continue
-			}
-			componendGidNew := glyph.ID(len(s.glyphs))
-			s.glyphs = append(s.glyphs, componentGidOld)
-			s.newGid[oldGid] = componendGidNew
-			todo[componentGidOld] = true
+	// getNewGid extends s.glyphs, if needed
+	for i := 0; i < len(s.glyphs); i++ {
+		for _, componentGidOld := range oldOutlines.Glyphs[s.glyphs[i]].Components() {
+			s.getNewGid(componentGidOld)
 		}
 	}
 
@@ -512,11 +501,3 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 
 	return newOutlines
 }
-
-func pop(todo map[glyph.ID]bool) glyph.ID {
-	for key := range todo {
-		delete(todo, key)
-		return key
-	}
-	panic("empty map")
-}
-- 
2.43.0


From 7965fe2517e651dc0f52c1544a9423e642754270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 61/94] fix: Subset removed ligatures and mixed up the GSUB
 lookups

---
 subset.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/subset.go b/subset.go
index 952844b..7c2212e 100644
--- a/subset.go
+++ b/subset.go
@@ -155,7 +155,7 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 		for _, sOld := range tOld.Subtables {
 			switch sOld := sOld.(type) {
 			case *gtab.Gsub1_1:
-				for gid := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{gid + sOld.Delta},
@@ -183,8 +183,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 					})
 				}
 			case *gtab.Gsub4_1:
-				for gid, idx := range sOld.Cov {
-					for _, lig := range sOld.Repl[idx] {
+				for _, gid := range sOld.Cov.Glyphs() {
+					for _, lig := range sOld.Repl[sOld.Cov[gid]] {
 						in := make([]glyph.ID, 0, len(lig.In)+1)
 						in = append(in, gid)
 						in = append(in, lig.In...)
@@ -274,14 +274,13 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 				sNew := &gtab.Gsub1_2{
 					Cov: make(map[glyph.ID]int),
 				}
-				for oldOrig := range sOld.Cov {
-					newFrom, ok := s.newGid[oldOrig]
-					if !ok {
+				for newFrom, oldOrig := range s.glyphs {
+					if _, ok := sOld.Cov[oldOrig]; !ok {
 						continue
 					}
 
 					newTo := oldOrig + sOld.Delta
-					sNew.Cov[newFrom] = len(sNew.SubstituteGlyphIDs)
+					sNew.Cov[glyph.ID(newFrom)] = len(sNew.SubstituteGlyphIDs)
 					sNew.SubstituteGlyphIDs = append(sNew.SubstituteGlyphIDs, s.getNewGid(newTo))
 				}
 				if len(sNew.Cov) > 0 {
@@ -294,11 +293,11 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			case *gtab.Gsub3_1:
 				panic("not implemented")
 			case *gtab.Gsub4_1:
-				sNew := gtab.Gsub4_1{
+				sNew := &gtab.Gsub4_1{
 					Cov: make(coverage.Table),
 				}
-				for oldFirst, idx := range sOld.Cov {
-					newFirst, ok := s.newGid[oldFirst]
+				for newFirst, oldFirst := range s.glyphs {
+					idx, ok := sOld.Cov[oldFirst]
 					if !ok {
 						continue
 					}
@@ -320,10 +319,13 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 						ligs = append(ligs, newLig)
 					}
 					if len(ligs) > 0 {
-						sNew.Cov[newFirst] = len(sNew.Repl)
+						sNew.Cov[glyph.ID(newFirst)] = len(sNew.Repl)
 						sNew.Repl = append(sNew.Repl, ligs)
 					}
 				}
+				if len(sNew.Cov) > 0 {
+					tNew.Subtables = append(tNew.Subtables, sNew)
+				}
 			case *gtab.Gsub8_1:
 				panic("not implemented")
 			case *gtab.SeqContext1:
@@ -343,9 +345,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			}
 		}
 
-		if len(tNew.Subtables) > 0 {
-			res.LookupList = append(res.LookupList, tNew)
-		}
+		// We keep empty lookups, since features refer to lookups by index.
+		res.LookupList = append(res.LookupList, tNew)
 	}
 
 	return &res
-- 
2.43.0


From 92a8b068795783b0d68363d43faef4f61c69e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:10 +0000
Subject: [PATCH 62/94] fix: Subset did not renumber the glyphs in kerning
 pairs

---
 subset.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subset.go b/subset.go
index 7c2212e..3f54473 100644
--- a/subset.go
+++ b/subset.go
@@ -371,13 +371,15 @@ func (s *subsetter) SubsetGpos(old *gtab.Info) *gtab.Info {
 			case gtab.Gpos2_1:
 				sNew := gtab.Gpos2_1{}
 				for pair, adj := range sOld {
-					if _, ok := s.newGid[pair.Left]; !ok {
+					left, ok := s.newGid[pair.Left]
+					if !ok {
 						continue
 					}
-					if _, ok := s.newGid[pair.Right]; !ok {
+					right, ok := s.newGid[pair.Right]
+					if !ok {
 						continue
 					}
-					sNew[pair] = adj
+					sNew[glyph.Pair{Left: left, Right: right}] = adj
 				}
 				tNew.Subtables[j] = sNew
 			case *gtab.Gpos2_2:
-- 
2.43.0


From a7489e505bf2523739b4e770a07df8ca577a2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:00 +0000
Subject: [PATCH 63/94] fix: Subset wrote an invalid cmap subtable when the
 subtable was too large for format 4

---
 subset.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 3f54473..9ebf30a 100644
--- a/subset.go
+++ b/subset.go
@@ -58,7 +58,16 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 				continue
 			}
 			c = s.SubsetCMap(c)
-			res.CMapTable[key] = c.Encode(key.Language)
+			data := c.Encode(key.Language)
+			if c4, ok := c.(cmap.Format4); ok && len(data) > 0xFFFF {
+				// too large for format 4
+				c12 := cmap.Format12{}
+				for code, gid := range c4 {
+					c12[uint32(code)] = gid
+				}
+				data = c12.Encode(key.Language)
+			}
+			res.CMapTable[key] = data
 		}
 	}
 	res.Gsub = s.SubsetGsub(f.Gsub)
-- 
2.43.0


From 35d5a5dc22ce288970fefa297cdae2da3d580b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:39 +0000
Subject: [PATCH 64/94] fix: CFF fonts with gaps in the encoding could not be
 written

Subsetting can leave glyphs without a code in front of encoded glyphs.
Such encodings are now stored using encoding supplements.
---
 cff/encoding.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/cff/encoding.go b/cff/encoding.go
index e2aee37..a3f5eda 100644
--- a/cff/encoding.go
+++ b/cff/encoding.go
@@ -106,11 +106,7 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 			if err != nil {
 				return nil, err
 			}
-			gid := lookup[sid]
-			if gid >= currentGid {
-				return nil, invalidSince("invalid encoding supplement")
-			}
-			if gid != 0 {
+			if gid := lookup[sid]; gid != 0 {
 				res[code] = gid
 			}
 		}
@@ -123,12 +119,23 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 // The encoding vector is given as a slice of glyph IDs (length 256),
 // where the glyph ID 0 is used to indicate a missing glyph.
 //
-// The encoded glyphs must form a contiguous range starting at glyph ID 1.
+// The main part of the encoded data can only describe a contiguous range of
+// glyphs, starting at glyph ID 1.  Encoded glyphs after the end of this range
+// are described using supplements.
 //
 // The glyphNames argument is only used for supplemented encodings, where
-// one or more glyphs have multiple codes.
+// one or more glyphs have multiple codes, or where the encoded glyphs are
+// not contiguous.
 func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
-	var maxGid glyph.ID
+	encoded := map[glyph.ID]bool{}
+	for _, gid := range encoding {
+		encoded[gid] = true
+	}
+	var maxGid glyph.ID // the end of the contiguous range
+	for encoded[maxGid+1] {
+		maxGid++
+	}
+
 	codes := map[glyph.ID]uint8{}
 	type suppl struct {
 		code uint8
@@ -140,14 +147,14 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 			continue
 		}
 		c8 := uint8(code)
-		if _, ok := codes[gid]; ok {
+		if _, ok := codes[gid]; ok || gid > maxGid {
 			extra = append(extra, suppl{c8, gid})
 			continue
 		}
 		codes[gid] = c8
-		if gid > maxGid {
-			maxGid = gid
-		}
+	}
+	if len(extra) > 255 {
+		return nil, invalidSince("too many encoding supplements")
 	}
 
 	type seg struct {
@@ -159,11 +166,7 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	startGid := glyph.ID(1)
 	startCode := codes[startGid]
 	for gid := glyph.ID(1); gid <= maxGid; gid++ {
-		code, ok := codes[gid]
-		if !ok {
-			msg := fmt.Sprintf("encoded glyphs not contiguous (glyph %d not encoded)", gid)
-			return nil, invalidSince(msg)
-		}
+		code := codes[gid]
 		if int(gid-startGid) != int(code)-int(startCode) {
 			ss = append(ss, seg{startCode, uint8(gid - startGid - 1)})
 			startGid = gid
-- 
2.43.0


From f3f644161c61a2714f9209dc2f779db2377fd928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:00 +0000
Subject: [PATCH 65/94] fix: kerning from the kern table could not be switched
 off

The synthesised kern feature was marked as a required feature.
---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index d3d573b..e22299e 100644
--- a/read.go
+++ b/read.go
@@ -507,7 +507,7 @@ func Read(r io.Reader) (*Font, error) {
 		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
+				language.MustParse("und-Zzzz"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From a38a38503f9ef5da8df7ce0a6e768566b22119d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:03 +0000
Subject: [PATCH 66/94] fix: fonts with large kern tables could not be written

The kerning pairs were converted into a single pair adjustment subtable,
which is limited to 64 kB.
---
 read.go | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/read.go b/read.go
index e22299e..14db4f7 100644
--- a/read.go
+++ b/read.go
@@ -23,8 +23,10 @@ import (
 	"io"
 	"math"
 	"os"
+	"slices"
 	"strings"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
 
 	"seehuhn.de/go/postscript/funit"
@@ -33,6 +35,7 @@ import (
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/cmap"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/head"
 	"seehuhn.de/go/sfnt/header"
 	"seehuhn.de/go/sfnt/hmtx"
@@ -499,12 +502,6 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, fmt.Errorf("kern table: %w", err)
 		}
 
-		subtable := gtab.Gpos2_1{}
-		for pair, val := range kern {
-			subtable[pair] = &gtab.PairAdjust{
-				First: &gtab.GposValueRecord{XAdvance: val},
-			}
-		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
 				language.MustParse("und-Zzzz"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
@@ -515,7 +512,7 @@ func Read(r io.Reader) (*Font, error) {
 			LookupList: []*gtab.LookupTable{
 				{
 					Meta:      &gtab.LookupMetaInfo{LookupType: 2},
-					Subtables: []gtab.Subtable{subtable},
+					Subtables: kernSubtables(kern),
 				},
 			},
 		}
@@ -524,6 +521,39 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+// kernSubtables converts the kerning pairs into pair adjustment subtables.
+// Large sets of pairs are split, since offsets within a subtable are limited
+// to 16 bits.
+func kernSubtables(info kern.Info) []gtab.Subtable {
+	pairs := maps.Keys(info)
+	slices.SortFunc(pairs, func(a, b glyph.Pair) int {
+		if a.Left != b.Left {
+			return int(a.Left) - int(b.Left)
+		}
+		return int(a.Right) - int(b.Right)
+	})
+
+	subtable := gtab.Gpos2_1{}
+	res := []gtab.Subtable{subtable}
+	size := 0
+	for i, pair := range pairs {
+		pairSize := 4
+		if i == 0 || pairs[i-1].Left != pair.Left {
+			pairSize += 10
+		}
+		if size+pairSize > 0xF000 {
+			subtable = gtab.Gpos2_1{}
+			res = append(res, subtable)
+			size = 10
+		}
+		subtable[pair] = &gtab.PairAdjust{
+			First: &gtab.GposValueRecord{XAdvance: info[pair]},
+		}
+		size += pairSize
+	}
+	return res
+}
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From 970c43f7e0020b990626cf229e40f92358394012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 67/94] fix: standard ligatures could not be switched off

---
 ligatures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ligatures.go b/ligatures.go
index 2497dad..af3fc4b 100644
--- a/ligatures.go
+++ b/ligatures.go
@@ -75,7 +75,7 @@ ligLoop:
 	}
 	gsub := &gtab.Info{
 		ScriptList: map[language.Tag]*gtab.Features{
-			language.MustParse("und-Latn-x-latn"): {Optional: []gtab.FeatureIndex{0}},
+			language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 		},
 		FeatureList: []*gtab.Feature{
 			{Tag: "liga", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From dd97f4ebcb8f526a5a4613bafe91ce41322f0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:36 +0000
Subject: [PATCH 68/94] fix: MakeGlyphNames ignored the names in incomplete
 lists

---
 names.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/names.go b/names.go
index 80946ee..2d53429 100644
--- a/names.go
+++ b/names.go
@@ -64,9 +64,7 @@ func (f *Font) MakeGlyphNames() []string {
 			glyphNames[gid] = g.Name
 		}
 	case *glyf.Outlines:
-		if len(f.Names) == len(f.Glyphs) {
-			copy(glyphNames, f.Names)
-		}
+		copy(glyphNames, f.Names)
 	default:
 		panic("unexpected font type")
 	}
-- 
2.43.0


From c94997e1d7345b8b09863815a6aff649ee529929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:42 +0000
Subject: [PATCH 69/94] fix: MakeGlyphNames failed for cmap subtables with
 invalid codes or glyphs

---
 names.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 2d53429..86a0916 100644
--- a/names.go
+++ b/names.go
@@ -19,6 +19,7 @@ package sfnt
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"seehuhn.de/go/postscript/type1/names"
 
@@ -92,9 +93,12 @@ func (f *Font) MakeGlyphNames() []string {
 
 	if cmap, _ := f.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		// Subtables in font files can use arbitrary 32-bit codes.
+		a = max(a, 0)
+		b = min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if glyphNames[gid] != "" {
+			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
 				continue
 			}
-- 
2.43.0


From 48f42247e3935ce82afe31c3f05f2883b64a7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:57 +0000
Subject: [PATCH 70/94] fix: glyph names from GSUB replaced existing names and
 were not reproducible

---
 names.go | 139 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 85 insertions(+), 54 deletions(-)

diff --git a/names.go b/names.go
index 86a0916..b5919f8 100644
--- a/names.go
+++ b/names.go
@@ -18,13 +18,17 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 	"unicode"
 
+	"golang.org/x/exp/maps"
+
 	"seehuhn.de/go/postscript/type1/names"
 
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/gtab"
 )
 
@@ -111,60 +115,10 @@ func (f *Font) MakeGlyphNames() []string {
 	}
 
 	if f.Gsub != nil {
-		for _, lookup := range f.Gsub.LookupList {
-			for _, subtable := range lookup.Subtables {
-				switch subtable := subtable.(type) {
-				case *gtab.Gsub1_1:
-					for origGid := range subtable.Cov {
-						newGid := origGid + subtable.Delta
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
-							continue
-						}
-						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
-					}
-				case *gtab.Gsub1_2:
-					for origGid, idx := range subtable.Cov {
-						newGid := subtable.SubstituteGlyphIDs[idx]
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
-							continue
-						}
-						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
-					}
-				case *gtab.Gsub3_1:
-					for origGid, idx := range subtable.Cov {
-						if glyphNames[origGid] == "" {
-							continue
-						}
-						for _, newGid := range subtable.Alternates[idx] {
-							if glyphNames[newGid] == "" {
-								glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
-							}
-						}
-					}
-				case *gtab.Gsub4_1:
-					var nn []string
-					for origGid, idx := range subtable.Cov {
-						name := glyphNames[origGid]
-						if name == "" {
-							continue
-						}
-						nn = append(nn[:0], name)
-					replLoop:
-						for _, lig := range subtable.Repl[idx] {
-							nn = nn[:1]
-							for _, gid := range lig.In {
-								if name := glyphNames[gid]; name != "" {
-									nn = append(nn, name)
-								} else {
-									continue replLoop
-								}
-							}
-							newName := strings.Join(nn, "_")
-							glyphNames[lig.Out] = makeVariant(used, newName)
-						}
-					}
-				}
-			}
+		// The source glyphs of a rule may themselves get their names from a
+		// later rule, so we repeat until no more names can be found.
+		for f.nameGsubGlyphs(glyphNames, used) {
+			// pass
 		}
 	}
 
@@ -186,6 +140,83 @@ func (f *Font) MakeGlyphNames() []string {
 	return glyphNames
 }
 
+// nameGsubGlyphs uses the rules in the GSUB table to find names for unnamed
+// glyphs.  The return value indicates whether any new names were added.
+func (f *Font) nameGsubGlyphs(glyphNames []string, used map[string]bool) bool {
+	changed := false
+
+	isNamed := func(gid glyph.ID) bool {
+		return int(gid) < len(glyphNames) && glyphNames[gid] != ""
+	}
+	addName := func(gid glyph.ID, basename string) {
+		if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
+			return
+		}
+		glyphNames[gid] = makeVariant(used, basename)
+		changed = true
+	}
+
+	// All loops use a fixed order, so that the names are reproducible.
+	for _, lookup := range f.Gsub.LookupList {
+		for _, subtable := range lookup.Subtables {
+			switch subtable := subtable.(type) {
+			case *gtab.Gsub1_1:
+				for _, origGid := range sortedGlyphs(subtable.Cov) {
+					if isNamed(origGid) {
+						addName(origGid+subtable.Delta, glyphNames[origGid])
+					}
+				}
+			case *gtab.Gsub1_2:
+				for _, origGid := range sortedGlyphs(subtable.Cov) {
+					idx := subtable.Cov[origGid]
+					if isNamed(origGid) {
+						addName(subtable.SubstituteGlyphIDs[idx], glyphNames[origGid])
+					}
+				}
+			case *gtab.Gsub3_1:
+				for _, origGid := range sortedGlyphs(subtable.Cov) {
+					idx := subtable.Cov[origGid]
+					if !isNamed(origGid) {
+						continue
+					}
+					for _, newGid := range subtable.Alternates[idx] {
+						addName(newGid, glyphNames[origGid])
+					}
+				}
+			case *gtab.Gsub4_1:
+				var nn []string
+				for _, origGid := range sortedGlyphs(subtable.Cov) {
+					idx := subtable.Cov[origGid]
+					if !isNamed(origGid) {
+						continue
+					}
+					nn = append(nn[:0], glyphNames[origGid])
+				replLoop:
+					for _, lig := range subtable.Repl[idx] {
+						nn = nn[:1]
+						for _, gid := range lig.In {
+							if !isNamed(gid) {
+								continue replLoop
+							}
+							nn = append(nn, glyphNames[gid])
+						}
+						addName(lig.Out, strings.Join(nn, "_"))
+					}
+				}
+			}
+		}
+	}
+
+	return changed
+}
+
+// sortedGlyphs returns the covered glyphs in order of increasing glyph ID.
+func sortedGlyphs[T any, M ~map[glyph.ID]T](cov M) []glyph.ID {
+	glyphs := maps.Keys(cov)
+	slices.Sort(glyphs)
+	return glyphs
+}
+
 func makeVariant(used map[string]bool, basename string) string {
 	try := 0
 	name := basename
-- 
2.43.0


From 4e5508bb6111d0167ce7ebf19a9fb7e15a7fcba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:59 +0000
Subject: [PATCH 71/94] fix: MakeGlyphNames used the name of U+FFFD for
 surrogate codes

---
 names.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/names.go b/names.go
index b5919f8..8361d31 100644
--- a/names.go
+++ b/names.go
@@ -21,6 +21,7 @@ import (
 	"slices"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/exp/maps"
 
@@ -101,6 +102,9 @@ func (f *Font) MakeGlyphNames() []string {
 		a = max(a, 0)
 		b = min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
+			if !utf8.ValidRune(r) {
+				continue
+			}
 			gid := cmap.Lookup(r)
 			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
-- 
2.43.0


From d2641d85c896dd62bce17222f9911b57598f94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:29 +0000
Subject: [PATCH 72/94] fix: errors inside strings in lookup descriptions
 leaked a goroutine

---
 opentype/gtab/builder/parser.go | 48 ++++++++++++++-------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index c29a455..fda4de0 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1122,7 +1122,7 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
-			for r := range decodeString(item.val) {
+			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
@@ -1388,35 +1388,27 @@ func (p *parser) optionalIdentifier(name string) bool {
 	return true
 }
 
-func decodeString(s string) <-chan rune {
-	c := make(chan rune)
-	go func() {
-		s := s[1 : len(s)-1]
-		escape := false
-		for _, r := range s {
-			if escape {
-				escape = false
-				switch r {
-				case 'n':
-					c <- '\n'
-				case 'r':
-					c <- '\r'
-				case 't':
-					c <- '\t'
-				default:
-					c <- r
-				}
-				continue
-			}
-			if r == '\\' {
-				escape = true
-				continue
+func decodeString(s string) []rune {
+	var res []rune
+	escape := false
+	for _, r := range s[1 : len(s)-1] {
+		if escape {
+			escape = false
+			switch r {
+			case 'n':
+				r = '\n'
+			case 'r':
+				r = '\r'
+			case 't':
+				r = '\t'
 			}
-			c <- r
+		} else if r == '\\' {
+			escape = true
+			continue
 		}
-		close(c)
-	}()
-	return c
+		res = append(res, r)
+	}
+	return res
 }
 
 func isIdentifier(i item, val string) bool {
-- 
2.43.0


From 17f350fa3ef8d5270b84f5da0809a5f6ead77f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:30 +0000
Subject: [PATCH 73/94] fix: some errors in lookup descriptions had no line
 number

---
 opentype/gtab/builder/lexer.go  |  5 +++--
 opentype/gtab/builder/parser.go | 10 +++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 177f97d..ead2a5f 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -135,8 +135,9 @@ func (l *lexer) backup() {
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.items <- item{
-		typ: itemError,
-		val: fmt.Sprintf(format, args...),
+		typ:  itemError,
+		val:  fmt.Sprintf(format, args...),
+		line: l.line,
 	}
 	return nil
 }
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index fda4de0..9348df1 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -80,6 +80,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 type parser struct {
 	tokens  <-chan item
 	backlog []item
+	line    int // line number of the last token read from the lexer
 
 	fontInfo *sfnt.Font
 	cmap     cmap.Subtable
@@ -1343,7 +1344,14 @@ func (p *parser) readItem() item {
 		p.backlog = p.backlog[:n]
 		return item
 	}
-	return <-p.tokens
+
+	next, ok := <-p.tokens
+	if !ok {
+		// the lexer has stopped already
+		return item{typ: itemEOF, line: p.line}
+	}
+	p.line = next.line
+	return next
 }
 
 func (p *parser) peek() item {
-- 
2.43.0


From cc0216680448f098da1ead3ddaf977e5432fc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:04 +0000
Subject: [PATCH 74/94] fix: lookup descriptions could not be parsed for fonts
 without a usable character map

---
 opentype/gtab/builder/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 9348df1..4dabadb 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -46,10 +46,8 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 		}
 	}
 
-	cmap, err := fontInfo.CMapTable.GetBest()
-	if err != nil {
-		return nil, err
-	}
+	// Fonts without a character map can be used, but without quoted strings.
+	cmap, _ := fontInfo.CMapTable.GetBest()
 
 	_, tokens := lex(input)
 	p := &parser{
@@ -1124,8 +1122,11 @@ func (p *parser) readGlyphList() []glyph.ID {
 
 		case itemString:
 			for _, r := range decodeString(item.val) {
-				gid := p.cmap.Lookup(r)
-				if gid == 0 {
+				var gid glyph.ID
+				if p.cmap != nil {
+					gid = p.cmap.Lookup(r)
+				}
+				if gid == 0 || int(gid) >= p.fontInfo.NumGlyphs() {
 					p.fatal("rune %q not in mapped in font", r)
 				}
 				next = append(next, gid)
-- 
2.43.0


From 524b130ca69cd4011ecf459dbe71251473fa9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:05 +0000
Subject: [PATCH 75/94] fix: short lookup descriptions could exhaust the memory

---
 opentype/gtab/builder/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 4dabadb..22218d0 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -408,6 +408,11 @@ func (p *parser) readGpos1() *gtab.LookupTable {
 	return lookup
 }
 
+// maxClassPairs is the maximum size of the class pair matrix in GPOS2 lookups.
+// The limit avoids excessive memory use for descriptions with very many (empty)
+// classes.
+const maxClassPairs = 1 << 20
+
 func (p *parser) readGpos2() *gtab.LookupTable {
 	p.optional(itemColon)
 	p.optional(itemEOL)
@@ -466,6 +471,9 @@ func (p *parser) readGpos2() *gtab.LookupTable {
 					class1[g] = uint16(class1Count)
 				}
 				class1Count++
+				if class1Count > 65536 {
+					p.fatal("too many classes")
+				}
 			}
 			// We re-count the classes, in case there were empty
 			// classes listed at the end.
@@ -490,10 +498,16 @@ func (p *parser) readGpos2() *gtab.LookupTable {
 					class2[g] = uint16(class2Count)
 				}
 				class2Count++
+				if class2Count > 65536 {
+					p.fatal("too many classes")
+				}
 			}
 			class2Count = class2.NumClasses()
 			p.optional(itemEOL)
 
+			if class1Count*class2Count > maxClassPairs {
+				p.fatal("too many classes: %d * %d", class1Count, class2Count)
+			}
 			aa := make([]*gtab.PairAdjust, class1Count*class2Count)
 			adjust := make([][]*gtab.PairAdjust, class1Count)
 			for i := 0; i < class1Count; i++ {
-- 
2.43.0


From 46a1c0d785c283747c5d01ebd3229dca8e914fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:07 +0000
Subject: [PATCH 76/94] fix: GlyphName panicked for fonts with incomplete name
 lists

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index a14f269..9b8c93d 100644
--- a/font.go
+++ b/font.go
@@ -427,7 +427,7 @@ func (f *Font) GlyphName(gid glyph.ID) string {
 	case *cff.Outlines:
 		return f.Glyphs[gid].Name
 	case *glyf.Outlines:
-		if f.Names == nil {
+		if int(gid) >= len(f.Names) {
 			return ""
 		}
 		return f.Names[gid]
-- 
2.43.0


From 152d0fa2227f9a2d51a5815ae53d6acff7b9347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:08 +0000
Subject: [PATCH 77/94] fix: glyph ranges in lookup descriptions could not be
 parsed

---
 opentype/gtab/builder/explain.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7d9ec60..19503ac 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -59,7 +59,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{key + l.Delta},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(1, mappings)
 
 			case *gtab.Gsub1_2:
 				checkType(1)
@@ -70,7 +70,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{l.SubstituteGlyphIDs[idx]},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(1, mappings)
 
 			case *gtab.Gsub2_1:
 				checkType(2)
@@ -111,7 +111,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						})
 					}
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(4, mappings)
 
 			case *gtab.SeqContext1:
 				checkType(5)
@@ -387,23 +387,19 @@ type mapping struct {
 	to   []glyph.ID
 }
 
-func (ee *explainer) explainSeqMappings(mm []mapping) {
+func (ee *explainer) explainSeqMappings(lookupType int, mm []mapping) {
 	sort.SliceStable(mm, func(i, j int) bool {
 		return mm[i].from[0] < mm[j].from[0]
 	})
 
+	// only GSUB1 descriptions allow for several glyphs on the left hand side
+	canRange := lookupType == 1
+
 	sep := " "
 	for len(mm) > 0 {
 		ee.w.WriteString(sep)
 		sep = ", "
 
-		canRange := len(mm) > 2
-		for i := 1; canRange && i < len(mm); i++ {
-			if len(mm[i].from) != 1 || len(mm[i].to) != 1 {
-				canRange = false
-			}
-		}
-
 		rangeLen := 1
 		if canRange {
 			delta := mm[0].to[0] - mm[0].from[0]
@@ -418,7 +414,7 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		}
 
 		if rangeLen > 2 {
-			fmt.Fprintf(ee.w, "%s-%s -> %s-%s",
+			fmt.Fprintf(ee.w, "%s - %s -> %s - %s",
 				ee.names[mm[0].from[0]],
 				ee.names[mm[rangeLen-1].from[0]],
 				ee.names[mm[0].to[0]],
-- 
2.43.0


From 06715904ea41d6d0c298acd472818df20ccc56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:09 +0000
Subject: [PATCH 78/94] fix: descriptions of GPOS lookups with several
 subtables could not be parsed

---
 opentype/gtab/builder/explain.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 19503ac..82c4b65 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -215,7 +215,9 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos2_2:
 				checkType(2)
-				ee.w.WriteString("\n\t")
+				if i == 0 {
+					ee.w.WriteString("\n\t")
+				}
 				ee.w.WriteRune('/')
 				ee.writeGlyphList(l.Cov.Glyphs())
 				ee.w.WriteRune('/')
@@ -271,21 +273,27 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 			case *gtab.Gpos4_1:
 				checkType(4)
 				markGlyphs := l.MarkCov.Glyphs()
-				for i, gid := range markGlyphs {
-					ee.w.WriteString("\n\tmark ")
+				for j, gid := range markGlyphs {
+					if i == 0 || j > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("mark ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					rec := l.MarkArray[i]
+					rec := l.MarkArray[j]
 					fmt.Fprintf(ee.w, " %d@%d,%d", rec.Class, rec.Table.X, rec.Table.Y)
 					ee.w.WriteRune(';')
 				}
 
 				baseGlyphs := l.BaseCov.Glyphs()
-				for i, gid := range baseGlyphs {
-					ee.w.WriteString("\n\tbase ")
+				for j, gid := range baseGlyphs {
+					if i == 0 || j > 0 || len(markGlyphs) > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("base ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					anchors := l.BaseArray[i]
+					anchors := l.BaseArray[j]
 					for _, a := range anchors {
 						fmt.Fprintf(ee.w, " @%d,%d", a.X, a.Y)
 					}
-- 
2.43.0


From 9a9d07b5f8e8dbd87524072c3278d1becff9f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:10 +0000
Subject: [PATCH 79/94] fix: lookup flags in lookup descriptions could not be
 parsed

---
 opentype/gtab/builder/explain.go | 12 +++++++++++-
 opentype/gtab/builder/parser.go  |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 82c4b65..5d0a2b3 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -380,7 +380,7 @@ func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 		ee.w.WriteString(" -base")
 	}
 	if flags&gtab.IgnoreLigatures != 0 {
-		ee.w.WriteString(" -lig")
+		ee.w.WriteString(" -ligs")
 	}
 	// if flags&UseMarkFilteringSet != 0 {
 	// 	ee.w.WriteString(" -UseMarkFilteringSet")
@@ -520,6 +520,14 @@ func (ee *explainer) explainNested(actions []gtab.SeqLookup) {
 	}
 }
 
+// startClasses makes sure that class definitions are separated from any
+// preceding lookup flags.
+func (ee *explainer) startClasses() {
+	if !strings.HasSuffix(ee.w.String(), "\t") {
+		ee.w.WriteString("\n\t")
+	}
+}
+
 func (ee *explainer) defineClasses(classType string, class classdef.Table) {
 	glyphs := class.Glyphs()
 	for i, gg := range glyphs {
@@ -586,6 +594,7 @@ func (ee *explainer) explainSeqContext1(l *gtab.SeqContext1) {
 }
 
 func (ee *explainer) explainSeqContext2(l *gtab.SeqContext2) {
+	ee.startClasses()
 	ee.defineClasses("class", l.Input)
 	ee.w.WriteRune('/')
 	ee.explainCoverage(l.Cov)
@@ -645,6 +654,7 @@ func (ee *explainer) explainChainedSeqContext1(l *gtab.ChainedSeqContext1) {
 }
 
 func (ee *explainer) explainChainedSeqContext2(l *gtab.ChainedSeqContext2) {
+	ee.startClasses()
 	ee.defineClasses("backtrackclass", l.Backtrack)
 	ee.defineClasses("inputclass", l.Input)
 	ee.defineClasses("lookaheadclass", l.Lookahead)
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 22218d0..9d4d36f 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1092,6 +1092,8 @@ func (p *parser) readLookupFlags() gtab.LookupFlags {
 		switch which {
 		case "marks":
 			flags |= gtab.IgnoreMarks
+		case "rtl":
+			flags |= gtab.RightToLeft
 		case "ligs":
 			flags |= gtab.IgnoreLigatures
 		case "base":
-- 
2.43.0


From c3f5c2a28a03b63a349143985535aaa2a2889522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:27 +0000
Subject: [PATCH 80/94] fix: descriptions of lookups used glyph names which
 could not be parsed

---
 opentype/gtab/builder/explain.go | 46 ++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 5d0a2b3..7e6d29a 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/sfnt"
@@ -341,21 +342,35 @@ type explainer struct {
 }
 
 func newExplainer(fontInfo *sfnt.Font) *explainer {
-	mappings := make([]string, fontInfo.NumGlyphs())
+	numGlyphs := fontInfo.NumGlyphs()
+
+	mappings := make([]string, numGlyphs)
 	if cmap, _ := fontInfo.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		a = max(a, 0)
+		b = min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
+			// The lexer only understands a few escape sequences.
+			if !unicode.IsPrint(r) && r != '\n' && r != '\r' && r != '\t' {
+				continue
+			}
 			gid := cmap.Lookup(r)
-			if gid != 0 {
+			if gid != 0 && int(gid) < numGlyphs {
 				mappings[gid] = fmt.Sprintf("%q", string([]rune{r}))
 			}
 		}
 	}
 
-	names := make([]string, fontInfo.NumGlyphs())
+	// If several glyphs have the same name, the parser uses the last one.
+	byName := make(map[string]glyph.ID)
+	for i := range numGlyphs {
+		byName[fontInfo.GlyphName(glyph.ID(i))] = glyph.ID(i)
+	}
+
+	names := make([]string, numGlyphs)
 	for i := range names {
 		name := fontInfo.GlyphName(glyph.ID(i))
-		if name != "" {
+		if isGlyphIdentifier(name) && byName[name] == glyph.ID(i) {
 			names[i] = name
 		} else {
 			names[i] = fmt.Sprintf("%d", i)
@@ -369,6 +384,23 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 }
 
+// isGlyphIdentifier returns true if the parser will always recognise the given
+// name as a glyph name.
+func isGlyphIdentifier(name string) bool {
+	switch name {
+	case "", "class", "inputclass", "backtrackclass", "lookaheadclass":
+		// These are keywords at the start of contextual rules.
+		return false
+	}
+	for i, r := range name {
+		isStart := unicode.IsLetter(r) || r == '.' || r == '_'
+		if !isStart && (i == 0 || !unicode.IsDigit(r)) || r == unicode.ReplacementChar {
+			return false
+		}
+	}
+	return true
+}
+
 func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 	if flags&gtab.IgnoreMarks != 0 {
 		ee.w.WriteString(" -marks")
@@ -439,14 +471,12 @@ func (ee *explainer) explainSeqMappings(lookupType int, mm []mapping) {
 }
 
 func (ee *explainer) writeGlyph(gid glyph.ID) {
-	if "\""+ee.names[gid]+"\"" == ee.mapped[gid] {
+	if isGlyphIdentifier(ee.names[gid]) && "\""+ee.names[gid]+"\"" == ee.mapped[gid] {
 		ee.w.WriteString(ee.names[gid])
 	} else if ee.mapped[gid] != "" {
 		ee.w.WriteString(ee.mapped[gid])
-	} else if ee.names[gid] != "" {
-		ee.w.WriteString(ee.names[gid])
 	} else {
-		ee.w.WriteString(fmt.Sprintf("%d", gid))
+		ee.w.WriteString(ee.names[gid])
 	}
 }
 
-- 
2.43.0


From 717c70ca08ce2c24b0829e6f82b953ba577cbe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:54 +0000
Subject: [PATCH 81/94] fix: descriptions of GSUB lookups with several
 subtables could not be parsed

---
 opentype/gtab/builder/parser.go | 138 ++++++++++++++++++++++----------
 1 file changed, 97 insertions(+), 41 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 9d4d36f..c84a149 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -132,11 +132,32 @@ func (p *parser) parse() (lookups gtab.LookupList) {
 }
 
 func (p *parser) readGsub1() *gtab.LookupTable {
-	res := make(map[glyph.ID]glyph.ID)
-
 	p.optional(itemColon)
 	p.optional(itemEOL)
 	flags := p.readLookupFlags()
+
+	lookup := &gtab.LookupTable{
+		Meta: &gtab.LookupMetaInfo{
+			LookupType:  1,
+			LookupFlags: flags,
+		},
+	}
+
+	for {
+		lookup.Subtables = append(lookup.Subtables, p.readGsub1Subtable())
+
+		if !p.optional(itemOr) {
+			break
+		}
+		p.optional(itemEOL)
+	}
+
+	return lookup
+}
+
+func (p *parser) readGsub1Subtable() gtab.Subtable {
+	res := make(map[glyph.ID]glyph.ID)
+
 	for {
 		from := p.readGlyphList()
 		p.required(itemArrow, "\"->\"")
@@ -178,37 +199,50 @@ func (p *parser) readGsub1() *gtab.LookupTable {
 		}
 	}
 
-	var subtable gtab.Subtable
 	if isConstDelta {
-		subtable = &gtab.Gsub1_1{
+		return &gtab.Gsub1_1{
 			Cov:   cov.ToSet(),
 			Delta: delta,
 		}
-	} else {
-		subst := make([]glyph.ID, len(cov))
-		for gid, i := range cov {
-			subst[i] = res[gid]
-		}
-		subtable = &gtab.Gsub1_2{
-			Cov:                cov,
-			SubstituteGlyphIDs: subst,
-		}
 	}
-	return &gtab.LookupTable{
+
+	subst := make([]glyph.ID, len(cov))
+	for gid, i := range cov {
+		subst[i] = res[gid]
+	}
+	return &gtab.Gsub1_2{
+		Cov:                cov,
+		SubstituteGlyphIDs: subst,
+	}
+}
+
+func (p *parser) readGsub2() *gtab.LookupTable {
+	p.optional(itemColon)
+	p.optional(itemEOL)
+	flags := p.readLookupFlags()
+
+	lookup := &gtab.LookupTable{
 		Meta: &gtab.LookupMetaInfo{
-			LookupType:  1,
+			LookupType:  2,
 			LookupFlags: flags,
 		},
-		Subtables: []gtab.Subtable{subtable},
 	}
+
+	for {
+		lookup.Subtables = append(lookup.Subtables, p.readGsub2Subtable())
+
+		if !p.optional(itemOr) {
+			break
+		}
+		p.optional(itemEOL)
+	}
+
+	return lookup
 }
 
-func (p *parser) readGsub2() *gtab.LookupTable {
+func (p *parser) readGsub2Subtable() gtab.Subtable {
 	data := make(map[glyph.ID][]glyph.ID)
 
-	p.optional(itemColon)
-	p.optional(itemEOL)
-	flags := p.readLookupFlags()
 	for {
 		from := p.readGlyphList()
 		if len(from) != 1 {
@@ -241,26 +275,39 @@ func (p *parser) readGsub2() *gtab.LookupTable {
 	for gid, i := range cov {
 		repl[i] = data[gid]
 	}
-	subtable := &gtab.Gsub2_1{
+	return &gtab.Gsub2_1{
 		Cov:  cov,
 		Repl: repl,
 	}
+}
 
-	return &gtab.LookupTable{
+func (p *parser) readGsub3() *gtab.LookupTable {
+	p.optional(itemColon)
+	p.optional(itemEOL)
+	flags := p.readLookupFlags()
+
+	lookup := &gtab.LookupTable{
 		Meta: &gtab.LookupMetaInfo{
-			LookupType:  2,
+			LookupType:  3,
 			LookupFlags: flags,
 		},
-		Subtables: []gtab.Subtable{subtable},
 	}
+
+	for {
+		lookup.Subtables = append(lookup.Subtables, p.readGsub3Subtable())
+
+		if !p.optional(itemOr) {
+			break
+		}
+		p.optional(itemEOL)
+	}
+
+	return lookup
 }
 
-func (p *parser) readGsub3() *gtab.LookupTable {
+func (p *parser) readGsub3Subtable() gtab.Subtable {
 	res := make(map[glyph.ID][]glyph.ID)
 
-	p.optional(itemColon)
-	p.optional(itemEOL)
-	flags := p.readLookupFlags()
 	for {
 		from := p.readGlyphList()
 		if len(from) != 1 {
@@ -290,26 +337,39 @@ func (p *parser) readGsub3() *gtab.LookupTable {
 	for gid, i := range cov {
 		repl[i] = res[gid]
 	}
-	subtable := &gtab.Gsub3_1{
+	return &gtab.Gsub3_1{
 		Cov:        cov,
 		Alternates: repl,
 	}
+}
+
+func (p *parser) readGsub4() *gtab.LookupTable {
+	p.optional(itemColon)
+	p.optional(itemEOL)
+	flags := p.readLookupFlags()
 
-	return &gtab.LookupTable{
+	lookup := &gtab.LookupTable{
 		Meta: &gtab.LookupMetaInfo{
-			LookupType:  3,
+			LookupType:  4,
 			LookupFlags: flags,
 		},
-		Subtables: []gtab.Subtable{subtable},
 	}
+
+	for {
+		lookup.Subtables = append(lookup.Subtables, p.readGsub4Subtable())
+
+		if !p.optional(itemOr) {
+			break
+		}
+		p.optional(itemEOL)
+	}
+
+	return lookup
 }
 
-func (p *parser) readGsub4() *gtab.LookupTable {
+func (p *parser) readGsub4Subtable() gtab.Subtable {
 	data := make(map[glyph.ID][]gtab.Ligature)
 
-	p.optional(itemColon)
-	p.optional(itemEOL)
-	flags := p.readLookupFlags()
 	for {
 		from := p.readGlyphList()
 		if len(from) == 0 {
@@ -336,14 +396,10 @@ func (p *parser) readGsub4() *gtab.LookupTable {
 		repl[i] = data[gid]
 	}
 
-	subtable := &gtab.Gsub4_1{
+	return &gtab.Gsub4_1{
 		Cov:  cov,
 		Repl: repl,
 	}
-	return &gtab.LookupTable{
-		Meta:      &gtab.LookupMetaInfo{LookupType: 4, LookupFlags: flags},
-		Subtables: []gtab.Subtable{subtable},
-	}
 }
 
 func (p *parser) readGpos1() *gtab.LookupTable {
-- 
2.43.0


From 1ad8bf5751764baeb84d44860dda088603ecd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:50 +0000
Subject: [PATCH 82/94] fix: small fonts with shared tables could use up all
 memory

---
 opentype/classdef/classdef.go |  6 +++++-
 opentype/coverage/coverage.go |  4 ++++
 opentype/coverage/set.go      |  4 ++++
 opentype/gtab/gpos.go         |  4 ++++
 opentype/gtab/gpos5.go        |  4 ++++
 parser/parser.go              | 33 +++++++++++++++++++++++++++++++++
 6 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index a336149..61282a2 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -125,7 +125,11 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			}
 			prevEnd = endGlyphID
 
-			if classValue != 0 {
+			if classValue != 0 && startGlyphID <= endGlyphID {
+				err = p.Spend(2 * int(endGlyphID-startGlyphID))
+				if err != nil {
+					return nil, err
+				}
 				for j := int(startGlyphID); j <= int(endGlyphID); j++ {
 					res[glyph.ID(j)] = classValue
 				}
diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index c34b9db..129abaf 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -132,6 +132,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.Spend(2 * (endGlyphID - startGlyphID))
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = pos
 				pos++
diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index c215732..d9f5182 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -100,6 +100,10 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.Spend(2 * (endGlyphID - startGlyphID))
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = true
 				pos++
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 2a180bf..e944152 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -524,6 +524,10 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS2.1 table too large",
 		}
 	}
+	err = p.Spend(2 * (numRecords + int(class1Count)))
+	if err != nil {
+		return nil, err
+	}
 	records := make([]*PairAdjust, numRecords)
 	for i := 0; i < numRecords; i++ {
 		first, err := readValueRecord(p, valueFormat1)
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index 0ca81f6..8b3b2fc 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -110,6 +110,10 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				Reason:    "GPOS5.1 table too large",
 			}
 		}
+		err = p.Spend(2 * int(componentCount))
+		if err != nil {
+			return nil, err
+		}
 		anchorOffsets := make([]uint16, numOffsets)
 		for j := range anchorOffsets {
 			anchorOffsets[j], err = p.ReadUint16()
diff --git a/parser/parser.go b/parser/parser.go
index 3b0d6f2..e0110ea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,35 @@ type Parser struct {
 	from      int64
 	pos, used int
 	lastRead  int
+
+	spent int64
+}
+
+// Fonts may refer to the same data more than once, and a few bytes can stand
+// for a long range of glyphs.  To make sure that a small, malformed font cannot
+// use large amounts of time and memory, the total amount of data which is read
+// through a Parser is limited to baseBudget plus budgetPerByte times the size of
+// the input.
+const (
+	baseBudget    = 4 << 20
+	budgetPerByte = 32
+)
+
+// Spend records that n bytes worth of data have been read or are about to be
+// generated.  An error is returned if the total is out of proportion to the
+// size of the input.
+//
+// Bytes read from the input are counted automatically.  The method must be
+// called by decoders which generate a large amount of data from few bytes.
+func (p *Parser) Spend(n int) error {
+	p.spent += int64(n)
+	if p.spent > baseBudget && p.spent > baseBudget+budgetPerByte*p.r.Size() {
+		return &InvalidFontError{
+			SubSystem: "sfnt/parser",
+			Reason:    "too much shared data",
+		}
+	}
+	return nil
 }
 
 // ReadSeekSizer describes the requirements for a reader that can be used
@@ -170,6 +199,10 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 	} else if n > bufferSize {
 		panic("buffer size exceeded")
 	}
+	err := p.Spend(n)
+	if err != nil {
+		return nil, err
+	}
 
 	for p.pos+n > p.used {
 		if len(p.buf) == 0 {
-- 
2.43.0


From 16ab8aa324319bba27a79b3fd7009652a72d996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:13 +0000
Subject: [PATCH 83/94] fix: nested CFF subroutines could keep the decoder busy
 forever

---
 cff/read.go     |  3 +++
 cff/t2decode.go | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 4bffd78..fc54b5f 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -137,6 +137,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 
 	ROS, isCIDKeyed := topDict[opROS]
 	var decoders []*decodeInfo
+	budget := 4<<20 + 32*p.Size()
 	if isCIDKeyed {
 		if len(ROS) != 3 {
 			return nil, invalidSince("wrong number of ROS values")
@@ -187,6 +188,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 				gsubr:        gsubrs,
 				defaultWidth: pInfo.defaultWidth,
 				nominalWidth: pInfo.nominalWidth,
+				budget:       &budget,
 			})
 		}
 
@@ -271,6 +273,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 			gsubr:        gsubrs,
 			defaultWidth: pInfo.defaultWidth,
 			nominalWidth: pInfo.nominalWidth,
+			budget:       &budget,
 		})
 	}
 
diff --git a/cff/t2decode.go b/cff/t2decode.go
index 3dd9737..f1fbd33 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -27,6 +27,24 @@ type decodeInfo struct {
 	gsubr        cffIndex
 	defaultWidth float64
 	nominalWidth float64
+
+	// budget, if not nil, is the number of charstring bytes which may still
+	// be executed.  It is shared between all charstrings of a font, so that a
+	// small number of nested subroutines cannot generate an excessive amount
+	// of data.
+	budget *int64
+}
+
+// spend accounts for the execution of n bytes of charstring code.
+func (info *decodeInfo) spend(n int) error {
+	if info.budget == nil {
+		return nil
+	}
+	*info.budget -= int64(n) + 1
+	if *info.budget < 0 {
+		return invalidSince("charstrings too long")
+	}
+	return nil
 }
 
 type ccStage int
@@ -104,6 +122,11 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 		})
 	}
 
+	err := info.spend(len(code))
+	if err != nil {
+		return nil, err
+	}
+
 	stage := stageStart
 
 	var storage []float64
@@ -658,6 +681,10 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if err != nil {
 					return nil, err
 				}
+				err = info.spend(len(code))
+				if err != nil {
+					return nil, err
+				}
 
 			case t2return:
 				break opLoop
-- 
2.43.0


From 9209d06e6342befcee59727a26238e5c10d1bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:13 +0000
Subject: [PATCH 84/94] fix: memory for the CFF private dict was allocated
 before checking its size

---
 cff/dict.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cff/dict.go b/cff/dict.go
index 6147bd7..0010c2b 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -533,6 +533,10 @@ func (d cffDict) readPrivate(p *parser.Parser, strings *cffStrings) (*privateInf
 		return nil, errors.New("cff: missing Private DICT")
 	}
 
+	if int64(pdOffs)+int64(pdSize) > p.Size() {
+		return nil, invalidSince("Private DICT outside the file")
+	}
+
 	err := p.SeekPos(int64(pdOffs))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7c1864f659cdf98cab821e4bff7245602d0b3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:13 +0000
Subject: [PATCH 85/94] fix: name records with shared strings could use large
 amounts of memory

---
 name/name.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/name/name.go b/name/name.go
index 01ff2e7..bcc06d0 100644
--- a/name/name.go
+++ b/name/name.go
@@ -76,6 +76,10 @@ func Decode(data []byte) (*Info, error) {
 	macTables := make(map[string]*Table)
 	msTables := make(map[string]*Table)
 
+	// Records can share string data.  The following limit makes sure that the
+	// decoded strings cannot be excessively large.
+	budget := 1<<20 + 32*len(data)
+
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -103,6 +107,11 @@ recLoop:
 		}
 		nameBytes := data[storageOffset+nameOffset : storageOffset+nameOffset+nameLen]
 
+		budget -= nameLen
+		if budget < 0 {
+			return nil, errMalformedNames
+		}
+
 		// We ignore encodings we don't understand.
 		var val string
 		if platformID == 3 && encodingID == 1 { // Windows, Unicode BMP
-- 
2.43.0


From 2e8eb24d062ecda8433c5c6642dea3a1f99ca6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:51 +0000
Subject: [PATCH 86/94] fix: fonts without hmtx table caused a panic when
 widths were used

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index 14db4f7..6a32e54 100644
--- a/read.go
+++ b/read.go
@@ -274,6 +274,9 @@ func Read(r io.Reader) (*Font, error) {
 		var widths []funit.Int16
 		if hmtxInfo != nil && len(hmtxInfo.Widths) > 0 {
 			widths = hmtxInfo.Widths
+		} else {
+			// without a usable "hmtx" table, all advance widths are zero
+			widths = make([]funit.Int16, len(ttGlyphs))
 		}
 
 		var names []string
-- 
2.43.0


From 1a5b12a4dd31556680ae7d09741b2c9372472cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:44 +0000
Subject: [PATCH 87/94] fix: printing component flags with reserved bits
 overflowed the stack

---
 glyf/composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glyf/composite.go b/glyf/composite.go
index 44dbc83..889fa59 100644
--- a/glyf/composite.go
+++ b/glyf/composite.go
@@ -100,7 +100,7 @@ func (f ComponentFlag) String() string {
 		res = append(res, "UNSCALED_COMPONENT_OFFSET")
 	}
 	if f&0xE010 != 0 {
-		res = append(res, fmt.Sprintf("0x%04x", f&0xE010))
+		res = append(res, fmt.Sprintf("0x%04x", uint16(f&0xE010)))
 	}
 	return strings.Join(res, "|")
 }
-- 
2.43.0


From 18ae02247d20eeb456d7f82af2e54f771060de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:47 +0000
Subject: [PATCH 88/94] fix: underline position from the CFF table changed when
 the font was written

---
 read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 6a32e54..77ffb39 100644
--- a/read.go
+++ b/read.go
@@ -400,8 +400,9 @@ func Read(r io.Reader) (*Font, error) {
 		info.UnderlinePosition = funit.Float64(postInfo.UnderlinePosition)
 		info.UnderlineThickness = funit.Float64(postInfo.UnderlineThickness)
 	} else if fontInfo != nil {
-		info.UnderlinePosition = fontInfo.UnderlinePosition
-		info.UnderlineThickness = fontInfo.UnderlineThickness
+		// Use integer values, so that the values can be stored in the post table.
+		info.UnderlinePosition = funit.Float64(math.Round(float64(fontInfo.UnderlinePosition)))
+		info.UnderlineThickness = funit.Float64(math.Round(float64(fontInfo.UnderlineThickness)))
 	}
 
 	// Currently we set IsItalic if there is any evidence of the font being
-- 
2.43.0


From 3664753512f9d6ac5bd0bb3f17facbf21d4b4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:49 +0000
Subject: [PATCH 89/94] fix: versions with more than three decimals changed
 when the font was written

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 77ffb39..f8ea95c 100644
--- a/read.go
+++ b/read.go
@@ -566,7 +566,7 @@ func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
 
 func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
@@ -577,5 +577,5 @@ func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
-- 
2.43.0


From c7aa22b84170317af8dbd1d443a62f3747e6c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:49 +0000
Subject: [PATCH 90/94] fix: fonts with bold weight became bold when written
 and read again

---
 read.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index f8ea95c..405a49e 100644
--- a/read.go
+++ b/read.go
@@ -428,7 +428,10 @@ func Read(r io.Reader) (*Font, error) {
 	} else if headInfo != nil {
 		info.IsBold = headInfo.IsBold
 	}
-	// TODO(voss): we could also check info.Weight == font.WeightBold
+	if info.Weight != 0 && info.Weight.Rounded() == os2.WeightBold {
+		// The subfamily name derived from the weight includes "Bold".
+		info.IsBold = true
+	}
 	if nameTable != nil &&
 		strings.Contains(nameTable.Subfamily, "Bold") &&
 		!strings.Contains(nameTable.Subfamily, "Semi Bold") &&
-- 
2.43.0


From 4a02737fa946c40fd1e42865a0c91124466b62da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:04 +0000
Subject: [PATCH 91/94] fix: script of the GPOS table made from a kern table
 changed when the font was written

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 405a49e..5906c50 100644
--- a/read.go
+++ b/read.go
@@ -511,7 +511,7 @@ func Read(r io.Reader) (*Font, error) {
 
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
+				language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 8e20e83683096c5843ad6586ff28ec879a0652a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:05 +0000
Subject: [PATCH 92/94] fix: large underline positions from the CFF table
 changed when the font was written

---
 read.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 5906c50..06c2ced 100644
--- a/read.go
+++ b/read.go
@@ -401,8 +401,8 @@ func Read(r io.Reader) (*Font, error) {
 		info.UnderlineThickness = funit.Float64(postInfo.UnderlineThickness)
 	} else if fontInfo != nil {
 		// Use integer values, so that the values can be stored in the post table.
-		info.UnderlinePosition = funit.Float64(math.Round(float64(fontInfo.UnderlinePosition)))
-		info.UnderlineThickness = funit.Float64(math.Round(float64(fontInfo.UnderlineThickness)))
+		info.UnderlinePosition = roundToInt16(fontInfo.UnderlinePosition)
+		info.UnderlineThickness = roundToInt16(fontInfo.UnderlineThickness)
 	}
 
 	// Currently we set IsItalic if there is any evidence of the font being
@@ -561,6 +561,16 @@ func kernSubtables(info kern.Info) []gtab.Subtable {
 	return res
 }
 
+// roundToInt16 rounds x to the nearest value which can be represented as a
+// 16-bit signed integer.
+func roundToInt16(x funit.Float64) funit.Float64 {
+	y := math.Round(float64(x))
+	if math.IsNaN(y) {
+		return 0
+	}
+	return funit.Float64(max(math.MinInt16, min(y, math.MaxInt16)) + 0)
+}
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From 7496235dca12acb36ac8c27e80ae118ab24ac492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:06 +0000
Subject: [PATCH 93/94] fix: small and large italic angles from the CFF table
 changed when the font was written

---
 read.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 06c2ced..63fb54b 100644
--- a/read.go
+++ b/read.go
@@ -393,8 +393,11 @@ func Read(r io.Reader) (*Font, error) {
 		info.ItalicAngle = hmtxInfo.CaretAngle * 180 / math.Pi
 	}
 	// Round the italic angle so that the value can be exactly represented
-	// in the post table.
-	info.ItalicAngle = math.Round(info.ItalicAngle*65536) / 65536
+	// in the post table.  Adding 0 replaces negative zero with zero.
+	info.ItalicAngle = math.Round(info.ItalicAngle*65536)/65536 + 0
+	if info.ItalicAngle < -32768 || info.ItalicAngle >= 32768 {
+		info.ItalicAngle = math.Round(math.Mod(info.ItalicAngle, 360)*65536)/65536 + 0
+	}
 
 	if postInfo != nil {
 		info.UnderlinePosition = funit.Float64(postInfo.UnderlinePosition)
-- 
2.43.0


From 828c98dd62084d6da3543cbfa0aad283ec99358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:11 +0000
Subject: [PATCH 94/94] fix: fonts with the widest possible range of glyph
 widths could not be written as CFF

---
 cff/write.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index c8fe408..e535dd9 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -295,14 +295,14 @@ func (f *Font) selectWidths() (float64, float64) {
 	} else if nominalWidth > maxWidth-107 {
 		nominalWidth = maxWidth - 107
 	}
-	// Make sure that all differences fit into a 16.16 fixed point number.
-	if nominalWidth < maxWidth-32767 {
-		nominalWidth = maxWidth - 32767
-	} else if nominalWidth > minWidth+32767 {
-		nominalWidth = minWidth + 32767
-	}
 	// As for defaultWidth, we only use integer values.
 	nominalWidth = math.Round(nominalWidth)
+	// Make sure that all differences fit into a 16.16 fixed point number.
+	if lo := math.Ceil(maxWidth - 32767); nominalWidth < lo {
+		nominalWidth = lo
+	} else if hi := math.Floor(minWidth + 32768); nominalWidth > hi {
+		nominalWidth = hi
+	}
 	return defaultWidth, nominalWidth
 }
 
-- 
2.43.0

