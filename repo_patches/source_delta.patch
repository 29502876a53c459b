From 961941fca85b707bbde96bedf8e2eb412240a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 001/142] fix: apply idDelta to cmap format 4 glyph array
 entries

---
 sfnt_cmap.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..057df03 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -63,7 +63,11 @@ func (subtable *cmapFormat4) Get(r rune) (uint16, bool) {
 			// r-startCode  ->  difference of rune with startCode
 			// -(n-1)  ->  subtract offset from the current idRangeOffset item
 			index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-			return subtable.GlyphIdArray[index], true // index is always valid
+			id := subtable.GlyphIdArray[index] // index is always valid
+			if id != 0 {
+				id += uint16(subtable.IdDelta[i])
+			}
+			return id, true
 		}
 	}
 	return 0, false
@@ -85,6 +89,9 @@ func (subtable *cmapFormat4) ToUnicode(glyphID uint16) []rune {
 					// -(n-1)  ->  subtract offset from the current idRangeOffset item
 					index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
 					id = subtable.GlyphIdArray[index]
+					if id != 0 {
+						id += uint16(subtable.IdDelta[i])
+					}
 				}
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 			}
@@ -548,8 +555,9 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						first := int(idRangeOffset/2) - (int(segCount) - i)
+						last := first + int(subtable.EndCode[i]-subtable.StartCode[i])
+						if first < 0 || glyphIdArrayLength <= last {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
@@ -560,11 +568,19 @@ func (sfnt *SFNT) parseCmap() error {
 
 				subtable.GlyphIdArray = make([]uint16, glyphIdArrayLength)
 				for i := 0; i < int(glyphIdArrayLength); i++ {
-					glyphID := rs.ReadUint16()
-					if sfnt.Maxp.NumGlyphs <= glyphID {
-						return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
+					subtable.GlyphIdArray[i] = rs.ReadUint16()
+				}
+				for i := 0; i < int(segCount-1); i++ {
+					if subtable.IdRangeOffset[i] == 0 {
+						continue
+					}
+					first := int(subtable.IdRangeOffset[i]/2) - (int(segCount) - i)
+					last := first + int(subtable.EndCode[i]-subtable.StartCode[i])
+					for _, glyphID := range subtable.GlyphIdArray[first : last+1] {
+						if glyphID != 0 && sfnt.Maxp.NumGlyphs <= glyphID+uint16(subtable.IdDelta[i]) {
+							return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
+						}
 					}
-					subtable.GlyphIdArray[i] = glyphID
 				}
 				sfnt.Cmap.Subtables = append(sfnt.Cmap.Subtables, subtable)
 			case 6:
-- 
2.43.0


From 3d6ee003b80dab602ebfe6115fd2941e145559c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 002/142] fix: do not report runes for a glyph that another
 cmap subtable maps elsewhere

---
 sfnt_cmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 057df03..c257951 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -396,6 +396,9 @@ func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 	for _, subtable := range cmap.Subtables {
 	AppendLoop:
 		for _, r := range subtable.ToUnicode(glyphID) {
+			if cmap.Get(r) != glyphID {
+				continue // an earlier subtable maps the rune to another glyph
+			}
 			for _, r2 := range rs {
 				if r2 == r {
 					continue AppendLoop
-- 
2.43.0


From 3228e60b7ac57359bf3547d64d36381ad72fe690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 003/142] fix: draw TrueType contours that start with an
 off-curve point followed by an on-curve point

---
 sfnt_truetype.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..6510d76 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -381,6 +381,7 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					startY = float64(contour.YCoordinates[i])
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
+					prevOff = false
 				} else if !prevOff {
 					// first point is off
 					firstOff = true
-- 
2.43.0


From 7e8238eabff7ffed1117ecef567e95a59bea899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 004/142] fix: do not overflow when computing implied on-curve
 points

---
 sfnt_truetype.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 6510d76..5da7800 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -388,8 +388,8 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					prevOff = true
 				} else {
 					// first and second point are off
-					startX = float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					startY = float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					startX = (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					startY = (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
 				}
@@ -404,16 +404,16 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*float64(contour.XCoordinates[i]), y+f*float64(contour.YCoordinates[i]))
 					prevOff = false
 				} else {
-					midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				}
 			}
 		}
 		if firstOff {
 			if prevOff {
-				midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[j]) / 2.0
-				midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[j]) / 2.0
+				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
+				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
 				p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				p.QuadTo(x+f*float64(contour.XCoordinates[j]), y+f*float64(contour.YCoordinates[j]), x+f*startX, y+f*startY)
 			} else {
-- 
2.43.0


From 6bfd414da0d2ebab4b60baa2a8e52b1acb95ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 005/142] fix: draw nothing for a TrueType contour of a single
 off-curve point

---
 sfnt_truetype.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 5da7800..8e293e7 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -410,7 +410,9 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 				}
 			}
 		}
-		if firstOff {
+		if first {
+			continue // single off-curve point
+		} else if firstOff {
 			if prevOff {
 				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
 				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
-- 
2.43.0


From 078fcbde82d58559f211fa443a47a39f1ce13f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 006/142] fix: CFF glyph bounds are the bounds of the outline,
 rounded outwards

---
 sfnt.go      | 2 +-
 sfnt_util.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index f187967..649d599 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -204,7 +204,7 @@ func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
 	} else if sfnt.IsCFF {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
-			return int16(p.XMin), int16(p.YMin), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
+			return int16(math.Floor(p.XMin)), int16(math.Floor(p.YMin)), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
 		}
 	}
 	return 0, 0, 0, 0
diff --git a/sfnt_util.go b/sfnt_util.go
index fd2ef90..cc75bb4 100644
--- a/sfnt_util.go
+++ b/sfnt_util.go
@@ -4,9 +4,17 @@ import "math"
 
 type bboxPather struct {
 	XMin, XMax, YMin, YMax float64
+
+	started bool
 }
 
 func (p *bboxPather) MoveTo(x float64, y float64) {
+	if !p.started {
+		// paths always start with MoveTo, don't include the origin in the bounds
+		p.XMin, p.XMax, p.YMin, p.YMax = x, x, y, y
+		p.started = true
+		return
+	}
 	p.XMin = math.Min(p.XMin, x)
 	p.XMax = math.Max(p.XMax, x)
 	p.YMin = math.Min(p.YMin, y)
-- 
2.43.0


From fbc43aca1d016375ddf6afd4d0173c81d9f7b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 007/142] fix: return an error for CFF charstrings that end
 inside an operand or hint mask

---
 sfnt_cff.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..4230380 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -426,6 +426,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 		b0 := int32(r.ReadUint8())
 		if 32 <= b0 || b0 == cffShortint {
+			if b0 == cffShortint && r.Len() < 2 || 247 <= b0 && b0 < 255 && r.Len() < 1 || b0 == 255 && r.Len() < 4 {
+				return fmt.Errorf("%v: unexpected end of charstring", table)
+			}
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -493,7 +496,11 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 					}
 					stack = stack[:0]
 				}
-				r.ReadBytes(int64((hints + 7) / 8))
+				if n := int64((hints + 7) / 8); r.Len() < n {
+					return fmt.Errorf("%v: unexpected end of charstring", table)
+				} else {
+					r.ReadBytes(n)
+				}
 				stack = stack[:0]
 			case cffCallsubr, cffCallgsubr:
 				// callsubr and callgsubr
-- 
2.43.0


From 0e8bbaaa966be8640a64641b772ea274843545c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 008/142] fix: count the implicit vertical stem hints of the
 cntrmask operator

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4230380..43528a5 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -485,7 +485,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:0]
 			case cffHintmask, cffCntrmask:
-				if b0 == cffHintmask && 0 < len(stack) {
+				if 0 < len(stack) {
 					// vstem or vstemhm
 					if len(stack)%2 != 0 {
 						return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
-- 
2.43.0


From f060ce26b660847f55a2877fb51e1a0504c69e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 009/142] fix: only the first stack-clearing CFF operator takes
 a width argument

---
 sfnt_cff.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 43528a5..71fbdc7 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -414,6 +414,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	hints := 0
 	stack := []int32{}
 	beforeMoveto := true
+	hasParsedWidth := false
 	for {
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
@@ -441,14 +442,15 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 			if beforeMoveto && cff.version == 1 {
 				if b0 == cffHstem || b0 == cffVstem || b0 == cffVmoveto || b0 == cffEndchar || cffHstemhm <= b0 && b0 <= cffVstemhm {
-					// stack clearing operators, parse optional width
+					// stack clearing operators, parse optional width for the first
 					hasWidth := len(stack)%2 == 1
 					if b0 == cffHmoveto || b0 == cffVmoveto {
 						hasWidth = !hasWidth
 					}
-					if hasWidth {
+					if hasWidth && !hasParsedWidth && 0 < len(stack) {
 						stack = stack[1:]
 					}
+					hasParsedWidth = true
 					if b0 == cffRmoveto || b0 == cffHmoveto || b0 == cffVmoveto {
 						beforeMoveto = false
 					}
-- 
2.43.0


From 9fb383dbb475f021b010175618aca0b07c213813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 010/142] fix: name the glyph of a CFF font with a single glyph

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 71fbdc7..c1c8bd1 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -110,6 +110,8 @@ func (sfnt *SFNT) parseCFF() error {
 		}
 		charset = make([]string, charStringsINDEX.Len())
 		copy(charset, cffStandardStrings)
+	} else if charStringsINDEX.Len() == 1 {
+		charset = []string{".notdef"}
 	} else if 1 < charStringsINDEX.Len() {
 		r.Seek(int64(topDICT.Charset), 0)
 		if r.Len() == 0 {
-- 
2.43.0


From 61b85cf7e565bf5cb04395e39217e7a52ac8c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 011/142] fix: minimum kerning subtables do not affect pairs
 they do not list

---
 sfnt_truetype.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 8e293e7..7797666 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -519,6 +519,11 @@ type kernFormat0 struct {
 }
 
 func (subtable *kernFormat0) Get(l, r uint16) int16 {
+	value, _ := subtable.find(l, r)
+	return value
+}
+
+func (subtable *kernFormat0) find(l, r uint16) (int16, bool) {
 	key := uint32(l)<<16 | uint32(r)
 	lo, hi := 0, len(subtable.Pairs)
 	for lo < hi {
@@ -529,10 +534,10 @@ func (subtable *kernFormat0) Get(l, r uint16) int16 {
 		} else if key < pair.Key {
 			hi = mid
 		} else {
-			return pair.Value
+			return pair.Value, true
 		}
 	}
-	return 0
+	return 0, false
 }
 
 type kernTable struct {
@@ -543,7 +548,7 @@ func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
 		if !subtable.Coverage[1] { // kerning values
 			k += subtable.Get(l, r)
-		} else if min := subtable.Get(l, r); k < min { // minimum values (usually last subtable)
+		} else if min, ok := subtable.find(l, r); ok && k < min { // minimum values (usually last subtable)
 			k = min // TODO: test minimal kerning
 		}
 	}
-- 
2.43.0


From d9d30008718ca64154586cc4f2cbffa5046765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 012/142] fix: skip the data of unsupported kern subtables

---
 sfnt_truetype.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 7797666..56f401e 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -590,15 +590,17 @@ func (sfnt *SFNT) parseKern() error {
 		subtable := kernFormat0{}
 		startPos := r.Pos()
 		subtableVersion := r.ReadUint16()
-		if subtableVersion != 0 {
-			// TODO: supported other kern subtable versions
-			continue
-		}
 		length := r.ReadUint16()
 		format := r.ReadUint8()
 		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if format != 0 {
-			// TODO: supported other kern subtable formats
+		if subtableVersion != 0 || format != 0 {
+			// TODO: supported other kern subtable versions and formats
+			if j+1 == int(nTables) {
+				break
+			} else if length < 6 || r.Len() < int64(length)-6 {
+				return fmt.Errorf("kern: bad length for subtable %d", j)
+			}
+			_ = r.ReadBytes(int64(length) - 6)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
-- 
2.43.0


From fabe66112c8acde2c1fd146b80c868bab0fddd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 013/142] fix: check the length of kern subtables against the
 data of the table

---
 sfnt_truetype.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 56f401e..f4d0994 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -609,13 +609,12 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length) {
+		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length)-14 {
 			if j+1 == int(nTables) {
 				// for some fonts the subtable's length exceeds what can fit in a uint16
 				// we allow only the last subtable to exceed as long as it stays within the table
 				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
+				if int64(length) != (14+pairsLength)&0xFFFF || r.Len() < pairsLength {
 					return fmt.Errorf("kern: bad length for subtable %d", j)
 				}
 			} else {
@@ -640,7 +639,9 @@ func (sfnt *SFNT) parseKern() error {
 		}
 
 		// read unread bytes if length is bigger
-		_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
+		if n := int64(length) - (r.Pos() - startPos); 0 < n {
+			_ = r.ReadBytes(n)
+		}
 		sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, subtable)
 	}
 	return nil
-- 
2.43.0


From 738bbe7df2ac80fd8a51184faf5bb2287174e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 014/142] fix: parse the subtables of version 1 kern tables by
 Apple's layout

---
 sfnt_truetype.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index f4d0994..4477404 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -589,18 +589,32 @@ func (sfnt *SFNT) parseKern() error {
 
 		subtable := kernFormat0{}
 		startPos := r.Pos()
-		subtableVersion := r.ReadUint16()
-		length := r.ReadUint16()
-		format := r.ReadUint8()
-		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
+		subtableVersion, length, headerLength := uint16(0), uint32(0), int64(6)
+		var format uint8
+		if majorVersion == 0 {
+			subtableVersion = r.ReadUint16()
+			length = uint32(r.ReadUint16())
+			format = r.ReadUint8()
+			subtable.Coverage = Uint8ToFlags(r.ReadUint8())
+		} else if r.Len() < 8 {
+			return fmt.Errorf("kern: bad subtable %d", j)
+		} else {
+			// Apple's version has a 32-bit length, other coverage bits, and a tuple index
+			headerLength = 8
+			length = r.ReadUint32()
+			coverage := Uint8ToFlags(r.ReadUint8())
+			subtable.Coverage = [8]bool{!coverage[7], false, coverage[6]} // horizontal, minimum, cross-stream
+			format = r.ReadUint8()
+			_ = r.ReadUint16() // tupleIndex
+		}
 		if subtableVersion != 0 || format != 0 {
 			// TODO: supported other kern subtable versions and formats
 			if j+1 == int(nTables) {
 				break
-			} else if length < 6 || r.Len() < int64(length)-6 {
+			} else if int64(length) < headerLength || r.Len() < int64(length)-headerLength {
 				return fmt.Errorf("kern: bad length for subtable %d", j)
 			}
-			_ = r.ReadBytes(int64(length) - 6)
+			_ = r.ReadBytes(int64(length) - headerLength)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
@@ -609,12 +623,13 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length)-14 {
-			if j+1 == int(nTables) {
+		headerLength += 8
+		if int64(length) < headerLength+6*int64(nPairs) || r.Len() < int64(length)-headerLength {
+			if majorVersion == 0 && j+1 == int(nTables) {
 				// for some fonts the subtable's length exceeds what can fit in a uint16
 				// we allow only the last subtable to exceed as long as it stays within the table
 				pairsLength := 6 * int64(nPairs)
-				if int64(length) != (14+pairsLength)&0xFFFF || r.Len() < pairsLength {
+				if int64(length) != (headerLength+pairsLength)&0xFFFF || r.Len() < pairsLength {
 					return fmt.Errorf("kern: bad length for subtable %d", j)
 				}
 			} else {
-- 
2.43.0


From 439458cba938f2706b4d2431611e8026bc3c0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 015/142] fix: do not wrap around when computing the external
 leading

---
 sfnt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 649d599..8b21071 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -160,8 +160,10 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	} else {
 		if sfnt.OS2.UsWinAscent != 0 && sfnt.OS2.UsWinDescent != 0 {
 			ascender, descender = sfnt.OS2.UsWinAscent, sfnt.OS2.UsWinDescent
-			externalLeading := int(sfnt.Hhea.Ascender-sfnt.Hhea.Descender+sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent+sfnt.OS2.UsWinDescent)
-			if 0 < externalLeading {
+			externalLeading := int(sfnt.Hhea.Ascender) - int(sfnt.Hhea.Descender) + int(sfnt.Hhea.LineGap) - (int(sfnt.OS2.UsWinAscent) + int(sfnt.OS2.UsWinDescent))
+			if math.MaxUint16 < externalLeading {
+				lineGap = math.MaxUint16
+			} else if 0 < externalLeading {
 				lineGap = uint16(externalLeading)
 			} else {
 				lineGap = 0
-- 
2.43.0


From 62c720b919305cbd8586ef7794c53c8b1a04e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 016/142] fix: vertical metrics of fonts without an OS/2 table

---
 sfnt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index 8b21071..c0e0303 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -147,6 +147,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
 
+	if sfnt.OS2 == nil {
+		return ascender, descender, lineGap
+	}
 	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
 			ascender = uint16(sfnt.OS2.STypoAscender)
-- 
2.43.0


From 82770d777adf0b7c9549c1e1cc9bbaf504775caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:13 +0000
Subject: [PATCH 017/142] fix: offsets of CFF INDEX structures larger than 64kB

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c1c8bd1..eb6aa14 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1274,7 +1274,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1305,7 +1305,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From 1abe89d39d8090c6634a449d25e576ef7e1f5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:20 +0000
Subject: [PATCH 018/142] fix: write CFF INDEX structures of which all items
 are empty

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index eb6aa14..8e228d8 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1283,9 +1283,9 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if len(t.offset) < 2 {
 		return []byte{0, 0}, nil // zero count
-	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
+	} else if t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
 	}
 
-- 
2.43.0


From ab0a3fb8babefbedc4d1e369163cb58d29bfd507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:27 +0000
Subject: [PATCH 019/142] fix: SID of strings that occur more than once in a
 CFF font

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8e228d8..cd5979e 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1196,7 +1196,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From 251afc884b121b07c9a70f0b68bf90859701e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:33 +0000
Subject: [PATCH 020/142] fix: account for the offset size of the Top DICT
 INDEX

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index cd5979e..953bd57 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2256,7 +2256,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2291,7 +2291,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 		if privateDICT != nil {
 			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From 1bde5d5962b0e88e40c2cb714f68e1ef89d2445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:39 +0000
Subject: [PATCH 021/142] fix: rounding of negative italic angles when writing
 the post table

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index c0e0303..8f801a1 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1133,7 +1133,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
-- 
2.43.0


From 64667c8a9c3a3665a120389b371b22221787bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:46 +0000
Subject: [PATCH 022/142] fix: do not find glyph names for glyphs that do not
 exist

---
 sfnt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 8f801a1..d56d831 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1084,8 +1084,9 @@ func (sfnt *SFNT) parsePost() error {
 	sfnt.Post.MinMemType1 = r.ReadUint32()
 	sfnt.Post.MaxMemType1 = r.ReadUint32()
 	if version == 0x00010000 && sfnt.IsTrueType && len(b) == 32 {
-		sfnt.Post.glyphNameIndex = make([]uint16, 258)
-		for i := 0; i < 258; i++ {
+		// the names are for the 258 glyphs of the standard Macintosh ordering
+		sfnt.Post.glyphNameIndex = make([]uint16, min(258, int(sfnt.Maxp.NumGlyphs)))
+		for i := range sfnt.Post.glyphNameIndex {
 			sfnt.Post.glyphNameIndex[i] = uint16(i)
 		}
 		return nil
-- 
2.43.0


From dc8663a2a5460e895287ca4ecf10fa6f08275baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 023/142] fix: empty glyph name at the end of the post table

---
 sfnt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index d56d831..f7a4bd4 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1113,8 +1113,8 @@ func (sfnt *SFNT) parsePost() error {
 			}
 			sfnt.Post.stringData = append(sfnt.Post.stringData, r.ReadBytes(int64(length)))
 		}
-		if 1 < r.Len() {
-			return fmt.Errorf("post: bad stringData")
+		if r.Len() == 1 && r.ReadUint8() == 0 {
+			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte{}) // empty name
 		}
 		return nil
 	} else if version == 0x00025000 && sfnt.IsTrueType && len(b) == 32 {
-- 
2.43.0


From 8d9e61f88874fabe4cf4d56e2b44fd5a49ab1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:21 +0000
Subject: [PATCH 024/142] fix: set glyph names repeatedly, and leave the font
 unchanged when names cannot be stored

---
 sfnt_subset.go | 63 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..bb8e3dc 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -499,11 +499,25 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
-		b, err := sfnt.CFF.Write()
+		// copy so that the font is unchanged on error
+		cff := *sfnt.CFF
+		cff.charset = make([]string, cff.charStrings.Len())
+		if names == nil {
+			if 229 < len(cff.charset) {
+				return fmt.Errorf("CFF: names must be set explicitly for more than 229 glyphs")
+			}
+			copy(cff.charset, cffStandardStrings) // ISOAdobe
+		} else if len(names) != len(cff.charset) {
+			return fmt.Errorf("CFF: number of names must match number of glyphs")
+		} else {
+			copy(cff.charset, names)
+			cff.charset[0] = ".notdef" // the name of the first glyph is not stored
+		}
+		b, err := cff.Write()
 		if err != nil {
 			return err
 		}
+		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
 		return nil
 	}
@@ -512,35 +526,44 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
+	// create a new table so that the font is unchanged on error and the cached names are reset
+	post := &postTable{
+		ItalicAngle:        sfnt.Post.ItalicAngle,
+		UnderlinePosition:  sfnt.Post.UnderlinePosition,
+		UnderlineThickness: sfnt.Post.UnderlineThickness,
+		IsFixedPitch:       sfnt.Post.IsFixedPitch,
+		MinMemType42:       sfnt.Post.MinMemType42,
+		MaxMemType42:       sfnt.Post.MaxMemType42,
+		MinMemType1:        sfnt.Post.MinMemType1,
+		MaxMemType1:        sfnt.Post.MaxMemType1,
+
+		NumGlyphs:      sfnt.NumGlyphs(),
+		glyphNameIndex: make([]uint16, sfnt.NumGlyphs()),
+		stringData:     [][]byte{},
+	}
 
-	lastIndex := uint16(258)
+	indices := map[string]uint16{macintoshGlyphNames[0]: 0} // .notdef
 	if int(sfnt.NumGlyphs()) < len(names) {
 		names = names[:sfnt.NumGlyphs()]
 	}
 	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16 < len(post.stringData)+258 {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(len(post.stringData) + 258)
+			post.stringData = append(post.stringData, []byte(name))
+			indices[name] = index
 		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+		post.glyphNameIndex[glyphID] = index
 	}
 
-	b, err := sfnt.Post.Write()
+	b, err := post.Write()
 	if err != nil {
 		return err
 	}
-
+	sfnt.Post = post
 	sfnt.Tables["post"] = b
 	return nil
 }
-- 
2.43.0


From bfe45f0efd65d9768da26d12f34f55479d94dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:22 +0000
Subject: [PATCH 025/142] fix: sizes of the offsets in the CFF Top DICT

---
 sfnt_cff.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 953bd57..a1c731c 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2285,13 +2285,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+prevCorrect+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From 299075d59f13afb46e306ff999ca832ad6c9dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:54 +0000
Subject: [PATCH 026/142] fix: keep the .notdef glyph in subsets when it is a
 component of another glyph

---
 sfnt_subset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index bb8e3dc..505a995 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -34,6 +34,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		glyphMap[glyphID] = uint16(subsetGlyphID)
 	}
 
+	keepNotdef := false // .notdef is used by a composite glyph
 	if sfnt.IsTrueType {
 		// add dependencies for composite glyphs add the end
 		origLen := len(glyphIDs)
@@ -46,6 +47,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				return nil, err
 			}
 			for _, glyphID := range deps[1:] {
+				if glyphID == 0 {
+					keepNotdef = true
+				}
 				if _, ok := glyphMap[glyphID]; !ok {
 					glyphMap[glyphID] = uint16(len(glyphIDs))
 					glyphIDs = append(glyphIDs, glyphID)
@@ -204,7 +208,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		case "glyf":
 			w := parse.NewBinaryWriter([]byte{})
 			for i, glyphID := range glyphIDs {
-				if glyphID == 0 {
+				if glyphID == 0 && !keepNotdef {
 					// empty .notdef
 					glyfOffsets[i+1] = uint32(w.Len())
 					continue
-- 
2.43.0


From b1345cc324bc582fda1047f39daeb2484502cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 027/142] fix: renumber subroutine calls when only the bias
 changes

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a1c731c..5bf2a84 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -927,7 +927,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					}
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
+				if skipDepth == 0 && mapped && (oldIndex != newIndex || oldBias != newBias) {
 					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
 					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
 
-- 
2.43.0


From 2ad46a5225fb2d5359cad5c7defb1b7ea765ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 028/142] fix: name of the first glyph of a CFF subset

---
 sfnt_subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 505a995..fe92d0f 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -191,6 +191,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				for i, glyphID := range glyphIDs {
 					charset[i] = cff.charset[glyphID]
 				}
+				if 0 < len(charset) {
+					charset[0] = ".notdef" // the name of the first glyph is not stored
+				}
 				cff.charset = charset
 			}
 
-- 
2.43.0


From 28f4c0712a44152f2054f05e35a3d1220589b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 029/142] fix: write CID fonts without local subroutines

---
 sfnt_cff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 5bf2a84..a603f0e 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2052,6 +2052,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			return nil, fmt.Errorf("Private DICT: %w", err)
 		}
 		fonts.private[i] = privateDICT
+		fonts.localSubrs[i] = &cffINDEX{}
 
 		if privateDICT.Subrs != 0 {
 			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
-- 
2.43.0


From 42c861f39a3b59eb952246d3811a8eaac0a08ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 030/142] fix: renumber subroutine calls for every encoding of
 the subroutine number

---
 sfnt_cff.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a603f0e..8aa1f88 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -397,7 +397,8 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32) error) error {
+// parseCharString calls the callback for each operator with the reader positioned after the operator, the position of the number directly before the operator or -1, the operator, and the operand stack.
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int64, int32, []int32) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -417,6 +418,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	stack := []int32{}
 	beforeMoveto := true
 	hasParsedWidth := false
+	posNumber := int64(-1) // position of the number directly before the operator
 	for {
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
@@ -432,6 +434,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 			if b0 == cffShortint && r.Len() < 2 || 247 <= b0 && b0 < 255 && r.Len() < 1 || b0 == 255 && r.Len() < 4 {
 				return fmt.Errorf("%v: unexpected end of charstring", table)
 			}
+			posNumber = r.Pos() - 1
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -464,9 +467,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				return fmt.Errorf("%v: unexpected operator %d after moveto", table, b0)
 			}
 
-			if err := cb(r, b0, stack); err != nil {
+			if err := cb(r, posNumber, b0, stack); err != nil {
 				return fmt.Errorf("%v: %v", table, err)
 			}
+			posNumber = -1
 
 			// handle hint and subroutine operators, clear stack for most operators
 			switch b0 {
@@ -566,7 +570,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, _ int64, b0 int32, stack []int32) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -896,7 +900,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, posNumber int64, b0 int32, stack []int32) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -928,14 +932,15 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 				}
 
 				if skipDepth == 0 && mapped && (oldIndex != newIndex || oldBias != newBias) {
-					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
-					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
+					if posNumber < 0 {
+						return fmt.Errorf("subroutine number must be directly before the operator")
+					}
 
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
 					indexChanges[index] = append(indexChanges[index], cffSubrIndexChange{
-						start: offset + posNumber,
-						end:   offset + posNumber + lenNumber,
+						start: offset + uint32(posNumber),
+						end:   offset + uint32(r.Pos()) - 1, // -1 as we're past the operator
 						index: newIndex - newBias,
 					})
 				}
@@ -1063,7 +1068,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, _ int64, b0 int32, stack []int32) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
-- 
2.43.0


From 27c5fffeaa89496abd0a77748245a2c20dac194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 031/142] fix: font index of the glyphs in subsets of CID fonts

---
 sfnt_subset.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index fe92d0f..0d8bd37 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -197,6 +197,15 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				cff.charset = charset
 			}
 
+			if len(cff.fonts.private) == 1 {
+				// all glyphs use the only font
+				fonts := *cff.fonts
+				fonts.fds = nil
+				fonts.first = []uint32{0, uint32(len(glyphIDs))}
+				fonts.fd = []uint16{0}
+				cff.fonts = &fonts
+			}
+
 			// trim globalSubrs and localSubrs INDEX
 			if err := cff.ReindexSubrs(); err != nil {
 				return nil, err
-- 
2.43.0


From 6a660ffe005034cd65b05c020ba92f0891a567a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:57 +0000
Subject: [PATCH 032/142] fix: split contiguous glyph IDs from the characters
 that follow in cmap format 4

---
 sfnt_cmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index c257951..eb63787 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -223,8 +223,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 			j0, jc := 0, 0
 			for j := 1; j <= len(glyphIDs); j++ {
 				if j == len(glyphIDs) || glyphIDs[j-1]+1 != glyphIDs[j] && 8 < j-jc {
-					if 8 < j-jc && j0 != jc {
-						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
+					if 8 < j-jc {
+						if j0 != jc {
+							addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
+						}
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
 						j0, jc = j, j
 					} else if j == len(glyphIDs) {
-- 
2.43.0


From 8b1fdc48d496a83ec176e215d7b7adb4ca8d41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 033/142] fix: write cmap format 4 segments of which the glyph
 IDs equal the characters

---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index eb63787..68dafa6 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -185,9 +185,11 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
+	useArray := []bool{}
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
+		useArray = append(useArray, !contiguous)
 		if contiguous {
 			// use idDelta
 			firstGlyph := glyphIDs[0]
@@ -275,7 +277,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if !useArray[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-- 
2.43.0


From 6be333c7c34641965cb1b7cd1c9edf006f6b1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 034/142] fix: write the cmap when characters are listed more
 than once

---
 sfnt_cmap.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 68dafa6..ba19b41 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -335,6 +335,14 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 	}
 
 	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
+	n := 1
+	for i := 1; i < len(rs); i++ {
+		if rs[i] != rs[i-1] {
+			rs[n] = rs[i]
+			n++
+		}
+	}
+	rs = rs[:n]
 
 	// TODO: it may be more efficient to have several tables of different formats
 	w := parse.NewBinaryWriter([]byte{})
-- 
2.43.0


From 14d2da4bf6a843ddfb697219ab7a129c2626e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 035/142] fix: write cmap format 12 when the characters do not
 fit format 4

---
 sfnt_cmap.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index ba19b41..0e81985 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -182,7 +182,8 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 	return subtable.unicodeMap[glyphID]
 }
 
-func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
+// cmapWriteFormat4 writes the subtable and returns false when the subtable's offsets or length would overflow.
+func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) bool {
 	// rs is sorted
 	data := cmapFormat4{}
 	useArray := []bool{}
@@ -251,6 +252,11 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 	}
 	if rs[len(rs)-1] != 0xFFFF {
 		addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
+	} else if runeMap[0xFFFF] != 0 {
+		return false // last segment must map to .notdef
+	}
+	if math.MaxUint16 < 16+8*len(data.StartCode)+2*len(data.GlyphIdArray) {
+		return false
 	}
 
 	start := w.Len()
@@ -288,8 +294,8 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteUint16(glyphID)
 	}
 
-	// TODO: subtable may exceed the range of the length field (16 bits, or 65536 bytes long)
 	binary.BigEndian.PutUint16(w.Bytes()[start+2:], uint16(w.Len()-start)) // set length
+	return true
 }
 
 func cmapWriteFormat12(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
@@ -362,16 +368,20 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 		w.WriteUint16(3)  // platformID
 		w.WriteUint16(1)  // encodingID
 		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat4(w, rs, runeMap)
-	} else {
-		w.WriteUint16(0)  // platformID
-		w.WriteUint16(4)  // encodingID
-		w.WriteUint32(20) // subtableOffset
-		w.WriteUint16(3)  // platformID
-		w.WriteUint16(10) // encodingID
-		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat12(w, rs, runeMap)
+		if cmapWriteFormat4(w, rs, runeMap) {
+			return w.Bytes()
+		}
+		w = parse.NewBinaryWriter(w.Bytes()[:4])
 	}
+
+	// characters beyond the BMP, or too many for format 4
+	w.WriteUint16(0)  // platformID
+	w.WriteUint16(4)  // encodingID
+	w.WriteUint32(20) // subtableOffset
+	w.WriteUint16(3)  // platformID
+	w.WriteUint16(10) // encodingID
+	w.WriteUint32(20) // subtableOffset
+	cmapWriteFormat12(w, rs, runeMap)
 	return w.Bytes()
 }
 
-- 
2.43.0


From ab038dcfde9310db18c3ea51fcd746b5e9a5979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 036/142] fix: set the Unicode ranges of the OS/2 table in
 subsets

---
 sfnt_subset.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 0d8bd37..bf2bd7c 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -137,11 +137,20 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 	// copy and rewrite tables
 	for _, tag := range tags {
+		if tag == "cmap" && sfntOld.Cmap != nil {
+			// the OS/2 table comes before the cmap table
+			rs := make([]rune, 0, len(glyphIDs))
+			for _, glyphID := range glyphIDs {
+				if glyphID != 0 {
+					rs = append(rs, sfntOld.Cmap.ToUnicode(glyphID)...)
+				}
+			}
+			ulUnicodeRange = os2UlUnicodeRange(rs)
+		}
 		if tag == "maxp" {
 			maxp := *sfntOld.Maxp
 			sfnt.Maxp = &maxp
 			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
-			break
 		}
 	}
 	for _, tag := range tags {
@@ -155,7 +164,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		// TODO; cvt, fpgm, prep
 		case "cmap":
 			rs := make([]rune, 0, len(glyphIDs))
-			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
+			runeMap := make(map[rune]uint16, len(glyphIDs))
 			for subsetGlyphID, glyphID := range glyphIDs {
 				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
 				rs = append(rs, rsGlyph...)
@@ -163,7 +172,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 					runeMap[r] = uint16(subsetGlyphID)
 				}
 			}
-			ulUnicodeRange = os2UlUnicodeRange(rs)
 
 			sfnt.Tables[tag] = cmapWrite(rs, runeMap)
 			if err := sfnt.parseCmap(); err != nil {
-- 
2.43.0


From b836d3002d94e16652467d19c3d763b3334d52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:12 +0000
Subject: [PATCH 037/142] fix: position of the Unicode range bits of the OS/2
 table

---
 sfnt_os2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..4cb2f2c 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -166,10 +166,10 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
-- 
2.43.0


From 5af051680d67f7b2e72a6075e21afa980221001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:18 +0000
Subject: [PATCH 038/142] fix: do not modify the OS/2 table of the original
 font when subsetting

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index bf2bd7c..925d98f 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -467,7 +467,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 5ee1c3b637b635180a8887fcf10ede79f78421d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:36 +0000
Subject: [PATCH 039/142] fix: Unicode blocks of the OS/2 Unicode range bits

---
 sfnt_os2.go | 114 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 78 insertions(+), 36 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index 4cb2f2c..131f649 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -192,10 +192,8 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 6
 	} else if r < 0x0400 {
 		return 7
-	} else if r < 0x0500 {
-		return 9
 	} else if r < 0x0530 {
-		return -1
+		return 9
 	} else if r < 0x0590 {
 		return 10
 	} else if r < 0x0600 {
@@ -205,7 +203,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 	} else if r < 0x0750 {
 		return 71
 	} else if r < 0x0780 {
-		return -1
+		return 13
 	} else if r < 0x07C0 {
 		return 72
 	} else if r < 0x0800 {
@@ -244,10 +242,8 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 26
 	} else if r < 0x1200 {
 		return 28
-	} else if r < 0x1380 {
-		return 75
 	} else if r < 0x13A0 {
-		return -1
+		return 75
 	} else if r < 0x1400 {
 		return 76
 	} else if r < 0x1680 {
@@ -256,10 +252,8 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 78
 	} else if r < 0x1700 {
 		return 79
-	} else if r < 0x1720 {
-		return 84
 	} else if r < 0x1780 {
-		return -1
+		return 84
 	} else if r < 0x1800 {
 		return 80
 	} else if r < 0x18B0 {
@@ -273,7 +267,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 	} else if r < 0x19E0 {
 		return 95
 	} else if r < 0x1A00 {
-		return -1
+		return 80
 	} else if r < 0x1A20 {
 		return 96
 	} else if r < 0x1B00 {
@@ -288,8 +282,12 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 113
 	} else if r < 0x1C80 {
 		return 114
-	} else if r < 0x1E00 {
+	} else if r < 0x1D00 {
 		return -1
+	} else if r < 0x1DC0 {
+		return 4
+	} else if r < 0x1E00 {
+		return 6
 	} else if r < 0x1F00 {
 		return 29
 	} else if r < 0x2000 {
@@ -328,24 +326,40 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 46
 	} else if r < 0x27C0 {
 		return 47
+	} else if r < 0x27F0 {
+		return 38
 	} else if r < 0x2800 {
-		return -1
+		return 37
 	} else if r < 0x2900 {
 		return 82
+	} else if r < 0x2980 {
+		return 37
+	} else if r < 0x2B00 {
+		return 38
 	} else if r < 0x2C00 {
-		return -1
+		return 37
 	} else if r < 0x2C60 {
 		return 97
 	} else if r < 0x2C80 {
-		return -1
+		return 29
 	} else if r < 0x2D00 {
 		return 8
 	} else if r < 0x2D30 {
-		return -1
+		return 26
 	} else if r < 0x2D80 {
 		return 98
-	} else if r < 0x3000 {
+	} else if r < 0x2DE0 {
+		return 75
+	} else if r < 0x2E00 {
+		return 9
+	} else if r < 0x2E80 {
+		return 31
+	} else if r < 0x2FE0 {
+		return 59
+	} else if r < 0x2FF0 {
 		return -1
+	} else if r < 0x3000 {
+		return 59
 	} else if r < 0x3040 {
 		return 48
 	} else if r < 0x30A0 {
@@ -356,30 +370,38 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31A0 {
+		return 59
+	} else if r < 0x31C0 {
+		return 51
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
-		return -1
+		return 50
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
-		return -1
+		return 59
 	} else if r < 0x4E00 {
 		return 99
 	} else if r < 0xA000 {
 		return 59
-	} else if r < 0xA490 {
+	} else if r < 0xA4D0 {
 		return 83
 	} else if r < 0xA500 {
 		return -1
 	} else if r < 0xA640 {
 		return 12
-	} else if r < 0xA800 {
+	} else if r < 0xA6A0 {
+		return 9
+	} else if r < 0xA700 {
 		return -1
+	} else if r < 0xA720 {
+		return 5
+	} else if r < 0xA800 {
+		return 29
 	} else if r < 0xA830 {
 		return 100
 	} else if r < 0xA840 {
@@ -400,14 +422,14 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 118
 	} else if r < 0xAC00 {
 		return -1
-	} else if r < 0xD7AF {
+	} else if r < 0xD7B0 {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
 	} else if r < 0xFB00 {
-		return -1
+		return 61
 	} else if r < 0xFB50 {
 		return 62
 	} else if r < 0xFE00 {
@@ -419,7 +441,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 	} else if r < 0xFE30 {
 		return 64
 	} else if r < 0xFE50 {
-		return -1
+		return 65
 	} else if r < 0xFE70 {
 		return 66
 	} else if r < 0xFF00 {
@@ -428,17 +450,15 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 68
 	} else if r < 0x10000 {
 		return 69
-	} else if r < 0x10080 {
-		return 101
 	} else if r < 0x10140 {
-		return -1
+		return 101
 	} else if r < 0x10190 {
 		return 102
 	} else if r < 0x101D0 {
 		return 119
 	} else if r < 0x10200 {
 		return 120
-	} else if r < 0x102A0 {
+	} else if r < 0x10280 {
 		return -1
 	} else if r < 0x102E0 {
 		return 121
@@ -466,17 +486,23 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x10840 {
 		return 107
+	} else if r < 0x10900 {
+		return -1
+	} else if r < 0x10920 {
+		return 58
+	} else if r < 0x10940 {
+		return 121
 	} else if r < 0x10A00 {
 		return -1
 	} else if r < 0x10A60 {
 		return 108
 	} else if r < 0x12000 {
 		return -1
-	} else if r < 0x12400 {
+	} else if r < 0x12480 {
 		return 110
 	} else if r < 0x1D000 {
 		return -1
-	} else if r < 0x1D100 {
+	} else if r < 0x1D250 {
 		return 88
 	} else if r < 0x1D300 {
 		return -1
@@ -488,18 +514,34 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x1D800 {
 		return 89
-	} else if r < 0x1F030 {
+	} else if r < 0x1F000 {
 		return -1
 	} else if r < 0x1F0A0 {
 		return 122
+	} else if r < 0x20000 {
+		return -1
+	} else if r < 0x2A6E0 {
+		return 59
+	} else if r < 0x2F800 {
+		return -1
+	} else if r < 0x2FA20 {
+		return 61
 	} else if r < 0xE0000 {
 		return -1
 	} else if r < 0xE0080 {
 		return 92
+	} else if r < 0xE0100 {
+		return -1
+	} else if r < 0xE01F0 {
+		return 91
 	} else if r < 0xF0000 {
 		return -1
 	} else if r < 0xFFFFE {
 		return 90
+	} else if r < 0x100000 {
+		return -1
+	} else if r < 0x10FFFE {
+		return 90
 	}
 	return -1
 }
-- 
2.43.0


From 79df635cb6a800ff650137b98d69cda3c2526446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:41 +0000
Subject: [PATCH 040/142] fix: keep zero values of minimum kern subtables in
 subsets

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 925d98f..f4b0534 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -413,7 +413,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						if rOrig == 0 {
 							continue
 						}
-						if value := subtable.Get(lOrig, rOrig); value != 0 {
+						// zero values matter only as minimum
+						if value, ok := subtable.find(lOrig, rOrig); ok && (value != 0 || subtable.Coverage[1]) {
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
 								Value: value,
-- 
2.43.0


From 0fe62a09a78162ef62c38c42a6633f2bb9f5cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:47 +0000
Subject: [PATCH 041/142] fix: split kern subtables of subsets that exceed the
 length field

---
 sfnt_subset.go   | 10 ++++++++--
 sfnt_truetype.go |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index f4b0534..1ca1902 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -422,11 +422,17 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						}
 					}
 				}
-				if 0 < len(pairs) {
+				for 0 < len(pairs) {
+					// split subtables of which the length would overflow
+					n := len(pairs)
+					if maxKernPairs < n {
+						n = maxKernPairs
+					}
 					kern.Subtables = append(kern.Subtables, kernFormat0{
 						Coverage: subtable.Coverage,
-						Pairs:    pairs,
+						Pairs:    pairs[:n:n],
 					})
+					pairs = pairs[n:]
 				}
 			}
 			if len(kern.Subtables) == 0 {
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 4477404..b3c0bcd 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -540,6 +540,9 @@ func (subtable *kernFormat0) find(l, r uint16) (int16, bool) {
 	return 0, false
 }
 
+// maxKernPairs is the maximum number of pairs that fits in the length field of a kern subtable
+const maxKernPairs = (math.MaxUint16 - 14) / 6
+
 type kernTable struct {
 	Subtables []kernFormat0
 }
-- 
2.43.0


From b62eb361f266521c97a73e3e1d51ee6e0651fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 042/142] fix: parse embedded CFF fonts

---
 sfnt.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f7a4bd4..0186a62 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -403,20 +403,24 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 	}
 
-	if embedded && sfnt.IsCFF {
-		if err := sfnt.parseCFF(); err != nil {
-			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+	// required tables before parsing other tables, embedded CFF fonts may have neither
+	optional := embedded && sfnt.IsCFF
+	if _, ok := tables["head"]; ok || !optional {
+		if err := sfnt.parseHead(); err != nil {
 			return nil, err
 		}
-		return sfnt, nil
 	}
-
-	// required tables before parsing other tables
-	if err := sfnt.parseHead(); err != nil {
-		return nil, err
-	} else if err := sfnt.parseMaxp(); err != nil {
+	if _, ok := tables["maxp"]; ok || !optional {
+		if err := sfnt.parseMaxp(); err != nil {
+			return nil, err
+		}
+	} else if err := sfnt.parseCFF(); err != nil {
 		return nil, err
+	} else {
+		sfnt.Maxp = &maxpTable{
+			Version:   0x00005000,
+			NumGlyphs: uint16(sfnt.CFF.charStrings.Len()),
+		}
 	}
 	if sfnt.IsTrueType {
 		if err := sfnt.parseLoca(); err != nil {
@@ -447,6 +451,9 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		case "hhea":
 			err = sfnt.parseHhea()
 		case "hmtx":
+			if sfnt.Hhea == nil && optional {
+				continue
+			}
 			err = sfnt.parseHmtx()
 		case "kern":
 			err = sfnt.parseKern()
@@ -459,6 +466,9 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		case "vhea":
 			err = sfnt.parseVhea()
 		case "vmtx":
+			if sfnt.Vhea == nil && optional {
+				continue
+			}
 			err = sfnt.parseVmtx()
 		}
 		if err != nil {
-- 
2.43.0


From 34efd176c5252bd7ca9fda704c36c5ae9cd57c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:37 +0000
Subject: [PATCH 043/142] fix: query fonts that lack optional tables

---
 sfnt.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 0186a62..0165eba 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -115,6 +115,8 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -128,6 +130,8 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
@@ -137,6 +141,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		return ascender, descender, lineGap
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -188,13 +195,16 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
-- 
2.43.0


From 221574974959a16f83f18aa1dfa7a4a77139f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 044/142] fix: subset embedded fonts and to tables without maxp

---
 sfnt_subset.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1ca1902..b36811e 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -108,7 +108,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		advances[subsetGlyphID] = sfnt.GlyphAdvance(glyphID)
 	}
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
@@ -147,15 +147,13 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			}
 			ulUnicodeRange = os2UlUnicodeRange(rs)
 		}
-		if tag == "maxp" {
-			maxp := *sfntOld.Maxp
-			sfnt.Maxp = &maxp
-			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
-		}
 	}
+	maxp := *sfntOld.Maxp
+	sfnt.Maxp = &maxp
+	sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
 	for _, tag := range tags {
 		table, ok := sfntOld.Tables[tag]
-		if !ok {
+		if !ok || tag == "hmtx" && sfntOld.Hmtx == nil {
 			continue
 		}
 
-- 
2.43.0


From 4a49b2896e6635d229f3243f6cc08538cd7bd116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 045/142] fix: subset the vertical metrics

---
 sfnt_subset.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index b36811e..6102c65 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -124,6 +124,14 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 	//}
 
+	numberOfVMetrics := uint16(len(glyphIDs)) // for vhea and vmtx
+	for sfnt.Vmtx != nil && 1 < numberOfVMetrics {
+		if sfnt.Vmtx.Advance(glyphIDs[numberOfVMetrics-1]) != sfnt.Vmtx.Advance(glyphIDs[numberOfVMetrics-2]) {
+			break
+		}
+		numberOfVMetrics--
+	}
+
 	// copy to new SFNT
 	sfntOld := sfnt
 	sfnt = &SFNT{
@@ -153,7 +161,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
 	for _, tag := range tags {
 		table, ok := sfntOld.Tables[tag]
-		if !ok || tag == "hmtx" && sfntOld.Hmtx == nil {
+		if !ok || tag == "hmtx" && sfntOld.Hmtx == nil || tag == "vmtx" && sfntOld.Vmtx == nil {
 			continue
 		}
 
@@ -503,6 +511,33 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MinMemType1:        sfntOld.Post.MinMemType1,
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
+		case "vhea":
+			w := parse.NewBinaryWriter(make([]byte, 0, len(table)))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(numberOfVMetrics) // numberOfVMetrics
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		case "vmtx":
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+			sfnt.Vmtx.TopSideBearings = make([]int16, len(glyphIDs)-int(numberOfVMetrics))
+
+			w := parse.NewBinaryWriter([]byte{})
+			for subsetGlyphID, glyphID := range glyphIDs {
+				tsb := sfntOld.Vmtx.TopSideBearing(glyphID)
+				if subsetGlyphID < int(numberOfVMetrics) {
+					sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = sfntOld.Vmtx.Advance(glyphID)
+					sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = tsb
+					w.WriteUint16(sfntOld.Vmtx.Advance(glyphID))
+				} else {
+					sfnt.Vmtx.TopSideBearings[subsetGlyphID-int(numberOfVMetrics)] = tsb
+				}
+				w.WriteInt16(tsb)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		default:
 			sfnt.Tables[tag] = table
 		}
-- 
2.43.0


From 1d6dce40070035a3253307618e6d8d86e5262588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 046/142] fix: return an error for glyphs that do not exist for
 any table selection when subsetting

---
 sfnt_subset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 6102c65..c63151d 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,12 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	for _, glyphID := range glyphIDs {
+		if sfnt.NumGlyphs() <= glyphID {
+			return nil, fmt.Errorf("bad glyphID %v", glyphID)
+		}
+	}
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
-- 
2.43.0


From 9b0064b87cb8cc0dc2d8f08d0bd226c3fc8689d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:11 +0000
Subject: [PATCH 047/142] fix: do not map the characters of the .notdef glyph
 in subsets

---
 sfnt_subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index c63151d..2dd06b6 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -178,6 +178,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			rs := make([]rune, 0, len(glyphIDs))
 			runeMap := make(map[rune]uint16, len(glyphIDs))
 			for subsetGlyphID, glyphID := range glyphIDs {
+				if glyphID == 0 {
+					continue
+				}
 				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
 				rs = append(rs, rsGlyph...)
 				for _, r := range rsGlyph {
-- 
2.43.0


From 8520bad6261dcbfa9c9f02b5ac742cda351b0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 048/142] fix: write fonts without head table

---
 sfnt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 0165eba..6903ee1 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -552,7 +552,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
-- 
2.43.0


From 1dc2cac87380f4835d1453e362395fc92508d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:29 +0000
Subject: [PATCH 049/142] fix: query fonts that lack the outline tables

---
 sfnt.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 6903ee1..9e2dce7 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -112,7 +112,7 @@ func (sfnt *SFNT) GlyphToUnicode(glyphID uint16) []rune {
 
 // GlyphName returns the name of the glyph. It returns an empty string when no name exists.
 func (sfnt *SFNT) GlyphName(glyphID uint16) string {
-	if sfnt.IsCFF {
+	if sfnt.IsCFF && sfnt.CFF != nil {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
 	} else if sfnt.Post == nil {
@@ -123,7 +123,7 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 
 // FindGlyphName returns the glyphID for a given glyph name. When the name is not defined it returns 0.
 func (sfnt *SFNT) FindGlyphName(name string) uint16 {
-	if sfnt.IsCFF {
+	if sfnt.IsCFF && sfnt.CFF != nil {
 		for glyphID, glyphName := range sfnt.CFF.charset {
 			if name == glyphName {
 				return uint16(glyphID)
@@ -185,9 +185,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 
 // GlyphPath draws the glyph's contour as a path to the pather interface. It will use the specified ppem (pixels-per-EM) for hinting purposes. The path is draws to the (x,y) coordinate and scaled using the given scale factor.
 func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64, hinting Hinting) error {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		return sfnt.Glyf.ToPath(p, glyphID, ppem, x, y, scale, hinting)
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		return sfnt.CFF.ToPath(p, glyphID, ppem, x, y, scale, hinting)
 	}
 	return fmt.Errorf("only TrueType and CFF are supported")
@@ -211,12 +211,12 @@ func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 
 // GlyphBounds returns the bounding rectangle (xmin,ymin,xmax,ymax) of the glyph.
 func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		contour, err := sfnt.Glyf.Contour(glyphID)
 		if err == nil {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
 		}
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
 			return int16(math.Floor(p.XMin)), int16(math.Floor(p.YMin)), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
-- 
2.43.0


From f3cb014bd237895c7250d02a492832c809ba931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 050/142] fix: leave the font unchanged when merging fails

---
 sfnt_merge.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..8839669 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -22,6 +22,57 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return nil // sfnt2 only contains .notdef
 	}
 
+	// work on a copy so that the font is unchanged on error
+	merged := sfnt.copyForMerge()
+	if err := merged.merge(sfnt2, options); err != nil {
+		return err
+	}
+	*sfnt = *merged
+	return nil
+}
+
+// copyForMerge copies the font and the tables that are modified in-place when merging.
+func (sfnt *SFNT) copyForMerge() *SFNT {
+	dst := *sfnt
+	dst.Tables = make(map[string][]byte, len(sfnt.Tables))
+	for tag, table := range sfnt.Tables {
+		if tag == "head" || tag == "hhea" || tag == "OS/2" {
+			table = append([]byte{}, table...)
+		}
+		dst.Tables[tag] = table
+	}
+	if sfnt.Maxp != nil {
+		maxp := *sfnt.Maxp
+		dst.Maxp = &maxp
+	}
+	if sfnt.Head != nil {
+		head := *sfnt.Head
+		dst.Head = &head
+	}
+	if sfnt.Hhea != nil {
+		hhea := *sfnt.Hhea
+		dst.Hhea = &hhea
+	}
+	if sfnt.OS2 != nil {
+		os2 := *sfnt.OS2
+		dst.OS2 = &os2
+	}
+	if sfnt.Glyf != nil && sfnt.Loca != nil {
+		loca := *sfnt.Loca
+		dst.Loca = &loca
+		dst.Glyf = &glyfTable{data: sfnt.Glyf.data, loca: dst.Loca}
+	}
+	if sfnt.Kern != nil {
+		dst.Kern = &kernTable{Subtables: append([]kernFormat0{}, sfnt.Kern.Subtables...)}
+	}
+	if sfnt.CFF != nil {
+		cff := *sfnt.CFF
+		dst.CFF = &cff
+	}
+	return &dst
+}
+
+func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
-- 
2.43.0


From 03d32cca016558b061d41ef266c69f2733c17059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 051/142] fix: rebuild the glyf and loca tables when merging so
 that every glyph keeps its data

---
 sfnt_merge.go | 127 +++++++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 69 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 8839669..262d1f4 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -98,90 +98,79 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 
 	// update glyf/loca or CFF tables
 	if sfnt.IsTrueType {
-		glyf, ok1 := sfnt.Tables["glyf"]
-		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok1 := sfnt.Tables["glyf"]
+		_, ok2 := sfnt2.Tables["glyf"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
 		if !ok1 || !ok2 || !ok3 || !ok4 {
 			return fmt.Errorf("glyf of loca tables missing")
 		}
 
-		// skip .notdef
-		firstGlyf, _ := sfnt2.Loca.Get(1)
-		glyf2 = glyf2[firstGlyf:]
-
-		// update glyphIDs of composite glyphs and make sure not to write to glyf2
-		startGlyf := uint32(len(glyf))
-		glyf = append(glyf, glyf2...)
-		for glyphID := 1; glyphID < int(sfnt2.NumGlyphs()); glyphID++ {
-			// +1 to skip .notdef
-			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
-				start, _ := sfnt2.Loca.Get(uint16(glyphID))
-				start += startGlyf - firstGlyf
-
-				offset := uint32(10)
-				for {
-					flags := binary.BigEndian.Uint16(glyf[start+offset:])
-					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
-
-					length, more := glyfCompositeLength(flags)
-					if !more {
-						break
+		wGlyf := parse.NewBinaryWriter([]byte{})
+		offsets := make([]uint32, int(numGlyphs)+1)
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				wGlyf.WriteBytes(sfnt.Glyf.Get(uint16(glyphID)))
+			} else {
+				// +1 to skip .notdef
+				glyphID2 := uint16(1+glyphID) - origNumGlyphs
+				start := wGlyf.Len()
+				wGlyf.WriteBytes(sfnt2.Glyf.Get(glyphID2))
+
+				// update glyphIDs of composite glyphs
+				if sfnt2.Glyf.IsComposite(glyphID2) {
+					b := wGlyf.Bytes()[start:]
+					offset := uint32(10)
+					for {
+						flags := binary.BigEndian.Uint16(b[offset:])
+						subGlyphID := binary.BigEndian.Uint16(b[offset+2:])
+						if subGlyphID == 0 {
+							return fmt.Errorf("glyf: glyph %d uses .notdef", glyphID2)
+						}
+						binary.BigEndian.PutUint16(b[offset+2:], origNumGlyphs+subGlyphID-1)
+
+						length, more := glyfCompositeLength(flags)
+						if !more {
+							break
+						}
+						offset += length
 					}
-					offset += length
 				}
 			}
-		}
-		sfnt.Tables["glyf"] = glyf
-		sfnt.Glyf.data = glyf
-
-		if _, ok := sfnt.Tables["loca"]; ok {
-			indexToLocFormat := int16(1) // long format
-			if len(glyf) <= math.MaxUint16 {
-				indexToLocFormat = 0 // short format
-			}
-			n := 2 * (numGlyphs + 1)
-			if indexToLocFormat == 1 {
-				n *= 2
-			}
 
-			// write current offsets
-			glyphID := 0
-			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
-				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
-				sfnt.Head.IndexToLocFormat = indexToLocFormat
+			// padding to ensure glyph offsets are on even bytes for loca short format
+			if wGlyf.Len()%2 == 1 {
+				wGlyf.WriteByte(0)
 			}
+			offsets[glyphID+1] = uint32(wGlyf.Len())
+		}
 
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
-				var offset uint32
-				if glyphID < int(origNumGlyphs) {
-					offset, _ = sfnt.Loca.Get(uint16(glyphID))
-				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
-					offset += startGlyf - firstGlyf
-				}
+		indexToLocFormat := int16(1) // long format
+		if wGlyf.Len() <= math.MaxUint16 {
+			indexToLocFormat = 0 // short format
+		}
+		if table, ok := sfnt.Tables["head"]; ok {
+			binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
+			sfnt.Head.IndexToLocFormat = indexToLocFormat
+		}
 
-				if indexToLocFormat == 0 {
-					// short format
-					w.WriteUint16(uint16(offset / 2))
-				} else {
-					// long format
-					w.WriteUint32(offset)
-				}
+		w := parse.NewBinaryWriter(make([]byte, 0, 4*len(offsets)))
+		for _, offset := range offsets {
+			if indexToLocFormat == 0 {
+				// short format
+				w.WriteUint16(uint16(offset / 2))
+			} else {
+				// long format
+				w.WriteUint32(offset)
 			}
-
-			sfnt.Tables["loca"] = w.Bytes()
-			sfnt.Loca.Format = indexToLocFormat
-			sfnt.Loca.data = w.Bytes()
 		}
 
+		sfnt.Tables["glyf"] = wGlyf.Bytes()
+		sfnt.Glyf.data = wGlyf.Bytes()
+		sfnt.Tables["loca"] = w.Bytes()
+		sfnt.Loca.Format = indexToLocFormat
+		sfnt.Loca.data = w.Bytes()
+
 		if _, ok := sfnt.Tables["kern"]; ok {
 			// update glyph IDs in kern table
 			for _, subtable := range sfnt2.Kern.Subtables {
-- 
2.43.0


From 45157c9f24887cff49fe656ec9da4e5326535632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 052/142] fix: merge the kerning of all glyph pairs of both
 fonts

---
 sfnt_merge.go    | 48 +++++++++++++++++++++++++++++-------------------
 sfnt_subset.go   | 13 +------------
 sfnt_truetype.go | 15 +++++++++++++++
 3 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 262d1f4..eaf0e1a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -171,27 +171,19 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Loca.Format = indexToLocFormat
 		sfnt.Loca.data = w.Bytes()
 
-		if _, ok := sfnt.Tables["kern"]; ok {
+		_, ok1 = sfnt.Tables["kern"]
+		_, ok2 = sfnt2.Tables["kern"]
+		if ok1 || ok2 {
 			// update glyph IDs in kern table
-			for _, subtable := range sfnt2.Kern.Subtables {
-				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
-						// skip .notdef
-						continue
-					}
-					pairs[i] = kernPair{
-						Key:   offset + pair.Key,
-						Value: pair.Value,
-					}
-				}
-				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
-					Coverage: subtable.Coverage,
-					Pairs:    pairs,
-				})
+			kern := &kernTable{}
+			if ok1 && sfnt.Kern != nil {
+				kern.merge(sfnt.Kern, 0, origNumGlyphs, 0)
 			}
-			if 0 < len(sfnt.Kern.Subtables) {
+			if ok2 && sfnt2.Kern != nil {
+				kern.merge(sfnt2.Kern, 1, sfnt2.NumGlyphs(), origNumGlyphs-1) // skip .notdef
+			}
+			if ok1 || 0 < len(kern.Subtables) {
+				sfnt.Kern = kern
 				sfnt.Tables["kern"] = sfnt.Kern.Write()
 			}
 		}
@@ -443,3 +435,21 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	}
 	return nil
 }
+
+// merge adds the pairs of another kern table of which both glyph IDs are in [first,end), where all glyph IDs are raised by the given offset.
+func (kern *kernTable) merge(kern2 *kernTable, first, end, offset uint16) {
+	for _, subtable := range kern2.Subtables {
+		pairs := make([]kernPair, 0, len(subtable.Pairs))
+		for _, pair := range subtable.Pairs {
+			left, right := uint16(pair.Key>>16), uint16(pair.Key)
+			if left < first || end <= left || right < first || end <= right {
+				continue
+			}
+			pairs = append(pairs, kernPair{
+				Key:   uint32(left+offset)<<16 | uint32(right+offset),
+				Value: pair.Value,
+			})
+		}
+		kern.add(subtable.Coverage, pairs)
+	}
+}
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 2dd06b6..1b03871 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -437,18 +437,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						}
 					}
 				}
-				for 0 < len(pairs) {
-					// split subtables of which the length would overflow
-					n := len(pairs)
-					if maxKernPairs < n {
-						n = maxKernPairs
-					}
-					kern.Subtables = append(kern.Subtables, kernFormat0{
-						Coverage: subtable.Coverage,
-						Pairs:    pairs[:n:n],
-					})
-					pairs = pairs[n:]
-				}
+				kern.add(subtable.Coverage, pairs)
 			}
 			if len(kern.Subtables) == 0 {
 				continue
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index b3c0bcd..d9337f1 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -547,6 +547,21 @@ type kernTable struct {
 	Subtables []kernFormat0
 }
 
+// add adds the pairs as subtables, and splits subtables of which the length would overflow.
+func (kern *kernTable) add(coverage [8]bool, pairs []kernPair) {
+	for 0 < len(pairs) {
+		n := len(pairs)
+		if maxKernPairs < n {
+			n = maxKernPairs
+		}
+		kern.Subtables = append(kern.Subtables, kernFormat0{
+			Coverage: coverage,
+			Pairs:    pairs[:n:n],
+		})
+		pairs = pairs[n:]
+	}
+}
+
 func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
 		if !subtable.Coverage[1] { // kerning values
-- 
2.43.0


From db31b89e64303360572f640d6f6bc3322279b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 053/142] fix: merge fonts of which one has no OS/2 table

---
 sfnt_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index eaf0e1a..5e66457 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -386,7 +386,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt.OS2 != nil && sfnt2.OS2 != nil {
 		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
-- 
2.43.0


From 0720c062bcb4f475327bb0c3ea76f6ae17002e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 054/142] fix: return an error when the metrics or characters
 of a font are missing when merging

---
 sfnt_merge.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 5e66457..719d58d 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -20,6 +20,10 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return fmt.Errorf("too many glyphs for one font")
 	} else if sfnt2.NumGlyphs() < 2 {
 		return nil // sfnt2 only contains .notdef
+	} else if sfnt.Hmtx != nil && sfnt2.Hmtx == nil {
+		return fmt.Errorf("hmtx table missing")
+	} else if sfnt.Cmap != nil && sfnt2.Cmap == nil {
+		return fmt.Errorf("cmap table missing")
 	}
 
 	// work on a copy so that the font is unchanged on error
@@ -297,7 +301,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["CFF "] = b
 	}
 
-	if _, ok := sfnt.Tables["hmtx"]; ok {
+	if _, ok := sfnt.Tables["hmtx"]; ok && sfnt.Hmtx != nil {
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
 		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
@@ -340,7 +344,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if _, ok := sfnt.Tables["cmap"]; ok {
+	if _, ok := sfnt.Tables["cmap"]; ok && sfnt.Cmap != nil {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
 		if options.RearrangeCmap {
-- 
2.43.0


From 05a20883bfb23f953a7023a5df96b02094cdf193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 055/142] fix: update the number of glyphs when merging into a
 font without maxp table

---
 sfnt_merge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 719d58d..8eefcb2 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -80,7 +80,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
-	if _, ok := sfnt.Tables["maxp"]; ok {
+	if sfnt.Maxp != nil {
 		sfnt.Maxp.NumGlyphs = numGlyphs
 		if !sfnt.IsCFF {
 			sfnt.Maxp.MaxPoints = max(sfnt.Maxp.MaxPoints, sfnt2.Maxp.MaxPoints)
@@ -97,7 +97,9 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			sfnt.Maxp.MaxComponentElements = max(sfnt.Maxp.MaxComponentElements, sfnt2.Maxp.MaxComponentElements)
 			sfnt.Maxp.MaxComponentDepth = max(sfnt.Maxp.MaxComponentDepth, sfnt2.Maxp.MaxComponentDepth)
 		}
-		sfnt.Tables["maxp"] = sfnt.Maxp.Write()
+		if _, ok := sfnt.Tables["maxp"]; ok {
+			sfnt.Tables["maxp"] = sfnt.Maxp.Write()
+		}
 	}
 
 	// update glyf/loca or CFF tables
-- 
2.43.0


From f8ec3aeacd251d52392332c441395ed9c03670e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 056/142] fix: do not map U+FFFF to .notdef when rearranging
 the character map

---
 sfnt_merge.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 8eefcb2..02fdd69 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -350,8 +350,6 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
 		if options.RearrangeCmap {
-			rs = append(rs, 65535) // .notdef
-			runeMap[65535] = 0
 			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
 				r := rune(glyphID + 32) // unicode codepoints below 33 don't display in firefox
 				rs = append(rs, r)
-- 
2.43.0


From 60cfa48a366f313a2d21ce67bbe9696becb468ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:14 +0000
Subject: [PATCH 057/142] fix: ignore the characters of the .notdef glyph when
 merging

---
 sfnt_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 02fdd69..0d1c18b 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -356,7 +356,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 				runeMap[r] = uint16(glyphID)
 			}
 		} else {
-			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
 				var rsGlyph []rune
 				if glyphID < int(origNumGlyphs) {
 					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
-- 
2.43.0


From b584ceb6dd6e6a72471bc9295fedf489d72b4959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 058/142] fix: keep the glyph names of both fonts when merging

---
 sfnt.go        | 39 +++++++++++++++++++++++++++++++++++++++
 sfnt_merge.go  | 50 ++++++++++++++++++++++++--------------------------
 sfnt_subset.go | 33 +++------------------------------
 3 files changed, 66 insertions(+), 56 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 9e2dce7..b049cd2 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1052,6 +1052,45 @@ type postTable struct {
 	once           sync.Once
 }
 
+// copyFields returns a copy of the table without glyph names.
+func (post *postTable) copyFields() *postTable {
+	return &postTable{
+		ItalicAngle:        post.ItalicAngle,
+		UnderlinePosition:  post.UnderlinePosition,
+		UnderlineThickness: post.UnderlineThickness,
+		IsFixedPitch:       post.IsFixedPitch,
+		MinMemType42:       post.MinMemType42,
+		MaxMemType42:       post.MaxMemType42,
+		MinMemType1:        post.MinMemType1,
+		MaxMemType1:        post.MaxMemType1,
+	}
+}
+
+// setNames sets the glyph names of a table without glyph names.
+func (post *postTable) setNames(numGlyphs uint16, names []string) error {
+	post.NumGlyphs = numGlyphs
+	post.glyphNameIndex = make([]uint16, numGlyphs)
+	post.stringData = [][]byte{}
+
+	indices := map[string]uint16{macintoshGlyphNames[0]: 0} // .notdef
+	if int(numGlyphs) < len(names) {
+		names = names[:numGlyphs]
+	}
+	for glyphID, name := range names {
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16 < len(post.stringData)+258 {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(len(post.stringData) + 258)
+			post.stringData = append(post.stringData, []byte(name))
+			indices[name] = index
+		}
+		post.glyphNameIndex[glyphID] = index
+	}
+	return nil
+}
+
 func (post *postTable) Get(glyphID uint16) string {
 	if len(post.glyphNameIndex) <= int(glyphID) {
 		return ""
diff --git a/sfnt_merge.go b/sfnt_merge.go
index 0d1c18b..3eef70f 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -401,40 +401,38 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-		if sfnt.Post.NumGlyphs == 0 {
-			// initialise the first font to zero
-			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
-		}
-		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
-			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
-				// reuse existing names
-				index = sfnt.Post.glyphNameIndex[glyphID]
-			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			} else {
-				index = uint16(len(sfnt.Post.stringData) + 258)
-				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
+	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post != nil {
+		names := make([]string, numGlyphs)
+		for glyphID := range names {
+			if glyphID < int(origNumGlyphs) {
+				names[glyphID] = sfnt.Post.Get(uint16(glyphID))
+			} else if sfnt2.Post != nil {
+				// +1 to skip .notdef
+				names[glyphID] = sfnt2.Post.Get(uint16(1+glyphID) - origNumGlyphs)
 			}
-			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
 		}
 
-		if sfnt2.Post.IsFixedPitch == 0 {
-			sfnt.Post.IsFixedPitch = 0
+		post := sfnt.Post.copyFields()
+		if sfnt2.Post != nil {
+			if sfnt2.Post.IsFixedPitch == 0 {
+				post.IsFixedPitch = 0
+			}
+			post.MinMemType42 += sfnt2.Post.MinMemType42
+			post.MaxMemType42 += sfnt2.Post.MaxMemType42
+			post.MinMemType1 += sfnt2.Post.MinMemType1
+			post.MaxMemType1 += sfnt2.Post.MaxMemType1
+		}
+		if 0 < len(sfnt.Post.glyphNameIndex) || sfnt2.Post != nil && 0 < len(sfnt2.Post.glyphNameIndex) {
+			if err := post.setNames(numGlyphs, names); err != nil {
+				return err
+			}
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
-		sfnt.Post.NumGlyphs = numGlyphs
 
-		b, err := sfnt.Post.Write()
+		b, err := post.Write()
 		if err != nil {
 			return fmt.Errorf("invalid post table: %v", err)
 		}
+		sfnt.Post = post
 		sfnt.Tables["post"] = b
 	}
 	return nil
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1b03871..9126aa9 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -590,36 +590,9 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	}
 
 	// create a new table so that the font is unchanged on error and the cached names are reset
-	post := &postTable{
-		ItalicAngle:        sfnt.Post.ItalicAngle,
-		UnderlinePosition:  sfnt.Post.UnderlinePosition,
-		UnderlineThickness: sfnt.Post.UnderlineThickness,
-		IsFixedPitch:       sfnt.Post.IsFixedPitch,
-		MinMemType42:       sfnt.Post.MinMemType42,
-		MaxMemType42:       sfnt.Post.MaxMemType42,
-		MinMemType1:        sfnt.Post.MinMemType1,
-		MaxMemType1:        sfnt.Post.MaxMemType1,
-
-		NumGlyphs:      sfnt.NumGlyphs(),
-		glyphNameIndex: make([]uint16, sfnt.NumGlyphs()),
-		stringData:     [][]byte{},
-	}
-
-	indices := map[string]uint16{macintoshGlyphNames[0]: 0} // .notdef
-	if int(sfnt.NumGlyphs()) < len(names) {
-		names = names[:sfnt.NumGlyphs()]
-	}
-	for glyphID, name := range names {
-		index, ok := indices[name]
-		if !ok {
-			if math.MaxUint16 < len(post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			}
-			index = uint16(len(post.stringData) + 258)
-			post.stringData = append(post.stringData, []byte(name))
-			indices[name] = index
-		}
-		post.glyphNameIndex[glyphID] = index
+	post := sfnt.Post.copyFields()
+	if err := post.setNames(sfnt.NumGlyphs(), names); err != nil {
+		return err
 	}
 
 	b, err := post.Write()
-- 
2.43.0


From ab3d9f9da6d0cd07244c737e6ec4913f72c595c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:30 +0000
Subject: [PATCH 059/142] fix: report the length of the written font after
 every operation

---
 sfnt.go        | 11 ++++++++++-
 sfnt_merge.go  |  1 +
 sfnt_subset.go |  7 +++----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index b049cd2..4af13f2 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -376,11 +376,11 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 	}
 
 	sfnt := &SFNT{}
-	sfnt.Length = uint32(len(b))
 	sfnt.Version = sfntVersion
 	sfnt.IsCFF = sfntVersion == "OTTO"
 	sfnt.IsTrueType = sfntVersion == "true" || binary.BigEndian.Uint32([]byte(sfntVersion)) == 0x00010000
 	sfnt.Tables = tables
+	sfnt.updateLength()
 	//if isCollection {
 	//	sfnt.Data = sfnt.Write() // TODO: what is this?
 	//}
@@ -491,6 +491,15 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 	return sfnt, nil
 }
 
+// updateLength sets the length to the size of the written SFNT file.
+func (sfnt *SFNT) updateLength() {
+	sfnt.Length = 12
+	for _, table := range sfnt.Tables {
+		sfnt.Length += uint32(16 + len(table))        // 16 for the table record
+		sfnt.Length += (4 - uint32(len(table))&3) & 3 // padding
+	}
+}
+
 // Write writes out the SFNT file.
 func (sfnt *SFNT) Write() []byte {
 	tags := make([]string, 0, len(sfnt.Tables))
diff --git a/sfnt_merge.go b/sfnt_merge.go
index 3eef70f..2464c73 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -31,6 +31,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	if err := merged.merge(sfnt2, options); err != nil {
 		return err
 	}
+	merged.updateLength()
 	*sfnt = *merged
 	return nil
 }
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 9126aa9..1be6d14 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -142,7 +142,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	sfntOld := sfnt
 	sfnt = &SFNT{
 		Version:    sfntOld.Version,
-		Length:     12, // increased below
 		IsCFF:      sfntOld.IsCFF,
 		IsTrueType: sfntOld.IsTrueType,
 		Tables:     map[string][]byte{},
@@ -539,10 +538,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		default:
 			sfnt.Tables[tag] = table
 		}
-
-		sfnt.Length += uint32(16 + len(sfnt.Tables[tag]))        // 16 for the table record
-		sfnt.Length += (4 - uint32(len(sfnt.Tables[tag]))&3) & 3 // padding
 	}
+	sfnt.updateLength()
 	return sfnt, nil
 }
 
@@ -582,6 +579,7 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		}
 		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
+		sfnt.updateLength()
 		return nil
 	}
 
@@ -601,5 +599,6 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	}
 	sfnt.Post = post
 	sfnt.Tables["post"] = b
+	sfnt.updateLength()
 	return nil
 }
-- 
2.43.0


From 2353b61310b30d7592b167f3464615714bc7a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 060/142] fix: merge the vertical metrics

---
 sfnt_merge.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 2464c73..b808f27 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -41,7 +41,7 @@ func (sfnt *SFNT) copyForMerge() *SFNT {
 	dst := *sfnt
 	dst.Tables = make(map[string][]byte, len(sfnt.Tables))
 	for tag, table := range sfnt.Tables {
-		if tag == "head" || tag == "hhea" || tag == "OS/2" {
+		if tag == "head" || tag == "hhea" || tag == "vhea" || tag == "OS/2" {
 			table = append([]byte{}, table...)
 		}
 		dst.Tables[tag] = table
@@ -58,6 +58,10 @@ func (sfnt *SFNT) copyForMerge() *SFNT {
 		hhea := *sfnt.Hhea
 		dst.Hhea = &hhea
 	}
+	if sfnt.Vhea != nil {
+		vhea := *sfnt.Vhea
+		dst.Vhea = &vhea
+	}
 	if sfnt.OS2 != nil {
 		os2 := *sfnt.OS2
 		dst.OS2 = &os2
@@ -347,6 +351,37 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
+	if _, ok := sfnt.Tables["vmtx"]; ok && sfnt.Vmtx != nil {
+		metrics := make([]vmtxLongVerMetric, numGlyphs)
+		for glyphID := range metrics {
+			if glyphID < int(origNumGlyphs) {
+				metrics[glyphID].AdvanceHeight = sfnt.Vmtx.Advance(uint16(glyphID))
+				metrics[glyphID].TopSideBearing = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+				continue
+			}
+
+			// +1 to skip .notdef
+			glyphID2 := uint16(1+glyphID) - origNumGlyphs
+			metrics[glyphID].AdvanceHeight = sfnt2.GlyphVerticalAdvance(glyphID2)
+			if sfnt2.Vmtx != nil {
+				metrics[glyphID].TopSideBearing = sfnt2.Vmtx.TopSideBearing(glyphID2)
+			}
+		}
+
+		w := parse.NewBinaryWriter(make([]byte, 0, 4*len(metrics)))
+		for _, metric := range metrics {
+			w.WriteUint16(metric.AdvanceHeight)
+			w.WriteInt16(metric.TopSideBearing)
+		}
+		sfnt.Tables["vmtx"] = w.Bytes()
+		sfnt.Vmtx = &vmtxTable{VMetrics: metrics}
+
+		if table, ok := sfnt.Tables["vhea"]; ok {
+			binary.BigEndian.PutUint16(table[34:], numGlyphs) // numberOfVMetrics
+			sfnt.Vhea.NumberOfVMetrics = numGlyphs
+		}
+	}
+
 	if _, ok := sfnt.Tables["cmap"]; ok && sfnt.Cmap != nil {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
-- 
2.43.0


From 166fbe759c586ea3818bd59b3fea4652ec5cd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:05 +0000
Subject: [PATCH 061/142] fix: do not modify or share the CFF data of the fonts
 that are merged

---
 sfnt_cff.go   |  3 +--
 sfnt_merge.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8aa1f88..c430d81 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1212,8 +1212,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		*t = *o.Copy()
 		return
 	}
 
diff --git a/sfnt_merge.go b/sfnt_merge.go
index b808f27..06c8a0a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -198,13 +198,20 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 				sfnt.Tables["kern"] = sfnt.Kern.Write()
 			}
 		}
-	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
+	} else if sfnt.IsCFF {
+		if sfnt.CFF == nil || sfnt.CFF.version != 1 || sfnt2.CFF == nil || sfnt2.CFF.version != 1 {
+			// TODO: support merging CFF2
+			return fmt.Errorf("CFF table missing")
+		} else if 1 < len(sfnt.CFF.fonts.private) || 1 < len(sfnt2.CFF.fonts.private) {
+			return fmt.Errorf("only single-font CFFs are supported")
+		}
+
 		// find new number of subroutines, which may change the index encoding / bias
 		localSubrsLen, globalSubrsLen := 0, 0 // new length
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
 		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
 		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
+			localSubrs = sfnt.CFF.fonts.localSubrs[0].Copy()
 			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
 		}
 		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
@@ -212,7 +219,7 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
 		}
 		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
+			globalSubrs = sfnt.CFF.globalSubrs.Copy()
 			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
 		}
 		if 0 < sfnt2.CFF.globalSubrs.Len() {
@@ -220,6 +227,11 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
 		}
 
+		// copy to keep the original tables untouched
+		sfnt.CFF.charStrings = sfnt.CFF.charStrings.Copy()
+		fonts := *sfnt.CFF.fonts
+		sfnt.CFF.fonts = &fonts
+
 		// update index encoding (identity mapping) for the original glyphs
 		var localSubrsMap map[int32]int32  // old to new index
 		var globalSubrsMap map[int32]int32 // old to new index
-- 
2.43.0


From f6ea5fce2a48ef918f97ae77a8cfb88e6f4de4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:59 +0000
Subject: [PATCH 062/142] fix: update the subroutine indices of both fonts when
 merging CFF fonts

---
 sfnt_merge.go | 55 +++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 06c8a0a..4fee5f7 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -206,25 +206,20 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			return fmt.Errorf("only single-font CFFs are supported")
 		}
 
-		// find new number of subroutines, which may change the index encoding / bias
-		localSubrsLen, globalSubrsLen := 0, 0 // new length
+		// copy subroutines to keep the original tables untouched
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
 		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
 		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
 			localSubrs = sfnt.CFF.fonts.localSubrs[0].Copy()
-			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
 		}
 		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
 			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
 		}
 		if 0 < sfnt.CFF.globalSubrs.Len() {
 			globalSubrs = sfnt.CFF.globalSubrs.Copy()
-			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
 		}
 		if 0 < sfnt2.CFF.globalSubrs.Len() {
 			globalSubrs2 = sfnt2.CFF.globalSubrs
-			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
 		}
 
 		// copy to keep the original tables untouched
@@ -232,41 +227,24 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		fonts := *sfnt.CFF.fonts
 		sfnt.CFF.fonts = &fonts
 
-		// update index encoding (identity mapping) for the original glyphs
-		var localSubrsMap map[int32]int32  // old to new index
-		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
-				localSubrsMap[int32(i)] = int32(i)
-			}
-		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
-				globalSubrsMap[int32(i)] = int32(i)
-			}
+		// the number of subroutines may change the index encoding / bias for the original glyphs (identity mapping)
+		localSubrsMap := make(map[int32]int32, localSubrs.Len()) // old to new index
+		for i := 0; i < localSubrs.Len(); i++ {
+			localSubrsMap[int32(i)] = int32(i)
 		}
-		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
-			return err
+		globalSubrsMap := make(map[int32]int32, globalSubrs.Len()) // old to new index
+		for i := 0; i < globalSubrs.Len(); i++ {
+			globalSubrsMap[int32(i)] = int32(i)
 		}
 
 		// update indices and index encoding for the merging glyphs
-		var localSubrsMap2 map[int32]int32  // old to new index
-		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
-			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
-			for i := 0; i < localSubrs2.Len(); i++ {
-				localSubrsMap2[int32(i)] = int32(offset + i)
-			}
+		localSubrsMap2 := make(map[int32]int32, localSubrs2.Len()) // old to new index
+		for i := 0; i < localSubrs2.Len(); i++ {
+			localSubrsMap2[int32(i)] = int32(localSubrs.Len() + i)
 		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
-			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
-			for i := 0; i < globalSubrs2.Len(); i++ {
-				globalSubrsMap2[int32(i)] = int32(offset + i)
-			}
+		globalSubrsMap2 := make(map[int32]int32, globalSubrs2.Len()) // old to new index
+		for i := 0; i < globalSubrs2.Len(); i++ {
+			globalSubrsMap2[int32(i)] = int32(globalSubrs.Len() + i)
 		}
 
 		// copy to keep original untouched
@@ -285,9 +263,12 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			cff2.charStrings.offset[i] -= offset
 		}
 
-		// update subroutine indices for merging font
+		// update subroutine indices for both fonts
 		localSubrs.Extend(localSubrs2)
 		globalSubrs.Extend(globalSubrs2)
+		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
+			return err
+		}
 		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
 			return err
 		}
-- 
2.43.0


From ebeeed9f602fa8014435c4b59593ba9b7ba58694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 063/142] fix: use the local subroutines for all glyphs of
 merged CFF fonts

---
 sfnt_merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 4fee5f7..c10066c 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -278,6 +278,11 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.CFF.globalSubrs = globalSubrs
 		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
 
+		// all glyphs use the only font
+		sfnt.CFF.fonts.fds = nil
+		sfnt.CFF.fonts.first = []uint32{0, uint32(numGlyphs)}
+		sfnt.CFF.fonts.fd = []uint16{0}
+
 		// update charset
 		if sfnt2.CFF.charset != nil {
 			if sfnt.CFF.charset == nil {
-- 
2.43.0


From d31fd5b4fbf3a909e31b643b88bd185f8b674c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 064/142] fix: merge CFF fonts of which one has no charset

---
 sfnt_merge.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index c10066c..b46f2e8 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -284,19 +284,13 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.CFF.fonts.fd = []uint16{0}
 
 		// update charset
-		if sfnt2.CFF.charset != nil {
-			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
-				for i := 0; i < numGlyphs; i++ {
-					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
-				}
-			}
-			sfnt.CFF.charset = append(sfnt.CFF.charset, sfnt2.CFF.charset[1:]...)
-		} else if sfnt.CFF.charset != nil {
-			numGlyphs := sfnt2.CFF.charStrings.Len() - 1
-			for i := 0; i < numGlyphs; i++ {
-				sfnt.CFF.charset = append(sfnt.CFF.charset, "")
+		if sfnt.CFF.charset != nil || sfnt2.CFF.charset != nil {
+			charset := make([]string, numGlyphs)
+			copy(charset, sfnt.CFF.charset)
+			if sfnt2.CFF.charset != nil {
+				copy(charset[origNumGlyphs:], sfnt2.CFF.charset[1:])
 			}
+			sfnt.CFF.charset = charset
 		}
 
 		b, err := sfnt.CFF.Write()
-- 
2.43.0


From 8c7a7bcf2ae239ec799b9d2ea320ebeb1da5c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 065/142] fix: subset fonts that lack the outline tables

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1be6d14..9b4c504 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -41,7 +41,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 
 	keepNotdef := false // .notdef is used by a composite glyph
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		// add dependencies for composite glyphs add the end
 		origLen := len(glyphIDs)
 		for i := 0; i < origLen; i++ {
-- 
2.43.0


From 773f9b8edcbf7b3f8cd6786e69609fb9b173c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:16 +0000
Subject: [PATCH 066/142] fix: return an error when setting glyph names of a
 font without CFF table

---
 sfnt_subset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 9b4c504..b257920 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -545,6 +545,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return fmt.Errorf("CFF table doesn't exist")
+		}
+
 		same := false
 		if len(sfnt.CFF.charset) == len(names) {
 			same = true
-- 
2.43.0


From aa18a198768c8903b9e6662001e0c3ffd1433d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:34 +0000
Subject: [PATCH 067/142] fix: mark CID-keyed fonts that are written without
 CID operators as such

---
 sfnt_cff.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c430d81..f0205fa 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2130,6 +2130,15 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if cff.top == nil {
 		cff.top = &cffTopDICT{}
 	}
+	if cff.top.IsCID {
+		// the only font is written as the Private DICT of a font that is not CID-keyed
+		top := *cff.top
+		top.IsCID = false
+		top.ROS1, top.ROS2, top.ROS3 = "", "", 0
+		top.CIDFontVersion, top.CIDFontRevision, top.CIDFontType, top.CIDCount = 0, 0, 0, 8720
+		top.UIDBase, top.FDArray, top.FDSelect, top.FontName = 0, 0, 0, ""
+		cff.top = &top
+	}
 	topDICT, err := cff.top.Write(strings)
 	if err != nil {
 		return nil, fmt.Errorf("Top DICT: %v", err)
-- 
2.43.0


From 586e155f2e702511be69444aa4c794926553c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 068/142] fix: decode WOFF2 and EOT data that is used up to its
 end

---
 eot.go   |  9 +++----
 util.go  | 57 ++++++++++++++++++++++++++++++++++++++++++
 woff2.go | 76 +++++++++++++++++++++++++++++---------------------------
 3 files changed, 99 insertions(+), 43 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..5b485e5 100644
--- a/eot.go
+++ b/eot.go
@@ -3,15 +3,12 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
-	"io"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r.ByteOrder = binary.LittleEndian
+	r := newByteReader(b)
+	r.order = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
 	fontDataSize := r.ReadUint32() // FontDataSize
 	version := r.ReadUint32()      // Version
@@ -65,7 +62,7 @@ func ParseEOT(b []byte) ([]byte, error) {
 	}
 
 	fontData := r.ReadBytes(int64(fontDataSize))
-	if r.Err() == io.EOF {
+	if r.overrun {
 		return nil, ErrInvalidFontData
 	}
 
diff --git a/util.go b/util.go
index d728225..2736e73 100644
--- a/util.go
+++ b/util.go
@@ -5,6 +5,63 @@ import (
 	"fmt"
 )
 
+// byteReader reads binary data, it remembers whether more data was requested than is available.
+type byteReader struct {
+	data    []byte
+	order   binary.ByteOrder
+	overrun bool
+}
+
+func newByteReader(data []byte) *byteReader {
+	return &byteReader{data: data, order: binary.BigEndian}
+}
+
+// ReadBytes reads n bytes, it returns nil when there are less.
+func (r *byteReader) ReadBytes(n int64) []byte {
+	if n < 0 || int64(len(r.data)) < n {
+		r.data = nil
+		r.overrun = true
+		return nil
+	}
+	data := r.data[:n:n]
+	r.data = r.data[n:]
+	return data
+}
+
+// ReadString reads a string of length n.
+func (r *byteReader) ReadString(n int64) string {
+	return string(r.ReadBytes(n))
+}
+
+// ReadUint8 reads a uint8.
+func (r *byteReader) ReadUint8() uint8 {
+	if data := r.ReadBytes(1); data != nil {
+		return data[0]
+	}
+	return 0
+}
+
+// ReadUint16 reads a uint16.
+func (r *byteReader) ReadUint16() uint16 {
+	if data := r.ReadBytes(2); data != nil {
+		return r.order.Uint16(data)
+	}
+	return 0
+}
+
+// ReadInt16 reads an int16.
+func (r *byteReader) ReadInt16() int16 {
+	return int16(r.ReadUint16())
+}
+
+// ReadUint32 reads a uint32.
+func (r *byteReader) ReadUint32() uint32 {
+	if data := r.ReadBytes(4); data != nil {
+		return r.order.Uint32(data)
+	}
+	return 0
+}
+
 // MaxMemory is the maximum memory that can be allocated by a font.
 var MaxMemory uint32 = 30 * 1024 * 1024
 
diff --git a/woff2.go b/woff2.go
index 2bf4e17..007ffa2 100644
--- a/woff2.go
+++ b/woff2.go
@@ -57,7 +57,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newByteReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOF2" {
 		return nil, fmt.Errorf("bad signature")
@@ -78,7 +78,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	_ = r.ReadUint32()                    // metaOrigLength
 	_ = r.ReadUint32()                    // privOffset
 	_ = r.ReadUint32()                    // privLength
-	if r.Err() == io.EOF {
+	if r.overrun {
 		return nil, ErrInvalidFontData
 	} else if length != uint32(len(b)) {
 		return nil, fmt.Errorf("length in header must match file size")
@@ -164,7 +164,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 
 	// decompress font data using Brotli
 	compData := r.ReadBytes(int64(totalCompressedSize))
-	if r.Err() == io.EOF {
+	if r.overrun {
 		return nil, ErrInvalidFontData
 	} else if MaxMemory < uncompressedSize {
 		return nil, ErrExceedsMemory
@@ -209,11 +209,11 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
 		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
+			rGlyf := newByteReader(tables[iGlyf].data)
 			_ = rGlyf.ReadUint32() // version
 			numGlyphs := uint32(rGlyf.ReadUint16())
 			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
+			if rGlyf.overrun {
 				return nil, ErrInvalidFontData
 			}
 			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
@@ -338,7 +338,7 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newByteReader(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
 	numGlyphs := r.ReadUint16()
@@ -350,24 +350,24 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	compositeStreamSize := r.ReadUint32()
 	bboxStreamSize := r.ReadUint32()
 	instructionStreamSize := r.ReadUint32()
-	if r.Err() == io.EOF || nContourStreamSize != 2*uint32(numGlyphs) {
+	if r.overrun || nContourStreamSize != 2*uint32(numGlyphs) {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
-	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
-	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
-	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
-	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
-	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
+	nContourStream := newByteReader(r.ReadBytes(int64(nContourStreamSize)))
+	nPointsStream := newByteReader(r.ReadBytes(int64(nPointsStreamSize)))
+	flagStream := newByteReader(r.ReadBytes(int64(flagStreamSize)))
+	glyphStream := newByteReader(r.ReadBytes(int64(glyphStreamSize)))
+	compositeStream := newByteReader(r.ReadBytes(int64(compositeStreamSize)))
 	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
-	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
+	bboxStream := newByteReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
+	instructionStream := newByteReader(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
 		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
 	}
-	if r.Err() == io.EOF {
+	if r.overrun {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 	}
 
@@ -402,7 +402,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				yMin = bboxStream.ReadInt16()
 				xMax = bboxStream.ReadInt16()
 				yMax = bboxStream.ReadInt16()
-				if bboxStream.Err() == io.EOF {
+				if bboxStream.overrun {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
 			}
@@ -417,7 +417,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				nPoints += nPoint
 				endPtsOfContours[iContour] = nPoints - 1
 			}
-			if nPointsStream.Err() == io.EOF {
+			if nPointsStream.overrun {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
@@ -502,13 +502,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 					}
 				}
 			}
-			if flagStream.Err() == io.EOF || glyphStream.Err() == io.EOF {
+			if flagStream.overrun || glyphStream.overrun {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
 			instructionLength := read255Uint16(glyphStream)
 			instructions := instructionStream.ReadBytes(int64(instructionLength))
-			if instructionStream.Err() == io.EOF {
+			if instructionStream.overrun {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
@@ -543,7 +543,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			yMin := bboxStream.ReadInt16()
 			xMax := bboxStream.ReadInt16()
 			yMax := bboxStream.ReadInt16()
-			if bboxStream.Err() == io.EOF {
+			if bboxStream.overrun {
 				return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 			}
 
@@ -576,7 +576,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 					numBytes += 8
 				}
 				compositeBytes := compositeStream.ReadBytes(int64(numBytes))
-				if compositeStream.Err() == io.EOF {
+				if compositeStream.overrun {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
 
@@ -594,7 +594,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			if hasInstructions {
 				instructionLength := read255Uint16(glyphStream)
 				instructions := instructionStream.ReadBytes(int64(instructionLength))
-				if instructionStream.Err() == io.EOF {
+				if instructionStream.overrun {
 					return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 				}
 				w.WriteUint16(instructionLength)
@@ -619,26 +619,26 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
-	rHead := parse.NewBinaryReaderBytes(head)
+	rHead := newByteReader(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
-	if rHead.Err() == io.EOF {
+	if rHead.overrun {
 		return nil, ErrInvalidFontData
 	}
 
 	// get numGlyphs
-	rMaxp := parse.NewBinaryReaderBytes(maxp)
+	rMaxp := newByteReader(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
-	if rMaxp.Err() == io.EOF {
+	if rMaxp.overrun {
 		return nil, ErrInvalidFontData
 	}
 
 	// get numHMetrics
-	rHhea := parse.NewBinaryReaderBytes(hhea)
+	rHhea := newByteReader(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
-	if rHhea.Err() == io.EOF {
+	if rHhea.overrun {
 		return nil, ErrInvalidFontData
 	} else if numHMetrics < 1 {
 		return nil, fmt.Errorf("hmtx: must have at least one entry")
@@ -654,9 +654,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	if locaLength != uint32(len(loca)) {
 		return nil, ErrInvalidFontData
 	}
-	rLoca := parse.NewBinaryReaderBytes(loca)
+	rLoca := newByteReader(loca)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newByteReader(b)
 	flags := r.ReadUint8() // flags
 	reconstructProportional := flags&0x01 != 0
 	reconstructMonospaced := flags&0x02 != 0
@@ -693,7 +693,6 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// extract xMin values from glyf table using loca indices
-	rGlyf := parse.NewBinaryReaderBytes(glyf)
 	iGlyphMin := uint16(0)
 	iGlyphMax := numGlyphs
 	if !reconstructProportional {
@@ -722,10 +721,13 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 		if offsetNext == offset {
 			lsbs[iGlyph] = 0
 		} else {
-			rGlyf.Seek(int64(offset), 0)
+			if uint32(len(glyf)) < offset {
+				return nil, ErrInvalidFontData
+			}
+			rGlyf := newByteReader(glyf[offset:])
 			_ = rGlyf.ReadInt16() // numContours
 			xMin := rGlyf.ReadInt16()
-			if rGlyf.Err() == io.EOF {
+			if rGlyf.overrun {
 				return nil, ErrInvalidFontData
 			}
 			lsbs[iGlyph] = xMin
@@ -744,12 +746,12 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	return w.Bytes(), nil
 }
 
-func readUintBase128(r *parse.BinaryReader) (uint32, error) {
+func readUintBase128(r *byteReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
 		dataByte := r.ReadUint8()
-		if r.Err() == io.EOF {
+		if r.overrun {
 			return 0, ErrInvalidFontData
 		}
 		if i == 0 && dataByte == 0x80 {
@@ -766,7 +768,7 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *byteReader) uint16 {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	code := r.ReadUint8()
 	if code == 253 {
@@ -1034,7 +1036,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			instructionStream.WriteBytes(contour.Instructions)
 		} else {
 			// composite glyph
-			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			r := newByteReader(glyf.Get(uint16(glyphID)))
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
-- 
2.43.0


From a02629dd4bb76558f26acf7c3a232b4cf12c010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 069/142] fix: keep the bounds and overlap bits of WOFF2 glyphs
 apart

---
 woff2.go | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/woff2.go b/woff2.go
index 007ffa2..a5942f7 100644
--- a/woff2.go
+++ b/woff2.go
@@ -335,6 +335,16 @@ func signInt16(flag byte, pos uint) int16 {
 	return -1
 }
 
+// getBitmap returns the bit of a glyph.
+func getBitmap(bitmap []byte, glyphID uint16) bool {
+	return bitmap[glyphID>>3]&(0x80>>(glyphID&7)) != 0
+}
+
+// setBitmap sets the bit of a glyph.
+func setBitmap(bitmap []byte, glyphID uint16) {
+	bitmap[glyphID>>3] |= 0x80 >> (glyphID & 7)
+}
+
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
@@ -360,12 +370,12 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	flagStream := newByteReader(r.ReadBytes(int64(flagStreamSize)))
 	glyphStream := newByteReader(r.ReadBytes(int64(glyphStreamSize)))
 	compositeStream := newByteReader(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxBitmap := r.ReadBytes(int64(bitmapSize))
 	bboxStream := newByteReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
 	instructionStream := newByteReader(r.ReadBytes(int64(instructionStreamSize)))
-	var overlapSimpleBitmap *parse.BitmapReader
+	var overlapSimpleBitmap []byte
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmap = r.ReadBytes(int64(bitmapSize))
 	}
 	if r.overrun {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
@@ -388,7 +398,8 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
-		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
+		explicitBbox := getBitmap(bboxBitmap, iGlyph)
+		overlapSimple := overlapSimpleBitmap != nil && getBitmap(overlapSimpleBitmap, iGlyph)
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
 			if explicitBbox {
@@ -472,7 +483,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if overlapSimple && iPoint == 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
@@ -902,10 +913,10 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	flagStream := parse.NewBinaryWriter([]byte{})
 	glyphStream := parse.NewBinaryWriter([]byte{})
 	compositeStream := parse.NewBinaryWriter([]byte{})
-	bboxBitmapStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	bboxBitmap := make([]byte, bitmapSize)
 	bboxStream := parse.NewBinaryWriter([]byte{})
 	instructionStream := parse.NewBinaryWriter([]byte{})
-	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	overlapSimpleBitmap := make([]byte, bitmapSize)
 
 	var optionFlags uint16
 	xMins := make([]int16, numGlyphs)
@@ -922,7 +933,6 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			} else if len(contour.EndPoints) == 0 {
 				// empty glyph
 				nContourStream.WriteInt16(0)
-				bboxBitmapStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
@@ -1066,23 +1076,25 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			}
 		}
 
-		bboxBitmapStream.Write(!bboxEqual)
 		if !bboxEqual {
+			setBitmap(bboxBitmap, uint16(glyphID))
 			bboxStream.WriteInt16(xMin)
 			bboxStream.WriteInt16(yMin)
 			bboxStream.WriteInt16(xMax)
 			bboxStream.WriteInt16(yMax)
 		}
 
-		overlapSimpleStream.Write(hasOverlap)
+		if hasOverlap {
+			setBitmap(overlapSimpleBitmap, uint16(glyphID))
+		}
 	}
 
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(bitmapSize) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(bitmapSize)
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1094,18 +1106,18 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(bitmapSize + uint32(bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From 67d837897ad97849581382d5dfdb7748c5beb3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:14 +0000
Subject: [PATCH 070/142] fix: decode WOFF2 files with untransformed outlines

---
 woff2.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index a5942f7..7370f59 100644
--- a/woff2.go
+++ b/woff2.go
@@ -208,17 +208,6 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
-		} else {
-			rGlyf := newByteReader(tables[iGlyf].data)
-			_ = rGlyf.ReadUint32() // version
-			numGlyphs := uint32(rGlyf.ReadUint16())
-			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.overrun {
-				return nil, ErrInvalidFontData
-			}
-			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
-			}
 		}
 	}
 
-- 
2.43.0


From 3255c6e59b25fd6acea3de5c0c6d90ce5b372135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 071/142] fix: decode WOFF2 outlines into short offset tables

---
 woff2.go | 68 ++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/woff2.go b/woff2.go
index 7370f59..56ac011 100644
--- a/woff2.go
+++ b/woff2.go
@@ -324,6 +324,30 @@ func signInt16(flag byte, pos uint) int16 {
 	return -1
 }
 
+// glyfCoordinateFlags returns the flags for the shortest representation of a relative coordinate.
+func glyfCoordinateFlags(d int16, short, sameOrPositive byte) byte {
+	if d == 0 {
+		return sameOrPositive
+	} else if 0 < d && d < 256 {
+		return short | sameOrPositive
+	} else if -256 < d && d < 0 {
+		return short
+	}
+	return 0
+}
+
+// writeGlyfCoordinate writes a relative coordinate as represented by its flags.
+func writeGlyfCoordinate(w *parse.BinaryWriter, d int16, flags, short, sameOrPositive byte) {
+	if flags&short != 0 {
+		if d < 0 {
+			d = -d
+		}
+		w.WriteByte(byte(d))
+	} else if flags&sameOrPositive == 0 {
+		w.WriteInt16(d)
+	}
+}
+
 // getBitmap returns the bit of a glyph.
 func getBitmap(bitmap []byte, glyphID uint16) bool {
 	return bitmap[glyphID>>3]&(0x80>>(glyphID&7)) != 0
@@ -378,6 +402,11 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		return nil, nil, fmt.Errorf("loca: origLength must match numGlyphs+1 entries")
 	}
 
+	alignment := int64(4)
+	if indexFormat == 0 {
+		alignment = 2
+	}
+
 	w := parse.NewBinaryWriter([]byte{}) // size unknown
 	loca := parse.NewBinaryWriter(make([]byte, 0, locaLength))
 	for iGlyph := uint16(0); iGlyph < numGlyphs; iGlyph++ {
@@ -465,9 +494,6 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				xCoordinates = append(xCoordinates, dx)
 				yCoordinates = append(yCoordinates, dy)
 
-				// keep bit 1-5 zero, that means x and y are two bytes long, this flag is not
-				// repeated, and all coordinates are in the coordinate array even if they are the
-				// same as the previous.
 				var outlineFlag byte
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
@@ -524,15 +550,30 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			w.WriteUint16(instructionLength)
 			w.WriteBytes(instructions)
 
-			// we could write this more compactly, but is that really necessary?
-			for _, outlineFlag := range outlineFlags {
-				w.WriteByte(outlineFlag) // flag
+			// write compactly, the offsets may not fit in a short loca table otherwise
+			for i := range outlineFlags {
+				outlineFlags[i] |= glyfCoordinateFlags(xCoordinates[i], 0x02, 0x10) // X_SHORT_VECTOR and X_IS_SAME_OR_POSITIVE
+				outlineFlags[i] |= glyfCoordinateFlags(yCoordinates[i], 0x04, 0x20) // Y_SHORT_VECTOR and Y_IS_SAME_OR_POSITIVE
 			}
-			for _, xCoordinate := range xCoordinates {
-				w.WriteInt16(xCoordinate)
+			for i := 0; i < len(outlineFlags); {
+				repeats := 0
+				for i+repeats+1 < len(outlineFlags) && repeats < 255 && outlineFlags[i+repeats+1] == outlineFlags[i] {
+					repeats++
+				}
+				if 1 < repeats {
+					w.WriteByte(outlineFlags[i] | 0x08) // REPEAT_FLAG
+					w.WriteByte(byte(repeats))
+					i += repeats
+				} else {
+					w.WriteByte(outlineFlags[i])
+				}
+				i++
+			}
+			for i, xCoordinate := range xCoordinates {
+				writeGlyfCoordinate(w, xCoordinate, outlineFlags[i], 0x02, 0x10)
 			}
-			for _, yCoordinate := range yCoordinates {
-				w.WriteInt16(yCoordinate)
+			for i, yCoordinate := range yCoordinates {
+				writeGlyfCoordinate(w, yCoordinate, outlineFlags[i], 0x04, 0x20)
 			}
 		} else { // composite glyph
 			if !explicitBbox {
@@ -602,10 +643,13 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			}
 		}
 
-		// offsets for loca table should be 4-byte aligned
-		for w.Len()%4 != 0 {
+		// offsets for loca table should be 4-byte aligned, short offsets must be 2-byte aligned
+		for w.Len()%alignment != 0 {
 			w.WriteByte(0x00)
 		}
+		if indexFormat == 0 && 2*math.MaxUint16 < w.Len() {
+			return nil, nil, fmt.Errorf("loca: offsets exceed the short format")
+		}
 	}
 
 	// last entry in loca table
-- 
2.43.0


From a4cca3f27ae01c3da148e4860aa929f74e3179ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:08 +0000
Subject: [PATCH 072/142] fix: parse all members of font collections

---
 sfnt.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 4af13f2..ed84f2c 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -307,7 +307,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 
 		numFonts := r.ReadUint32()
-		if index < 0 || numFonts <= uint32(index) {
+		if index < 0 || uint64(numFonts) <= uint64(index) {
 			return nil, fmt.Errorf("bad font index %d", index)
 		}
 		if r.Len() < 4*int64(numFonts) {
@@ -316,13 +316,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 
 		_ = r.ReadBytes(int64(4 * index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-12 < offset { // length of b is at least 12
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From dd97af8e8e330861cbed410f52968ab37805f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 073/142] fix: parse fonts that end in an empty table

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index ed84f2c..b82187e 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -344,7 +344,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		length := r.ReadUint32()
 
 		padding := (4 - length&3) & 3
-		if uint32(len(b)) <= offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
+		if uint32(len(b)) < offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 6a8f3d3a109d01a78c82f0661dfcd50b00d226f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:19 +0000
Subject: [PATCH 074/142] fix: decode WOFF files with empty tables

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 865f3a8..920a693 100644
--- a/woff.go
+++ b/woff.go
@@ -25,7 +25,7 @@ type tablePositions struct {
 
 func (table *tablePositions) Add(offset, length uint32) {
 	i := 0
-	for i < len(table.offsets) && table.offsets[i] < offset {
+	for i < len(table.offsets) && (table.offsets[i] < offset || table.offsets[i] == offset && table.lengths[i] == 0) {
 		i++
 	}
 	if i == len(table.offsets) {
-- 
2.43.0


From 097a57db7044e82c378272e9e35c7193f0f97f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:59 +0000
Subject: [PATCH 075/142] fix: write the largest negative point difference to
 WOFF2

---
 woff2.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/woff2.go b/woff2.go
index 56ac011..62139b2 100644
--- a/woff2.go
+++ b/woff2.go
@@ -997,9 +997,14 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					dySign = 0
 					dy = -dy
 				}
+				hasMin := dx == math.MinInt16 || dy == math.MinInt16 // cannot be negated
 
 				var flag byte
-				if dx == 0 && dy < 1280 {
+				if hasMin {
+					flag = 124 + (dySign << 1) + dxSign
+					glyphStream.WriteInt16(dx)
+					glyphStream.WriteInt16(dy)
+				} else if dx == 0 && dy < 1280 {
 					// also dx==0 and dy==0
 					delta := dy >> 8
 					flag = byte(delta<<1) + dySign
@@ -1029,12 +1034,6 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					glyphStream.WriteInt16(dx)
 					glyphStream.WriteInt16(dy)
 				}
-				if dxSign == 0 {
-					dx = -dx
-				}
-				if dySign == 0 {
-					dy = -dy
-				}
 
 				if !contour.OnCurve[i] {
 					flag |= 0x80
-- 
2.43.0


From f26a1df9b34c3f133ee1df0eede796eeff3a199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:06 +0000
Subject: [PATCH 076/142] fix: write the instructions of composite glyphs to
 the WOFF2 instruction stream

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 62139b2..216b163 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1104,7 +1104,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			if hasInstructions {
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From 8cf4bec89cac11e4dd0c2f22b5221362d8e0dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:12 +0000
Subject: [PATCH 077/142] fix: write the recorded glyph bounds to WOFF2

---
 woff2.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/woff2.go b/woff2.go
index 216b163..8fd7ae9 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1056,22 +1056,17 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					xMax = x
 				}
 			}
-			if xMin == contour.XMin && xMax == contour.XMax {
-				for _, y := range contour.YCoordinates[1:] {
-					if y < yMin {
-						yMin = y
-					}
-					if yMax < y {
-						yMax = y
-					}
+			for _, y := range contour.YCoordinates[1:] {
+				if y < yMin {
+					yMin = y
 				}
-				if yMin == contour.YMin && yMax == contour.YMax {
-					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
+				if yMax < y {
+					yMax = y
 				}
 			}
+			bboxEqual = xMin == contour.XMin && xMax == contour.XMax && yMin == contour.YMin && yMax == contour.YMax
+			xMin, xMax = contour.XMin, contour.XMax
+			yMin, yMax = contour.YMin, contour.YMax
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
-- 
2.43.0


From 099e026cc102c951990c121616714c1a109a6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:18 +0000
Subject: [PATCH 078/142] fix: keep the left side bearings of composite glyphs
 in WOFF2

---
 woff2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff2.go b/woff2.go
index 8fd7ae9..250fca2 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1079,6 +1079,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
-- 
2.43.0


From 3a095a8ce7ab1ecb54567a6f1c05740f041b2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:32 +0000
Subject: [PATCH 079/142] fix: accept glyphs with a header but no contours

---
 sfnt_truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index d9337f1..8c99583 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -179,7 +179,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 	contour.YMin = r.ReadInt16()
 	contour.XMax = r.ReadInt16()
 	contour.YMax = r.ReadInt16()
-	if 0 <= numberOfContours {
+	if numberOfContours == 0 {
+		// empty glyph, no data is required besides the header
+		return contour, nil
+	} else if 0 < numberOfContours {
 		// simple glyph
 		if r.Len() < 2*int64(numberOfContours)+2 {
 			return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
-- 
2.43.0


From e421e87b6211a97291383f2bf0d9f8d5183a7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:38 +0000
Subject: [PATCH 080/142] fix: reject glyphs with bad end points or flags

---
 sfnt_truetype.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 8c99583..94442d8 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -190,6 +190,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		contour.EndPoints = make([]uint16, numberOfContours)
 		for i := 0; i < int(numberOfContours); i++ {
 			contour.EndPoints[i] = r.ReadUint16()
+			if 0 < i && contour.EndPoints[i] < contour.EndPoints[i-1] {
+				return nil, fmt.Errorf("glyf: bad contour end points for glyphID %v", glyphID)
+			}
 		}
 
 		instructionLength := r.ReadUint16()
@@ -211,7 +214,13 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OnCurve[i] = flags[i]&0x01 != 0
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
+				if r.Len() < 1 {
+					return nil, fmt.Errorf("glyf: bad table or flags for glyphID %v", glyphID)
+				}
 				repeats := r.ReadUint8()
+				if numPoints <= i+int(repeats) {
+					return nil, fmt.Errorf("glyf: bad table or flags for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
-- 
2.43.0


From ef152cbb3f6b37e98a2be5392122a3f153801f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:18 +0000
Subject: [PATCH 081/142] fix: keep fractional values of CFF dictionaries when
 writing

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f0205fa..dc5f02f 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1901,7 +1901,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From 7740ecae0adae494a2feebeaf5cda7e41e0de51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:25 +0000
Subject: [PATCH 082/142] fix: keep all digits of real numbers in CFF
 dictionaries

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index dc5f02f..c1412c7 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1822,7 +1822,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				case 0x0E:
 					num = append(num, '-')
 				case 0x0F:
-					f, err := strconv.ParseFloat(string(num), 32)
+					f, err := strconv.ParseFloat(string(num), 64)
 					if err != nil {
 						return 0, math.NaN()
 					}
@@ -1869,7 +1869,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 }
 
 func cffDICTFloat(f float64) ([]byte, int) {
-	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', 6, 64)
+	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', -1, 64)
 	if 1 < len(floatNibbles) && floatNibbles[0] == '0' && floatNibbles[1] == '.' {
 		floatNibbles = floatNibbles[1:]
 	}
-- 
2.43.0


From a94712cb36deeb36efc16db62f4221e41fb98ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 083/142] fix: write ForceBold of the CFF private dictionary

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c1412c7..8b1eef4 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1685,7 +1685,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		writeDICTEntry(w, 256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		writeDICTEntry(w, 256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		writeDICTEntry(w, 256+17, t.LanguageGroup)
-- 
2.43.0


From 7eafc85171d86430ecb973be9f1f60b62a47c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 084/142] fix: write large values of CFF dictionaries as real
 numbers

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8b1eef4..516a530 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1857,7 +1857,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 	case float64:
 		var i int
 		isFrac := false
-		if integer, frac := math.Modf(v); frac == 0.0 {
+		if integer, frac := math.Modf(v); frac == 0.0 && math.MinInt32 <= integer && integer <= math.MaxInt32 {
 			i = int(integer)
 		} else {
 			isFrac = true
-- 
2.43.0


From 82e7ae135b1fd8bf367e88c590fe343bb51985c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 085/142] fix: Subset writes to the glyph list and table list
 of the caller

---
 sfnt_subset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index b257920..785edb1 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -34,6 +34,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// make sure not to write to the slices of the caller
+	glyphIDs = append([]uint16{}, glyphIDs...)
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
@@ -104,7 +107,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...)
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
-- 
2.43.0


From b0c8edf88c593a4906a687d4c96fafa2230930af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:26 +0000
Subject: [PATCH 086/142] fix: ParseEOT decodes obfuscated font data in the
 buffer of the caller

---
 eot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eot.go b/eot.go
index 5b485e5..54a0ac3 100644
--- a/eot.go
+++ b/eot.go
@@ -70,9 +70,11 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
+		decoded := make([]byte, len(fontData))
 		for i := 0; i < len(fontData); i++ {
-			fontData[i] ^= 0x50
+			decoded[i] = fontData[i] ^ 0x50
 		}
+		fontData = decoded
 	}
 
 	if isCompressed {
-- 
2.43.0


From d9d32e7c905ab1d4fce0056ccf3323069e216044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 087/142] fix: ParseWOFF clears the checksum of an uncompressed
 head table in the buffer of the caller

---
 woff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff.go b/woff.go
index 920a693..431b562 100644
--- a/woff.go
+++ b/woff.go
@@ -198,6 +198,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte{}, data...) // may be part of b
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From ba363f60ef3fd03bf73ad7563a6b1108da16ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:38 +0000
Subject: [PATCH 088/142] fix: FromGoFreetype writes padding and head checksum
 in the data of the given font

---
 font.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/font.go b/font.go
index 8d5bd1f..c184554 100644
--- a/font.go
+++ b/font.go
@@ -166,6 +166,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	for _, tag := range tags {
 		length := uint32(len(tables[tag]))
 		padding := (4 - length&3) & 3
+		tables[tag] = append(make([]byte, 0, length+padding), tables[tag]...) // do not write to the font's data
 		for j := 0; j < int(padding); j++ {
 			tables[tag] = append(tables[tag], 0x00)
 		}
-- 
2.43.0


From b9f3ee11dd8d3657b88b84ebe23a7affd16ac56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:10 +0000
Subject: [PATCH 089/142] fix: ParseAFM rounds negative numbers to the wrong
 integer

---
 afm.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/afm.go b/afm.go
index e6dff80..54c07f7 100644
--- a/afm.go
+++ b/afm.go
@@ -24,6 +24,7 @@ type AFM struct {
 	Weight     string
 	FontBBox   [4]int16
 
+	// negative values are in two's complement, e.g. int16(Descender) is usually negative
 	CapHeight          uint16
 	XHeight            uint16
 	Ascender           uint16
@@ -187,7 +188,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			case "B":
 				for k := 0; k < 4; k++ {
 					f, pos = afmParseNumber(line, pos)
-					charMetrics.BBox[k] = int16(f + 0.5)
+					charMetrics.BBox[k] = int16(math.Round(f))
 				}
 			case "L":
 				var successor, ligature string
@@ -339,22 +340,22 @@ Scanner:
 			}
 		case "CapHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.CapHeight = uint16(f + 0.5)
+			afm.CapHeight = uint16(int16(math.Round(f)))
 		case "XHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.XHeight = uint16(f + 0.5)
+			afm.XHeight = uint16(int16(math.Round(f)))
 		case "Ascender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Ascender = uint16(f + 0.5)
+			afm.Ascender = uint16(int16(math.Round(f)))
 		case "Descender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Descender = uint16(f + 0.5)
+			afm.Descender = uint16(int16(math.Round(f)))
 		case "UnderlinePosition":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlinePosition = uint16(f + 0.5)
+			afm.UnderlinePosition = uint16(int16(math.Round(f)))
 		case "UnderlineThickness":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlineThickness = uint16(f + 0.5)
+			afm.UnderlineThickness = uint16(int16(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
 		case "StartCharMetrics":
-- 
2.43.0


From c808b268fac0dc5876af468822ef92efd5aef30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 090/142] fix: ParseAFM keeps only the first word of the full
 name, family name, and weight

---
 afm.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index 54c07f7..a870dcf 100644
--- a/afm.go
+++ b/afm.go
@@ -116,6 +116,10 @@ func afmParseString(b []byte, i int) (string, int) {
 	return string(v), i
 }
 
+func afmParseText(b []byte, i int) string {
+	return string(bytes.TrimSpace(b[i:]))
+}
+
 func afmParseInteger(b []byte, i int) (int, int) {
 	i = afmSkipWhitespace(b, i)
 	v, n := strconv.ParseInt(b[i:])
@@ -328,11 +332,11 @@ Scanner:
 		case "FontName":
 			afm.FontName, _ = afmParseString(line, pos)
 		case "FullName":
-			afm.FullName, _ = afmParseString(line, pos)
+			afm.FullName = afmParseText(line, pos)
 		case "FamilyName":
-			afm.FamilyName, _ = afmParseString(line, pos)
+			afm.FamilyName = afmParseText(line, pos)
 		case "Weight":
-			afm.Weight, _ = afmParseString(line, pos)
+			afm.Weight = afmParseText(line, pos)
 		case "FontBBox":
 			for k := 0; k < 4; k++ {
 				f, pos = afmParseNumber(line, pos)
-- 
2.43.0


From 340713781fc2f42f4c0bbc802f23a3af84d5eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 091/142] fix: ParseAFM does not store glyph names and refuses
 fonts with their own names such as ZapfDingbats

---
 afm.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/afm.go b/afm.go
index a870dcf..cf9f96e 100644
--- a/afm.go
+++ b/afm.go
@@ -205,10 +205,10 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		}
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
-		} else if r, ok := glyphList[name]; !ok {
-			return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, name)
-		} else {
-			afm.names[name] = uint16(i)
+		}
+		charMetrics.Name = name
+		afm.names[name] = uint16(i)
+		if r, ok := glyphList[name]; ok {
 			afm.unicode[r] = uint16(i)
 		}
 	}
-- 
2.43.0


From 12aebaeee3598225582f5c2e67013ecf2c6365cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:30 +0000
Subject: [PATCH 092/142] fix: ParseAFM ignores errors in kerning data and
 drops KP kerning pairs

---
 afm.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/afm.go b/afm.go
index cf9f96e..615c5da 100644
--- a/afm.go
+++ b/afm.go
@@ -240,13 +240,19 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 		switch string(key) {
 		case "StartTrackKern":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseTrackKern(scanner, j, n)
+			if err := afm.parseTrackKern(scanner, j, n); err != nil {
+				return err
+			}
 		case "StartKernPairs", "StartKernPairs0":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 0)
+			if err := afm.parseKernPairs(scanner, j, n, 0); err != nil {
+				return err
+			}
 		case "StartKernPairs1":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 1)
+			if err := afm.parseKernPairs(scanner, j, n, 1); err != nil {
+				return err
+			}
 		case "EndKernData":
 			return nil
 		}
@@ -287,8 +293,8 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
-		// TODO: KP, KPH, KPY
-		case "KPX":
+		// TODO: KPH
+		case "KPX", "KP":
 			var left, right string
 			var kern float64
 			left, pos = afmParseString(line, pos)
@@ -301,6 +307,10 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 			} else {
 				afm.KernPairs[[2]uint16{l, r}] = int16(math.Round(kern))
 			}
+		case "KPY", "KPH":
+			// no-op
+		default:
+			return fmt.Errorf("afm: invalid kern pairs at line %v: unexpected %v", *j, string(key))
 		}
 	}
 	*j++
-- 
2.43.0


From 5640150b6d2d3e5abc4130cae7307eea6a033e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 093/142] fix: ParseAFM ignores IsFixedPitch and CharWidth, and
 takes the vertical for the horizontal advance

---
 afm.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index 615c5da..f386664 100644
--- a/afm.go
+++ b/afm.go
@@ -68,7 +68,7 @@ func (afm *AFM) FindGlyphName(name string) uint16 {
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (afm *AFM) GlyphAdvance(glyphID uint16) uint16 {
-	if afm.IsFixedPitch {
+	if afm.IsFixedPitch && afm.CharWidth[0] != 0 {
 		return afm.CharWidth[0]
 	} else if len(afm.CharMetrics) <= int(glyphID) {
 		return 0
@@ -152,6 +152,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 
 		var name string
 		charMetrics := &afm.CharMetrics[i]
+		charMetrics.Width = afm.CharWidth[0]
 		val, pos := afmNextValue(line, 0)
 		switch string(val) {
 		case "C":
@@ -183,10 +184,12 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			var f float64
 			val, pos = afmNextValue(line, pos)
 			switch string(val) {
-			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
-			case "WX", "WY":
+			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV
+			case "WX":
 				f, pos = afmParseNumber(line, pos)
 				charMetrics.Width = uint16(f + 0.5)
+			case "WY":
+				_, pos = afmParseNumber(line, pos) // vertical
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
@@ -372,6 +375,14 @@ Scanner:
 			afm.UnderlineThickness = uint16(int16(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
+		case "IsFixedPitch":
+			s, _ := afmParseString(line, pos)
+			afm.IsFixedPitch = s == "true"
+		case "CharWidth":
+			for k := 0; k < 2; k++ {
+				f, pos = afmParseNumber(line, pos)
+				afm.CharWidth[k] = uint16(f + 0.5)
+			}
 		case "StartCharMetrics":
 			n, _ := afmParseInteger(line, pos)
 			if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
-- 
2.43.0


From 9a0e220fde421aaec79fb01ac04d418fa1cd928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:43 +0000
Subject: [PATCH 094/142] fix: ParseAFM accepts truncated files and malformed
 numbers and counts

---
 afm.go | 163 +++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 107 insertions(+), 56 deletions(-)

diff --git a/afm.go b/afm.go
index f386664..58ce055 100644
--- a/afm.go
+++ b/afm.go
@@ -5,9 +5,8 @@ import (
 	"bytes"
 	"fmt"
 	"math"
-	stdStrconv "strconv"
-
-	"github.com/tdewolff/parse/v2/strconv"
+	"strconv"
+	"strings"
 )
 
 type AFMCharMetrics struct {
@@ -120,16 +119,51 @@ func afmParseText(b []byte, i int) string {
 	return string(bytes.TrimSpace(b[i:]))
 }
 
-func afmParseInteger(b []byte, i int) (int, int) {
-	i = afmSkipWhitespace(b, i)
-	v, n := strconv.ParseInt(b[i:])
-	return int(v), i + n
+func afmParseInteger(b []byte, i int) (int, int, error) {
+	var s string
+	s, i = afmParseString(b, i)
+	v, err := strconv.ParseInt(s, 10, 32)
+	if err != nil {
+		return 0, i, fmt.Errorf("invalid integer: %v", s)
+	}
+	return int(v), i, nil
 }
 
-func afmParseNumber(b []byte, i int) (float64, int) {
-	i = afmSkipWhitespace(b, i)
-	v, n := strconv.ParseDecimal(b[i:])
-	return v, i + n
+// afmParseCount parses the number of entries in a section.
+func afmParseCount(b []byte, i int) (int, error) {
+	n, _, err := afmParseInteger(b, i)
+	if err != nil {
+		return 0, err
+	} else if n < 0 {
+		return 0, fmt.Errorf("invalid count: %v", n)
+	}
+	return n, nil
+}
+
+// afmParseNumber parses a number that lies between min and max when rounded.
+func afmParseNumber(b []byte, i int, min, max float64) (float64, int, error) {
+	var s string
+	s, i = afmParseString(b, i)
+	if strings.Trim(s, "+-.0123456789") != "" {
+		return 0, i, fmt.Errorf("invalid number: %v", s)
+	}
+	v, err := strconv.ParseFloat(s, 64)
+	if err != nil {
+		return 0, i, fmt.Errorf("invalid number: %v", s)
+	} else if rounded := math.Round(v); rounded < min || max < rounded {
+		return 0, i, fmt.Errorf("number out of range: %v", s)
+	}
+	return v, i, nil
+}
+
+func afmParseInt16(b []byte, i int) (int16, int, error) {
+	v, i, err := afmParseNumber(b, i, math.MinInt16, math.MaxInt16)
+	return int16(math.Round(v)), i, err
+}
+
+func afmParseUint16(b []byte, i int) (uint16, int, error) {
+	v, i, err := afmParseNumber(b, i, 0, math.MaxUint16)
+	return uint16(math.Round(v)), i, err
 }
 
 type afmLigature struct {
@@ -139,6 +173,10 @@ type afmLigature struct {
 }
 
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
+	if math.MaxUint16 < n {
+		return fmt.Errorf("afm: invalid char metrics at line %v: too many characters: %v", *j, n)
+	}
+	var err error
 	var ligatures []afmLigature
 	afm.CharMetrics = make([]AFMCharMetrics, n)
 	afm.names = make(map[string]uint16, n)
@@ -156,13 +194,15 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		val, pos := afmNextValue(line, 0)
 		switch string(val) {
 		case "C":
-			charMetrics.CharacterCode, pos = afmParseInteger(line, pos)
+			if charMetrics.CharacterCode, pos, err = afmParseInteger(line, pos); err != nil {
+				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
+			}
 		case "CH":
 			pos = afmSkipWhitespace(line, pos)
 			val, pos = afmNextValue(line, pos)
 			if len(val) < 3 || val[0] != '<' || val[len(val)-1] != '>' {
 				return fmt.Errorf("afm: invalid char metrics at line %v: expected <hex>", *j)
-			} else if v, err := stdStrconv.ParseInt(string(val[1:len(val)-1]), 16, 0); err != nil {
+			} else if v, err := strconv.ParseInt(string(val[1:len(val)-1]), 16, 0); err != nil {
 				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
 			} else {
 				charMetrics.CharacterCode = int(v)
@@ -175,27 +215,24 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			pos = afmSkipWhitespace(line, pos)
 			val, pos = afmNextValue(line, pos)
 			pos = afmSkipWhitespace(line, pos)
-			if pos == len(line) {
-				continue
-			} else if string(val) != ";" {
+			if 0 < len(val) && string(val) != ";" {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
+			} else if pos == len(line) {
+				continue
 			}
 
-			var f float64
 			val, pos = afmNextValue(line, pos)
 			switch string(val) {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV
 			case "WX":
-				f, pos = afmParseNumber(line, pos)
-				charMetrics.Width = uint16(f + 0.5)
+				charMetrics.Width, pos, err = afmParseUint16(line, pos)
 			case "WY":
-				_, pos = afmParseNumber(line, pos) // vertical
+				_, pos, err = afmParseInt16(line, pos) // vertical
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
-				for k := 0; k < 4; k++ {
-					f, pos = afmParseNumber(line, pos)
-					charMetrics.BBox[k] = int16(math.Round(f))
+				for k := 0; k < 4 && err == nil; k++ {
+					charMetrics.BBox[k], pos, err = afmParseInt16(line, pos)
 				}
 			case "L":
 				var successor, ligature string
@@ -205,6 +242,9 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			default:
 				return fmt.Errorf("afm: invalid char metrics at line %v: unexpected %v", *j, string(val))
 			}
+			if err != nil {
+				return fmt.Errorf("afm: invalid char metrics at line %v: %v", *j, err)
+			}
 		}
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
@@ -242,18 +282,21 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
 		case "StartTrackKern":
-			n, _ := afmParseInteger(line, pos)
-			if err := afm.parseTrackKern(scanner, j, n); err != nil {
+			if n, err := afmParseCount(line, pos); err != nil {
+				return fmt.Errorf("afm: invalid kern data at line %v: %v", *j, err)
+			} else if err := afm.parseTrackKern(scanner, j, n); err != nil {
 				return err
 			}
 		case "StartKernPairs", "StartKernPairs0":
-			n, _ := afmParseInteger(line, pos)
-			if err := afm.parseKernPairs(scanner, j, n, 0); err != nil {
+			if n, err := afmParseCount(line, pos); err != nil {
+				return fmt.Errorf("afm: invalid kern data at line %v: %v", *j, err)
+			} else if err := afm.parseKernPairs(scanner, j, n, 0); err != nil {
 				return err
 			}
 		case "StartKernPairs1":
-			n, _ := afmParseInteger(line, pos)
-			if err := afm.parseKernPairs(scanner, j, n, 1); err != nil {
+			if n, err := afmParseCount(line, pos); err != nil {
+				return fmt.Errorf("afm: invalid kern data at line %v: %v", *j, err)
+			} else if err := afm.parseKernPairs(scanner, j, n, 1); err != nil {
 				return err
 			}
 		case "EndKernData":
@@ -282,7 +325,7 @@ func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 
 func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirection int) error {
 	if afm.KernPairs == nil {
-		afm.KernPairs = make(map[[2]uint16]int16, n)
+		afm.KernPairs = make(map[[2]uint16]int16)
 	}
 	for i := 0; i < n; i++ {
 		*j++
@@ -299,16 +342,17 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 		// TODO: KPH
 		case "KPX", "KP":
 			var left, right string
-			var kern float64
 			left, pos = afmParseString(line, pos)
 			right, pos = afmParseString(line, pos)
-			kern, pos = afmParseNumber(line, pos)
-			if l, ok := afm.names[left]; !ok {
+			kern, _, err := afmParseInt16(line, pos)
+			if err != nil {
+				return fmt.Errorf("afm: invalid kern pairs at line %v: %v", *j, err)
+			} else if l, ok := afm.names[left]; !ok {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, left)
 			} else if r, ok := afm.names[right]; !ok {
 				return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, right)
 			} else {
-				afm.KernPairs[[2]uint16{l, r}] = int16(math.Round(kern))
+				afm.KernPairs[[2]uint16{l, r}] = kern
 			}
 		case "KPY", "KPH":
 			// no-op
@@ -334,11 +378,13 @@ func ParseAFM(b []byte) (*AFM, error) {
 	}
 
 	j := 1 // line number
+	ended := false
 	afm := &AFM{}
 Scanner:
 	for scanner.Scan() {
 		j++
-		var f float64
+		var v int16
+		var err error
 		line := scanner.Bytes()
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
@@ -351,41 +397,40 @@ Scanner:
 		case "Weight":
 			afm.Weight = afmParseText(line, pos)
 		case "FontBBox":
-			for k := 0; k < 4; k++ {
-				f, pos = afmParseNumber(line, pos)
-				afm.FontBBox[k] = int16(math.Round(f))
+			for k := 0; k < 4 && err == nil; k++ {
+				afm.FontBBox[k], pos, err = afmParseInt16(line, pos)
 			}
 		case "CapHeight":
-			f, _ = afmParseNumber(line, pos)
-			afm.CapHeight = uint16(int16(math.Round(f)))
+			v, _, err = afmParseInt16(line, pos)
+			afm.CapHeight = uint16(v)
 		case "XHeight":
-			f, _ = afmParseNumber(line, pos)
-			afm.XHeight = uint16(int16(math.Round(f)))
+			v, _, err = afmParseInt16(line, pos)
+			afm.XHeight = uint16(v)
 		case "Ascender":
-			f, _ = afmParseNumber(line, pos)
-			afm.Ascender = uint16(int16(math.Round(f)))
+			v, _, err = afmParseInt16(line, pos)
+			afm.Ascender = uint16(v)
 		case "Descender":
-			f, _ = afmParseNumber(line, pos)
-			afm.Descender = uint16(int16(math.Round(f)))
+			v, _, err = afmParseInt16(line, pos)
+			afm.Descender = uint16(v)
 		case "UnderlinePosition":
-			f, _ = afmParseNumber(line, pos)
-			afm.UnderlinePosition = uint16(int16(math.Round(f)))
+			v, _, err = afmParseInt16(line, pos)
+			afm.UnderlinePosition = uint16(v)
 		case "UnderlineThickness":
-			f, _ = afmParseNumber(line, pos)
-			afm.UnderlineThickness = uint16(int16(math.Round(f)))
+			v, _, err = afmParseInt16(line, pos)
+			afm.UnderlineThickness = uint16(v)
 		case "ItalicAngle":
-			afm.ItalicAngle, _ = afmParseNumber(line, pos)
+			afm.ItalicAngle, _, err = afmParseNumber(line, pos, math.Inf(-1), math.Inf(1))
 		case "IsFixedPitch":
 			s, _ := afmParseString(line, pos)
 			afm.IsFixedPitch = s == "true"
 		case "CharWidth":
-			for k := 0; k < 2; k++ {
-				f, pos = afmParseNumber(line, pos)
-				afm.CharWidth[k] = uint16(f + 0.5)
+			for k := 0; k < 2 && err == nil; k++ {
+				afm.CharWidth[k], pos, err = afmParseUint16(line, pos)
 			}
 		case "StartCharMetrics":
-			n, _ := afmParseInteger(line, pos)
-			if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
+			if n, err := afmParseCount(line, pos); err != nil {
+				return nil, fmt.Errorf("afm: invalid char metrics at line %v: %v", j, err)
+			} else if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
 				return nil, err
 			}
 		case "StartKernData":
@@ -393,13 +438,19 @@ Scanner:
 				return nil, err
 			}
 		case "EndFontMetrics":
+			ended = true
 			break Scanner
 		default:
 			// no-op
 		}
+		if err != nil {
+			return nil, fmt.Errorf("afm: line %v: %v", j, err)
+		}
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
+	} else if !ended {
+		return nil, fmt.Errorf("afm: EndFontMetrics not found")
 	}
 	return afm, nil
 }
-- 
2.43.0


From 18cbc5dd91619554525f70a569af1c9aab2d657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:41 +0000
Subject: [PATCH 095/142] fix: SystemFonts.Match may overwrite the lists of
 generic font names

---
 system.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/system.go b/system.go
index e329acf..63f33d0 100644
--- a/system.go
+++ b/system.go
@@ -325,6 +325,7 @@ func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	for i := 0; i < len(families); i++ {
 		families[i] = strings.TrimSpace(families[i])
 		if names, ok := s.Generics[families[i]]; ok {
+			names = append([]string{}, names...) // do not write to the generic's names
 			families = append(families[:i], append(names, families[i+1:]...)...)
 			i += len(names) - 1
 		}
-- 
2.43.0


From 9bdf7beb02f0ad2e3fcf3b451064c2dc1ac6dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:47 +0000
Subject: [PATCH 096/142] fix: SystemFonts.Add panics when there are no fonts
 yet

---
 system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/system.go b/system.go
index 63f33d0..caf2afa 100644
--- a/system.go
+++ b/system.go
@@ -313,6 +313,9 @@ func (s *SystemFonts) Save(filename string) error {
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
+	if s.Fonts == nil {
+		s.Fonts = map[string]map[Style]FontMetadata{}
+	}
 	if _, ok := s.Fonts[metadata.Family]; !ok {
 		s.Fonts[metadata.Family] = map[Style]FontMetadata{}
 	}
-- 
2.43.0


From 1d6bbc632cd6a7474b2805a0b16d65d6d1f92095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:53 +0000
Subject: [PATCH 097/142] fix: FindSystemFonts panics for directory names that
 cannot be accessed

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index caf2afa..3559d01 100644
--- a/system.go
+++ b/system.go
@@ -475,7 +475,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 
 	var Err error
 	for _, dir := range dirs {
-		if info, err := os.Stat(dir); os.IsNotExist(err) {
+		if info, err := os.Stat(dir); err != nil {
 			continue
 		} else if !info.IsDir() {
 			continue
-- 
2.43.0


From 6f07d75afb32a5077180aff4d8962fb69750f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 098/142] fix: FindSystemFonts skips fonts with upper case file
 extensions

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 3559d01..270f90e 100644
--- a/system.go
+++ b/system.go
@@ -449,7 +449,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 			}
 
 			var getMetadata func(io.ReadSeeker) (FontMetadata, error)
-			switch filepath.Ext(path) {
+			switch strings.ToLower(filepath.Ext(path)) {
 			case ".ttf", ".otf":
 				getMetadata = getSFNTMetadata
 				// TODO: handle .ttc, .woff, .woff2, .eot
-- 
2.43.0


From 38783a76138854c972882f1b6612e22a1d9f102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:06 +0000
Subject: [PATCH 099/142] fix: FindSystemFonts uses names of any language,
 skips fonts without Windows names, and lists fonts with a version 1 name
 table without a name

---
 system.go | 120 ++++++++++++++++++++++++++----------------------------
 1 file changed, 57 insertions(+), 63 deletions(-)

diff --git a/system.go b/system.go
index 270f90e..0b6d173 100644
--- a/system.go
+++ b/system.go
@@ -11,9 +11,6 @@ import (
 	"runtime"
 	"sort"
 	"strings"
-
-	"golang.org/x/text/encoding/unicode"
-	"golang.org/x/text/transform"
 )
 
 func DefaultFontDirs() []string {
@@ -518,7 +515,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 	numTables := u16(header[4:])
 
 	// read tables list
-	var offset uint32
+	var offset, length uint32
 	tables, err := read(r, 16*int(numTables))
 	if err != nil {
 		return FontMetadata{}, err
@@ -526,6 +523,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 	for i := 0; i < 16*int(numTables); i += 16 {
 		if bytes.Equal(tables[i:i+4], []byte("name")) {
 			offset = u32(tables[i+8:])
+			length = u32(tables[i+12:])
 			break
 		}
 	}
@@ -537,74 +535,70 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 	if _, err = r.Seek(int64(offset), io.SeekStart); err != nil {
 		return FontMetadata{}, err
 	}
-	nameTable, err := read(r, 6)
+	nameTable, err := io.ReadAll(io.LimitReader(r, int64(length)))
 	if err != nil {
 		return FontMetadata{}, err
 	}
-	version := u16(nameTable)
-	count := u16(nameTable[2:])
-	storageOffset := int64(offset) + int64(u16(nameTable[4:]))
-
-	metadata := FontMetadata{}
-	decodeUTF16 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
-	if version == 0 {
-		records, err := read(r, 12*int(count))
-		if err != nil {
-			return FontMetadata{}, err
-		}
-
-		found := 0
-		var family, subfamily string
-		for i := 0; i < 12*int(count); i += 12 {
-			// TODO: check platform and encoding?
-			platform := PlatformID(u16(records[i:]))
-			//encoding := EncodingID(u16(records[i+2:]))
-			language := u16(records[i+4:])
-			if platform != PlatformWindows && (language&0x00FF) != 0x0009 {
-				continue // not English or not Windows
-			}
+	sfnt := &SFNT{Tables: map[string][]byte{"name": nameTable}}
+	if err := sfnt.parseName(); err != nil {
+		return FontMetadata{}, err
+	}
 
-			name := NameID(u16(records[i+6:]))
-			if name == NameFontFamily || name == NameFontSubfamily || name == NamePreferredFamily || name == NamePreferredSubfamily {
-				length := u16(records[i+8:])
-				offset := u16(records[i+10:])
-				if _, err = r.Seek(storageOffset+int64(offset), io.SeekStart); err != nil {
-					return FontMetadata{}, err
-				}
-				val, err := read(r, int(length))
-				if err != nil {
-					return FontMetadata{}, err
-				}
-				val, _, err = transform.Bytes(decodeUTF16, val)
-				if err != nil {
-					return FontMetadata{}, err
-				}
-				if name == NameFontFamily || name == NamePreferredFamily {
-					family = string(val)
-				} else if name == NameFontSubfamily || name == NamePreferredSubfamily {
-					subfamily = string(val)
-				}
-				if name == NamePreferredFamily || name == NamePreferredSubfamily {
-					found++
-					//if found == 2 {
-					//	break // break early
-					//}
-				}
+	// select platform and language, prefer English for Windows
+	best := -1
+	var selected nameRecord
+	for _, record := range sfnt.Name.NameRecord {
+		if record.Name != NameFontFamily && record.Name != NamePreferredFamily {
+			continue
+		}
+		rank := 0
+		if record.Platform == PlatformWindows {
+			if record.Language == 0x0409 { // English (United States)
+				rank = 3
+			} else if record.Language&0x00FF == 0x0009 { // English
+				rank = 2
 			}
+		} else if record.Language == 0 { // English or unspecified
+			rank = 1
 		}
-		if family == "" {
-			return FontMetadata{}, fmt.Errorf("font family not found")
+		if best < rank {
+			best = rank
+			selected = record
 		}
+	}
 
-		style := ParseStyle(subfamily)
-		if style == UnknownStyle {
-			return FontMetadata{}, fmt.Errorf("unknown subfamily style: %s", subfamily)
+	var family, subfamily, preferredFamily, preferredSubfamily string
+	for _, record := range sfnt.Name.NameRecord {
+		if record.Platform != selected.Platform || record.Encoding != selected.Encoding || record.Language != selected.Language {
+			continue
 		}
+		switch record.Name {
+		case NameFontFamily:
+			family = record.String()
+		case NameFontSubfamily:
+			subfamily = record.String()
+		case NamePreferredFamily:
+			preferredFamily = record.String()
+		case NamePreferredSubfamily:
+			preferredSubfamily = record.String()
+		}
+	}
+	if preferredFamily != "" {
+		family = preferredFamily
+	}
+	if preferredSubfamily != "" {
+		subfamily = preferredSubfamily
+	}
+	if family == "" {
+		return FontMetadata{}, fmt.Errorf("font family not found")
+	}
 
-		metadata.Family = family
-		metadata.Style = style
-	} else if version == 1 {
-		// TODO
+	style := ParseStyle(subfamily)
+	if style == UnknownStyle {
+		return FontMetadata{}, fmt.Errorf("unknown subfamily style: %s", subfamily)
 	}
-	return metadata, nil
+	return FontMetadata{
+		Family: family,
+		Style:  style,
+	}, nil
 }
-- 
2.43.0


From f6437f1c38f3de2f7e21e6f07e589e78aef66991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:48 +0000
Subject: [PATCH 100/142] fix: names in encodings other than Unicode and Mac
 Roman panic when converted to a string

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index b82187e..82d29fd 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -941,6 +941,8 @@ func (record nameRecord) String() string {
 		decoder = unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
 	} else if record.Platform == PlatformMacintosh && record.Encoding == EncodingMacintoshRoman {
 		decoder = charmap.Macintosh.NewDecoder()
+	} else {
+		return string(record.Value) // unsupported encoding
 	}
 	s, _, err := transform.String(decoder, string(record.Value))
 	if err == nil {
-- 
2.43.0


From 42b20146d0b4f2c694ca329b99a35a30517132a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:54 +0000
Subject: [PATCH 101/142] fix: a directory that cannot be read prevents all
 other fonts from being found

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 0b6d173..32ecbe3 100644
--- a/system.go
+++ b/system.go
@@ -434,7 +434,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 		return fs.WalkDir(os.DirFS(dir), ".", func(path string, d fs.DirEntry, err error) error {
 			path = filepath.Join(dir, path)
 			if err != nil {
-				return err
+				return nil // skip directories that cannot be read
 			} else if d.IsDir() {
 				if walkedDirs[path] {
 					return filepath.SkipDir
-- 
2.43.0


From b42abf1c7255ce09d07c444df0365b578b2a0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:51 +0000
Subject: [PATCH 102/142] fix: side bearings of glyphs that do not exist

---
 sfnt.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 82d29fd..bffea04 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -748,11 +748,14 @@ type hmtxTable struct {
 	LeftSideBearings []int16
 }
 
+// LeftSideBearing returns the left side bearing of the glyph. It returns zero if the glyph doesn't exist.
 func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
-	if uint16(len(hmtx.HMetrics)) <= glyphID {
-		return hmtx.LeftSideBearings[glyphID-uint16(len(hmtx.HMetrics))]
+	if int(glyphID) < len(hmtx.HMetrics) {
+		return hmtx.HMetrics[glyphID].LeftSideBearing
+	} else if i := int(glyphID) - len(hmtx.HMetrics); i < len(hmtx.LeftSideBearings) {
+		return hmtx.LeftSideBearings[i]
 	}
-	return hmtx.HMetrics[glyphID].LeftSideBearing
+	return 0
 }
 
 func (hmtx *hmtxTable) Advance(glyphID uint16) uint16 {
@@ -806,11 +809,14 @@ type vmtxTable struct {
 	TopSideBearings []int16
 }
 
+// TopSideBearing returns the top side bearing of the glyph. It returns zero if the glyph doesn't exist.
 func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
-	if uint16(len(vmtx.VMetrics)) <= glyphID {
-		return vmtx.TopSideBearings[glyphID-uint16(len(vmtx.VMetrics))]
+	if int(glyphID) < len(vmtx.VMetrics) {
+		return vmtx.VMetrics[glyphID].TopSideBearing
+	} else if i := int(glyphID) - len(vmtx.VMetrics); i < len(vmtx.TopSideBearings) {
+		return vmtx.TopSideBearings[i]
 	}
-	return vmtx.VMetrics[glyphID].TopSideBearing
+	return 0
 }
 
 func (vmtx *vmtxTable) Advance(glyphID uint16) uint16 {
-- 
2.43.0


From b2d14535e1d4a90e8fe3c4e4da429f65bfed59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:56 +0000
Subject: [PATCH 103/142] fix: return an error for maxp tables that are too
 short

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index bffea04..7c10d10 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -882,6 +882,8 @@ func (sfnt *SFNT) parseMaxp() error {
 	b, ok := sfnt.Tables["maxp"]
 	if !ok {
 		return fmt.Errorf("maxp: missing table")
+	} else if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
 	}
 
 	sfnt.Maxp = &maxpTable{}
-- 
2.43.0


From 6e0088ff21e2c6b865092c814ac61f3b1fbf3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 104/142] fix: name tables larger than 64kB

---
 sfnt.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 7c10d10..e640bed 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1004,7 +1004,7 @@ func (sfnt *SFNT) parseName() error {
 	}
 	count := r.ReadUint16()
 	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	if uint32(len(b)) < 6+12*uint32(count) || len(b) < int(storageOffset) {
 		return fmt.Errorf("name: bad table")
 	}
 	sfnt.Name.NameRecord = make([]nameRecord, count)
@@ -1014,12 +1014,12 @@ func (sfnt *SFNT) parseName() error {
 		sfnt.Name.NameRecord[i].Language = r.ReadUint16()
 		sfnt.Name.NameRecord[i].Name = NameID(r.ReadUint16())
 
-		length := r.ReadUint16()
-		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		length := int(r.ReadUint16())
+		offset := int(storageOffset) + int(r.ReadUint16())
+		if len(b) < offset || len(b)-offset < length {
 			return fmt.Errorf("name: bad table")
 		}
-		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+		sfnt.Name.NameRecord[i].Value = b[offset : offset+length]
 	}
 	if version == 1 {
 		if uint32(len(b)) < 6+12*uint32(count)+2 {
@@ -1031,12 +1031,12 @@ func (sfnt *SFNT) parseName() error {
 		}
 		sfnt.Name.LangTag = make([]nameLangTagRecord, langTagCount)
 		for i := 0; i < int(langTagCount); i++ {
-			length := r.ReadUint16()
-			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			length := int(r.ReadUint16())
+			offset := int(storageOffset) + int(r.ReadUint16())
+			if len(b) < offset || len(b)-offset < length {
 				return fmt.Errorf("name: bad table")
 			}
-			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+			sfnt.Name.LangTag[i].Value = b[offset : offset+length]
 		}
 	}
 	if r.Pos() != int64(storageOffset) {
-- 
2.43.0


From f5b6a92eb63af41c400fa9aa341d8fda57defffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:07 +0000
Subject: [PATCH 105/142] fix: characters of format 12 cmap subtables that
 extend to the last 32-bit value

---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 0e81985..721aa1c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"sort"
 	"sync"
+	"unicode"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -151,7 +152,8 @@ func (subtable *cmapFormat12) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
 		subtable.unicodeMap = map[uint16][]rune{}
 		for i := 0; i < len(subtable.StartCharCode); i++ {
-			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i]; r++ {
+			// characters beyond the maximum do not exist
+			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i] && r <= unicode.MaxRune; r++ {
 				id := uint16((r - subtable.StartCharCode[i]) + subtable.StartGlyphID[i])
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], rune(r))
 			}
-- 
2.43.0


From c89edd72dc4dd72ca528a40d063089b8d5a28698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:12 +0000
Subject: [PATCH 106/142] fix: cmap subtables that extend beyond the table or
 that are shared

---
 sfnt_cmap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 721aa1c..98ddf74 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -458,13 +458,14 @@ func (sfnt *SFNT) parseCmap() error {
 
 	// find and extract subtables and make sure they don't overlap each other
 	offsets, lengths := []uint32{0}, []uint32{4 + 8*uint32(numTables)}
+	subtableIDs := []int{}
 	for j := 0; j < int(numTables); j++ {
 		platformID := r.ReadUint16()
 		encodingID := r.ReadUint16()
 		subtableID := -1
 
 		offset := r.ReadUint32()
-		if uint32(len(b))-8 < offset { // to extract the subtable format and length
+		if uint32(len(b)) < 8 || uint32(len(b))-8 < offset { // to extract the subtable format and length
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
@@ -487,12 +488,12 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-			if offset == offsets[i] && length == lengths[i] {
-				subtableID = int(i)
+			if 0 < i && offset == offsets[i] && length == lengths[i] {
+				subtableID = subtableIDs[i-1] // first offset is for the header
 				break
 			} else if offset <= offsets[i] && offsets[i] < offset+length {
 				return fmt.Errorf("cmap: bad subtable %d", j)
@@ -504,6 +505,7 @@ func (sfnt *SFNT) parseCmap() error {
 			subtableID = len(sfnt.Cmap.Subtables)
 			offsets = append(offsets, offset)
 			lengths = append(lengths, length)
+			subtableIDs = append(subtableIDs, subtableID)
 
 			switch format {
 			case 0:
-- 
2.43.0


From ad13c1c9277a79329e2450424abc06d33d5772b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 107/142] fix: return no data for glyphs with bad offsets in
 the loca table

---
 sfnt_truetype.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 94442d8..b7d826c 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -70,9 +70,9 @@ type glyfTable struct {
 
 // Get returns the glyph data corresponding to the passed glyphID. It returns nil if the glyph doesn't exist.
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
-	start, ok1 := glyf.loca.Get(glyphID)
-	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	start, ok1 := glyf.loca.get(int(glyphID))
+	end, ok2 := glyf.loca.get(int(glyphID) + 1)
+	if !ok1 || !ok2 || end < start || uint32(len(glyf.data)) < end {
 		return nil
 	}
 	return glyf.data[start:end]
@@ -470,10 +470,15 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
-		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
-		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
+	return loca.get(int(glyphID))
+}
+
+// get returns the i-th offset, which may be one beyond the largest glyph ID.
+func (loca *locaTable) get(i int) (uint32, bool) {
+	if loca.Format == 0 && i*2+2 <= len(loca.data) {
+		return 2 * uint32(binary.BigEndian.Uint16(loca.data[i*2:])), true
+	} else if loca.Format == 1 && i*4+4 <= len(loca.data) {
+		return binary.BigEndian.Uint32(loca.data[i*4:]), true
 	}
 	return 0, false
 }
-- 
2.43.0


From 7c43baf1b4df22583aedfa84fe0876d7ab8bee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:20 +0000
Subject: [PATCH 108/142] fix: outlines with the largest number of points or
 with truncated instructions

---
 sfnt_truetype.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index b7d826c..b16b451 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -337,6 +337,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				return nil, err
 			}
 
+			if math.MaxUint16+1 < len(contour.XCoordinates)+len(subContour.XCoordinates) {
+				return nil, fmt.Errorf("glyf: too many points for glyphID %v", glyphID)
+			}
 			var numPoints uint16
 			if 0 < len(contour.EndPoints) {
 				numPoints = contour.EndPoints[len(contour.EndPoints)-1] + 1
@@ -363,6 +366,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			}
 		}
 		if hasInstructions {
+			if r.Len() < 2 {
+				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+			}
 			instructionLength := r.ReadUint16()
 			if r.Len() < int64(instructionLength) {
 				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
@@ -379,14 +385,14 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 		return err
 	}
 
-	var i uint16
+	i := 0
 	for _, endPoint := range contour.EndPoints {
 		j := i
 		first := true
 		firstOff := false
 		prevOff := false
 		startX, startY := 0.0, 0.0
-		for ; i <= endPoint; i++ {
+		for ; i <= int(endPoint); i++ {
 			if first {
 				if contour.OnCurve[i] {
 					startX = float64(contour.XCoordinates[i])
-- 
2.43.0


From 90d28100c41f574241473e30f35f601d9105a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:34 +0000
Subject: [PATCH 109/142] fix: write truncated composite glyphs and glyphs with
 the largest number of points to WOFF2

---
 woff2.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 250fca2..10cd1ac 100644
--- a/woff2.go
+++ b/woff2.go
@@ -973,7 +973,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			// nContour and nPoints streams
 			nContourStream.WriteInt16(int16(len(contour.EndPoints)))
 			for i, endPoint := range contour.EndPoints {
-				if 0 < i {
+				if i == 0 && endPoint == math.MaxUint16 {
+					return nil, nil // number of points of the contour cannot be written
+				} else if 0 < i {
 					endPoint -= contour.EndPoints[i-1]
 				} else {
 					endPoint++
@@ -1102,6 +1104,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				write255Uint16(glyphStream, instructionLength)
 				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
+			if r.overrun {
+				return nil, nil // bad glyf data
+			}
 		}
 
 		if !bboxEqual {
-- 
2.43.0


From 6914ffbbba2281991698640c04b45fb8ce7cdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 110/142] fix: return an error for truncated composite glyphs
 when subsetting and merging

---
 sfnt_merge.go    | 20 ++++++--------------
 sfnt_subset.go   | 16 ++++------------
 sfnt_truetype.go | 22 ++++++++++++++++++++++
 3 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index b46f2e8..eb109e4 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -130,21 +130,13 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 
 				// update glyphIDs of composite glyphs
 				if sfnt2.Glyf.IsComposite(glyphID2) {
-					b := wGlyf.Bytes()[start:]
-					offset := uint32(10)
-					for {
-						flags := binary.BigEndian.Uint16(b[offset:])
-						subGlyphID := binary.BigEndian.Uint16(b[offset+2:])
-						if subGlyphID == 0 {
-							return fmt.Errorf("glyf: glyph %d uses .notdef", glyphID2)
+					if err := mapComponents(wGlyf.Bytes()[start:], func(subGlyphID uint16) (uint16, error) {
+						if subGlyphID == 0 || sfnt2.NumGlyphs() <= subGlyphID {
+							return 0, fmt.Errorf("glyf: bad component %d", subGlyphID)
 						}
-						binary.BigEndian.PutUint16(b[offset+2:], origNumGlyphs+subGlyphID-1)
-
-						length, more := glyfCompositeLength(flags)
-						if !more {
-							break
-						}
-						offset += length
+						return origNumGlyphs + subGlyphID - 1, nil
+					}); err != nil {
+						return fmt.Errorf("%v for glyphID %v", err, glyphID2)
 					}
 				}
 			}
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 785edb1..a810070 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -1,7 +1,6 @@
 package font
 
 import (
-	"encoding/binary"
 	"fmt"
 	"math"
 	"sort"
@@ -255,17 +254,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 					start := uint32(w.Len())
 					w.WriteBytes(b)
 
-					offset := uint32(10)
-					for {
-						flags := binary.BigEndian.Uint16(b[offset:])
-						subGlyphID := binary.BigEndian.Uint16(b[offset+2:])
-						binary.BigEndian.PutUint16(w.Bytes()[start+offset+2:], glyphMap[subGlyphID])
-
-						length, more := glyfCompositeLength(flags)
-						if !more {
-							break
-						}
-						offset += length
+					if err := mapComponents(w.Bytes()[start:], func(subGlyphID uint16) (uint16, error) {
+						return glyphMap[subGlyphID], nil
+					}); err != nil {
+						return nil, fmt.Errorf("%v for glyphID %v", err, glyphID)
 					}
 				} else {
 					// simple glyph
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index b16b451..5c9602e 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -138,6 +138,28 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 	return deps, nil
 }
 
+// mapComponents replaces the component glyph IDs in the data of a composite glyph, it stops and returns an error when the data is truncated.
+func mapComponents(b []byte, fn func(glyphID uint16) (uint16, error)) error {
+	offset := uint32(10)
+	for {
+		if uint32(len(b)) < offset+4 {
+			return fmt.Errorf("glyf: bad composite glyph")
+		}
+		flags := binary.BigEndian.Uint16(b[offset:])
+		glyphID, err := fn(binary.BigEndian.Uint16(b[offset+2:]))
+		if err != nil {
+			return err
+		}
+		binary.BigEndian.PutUint16(b[offset+2:], glyphID)
+
+		length, more := glyfCompositeLength(flags)
+		if !more {
+			return nil
+		}
+		offset += length
+	}
+}
+
 func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 	length = 4 + 2
 	if flags&0x0001 != 0 { // ARG_1_AND_2_ARE_WORDS
-- 
2.43.0


From 98f96938194e0088980b464e0847cf984bb45e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 111/142] fix: return an error for bad CFF INDEX data

---
 sfnt_cff.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 516a530..c4df45e 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1171,7 +1171,9 @@ func (t *cffINDEX) Get(i uint16) []byte {
 
 func (t *cffINDEX) GetSID(sid int) string {
 	// only for String INDEX
-	if sid < len(cffStandardStrings) {
+	if sid < 0 {
+		return ""
+	} else if sid < len(cffStandardStrings) {
 		return cffStandardStrings[sid]
 	}
 	sid -= len(cffStandardStrings)
@@ -1228,7 +1230,9 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
 	var count uint32
-	if !isCFF2 {
+	if r.Len() < 2 || isCFF2 && r.Len() < 4 {
+		return nil, fmt.Errorf("bad data")
+	} else if !isCFF2 {
 		count = uint32(r.ReadUint16())
 	} else {
 		count = r.ReadUint32()
@@ -1266,9 +1270,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
-	if r.Len() < int64(t.offset[count]) {
+	if t.offset[0] != 0 || r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offset")
+		}
+	}
 	t.data = r.ReadBytes(int64(t.offset[count]))
 	return t, nil
 }
-- 
2.43.0


From 79be0b7c842a48abdce3aebe392ed360ce1fa92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 112/142] fix: return an error for truncated CFF DICT operands

---
 sfnt_cff.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c4df45e..5644945 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1793,8 +1793,10 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 			if !isCFF2 && 48 <= len(ints) || isCFF2 && 513 <= len(ints) {
 				return fmt.Errorf("too many operands for operator")
 			}
-			i, f := parseDICTNumber(b0, r)
-			if math.IsNaN(f) {
+			i, f, ok := parseDICTNumber(b0, r)
+			if !ok {
+				return fmt.Errorf("bad operand")
+			} else if math.IsNaN(f) {
 				f = float64(i)
 			} else {
 				i = int(math.Round(f))
@@ -1806,17 +1808,24 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 	return nil
 }
 
-func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
+// returns: integer, float (NaN if an integer), ok
+func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64, bool) {
 	if b0 < 28 {
 		// operator
-		return 0, math.NaN()
+		return 0, math.NaN(), true
 	} else if b0 == 28 {
-		return int(r.ReadInt16()), math.NaN()
+		if r.Len() < 2 {
+			return 0, math.NaN(), false
+		}
+		return int(r.ReadInt16()), math.NaN(), true
 	} else if b0 == 29 {
-		return int(r.ReadInt32()), math.NaN()
+		if r.Len() < 4 {
+			return 0, math.NaN(), false
+		}
+		return int(r.ReadInt32()), math.NaN(), true
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1833,29 +1842,33 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				case 0x0F:
 					f, err := strconv.ParseFloat(string(num), 64)
 					if err != nil {
-						return 0, math.NaN()
+						return 0, math.NaN(), true
 					}
-					return 0, f
+					return 0, f, true
 				default:
 					num = append(num, '0'+byte(b>>4))
 				}
 				b = b << 4
 			}
 		}
+		return 0, math.NaN(), false
 	} else if b0 == 31 {
 		// reserved
-		return 0, math.NaN()
+		return 0, math.NaN(), true
 	} else if b0 < 247 {
-		return b0 - 139, math.NaN()
-	} else if b0 < 251 {
-		b1 := int(r.ReadUint8())
-		return (b0-247)*256 + b1 + 108, math.NaN()
+		return b0 - 139, math.NaN(), true
 	} else if b0 < 255 {
+		if r.Len() < 1 {
+			return 0, math.NaN(), false
+		}
 		b1 := int(r.ReadUint8())
-		return -(b0-251)*256 - b1 - 108, math.NaN()
+		if b0 < 251 {
+			return (b0-247)*256 + b1 + 108, math.NaN(), true
+		}
+		return -(b0-251)*256 - b1 - 108, math.NaN(), true
 	}
 	// reserved
-	return 0, math.NaN()
+	return 0, math.NaN(), true
 }
 
 // returns: integer, float, isFrac, ok
-- 
2.43.0


From 7b973f7b2446a4b5e850a4414a2171e80da86ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:00 +0000
Subject: [PATCH 113/142] fix: return an error for bad offsets in CFF DICTs

---
 sfnt_cff.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 5644945..f1e84e7 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -96,7 +96,9 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: Global Subrs INDEX: %w", err)
 	}
 
-	r.Seek(int64(topDICT.CharStrings), 0)
+	if _, err := r.Seek(int64(topDICT.CharStrings), 0); err != nil {
+		return fmt.Errorf("CFF: bad CharStrings INDEX offset")
+	}
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return fmt.Errorf("CFF: CharStrings INDEX: %w", err)
@@ -113,8 +115,7 @@ func (sfnt *SFNT) parseCFF() error {
 	} else if charStringsINDEX.Len() == 1 {
 		charset = []string{".notdef"}
 	} else if 1 < charStringsINDEX.Len() {
-		r.Seek(int64(topDICT.Charset), 0)
-		if r.Len() == 0 {
+		if _, err := r.Seek(int64(topDICT.Charset), 0); err != nil || r.Len() == 0 {
 			return fmt.Errorf("CFF: bad Charset")
 		}
 
@@ -168,20 +169,20 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		privateData, ok := cffPrivateData(b, topDICT.PrivateOffset, topDICT.PrivateLength)
+		if !ok {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
-		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
+		privateDICT, err := parsePrivateDICT(privateData, false)
 		if err != nil {
 			return fmt.Errorf("CFF: Private DICT: %w", err)
 		}
 
 		localSubrsINDEX := &cffINDEX{}
 		if privateDICT.Subrs != 0 {
-			if len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
+			if _, err := r.Seek(int64(topDICT.PrivateOffset)+int64(privateDICT.Subrs), 0); err != nil {
 				return fmt.Errorf("CFF: bad Local Subrs INDEX offset")
 			}
-			r.Seek(int64(topDICT.PrivateOffset+privateDICT.Subrs), 0)
 			localSubrsINDEX, err = parseINDEX(r, false)
 			if err != nil {
 				return fmt.Errorf("CFF: Local Subrs INDEX: %w", err)
@@ -2050,13 +2051,19 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 	return t.localSubrs[i]
 }
 
-func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	if len(b) < fdArray {
-		return nil, fmt.Errorf("bad Font INDEX offset")
+// cffPrivateData returns the data of the Private DICT, it returns false if the offset or length are invalid.
+func cffPrivateData(b []byte, offset, length int) ([]byte, bool) {
+	if offset < 0 || length < 0 || len(b) < offset || len(b)-offset < length {
+		return nil, false
 	}
+	return b[offset : offset+length], true
+}
 
+func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
 	r := parse.NewBinaryReaderBytes(b)
-	r.Seek(int64(fdArray), 0)
+	if _, err := r.Seek(int64(fdArray), 0); err != nil {
+		return nil, fmt.Errorf("bad Font INDEX offset")
+	}
 	fontINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return nil, fmt.Errorf("Font INDEX: %w", err)
@@ -2070,10 +2077,11 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		privateData, ok := cffPrivateData(b, fontDICT.PrivateOffset, fontDICT.PrivateLength)
+		if !ok {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
-		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
+		privateDICT, err := parsePrivateDICT(privateData, isCFF2)
 		if err != nil {
 			return nil, fmt.Errorf("Private DICT: %w", err)
 		}
@@ -2081,10 +2089,9 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		fonts.localSubrs[i] = &cffINDEX{}
 
 		if privateDICT.Subrs != 0 {
-			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
+			if _, err := r.Seek(int64(fontDICT.PrivateOffset)+int64(privateDICT.Subrs), 0); err != nil {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
-			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
 			fonts.localSubrs[i], err = parseINDEX(r, isCFF2)
 			if err != nil {
 				return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
-- 
2.43.0


From 59234cef03a751c240cda922433273436c98afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:05 +0000
Subject: [PATCH 114/142] fix: return an error for bad CFF FDSelect data

---
 sfnt_cff.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f1e84e7..1100b84 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2027,7 +2027,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
+	if len(t.fd) <= i {
 		return 0, false
 	}
 	return t.fd[i], true
@@ -2101,25 +2101,44 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		}
 	}
 
-	r.Seek(int64(fdSelect), 0)
+	if _, err := r.Seek(int64(fdSelect), 0); err != nil {
+		return nil, fmt.Errorf("bad FDSelect offset")
+	} else if r.Len() < 1 {
+		return nil, fmt.Errorf("FDSelect: bad data")
+	}
 	format := r.ReadUint8()
 	if format == 0 {
+		if r.Len() < int64(nGlyphs) {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.fds = make([]uint8, nGlyphs)
 		for i := 0; i < nGlyphs; i++ {
 			fonts.fds[i] = r.ReadUint8()
+			if fontINDEX.Len() <= int(fonts.fds[i]) {
+				return nil, fmt.Errorf("FDSelect: bad font index")
+			}
+		}
+		return fonts, nil
+	}
+
+	if format == 3 && 2 <= r.Len() {
+		nRanges := int(r.ReadUint16())
+		if r.Len() < 3*int64(nRanges)+2 {
+			return nil, fmt.Errorf("FDSelect: bad data")
 		}
-	} else if format == 3 {
-		nRanges := r.ReadUint16()
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
-		for i := 0; i < int(nRanges); i++ {
+		for i := 0; i < nRanges; i++ {
 			fonts.first[i] = uint32(r.ReadUint16())
 			fonts.fd[i] = uint16(r.ReadUint8())
 		}
 		fonts.first[nRanges] = uint32(r.ReadUint16())
-	} else if isCFF2 && format == 4 {
+	} else if isCFF2 && format == 4 && 4 <= r.Len() {
 		nRanges := r.ReadUint32()
-		fonts.first = make([]uint32, nRanges+1)
+		if r.Len() < 6*int64(nRanges)+4 {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
+		fonts.first = make([]uint32, int64(nRanges)+1)
 		fonts.fd = make([]uint16, nRanges)
 		for i := 0; i < int(nRanges); i++ {
 			fonts.first[i] = r.ReadUint32()
@@ -2129,6 +2148,11 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	} else {
 		return nil, fmt.Errorf("FDSelect: bad format")
 	}
+	for _, fd := range fonts.fd {
+		if fontINDEX.Len() <= int(fd) {
+			return nil, fmt.Errorf("FDSelect: bad font index")
+		}
+	}
 	return fonts, nil
 }
 
-- 
2.43.0


From 7d7d0f7acea161901e8d494ffee302cdb709c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:23 +0000
Subject: [PATCH 115/142] fix: subtable index of cmap encoding records behind a
 format 14 subtable

---
 sfnt_cmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 98ddf74..9dd3517 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -664,6 +664,7 @@ func (sfnt *SFNT) parseCmap() error {
 					return fmt.Errorf("cmap: bad subtable %d", j)
 				}
 				// TODO: implement cmap subtable format 14
+				sfnt.Cmap.Subtables = append(sfnt.Cmap.Subtables, &cmapFormat14{})
 				//numVarSelectorRecords := rs.ReadUint32()
 				//for i := 0; i < int(numVarSelectorRecords); i++ {
 				//	varSelector := rs.ReadUint24()
-- 
2.43.0


From 45174fe299ea83c05a63c7ef34fea3ada6d7c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 116/142] fix: CFF fonts of which the number of charstrings is
 zero or not the number of glyphs

---
 sfnt_cff.go    | 6 +++---
 sfnt_merge.go  | 4 ++++
 sfnt_subset.go | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1100b84..a0fe7e3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2205,9 +2205,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 			return nil, fmt.Errorf("charset length must match number of glyphs")
 		}
 
-		sids := make([]int, numGlyphs-1)
-		for i, name := range cff.charset[1:numGlyphs] {
-			sids[i] = strings.AddSID([]byte(name))
+		sids := make([]int, max(0, numGlyphs-1))
+		for i := range sids {
+			sids[i] = strings.AddSID([]byte(cff.charset[i+1])) // skip .notdef
 		}
 
 		// count number of ranges and max values of nLeft
diff --git a/sfnt_merge.go b/sfnt_merge.go
index eb109e4..a86672f 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -247,6 +247,10 @@ func (sfnt *SFNT) merge(sfnt2 *SFNT, options MergeOptions) error {
 			fonts:       sfnt2.CFF.fonts,
 		}
 
+		if sfnt.CFF.charStrings.Len() != int(origNumGlyphs) || sfnt2.CFF.charStrings.Len() != int(sfnt2.NumGlyphs()) {
+			return fmt.Errorf("CFF: number of charStrings does not match the number of glyphs")
+		}
+
 		// remove .notdef
 		offset := cff2.charStrings.offset[1]
 		cff2.charStrings.offset = cff2.charStrings.offset[1:]
diff --git a/sfnt_subset.go b/sfnt_subset.go
index a810070..c53e153 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -213,7 +213,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			if cff.charset != nil {
 				charset := make([]string, len(glyphIDs))
 				for i, glyphID := range glyphIDs {
-					charset[i] = cff.charset[glyphID]
+					charset[i], _ = cff.GlyphName(glyphID)
 				}
 				if 0 < len(charset) {
 					charset[0] = ".notdef" // the name of the first glyph is not stored
-- 
2.43.0


From bd0ff4cb5597826820d629237c2faa6068ebfa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:27 +0000
Subject: [PATCH 117/142] fix: CFF FDSelect data without ranges

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a0fe7e3..f4206a8 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2024,7 +2024,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	}
 
 	i := 0
-	for t.first[i+1] <= glyphID {
+	for i < len(t.fd) && t.first[i+1] <= glyphID {
 		i++
 	}
 	if len(t.fd) <= i {
-- 
2.43.0


From 72b410501e51caa233eeb09cdcd60997585e4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 118/142] fix: advances of fonts without glyphs

---
 sfnt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index e640bed..9b6b209 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -759,7 +759,9 @@ func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
 }
 
 func (hmtx *hmtxTable) Advance(glyphID uint16) uint16 {
-	if uint16(len(hmtx.HMetrics)) <= glyphID {
+	if len(hmtx.HMetrics) == 0 {
+		return 0
+	} else if uint16(len(hmtx.HMetrics)) <= glyphID {
 		glyphID = uint16(len(hmtx.HMetrics)) - 1
 	}
 	return hmtx.HMetrics[glyphID].AdvanceWidth
@@ -820,7 +822,9 @@ func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
 }
 
 func (vmtx *vmtxTable) Advance(glyphID uint16) uint16 {
-	if uint16(len(vmtx.VMetrics)) <= glyphID {
+	if len(vmtx.VMetrics) == 0 {
+		return 0
+	} else if uint16(len(vmtx.VMetrics)) <= glyphID {
 		glyphID = uint16(len(vmtx.VMetrics)) - 1
 	}
 	return vmtx.VMetrics[glyphID].AdvanceHeight
-- 
2.43.0


From 7ce3ff4c67a67cfbe7dbe06da794cb1ef53756f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 119/142] fix: endless loop for WOFF and WOFF2 files with 32768
 or more tables

---
 woff.go  | 2 +-
 woff2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index 431b562..611c5bf 100644
--- a/woff.go
+++ b/woff.go
@@ -131,7 +131,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if numTables/2 < searchRange {
 			break
 		}
 		searchRange *= 2
diff --git a/woff2.go b/woff2.go
index 10cd1ac..252e4be 100644
--- a/woff2.go
+++ b/woff2.go
@@ -257,7 +257,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if numTables/2 < searchRange {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From f044f73cba886bd65a4e5670e41655164c2c26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 120/142] fix: write fonts with 4096 or more tables

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 9b6b209..aa1ffa0 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -518,7 +518,7 @@ func (sfnt *SFNT) Write() []byte {
 	w.WriteUint16(numTables<<4 - searchRange) // rangeShift
 
 	// we'll write the table records at the end
-	w.WriteBytes(make([]byte, numTables<<4))
+	w.WriteBytes(make([]byte, len(tags)<<4))
 
 	// write tables
 	var checksumAdjustmentPos uint32
-- 
2.43.0


From 1e6ee2dae45485ec81021209b795b0294943fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:28 +0000
Subject: [PATCH 121/142] fix: limit memory use for WOFF tables that decompress
 to more than declared

---
 woff.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index 611c5bf..fa5971a 100644
--- a/woff.go
+++ b/woff.go
@@ -171,10 +171,13 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			if err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if _, err = io.Copy(&buf, r); err != nil {
+			// never decompress more than declared, one more byte shows that it is longer
+			if _, err = io.Copy(&buf, io.LimitReader(r, int64(table.origLength)+1)); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if err = r.Close(); err != nil {
+			if table.origLength < uint32(buf.Len()) {
+				return nil, fmt.Errorf("decompressed table length must be equal to origLength")
+			} else if err = r.Close(); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
 			data = buf.Bytes()
-- 
2.43.0


From d936300b141bb80300240bf12c668a87a4966c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:34 +0000
Subject: [PATCH 122/142] fix: limit memory use for WOFF2 files that decompress
 to more than declared

---
 woff2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 252e4be..b7d1bdd 100644
--- a/woff2.go
+++ b/woff2.go
@@ -171,7 +171,8 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
-	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
+	// never decompress more than declared, one more byte shows that it is longer
+	if _, err := io.Copy(dataBuf, io.LimitReader(rBrotli, int64(uncompressedSize)+1)); err != nil {
 		return nil, err
 	}
 	data := dataBuf.Bytes()
-- 
2.43.0


From 413d98f76ec9406a8ba27a4a2295a04b703085de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 123/142] fix: return an error for cmap subtables that overlap
 a preceding subtable

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 9dd3517..a2dd2bf 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -469,7 +469,7 @@ func (sfnt *SFNT) parseCmap() error {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-			if offsets[i] < offset && offset < lengths[i] {
+			if offsets[i] < offset && offset-offsets[i] < lengths[i] {
 				return fmt.Errorf("cmap: bad subtable %d", j)
 			}
 		}
-- 
2.43.0


From 94d74f38daebcff2803603142de1d5a0886fc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:46 +0000
Subject: [PATCH 124/142] fix: limit the number of components of nested
 composite glyphs

---
 sfnt_truetype.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 5c9602e..ff4153e 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -87,12 +87,16 @@ func (glyf *glyfTable) IsComposite(glyphID uint16) bool {
 	return b[0]&0x80 != 0 // sign bit is set on numberOfContours
 }
 
+// maxGlyfComponents is the maximum number of components of a composite glyph including those of nested composite glyphs.
+const maxGlyfComponents = math.MaxUint16
+
 // Dependencies returns all the glyph IDs that a composite glyph uses.
 func (glyf *glyfTable) Dependencies(glyphID uint16) ([]uint16, error) {
-	return glyf.dependencies(glyphID, 0)
+	components := 0
+	return glyf.dependencies(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error) {
+func (glyf *glyfTable) dependencies(glyphID uint16, level int, components *int) ([]uint16, error) {
 	deps := []uint16{glyphID}
 	b := glyf.Get(glyphID)
 	if b == nil {
@@ -119,7 +123,10 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 
 			flags := r.ReadUint16()
 			subGlyphID := r.ReadUint16()
-			subDeps, err := glyf.dependencies(subGlyphID, level+1)
+			if *components++; maxGlyfComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+			}
+			subDeps, err := glyf.dependencies(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
@@ -179,10 +186,11 @@ func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 // Contour returns the contours of a glyph. It unpacks composite glyphs into their final shape.
 func (glyf *glyfTable) Contour(glyphID uint16) (*glyfContour, error) {
 	// TODO: cache output
-	return glyf.contour(glyphID, 0)
+	components := 0
+	return glyf.contour(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error) {
+func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*glyfContour, error) {
 	b := glyf.Get(glyphID)
 	if b == nil {
 		return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
@@ -354,7 +362,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				hasInstructions = true
 			}
 
-			subContour, err := glyf.contour(subGlyphID, level+1)
+			if *components++; maxGlyfComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+			}
+			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From eaa78d9733a65f1137e37c883742d4323e10f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 125/142] fix: limit the work done for charstrings with nested
 subroutine calls

---
 sfnt_cff.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f4206a8..51aaa03 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -398,6 +398,9 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
+// maxCharStringLength is the maximum of numbers and operators in a charstring including those of all subroutine calls.
+const maxCharStringLength = 10000000
+
 // parseCharString calls the callback for each operator with the reader positioned after the operator, the position of the number directly before the operator or -1, the operator, and the operand stack.
 func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int64, int32, []int32) error) error {
 	table := "CFF"
@@ -420,7 +423,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	beforeMoveto := true
 	hasParsedWidth := false
 	posNumber := int64(-1) // position of the number directly before the operator
-	for {
+	for i := 0; ; i++ {
+		if i == maxCharStringLength {
+			return fmt.Errorf("%v: too many numbers and operators in charstring and its subroutines", table)
+		}
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
 			r = callStack[len(callStack)-1]
-- 
2.43.0


From 1d5ce686c9764e51a1b1a5139827a5575b567d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:59 +0000
Subject: [PATCH 126/142] fix: time to subset the kern table for many glyphs

---
 sfnt_subset.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index c53e153..ccafeda 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -412,18 +412,28 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			kern := kernTable{
 				Subtables: []kernFormat0{},
 			}
+			subsetGlyphIDs := map[uint16][]int{} // a glyph may be present more than once
+			for subsetGlyphID, glyphID := range glyphIDs {
+				if glyphID != 0 {
+					subsetGlyphIDs[glyphID] = append(subsetGlyphIDs[glyphID], subsetGlyphID)
+				}
+			}
 			for _, subtable := range sfntOld.Kern.Subtables {
 				pairs := []kernPair{}
-				for l, lOrig := range glyphIDs {
-					if lOrig == 0 {
+				for i, pair := range subtable.Pairs {
+					if 0 < i && subtable.Pairs[i-1].Key == pair.Key {
 						continue
 					}
-					for r, rOrig := range glyphIDs {
-						if rOrig == 0 {
-							continue
-						}
-						// zero values matter only as minimum
-						if value, ok := subtable.find(lOrig, rOrig); ok && (value != 0 || subtable.Coverage[1]) {
+					ls, rs := subsetGlyphIDs[uint16(pair.Key>>16)], subsetGlyphIDs[uint16(pair.Key)]
+					if len(ls) == 0 || len(rs) == 0 {
+						continue
+					}
+					value, _ := subtable.find(uint16(pair.Key>>16), uint16(pair.Key))
+					if value == 0 && !subtable.Coverage[1] {
+						continue // zero values matter only as minimum
+					}
+					for _, l := range ls {
+						for _, r := range rs {
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
 								Value: value,
@@ -431,6 +441,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						}
 					}
 				}
+				sort.Slice(pairs, func(i, j int) bool {
+					return pairs[i].Key < pairs[j].Key
+				})
 				kern.add(subtable.Coverage, pairs)
 			}
 			if len(kern.Subtables) == 0 {
-- 
2.43.0


From a0a7591cd1e5adcf5e277fb05c7a5421b9801ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:07 +0000
Subject: [PATCH 127/142] fix: lower the limit of the work done for charstrings

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 51aaa03..be592fc 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -399,7 +399,7 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 }
 
 // maxCharStringLength is the maximum of numbers and operators in a charstring including those of all subroutine calls.
-const maxCharStringLength = 10000000
+const maxCharStringLength = 1 << 20
 
 // parseCharString calls the callback for each operator with the reader positioned after the operator, the position of the number directly before the operator or -1, the operator, and the operand stack.
 func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int64, int32, []int32) error) error {
-- 
2.43.0


From 301d5397db76be0b769f1e54359435b91464e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:09 +0000
Subject: [PATCH 128/142] fix: glyph names of CFF fonts with more than 65145
 own names, and the time to write many

---
 sfnt_cff.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index be592fc..d0915bc 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2211,9 +2211,22 @@ func (cff *cffTable) Write() ([]byte, error) {
 			return nil, fmt.Errorf("charset length must match number of glyphs")
 		}
 
+		sidMap := make(map[string]int, len(cffStandardStrings)+numGlyphs)
+		for i := len(cffStandardStrings) + strings.Len() - 1; 0 <= i; i-- {
+			sidMap[strings.GetSID(i)] = i
+		}
 		sids := make([]int, max(0, numGlyphs-1))
 		for i := range sids {
-			sids[i] = strings.AddSID([]byte(cff.charset[i+1])) // skip .notdef
+			name := cff.charset[i+1] // skip .notdef
+			sid, ok := sidMap[name]
+			if !ok {
+				sid = len(cffStandardStrings) + strings.Add([]byte(name))
+				if math.MaxUint16 < sid {
+					return nil, fmt.Errorf("too many glyph names")
+				}
+				sidMap[name] = sid
+			}
+			sids[i] = sid
 		}
 
 		// count number of ranges and max values of nLeft
-- 
2.43.0


From 8db5e0a90f60616f8ce31d2306d232018e8e239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:54 +0000
Subject: [PATCH 129/142] fix: fontcmd: unicode categories and scripts could
 select other glyphs or never end

---
 cmd/fontcmd/subset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ec2022c..c1b8e96 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -258,8 +258,8 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R16 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
-				glyphID := sfnt.GlyphIndex(rune(r))
+			for r := rune(ran.Lo); r <= rune(ran.Hi); r += rune(ran.Stride) {
+				glyphID := sfnt.GlyphIndex(r)
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
 				}
-- 
2.43.0


From 96a87c46c5afe465a26bd518f7cde953b3333736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:56 +0000
Subject: [PATCH 130/142] fix: fontcmd: glyph IDs above 32767 could not be
 selected

---
 cmd/fontcmd/subset.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index c1b8e96..de8e810 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -55,15 +55,15 @@ func (cmd *Subset) Run() error {
 	// append glyphs
 	for _, glyph := range cmd.Glyphs {
 		if dash := strings.IndexByte(glyph, '-'); dash != -1 {
-			first, err := strconv.ParseInt(glyph[:dash], 10, 16)
+			first, err := strconv.ParseUint(glyph[:dash], 10, 16)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			last, err := strconv.ParseInt(glyph[dash+1:], 10, 16)
+			last, err := strconv.ParseUint(glyph[dash+1:], 10, 16)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			if last < first || first < 0 || 65535 < last {
+			if last < first {
 				return fmt.Errorf("invalid glyph ID range: %d-%d\n", first, last)
 			}
 			for first != last+1 {
@@ -71,13 +71,10 @@ func (cmd *Subset) Run() error {
 				first++
 			}
 		} else {
-			glyphID, err := strconv.ParseInt(glyph, 10, 16)
+			glyphID, err := strconv.ParseUint(glyph, 10, 16)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			if glyphID < 0 || 65535 < glyphID {
-				return fmt.Errorf("invalid glyph ID: %v", glyphID)
-			}
 			glyphMap[uint16(glyphID)] = true
 		}
 	}
-- 
2.43.0


From 33b0192a8127195882fb0c5a5c37f2844b51f044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:59 +0000
Subject: [PATCH 131/142] fix: fontcmd: panic on an incomplete escape sequence

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index de8e810..ef401bf 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -135,7 +135,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'u':
 					if i+5 < len(runes) {
@@ -146,7 +146,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'U':
 					if i+9 < len(runes) {
@@ -157,7 +157,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				default:
 					Warning.Println("invalid escape sequence:", string(runes[i:i+2]))
-- 
2.43.0


From 5996b39147b10c2d2351a18635b8669932bdd0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:01 +0000
Subject: [PATCH 132/142] fix: fontcmd: ranges of characters beyond Unicode ran
 for minutes or never ended

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ef401bf..2cdea65 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -150,7 +150,7 @@ func (cmd *Subset) Run() error {
 					}
 				case 'U':
 					if i+9 < len(runes) {
-						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok {
+						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok && h <= unicode.MaxRune {
 							r = rune(h)
 							i += 9
 						} else {
@@ -217,7 +217,7 @@ func (cmd *Subset) Run() error {
 			if err != nil {
 				return fmt.Errorf("invalid unicode codepoint: %v", err)
 			}
-			if last < first || first < 0 {
+			if last < first || first < 0 || unicode.MaxRune < last {
 				return fmt.Errorf("invalid unicode range: U+%4X-U+%4X\n", first, last)
 			}
 			for first != last+1 {
@@ -233,7 +233,7 @@ func (cmd *Subset) Run() error {
 			codepoint, err := strconv.ParseInt(code, 16, 32)
 			if err != nil {
 				return fmt.Errorf("invalid unicode codepoint: %v", err)
-			} else if codepoint < 0 {
+			} else if codepoint < 0 || unicode.MaxRune < codepoint {
 				return fmt.Errorf("invalid unicode codepoint: U+%4X\n", codepoint)
 			}
 			glyphID := sfnt.GlyphIndex(rune(codepoint))
-- 
2.43.0


From afd3acb7a614077dcab1c5283cc58df9756fdc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 133/142] fix: fontcmd: a hyphen given by its code was taken as
 a range

---
 cmd/fontcmd/subset.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 2cdea65..6801234 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -86,8 +86,8 @@ func (cmd *Subset) Run() error {
 		runes := []rune(s)
 		for i := 0; i < len(runes); i++ {
 			r := runes[i]
-			escaped := false
-			if r == '\\' && i+1 < len(runes) {
+			escaped := r == '\\' && i+1 < len(runes)
+			if escaped {
 				switch runes[i+1] {
 				case 'a':
 					r = '\u0007'
@@ -120,7 +120,6 @@ func (cmd *Subset) Run() error {
 					r = '\u002C'
 					i++
 				case '-':
-					escaped = true
 					r = '\u002D'
 					i++
 				case '\\':
-- 
2.43.0


From 2c301a943d5a3aab43ba0a03431fbce1b997cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:06 +0000
Subject: [PATCH 134/142] fix: fontcmd: octal escape sequences were not
 supported

---
 cmd/fontcmd/subset.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 6801234..8d5b5c6 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -125,6 +125,17 @@ func (cmd *Subset) Run() error {
 				case '\\':
 					r = '\u005C'
 					i++
+				case '0', '1', '2', '3', '4', '5', '6', '7':
+					if i+3 < len(runes) {
+						if o, err := strconv.ParseUint(string(runes[i+1:i+4]), 8, 8); err == nil {
+							r = rune(o)
+							i += 3
+						} else {
+							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						}
+					} else {
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
+					}
 				case 'x':
 					if i+3 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+4]); ok {
-- 
2.43.0


From 96171a05abce4834066dde5e6f6c4eb7aedfc83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:08 +0000
Subject: [PATCH 135/142] fix: fontcmd: CFF fonts could not be subset to more
 than 229 glyphs

---
 cmd/fontcmd/subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 8d5b5c6..af87b76 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -291,7 +291,7 @@ func (cmd *Subset) Run() error {
 	sort.Slice(glyphIDs, func(i, j int) bool { return glyphIDs[i] < glyphIDs[j] })
 
 	// set glyph names
-	if sfnt.IsCFF && cmd.GlyphName == "" {
+	if sfnt.IsCFF && cmd.GlyphName == "" && len(glyphIDs) <= 229 {
 		sfnt.CFF.SetGlyphNames(nil)
 	}
 
-- 
2.43.0


From aa72b510ca0a7c514ecdbf4144d488b11294949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:10 +0000
Subject: [PATCH 136/142] fix: fontcmd: unsupported encodings were ignored when
 no output was given

---
 cmd/fontcmd/subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index af87b76..2fdd8b2 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -36,7 +36,8 @@ func (cmd *Subset) Run() error {
 
 	if len(cmd.Outputs) == 0 {
 		cmd.Outputs = []string{cmd.Input}
-	} else if cmd.Encoding != "" && cmd.Encoding != "base64" {
+	}
+	if cmd.Encoding != "" && cmd.Encoding != "base64" {
 		return fmt.Errorf("unsupported encoding: %v", cmd.Encoding)
 	}
 
-- 
2.43.0


From 7f98daa0b9e8d096026dd5a1f9639681740c804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:18 +0000
Subject: [PATCH 137/142] fix: fontcmd: existing files were truncated or
 replaced by runs that fail

---
 cmd/fontcmd/css.go    |  44 +++++-------
 cmd/fontcmd/merge.go  |  18 +++--
 cmd/fontcmd/subset.go |  22 +++---
 cmd/fontcmd/util.go   | 152 ++++++++++++++++++++++++++++++++++++------
 4 files changed, 171 insertions(+), 65 deletions(-)

diff --git a/cmd/fontcmd/css.go b/cmd/fontcmd/css.go
index bb4cd04..ba21c4e 100644
--- a/cmd/fontcmd/css.go
+++ b/cmd/fontcmd/css.go
@@ -1,14 +1,11 @@
 package main
 
 import (
-	"bufio"
+	"bytes"
 	"fmt"
-	"io"
 	"io/ioutil"
 	"log"
 	"os"
-
-	"github.com/tdewolff/prompt"
 )
 
 type CSS struct {
@@ -36,25 +33,8 @@ func (cmd *CSS) Run() error {
 		return err
 	}
 
-	// write CSS file
-	var w io.WriteCloser
-	if cmd.Append {
-		if w, err = os.OpenFile(cmd.Output, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0644); err != nil {
-			return err
-		}
-	} else {
-		if _, err := os.Stat(cmd.Output); err == nil {
-			if !cmd.Force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", cmd.Output), false) {
-				return nil
-			}
-		}
-		if w, err = os.Create(cmd.Output); err != nil {
-			return err
-		}
-	}
-
 	// write CSS classes
-	b := bufio.NewWriter(w)
+	b := &bytes.Buffer{}
 	for glyphID := uint16(1); glyphID < sfnt.NumGlyphs(); glyphID++ {
 		rs := sfnt.GlyphToUnicode(glyphID)
 		name, ok := fmtName(cmd.Selector, sfnt, glyphID)
@@ -64,11 +44,19 @@ func (cmd *CSS) Run() error {
 			fmt.Fprintf(b, "%s{content:\"\\%x\"}\n", name, rs[0])
 		}
 	}
-	if err := b.Flush(); err != nil {
-		w.Close()
-		return err
-	} else if err := w.Close(); err != nil {
-		return err
+
+	// write CSS file
+	if cmd.Append {
+		w, err := os.OpenFile(cmd.Output, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0644)
+		if err != nil {
+			return err
+		} else if _, err := w.Write(b.Bytes()); err != nil {
+			w.Close()
+			return err
+		}
+		return w.Close()
+	} else if !confirm([]string{cmd.Output}, cmd.Force) {
+		return nil
 	}
-	return nil
+	return writeFiles([]string{cmd.Output}, [][]byte{b.Bytes()})
 }
diff --git a/cmd/fontcmd/merge.go b/cmd/fontcmd/merge.go
index a049d08..b5aee0c 100644
--- a/cmd/fontcmd/merge.go
+++ b/cmd/fontcmd/merge.go
@@ -58,16 +58,20 @@ func (cmd *Merge) Run() error {
 	}
 
 	// write merged font program
-	for _, output := range cmd.Outputs {
-		mimetype := extMimetype[filepath.Ext(output)]
+	mimetypes := make([]string, len(cmd.Outputs))
+	for i, output := range cmd.Outputs {
+		mimetypes[i] = extMimetype[filepath.Ext(output)]
 		if cmd.Type != "" {
-			mimetype = cmd.Type
-		}
-		wLen, err := writeFont(output, mimetype, cmd.Encoding, cmd.Force, sfnt)
-		if err != nil {
-			return err
+			mimetypes[i] = cmd.Type
 		}
+	}
+	wLens, err := writeFonts(cmd.Outputs, mimetypes, cmd.Encoding, cmd.Force, sfnt)
+	if err != nil {
+		return err
+	}
 
+	for i, output := range cmd.Outputs {
+		wLen := wLens[i]
 		ratio := 1.0
 		if 0 < rLen {
 			ratio = float64(wLen) / float64(rLen)
diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 2fdd8b2..41331af 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -323,18 +323,22 @@ func (cmd *Subset) Run() error {
 	}
 
 	// create font program
-	for _, output := range cmd.Outputs {
-		mimetype := extMimetype[filepath.Ext(output)]
+	mimetypes := make([]string, len(cmd.Outputs))
+	for i, output := range cmd.Outputs {
+		mimetypes[i] = extMimetype[filepath.Ext(output)]
 		if cmd.Type != "" {
-			mimetype = cmd.Type
-		} else if mimetype == "" {
-			mimetype = rMimetype
-		}
-		wLen, err := writeFont(output, mimetype, cmd.Encoding, cmd.Force, sfntSubset)
-		if err != nil {
-			return err
+			mimetypes[i] = cmd.Type
+		} else if mimetypes[i] == "" {
+			mimetypes[i] = rMimetype
 		}
+	}
+	wLens, err := writeFonts(cmd.Outputs, mimetypes, cmd.Encoding, cmd.Force, sfntSubset)
+	if err != nil {
+		return err
+	}
 
+	for i, output := range cmd.Outputs {
+		wLen := wLens[i]
 		ratio := 1.0
 		if 0 < rLen {
 			ratio = float64(wLen) / float64(rLen)
diff --git a/cmd/fontcmd/util.go b/cmd/fontcmd/util.go
index 504bc03..403d6f1 100644
--- a/cmd/fontcmd/util.go
+++ b/cmd/fontcmd/util.go
@@ -5,10 +5,10 @@ import (
 	"fmt"
 	"image"
 	"image/color"
-	"io"
 	"io/ioutil"
 	"math"
 	"os"
+	"path/filepath"
 	"strings"
 	"unicode"
 
@@ -125,29 +125,30 @@ func readFont(filename string, index int) (*font.SFNT, string, int, error) {
 	return sfnt, mimetype, n, nil
 }
 
-func writeFont(filename, mimetype, encoding string, force bool, sfnt *font.SFNT) (int, error) {
+// encodeFont returns the font in the given container and encoding, and the size of the font without encoding.
+func encodeFont(mimetype, encoding string, sfnt *font.SFNT) ([]byte, int, error) {
 	var b []byte
 	var err error
 	switch mimetype {
 	case "font/truetype":
 		if sfnt.IsCFF {
-			return 0, fmt.Errorf("cannot convert CFF to TrueType glyph outlines")
+			return nil, 0, fmt.Errorf("cannot convert CFF to TrueType glyph outlines")
 		}
 		b = sfnt.Write()
 	case "font/opentype":
 		if sfnt.IsTrueType {
-			return 0, fmt.Errorf("cannot convert TrueType to CFF glyph outlines")
+			return nil, 0, fmt.Errorf("cannot convert TrueType to CFF glyph outlines")
 		}
 		b = sfnt.Write()
 	case "font/woff2":
 		if b, err = sfnt.WriteWOFF2(); err != nil {
-			return 0, err
+			return nil, 0, err
 		}
 	default:
 		if mimetype == "" {
-			return 0, fmt.Errorf("mimetype not set")
+			return nil, 0, fmt.Errorf("mimetype not set")
 		}
-		return 0, fmt.Errorf("unsupported output file type: %v", mimetype)
+		return nil, 0, fmt.Errorf("unsupported output file type: %v", mimetype)
 	}
 	n := len(b)
 
@@ -157,28 +158,137 @@ func writeFont(filename, mimetype, encoding string, force bool, sfnt *font.SFNT)
 		base64.StdEncoding.Encode(dst, b)
 		b = dst
 	}
+	return b, n, nil
+}
 
-	var w io.WriteCloser
-	if filename == "-" {
-		w = os.Stdout
-	} else {
-		if _, err := os.Stat(filename); err == nil {
+// confirm asks whether the existing files may be overwritten.
+func confirm(filenames []string, force bool) bool {
+	for _, filename := range filenames {
+		if filename == "-" {
+			continue
+		} else if _, err := os.Stat(filename); err == nil {
 			if !force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", filename), false) {
-				return 0, fmt.Errorf("file already exists")
+				return false
 			}
 		}
-		if w, err = os.Create(filename); err != nil {
-			return 0, err
+	}
+	return true
+}
+
+// pendingFile is a file that has been prepared for writing.
+type pendingFile struct {
+	commit func() error
+	abort  func()
+}
+
+// prepareFile prepares writing a file, existing files are left untouched until commit.
+func prepareFile(filename string, b []byte) (*pendingFile, error) {
+	write := func(w *os.File) error {
+		if _, err := w.Write(b); err != nil {
+			w.Close()
+			return err
 		}
+		return w.Close()
+	}
+	if filename == "-" {
+		return &pendingFile{func() error { return write(os.Stdout) }, func() {}}, nil
 	}
 
-	if _, err := w.Write(b); err != nil {
-		w.Close()
-		return 0, err
-	} else if err := w.Close(); err != nil {
-		return 0, err
+	info, err := os.Stat(filename)
+	if err != nil {
+		w, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0666)
+		if err != nil {
+			return nil, err
+		} else if err := write(w); err != nil {
+			os.Remove(filename)
+			return nil, err
+		}
+		return &pendingFile{func() error { return nil }, func() { os.Remove(filename) }}, nil
+	}
+
+	// check that the existing file can be written to
+	orig, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	if err != nil {
+		return nil, err
+	}
+	if info.Mode().IsRegular() {
+		if filename, err = filepath.EvalSymlinks(filename); err != nil {
+			orig.Close()
+			return nil, err
+		}
+		if w, err := os.CreateTemp(filepath.Dir(filename), ".fontcmd-*"); err == nil {
+			// write to a temporary file that replaces the existing file
+			orig.Close()
+			if err := w.Chmod(info.Mode().Perm()); err != nil {
+				w.Close()
+				os.Remove(w.Name())
+				return nil, err
+			} else if err := write(w); err != nil {
+				os.Remove(w.Name())
+				return nil, err
+			}
+			commit := func() error {
+				err := os.Rename(w.Name(), filename)
+				if err != nil {
+					os.Remove(w.Name())
+				}
+				return err
+			}
+			return &pendingFile{commit, func() { os.Remove(w.Name()) }}, nil
+		}
+	}
+
+	// devices and files in directories that are not writable
+	commit := func() error {
+		if info.Mode().IsRegular() {
+			if err := orig.Truncate(0); err != nil {
+				orig.Close()
+				return err
+			}
+		}
+		return write(orig)
+	}
+	return &pendingFile{commit, func() { orig.Close() }}, nil
+}
+
+// writeFiles writes all files. No existing file is touched unless all data could be written.
+func writeFiles(filenames []string, data [][]byte) error {
+	pending := []*pendingFile{}
+	for i, filename := range filenames {
+		file, err := prepareFile(filename, data[i])
+		if err != nil {
+			for _, file := range pending {
+				file.abort()
+			}
+			return err
+		}
+		pending = append(pending, file)
+	}
+	for i, file := range pending {
+		if err := file.commit(); err != nil {
+			for _, file := range pending[i+1:] {
+				file.abort()
+			}
+			return err
+		}
+	}
+	return nil
+}
+
+// writeFonts writes the font to all outputs and returns the sizes of the written fonts.
+func writeFonts(outputs, mimetypes []string, encoding string, force bool, sfnt *font.SFNT) ([]int, error) {
+	data := make([][]byte, len(outputs))
+	sizes := make([]int, len(outputs))
+	for i := range outputs {
+		var err error
+		if data[i], sizes[i], err = encodeFont(mimetypes[i], encoding, sfnt); err != nil {
+			return nil, err
+		}
+	}
+	if !confirm(outputs, force) {
+		return nil, fmt.Errorf("file already exists")
 	}
-	return n, nil
+	return sizes, writeFiles(outputs, data)
 }
 
 func parseHexRunes(rs []rune) (uint64, bool) {
-- 
2.43.0


From 47341d4fac45f6b6b6a1f07798939407cc6118c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:21 +0000
Subject: [PATCH 138/142] fix: fontcmd: messages were mixed with the font on
 the standard output

---
 cmd/fontcmd/merge.go  |  2 +-
 cmd/fontcmd/subset.go |  2 +-
 cmd/fontcmd/util.go   | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/merge.go b/cmd/fontcmd/merge.go
index b5aee0c..9db5a33 100644
--- a/cmd/fontcmd/merge.go
+++ b/cmd/fontcmd/merge.go
@@ -76,7 +76,7 @@ func (cmd *Merge) Run() error {
 		if 0 < rLen {
 			ratio = float64(wLen) / float64(rLen)
 		}
-		if !cmd.Quiet && output != "-" {
+		if !cmd.Quiet && !hasStdout(cmd.Outputs) {
 			fmt.Printf("%v:  %v => %v (%.1f%%)\n", filepath.Base(output), formatBytes(uint64(rLen)), formatBytes(uint64(wLen)), ratio*100.0)
 		}
 	}
diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 41331af..3e292bb 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -343,7 +343,7 @@ func (cmd *Subset) Run() error {
 		if 0 < rLen {
 			ratio = float64(wLen) / float64(rLen)
 		}
-		if !cmd.Quiet && output != "-" {
+		if !cmd.Quiet && !hasStdout(cmd.Outputs) {
 			numGlyphsSubset := sfntSubset.NumGlyphs()
 			fmt.Printf("%v:  %v => %v glyphs,  %v => %v (%.1f%%)\n", filepath.Base(output), numGlyphs, numGlyphsSubset, formatBytes(uint64(rLen)), formatBytes(uint64(wLen)), ratio*100.0)
 		}
diff --git a/cmd/fontcmd/util.go b/cmd/fontcmd/util.go
index 403d6f1..7d0ebc8 100644
--- a/cmd/fontcmd/util.go
+++ b/cmd/fontcmd/util.go
@@ -161,8 +161,23 @@ func encodeFont(mimetype, encoding string, sfnt *font.SFNT) ([]byte, int, error)
 	return b, n, nil
 }
 
+// hasStdout is true when the standard output is one of the outputs, nothing else must be written to it.
+func hasStdout(filenames []string) bool {
+	for _, filename := range filenames {
+		if filename == "-" {
+			return true
+		}
+	}
+	return false
+}
+
 // confirm asks whether the existing files may be overwritten.
 func confirm(filenames []string, force bool) bool {
+	if hasStdout(filenames) {
+		stdout := os.Stdout
+		os.Stdout = os.Stderr
+		defer func() { os.Stdout = stdout }()
+	}
 	for _, filename := range filenames {
 		if filename == "-" {
 			continue
-- 
2.43.0


From 2dba5ebf55d25164db9bcf2124a89f1d68b82e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:24 +0000
Subject: [PATCH 139/142] fix: fontcmd: the table directories of font
 collections were not shown

---
 cmd/fontcmd/info.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/cmd/fontcmd/info.go b/cmd/fontcmd/info.go
index fb55e61..e4a25a7 100644
--- a/cmd/fontcmd/info.go
+++ b/cmd/fontcmd/info.go
@@ -23,11 +23,18 @@ func (cmd *Info) Run() error {
 
 	r := parse.NewBinaryReaderBytes(b)
 	sfntVersion := r.ReadString(4)
+	offsets := []uint32{0}
 	if sfntVersion == "ttcf" {
 		_ = r.ReadUint32() // majorVersion and minorVersion
+		numFonts := r.ReadUint32()
+		if uint32(len(b)-12)/4 < numFonts {
+			return fmt.Errorf("bad font collection")
+		}
+		offsets = offsets[:0]
+		for i := uint32(0); i < numFonts; i++ {
+			offsets = append(offsets, r.ReadUint32())
+		}
 	}
-	numTables := int(r.ReadUint16())
-	_ = r.ReadBytes(6)
 
 	version := "TrueType"
 	if sfntVersion == "OTTO" {
@@ -37,15 +44,31 @@ func (cmd *Info) Run() error {
 	}
 	fmt.Printf("File: %s\n\n", cmd.Input)
 	fmt.Printf("sfntVersion: 0x%08X (%s)\n", sfntVersion, version)
-	fmt.Printf("\nTable directory:\n")
 
 	nLen := int(math.Log10(float64(len(b))) + 1)
-	for i := 0; i < numTables; i++ {
-		tag := r.ReadString(4)
-		checksum := r.ReadUint32()
-		offset := r.ReadUint32()
-		length := r.ReadUint32()
-		fmt.Printf("  %2d  %s  checksum=0x%08X  offset=%*d  length=%*d\n", i, tag, checksum, nLen, offset, nLen, length)
+	for j, offset := range offsets {
+		if uint32(len(b)) < 12 || uint32(len(b))-12 < offset {
+			return fmt.Errorf("bad table directory")
+		}
+		r := parse.NewBinaryReaderBytes(b[offset:])
+		_ = r.ReadBytes(4) // sfntVersion
+		numTables := int(r.ReadUint16())
+		_ = r.ReadBytes(6)
+		if (len(b)-int(offset)-12)/16 < numTables {
+			return fmt.Errorf("bad table directory")
+		}
+		if sfntVersion == "ttcf" {
+			fmt.Printf("\nTable directory of font %d:\n", j)
+		} else {
+			fmt.Printf("\nTable directory:\n")
+		}
+		for i := 0; i < numTables; i++ {
+			tag := r.ReadString(4)
+			checksum := r.ReadUint32()
+			offset := r.ReadUint32()
+			length := r.ReadUint32()
+			fmt.Printf("  %2d  %s  checksum=0x%08X  offset=%*d  length=%*d\n", i, tag, checksum, nLen, offset, nLen, length)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 75668a49f642baa121039cf017f398a67926dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:14 +0000
Subject: [PATCH 140/142] fix: fontcmd: files that cannot be examined were
 overwritten without asking

---
 cmd/fontcmd/css.go  |  4 ++--
 cmd/fontcmd/util.go | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cmd/fontcmd/css.go b/cmd/fontcmd/css.go
index ba21c4e..2e6e911 100644
--- a/cmd/fontcmd/css.go
+++ b/cmd/fontcmd/css.go
@@ -55,8 +55,8 @@ func (cmd *CSS) Run() error {
 			return err
 		}
 		return w.Close()
-	} else if !confirm([]string{cmd.Output}, cmd.Force) {
-		return nil
+	} else if ok, err := confirm([]string{cmd.Output}, cmd.Force); err != nil || !ok {
+		return err
 	}
 	return writeFiles([]string{cmd.Output}, [][]byte{b.Bytes()})
 }
diff --git a/cmd/fontcmd/util.go b/cmd/fontcmd/util.go
index 7d0ebc8..3fed3a0 100644
--- a/cmd/fontcmd/util.go
+++ b/cmd/fontcmd/util.go
@@ -172,7 +172,7 @@ func hasStdout(filenames []string) bool {
 }
 
 // confirm asks whether the existing files may be overwritten.
-func confirm(filenames []string, force bool) bool {
+func confirm(filenames []string, force bool) (bool, error) {
 	if hasStdout(filenames) {
 		stdout := os.Stdout
 		os.Stdout = os.Stderr
@@ -183,11 +183,13 @@ func confirm(filenames []string, force bool) bool {
 			continue
 		} else if _, err := os.Stat(filename); err == nil {
 			if !force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", filename), false) {
-				return false
+				return false, nil
 			}
+		} else if !os.IsNotExist(err) {
+			return false, err
 		}
 	}
-	return true
+	return true, nil
 }
 
 // pendingFile is a file that has been prepared for writing.
@@ -210,8 +212,10 @@ func prepareFile(filename string, b []byte) (*pendingFile, error) {
 	}
 
 	info, err := os.Stat(filename)
-	if err != nil {
-		w, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0666)
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
+	} else if err != nil {
+		w, err := os.Create(filename)
 		if err != nil {
 			return nil, err
 		} else if err := write(w); err != nil {
@@ -300,7 +304,9 @@ func writeFonts(outputs, mimetypes []string, encoding string, force bool, sfnt *
 			return nil, err
 		}
 	}
-	if !confirm(outputs, force) {
+	if ok, err := confirm(outputs, force); err != nil {
+		return nil, err
+	} else if !ok {
 		return nil, fmt.Errorf("file already exists")
 	}
 	return sizes, writeFiles(outputs, data)
-- 
2.43.0


From 2c52901d8935f81f4f9e201029661afaa7232679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:42 +0000
Subject: [PATCH 141/142] fix: head dates more than 292 years after 1904 were
 read as other dates

---
 sfnt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index aa1ffa0..09f2ab3 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -603,8 +603,9 @@ func (sfnt *SFNT) parseHead() error {
 	if math.MaxInt64 < created || math.MaxInt64 < modified {
 		return fmt.Errorf("head: created and/or modified dates too large")
 	}
-	sfnt.Head.Created = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(created))
-	sfnt.Head.Modified = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(modified))
+	epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix() // durations in nanoseconds would overflow after 292 years
+	sfnt.Head.Created = time.Unix(epoch+int64(created), 0).UTC()
+	sfnt.Head.Modified = time.Unix(epoch+int64(modified), 0).UTC()
 	sfnt.Head.XMin = r.ReadInt16()
 	sfnt.Head.YMin = r.ReadInt16()
 	sfnt.Head.XMax = r.ReadInt16()
-- 
2.43.0


From 0320a7f50d0c56d9e9d3d5b95d702f4eb51293d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:40 +0000
Subject: [PATCH 142/142] fix: saving and loading the index of system fonts
 left the file open

---
 system.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 32ecbe3..9f76774 100644
--- a/system.go
+++ b/system.go
@@ -291,6 +291,8 @@ func LoadSystemFonts(filename string) (*SystemFonts, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
+
 	fonts := &SystemFonts{}
 	if err = gob.NewDecoder(f).Decode(fonts); err != nil {
 		return nil, err
@@ -304,9 +306,10 @@ func (s *SystemFonts) Save(filename string) error {
 		return err
 	}
 	if err = gob.NewEncoder(f).Encode(s); err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
-- 
2.43.0

