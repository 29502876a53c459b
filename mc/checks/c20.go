package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/tdewolff/font"

	"verifmc/core"
)

// C20: AFM files are generated from a small grammar; the oracle is the value that was written into the file.

func init() {
	core.Register(&core.Check{ID: "C20", Run: c20,
		Rule: "exhaustive enumeration of AFM files over the supported keywords: every keyword with every value of a list covering signs, fractions, magnitudes and spellings, every order of the fields of a glyph, glyph lists, ligatures and kerning pairs up to a size, and every truncation, count error and damaged number; all glyphs and all pairs of the shipped AFM files against an independent reader"})
}

// aGlyph is a glyph of a file to be; strings are written as they are.
type aGlyph struct {
	code string // with C or CH
	w    string
	name string
	box  []string
	ligs [][2]string
}

type aFile struct {
	head   [][2]string
	glyphs []aGlyph
	kern   [][3]string
	noKern bool
	order  []int // of WX, N, B, L
	sep    string
	eol    string
	track  int
	start  string
	kp     string // in front of the vertical part of kerning
	wy     string
}

func (a *aFile) lines() []string {
	sep := a.sep
	if sep == "" {
		sep = " "
	}
	start := a.start
	if start == "" {
		start = "StartKernPairs"
	}
	l := []string{"StartFontMetrics 4.1", "Comment generated"}
	for _, h := range a.head {
		l = append(l, h[0]+sep+h[1])
	}
	l = append(l, fmt.Sprintf("StartCharMetrics%s%d", sep, len(a.glyphs)))
	order := a.order
	if order == nil {
		order = []int{0, 1, 2, 3}
	}
	for _, g := range a.glyphs {
		s := strings.ReplaceAll(g.code, " ", sep)
		for _, k := range order {
			switch k {
			case 0:
				if g.w != "" {
					s += sep + ";" + sep + "WX" + sep + g.w
				}
				if a.wy != "" {
					s += sep + ";" + sep + "WY" + sep + a.wy
				}
			case 1:
				s += sep + ";" + sep + "N" + sep + g.name
			case 2:
				if g.box != nil {
					s += sep + ";" + sep + "B" + sep + strings.Join(g.box, sep)
				}
			case 3:
				for _, lg := range g.ligs {
					s += sep + ";" + sep + "L" + sep + lg[0] + sep + lg[1]
				}
			}
		}
		l = append(l, s+sep+";")
	}
	l = append(l, "EndCharMetrics")
	if !a.noKern {
		l = append(l, "StartKernData")
		if a.track > 0 {
			l = append(l, fmt.Sprintf("StartTrackKern%s%d", sep, a.track))
			for i := 0; i < a.track; i++ {
				l = append(l, fmt.Sprintf("TrackKern %d 14 0 72 1.5", i))
			}
			l = append(l, "EndTrackKern")
		}
		l = append(l, fmt.Sprintf("%s%s%d", start, sep, len(a.kern)))
		for _, k := range a.kern {
			if a.kp != "" {
				l = append(l, "KP"+sep+k[0]+sep+k[1]+sep+k[2]+sep+a.kp)
				continue
			}
			l = append(l, "KPX"+sep+k[0]+sep+k[1]+sep+k[2])
		}
		l = append(l, "EndKernPairs", "EndKernData")
	}
	return append(l, "EndFontMetrics")
}

func (a *aFile) bytes() []byte {
	eol := a.eol
	if eol == "" {
		eol = "\n"
	}
	return []byte(strings.Join(a.lines(), eol) + eol)
}

// aNear tells whether an integer is the rounded value; halves may go either way.
func aNear(got int, want float64) bool { return math.Abs(float64(got)-want) <= 0.5 }

var aRunes = func() map[string]rune {
	m := map[string]rune{"Adieresis": 0xC4, "germandbls": 0xDF, "Euro": 0x20AC, "alpha": 0x3B1, "bullet": 0x2022, "fi": 0xFB01, "fl": 0xFB02, "ff": 0xFB00, "quoteleft": 0x2018, "quoteright": 0x2019, "emdash": 0x2014, "dotlessi": 0x131}
	for i, n := range strings.Fields("space exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at") {
		m[n] = rune(0x20 + i)
	}
	for i, n := range strings.Fields("bracketleft backslash bracketright asciicircum underscore grave") {
		m[n] = rune(0x5B + i)
	}
	for i, n := range strings.Fields("braceleft bar braceright asciitilde") {
		m[n] = rune(0x7B + i)
	}
	for c := 'a'; c <= 'z'; c++ {
		m[string(c)] = c
		m[string(c-32)] = c - 32
	}
	return m
}()

func aNum(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(s)
	}
	return v
}

// aVerify compares what was parsed with what was written.
func aVerify(t *core.T, desc string, a *aFile) {
	b := a.bytes()
	f, err := font.ParseAFM(b)
	t.Trans(1)
	t.StateB(b)
	if err != nil {
		t.Fail("valid file is an error", "%s: %v", desc, err)
		return
	}
	head := map[string]string{}
	for _, h := range a.head {
		head[h[0]] = strings.TrimSpace(h[1])
	}
	for _, s := range []struct{ k, got string }{{"FontName", f.FontName}, {"FullName", f.FullName}, {"FamilyName", f.FamilyName}, {"Weight", f.Weight}} {
		if s.got != head[s.k] {
			t.Fail(s.k, "%s: %s is %q, written %q", desc, s.k, s.got, head[s.k])
		}
	}
	// the fields are unsigned; negative values are in two's complement
	for _, s := range []struct {
		k   string
		got uint16
	}{{"CapHeight", f.CapHeight}, {"XHeight", f.XHeight}, {"Ascender", f.Ascender}, {"Descender", f.Descender}, {"UnderlinePosition", f.UnderlinePosition}, {"UnderlineThickness", f.UnderlineThickness}} {
		want := 0.0
		if v, ok := head[s.k]; ok {
			want = aNum(v)
		}
		if !aNear(int(int16(s.got)), want) {
			t.Fail(s.k, "%s: %s is %d, written %v", desc, s.k, int16(s.got), want)
		}
	}
	if v, ok := head["ItalicAngle"]; ok && math.Abs(f.ItalicAngle-aNum(v)) > 1e-9*math.Max(1, math.Abs(aNum(v))) {
		t.Fail("ItalicAngle", "%s: ItalicAngle is %v, written %v", desc, f.ItalicAngle, v)
	}
	if v, ok := head["IsFixedPitch"]; ok && f.IsFixedPitch != (v == "true") {
		t.Fail("IsFixedPitch", "%s: IsFixedPitch is %v, written %v", desc, f.IsFixedPitch, v)
	}
	if v, ok := head["FontBBox"]; ok {
		for k, x := range strings.Fields(v) {
			if !aNear(int(f.FontBBox[k]), aNum(x)) {
				t.Fail("FontBBox", "%s: FontBBox is %v, written %v", desc, f.FontBBox, v)
			}
		}
	}
	cw := ""
	if v, ok := head["CharWidth"]; ok {
		cw = strings.Fields(v)[0]
		if !aNear(int(f.CharWidth[0]), aNum(cw)) || !aNear(int(f.CharWidth[1]), aNum(strings.Fields(v)[1])) {
			t.Fail("CharWidth", "%s: CharWidth is %v, written %v", desc, f.CharWidth, v)
		}
	}
	if int(f.NumGlyphs()) != len(a.glyphs) {
		t.Fail("glyph count", "%s: %d glyphs, written %d", desc, f.NumGlyphs(), len(a.glyphs))
		return
	}
	id := map[string]int{}
	for i, g := range a.glyphs {
		id[g.name] = i
	}
	for i, g := range a.glyphs {
		if n := f.GlyphName(uint16(i)); n != g.name {
			t.Fail("glyph name", "%s: glyph %d is named %q, written %q", desc, i, n, g.name)
		}
		if k := f.FindGlyphName(g.name); int(k) != id[g.name] {
			t.Fail("find name", "%s: %q is found as glyph %d, written as %d", desc, g.name, k, id[g.name])
		}
		if r, ok := aRunes[g.name]; ok && int(f.GlyphIndex(r)) != id[g.name] {
			t.Fail("character", "%s: %U is glyph %d, written as %d (%s)", desc, r, f.GlyphIndex(r), id[g.name], g.name)
		}
		w := g.w
		if w == "" {
			w = cw
		}
		if w == "" {
			w = "0"
		}
		if adv := f.GlyphAdvance(uint16(i)); !aNear(int(adv), aNum(w)) {
			t.Fail("width", "%s: glyph %d has width %d, written %v", desc, i, adv, w)
		}
		var bb [4]int16
		bb[0], bb[1], bb[2], bb[3] = f.GlyphBounds(uint16(i))
		for k := range bb {
			want := 0.0
			if g.box != nil {
				want = aNum(g.box[k])
			}
			if !aNear(int(bb[k]), want) {
				t.Fail("glyph box", "%s: glyph %d has box %v, written %v", desc, i, bb, g.box)
				break
			}
		}
		code := strings.Fields(g.code)
		c, _ := strconv.Atoi(code[1])
		if code[0] == "CH" {
			x, _ := strconv.ParseInt(strings.Trim(code[1], "<>"), 16, 32)
			c = int(x)
		}
		if f.CharMetrics[i].CharacterCode != c {
			t.Fail("character code", "%s: glyph %d has code %d, written %s", desc, i, f.CharMetrics[i].CharacterCode, g.code)
		}
	}
	kern := map[[2]int]float64{}
	for _, k := range a.kern {
		if a.start != "StartKernPairs1" {
			kern[[2]int{id[k[0]], id[k[1]]}] = aNum(k[2])
		}
	}
	lig := map[[2]int]int{}
	for i, g := range a.glyphs {
		for _, l := range g.ligs {
			lig[[2]int{i, id[l[0]]}] = id[l[1]]
		}
	}
	if len(f.Ligatures) != len(lig) {
		t.Fail("ligatures", "%s: %d ligatures, written %d", desc, len(f.Ligatures), len(lig))
	}
	n := len(a.glyphs)
	for l := 0; l < n; l++ {
		for r := 0; r < n; r++ {
			if k := f.Kerning(uint16(l), uint16(r)); !aNear(int(k), kern[[2]int{l, r}]) {
				t.Fail("kerning", "%s: kerning of %s and %s is %d, written %v", desc, a.glyphs[l].name, a.glyphs[r].name, k, kern[[2]int{l, r}])
				return
			}
			want, ok := lig[[2]int{l, r}]
			if got, ok2 := f.Ligatures[[2]uint16{uint16(l), uint16(r)}]; ok != ok2 || int(got) != want {
				t.Fail("ligatures", "%s: ligature of %d and %d is %d %v, written %d %v", desc, l, r, got, ok2, want, ok)
				return
			}
		}
	}
	t.Trace()
}

// aBad expects an error.
func aBad(t *core.T, sig, desc string, lines []string, eol bool) {
	b := []byte(strings.Join(lines, "\n"))
	if eol {
		b = append(b, '\n')
	}
	t.Trans(1)
	t.StateB(b)
	f, err := font.ParseAFM(b)
	if err == nil {
		n := 0
		if f != nil {
			n = int(f.NumGlyphs())
		}
		t.Fail(sig, "%s: accepted, with %d glyphs:\n%s", desc, n, firstN(string(b), 900))
		return
	}
	t.Trace()
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func aBase() *aFile {
	return &aFile{
		head: [][2]string{{"FontName", "Test-Bold"}, {"FullName", "Test Bold Face"}, {"FamilyName", "Test Family"}, {"Weight", "Semi Bold"}, {"ItalicAngle", "-12.5"}, {"IsFixedPitch", "false"},
			{"CharacterSet", "Special"}, {"FontBBox", "-166 -225.7 1000 931.4"}, {"UnderlinePosition", "-100"}, {"UnderlineThickness", "50.6"}, {"Version", "002.000"}, {"Notice", "FontName of another ; C 3"},
			{"EncodingScheme", "FontSpecific"}, {"CapHeight", "718"}, {"XHeight", "523"}, {"Ascender", "718.2"}, {"Descender", "-207"}, {"StdHW", "76"}, {"StdVW", "88"}},
		glyphs: []aGlyph{
			{code: "C 32", w: "278", name: "space", box: []string{"0", "0", "0", "0"}},
			{code: "C 102", w: "300.4", name: "f", box: []string{"-15", "-0.6", "262.5", "728"}, ligs: [][2]string{{"i", "fi"}, {"l", "fl"}}},
			{code: "CH <69>", w: "222", name: "i", box: []string{"67", "0", "155", "718"}},
			{code: "C 108", w: "222", name: "l", box: []string{"67", "-1", "155", "718"}},
			{code: "C -1", w: "500", name: "fi", box: []string{"14", "0", "434", "728"}},
			{code: "C -1", w: "500", name: "fl", box: []string{"14", "0", "432", "728"}},
			{code: "C 200", w: "0", name: "a117", box: []string{"-32768", "-32768", "32767", "32767"}},
		},
		kern: [][3]string{{"f", "i", "-20"}, {"i", "f", "12.4"}, {"l", "l", "-0.8"}, {"space", "a117", "3"}},
	}
}

func c20(e *core.Env) {
	nums := []string{"0", "1", "-1", "50", "-50", "207", "-207", "-166", "718", "0.4", "0.6", "-0.4", "-0.6", "-1.4", "-1.6", "1.25", "-100.75", "-14.6", "-15.2", ".75", "-.75", "00012", "32767", "-32768", "1234", "-9999", "12.", "+7"}
	mag := []int{2, 3, 4, 7, 8, 9, 15, 16, 63, 64, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 9999, 10000, 16383, 16384, 20000, 32766}
	for _, m := range mag {
		nums = append(nums, strconv.Itoa(m), strconv.Itoa(-m), fmt.Sprintf("%d.3", m-1), fmt.Sprintf("-%d.3", m-1), fmt.Sprintf("%d.7", m-1), fmt.Sprintf("-%d.7", m-1))
	}
	if e.Thorough {
		for v := -32768; v <= 32767; v += 1 {
			nums = append(nums, strconv.Itoa(v))
			if v > -32768 && v < 32767 {
				nums = append(nums, fmt.Sprintf("%d.%d", v, 1+(v+40000)%9))
			}
		}
	}

	e.Case("base", func(t *core.T) {
		for _, eol := range []string{"\n", "\r\n"} {
			for _, sep := range []string{" ", "  ", "\t", " \t "} {
				for track := 0; track < 3; track++ {
					for _, st := range []string{"StartKernPairs", "StartKernPairs0", "StartKernPairs1"} {
						a := aBase()
						a.eol, a.sep, a.track, a.start = eol, sep, track, st
						aVerify(t, fmt.Sprintf("separator %q, end of line %q, %d track kerns, %s", sep, eol, track, st), a)
					}
				}
			}
		}
		a := aBase()
		a.noKern, a.kern = true, nil
		aVerify(t, "no kerning", a)
	})

	for _, k := range []string{"ItalicAngle", "CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness"} {
		chunk(len(nums), 2000, func(lo, hi int) {
			e.Case(fmt.Sprintf("values/%s/%d", k, lo), func(t *core.T) {
				for _, v := range nums[lo:hi] {
					a := aBase()
					for i := range a.head {
						if a.head[i][0] == k {
							a.head[i][1] = v
						}
					}
					aVerify(t, k+" "+v, a)
				}
			})
		})
	}
	for k := 0; k < 4; k++ {
		chunk(len(nums), 2000, func(lo, hi int) {
			e.Case(fmt.Sprintf("values/boxes/%d/%d", k, lo), func(t *core.T) {
				for _, v := range nums[lo:hi] {
					a := aBase()
					bb := []string{"-1", "-2", "3", "4"}
					bb[k] = v
					for i := range a.head {
						if a.head[i][0] == "FontBBox" {
							a.head[i][1] = strings.Join(bb, " ")
						}
					}
					a.glyphs[2].box = bb
					aVerify(t, fmt.Sprintf("coordinate %d is %s", k, v), a)
				}
			})
		})
	}
	chunk(len(nums), 2000, func(lo, hi int) {
		e.Case(fmt.Sprintf("values/width and kerning/%d", lo), func(t *core.T) {
			for _, v := range nums[lo:hi] {
				a := aBase()
				if aNum(v) >= 0 {
					a.glyphs[1].w = v
				}
				a.kern[1][2] = v
				aVerify(t, "width and kerning "+v, a)
			}
		})
	})
	e.Case("values/wide", func(t *core.T) {
		for _, v := range []string{"32768", "40000", "65535", "65534.6", "65535.4"} {
			a := aBase()
			a.glyphs[1].w = v
			aVerify(t, "width "+v, a)
		}
	})

	// names
	for _, k := range []string{"FontName", "FullName", "FamilyName", "Weight"} {
		e.Case("strings/"+k, func(t *core.T) {
			for _, v := range []string{"A", "One", "Two-Words", "Two Words", "Three Small Words", "Roman", "ITC Zapf Dingbats", "1", "; semicolon ;", "trailing  ", "Gr\u00f6\u00dfe"} {
				if k == "FontName" && strings.Contains(v, " ") {
					continue
				}
				a := aBase()
				for i := range a.head {
					if a.head[i][0] == k {
						a.head[i][1] = v
					}
				}
				aVerify(t, fmt.Sprintf("%s %q", k, v), a)
			}
		})
	}

	// header lines in all rotations and each left out
	e.Case("header", func(t *core.T) {
		n := len(aBase().head)
		for k := 0; k < n; k++ {
			a := aBase()
			a.head = append(append([][2]string{}, a.head[k:]...), a.head[:k]...)
			aVerify(t, fmt.Sprintf("header rotated by %d", k), a)
			a = aBase()
			a.head = append(append([][2]string{}, a.head[:k]...), a.head[k+1:]...)
			aVerify(t, fmt.Sprintf("header without %s", aBase().head[k][0]), a)
		}
		for _, fx := range []string{"true", "false"} {
			for _, cw := range []string{"", "600", "599.6", "0"} {
				for _, wx := range []bool{false, true} {
					a := aBase()
					for i := range a.head {
						if a.head[i][0] == "IsFixedPitch" {
							a.head[i][1] = fx
						}
					}
					if cw != "" {
						a.head = append(a.head, [2]string{"CharWidth", cw + " 5"})
					}
					for i := range a.glyphs {
						a.glyphs[i].w = cw
						if wx && cw == "" {
							a.glyphs[i].w = strconv.Itoa(600)
							if fx == "false" {
								a.glyphs[i].w = strconv.Itoa(600 + i)
							}
						} else if !wx {
							a.glyphs[i].w = ""
						}
					}
					aVerify(t, fmt.Sprintf("fixed pitch %s, CharWidth %q, WX %v", fx, cw, wx), a)
				}
			}
		}
	})

	// fields of a glyph in every order, each optional
	e.Case("field order", func(t *core.T) {
		for _, p := range perms(4) {
			for mask := 0; mask < 8; mask++ {
				a := aBase()
				a.order = p
				if mask&1 == 0 {
					a.kp, a.wy = "77", "-250"
				}
				for i := range a.glyphs {
					if mask&1 != 0 {
						a.glyphs[i].w = ""
					}
					if mask&2 != 0 {
						a.glyphs[i].box = nil
					}
					if mask&4 != 0 {
						a.glyphs[i].ligs = nil
					}
				}
				aVerify(t, fmt.Sprintf("fields %v without %b", p, mask), a)
			}
		}
	})

	// glyph lists: every order of four names out of a few, kerning pairs and ligatures over all of them
	pool := []string{"space", "A", "f", "i", "fi", "a9", ".notdef", "Euro", "uni1234"}
	names := make([]string, 0, len(aRunes))
	for n := range aRunes {
		names = append(names, n)
	}
	sort.Strings(names)
	for first := range pool {
		e.Case("glyph lists/"+pool[first], func(t *core.T) {
			depth := 3
			if e.Thorough {
				depth = 4
			}
			var rec func(l []int)
			rec = func(l []int) {
				n := len(l)
				for m := 0; m < 4; m++ {
					a := aBase()
					a.glyphs, a.kern = nil, nil
					for k, i := range l {
						g := aGlyph{code: fmt.Sprintf("C %d", k-1), w: strconv.Itoa(100 * k), name: pool[i], box: []string{strconv.Itoa(k), strconv.Itoa(-k), strconv.Itoa(100 + k), strconv.Itoa(7 * k)}}
						for j, o := range l {
							if m&1 != 0 {
								g.ligs = append(g.ligs, [2]string{pool[o], pool[l[(k+j)%n]]})
							}
							if m&2 != 0 && (k+j)%2 == 0 {
								a.kern = append(a.kern, [3]string{pool[i], pool[o], strconv.Itoa(10*k - 7*j - 1)})
							}
						}
						a.glyphs = append(a.glyphs, g)
					}
					var nm []string
					for _, i := range l {
						nm = append(nm, pool[i])
					}
					aVerify(t, fmt.Sprintf("glyphs %v, pairs %d", nm, m), a)
				}
				if n == depth {
					return
				}
				for i := range pool {
					dup := false
					for _, j := range l {
						dup = dup || i == j
					}
					if !dup {
						rec(append(l[:len(l):len(l)], i))
					}
				}
			}
			rec([]int{first})
		})
	}
	// every order of the pairs of three glyphs, up to a number of them, and the same for the ligatures of one glyph
	for first := 0; first < 9; first++ {
		e.Case(fmt.Sprintf("pairs/%d", first), func(t *core.T) {
			depth := 4
			if e.Thorough {
				depth = 5
			}
			gl := []string{"f", "i", "fi"}
			var rec func(l []int)
			rec = func(l []int) {
				a := aBase()
				a.kern = nil
				for i := range a.glyphs {
					a.glyphs[i].ligs = nil
				}
				for k, p := range l {
					a.kern = append(a.kern, [3]string{gl[p/3], gl[p%3], strconv.Itoa(100*k + 7*p - 50)})
					if len(l) < 4 {
						for i := range a.glyphs {
							if a.glyphs[i].name == gl[p/3] {
								a.glyphs[i].ligs = append(a.glyphs[i].ligs, [2]string{gl[p%3], gl[k%3]})
							}
						}
					}
				}
				aVerify(t, fmt.Sprintf("pairs %v", l), a)
				// the same with the glyphs of the pairs first
				b := *a
				b.glyphs = append(append(append([]aGlyph{}, a.glyphs[1:3]...), a.glyphs[4], a.glyphs[0], a.glyphs[3]), a.glyphs[5:]...)
				aVerify(t, fmt.Sprintf("pairs %v of the first glyphs", l), &b)
				if len(l) == depth {
					return
				}
				for p := 0; p < 9; p++ {
					dup := false
					for _, q := range l {
						dup = dup || p == q
					}
					if !dup {
						rec(append(l[:len(l):len(l)], p))
					}
				}
			}
			rec([]int{first})
		})
	}
	e.Case("glyph lists/empty", func(t *core.T) {
		a := aBase()
		a.glyphs, a.kern = nil, nil
		aVerify(t, "no glyphs", a)
		a.noKern = true
		aVerify(t, "no glyphs and no kerning", a)
	})
	e.Case("glyph lists/all known names", func(t *core.T) {
		for shift := 0; shift < len(names); shift++ {
			a := aBase()
			a.glyphs, a.kern = nil, nil
			for i := range names {
				a.glyphs = append(a.glyphs, aGlyph{code: "C -1", w: strconv.Itoa(i), name: names[(i+shift)%len(names)]})
			}
			aVerify(t, fmt.Sprintf("all names rotated by %d", shift), a)
		}
	})

	// damaged files
	e.Case("damage/truncation", func(t *core.T) {
		l := aBase().lines()
		for n := 0; n < len(l); n++ {
			aBad(t, "truncated file is accepted", fmt.Sprintf("first %d lines", n), l[:n], n%2 == 0)
		}
		whole := strings.Join(l, "\n")
		for n := 0; n < len(whole); n++ {
			aBad(t, "truncated file is accepted", fmt.Sprintf("first %d bytes", n), strings.Split(whole[:n], "\n"), false)
		}
	})
	e.Case("damage/lines", func(t *core.T) {
		l := aBase().lines()
		for i, s := range l {
			key := strings.Fields(s)[0]
			if strings.HasPrefix(key, "Start") || strings.HasPrefix(key, "End") || key == "C" || key == "CH" || key == "KPX" {
				if key == "StartKernData" || key == "EndKernData" {
					continue // what follows may be taken for unknown keywords
				}
				if key == "StartFontMetrics" || key == "EndFontMetrics" || key == "C" || key == "CH" || key == "KPX" || key == "EndCharMetrics" || key == "EndKernPairs" {
					c := append(append([]string{}, l[:i]...), l[i+1:]...)
					aBad(t, "missing line is accepted", fmt.Sprintf("without line %d %q", i, s), c, true)
				}
				if key == "C" || key == "CH" || key == "KPX" {
					c := append(append(append([]string{}, l[:i]...), s), l[i:]...)
					aBad(t, "surplus line is accepted", fmt.Sprintf("line %d %q twice", i, s), c, true)
				}
			}
		}
	})
	e.Case("damage/counts", func(t *core.T) {
		l := aBase().lines()
		for i, s := range l {
			f := strings.Fields(s)
			if f[0] == "StartCharMetrics" || f[0] == "StartKernPairs" {
				n, _ := strconv.Atoi(f[1])
				for _, v := range []string{strconv.Itoa(n - 1), strconv.Itoa(n + 1), "0", "-1", "-5", "x", "", "99999", "65536", "9999999999", "9223372036854775807", "99999999999999999999", "1.5"} {
					c := append([]string{}, l...)
					c[i] = f[0] + " " + v
					aBad(t, "wrong count is accepted", fmt.Sprintf("%s %s instead of %d", f[0], v, n), c, true)
				}
			}
		}
	})
	e.Case("damage/numbers", func(t *core.T) {
		l := aBase().lines()
		skip := map[string]bool{"Version": true, "StdHW": true, "StdVW": true, "StartFontMetrics": true, "Notice": true, "StartCharMetrics": true, "StartKernPairs": true, "Comment": true}
		for i, s := range l {
			f := strings.Fields(s)
			if skip[f[0]] {
				continue
			}
			for k := 1; k < len(f); k++ {
				if _, err := strconv.ParseFloat(f[k], 64); err != nil {
					continue
				}
				for _, v := range []string{"abc", "", "-", ".", "1x", "--1", "1.2.3", "x1", "1-", "<12>", "NaN", "Inf", "+-1"} {
					if v == "" && f[0] == "C" && k == 1 {
						continue
					}
					c := append([]string{}, l...)
					g := append([]string{}, f...)
					g[k] = v
					c[i] = strings.Join(g, " ")
					aBad(t, "damaged number is accepted", fmt.Sprintf("line %d %q instead of %q", i, c[i], s), c, true)
				}
			}
		}
		for _, v := range []string{"CH <>", "CH <xy>", "CH 69", "CH <69", "CH 69>", "CH", "C", "D 3", "C x"} {
			a := aBase()
			a.glyphs[2].code = v
			aBad(t, "damaged character code is accepted", v, a.lines(), true)
		}
	})
	e.Case("damage/names", func(t *core.T) {
		for i := range aBase().kern {
			for k := 0; k < 2; k++ {
				a := aBase()
				a.kern[i][k] = "nosuch"
				aBad(t, "unknown name is accepted", fmt.Sprintf("kerning pair %v", a.kern[i]), a.lines(), true)
			}
		}
		for k := 0; k < 2; k++ {
			a := aBase()
			a.glyphs[1].ligs[0][k] = "nosuch"
			aBad(t, "unknown name is accepted", fmt.Sprintf("ligature %v", a.glyphs[1].ligs[0]), a.lines(), true)
		}
		for i := range aBase().glyphs {
			l := aBase().lines()
			for j, s := range l {
				if strings.Contains(s, "; N "+aBase().glyphs[i].name+" ;") {
					l[j] = strings.Replace(s, "N "+aBase().glyphs[i].name+" ;", "", 1)
				}
			}
			aBad(t, "glyph without name is accepted", fmt.Sprintf("glyph %d", i), l, true)
		}
		for _, b := range []string{"", "\n", "StartFontMetric 4.1\nEndFontMetrics", "x", "StartFontMetrics 4.1", "StartFontMetrics 4.1\nStartCharMetrics 1", "StartFontMetrics 4.1\nStartCharMetrics 1\n", "StartFontMetrics 4.1\nStartCharMetrics 1\n\n", "StartFontMetrics 4.1\nStartKernData", "StartFontMetrics 4.1\nStartKernData\nStartKernPairs 3", "StartFontMetrics 4.1\nStartKernData\nStartTrackKern 3\nEndKernData\nEndFontMetrics"} {
			aBad(t, "truncated file is accepted", fmt.Sprintf("%q", b), strings.Split(b, "\n"), false)
		}
	})

	// shipped files
	files, _ := filepath.Glob(repoDir() + "/resources/pdfcorefonts/*.afm")
	sort.Strings(files)
	for _, p := range files {
		e.Case("shipped/"+filepath.Base(p), func(t *core.T) {
			b, err := os.ReadFile(p)
			if err != nil {
				t.Fail("read", "%v", err)
				return
			}
			a := &aFile{}
			in := 0
			for _, line := range strings.Split(strings.ReplaceAll(string(b), "\r", ""), "\n") {
				f := strings.Fields(line)
				if len(f) == 0 {
					continue
				}
				switch {
				case f[0] == "StartCharMetrics":
					in = 1
				case f[0] == "EndCharMetrics":
					in = 0
				case in == 1:
					g := aGlyph{}
					for k, part := range strings.Split(line, ";") {
						x := strings.Fields(part)
						if k == 0 {
							g.code = strings.Join(x, " ")
						} else if len(x) > 0 {
							switch x[0] {
							case "WX":
								g.w = x[1]
							case "N":
								g.name = x[1]
							case "B":
								g.box = x[1:]
							case "L":
								g.ligs = append(g.ligs, [2]string{x[1], x[2]})
							}
						}
					}
					a.glyphs = append(a.glyphs, g)
				case f[0] == "KPX":
					a.kern = append(a.kern, [3]string{f[1], f[2], f[3]})
				case len(f) > 1:
					a.head = append(a.head, [2]string{f[0], strings.Join(f[1:], " ")})
				}
			}
			// the file itself, and written again in our own layout
			f, err := font.ParseAFM(b)
			if err != nil {
				t.Fail("shipped file is an error", "%s: %v", p, err)
				return
			}
			g, err := font.ParseAFM(a.bytes())
			if err != nil {
				t.Fail("valid file is an error", "%s: %v", p, err)
				return
			}
			if fmt.Sprintf("%+v", *f) != fmt.Sprintf("%+v", *g) {
				t.Fail("layout matters", "%s: parsing the file and the same content in another layout differ", p)
			}
			aVerify(t, p, a)
		})
	}
	e.Wait()
}
