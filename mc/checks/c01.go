package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C01", Run: c01, CaseLimit: 10 * time.Minute,
		Rule: "for every explored font and every explored way of packaging it (bare, collection member, WOFF, WOFF2, EOT), the package is recognised by its bytes, decodes to a well-formed font file with the same tables (byte for byte when stored verbatim, the same glyphs and metrics when transformed), " +
			"and the parsed font answers every query as the bare font does; an index selects that member and any other index is an error",
		Assumptions: []string{"the bare font is the yardstick for the queries, their meaning is the subject of the other properties",
			"outlines whose point differences exceed 16 bits, EOT compression and WOFF2 collections are outside the explored space"}})
}

// pkgSrc is a font to package.
type pkgSrc struct {
	desc    string
	version string
	tables  map[string][]byte
	rf      *ref.RFont
	opt     sut.Opt
	view    *sut.View
}

// newPkg reads the bare font; view tells whether the queries are compared.
func newPkg(t *core.T, desc, version string, tables map[string][]byte, runes []rune) *pkgSrc {
	s := &pkgSrc{desc: desc, version: version, tables: map[string][]byte{}, opt: sut.Opt{Runes: runes, Names: []string{".notdef", "A", "own", "nothing"}}}
	for k, v := range tables {
		s.tables[k] = v
	}
	h := clone(s.tables["head"])
	h[16] |= 8 // as the WOFF2 specification demands
	s.tables["head"] = h
	var err error
	if s.rf, err = ref.ReadTables(version, s.tables); err != nil {
		panic(desc + ": " + err.Error())
	}
	f, err := font.ParseSFNT(ref.BuildSFNT(version, s.tables), 0)
	if err != nil {
		t.Fail("bare font does not parse", "%s: %v", desc, err)
		return nil
	}
	s.view = sut.Observe(f, s.opt)
	return s
}

func mediaOf(t *core.T, desc string, b []byte, media, ext string) {
	if m, err := font.MediaType(b); err != nil || m != media {
		t.Fail("media type", "%s: %q, %v instead of %q", desc, m, err, media)
	}
	if x := font.Extension(b); x != ext {
		t.Fail("extension", "%s: %q instead of %q", desc, x, ext)
	}
}

// sameTables compares table sets; those in transformed are skipped.
func sameTables(got, want map[string][]byte, transformed string) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("table %q is missing", k)
		}
		if strings.Contains(transformed, k) {
			continue
		}
		w := want[k]
		if k == "head" {
			g, w = clone(g), clone(w)
			if len(g) >= 12 && len(w) >= 12 {
				copy(g[8:12], w[8:12])
			}
		}
		if !bytes.Equal(g, w) {
			return fmt.Sprintf("table %q differs: %s instead of %s", k, clip(g), clip(w))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("table %q is extra", k)
		}
	}
	return ""
}

func sortedKeys(m map[string][]byte) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// sameOutlines compares the strictly decoded glyphs and metrics.
func sameOutlines(a, b *ref.RFont) string {
	if a.N != b.N {
		return fmt.Sprintf("%d glyphs instead of %d", b.N, a.N)
	}
	for i := range a.Glyphs {
		x, y := a.Glyphs[i], b.Glyphs[i]
		if len(x.Contours) != len(y.Contours) || len(x.Comps) != len(y.Comps) {
			return fmt.Sprintf("glyph %d has %d contours and %d components instead of %d and %d", i, len(y.Contours), len(y.Comps), len(x.Contours), len(x.Comps))
		}
		for k := range x.Contours {
			if len(x.Contours[k]) != len(y.Contours[k]) {
				return fmt.Sprintf("glyph %d contour %d has %d points instead of %d", i, k, len(y.Contours[k]), len(x.Contours[k]))
			}
			for j := range x.Contours[k] {
				if x.Contours[k][j] != y.Contours[k][j] {
					return fmt.Sprintf("glyph %d contour %d point %d is %v instead of %v", i, k, j, y.Contours[k][j], x.Contours[k][j])
				}
			}
		}
		for k := range x.Comps {
			if x.Comps[k] != y.Comps[k] {
				return fmt.Sprintf("glyph %d component %d is %v instead of %v", i, k, y.Comps[k], x.Comps[k])
			}
		}
		if len(x.Data) > 0 && x.BBox != y.BBox && !(len(x.Contours) == 0 && len(x.Comps) == 0) {
			return fmt.Sprintf("glyph %d has bounds %v instead of %v", i, y.BBox, x.BBox)
		}
		if !bytes.Equal(x.Instr, y.Instr) || len(x.Comps) > 0 && x.HasInstr != y.HasInstr {
			return fmt.Sprintf("glyph %d has instructions %x (%v) instead of %x (%v)", i, y.Instr, y.HasInstr, x.Instr, x.HasInstr)
		}
		if x.Overlap != y.Overlap {
			return fmt.Sprintf("glyph %d has overlap flag %v", i, y.Overlap)
		}
	}
	for i := range a.Adv {
		if a.Adv[i] != b.Adv[i] || a.LSB[i] != b.LSB[i] {
			return fmt.Sprintf("glyph %d has metrics %d %d instead of %d %d", i, b.Adv[i], b.LSB[i], a.Adv[i], a.LSB[i])
		}
	}
	return ""
}

// check decodes a package. transformed names the tables that may be encoded otherwise.
func (s *pkgSrc) check(t *core.T, desc string, b []byte, media, ext, transformed string) {
	desc = s.desc + ", " + desc
	t.Trans(1)
	t.Trace()
	t.StateB(b)
	mediaOf(t, desc, b, media, ext)
	sf, err := font.ToSFNT(clone(b))
	if err != nil {
		t.Fail(ext+" does not decode", "%s: %v", desc, err)
		return
	}
	_, tables, err := ref.ReadDir(sf)
	if err != nil {
		t.Fail(ext+" decoded file is malformed", "%s: %v", desc, err)
		return
	}
	if string(sf[:4]) != s.version {
		t.Fail(ext+" version", "%s: %q instead of %q", desc, sf[:4], s.version)
	}
	if d := sameTables(tables, s.tables, transformed); d != "" {
		t.Fail(ext+" table", "%s: %s", desc, d)
		return
	}
	if transformed != "" {
		rf, err := ref.ReadTables(s.version, tables)
		if err != nil {
			t.Fail(ext+" decoded tables are malformed", "%s: %v", desc, err)
			return
		}
		if d := sameOutlines(s.rf, rf); d != "" {
			t.Fail(ext+" outlines", "%s: %s", desc, d)
			return
		}
	}
	rd, err := font.NewSFNTReader(bytes.NewReader(b))
	if err != nil {
		t.Fail(ext+" reader", "%s: %v", desc, err)
	} else if all, err := io.ReadAll(rd); err != nil || !bytes.Equal(all, sf) {
		t.Fail(ext+" reader", "%s: the reader gives other bytes", desc)
	}
	s.parsed(t, desc, ext, b, 0, transformed)
	if _, err := font.ParseSFNT(clone(b), 1); err == nil {
		t.Fail(ext+" index", "%s: index 1 is accepted", desc)
	}
	if _, err := font.ParseSFNT(clone(b), -1); err == nil {
		t.Fail(ext+" index", "%s: index -1 is accepted", desc)
	}
}

// parsed parses a package and compares with the bare font.
func (s *pkgSrc) parsed(t *core.T, desc, ext string, b []byte, index int, transformed string) {
	f, err := font.ParseSFNT(clone(b), index)
	if err != nil {
		t.Fail(ext+" does not parse", "%s: %v", desc, err)
		return
	}
	if d := sameTables(f.Tables, s.tables, transformed); d != "" {
		t.Fail(ext+" table", "%s: parsed: %s", desc, d)
		return
	}
	if c, d := sut.Diff(s.view, sut.Observe(f, s.opt)); c != "" {
		t.Fail(ext+" "+c, "%s: bare and packaged: %s", desc, d)
	}
}

func (s *pkgSrc) woff2(t *core.T, desc string, o ref.W2Opts) {
	tr := ""
	if o.GlyfTransform {
		tr = "glyf loca"
	}
	if o.Hmtx != 0 {
		tr += " hmtx"
	}
	s.check(t, "WOFF2 "+desc, ref.BuildWOFF2(s.version, s.tables, o), "font/woff2", ".woff2", tr)
}

func (s *pkgSrc) woff(t *core.T, desc string, o ref.WOFFOpts) {
	s.check(t, "WOFF "+desc, ref.BuildWOFF(s.version, s.tables, o), "font/woff", ".woff", "")
}

var c01runes = []rune{0, 'A', 'B', 'C', 'D', 'x', 0x141, 0x10400, 0x10FFFF}

// xmin makes the side bearings equal to the left bounds for the glyphs for which pick holds.
func xmin(f *ref.Font, pick func(i int) bool) {
	for i := range f.Glyphs {
		x := int16(0)
		if d := f.GlyphData(i); len(d) > 0 {
			x = int16(uint16(d[2])<<8 | uint16(d[3]))
		}
		if pick(i) {
			f.LSB[i] = x
		} else {
			f.LSB[i] = x + 7
		}
	}
}

// deltas at which the point encodings change
var w2deltas = []int{0, 1, 2, 15, 16, 17, 32, 33, 48, 49, 63, 64, 65, 66, 127, 128, 255, 256, 257, 258, 511, 512, 513, 514, 767, 768, 769, 770, 1023, 1024, 1279, 1280, 1281, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 16384, 32766, 32767, 32768}

// deltaGlyphs has a glyph for every pair of point differences.
func deltaGlyphs(dx, dy []int) []ref.Glyph {
	gs := []ref.Glyph{{}}
	in := func(v int) bool { return v >= -32768 && v <= 32767 }
	k := 0
	for _, x := range dx {
		for _, sx := range []int{1, -1} {
			for _, y := range dy {
				for _, sy := range []int{1, -1} {
					x, y := x*sx, y*sy
					if !in(x) || !in(y) {
						continue
					}
					// as the first point and as a later one, on and off the curve
					on := k%2 == 0
					k++
					p := []ref.Point{{X: int16(x), Y: int16(y), On: on}}
					bx, by := 0, 0
					if x < 0 && x > -32768 {
						bx = -x
					}
					if y < 0 && y > -32768 {
						by = -y
					}
					q := []ref.Point{{X: 0, Y: 0, On: true}, {X: int16(x), Y: int16(y), On: !on}}
					g := ref.Glyph{Contours: [][]ref.Point{p}}
					if x != -32768 && y != -32768 {
						// back by the opposite difference
						g.Contours = append(g.Contours, []ref.Point{{X: int16(bx), Y: int16(by), On: true}, {X: int16(bx + x), Y: int16(by + y), On: on}, {X: int16(bx), Y: int16(by), On: !on}})
						if in(bx-x) && in(by-y) {
							gs = append(gs, g)
							continue
						}
					}
					gs = append(gs, ref.Glyph{Contours: [][]ref.Point{q}})
				}
			}
		}
	}
	return gs
}

var w2kinds = []string{"empty", "simple", "boxed", "overlap", "instructions", "composite", "composite instructions", "two contours"}

// kindGlyph is the i-th glyph of a font with n glyphs.
func kindGlyph(kind string, i, n int) ref.Glyph {
	base := sq(int16(3*i-2), int16(7*i), int16(50+i))
	switch kind {
	case "empty":
		return ref.Glyph{}
	case "simple":
		return ref.Glyph{Contours: [][]ref.Point{base}}
	case "boxed":
		return ref.Glyph{Contours: [][]ref.Point{base}, BBox: &[4]int16{int16(3*i - 2), -300, int16(48 + 4*i), 900}}
	case "overlap":
		return ref.Glyph{Contours: [][]ref.Point{base, sq(1, 2, 30)}, Overlap: true}
	case "instructions":
		return ref.Glyph{Contours: [][]ref.Point{{{X: int16(9 + i), Y: 2, On: false}, {X: 4, Y: 90, On: true}, {X: 80, Y: 30, On: false}}}, Instr: bytes.Repeat([]byte{byte(i + 1)}, 3+i)}
	case "composite":
		return ref.Glyph{Comps: []ref.Component{{GID: uint16((i + 1) % n), Dx: int16(5 + i), Dy: -9}}, BBox: &[4]int16{int16(5 + i), -9, 60, int16(70 + i)}}
	case "composite instructions":
		return ref.Glyph{Comps: []ref.Component{{GID: uint16(n - 1), Dx: 300, Dy: int16(i)}, {GID: 0, Kind: 3, M: [4]int16{0x2000, 1, 2, 0x3000}}}, Instr: bytes.Repeat([]byte{byte(0x80 + i)}, 2+i), HasInstr: true, BBox: &[4]int16{-1, -2, int16(i), 4}}
	case "two contours":
		return ref.Glyph{Contours: [][]ref.Point{base, {{X: -20, Y: int16(i), On: true}, {X: 700, Y: -800, On: true}, {X: 1, Y: 1, On: false}, {X: 1, Y: 1, On: true}}}}
	}
	panic(kind)
}

// kindFonts enumerates the sequences of glyph kinds.
func kindFonts(n int, fn func(name string, idx []int)) {
	idx := make([]int, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			var nm []string
			for _, i := range idx {
				nm = append(nm, w2kinds[i])
			}
			fn(strings.Join(nm, "+"), append([]int{}, idx...))
			return
		}
		for i := range w2kinds {
			idx[k] = i
			rec(k + 1)
		}
	}
	rec(0)
}

func kindFont(idx []int) *ref.Font {
	gs := make([]ref.Glyph, len(idx))
	for i, k := range idx {
		gs[i] = kindGlyph(w2kinds[k], i, len(idx))
	}
	return ttFont(gs)
}

// w2lengths are the lengths at which the 255UInt16 encoding changes.
var w2lengths = []int{0, 1, 2, 251, 252, 253, 254, 255, 256, 257, 504, 505, 506, 507, 508, 509, 510, 511, 512, 760, 761, 762, 763, 764, 765, 766, 1000, 4096, 20000}

func linePoints(n int) []ref.Point {
	p := make([]ref.Point, n)
	for i := range p {
		p[i] = ref.Point{X: int16(i%190*5 - 300), Y: int16(i / 190 * 3), On: i%3 != 1}
	}
	return p
}

func lengthFont() *ref.Font {
	gs := []ref.Glyph{{}}
	for i, n := range w2lengths {
		g := ref.Glyph{Contours: [][]ref.Point{linePoints(max(1, n))}, Instr: bytes.Repeat([]byte{byte(i)}, w2lengths[len(w2lengths)-1-i])}
		if n > 0 && n < 2000 {
			g.Contours = append(g.Contours, linePoints(3), linePoints(n))
		}
		gs = append(gs, g)
		gs = append(gs, ref.Glyph{Comps: []ref.Component{{GID: 1}}, HasInstr: true, Instr: bytes.Repeat([]byte{byte(i)}, n), BBox: &[4]int16{1, 2, 3, 4}})
	}
	f := ttFont(gs)
	f.LongLoca = true
	return f
}

// compFont has composites of every form.
func compFonts(fn func(name string, f *ref.Font)) {
	offs := []int16{0, 1, -1, 127, 128, -128, -129, 32767, -32768}
	extras := []uint16{0, 0x4, 0x200, 0x400, 0x604}
	for kind := 0; kind < 4; kind++ {
		for _, instr := range []int{-1, 0, 1, 300} {
			gs := []ref.Glyph{{}, {Contours: [][]ref.Point{sq(1, 2, 3)}}}
			for _, dx := range offs {
				for _, dy := range offs {
					for _, words := range []bool{false, true} {
						for _, ex := range extras {
							c := ref.Component{GID: 1, Dx: dx, Dy: dy, Words: words, Kind: kind, M: [4]int16{0x2000, -3, 4, 0x4000}, Extra: ex}
							d := ref.Component{GID: 0, Dx: dy, Kind: (kind + 1) % 4, M: [4]int16{0x1000, 9, -9, 0x2000}}
							g := ref.Glyph{BBox: &[4]int16{dx, dy, 5, 6}}
							if instr >= 0 {
								g.HasInstr, g.Instr = true, bytes.Repeat([]byte{0xB0}, instr)
							}
							switch len(gs) % 4 {
							case 0:
								g.Comps = []ref.Component{c}
							case 1:
								g.Comps = []ref.Component{c, d}
							case 2:
								g.Comps = []ref.Component{d, c}
							case 3:
								g.Comps = []ref.Component{d, c, c}
							}
							gs = append(gs, g)
						}
					}
				}
			}
			f := ttFont(gs)
			f.LongLoca = true
			fn(fmt.Sprintf("composites kind %d instructions %d", kind, instr), f)
		}
	}
}

func c01(e *core.Env) {
	thorough := e.Thorough
	w2 := func(o ref.W2Opts) ref.W2Opts { return o }
	_ = w2

	// 1. WOFF2 point differences
	for _, tri := range []int{0, 1, 2} {
		for _, box := range []bool{false, true} {
			d := w2deltas
			chunk(len(d), 8, func(lo, hi int) {
				e.Case(fmt.Sprintf("point differences %d-%d, form %d, boxes %v", d[lo], d[hi-1], tri, box), func(t *core.T) {
					f := ttFont(deltaGlyphs(d[lo:hi], d))
					f.LongLoca = true
					if s := newPkg(t, "point differences", f.VersionTag(), f.Tables(), c01runes); s != nil {
						s.woff2(t, fmt.Sprintf("form %d", tri), ref.W2Opts{GlyfTransform: true, Triplet: tri, BBoxAlways: box, Quality: 1})
						for _, g := range s.rf.Glyphs {
							t.StateB(g.Data)
						}
						t.Trans(len(f.Glyphs))
					}
				})
			})
		}
	}
	// every difference of up to 1300 along the axes and the diagonals
	e.Case("all small differences", func(t *core.T) {
		var gs []ref.Glyph
		step := 1
		if !thorough {
			step = 7
		}
		for v := -1300; v <= 1300; v += step {
			x := int16(v)
			gs = append(gs, ref.Glyph{Contours: [][]ref.Point{{{X: x, Y: 0, On: true}, {X: x, Y: x, On: false}, {X: x, Y: 0, On: false}, {X: 0, Y: x, On: true}, {X: x, Y: -x / 2, On: true}}}})
		}
		f := ttFont(gs)
		f.LongLoca = true
		if s := newPkg(t, "all differences", f.VersionTag(), f.Tables(), c01runes); s != nil {
			for tri := 0; tri < 3; tri++ {
				s.woff2(t, fmt.Sprintf("form %d", tri), ref.W2Opts{GlyfTransform: true, Triplet: tri, Quality: 1})
			}
			t.Trans(3 * len(gs))
		}
	})
	if thorough {
		// every representable difference
		for lo := -32768; lo < 32768; lo += 4096 {
			e.Case(fmt.Sprintf("differences from %d", lo), func(t *core.T) {
				for _, o := range []int16{0, 1, -300, 4000} {
					var gs []ref.Glyph
					for v := lo; v < lo+4096; v++ {
						gs = append(gs, ref.Glyph{Contours: [][]ref.Point{{{X: int16(v), Y: o, On: true}}}}, ref.Glyph{Contours: [][]ref.Point{{{X: o, Y: int16(v), On: false}}}})
					}
					f := ttFont(gs)
					f.LongLoca = true
					if s := newPkg(t, "differences", f.VersionTag(), f.Tables(), c01runes); s != nil {
						s.woff2(t, fmt.Sprintf("other %d", o), ref.W2Opts{GlyfTransform: true, Quality: 1})
						t.Trans(len(gs))
					}
				}
			})
		}
	}

	// 2. lengths of contours and instructions
	for _, u := range []int{0, 1} {
		e.Case(fmt.Sprintf("contour and instruction lengths, form %d", u), func(t *core.T) {
			f := lengthFont()
			if s := newPkg(t, "lengths", f.VersionTag(), f.Tables(), c01runes); s != nil {
				s.woff2(t, fmt.Sprintf("form %d", u), ref.W2Opts{GlyfTransform: true, U255: u, Quality: 1})
				s.woff2(t, fmt.Sprintf("form %d with boxes", u), ref.W2Opts{GlyfTransform: true, U255: u, BBoxAlways: true, OverlapBitmap: true, Quality: 1})
			}
		})
	}

	// 3. all sequences of glyph kinds
	maxKinds := 3
	if thorough {
		maxKinds = 4
	}
	for n := 1; n <= maxKinds; n++ {
		for first := range w2kinds {
			e.Case(fmt.Sprintf("%d glyphs from %s", n, w2kinds[first]), func(t *core.T) {
				kindFonts(n, func(name string, idx []int) {
					if idx[0] != first {
						return
					}
					for _, long := range []bool{false, true} {
						for nm := 1; nm <= n; nm++ {
							f := kindFont(idx)
							f.LongLoca = long
							f.NHM = nm
							for i := nm; i < n; i++ {
								f.Adv[i] = f.Adv[nm-1]
							}
							over := strings.Contains(name, "overlap")
							for hm := 0; hm < 4; hm++ {
								if hm == 0 && nm != 1 || hm != 0 && n > 3 && nm != 2 {
									continue
								}
								xmin(f, func(i int) bool { return hm&1 != 0 && i < nm || hm&2 != 0 && i >= nm })
								s := newPkg(t, fmt.Sprintf("%s long %v metrics %d", name, long, nm), f.VersionTag(), f.Tables(), c01runes[:4])
								if s == nil {
									return
								}
								for box := 0; box < 2; box++ {
									s.woff2(t, fmt.Sprintf("hmtx %d boxes %d", hm, box), ref.W2Opts{GlyfTransform: true, Hmtx: hm, BBoxAlways: box == 1, OverlapBitmap: over || box == 1, Quality: 0})
								}
								if hm == 0 {
									s.woff2(t, "plain glyphs", ref.W2Opts{Quality: 0})
								}
							}
						}
					}
				})
			})
		}
	}

	// 4. numbers of glyphs, around the boundaries of the bitmaps
	counts := []int{1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 96, 100}
	if thorough {
		counts = nil
		for n := 1; n <= 130; n++ {
			counts = append(counts, n)
		}
	}
	for _, n := range counts {
		e.Case(fmt.Sprintf("bitmaps of %d glyphs", n), func(t *core.T) {
			for mode := 0; mode < 6; mode++ {
				for pos := -1; pos < n; pos++ {
					if pos >= 0 && mode >= 3 && !(thorough && n%8 < 2) && pos != n-1 && pos != n/2 {
						continue
					}
					gs := plain(n)
					for i := range gs {
						special := i == pos || pos == -1
						switch {
						case mode == 0 && special, mode == 3 && !special:
							gs[i].Overlap = true
						case mode == 1 && special, mode == 4 && !special:
							gs[i].BBox = &[4]int16{int16(4 * i), -5, 900, 901}
						case mode == 2 && special, mode == 5 && !special:
							gs[i] = ref.Glyph{Comps: []ref.Component{{GID: uint16(i), Dx: 1}}, BBox: &[4]int16{1, 2, 3, int16(i)}}
						}
					}
					f := ttFont(gs)
					xmin(f, func(int) bool { return true })
					s := newPkg(t, fmt.Sprintf("%d glyphs mode %d at %d", n, mode, pos), f.VersionTag(), f.Tables(), c01runes[:3])
					if s == nil {
						return
					}
					s.woff2(t, "", ref.W2Opts{GlyfTransform: true, Hmtx: 3, OverlapBitmap: mode == 0 || mode == 3, Quality: 0})
				}
			}
		})
	}

	// 5. composites
	compFonts(func(name string, f *ref.Font) {
		e.Case(name, func(t *core.T) {
			if s := newPkg(t, name, f.VersionTag(), f.Tables(), c01runes[:2]); s != nil {
				s.woff2(t, "", ref.W2Opts{GlyfTransform: true, Quality: 1})
				s.woff2(t, "long numbers", ref.W2Opts{GlyfTransform: true, U255: 1, OverlapBitmap: true, Quality: 1})
			}
		})
	})

	// 6. outlines close to the limit of the short location table
	for _, size := range []int{65000, 131000, 131068, 131070} {
		e.Case(fmt.Sprintf("short locations of %d bytes", size), func(t *core.T) {
			f := shortLocaFont(size)
			if s := newPkg(t, fmt.Sprintf("%d bytes", size), f.VersionTag(), f.Tables(), c01runes[:2]); s != nil {
				s.woff2(t, "", ref.W2Opts{GlyfTransform: true, Quality: 1})
				s.woff2(t, "plain", ref.W2Opts{Quality: 1})
			}
		})
	}

	// 7. tables: tags, lengths, orders
	c01tables(e)

	// 8. WOFF
	c01woff(e)

	// 9. EOT
	e.Case("EOT", func(t *core.T) {
		tt := ttFont(plain(3))
		cf := c06full(true)
		for _, f := range []*ref.Font{tt, cf} {
			s := newPkg(t, fmt.Sprintf("CFF %v", f.CFF), f.VersionTag(), f.Tables(), c01runes)
			if s == nil {
				return
			}
			b := ref.BuildSFNT(s.version, s.tables)
			for _, ver := range []uint32{0x00010000, 0x00020001, 0x00020002} {
				for _, xor := range []bool{false, true} {
					for k := 0; k < 81; k++ {
						o := ref.EOTOpts{Version: ver, XOR: xor, Strings: [4]int{k % 3, k / 3 % 3, k / 9 % 3, k / 27}}
						roots := []int{0}
						if ver > 0x10000 {
							roots = []int{0, 1, 20}
						}
						for _, o.Root = range roots {
							sig := []int{0}
							if ver == 0x00020002 {
								sig = []int{0, 5}
							}
							for _, o.Sig = range sig {
								for _, o.EUDC = range sig {
									if k%5 != 0 {
										o.Tail = k % 4
									}
									s.check(t, fmt.Sprintf("EOT %+v", o), ref.BuildEOT(b, o), "application/vnd.ms-fontobject", ".eot", "")
								}
							}
						}
					}
				}
			}
		}
	})

	// 10. bare files
	e.Case("bare", func(t *core.T) {
		for i, r := range wFonts() {
			_, tables, err := ref.ReadDir(r.b)
			if err != nil {
				panic(err)
			}
			version := string(r.b[:4])
			s := newPkg(t, r.name, version, tables, wProbes)
			if s == nil {
				continue
			}
			media, ext := "font/truetype", ".ttf"
			if r.cff {
				media, ext = "font/opentype", ".otf"
			}
			s.check(t, "bare", ref.BuildSFNT(version, s.tables), media, ext, "")
			if !r.cff {
				c := clone(ref.BuildSFNT("true", s.tables))
				s.version = "true"
				s.check(t, "bare true", c, media, ext, "")
				s.version = version
			}
			for k := 0; k < 4; k++ {
				o := ref.WOFFOpts{Reverse: k&1 != 0, Meta: k&2 != 0, Compress: func(string) bool { return true }}
				s.woff(t, fmt.Sprintf("%d", k), o)
			}
			delete(s.tables, "DSIG") // must not be in a WOFF2 file
			for k := 0; k < 4; k++ {
				hm := 0
				if !r.cff {
					hm = ref.HmtxTransformable(s.rf)
				}
				o := ref.W2Opts{GlyfTransform: !r.cff && k&1 != 0, ArbTags: k&2 != 0, Quality: 3 * k}
				if k&1 != 0 {
					o.Hmtx = hm
				}
				s.woff2(t, fmt.Sprintf("%d", k), o)
			}
			_ = i
		}
	})
	e.Case("unrecognised", func(t *core.T) {
		good := ttFont(plain(2)).SFNT()
		for i := 0; i < 4; i++ {
			for v := 0; v < 256; v++ {
				b := clone(good)
				b[i] = byte(v)
				if v == int(good[i]) {
					continue
				}
				t.Trans(1)
				if m, err := font.MediaType(b); err == nil {
					t.Fail("media type", "signature %x is %s", b[:4], m)
				}
				if x := font.Extension(b); x != "" {
					t.Fail("extension", "signature %x is %s", b[:4], x)
				}
				if _, err := font.ToSFNT(b); err == nil {
					t.Fail("unrecognised", "signature %x decodes", b[:4])
				}
				if _, err := font.ParseSFNT(b, 0); err == nil {
					t.Fail("unrecognised", "signature %x parses", b[:4])
				}
			}
		}
	})

	// 11. collections
	c01ttc(e)

	// 12. real fonts
	for _, name := range []string{"DejaVuSerif.ttf", "EBGaramond12-Regular.otf"} {
		e.Case("real "+name, func(t *core.T) {
			b := resource("resources/" + name)
			tables := rawTables(b)
			delete(tables, "DSIG")
			s := newPkg(t, name, string(b[:4]), tables, []rune{'A', 'b', 0x3b1, 0x2014})
			if s == nil {
				return
			}
			cff := s.rf.CFF
			s.woff(t, "compressed", ref.WOFFOpts{Compress: func(string) bool { return true }, Level: 1})
			for k := 0; k < 2; k++ {
				o := ref.W2Opts{GlyfTransform: !cff && k == 0, Quality: 2}
				if !cff && k == 0 {
					o.Hmtx = ref.HmtxTransformable(s.rf)
					o.OverlapBitmap = true
				}
				s.woff2(t, fmt.Sprintf("%d", k), o)
			}
			s.check(t, "EOT", ref.BuildEOT(ref.BuildSFNT(s.version, s.tables), ref.EOTOpts{Version: 0x00020002, XOR: true}), "application/vnd.ms-fontobject", ".eot", "")
		})
	}
	e.Case("real containers", func(t *core.T) {
		// decoded by the reference
		for _, x := range []string{"eot", "woff", "woff2"} {
			b := resource("resources/DejaVuSerif." + x)
			var version string
			var tables map[string][]byte
			var err error
			media, tr := "font/"+x, ""
			switch x {
			case "eot":
				// the font file is at the end
				n := int(b[4]) | int(b[5])<<8 | int(b[6])<<16 | int(b[7])<<24
				c := b[len(b)-n:]
				version, tables, media = string(c[:4]), rawTables(c), "application/vnd.ms-fontobject"
			case "woff":
				version, tables, err = ref.DecodeWOFF(b)
			case "woff2":
				version, tables, err = ref.DecodeWOFF2(b)
				tr = "glyf loca hmtx"
			}
			if err != nil {
				panic(err)
			}
			if s := newPkg(t, "DejaVuSerif", version, tables, []rune{'A', 'b', 0x3b1, 0x2014}); s != nil {
				s.tables["head"] = tables["head"]
				s.check(t, x, b, media, "."+x, tr)
			}
		}
	})
	e.Wait()
}

// shortLocaFont has a short location table and size bytes of compactly written outlines.
func shortLocaFont(size int) *ref.Font {
	gs := []ref.Glyph{{}}
	f := ttFont(gs)
	left := size
	for left > 0 {
		n := min(left, 4000)
		if left-n > 0 && left-n < 100 {
			n = left - 200
		}
		// all points equal: one flag byte per 256 points and no coordinates, filled up with instructions
		var ct []ref.Point
		for k := 0; k < 300; k++ {
			ct = append(ct, ref.Point{X: 1, Y: 1, On: true})
		}
		g := ref.Glyph{Contours: [][]ref.Point{ct}}
		f.Glyphs = append(f.Glyphs, g)
		k := len(f.Glyphs) - 1
		d := len(f.GlyphData(k))
		f.Glyphs[k].Instr = bytes.Repeat([]byte{1}, n-d)
		left -= n
	}
	n := len(f.Glyphs)
	f.Adv, f.LSB = make([]uint16, n), make([]int16, n)
	return f
}

func c01tables(e *core.Env) {
	thorough := e.Thorough
	// raw compares the decoded tables only
	raw := func(t *core.T, desc, version string, tables map[string][]byte, b []byte) {
		t.Trans(1)
		t.Trace()
		t.StateB(b)
		sf, err := font.ToSFNT(clone(b))
		if err != nil {
			t.Fail("does not decode", "%s: %v", desc, err)
			return
		}
		_, got, err := ref.ReadDir(sf)
		if err != nil {
			t.Fail("decoded file is malformed", "%s: %v", desc, err)
			return
		}
		if d := sameTables(got, tables, ""); d != "" {
			t.Fail("table", "%s: %s", desc, d)
		}
		if string(sf[:4]) != version {
			t.Fail("version", "%s: %q instead of %q", desc, sf[:4], version)
		}
	}
	base := func() map[string][]byte {
		tb := ttFont(plain(2)).Tables()
		tb["head"][16] |= 8
		return tb
	}
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8 + 1)
		}
		return b
	}
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 127, 128, 129, 16383, 16384, 16385}
	if thorough {
		lens = append(lens, 2097150, 2097151, 2097152, 2097153)
	}
	tags := []string{"cvt ", "VORG", "EBDT", "gasp", "GSUB", "Zapf", "Sill", "prep", "abcd", "zzzz", "    ", "A   ", "~~~~"}
	for _, tag := range tags {
		e.Case(fmt.Sprintf("table %q", tag), func(t *core.T) {
			for _, n := range lens {
				tb := base()
				tb[tag] = data(n)
				desc := fmt.Sprintf("%d bytes of %q", n, tag)
				for _, arb := range []bool{false, true} {
					raw(t, desc+" WOFF2", "\x00\x01\x00\x00", tb, ref.BuildWOFF2("\x00\x01\x00\x00", tb, ref.W2Opts{ArbTags: arb, Quality: 1}))
				}
				for k := 0; k < 4; k++ {
					raw(t, desc+" WOFF", "\x00\x01\x00\x00", tb, ref.BuildWOFF("\x00\x01\x00\x00", tb, ref.WOFFOpts{Reverse: k&1 != 0, Compress: func(string) bool { return k&2 != 0 }}))
				}
				s := newPkg(t, desc, "\x00\x01\x00\x00", tb, c01runes[:2])
				if s != nil && n < 1000 {
					s.check(t, "bare", ref.BuildSFNT(s.version, s.tables), "font/truetype", ".ttf", "")
					s.woff2(t, "", ref.W2Opts{GlyfTransform: true, Quality: 1})
					s.woff(t, "", ref.WOFFOpts{})
				}
			}
		})
	}
	// every known tag by its number and by its name
	e.Case("known tags", func(t *core.T) {
		for _, tag := range ref.KnownTags() {
			if tag == "head" || tag == "glyf" || tag == "loca" || tag == "hmtx" || tag == "maxp" || tag == "hhea" || tag == "CFF " || tag == "CFF2" || tag == "vhea" || tag == "vmtx" || tag == "OS/2" || tag == "post" || tag == "name" || tag == "cmap" || tag == "kern" {
				continue
			}
			for n := 0; n < 6; n++ {
				tb := base()
				tb[tag] = data(n)
				for _, arb := range []bool{false, true} {
					raw(t, fmt.Sprintf("%q %d bytes by name %v", tag, n, arb), "\x00\x01\x00\x00", tb, ref.BuildWOFF2("\x00\x01\x00\x00", tb, ref.W2Opts{ArbTags: arb, Quality: 0}))
				}
			}
		}
	})
	// two tables of every pair of small lengths, every order
	e.Case("table lengths and orders", func(t *core.T) {
		max := 5
		if thorough {
			max = 9
		}
		for a := 0; a < max; a++ {
			for b := 0; b < max; b++ {
				for c := 0; c < max; c++ {
					tb := base()
					tb["aaaa"], tb["head+"[:4]], tb["zzzz"] = data(a), tb["head"], data(c)
					tb["gasp"] = data(b)
					for k := 0; k < 4; k++ {
						raw(t, fmt.Sprintf("lengths %d %d %d WOFF %d", a, b, c, k), "\x00\x01\x00\x00", tb, ref.BuildWOFF("\x00\x01\x00\x00", tb, ref.WOFFOpts{Reverse: k&1 != 0, Compress: func(string) bool { return k&2 != 0 }}))
					}
					raw(t, fmt.Sprintf("lengths %d %d %d WOFF2", a, b, c), "\x00\x01\x00\x00", tb, ref.BuildWOFF2("\x00\x01\x00\x00", tb, ref.W2Opts{Quality: 0}))
				}
			}
		}
	})
	e.Case("WOFF2 table orders", func(t *core.T) {
		tb := base()
		delete(tb, "OS/2")
		var rest []string
		for _, k := range sortedKeys(tb) {
			if k != "glyf" && k != "loca" && k != "head" && k != "hmtx" && k != "maxp" && k != "hhea" {
				rest = append(rest, k)
			}
		}
		core := []string{"glyf", "loca", "head", "hmtx", "maxp", "hhea"}
		for _, p := range perms(6) {
			var order []string
			for i, k := range p {
				if i < len(rest) {
					order = append(order, rest[i])
				}
				order = append(order, core[k])
			}
			ig, il := -1, -1
			for i, k := range order {
				if k == "glyf" {
					ig = i
				} else if k == "loca" {
					il = i
				}
			}
			if il < ig {
				continue
			}
			s := newPkg(t, fmt.Sprintf("order %v", order), "\x00\x01\x00\x00", tb, c01runes[:2])
			if s == nil {
				return
			}
			s.woff2(t, "plain", ref.W2Opts{Order: order, Quality: 0})
			s.woff2(t, "transformed", ref.W2Opts{Order: order, GlyfTransform: true, Hmtx: ref.HmtxTransformable(s.rf), Quality: 0})
		}
	})
	// numbers of tables
	e.Case("numbers of tables", func(t *core.T) {
		n := 40
		if thorough {
			n = 300
		}
		tb := base()
		for i := 0; i < n; i++ {
			tb[fmt.Sprintf("%c%c%c%c", 'a'+i%26, 'A'+i/26%26, '0'+i%10, 'x')] = data(i % 13)
			desc := fmt.Sprintf("%d tables", len(tb))
			raw(t, desc+" WOFF", "\x00\x01\x00\x00", tb, ref.BuildWOFF("\x00\x01\x00\x00", tb, ref.WOFFOpts{}))
			raw(t, desc+" WOFF2", "\x00\x01\x00\x00", tb, ref.BuildWOFF2("\x00\x01\x00\x00", tb, ref.W2Opts{Quality: 0}))
			f, err := font.ParseSFNT(ref.BuildSFNT("\x00\x01\x00\x00", tb), 0)
			if err != nil {
				t.Fail("does not parse", "%s: %v", desc, err)
			} else if d := sameTables(f.Tables, tb, ""); d != "" {
				t.Fail("table", "%s: %s", desc, d)
			}
		}
	})
}

func c01woff(e *core.Env) {
	for _, cff := range []bool{false, true} {
		f := ttFont(plain(20))
		if cff {
			f = c06full(true)
		}
		tb := f.Tables()
		tags := sortedKeys(tb)
		n := len(tags)
		total := 1 << n
		step := 1
		if !e.Thorough {
			step = 5
		}
		chunk(total, 1<<10, func(lo, hi int) {
			e.Case(fmt.Sprintf("WOFF compression choices CFF %v %d", cff, lo), func(t *core.T) {
				s := newPkg(t, fmt.Sprintf("CFF %v", cff), f.VersionTag(), tb, c01runes)
				if s == nil {
					return
				}
				for m := lo; m < hi; m += step {
					set := map[string]bool{}
					for i, k := range tags {
						set[k] = m>>i&1 == 1
					}
					s.woff(t, fmt.Sprintf("compress %x", m), ref.WOFFOpts{Compress: func(k string) bool { return set[k] }, Level: []int{1, 6, 9}[m%3], Reverse: m&4 != 0, Meta: m&8 != 0})
				}
			})
		})
	}
}

func c01ttc(e *core.Env) {
	fonts := []*ref.Font{ttFont(plain(3)), c06full(true), ttFont(plain(5)), c06full(false)}
	fonts[2].OS2 = &ref.OS2{Version: 4, Weight: 400, TypoAsc: 600, TypoDesc: -100, WinAsc: 800, WinDesc: 300}
	for n := 1; n <= len(fonts); n++ {
		e.Case(fmt.Sprintf("collection of %d", n), func(t *core.T) {
			// every choice of members in every order of the directories
			var sel func(pick []int)
			sel = func(pick []int) {
				if len(pick) < n {
					for k := range fonts {
						dup := false
						for _, p := range pick {
							dup = dup || p == k && !t.E.Thorough
						}
						if !dup {
							sel(append(append([]int{}, pick...), k))
						}
					}
					return
				}
				var ms []ref.Member
				var src []*pkgSrc
				for _, k := range pick {
					s := newPkg(t, fmt.Sprintf("members %v, font %d", pick, k), fonts[k].VersionTag(), fonts[k].Tables(), c01runes)
					if s == nil {
						return
					}
					src = append(src, s)
					ms = append(ms, ref.Member{Version: s.version, Tables: s.tables})
				}
				for _, order := range perms(n) {
					for _, share := range []bool{false, true} {
						for ver := 1; ver <= 2; ver++ {
							for _, tail := range []bool{false, true} {
								b := ref.BuildTTC(ms, order, share, ver)
								if tail {
									b = ref.BuildTTCTail(ms, order, share, ver)
								}
								desc := fmt.Sprintf("collection order %v share %v version %d directories last %v", order, share, ver, tail)
								mediaOf(t, desc, b, "font/truetype", ".ttf")
								t.StateB(b)
								for i, s := range src {
									t.Trans(1)
									t.Trace()
									s.parsed(t, fmt.Sprintf("%s: %s, member %d", s.desc, desc, i), "ttc", b, i, "")
								}
								for _, i := range []int{-1, n, n + 1, 1 << 20, 1<<31 - 1, -1 << 31, 1 << 32, 1<<62 + 1} {
									if _, err := font.ParseSFNT(clone(b), i); err == nil {
										t.Fail("index", "%s: member %d of %d is accepted", desc, i, n)
									}
								}
							}
						}
					}
				}
			}
			sel(nil)
		})
	}
}

// clip prints the start of long data.
func clip(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}
