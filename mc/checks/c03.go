package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{ID: "C03", Run: c03, CaseLimit: 10 * time.Minute,
		Rule: "for every explored font, the WOFF2 file written for it is accepted by a strict independent decoder of the specification and by the library, and both give the written font: same points, on-curve and overlap flags, contours, bounds, instructions, components, advances, bearings and every other table byte for byte (without DSIG, with flag bit 11 set), " +
			"and the library's parse of it answers every query as the font written",
		Assumptions: []string{"fonts whose tables the library does not need to parse", "glyphs with a header but no contours are equal to empty glyphs, up to their bounds", "outlines whose point differences exceed 16 bits are outside the explored space"}})
}

// w2write writes a font and compares what decoders make of it.
func w2write(t *core.T, desc string, f *font.SFNT, o sut.Opt) bool {
	t.Trans(1)
	t.Trace()
	want := map[string][]byte{}
	for k, v := range f.Tables {
		if k != "DSIG" {
			want[k] = clone(v)
		}
	}
	if h, ok := want["head"]; ok {
		h[16] |= 8
	}
	_, hasGlyf := want["glyf"]
	b, err := f.WriteWOFF2()
	if err != nil {
		t.Fail("write", "%s: %v", desc, err)
		return false
	}
	t.StateB(b)
	for k, v := range f.Tables {
		if k == "DSIG" {
			continue
		}
		w := clone(want[k])
		if k == "head" {
			w[16] = v[16]
		}
		if !bytes.Equal(v, w) {
			t.Fail("written font changed", "%s: table %q", desc, k)
			return false
		}
	}
	tr := ""
	if hasGlyf {
		tr = "glyf loca hmtx"
	}
	version, tables, err := ref.DecodeWOFF2(b)
	if err != nil {
		t.Fail("file is malformed", "%s: %v", desc, err)
		return false
	}
	if version != f.Version {
		t.Fail("version", "%s: %q instead of %q", desc, version, f.Version)
	}
	if d := sameTables(tables, want, tr); d != "" {
		t.Fail("table", "%s: reference decoder: %s", desc, d)
		return false
	}
	rf, err := ref.ReadTables(version, want)
	if err != nil {
		panic(desc + ": " + err.Error())
	}
	rg, err := ref.ReadTables(version, tables)
	if err != nil {
		t.Fail("decoded tables are malformed", "%s: reference decoder: %v", desc, err)
		return false
	}
	if d := sameOutlines(rf, rg); d != "" {
		t.Fail("outlines", "%s: reference decoder: %s", desc, d)
		return false
	}
	s, err := font.ParseWOFF2(clone(b))
	if err != nil {
		t.Fail("does not decode", "%s: %v", desc, err)
		return false
	}
	_, tables, err = ref.ReadDir(s)
	if err != nil {
		t.Fail("decoded file is malformed", "%s: %v", desc, err)
		return false
	}
	if d := sameTables(tables, want, tr); d != "" {
		t.Fail("table", "%s: library decoder: %s", desc, d)
		return false
	}
	if rg, err = ref.ReadTables(version, tables); err != nil {
		t.Fail("decoded tables are malformed", "%s: library decoder: %v", desc, err)
		return false
	}
	if d := sameOutlines(rf, rg); d != "" {
		t.Fail("outlines", "%s: library decoder: %s", desc, d)
		return false
	}
	g, err := font.ParseSFNT(clone(b), 0)
	if err != nil {
		t.Fail("does not parse", "%s: %v", desc, err)
		return false
	}
	if c, d := sut.Diff(sut.Observe(f, o), sut.Observe(g, o)); c != "" {
		t.Fail(c, "%s: %s", desc, d)
		return false
	}
	if c, err := f.WriteWOFF2(); err != nil || !bytes.Equal(b, c) {
		t.Fail("not repeatable", "%s: the second file differs, %v", desc, err)
	}
	// and again from the decoded font
	c, err := g.WriteWOFF2()
	if err != nil {
		t.Fail("write", "%s: second generation: %v", desc, err)
		return false
	}
	_, tables, err = ref.DecodeWOFF2(c)
	if err != nil {
		t.Fail("file is malformed", "%s: second generation: %v", desc, err)
		return false
	}
	if d := sameTables(tables, want, tr); d != "" {
		t.Fail("table", "%s: second generation: %s", desc, d)
		return false
	}
	return true
}

func w2tables(t *core.T, desc, version string, tables map[string][]byte, runes []rune) bool {
	f, err := font.ParseSFNT(ref.BuildSFNT(version, tables), 0)
	if err != nil {
		t.Fail("does not parse bare", "%s: %v", desc, err)
		return false
	}
	return w2write(t, desc, f, sut.Opt{Runes: runes})
}

func w2font(t *core.T, desc string, f *ref.Font) bool {
	return w2tables(t, desc, f.VersionTag(), f.Tables(), c01runes)
}

func c03(e *core.Env) {
	thorough := e.Thorough
	d := w2deltas
	chunk(len(d), 4, func(lo, hi int) {
		e.Case(fmt.Sprintf("point differences %d-%d", d[lo], d[hi-1]), func(t *core.T) {
			f := ttFont(deltaGlyphs(d[lo:hi], d))
			f.LongLoca = true
			w2font(t, "point differences", f)
			t.Trans(len(f.Glyphs))
		})
	})
	e.Case("all small differences", func(t *core.T) {
		var gs []ref.Glyph
		for v := -1300; v <= 1300; v++ {
			x := int16(v)
			gs = append(gs, ref.Glyph{Contours: [][]ref.Point{{{X: x, Y: 0, On: true}, {X: x, Y: x, On: false}, {X: x, Y: 0, On: false}, {X: 0, Y: x, On: true}, {X: x, Y: -x / 2, On: true}}}})
		}
		f := ttFont(gs)
		f.LongLoca = true
		w2font(t, "all differences", f)
		t.Trans(len(gs))
	})
	if thorough {
		for lo := -32768; lo < 32768; lo += 4096 {
			e.Case(fmt.Sprintf("differences from %d", lo), func(t *core.T) {
				for _, o := range []int16{0, 1, -300, 4000} {
					var gs []ref.Glyph
					for v := lo; v < lo+4096; v++ {
						gs = append(gs, ref.Glyph{Contours: [][]ref.Point{{{X: int16(v), Y: o, On: true}}}}, ref.Glyph{Contours: [][]ref.Point{{{X: o, Y: int16(v), On: false}}}})
					}
					f := ttFont(gs)
					f.LongLoca = true
					w2font(t, fmt.Sprintf("differences from %d, other %d", lo, o), f)
					t.Trans(len(gs))
				}
			})
		}
	}

	e.Case("contour and instruction lengths", func(t *core.T) {
		w2font(t, "lengths", lengthFont())
	})
	if thorough {
		for lo := 0; lo < 1600; lo += 100 {
			e.Case(fmt.Sprintf("lengths from %d", lo), func(t *core.T) {
				gs := []ref.Glyph{{}}
				for n := lo; n < lo+100; n++ {
					gs = append(gs, ref.Glyph{Contours: [][]ref.Point{linePoints(max(n, 1))}, Instr: bytes.Repeat([]byte{1}, n)})
					gs = append(gs, ref.Glyph{Comps: []ref.Component{{GID: 1}}, HasInstr: true, Instr: bytes.Repeat([]byte{byte(n)}, n), BBox: &[4]int16{1, 2, 3, 4}})
				}
				f := ttFont(gs)
				f.LongLoca = true
				w2font(t, fmt.Sprintf("lengths from %d", lo), f)
			})
		}
	}

	// all sequences of glyph kinds
	maxKinds := 3
	if thorough {
		maxKinds = 4
	}
	for n := 1; n <= maxKinds; n++ {
		for first := range w2kinds {
			e.Case(fmt.Sprintf("%d glyphs from %s", n, w2kinds[first]), func(t *core.T) {
				kindFonts(n, func(name string, idx []int) {
					if idx[0] != first {
						return
					}
					for _, long := range []bool{false, true} {
						for nm := 1; nm <= n; nm++ {
							f := kindFont(idx)
							f.LongLoca = long
							f.NHM = nm
							for i := nm; i < n; i++ {
								f.Adv[i] = f.Adv[nm-1]
							}
							// which bearings are the left bounds
							for hm := 0; hm < 1<<n; hm++ {
								if n > 3 && (long || nm != 2) {
									continue
								}
								xmin(f, func(i int) bool { return hm>>i&1 != 0 })
								if !w2font(t, fmt.Sprintf("%s long %v metrics %d bearings %b", name, long, nm, hm), f) {
									return
								}
							}
						}
					}
				})
			})
		}
	}

	// which side of the bounds is recorded differently
	e.Case("bounds", func(t *core.T) {
		var gs []ref.Glyph
		for m := 0; m < 81; m++ {
			g := ref.Glyph{Contours: [][]ref.Point{{{X: -20, Y: -30, On: true}, {X: 40, Y: 5, On: true}, {X: 0, Y: 60, On: m%2 == 0}}}}
			bb := [4]int16{-20, -30, 40, 60}
			for k, v := 0, m; k < 4; k, v = k+1, v/3 {
				bb[k] += int16(v%3) - 1
			}
			g.BBox = &bb
			gs = append(gs, g)
		}
		for i := range gs {
			w2font(t, fmt.Sprintf("bounds %d", i), ttFont([]ref.Glyph{gs[i], {}, gs[(i*7+3)%81]}))
		}
		f := ttFont(gs)
		xmin(f, func(int) bool { return true })
		w2font(t, "all bounds", f)
	})

	// bitmaps
	counts := []int{1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 96, 100}
	if thorough {
		counts = nil
		for n := 1; n <= 130; n++ {
			counts = append(counts, n)
		}
	}
	for _, n := range counts {
		e.Case(fmt.Sprintf("bitmaps of %d glyphs", n), func(t *core.T) {
			for mode := 0; mode < 5; mode++ {
				for pos := -1; pos < n; pos++ {
					if !thorough && pos >= 0 && pos != n-1 && pos%8 != 7 && pos%8 != 0 && mode > 0 {
						continue
					}
					gs := plain(n)
					for i := range gs {
						special := i == pos || pos == -1
						switch {
						case mode == 0 && special, mode == 3 && !special:
							gs[i].Overlap = true
						case mode == 1 && special:
							gs[i].BBox = &[4]int16{int16(4 * i), -5, 900, 901}
						case mode == 2 && special:
							gs[i] = ref.Glyph{Comps: []ref.Component{{GID: uint16(i), Dx: 1}}, BBox: &[4]int16{1, 2, 3, int16(i)}}
						case mode == 4 && special:
							gs[i] = ref.Glyph{}
						case mode == 4:
							gs[i].Overlap = i%2 == 0
						}
					}
					f := ttFont(gs)
					xmin(f, func(i int) bool { return i != n/2 || pos%2 == 0 })
					w2font(t, fmt.Sprintf("%d glyphs mode %d at %d", n, mode, pos), f)
				}
			}
		})
	}

	compFonts(func(name string, f *ref.Font) {
		e.Case(name, func(t *core.T) {
			w2font(t, name, f)
			xmin(f, func(i int) bool { return true })
			w2font(t, name+" bearings at the bounds", f)
		})
	})

	for _, size := range []int{65000, 131000, 131068, 131070} {
		e.Case(fmt.Sprintf("short locations of %d bytes", size), func(t *core.T) {
			w2font(t, fmt.Sprintf("%d bytes", size), shortLocaFont(size))
		})
	}

	// unusual representations of the outlines
	e.Case("representations", func(t *core.T) {
		for m := 0; m < 64; m++ {
			gs := plain(4)
			gs[1].NoCompress = m&1 != 0
			gs[2].Pad = m >> 1 & 3
			gs[3].Pad = m >> 3 & 3
			gs[3].Instr = []byte{1, 2, 3}
			if m&32 != 0 {
				gs[2] = ref.Glyph{Raw: []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}} // header without contours
			}
			for _, long := range []bool{false, true} {
				f := ttFont(gs)
				f.LongLoca = long
				f.GlyfTail = m % 5
				xmin(f, func(i int) bool { return m%3 != 0 || i != 2 })
				w2font(t, fmt.Sprintf("representation %d long %v", m, long), f)
			}
		}
	})

	// other tables
	tags := append([]string{"abcd", "zzzz", "    ", "A   ", "~~~~", "DSIG"}, ref.KnownTags()...)
	chunk(len(tags), 8, func(lo, hi int) {
		e.Case(fmt.Sprintf("tables %q to %q", tags[lo], tags[hi-1]), func(t *core.T) {
			for _, tag := range tags[lo:hi] {
				if strings.Contains("head glyf loca hmtx maxp hhea CFF  CFF2 vhea vmtx OS/2 post name cmap kern", tag) && tag != "    " {
					continue
				}
				for _, n := range []int{0, 1, 2, 3, 4, 5, 127, 128, 129, 16383, 16384, 16385} {
					for _, cff := range []bool{false, true} {
						if cff && n > 200 {
							continue
						}
						f := ttFont(plain(3))
						if cff {
							f = c06full(true)
						}
						tb := f.Tables()
						b := make([]byte, n)
						for i := range b {
							b[i] = byte(i*7 + i>>8 + 1)
						}
						tb[tag] = b
						w2tables(t, fmt.Sprintf("%d bytes of %q CFF %v", n, tag, cff), f.VersionTag(), tb, c01runes)
					}
				}
			}
		})
	})
	if thorough {
		e.Case("long tables", func(t *core.T) {
			for _, n := range []int{2097150, 2097151, 2097152, 2097153} {
				tb := ttFont(plain(3)).Tables()
				tb["abcd"] = make([]byte, n)
				w2tables(t, fmt.Sprintf("%d bytes", n), "\x00\x01\x00\x00", tb, c01runes)
			}
		})
	}

	// fonts out of operation sequences
	roots := wFonts()
	ops := wOps(roots)
	depth := 2
	if thorough {
		depth = 3
	}
	for _, r := range roots {
		for i := range ops {
			e.Case(fmt.Sprintf("%s, %s", r.name, ops[i].name), func(t *core.T) {
				var last func(int) bool
				if depth == 3 {
					last = func(k int) bool { return (k+i)%7 == 0 }
				}
				explore(t, r, ops, []int{i}, depth, last, func(desc string, mk func() *font.SFNT) bool {
					f := mk()
					if f == nil {
						return false
					}
					if wParsable(f) && f.Cmap != nil && has(f, "name", "post", "cmap") {
						return w2write(t, desc, f, sut.Opt{Runes: wProbes})
					}
					return true
				})
			})
		}
	}

	for _, name := range []string{"DejaVuSerif.ttf", "EBGaramond12-Regular.otf"} {
		e.Case("real "+name, func(t *core.T) {
			f, err := font.ParseSFNT(resource("resources/"+name), 0)
			if err != nil {
				t.Fail("parse", "%s: %v", name, err)
				return
			}
			w2write(t, name, f, sut.Opt{Runes: []rune{'A', 'b', 0x3b1, 0x2014}, Pairs: [][2]uint16{{36, 57}, {57, 36}}})
		})
	}
	e.Wait()
}
