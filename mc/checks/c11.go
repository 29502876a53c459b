package checks

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{
		ID:  "C11",
		Run: c11,
		Rule: "every character map of the bounded space (all single format 0/4/6/12 subtables over boundary segments, all ordered 1-3 subtable tables with shared records) " +
			"is parsed by the library; every covered code point, its neighbours and the boundary code points are looked up, and every glyph is inverted, and both are compared with the reference decoder",
		Assumptions: []string{
			"U+FFFF is the format 4 terminator and maps to glyph 0",
			"format 2, 8, 10 and 13 subtables are rejected by the library and are outside the space; format 14 carries variation sequences only and answers no plain lookups",
			"the characters of glyph 0 are not asserted",
		},
	})
}

const c11N = 40

// c11Font wraps subtables into a font.
func c11Font(subs []ref.CmapSub, recs []ref.CmapRec) []byte {
	f := &ref.Font{Glyphs: make([]ref.Glyph, c11N), Subs: subs, Recs: recs}
	return f.SFNT()
}

func c11Check(t *core.T, desc string, subs []ref.CmapSub, recs []ref.CmapRec) {
	c11Bytes(t, desc, c11Font(subs, recs))
}

func c11Bytes(t *core.T, desc string, b []byte) {
	_, tb, err := ref.ReadDir(b)
	if err != nil {
		panic(err)
	}
	cm, err := ref.ReadCmap(tb["cmap"])
	if err != nil {
		panic(fmt.Sprintf("%s: reference rejects its own map: %v", desc, err))
	}
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("rejected", "%s: valid character map rejected: %v", desc, err)
		return
	}
	probes := sut.ProbeRunes(cm)
	t.Trans(len(probes))
	for _, r := range probes {
		if r == 0xFFFF {
			continue
		}
		if got, want := f.GlyphIndex(r), cm.Get(r); got != want {
			t.Fail("lookup", "%s: U+%04X gives glyph %d instead of %d", desc, r, got, want)
			return
		}
	}
	inv := cm.Inverse()
	n := int(f.NumGlyphs())
	t.Trans(n)
	for g := 1; g <= n; g++ {
		got := unicodeOnly(f.GlyphToUnicode(uint16(g)))
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if want := unicodeOnly(inv[uint16(g)]); !sut.RunesEq(got, want) {
			t.Fail("inverse", "%s: glyph %d has characters %x instead of %x", desc, g, short(got), short(want))
			return
		}
	}
	// a second pass must give the same answers (cached inverse)
	for _, r := range probes {
		if r != 0xFFFF && f.GlyphIndex(r) != cm.Get(r) {
			t.Fail("lookup after inverse", "%s: U+%04X", desc, r)
			return
		}
	}
	t.Trace()
	t.StateB(tb["cmap"])
}

func short(r []rune) []rune {
	if len(r) > 40 {
		return r[:40]
	}
	return r
}

func segDesc(s ref.Seg4) string {
	if s.Array != nil {
		return fmt.Sprintf("[%x-%x array %v delta %d]", s.Start, s.End, s.Array, s.Delta)
	}
	return fmt.Sprintf("[%x-%x delta %d]", s.Start, s.End, s.Delta)
}

// c11Segs are the format 4 segments over one start and length.
func c11Segs(start, n int) []ref.Seg4 {
	var out []ref.Seg4
	e := start + n - 1
	if e > 0xFFFE {
		return nil
	}
	for _, g := range []int{1, 7, c11N - n} {
		out = append(out, ref.Seg4{Start: uint16(start), End: uint16(e), Delta: int16(g - start)})
	}
	arr := func(f func(i int) int, delta int) {
		s := ref.Seg4{Start: uint16(start), End: uint16(e), Delta: int16(delta), Array: []uint16{}}
		for i := 0; i < n; i++ {
			s.Array = append(s.Array, uint16(f(i)))
		}
		out = append(out, s)
	}
	arr(func(i int) int { return 5 }, 0)
	arr(func(i int) int { return (i*3 + 2) % 10 }, 0) // has zeros
	arr(func(i int) int { return c11N - 1 - i%(c11N-1) }, 0)
	arr(func(i int) int { return i % 3 }, 4)
	arr(func(i int) int { return i%3 + 9 }, -6)
	return out
}

func c11(e *core.Env) {
	rec := []ref.CmapRec{{Platform: 3, Encoding: 1, Sub: 0}}
	// format 4: all ordered tuples of up to three disjoint segments
	starts := []int{0, 0x20, 0x41, 0xFB, 0x7FFA, 0x8000, 0xFFEE, 0xFFFE}
	lens := []int{1, 2, 9}
	if e.Thorough {
		starts = []int{0, 1, 0x20, 0x2D, 0x41, 0xFB, 0x100, 0x7FFA, 0x8000, 0xD800, 0xFFEE, 0xFFFD, 0xFFFE}
		lens = []int{1, 2, 3, 9, 30}
	}
	var pool []ref.Seg4
	for _, s := range starts {
		for _, n := range lens {
			pool = append(pool, c11Segs(s, n)...)
		}
	}
	mk4 := func(segs []ref.Seg4) []ref.CmapSub { return []ref.CmapSub{{Format: 4, Segs: segs}} }
	e.Case("format4/none", func(t *core.T) { c11Check(t, "no segment", mk4([]ref.Seg4{}), rec) })
	// triples only over a coarser pool
	var coarse []ref.Seg4
	for i, s := range pool {
		if !e.Thorough && i%5 != 0 || e.Thorough && i%3 != 0 {
			continue
		}
		coarse = append(coarse, s)
	}
	for i := range pool {
		a := pool[i]
		e.Case(fmt.Sprintf("format4/%s", segDesc(a)), func(t *core.T) {
			c11Check(t, segDesc(a), mk4([]ref.Seg4{a}), rec)
			for _, b := range pool {
				if b.Start <= a.End {
					continue
				}
				c11Check(t, segDesc(a)+segDesc(b), mk4([]ref.Seg4{a, b}), rec)
			}
			t.Sample(segDesc(a))
		})
	}
	for i := range coarse {
		a := coarse[i]
		e.Case(fmt.Sprintf("format4triple/%s", segDesc(a)), func(t *core.T) {
			for _, b := range coarse {
				if b.Start <= a.End {
					continue
				}
				for _, c := range coarse {
					if c.Start <= b.End {
						continue
					}
					c11Check(t, segDesc(a)+segDesc(b)+segDesc(c), mk4([]ref.Seg4{a, b, c}), rec)
				}
			}
		})
	}
	// format 0
	e.Case("format0", func(t *core.T) {
		for first := 0; first < 256; first += 5 {
			for _, n := range []int{0, 1, 2, 37, 256} {
				for _, k := range []int{0, 1, 2} {
					m := map[rune]uint16{}
					for i := 0; i < n && first+i < 256; i++ {
						m[rune(first+i)] = uint16((i*k + 1) % c11N)
					}
					c11Check(t, fmt.Sprintf("format 0, %d from %d, step %d", n, first, k), []ref.CmapSub{{Format: 0, Map: m}}, []ref.CmapRec{{Platform: 1, Encoding: 0, Sub: 0}})
				}
			}
		}
		t.Sample("format 0 with all first codes, runs and steps")
	})
	// format 6
	e.Case("format6", func(t *core.T) {
		for _, first := range []int{0, 1, 0x20, 0xFF, 0x100, 0x7FFE, 0x8000, 0xFFE0, 0xFFFE} {
			for _, n := range []int{0, 1, 2, 3, 25, 300} {
				for _, k := range []int{0, 1, 7} {
					m := map[rune]uint16{}
					for i := 0; i < n && first+i < 0xFFFF; i++ {
						m[rune(first+i)] = uint16((i*k + 1) % c11N)
					}
					c11Check(t, fmt.Sprintf("format 6, %d from %#x, step %d", n, first, k), []ref.CmapSub{{Format: 6, Map: m}}, []ref.CmapRec{{Platform: 0, Encoding: 3, Sub: 0}})
				}
			}
		}
	})
	// format 12: all ordered tuples of up to three groups
	var groups [][3]uint32
	for _, s := range []uint32{0, 0x20, 0xFF, 0xFFEE, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x10FFFF, 0x7FFFFFFE} {
		for _, n := range []uint32{1, 2, 17, 39} {
			for _, g := range []uint32{0, 1, c11N - n} {
				if s+n-1 > 0x7FFFFFFF {
					continue
				}
				groups = append(groups, [3]uint32{s, s + n - 1, g})
			}
		}
	}
	rec12 := []ref.CmapRec{{Platform: 3, Encoding: 10, Sub: 0}}
	mk12 := func(g ...[3]uint32) []ref.CmapSub {
		if g == nil {
			g = [][3]uint32{}
		}
		return []ref.CmapSub{{Format: 12, Groups: g}}
	}
	e.Case("format12/none", func(t *core.T) { c11Check(t, "no group", mk12(), rec12) })
	for i := range groups {
		a := groups[i]
		e.Case(fmt.Sprintf("format12/%x", a), func(t *core.T) {
			c11Check(t, fmt.Sprintf("groups %x", a), mk12(a), rec12)
			for _, b := range groups {
				if b[0] <= a[1] {
					continue
				}
				c11Check(t, fmt.Sprintf("groups %x %x", a, b), mk12(a, b), rec12)
				for k, c := range groups {
					if c[0] <= b[1] || !e.Thorough && k%4 != 0 {
						continue
					}
					c11Check(t, fmt.Sprintf("groups %x %x %x", a, b, c), mk12(a, b, c), rec12)
				}
			}
		})
	}
	// several subtables: every ordered choice of up to three, each also with repeated records
	type named struct {
		n string
		s ref.CmapSub
	}
	var subs []named
	add := func(n string, s ref.CmapSub) { subs = append(subs, named{n, s}) }
	add("f0", ref.CmapSub{Format: 0, Map: map[rune]uint16{0x41: 3, 0x42: 4, 0x61: 3}})
	add("f4a", ref.CmapSub{Format: 4, Map: map[rune]uint16{0x41: 3, 0x42: 4, 0x3B1: 9}})
	add("f4b", ref.CmapSub{Format: 4, Map: map[rune]uint16{0x41: 4, 0x42: 3, 0x100: 8}})
	add("f4c", ref.CmapSub{Format: 4, Segs: []ref.Seg4{{Start: 0x41, End: 0x44, Array: []uint16{0, 5, 0, 6}}}})
	add("f6", ref.CmapSub{Format: 6, Map: map[rune]uint16{0x42: 7, 0x43: 7, 0x44: 3}})
	add("f12", ref.CmapSub{Format: 12, Map: map[rune]uint16{0x41: 5, 0x43: 3, 0x1F600: 3}})
	add("f12b", ref.CmapSub{Format: 12, Map: map[rune]uint16{0x1F600: 11, 0x1F601: 12, 0x42: 4}})
	add("f14", ref.CmapSub{Raw: func() []byte {
		w := &ref.W{}
		w.U16(14)
		w.U32(10+11, 1)
		w.U24(0xFE00)
		w.U32(0, 0)
		return w.B
	}()})
	recFor := func(n string, k int) ref.CmapRec {
		if n == "f14" {
			return ref.CmapRec{Platform: 0, Encoding: 5}
		}
		return []ref.CmapRec{{Platform: 0, Encoding: 3}, {Platform: 1, Encoding: 0}, {Platform: 3, Encoding: 1}, {Platform: 3, Encoding: 10}}[k]
	}
	var run func(t *core.T, pick []int)
	run = func(t *core.T, pick []int) {
		if len(pick) > 0 {
			// without and with every repeated record
			for rep := -1; rep < len(pick); rep++ {
				var ss []ref.CmapSub
				var rs []ref.CmapRec
				var ns []string
				k := 0
				ok := true
				for i, p := range pick {
					ss = append(ss, subs[p].s)
					r := recFor(subs[p].n, k)
					r.Sub = i
					if subs[p].n == "f14" && i > 0 {
						ok = false // records have to be in order
					}
					if subs[p].n == "f14" {
						r.Encoding = 5
					}
					rs = append(rs, r)
					ns = append(ns, subs[p].n)
					k++
				}
				if subs[pick[0]].n == "f14" && len(pick) > 1 {
					rs[0].Encoding = 5
					for i := 1; i < len(rs); i++ {
						rs[i] = []ref.CmapRec{{}, {Platform: 1, Encoding: 0}, {Platform: 3, Encoding: 1}}[i]
						rs[i].Sub = i
					}
				}
				if rep >= 0 {
					if subs[pick[rep]].n == "f14" {
						continue
					}
					rs = append(rs, ref.CmapRec{Platform: 3, Encoding: 10, Sub: rep})
				}
				if ok {
					c11Check(t, fmt.Sprintf("%s repeated %d", strings.Join(ns, "+"), rep), ss, rs)
				}
			}
		}
		if len(pick) == 3 {
			return
		}
		for i := range subs {
			run(t, append(append([]int{}, pick...), i))
		}
	}
	for i := range subs {
		e.Case("tables/"+subs[i].n, func(t *core.T) { run(t, []int{i}) })
	}
	// fonts of the repository
	for _, n := range []string{"resources/DejaVuSerif.ttf", "resources/EBGaramond12-Regular.otf", "examples/merge/A-Z.ttf", "examples/merge/0-9.ttf"} {
		e.Case("real/"+n, func(t *core.T) {
			b := resource(n)
			c11Real(t, b)
		})
	}
}

// c11Real compares all code points.
func c11Real(t *core.T, b []byte) {
	off := map[string][]byte{}
	nt := int(b[4])<<8 | int(b[5])
	for i := 0; i < nt; i++ {
		p := 12 + 16*i
		u := func(o int) int { return int(b[o])<<24 | int(b[o+1])<<16 | int(b[o+2])<<8 | int(b[o+3]) }
		off[string(b[p:p+4])] = b[u(p+8) : u(p+8)+u(p+12)]
	}
	cm, err := ref.ReadCmap(off["cmap"])
	if err != nil {
		t.Fail("reference", "reference cannot read the map: %v", err)
		return
	}
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("rejected", "%v", err)
		return
	}
	for r := rune(-1); r <= 0x110000; r++ {
		if r != 0xFFFF && f.GlyphIndex(r) != cm.Get(r) {
			t.Fail("lookup", "U+%04X gives %d instead of %d", r, f.GlyphIndex(r), cm.Get(r))
			return
		}
	}
	inv := cm.Inverse()
	for g := 1; g < int(f.NumGlyphs()); g++ {
		got := append([]rune{}, f.GlyphToUnicode(uint16(g))...)
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if !sut.RunesEq(got, inv[uint16(g)]) {
			t.Fail("inverse", "glyph %d has %x instead of %x", g, got, inv[uint16(g)])
			return
		}
	}
	t.Trans(0x110002)
	t.Trace()
	t.StateB(off["cmap"])
}

// unicodeOnly leaves out numbers that are no code points.
func unicodeOnly(rs []rune) []rune {
	out := []rune{}
	for _, r := range rs {
		if 0 <= r && r <= unicode.MaxRune {
			out = append(out, r)
		}
	}
	return out
}
