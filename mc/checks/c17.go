package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{ID: "C17", Run: c17, CaseLimit: 30 * time.Second, MemLimit: 4 << 30,
		Rule:        "For small valid files of every kind (TrueType, CFF, CID-keyed CFF, all character map formats, kerning, vertical metrics, collections, WOFF, WOFF2 with and without transforms, EOT, AFM) every single fault is injected: every truncation, every byte set to boundary values (thorough: to all 256 values), every 16-bit and 32-bit field at every offset set to boundary values, one, two or four bytes removed, zeroed or inserted anywhere, every table of a directory truncated to every length, emptied, removed, extended; the same inside the uncompressed WOFF2 stream. All pairs of faults are injected in the fields that describe sizes in other tables. On every file all decoders are run, and on every accepted font all queries for boundary glyph numbers and characters, subsetting, merging in both directions, renaming and writing; nothing may panic, run for more than 30 s, or use more than 4 GiB.",
		Assumptions: []string{"glyph numbers and characters are probed at all small values and at the boundaries of their types", "fault pairs are limited to size-describing fields"}})
}

// c17src is a valid file to be damaged.
type c17src struct {
	name    string
	b       []byte
	version string
	tables  map[string][]byte // of an SFNT
	cff     bool
}

// c17sfnts are the undamaged SFNT files.
func c17sfnts() (out []c17src) {
	add := func(name string, f *ref.Font) {
		out = append(out, c17src{name: name, b: f.SFNT(), version: f.VersionTag(), tables: f.Tables(), cff: f.CFF})
	}
	add("full", c06full(false))

	f := ttFont(plain(5))
	f.Glyphs[2] = ref.Glyph{Contours: [][]ref.Point{sq(3, 4, 5), sq(-300, 40, 500)}, Instr: []byte{7, 8}, HasInstr: true}
	f.Glyphs[3] = ref.Glyph{Comps: []ref.Component{{GID: 2, Dx: 3}, {GID: 1, Dy: -300}}, Instr: []byte{1, 2, 3}, HasInstr: true}
	f.Glyphs[4] = ref.Glyph{Comps: []ref.Component{{GID: 3, Dx: 3}, {GID: 1}}}
	f.LongLoca = true
	f.NHM = 2
	for i := 2; i < 5; i++ {
		f.Adv[i] = f.Adv[1]
	}
	f.NoOS2 = true
	f.PostVer = 1
	f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 9}}}, {Coverage: 3, Pairs: []ref.KernPair{{L: 3, R: 1, V: -4}}}}
	add("composites", f)

	add("full CFF", c06full(true))

	f = cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CS(5, 2, "rmoveto", 1, 2, 3, 4, 5, 6, "rrcurveto", -107, "callgsubr", "endchar"), ref.CS(10, 5, "hstem", 1, 2, "vstemhm", 1000, 20, "rmoveto", 4, 5, 6, "hlineto", "endchar")},
		ref.CFFInfo{Local: [][]byte{ref.CS(8, 9, "rlineto", "return"), {11}}, Global: [][]byte{ref.CS(6, 9, "rlineto", -106, "callsubr", "return")}, Charset: []string{".notdef", "space", "own", "zz"}, CharsetFormat: 1, FontMatrix: true, FullName: "Full Name", DefaultW: 500, NominalW: 600, WriteWidths: true})
	add("CFF subroutines", f)

	for k, ff := range []int{3, 0} {
		f = cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar")},
			ref.CFFInfo{CID: true, FDSelect: []byte{0, 1, 0}, FDFormat: ff, FDLocal: [][][]byte{{ref.CS(1, 6, "rlineto", "return")}, {ref.CS(2, 6, "rlineto", "return")}}, FontMatrix: true})
		add([]string{"CID", "CID format 0"}[k], f)
	}
	f = cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", 4, "hlineto", "endchar"), ref.CS(1, 3, "rmoveto", 4, "hlineto", "endchar")},
		ref.CFFInfo{CID: true, FDSelect: []byte{0, 0, 0}, FDLocal: [][][]byte{{ref.CS(1, 6, "rlineto", "return")}}})
	add("CID one dict", f)

	// the remaining character map formats
	for _, n := range []int{0, 6, 12} {
		f = ttFont(plain(3))
		m := map[rune]uint16{'A': 1, 'B': 2, 'D': 1}
		if n == 12 {
			m[0x10400], m[0x10401] = 2, 1
		}
		f.Subs, f.Recs = []ref.CmapSub{{Format: n, Map: m}}, []ref.CmapRec{{Platform: 3, Encoding: 1}}
		if n == 0 {
			f.Recs = []ref.CmapRec{{Platform: 1, Encoding: 0}}
		}
		add(fmt.Sprintf("cmap %d", n), f)
	}
	f = ttFont(plain(3))
	f.Subs = []ref.CmapSub{{Format: 4, Map: map[rune]uint16{'A': 1, 'B': 2, 'D': 1, 0x300: 2}, GlyphArray: true, DeltaOnArr: 1},
		{Raw: (&w17{}).u16(14).u32(10 + 11 + 4 + 4 + 4 + 5).u32(1).u24(0xFE00).u32(21).u32(29).u32(1).u24('A').u8(1).u32(1).u24('B').u16(2).b},
		{Format: 12, Map: map[rune]uint16{'A': 1, 0x1F600: 2}}}
	f.Recs = []ref.CmapRec{{Platform: 0, Encoding: 3, Sub: 0}, {Platform: 0, Encoding: 5, Sub: 1}, {Platform: 3, Encoding: 1, Sub: 0}, {Platform: 3, Encoding: 10, Sub: 2}}
	add("cmap 14", f)
	return
}

type w17 struct{ b []byte }

func (w *w17) u8(v int) *w17  { w.b = append(w.b, byte(v)); return w }
func (w *w17) u16(v int) *w17 { w.b = append(w.b, byte(v>>8), byte(v)); return w }
func (w *w17) u24(v int) *w17 { w.b = append(w.b, byte(v>>16), byte(v>>8), byte(v)); return w }
func (w *w17) u32(v int) *w17 { return w.u16(v >> 16).u16(v) }

var c17ids = func() (out []uint16) {
	for i := 0; i < 12; i++ {
		out = append(out, uint16(i))
	}
	return append(out, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF)
}()

var c17runes = []rune{-1, -0x80000000, 0, 31, 'A', 'B', 'C', 'D', 'F', 0xFE, 0xFF, 0x100, 0x300, 0x400, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10400, 0x10401, 0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF}

type nopPather struct{ n int }

func (p *nopPather) MoveTo(x, y float64)                     { p.n++ }
func (p *nopPather) LineTo(x, y float64)                     { p.n++ }
func (p *nopPather) QuadTo(a, b, x, y float64)               { p.n++ }
func (p *nopPather) CubeTo(a, b, c, d float64, x, y float64) { p.n++ }
func (p *nopPather) Close()                                  { p.n++ }

// c17query asks everything of a font.
func c17query(t *core.T, step string, f *font.SFNT) {
	n := int(f.NumGlyphs())
	ids := append([]uint16{}, c17ids...)
	if n > 12 {
		ids = append(ids, uint16(n-2), uint16(n-1), uint16(n), uint16(n+1))
	}
	t.Try(step+": metrics and names", func() {
		f.UnitsPerEm()
		f.VerticalMetrics()
		for _, s := range []string{"", ".notdef", "A", "own", "zz", "nosuch", "NULL"} {
			f.FindGlyphName(s)
		}
		for i, g := range ids {
			f.GlyphName(g)
			f.GlyphAdvance(g)
			f.GlyphVerticalAdvance(g)
			for _, h := range ids[i%3:] {
				f.Kerning(g, h)
			}
			if f.Hmtx != nil {
				f.Hmtx.LeftSideBearing(g)
			}
			if f.Vmtx != nil {
				f.Vmtx.TopSideBearing(g)
			}
			if f.Post != nil {
				f.Post.Get(g)
			}
		}
		if f.Name != nil {
			for i := 0; i < 26; i++ {
				for _, r := range f.Name.Get(font.NameID(i)) {
					_ = r.String()
				}
			}
			for _, r := range f.Name.LangTag {
				_ = r.String()
			}
		}
	})
	t.Try(step+": characters", func() {
		for _, r := range c17runes {
			f.GlyphIndex(r)
		}
		for _, g := range ids {
			f.GlyphToUnicode(g)
		}
		if f.Cmap != nil {
			for _, s := range f.Cmap.Subtables {
				for _, r := range c17runes {
					s.Get(r)
				}
				for _, g := range ids {
					s.ToUnicode(g)
				}
			}
		}
	})
	t.Try(step+": outlines", func() {
		for _, g := range ids {
			f.GlyphPath(&nopPather{}, g, 0, 0, 0, 1, font.NoHinting)
			f.GlyphBounds(g)
		}
	})
	t.Try(step+": table queries", func() {
		for _, g := range ids {
			if f.Loca != nil {
				f.Loca.Get(g)
			}
			if f.Glyf != nil {
				f.Glyf.Get(g)
				f.Glyf.IsComposite(g)
				f.Glyf.Dependencies(g)
				if c, err := f.Glyf.Contour(g); err == nil {
					_ = c.String()
				}
			}
			if f.CFF != nil {
				f.CFF.Version()
				f.CFF.TopDICT()
				f.CFF.PrivateDICT(g)
				f.CFF.GlyphName(g)
			}
		}
	})
}

type c17opt struct {
	ops   int // 0 queries only, 1 a selection of operations, 2 all
	woff2 bool
	other []wRoot
	idx   []int
}

// c17use runs every decoder on the bytes and every operation on accepted fonts.
func c17use(t *core.T, step string, b []byte, o c17opt) {
	t.Trans(1)
	t.Try(step+": identify", func() {
		font.MediaType(b)
		font.Extension(b)
		font.NewSFNTReader(bytes.NewReader(b))
	})
	sfnt := b
	idx := o.idx
	if idx == nil {
		idx = []int{0}
	}
	for k, i := range idx {
		var f, g *font.SFNT
		t.Try(step+": parse", func() { f, _ = font.ParseSFNT(clone(b), i) })
		if k == 0 {
			t.Try(step+": unpack", func() {
				if s, err := font.ToSFNT(clone(b)); err == nil {
					sfnt = s
				}
			})
		}
		t.Try(step+": parse as embedded", func() { g, _ = font.ParseEmbeddedSFNT(clone(sfnt), i) })
		for j, h := range []*font.SFNT{f, g} {
			if h == nil || j == 1 && f != nil && o.ops < 2 {
				continue
			}
			t.Trans(1)
			st := step
			if j == 1 {
				st += ", embedded"
			}
			mk := func() (h *font.SFNT) {
				if j == 0 {
					h, _ = font.ParseSFNT(clone(b), i)
				} else {
					h, _ = font.ParseEmbeddedSFNT(clone(sfnt), i)
				}
				return
			}
			c17query(t, st, h)
			t.Try(st+": write", func() { h.Write() })
			if o.woff2 {
				t.Try(st+": write WOFF2", func() { h.WriteWOFF2() })
			}
			if o.ops > 0 {
				c17ops(t, st, mk, o)
			}
		}
	}
}

func c17ops(t *core.T, step string, mk func() *font.SFNT, o c17opt) {
	f := mk()
	if f == nil {
		return
	}
	n := int(f.NumGlyphs())
	lists := [][]uint16{{0}, {0, 1, 2, 3, 4, 5}, {0, 0xFFFF}, {0, 4}, {}, {3, 0, 2, 2}}
	if n < 100 {
		lists[1] = nil
		for i := 0; i < n; i++ {
			lists[1] = append(lists[1], uint16(i))
		}
		if n > 1 {
			lists = append(lists, []uint16{0, uint16(n - 1)})
		}
		lists = append(lists, []uint16{0, uint16(n)})
	}
	sels := wSels
	if o.ops < 2 {
		lists, sels = lists[1:4], sels[:2]
	}
	for li, l := range lists {
		for si, s := range sels {
			st := fmt.Sprintf("%s: subset %v %s", step, l, s.name)
			t.Try(st, func() {
				t.Trans(1)
				g, err := f.Subset(append([]uint16{}, l...), font.SubsetOptions{Tables: append([]string{}, s.s...)})
				if err != nil {
					return
				}
				g.Write()
				if li == 0 && si == 0 || o.ops > 1 {
					c17query(t, st, g)
					if o.woff2 && si == 0 {
						t.Step(st + ": write WOFF2")
						g.WriteWOFF2()
					}
				}
				t.Step(st)
			})
		}
	}
	for _, r := range o.other {
		for k := 0; k < 2; k++ {
			st := fmt.Sprintf("%s: merge with %s, %d", step, r.name, k)
			t.Try(st, func() {
				t.Trans(1)
				f := mk()
				g, err := font.ParseSFNT(clone(r.b), 0)
				if err != nil {
					panic(err)
				}
				if k == 1 {
					f, g = g, f
				}
				if err := f.Merge(g, font.MergeOptions{RearrangeCmap: o.ops > 1}); err != nil {
					return
				}
				f.Write()
				if o.ops > 1 {
					c17query(t, st, f)
				}
			})
		}
	}
	for k := 0; k < 4; k++ {
		st := fmt.Sprintf("%s: names %d", step, k)
		t.Try(st, func() {
			t.Trans(1)
			f := mk()
			var ns []string
			for i := 0; i < n && i < 300; i++ {
				ns = append(ns, fmt.Sprintf("n%d", i))
			}
			switch k {
			case 1:
				ns = nil
			case 2:
				ns = append(ns, "more")
			case 3:
				if f.CFF != nil {
					f.CFF.SetGlyphName(uint16(n), "x")
					f.CFF.SetGlyphName(0, "x")
					if err := f.CFF.ReindexSubrs(); err != nil {
						return
					}
				}
			}
			if k != 3 {
				if f.SetGlyphNames(ns) != nil {
					return
				}
			}
			f.Write()
			for i := 0; i < 4; i++ {
				f.GlyphName(uint16(i))
				f.FindGlyphName("n1")
			}
		})
	}
}

// c17fault is one damage to a byte string.
type c17fault struct {
	name string
	fn   func(b []byte) []byte
}

// c17at are the faults at an offset.
func c17at(b []byte, i int, thorough bool, emit func(name string, m []byte)) {
	old := b[i]
	seen := map[byte]bool{old: true}
	put := func(v byte) {
		if !seen[v] {
			seen[v] = true
			m := clone(b)
			m[i] = v
			emit(fmt.Sprintf("byte %d = %#x", i, v), m)
		}
	}
	if thorough {
		for v := 0; v < 256; v++ {
			put(byte(v))
		}
	} else {
		for _, v := range []byte{0, 1, 2, 0x7F, 0x80, 0xFF, old + 1, old - 1, old ^ 0x80, old ^ 1} {
			put(v)
		}
	}
	if i+2 <= len(b) {
		o := binary.BigEndian.Uint16(b[i:])
		seen := map[uint16]bool{o: true}
		for _, v := range []uint16{0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, o + 1, o - 1, o + 2, o - 2, 2 * o, o / 2, uint16(len(b))} {
			if !seen[v] && (v>>8 != o>>8 && v&0xFF != o&0xFF || thorough) {
				seen[v] = true
				m := clone(b)
				binary.BigEndian.PutUint16(m[i:], v)
				emit(fmt.Sprintf("u16 at %d = %#x", i, v), m)
			}
		}
	}
	if i+4 <= len(b) {
		o := binary.BigEndian.Uint32(b[i:])
		n := uint32(len(b))
		seen := map[uint32]bool{o: true}
		vals := []uint32{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFC, n, n - 1, n + 1, n - 4}
		if thorough {
			vals = append(vals, o+4, o-4, o+2, 2*o, -o, o|0x80000000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFE, n-uint32(i), 0xFFFFFFFF-o)
		}
		for _, v := range vals {
			if !seen[v] {
				seen[v] = true
				m := clone(b)
				binary.BigEndian.PutUint32(m[i:], v)
				emit(fmt.Sprintf("u32 at %d = %#x", i, v), m)
			}
		}
	}
	for _, k := range []int{1, 2, 4} {
		if i+k <= len(b) {
			emit(fmt.Sprintf("%d bytes removed at %d", k, i), append(clone(b[:i]), b[i+k:]...))
		}
		if thorough {
			emit(fmt.Sprintf("%d bytes inserted at %d", k, i), append(append(clone(b[:i]), bytes.Repeat([]byte{0xFF}, k)...), b[i:]...))
		}
	}
}

// c17lens are the lengths a string is cut or extended to.
func c17lens(b []byte, emit func(name string, m []byte)) {
	for i := 0; i < len(b); i++ {
		emit(fmt.Sprintf("cut to %d", i), clone(b[:i]))
	}
	for _, k := range []int{1, 2, 3, 4, 5, 64} {
		for _, v := range []byte{0, 0xFF} {
			emit(fmt.Sprintf("%d bytes %#x appended", k, v), append(clone(b), bytes.Repeat([]byte{v}, k)...))
		}
	}
}

func c17(e *core.Env) {
	srcs := c17sfnts()
	other := map[bool][]wRoot{}
	for _, r := range wFonts() {
		if r.name == "supplementary" || r.name == "CFF" {
			other[r.cff] = append(other[r.cff], r)
		}
	}
	opt := func(s c17src) c17opt {
		o := c17opt{ops: 1, other: other[s.cff]}
		if e.Thorough {
			o.ops = 2
		}
		return o
	}
	for _, s := range srcs {
		// the undamaged file with everything
		e.Case("sfnt/"+s.name+"/undamaged", func(t *core.T) {
			o := opt(s)
			o.ops, o.woff2 = 2, true
			o.idx = []int{0, 1, -1, 1 << 31}
			c17use(t, "undamaged", s.b, o)
			if _, err := font.ParseSFNT(clone(s.b), 0); err != nil {
				t.Fail("parse", "undamaged font is rejected: %v", err)
			}
			t.Trace()
		})
		chunk(len(s.b), 24, func(lo, hi int) {
			e.Case(fmt.Sprintf("sfnt/%s/at %d", s.name, lo), func(t *core.T) {
				for i := lo; i < hi; i++ {
					c17at(s.b, i, e.Thorough, func(name string, m []byte) {
						t.StateB(m)
						c17use(t, name, m, opt(s))
						t.Trace()
					})
				}
			})
		})
		e.Case("sfnt/"+s.name+"/length", func(t *core.T) {
			c17lens(s.b, func(name string, m []byte) {
				t.StateB(m)
				c17use(t, name, m, opt(s))
				t.Trace()
			})
		})
		var tags []string
		for tag := range s.tables {
			tags = append(tags, tag)
		}
		sort.Strings(tags)
		for _, tag := range tags {
			e.Case(fmt.Sprintf("sfnt/%s/%s", s.name, tag), func(t *core.T) {
				with := func(name string, m []byte, drop bool, woff2 bool) {
					ts := map[string][]byte{}
					for k, v := range s.tables {
						ts[k] = v
					}
					ts[tag] = m
					if drop {
						delete(ts, tag)
					}
					b := ref.BuildSFNT(s.version, ts)
					t.StateB(b)
					o := opt(s)
					o.woff2 = woff2
					c17use(t, fmt.Sprintf("%q %s", tag, name), b, o)
					t.Trace()
				}
				with("removed", nil, true, true)
				c17lens(s.tables[tag], func(name string, m []byte) { with(name, m, false, true) })
				for i := range s.tables[tag] {
					for _, k := range []int{1, 2, 3, 4, 8} {
						if i+k <= len(s.tables[tag]) {
							b := s.tables[tag]
							with(fmt.Sprintf("%d bytes removed at %d", k, i), append(clone(b[:i]), b[i+k:]...), false, false)
						}
						if e.Thorough {
							b := s.tables[tag]
							with(fmt.Sprintf("%d bytes inserted at %d", k, i), append(append(clone(b[:i]), make([]byte, k)...), b[i:]...), false, false)
						}
					}
				}
				// the same faults written as WOFF2
				if strings.Contains(" glyf loca head hhea hmtx maxp ", " "+tag+" ") {
					for i := range s.tables[tag] {
						for _, v := range []byte{0, 1, 0x7F, 0x80, 0xFF} {
							m := clone(s.tables[tag])
							m[i] = v
							ts := map[string][]byte{}
							for k, v := range s.tables {
								ts[k] = v
							}
							ts[tag] = m
							b := ref.BuildSFNT(s.version, ts)
							t.Trans(1)
							t.Try(fmt.Sprintf("%q byte %d = %#x: write WOFF2", tag, i, v), func() {
								if f, err := font.ParseSFNT(b, 0); err == nil {
									f.WriteWOFF2()
								}
							})
						}
					}
				}
			})
		}
	}
	c17pairs(e, srcs, opt)
	c17containers(e, srcs)
	c17text(e)
	c17limits(e, other)
	e.Wait()
}

// c17field is a field that describes the size of something.
type c17field struct {
	tag  string
	off  int
	size int
	vals []uint32
}

// c17pairs injects all pairs of faults into size-describing fields.
func c17pairs(e *core.Env, srcs []c17src, opt func(c17src) c17opt) {
	for _, s := range srcs {
		n := uint32(binary.BigEndian.Uint16(s.tables["maxp"][4:]))
		var fs []c17field
		add := func(tag string, off, size int, vals ...uint32) {
			if b, ok := s.tables[tag]; ok && off+size <= len(b) {
				fs = append(fs, c17field{tag, off, size, vals})
			}
		}
		small := []uint32{0, 1, n - 1, n + 1, 0x7FFF, 0x8000, 0xFFFF}
		add("maxp", 4, 2, small...)
		add("hhea", 34, 2, small...)
		add("vhea", 34, 2, small...)
		add("head", 50, 2, 0, 1, 2)
		add("post", 0, 4, 0x10000, 0x20000, 0x30000)
		add("post", 32, 2, small...)
		add("OS/2", 0, 2, 0, 1, 3, 5)
		for i := 0; i+2 <= len(s.tables["loca"]); i += 2 {
			add("loca", i, 2, 0, 1, 0x7FFF, 0xFFFF)
		}
		top := min(len(s.tables["cmap"]), 80)
		if e.Thorough {
			top = len(s.tables["cmap"])
		}
		for i := 0; i+2 <= top; i += 2 {
			add("cmap", i, 2, 0, 1, 4, 0x8000, 0xFFFF)
		}
		for i := 0; i+2 <= min(len(s.tables["kern"]), 24); i += 2 {
			add("kern", i, 2, 0, 1, 3, 0xFFFF)
		}
		// the header, indices and dictionaries at the start of a CFF table
		for i := 0; i < min(len(s.tables["CFF "]), 90); i++ {
			add("CFF ", i, 1, 0, 1, 28, 139, 0xFF)
		}
		// lengths of tables as further faults
		for _, tag := range []string{"hmtx", "vmtx", "loca", "glyf", "cmap", "CFF "} {
			if _, ok := s.tables[tag]; ok {
				fs = append(fs, c17field{tag, -1, 0, []uint32{0, 1, 2, 4, 6}})
			}
		}
		for i, a := range fs {
			e.Case(fmt.Sprintf("pairs/%s/%q %d", s.name, a.tag, a.off), func(t *core.T) {
				o := opt(s)
				o.ops = 0
				if e.Thorough {
					o.ops = 1
				}
				for _, b := range fs[i+1:] {
					if a.tag != b.tag && (a.tag == "cmap" && a.off > 20 || b.tag == "cmap" && b.off > 20 || a.tag == "CFF " && a.off > 4 || b.tag == "CFF " && b.off > 4 || a.tag == "kern" && b.tag != "maxp" || b.tag == "kern" && a.tag != "maxp") {
						continue // unrelated
					}
					for _, va := range a.vals {
						for _, vb := range b.vals {
							ts := map[string][]byte{}
							for k, v := range s.tables {
								ts[k] = v
							}
							a.apply(ts, va)
							b.apply(ts, vb)
							m := ref.BuildSFNT(s.version, ts)
							t.StateB(m)
							o := o
							if a.tag != b.tag && a.off >= 0 && b.off >= 0 && a.tag != "cmap" && b.tag != "cmap" && a.tag != "CFF " && b.tag != "CFF " {
								o.ops = max(o.ops, 1)
								o.woff2 = e.Thorough && a.tag == "maxp"
							}
							c17use(t, fmt.Sprintf("%q %d = %#x, %q %d = %#x", a.tag, a.off, va, b.tag, b.off, vb), m, o)
							t.Trace()
						}
					}
				}
			})
		}
	}
}

func (f c17field) apply(ts map[string][]byte, v uint32) {
	b := ts[f.tag]
	if f.off < 0 { // cut v bytes off
		ts[f.tag] = clone(b[:max(0, len(b)-int(v))])
		return
	}
	b = clone(b)
	if f.off+f.size > len(b) {
		return
	}
	switch f.size {
	case 1:
		b[f.off] = byte(v)
	case 2:
		binary.BigEndian.PutUint16(b[f.off:], uint16(v))
	case 4:
		binary.BigEndian.PutUint32(b[f.off:], v)
	}
	ts[f.tag] = b
}

// c17containers damages the containers.
func c17containers(e *core.Env, srcs []c17src) {
	by := map[string]c17src{}
	for _, s := range srcs {
		by[s.name] = s
	}
	slim := func(s c17src) map[string][]byte {
		out := map[string][]byte{}
		for k, v := range s.tables {
			if k == "head" {
				v = clone(v)
				v[16] |= 0x08 // lossless transformation, required in WOFF2
			}
			if k != "DSIG" && (k != "name" || len(v) < 80) {
				out[k] = v
			}
		}
		return out
	}
	type cont struct {
		name string
		b    []byte
		idx  []int
	}
	var cs []cont
	tt, cf := by["composites"], by["CFF subroutines"]
	full := by["full"]
	for v := 1; v <= 2; v++ {
		cs = append(cs, cont{fmt.Sprintf("TTC %d", v), ref.BuildTTC([]ref.Member{{Version: tt.version, Tables: slim(tt)}, {Version: cf.version, Tables: slim(cf)}}, []int{0, 1}, true, v), []int{0, 1, 2}})
	}
	cs = append(cs, cont{"WOFF stored", ref.BuildWOFF(tt.version, slim(tt), ref.WOFFOpts{}), nil})
	cs = append(cs, cont{"WOFF", ref.BuildWOFF(full.version, slim(full), ref.WOFFOpts{Compress: func(string) bool { return true }, Level: 9, Meta: true}), nil})
	cs = append(cs, cont{"WOFF CFF", ref.BuildWOFF(cf.version, slim(cf), ref.WOFFOpts{Compress: func(string) bool { return true }, Level: 1}), nil})
	for _, v := range []uint32{0x00010000, 0x00020001, 0x00020002} {
		cs = append(cs, cont{fmt.Sprintf("EOT %x", v), ref.BuildEOT(tt.b, ref.EOTOpts{Version: v, Strings: [4]int{6, 4, 2, 8}, Root: 6, Sig: 2, EUDC: 1}), nil})
	}
	cs = append(cs, cont{"EOT encrypted", ref.BuildEOT(cf.b, ref.EOTOpts{Version: 0x00020001, XOR: true}), nil})
	w2 := []struct {
		name string
		s    c17src
		o    ref.W2Opts
	}{
		{"WOFF2", tt, ref.W2Opts{GlyfTransform: true, Hmtx: 0}},
		{"WOFF2 hmtx", full, ref.W2Opts{GlyfTransform: true, BBoxAlways: true, OverlapBitmap: true, U255: 1, ArbTags: true}},
		{"WOFF2 null", tt, ref.W2Opts{}},
		{"WOFF2 CFF", cf, ref.W2Opts{}},
	}
	for _, w := range w2 {
		cs = append(cs, cont{w.name, ref.BuildWOFF2(w.s.version, slim(w.s), w.o), nil})
	}
	for _, c := range cs {
		e.Case("container/"+c.name+"/undamaged", func(t *core.T) {
			c17use(t, "undamaged", c.b, c17opt{ops: 1, idx: c.idx})
			if _, err := font.ParseSFNT(clone(c.b), 0); err != nil {
				t.Fail("parse", "undamaged file is rejected: %v", err)
			}
		})
		chunk(len(c.b), 48, func(lo, hi int) {
			e.Case(fmt.Sprintf("container/%s/at %d", c.name, lo), func(t *core.T) {
				for i := lo; i < hi; i++ {
					c17at(c.b, i, e.Thorough, func(name string, m []byte) {
						t.StateB(m)
						o := c17opt{idx: c.idx}
						if e.Thorough && i < 200 {
							o.ops = 1
						}
						c17use(t, name, m, o)
						if strings.HasPrefix(c.name, "EOT") {
							t.Try(name+": EOT", func() { font.ParseEOT(clone(m)) })
						} else if strings.HasPrefix(c.name, "WOFF") {
							t.Try(name+": WOFF", func() { font.ParseWOFF(clone(m)) })
							t.Try(name+": WOFF2", func() { font.ParseWOFF2(clone(m)) })
						}
						t.Trace()
					})
				}
			})
		})
		e.Case("container/"+c.name+"/length", func(t *core.T) {
			c17lens(c.b, func(name string, m []byte) {
				t.StateB(m)
				c17use(t, name, m, c17opt{idx: c.idx})
				// decoders called directly, whatever the signature
				t.Try(name+": decoders", func() {
					font.ParseEOT(clone(m))
					font.ParseWOFF(clone(m))
					font.ParseWOFF2(clone(m))
					font.ParseEmbeddedSFNT(clone(m), 0)
				})
				t.Trace()
			})
		})
		// pairs of faults in the header
		head := min(len(c.b), 100)
		for i := 0; i < head; i++ {
			e.Case(fmt.Sprintf("container/%s/pairs %d", c.name, i), func(t *core.T) {
				vals := []byte{0, 0x7F, 0xFF}
				if e.Thorough {
					vals = []byte{0, 1, 0x3F, 0x7F, 0x80, 0xFE, 0xFF}
				}
				for j := i + 1; j < head; j++ {
					for _, va := range vals {
						for _, vb := range vals {
							m := clone(c.b)
							m[i], m[j] = va, vb
							t.Trans(1)
							t.Try(fmt.Sprintf("bytes %d = %#x, %d = %#x", i, va, j, vb), func() {
								for _, ix := range append([]int{0}, c.idx...) {
									if f, err := font.ParseSFNT(m, ix); err == nil {
										f.Write()
										f.GlyphBounds(1)
									}
								}
							})
						}
					}
				}
			})
		}
	}
	// declared lengths of the WOFF2 directory, and transformed tables cut
	for _, w := range w2 {
		build := func(edit func(tag string, b []byte, orig, tl int) ([]byte, int, int)) []byte {
			o := w.o
			o.Edit = edit
			return ref.BuildWOFF2(w.s.version, slim(w.s), o)
		}
		type fld struct {
			tag string
			tl  bool
			n   int
		}
		var fs []fld
		trans := map[string][]byte{}
		build(func(tag string, b []byte, orig, tl int) ([]byte, int, int) {
			fs = append(fs, fld{tag, false, orig})
			if tl >= 0 {
				fs = append(fs, fld{tag, true, tl})
				trans[tag] = clone(b)
			}
			return b, orig, tl
		})
		vals := func(f fld) []int {
			return []int{0, 1, f.n - 1, f.n + 1, f.n + 2, 2 * f.n, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFC, 0xFFFFFFFF, 1<<32 - f.n}
		}
		for i, a := range fs {
			e.Case(fmt.Sprintf("directory/%s/%d", w.name, i), func(t *core.T) {
				for j := i; j < len(fs); j++ {
					for _, va := range vals(a) {
						for _, vb := range append(vals(fs[j]), 1<<32-va+a.n+fs[j].n, a.n+fs[j].n-va) {
							if i == j && va != vb || vb < 0 || vb >= 1<<32 || va < 0 || va >= 1<<32 {
								continue
							}
							m := build(func(tag string, b []byte, orig, tl int) ([]byte, int, int) {
								for k, f := range []fld{a, fs[j]} {
									if f.tag == tag && f.tl {
										tl = []int{va, vb}[k]
									} else if f.tag == tag {
										orig = []int{va, vb}[k]
									}
								}
								return b, orig, tl
							})
							t.StateB(m)
							c17use(t, fmt.Sprintf("%s %v = %#x, %s %v = %#x", a.tag, a.tl, va, fs[j].tag, fs[j].tl, vb), m, c17opt{})
							t.Trace()
						}
					}
				}
			})
		}
		for tag, b := range trans {
			e.Case(fmt.Sprintf("transformed/%s/%s", w.name, tag), func(t *core.T) {
				put := func(name string, m []byte) {
					f := build(func(tg string, b []byte, orig, tl int) ([]byte, int, int) {
						if tg == tag {
							return m, orig, len(m)
						}
						return b, orig, tl
					})
					t.StateB(f)
					c17use(t, fmt.Sprintf("transformed %s %s", tag, name), f, c17opt{})
					t.Trace()
				}
				c17lens(b, put)
				if tag != "glyf" {
					return
				}
				// every stream cut to every length, the header says so
				off := 36
				for s := 0; s < 7; s++ {
					n := int(binary.BigEndian.Uint32(b[8+4*s:]))
					for k := -n; k <= 8; k++ {
						m := append(clone(b[:off+min(n, n+k)]), make([]byte, max(0, k))...)
						m = append(m, b[off+n:]...)
						binary.BigEndian.PutUint32(m[8+4*s:], uint32(n+k))
						put(fmt.Sprintf("stream %d of %d bytes", s, n+k), m)
						// the lost bytes given to another stream
						for s2 := 0; s2 < 7; s2++ {
							m := clone(b)
							n2 := int(binary.BigEndian.Uint32(b[8+4*s2:]))
							if s2 != s && n2-k >= 0 {
								binary.BigEndian.PutUint32(m[8+4*s:], uint32(n+k))
								binary.BigEndian.PutUint32(m[8+4*s2:], uint32(n2-k))
								put(fmt.Sprintf("stream %d of %d bytes, %d of %d", s, n+k, s2, n2-k), m)
							}
						}
					}
					off += n
				}
			})
		}
	}
	// faults in the uncompressed data of WOFF2, and in the compressed data of WOFF tables
	for _, w := range w2 {
		var plain []byte
		o := w.o
		o.Stream = func(b []byte) []byte { plain = clone(b); return b }
		ref.BuildWOFF2(w.s.version, slim(w.s), o)
		pack := func(b []byte) []byte {
			o := w.o
			o.Stream = func([]byte) []byte { return b }
			return ref.BuildWOFF2(w.s.version, slim(w.s), o)
		}
		chunk(len(plain), 32, func(lo, hi int) {
			e.Case(fmt.Sprintf("stream/%s/at %d", w.name, lo), func(t *core.T) {
				for i := lo; i < hi; i++ {
					c17at(plain, i, e.Thorough, func(name string, m []byte) {
						t.StateB(m)
						c17use(t, "stream "+name, pack(m), c17opt{})
						t.Trace()
					})
				}
			})
		})
		e.Case("stream/"+w.name+"/length", func(t *core.T) {
			c17lens(plain, func(name string, m []byte) {
				c17use(t, "stream "+name, pack(m), c17opt{})
				t.Trace()
			})
		})
	}
}

// c17text damages AFM files.
func c17text(e *core.Env) {
	base := "StartFontMetrics 4.1\nFontName Foo-Bar\nFullName Foo Bar\nFamilyName Foo\nWeight Bold\nItalicAngle -12\nIsFixedPitch false\nFontBBox -166 -225 1000 931\nUnderlinePosition -100\nUnderlineThickness 50\nEncodingScheme AdobeStandardEncoding\nCapHeight 718\nXHeight 523\nAscender 718\nDescender -207\nStdHW 76\nStdVW 88\nStartCharMetrics 4\nC 32 ; WX 278 ; N space ; B 0 0 0 0 ;\nC 65 ; WX 667 ; N A ; B 14 0 654 718 ; L f fi ;\nC 66 ; WX 668 ; N B ; B 14 0 654 719 ;\nC -1 ; WX 556 ; N Aacute ; B 14 0 654 929 ;\nEndCharMetrics\nStartKernData\nStartKernPairs 2\nKPX A B -40\nKPX B A -60\nEndKernPairs\nEndKernData\nEndFontMetrics\n"
	use := func(t *core.T, step, s string) {
		t.Trans(1)
		t.Try(step, func() {
			a, err := font.ParseAFM([]byte(s))
			if err != nil {
				return
			}
			a.NumGlyphs()
			for _, g := range c17ids {
				a.GlyphName(g)
				a.GlyphAdvance(g)
				a.GlyphBounds(g)
				for _, h := range c17ids {
					a.Kerning(g, h)
				}
			}
			for _, r := range c17runes {
				a.GlyphIndex(r)
			}
			for _, n := range []string{"", "A", "B", ".notdef", "Aacute", "zz"} {
				a.FindGlyphName(n)
			}
		})
		t.StateB([]byte(s))
		t.Trace()
	}
	chunk(len(base), 48, func(lo, hi int) {
		e.Case(fmt.Sprintf("AFM/at %d", lo), func(t *core.T) {
			for i := lo; i < hi; i++ {
				for v := 0; v < 256; v++ {
					if !e.Thorough && v > 0x7F && v != 0xFF || byte(v) == base[i] {
						continue
					}
					use(t, fmt.Sprintf("byte %d = %#x", i, v), base[:i]+string([]byte{byte(v)})+base[i+1:])
				}
				use(t, fmt.Sprintf("cut to %d", i), base[:i])
				use(t, fmt.Sprintf("byte %d removed", i), base[:i]+base[i+1:])
				for _, x := range []string{"\n", " ", ";", "-", "9999999999", "\r", "\x00", "<", "C "} {
					use(t, fmt.Sprintf("%q inserted at %d", x, i), base[:i]+x+base[i:])
				}
			}
		})
	})
	lines := strings.Split(base, "\n")
	for i := range lines {
		e.Case(fmt.Sprintf("AFM/line %d", i), func(t *core.T) {
			cut := func(ls ...string) string { return strings.Join(ls, "\n") }
			del := append(append([]string{}, lines[:i]...), lines[i+1:]...)
			use(t, "line removed", cut(del...))
			use(t, "line twice", cut(append(append(append([]string{}, lines[:i]...), lines[i], lines[i]), lines[i+1:]...)...))
			for j := range del {
				use(t, fmt.Sprintf("line removed, and line %d", j), cut(append(append([]string{}, del[:j]...), del[j+1:]...)...))
				use(t, fmt.Sprintf("line moved to %d", j), cut(append(append(append([]string{}, del[:j]...), lines[i]), del[j:]...)...))
			}
			// every token replaced
			tok := strings.Fields(lines[i])
			for k := range tok {
				for _, v := range []string{"", "0", "-1", "65535", "65536", "2147483647", "2147483648", "-2147483648", "9223372036854775807", "9223372036854775808", "1e400", "-1e400", "NaN", "Inf", "<FFFF>", "<0041>", "x", "true", ";", ".", "-", strings.Repeat("9", 400)} {
					tk := append([]string{}, tok...)
					tk[k] = v
					ls := append([]string{}, lines...)
					ls[i] = strings.Join(tk, " ")
					use(t, fmt.Sprintf("token %d = %q", k, v[:min(len(v), 30)]), cut(ls...))
				}
				ls := append([]string{}, lines...)
				ls[i] = strings.Join(tok[:k], " ")
				use(t, fmt.Sprintf("line cut to %d tokens", k), cut(ls...))
			}
		})
	}
}
