package checks

import (
	"fmt"
	"strings"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

// C16: glyph names. Explicit-state exploration of sequences of the operations set names (from an
// alphabet of name lists), look a name up, subset, write+parse, over fonts of every name source.

type nameFont struct {
	id  string
	n   int
	cff bool
	b   []byte
	own []string // names of the font as built, nil: none
}

func nameFonts() []nameFont {
	var out []nameFont
	tt := func(id string, n, ver int, names []string) {
		f := &ref.Font{UPM: 1000, Glyphs: plain(n), PostVer: ver, Names: names, Italic: -12<<16 - 1<<14, UnderPos: -75, UnderThk: 50}
		f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
		if n == 1 {
			f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 0})
		}
		own := names
		if ver == 1 {
			own = ref.MacNames[:min(n, 258)]
		} else if ver == 3 {
			own = nil
		}
		out = append(out, nameFont{id, n, false, f.SFNT(), own})
	}
	custom := func(n int) []string {
		s := make([]string, n)
		s[0] = ".notdef"
		for i := 1; i < n; i++ {
			s[i] = fmt.Sprintf("own.%d", i)
		}
		return s
	}
	tt("v1x258", 258, 1, nil)
	tt("v1x3", 3, 1, nil)
	tt("v2x1", 1, 2, []string{".notdef"})
	tt("v2x3", 3, 2, []string{".notdef", "A", "own.x"})
	tt("v2x4dup", 4, 2, []string{".notdef", "own.x", "own.x", "B"})
	tt("v2x3empty", 3, 2, []string{".notdef", "own.x", ""})
	tt("v2x300", 300, 2, custom(300))
	tt("v3x3", 3, 3, nil)
	cff := func(id string, n, format int, names []string) {
		f := &ref.Font{CFF: true, UPM: 1000, PostVer: 3, Glyphs: make([]ref.Glyph, n), Adv: make([]uint16, n)}
		for i := range f.Glyphs {
			f.Glyphs[i].CS = ref.CS(10+i%200, 20, "rmoveto", 30, 40, "rlineto", 5, "hlineto", "endchar")
			f.Adv[i] = 500
		}
		f.C = ref.CFFInfo{Charset: names, CharsetFormat: format}
		f.Subs, f.Recs = cmap4(map[rune]uint16{'A': uint16(min(1, n-1))})
		own := names
		if format == 255 {
			own = ref.CFFStd[:n]
		}
		out = append(out, nameFont{id, n, true, f.SFNT(), own})
	}
	std := func(n, from int) []string { return append([]string{".notdef"}, ref.CFFStd[from:from+n-1]...) }
	cff("cff0x3", 3, 0, []string{".notdef", "A", "own.x"})
	cff("cff1x3", 3, 1, []string{".notdef", "own.x", "own.y"})
	cff("cff2x300", 300, 2, custom(300))
	cff("cffISOx5", 5, 255, nil)
	cff("cffstdx4", 4, 0, std(4, 34))
	cff("cff0x1", 1, 0, []string{".notdef"})
	return out
}

type nameList struct {
	id string
	fn func(n int) []string
}

func fill(n int, fn func(i int) string) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = fn(i)
	}
	return s
}

func nameLists() []nameList {
	nd := func(fn func(i, n int) string) func(n int) []string {
		return func(n int) []string {
			return fill(n, func(i int) string {
				if i == 0 {
					return ".notdef"
				}
				return fn(i, n)
			})
		}
	}
	return []nameList{
		{"fresh", nd(func(i, n int) string { return fmt.Sprintf("g%03d", i) })},
		{"mac", nd(func(i, n int) string { return ref.MacNames[(i*7+30)%258] })},
		{"macend", nd(func(i, n int) string { return ref.MacNames[258-1-(i-1)%258] })},
		{"std", nd(func(i, n int) string { return ref.CFFStd[(i*5+100)%391] })},
		{"stdend", nd(func(i, n int) string { return ref.CFFStd[390-(i-1)%391] })},
		{"dup", nd(func(i, n int) string { return fmt.Sprintf("d%d", i/2) })},
		{"same", nd(func(i, n int) string { return "same" })},
		{"rev", nd(func(i, n int) string { return fmt.Sprintf("own.%d", n-i) })},
		{"x", nd(func(i, n int) string { return []string{"own.x", "B", "A"}[i%3] })},
		{"empty", nd(func(i, n int) string {
			if i == n-1 {
				return ""
			}
			return fmt.Sprintf("e%d", i)
		})},
		{"allempty", func(n int) []string { return make([]string, n) }},
		{"bytes", nd(func(i, n int) string { return fmt.Sprintf("\xff\x80%c", i) })},
		{"len63", nd(func(i, n int) string { return fmt.Sprintf("%04d", i) + strings.Repeat("L", 59) })},
		{"len64", nd(func(i, n int) string {
			if i == n-1 {
				return strings.Repeat("M", 64)
			}
			return fmt.Sprintf("m%d", i)
		})},
		{"len300", nd(func(i, n int) string { return fmt.Sprintf("%04d", i) + strings.Repeat("N", 296) })},
		{"prefixes", nd(func(i, n int) string { return strings.Repeat("abcdefg", 9)[:1+(i-1)%63] })},
		{"prefixesrev", nd(func(i, n int) string { return strings.Repeat("abcdefg", 9)[:63-(i-1)%63] })},
		{"suffixesrev", nd(func(i, n int) string { return strings.Repeat("abcdefg", 9)[(i-1)%63:] })},
		{"joined", nd(func(i, n int) string { return strings.Repeat("x", 40)[:1+(i*i)%40] })},
		{"first", func(n int) []string { return fill(n, func(i int) string { return fmt.Sprintf("f%d", i) }) }},
		{"short", func(n int) []string { return fill(max(1, n/2), func(i int) string { return fmt.Sprintf("s%d", i) }) }},
		{"long", func(n int) []string { return fill(n+2, func(i int) string { return fmt.Sprintf("l%d", i) }) }},
		{"nil", func(n int) []string { return nil }},
	}
}

var nameProbes = []string{"", ".notdef", ".null", "A", "B", "own.x", "own.1", "own.2", "g001", "g002", "zcaron", "dcroat", "Delta", "d0", "d1", "same", "s0", "s1", "l0", "l1", "l3", "e1", "f0", "f1", "f2", "001.000", "Semibold", "Adobe", "nosuch", "\xff\x80\x01", "m1"}

type nameModel struct {
	names []string // name per glyph
	has   bool
}

func observeNames(f *font.SFNT) []string {
	return fill(int(f.NumGlyphs()), func(i int) string { return f.GlyphName(uint16(i)) })
}

func checkNames(t *core.T, nf *nameFont, f *font.SFNT, m []string, when string) bool {
	got := observeNames(f)
	if len(got) != len(m) {
		t.Fail("glyph count", "%s: %d glyphs, expected %d", when, len(got), len(m))
		return false
	}
	for i := range m {
		if got[i] != m[i] {
			t.Fail("name of glyph", "%s: glyph %d is named %q, expected %q", when, i, got[i], m[i])
			return false
		}
	}
	return checkFind(t, f, m, when)
}

func checkFind(t *core.T, f *font.SFNT, m []string, when string) bool {
	probes := nameProbes
	if len(m) > 0 {
		probes = append(append([]string{}, probes...), m[0], m[len(m)/2], m[len(m)-1], m[len(m)-1]+"x")
	}
	carry := map[string]bool{}
	for _, s := range m {
		carry[s] = true
	}
	for _, p := range probes {
		t.Trans(1)
		g := f.FindGlyphName(p)
		if carry[p] && (int(g) >= len(m) || m[g] != p) {
			t.Fail("lookup of a name", "%s: name %q found at glyph %d, which does not carry it", when, p, g)
			return false
		} else if !carry[p] && g != 0 {
			t.Fail("lookup of an absent name", "%s: name %q is carried by no glyph but found at glyph %d", when, p, g)
			return false
		}
	}
	return true
}

func init() {
	core.Register(&core.Check{ID: "C16", Run: runC16,
		Rule:        "after every explored sequence of set names, lookup, subset, write and parse, every glyph carries the name it was last given and each lookup returns a glyph that carries the name, 0 if none does",
		Assumptions: []string{"lists shorter than the number of glyphs leave the names of the other glyphs open, which must then stay as observed", "glyph 0 of a CFF font is always .notdef", "names of CID-keyed fonts are not explored"}})
}

func runC16(e *core.Env) {
	fonts, lists := nameFonts(), nameLists()
	type op struct {
		id string
		fn func(t *core.T, nf *nameFont, f *font.SFNT, m []string, seq string) (*font.SFNT, []string)
	}
	var ops []op
	ops = append(ops, op{"find", func(t *core.T, nf *nameFont, f *font.SFNT, m []string, seq string) (*font.SFNT, []string) {
		if !checkFind(t, f, m, seq) {
			return nil, nil
		}
		return f, m
	}})
	ops = append(ops, op{"reparse", func(t *core.T, nf *nameFont, f *font.SFNT, m []string, seq string) (*font.SFNT, []string) {
		g, err := font.ParseSFNT(f.Write(), 0)
		if err != nil {
			t.Fail("written font does not parse", "%s: %v", seq, err)
			return nil, nil
		}
		return g, m
	}})
	ops = append(ops, op{"subset", func(t *core.T, nf *nameFont, f *font.SFNT, m []string, seq string) (*font.SFNT, []string) {
		n := len(m)
		ids := []uint16{0}
		for i := n - 1; i > 0 && len(ids) < 4; i-- {
			ids = append(ids, uint16(i))
		}
		g, err := f.Subset(ids, font.SubsetOptions{Tables: font.KeepMinTables})
		if err != nil {
			t.Fail("subset fails", "%s: %v", seq, err)
			return nil, nil
		}
		m2 := make([]string, len(ids))
		if nf.cff {
			for i, id := range ids {
				m2[i] = m[id]
			}
		}
		return g, m2
	}})
	for _, l := range lists {
		ops = append(ops, op{l.id, func(t *core.T, nf *nameFont, f *font.SFNT, m []string, seq string) (*font.SFNT, []string) {
			n := len(m)
			names := l.fn(n)
			want := append([]string{}, names...)
			if len(want) > n {
				want = want[:n]
			}
			bad := false
			for _, s := range want {
				if !nf.cff && len(s) > 63 {
					bad = true
				}
			}
			given := append(make([]string, 0, len(names)+2), names...)
			if names == nil {
				given = nil
			}
			err := f.SetGlyphNames(given)
			for i := range given {
				given[i] = "clobbered"
			}
			if err != nil {
				if !bad && len(names) == n && (!nf.cff || n == 0 || want[0] == ".notdef") {
					t.Fail("setting names fails", "%s: %v", seq, err)
					return nil, nil
				}
				return f, m // refused, nothing may have changed
			}
			if bad {
				t.Fail("unstorable names accepted", "%s", seq)
				return nil, nil
			}
			if nf.cff && len(want) > 0 && want[0] != ".notdef" {
				want[0] = ".notdef"
			}
			if len(want) < n {
				// names of the remaining glyphs are not specified, but they must stay
				got := observeNames(f)
				if len(got) != n {
					t.Fail("glyph count", "%s: %d glyphs, expected %d", seq, len(got), n)
					return nil, nil
				}
				want = append(want, got[len(want):]...)
			}
			return f, want
		}})
	}

	depth := 3
	if e.Thorough {
		depth = 4
	}
	for fi := range fonts {
		nf := &fonts[fi]
		d := depth
		if nf.n > 10 {
			d = min(d, 3)
		}
		if nf.n > 10 && !e.Thorough {
			d = 2
		}
		for a := range ops {
			e.Case(fmt.Sprintf("%s/%s", nf.id, ops[a].id), func(t *core.T) {
				seq := make([]int, 0, d)
				var rec func()
				rec = func() {
					f, err := font.ParseSFNT(nf.b, 0)
					if err != nil {
						t.Fail("parse", "%v", err)
						return
					}
					m := append([]string{}, nf.own...)
					if nf.own == nil {
						m = make([]string, nf.n)
					}
					s := nf.id
					ok := true
					for _, o := range seq {
						s += " " + ops[o].id
						t.Trans(1)
						if f, m = ops[o].fn(t, nf, f, m, s); f == nil {
							ok = false
							break
						}
					}
					if ok && checkNames(t, nf, f, m, s) {
						t.Trace()
						t.State(s + strings.Join(m, "\x00"))
						t.State(strings.Join(m, "\x00"))
						// the bytes, by the reference reader
						b := f.Write()
						if rf, err := ref.ReadFont(b); err != nil {
							t.Fail("written font is malformed", "%s: %v", s, err)
							ok = false
						} else {
							got := rf.Names
							if nf.cff {
								got = rf.C.Charset
							}
							for i := range m {
								g := ""
								if i < len(got) {
									g = got[i]
								}
								if g != m[i] {
									t.Fail("stored name", "%s: glyph %d is stored with name %q, expected %q", s, i, g, m[i])
									ok = false
									break
								}
							}
							if g, err := font.ParseSFNT(b, 0); err != nil {
								t.Fail("written font does not parse", "%s: %v", s, err)
								ok = false
							} else if !nf.cff && (g.Post == nil || g.Post.ItalicAngle != f.Post.ItalicAngle || g.Post.UnderlinePosition != -75 || g.Post.UnderlineThickness != 50 || g.Post.ItalicAngle != -12.25) {
								t.Fail("post metrics", "%s: %v", s, g.Post)
								ok = false
							}
						}
					}
					if !ok || len(seq) == d {
						return
					}
					for o := range ops {
						seq = append(seq, o)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				seq = append(seq, a)
				rec()
			})
		}
	}

	// number of names at the limits of the name index
	for _, n := range []int{259, 32768, 32769, 65278, 65279, 65535} {
		if !e.Thorough && n == 32768 {
			continue
		}
		e.Case(fmt.Sprintf("many/%d", n), func(t *core.T) {
			f := &ref.Font{UPM: 1000, Glyphs: make([]ref.Glyph, n), PostVer: 3}
			f.Subs, f.Recs = cmap4(map[rune]uint16{'A': 1})
			s, err := font.ParseSFNT(f.SFNT(), 0)
			if err != nil {
				t.Fail("parse", "%v", err)
				return
			}
			names := fill(n, func(i int) string { return fmt.Sprintf("n%d", i) })
			err = s.SetGlyphNames(names)
			t.Trans(1)
			if n > 65536-258 {
				if err == nil {
					t.Fail("unstorable names accepted", "%d different names", n)
				}
				return
			} else if err != nil {
				t.Fail("setting names fails", "%d names: %v", n, err)
				return
			}
			g, err := font.ParseSFNT(s.Write(), 0)
			if err != nil {
				t.Fail("written font does not parse", "%v", err)
				return
			}
			for i := 0; i < n; i++ {
				if s.GlyphName(uint16(i)) != names[i] || g.GlyphName(uint16(i)) != names[i] || g.FindGlyphName(names[i]) != uint16(i) || s.FindGlyphName(names[i]) != uint16(i) {
					t.Fail("name of glyph", "%d names: glyph %d: %q, after parse %q", n, i, s.GlyphName(uint16(i)), g.GlyphName(uint16(i)))
					return
				}
			}
			t.Trace()
		})
	}
	e.Wait()
}
