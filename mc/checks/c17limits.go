package checks

import (
	"encoding/binary"
	"fmt"

	"verifmc/core"
	"verifmc/ref"
)

// c17limits uses files of which sizes and counts are at the largest values the format can express.
func c17limits(e *core.Env, other map[bool][]wRoot) {
	c17limitFonts(e.Case, func(name string, cff bool, b func() []byte) {
		e.Case("limits/"+name, func(t *core.T) {
			m := b()
			t.StateB(m)
			o := c17opt{ops: 2, woff2: true, other: other[cff]}
			c17use(t, name, m, o)
			t.Trace()
		})
	}, other)
}

// c17limitFonts calls use for each font file at a limit, and kase for the cases of damaged parts.
func c17limitFonts(kase func(name string, fn func(t *core.T)), use func(name string, cff bool, b func() []byte), other map[bool][]wRoot) {
	font := func(name string, cff bool, f func() *ref.Font) { use(name, cff, func() []byte { return f().SFNT() }) }

	// simple glyphs by number of points
	pts := func(ends []int, flags []byte, tail int) []byte {
		w := &w17{}
		w.u16(len(ends)).u16(0).u16(0).u16(100).u16(100)
		for _, x := range ends {
			w.u16(x)
		}
		w.u16(0)
		w.b = append(w.b, flags...)
		w.b = append(w.b, make([]byte, tail)...)
		return w.b
	}
	rep := func(n int, f byte) (out []byte) {
		for n > 0 {
			k := min(n, 256)
			out = append(out, f|0x08, byte(k-1))
			n -= k
		}
		return
	}
	ttf := func(gs ...ref.Glyph) *ref.Font { return ttFont(append(plain(2), gs...)) }
	for _, ends := range [][]int{{0xFFFF}, {0xFFFE}, {0, 0xFFFF}, {0x7FFF, 0xFFFF}, {0x7FFF, 0x8000, 0xFFFF}, {0x7FFF}, {0x8000}, {0xFFFE, 0xFFFF}, {0xFFFF, 0xFFFF}, {0xFFFF, 0}, {5, 4}, {0, 0}} {
		for _, f := range []byte{0x31, 0x30, 0x37, 0x01} {
			n := ends[len(ends)-1] + 1
			tail := 0
			if f&2 != 0 {
				tail += 2 * n
			} else if f&0x30 == 0 {
				tail += 4 * n
			}
			font(fmt.Sprintf("points %v flag %#x", ends, f), false, func() *ref.Font {
				return ttf(ref.Glyph{Raw: pts(ends, rep(n, f), tail)}, ref.Glyph{Comps: []ref.Component{{GID: 2}, {GID: 2, Dx: 4}}}, ref.Glyph{Comps: []ref.Component{{GID: 3}, {GID: 3, Dx: 4}}})
			})
		}
	}
	// contours by number
	for _, n := range []int{0x7FFF, 0x7FFE, 0x8000} {
		font(fmt.Sprintf("contours %d", n), false, func() *ref.Font {
			ends := make([]int, n)
			for i := range ends {
				ends[i] = 2 * i
			}
			return ttf(ref.Glyph{Raw: pts(ends, rep(2*n, 0x37), 4*n)}, ref.Glyph{Comps: []ref.Component{{GID: 2}, {GID: 2, Dx: 4}, {GID: 1, Dx: 4}}})
		})
	}
	// instructions by length
	for _, n := range []int{0x7FFF, 0x8000, 0xFFFF} {
		font(fmt.Sprintf("instructions %d", n), false, func() *ref.Font {
			return ttf(ref.Glyph{Contours: [][]ref.Point{sq(1, 1, 9)}, Instr: make([]byte, n), HasInstr: true}, ref.Glyph{Comps: []ref.Component{{GID: 1}}, Instr: make([]byte, n), HasInstr: true})
		})
	}
	// chains and cycles of composites
	for _, n := range []int{5, 6, 7, 8, 9, 10, 100, 1000} {
		font(fmt.Sprintf("composite chain %d", n), false, func() *ref.Font {
			var gs []ref.Glyph
			for i := 0; i < n; i++ {
				gs = append(gs, ref.Glyph{Comps: []ref.Component{{GID: uint16(i + 1), Dx: 1}}})
			}
			return ttf(gs...)
		})
		font(fmt.Sprintf("composite chain to a missing glyph %d", n), false, func() *ref.Font {
			var gs []ref.Glyph
			for i := 0; i < n; i++ {
				gs = append(gs, ref.Glyph{Comps: []ref.Component{{GID: uint16(i + 3), Dx: 1}}})
			}
			return ttf(gs...)
		})
	}
	for n := 1; n <= 4; n++ {
		font(fmt.Sprintf("composite cycle %d", n), false, func() *ref.Font {
			var gs []ref.Glyph
			for i := 0; i < n; i++ {
				gs = append(gs, ref.Glyph{Comps: []ref.Component{{GID: uint16((i+1)%n + 2), Dx: 1}}})
			}
			f := ttf(gs...)
			return f
		})
	}
	font("composite of many", false, func() *ref.Font {
		var cs []ref.Component
		for i := 0; i < 40000; i++ {
			cs = append(cs, ref.Component{GID: 1})
		}
		return ttf(ref.Glyph{Comps: cs})
	})
	for _, g := range []uint16{0, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF} {
		font(fmt.Sprintf("component %d", g), false, func() *ref.Font { return ttf(ref.Glyph{Comps: []ref.Component{{GID: g}, {GID: 1}}}) })
	}
	// glyphs by number
	for _, n := range []int{1, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF} {
		font(fmt.Sprintf("glyphs %d", n), false, func() *ref.Font {
			gs := plain(2)
			for len(gs) < n {
				gs = append(gs, ref.Glyph{})
			}
			gs = gs[:n]
			gs[n-1] = ref.Glyph{Comps: []ref.Component{{GID: uint16(n - 1)}}}
			f := ttFont(gs)
			f.LongLoca = true
			f.PostVer = 3
			return f
		})
		font(fmt.Sprintf("charstrings %d", n), true, func() *ref.Font {
			cs := make([][]byte, n)
			for i := range cs {
				cs[i] = []byte{14}
			}
			f := cffSrcFont(cs, ref.CFFInfo{})
			f.PostVer = 3
			return f
		})
		font(fmt.Sprintf("CID charstrings %d", n), true, func() *ref.Font {
			cs := make([][]byte, n)
			fd := make([]byte, n)
			for i := range cs {
				cs[i] = []byte{14}
				fd[i] = byte(i % 2)
			}
			f := cffSrcFont(cs, ref.CFFInfo{CID: true, FDSelect: fd, FDFormat: 3, FDLocal: [][][]byte{{{11}}, {{11}}}})
			f.PostVer = 3
			return f
		})
	}
	// charstrings without end, of deep and wide calls, of full stacks
	call := func(name string, cs []byte, ci ref.CFFInfo) {
		font("charstring "+name, true, func() *ref.Font { return cffSrcFont([][]byte{{14}, cs, ref.CS(1, 2, "rmoveto", "endchar")}, ci) })
	}
	self := ref.CS(-107, "callsubr", "return")
	call("endless local", ref.CS(-107, "callsubr", "endchar"), ref.CFFInfo{Local: [][]byte{self}})
	call("endless global", ref.CS(-107, "callgsubr", "endchar"), ref.CFFInfo{Global: [][]byte{ref.CS(-107, "callgsubr", "return")}})
	call("endless both", ref.CS(-107, "callgsubr", "endchar"), ref.CFFInfo{Global: [][]byte{self}, Local: [][]byte{ref.CS(-107, "callgsubr", "return")}})
	for _, n := range []int{9, 10, 11, 12, 40} {
		var ls [][]byte
		for i := 0; i < n; i++ {
			ls = append(ls, ref.CS(i+1-107, "callsubr", "return"))
		}
		ls = append(ls, ref.CS(4, 5, "rlineto", "return"))
		call(fmt.Sprintf("depth %d", n), ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar"), ref.CFFInfo{Local: ls})
	}
	for _, n := range []int{0, 1, 1239, 1240, 33899, 33900, 65535} {
		for _, k := range []int{-32768, -1131, -107, 0, 107, 1131, 32767} {
			ls := make([][]byte, n)
			for i := range ls {
				ls[i] = []byte{11}
			}
			if k != -107 && n > 1240 {
				continue
			}
			call(fmt.Sprintf("local %d of %d", k, n), append(append([]byte{}, ref.Num28(k)...), 10, 14), ref.CFFInfo{Local: ls})
			call(fmt.Sprintf("global %d of %d", k, n), append(append([]byte{}, ref.Num28(k)...), 29, 14), ref.CFFInfo{Global: ls})
		}
	}
	// every operator with every number of operands
	for op := 0; op < 32; op++ {
		op := op
		if op == 28 {
			continue
		}
		kase(fmt.Sprintf("limits/operator %d", op), func(t *core.T) {
			for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 47, 48, 49, 96, 97, 513} {
				var cs []byte
				for i := 0; i < n; i++ {
					cs = append(cs, ref.Num(i%5-2)...)
				}
				subs := []int{-1}
				if op == 12 {
					subs = nil
					for i := 0; i < 40; i++ {
						subs = append(subs, i)
					}
				}
				for _, sub := range subs {
					for _, pre := range [][]byte{nil, ref.CS(1, 2, "rmoveto"), ref.CS(1, 2, "hstemhm", 3, 4), ref.CS(1, 2, 3, "vstemhm", "hintmask", []byte{0x80})} {
						m := append(append([]byte{}, pre...), cs...)
						m = append(m, byte(op))
						if sub >= 0 {
							m = append(m, byte(sub))
						}
						for _, post := range [][]byte{nil, {14}, {1, 14}, ref.CS(1, 2, "rlineto", "endchar")} {
							m := append(append([]byte{}, m...), post...)
							f := cffSrcFont([][]byte{{14}, m}, ref.CFFInfo{Local: [][]byte{{11}}, Global: [][]byte{{11}}})
							b := f.SFNT()
							t.StateB(b)
							o := c17opt{other: other[true][:1]}
							if n < 6 || n == 48 {
								o.ops = 1
							}
							c17use(t, fmt.Sprintf("%d operands, operator %d %d", n, op, sub), b, o)
							t.Trace()
						}
					}
				}
			}
		})
	}
	// name tables
	for _, n := range []int{0xFFFF, 0x8000, 40000} {
		font(fmt.Sprintf("names of %d bytes", n), false, func() *ref.Font {
			f := ttf()
			f.NameRecs = []ref.NameRec{{Platform: 3, Encoding: 1, Language: 0x409, Name: 1, Value: make([]byte, n)}, {Platform: 3, Encoding: 1, Language: 0x409, Name: 2, Value: make([]byte, n)}, {Platform: 1, Encoding: 0, Name: 4, Value: make([]byte, 5)}}
			return f
		})
	}
	for _, n := range []int{5460, 5461, 0x7FFF, 0xFFFF} {
		font(fmt.Sprintf("names %d", n), false, func() *ref.Font {
			f := ttf()
			w := &w17{}
			w.u16(0).u16(n).u16(6 + 12*n)
			for i := 0; i < n; i++ {
				w.u16(3).u16(1).u16(0x409).u16(i).u16(0).u16(0)
			}
			f.Extra = map[string][]byte{"name": w.b}
			return f
		})
	}
	// numbers of tables
	for _, n := range []int{100, 255, 256, 1000, 4080, 4085, 4095, 4096, 4097, 8192, 60000} {
		use(fmt.Sprintf("tables %d", n), false, func() []byte {
			ts := ttf().Tables()
			for i := 0; len(ts) < n; i++ {
				ts[fmt.Sprintf("%04X", i)] = []byte{1, 2, 3, 4}
			}
			return ref.BuildSFNT("\x00\x01\x00\x00", ts)
		})
		use(fmt.Sprintf("WOFF tables %d", n), false, func() []byte {
			ts := ttf().Tables()
			for i := 0; len(ts) < n; i++ {
				ts[fmt.Sprintf("%04X", i)] = []byte{1, 2, 3, 4}
			}
			return ref.BuildWOFF("\x00\x01\x00\x00", ts, ref.WOFFOpts{})
		})
		use(fmt.Sprintf("WOFF2 tables %d", n), false, func() []byte {
			ts := ttf().Tables()
			delete(ts, "DSIG")
			for i := 0; len(ts) < n; i++ {
				ts[fmt.Sprintf("%04X", i)] = []byte{1, 2, 3, 4}
			}
			h := clone(ts["head"])
			h[16] |= 8
			ts["head"] = h
			return ref.BuildWOFF2("\x00\x01\x00\x00", ts, ref.W2Opts{})
		})
	}
	// character maps
	cm := func(name string, subs []ref.CmapSub, recs []ref.CmapRec) {
		font("cmap "+name, false, func() *ref.Font {
			f := ttFont(plain(4))
			f.Subs, f.Recs = subs, recs
			return f
		})
	}
	seg := func(n int, ro func(i int) int) ref.CmapSub {
		w := &w17{}
		l := 16 + 8*n
		w.u16(4).u16(l & 0xFFFF).u16(0).u16(2 * n).u16(0).u16(0).u16(0)
		for i := 0; i < n; i++ {
			if i == n-1 {
				w.u16(0xFFFF)
			} else {
				w.u16(i * 2)
			}
		}
		w.u16(0)
		for i := 0; i < n; i++ {
			if i == n-1 {
				w.u16(0xFFFF)
			} else {
				w.u16(i * 2)
			}
		}
		for i := 0; i < n; i++ {
			w.u16(1 - i*2)
		}
		for i := 0; i < n; i++ {
			w.u16(ro(i))
		}
		return ref.CmapSub{Raw: w.b}
	}
	for _, n := range []int{1, 100, 4095, 4096, 8189, 8190} {
		for k, ro := range []func(i int) int{func(int) int { return 0 }, func(i int) int { return 2 * (n - i) }, func(int) int { return 0xFFFF }, func(int) int { return 0xFFFE }, func(int) int { return 1 }} {
			cm(fmt.Sprintf("segments %d, %d", n, k), []ref.CmapSub{seg(n, ro)}, []ref.CmapRec{{Platform: 3, Encoding: 1}})
		}
	}
	full := map[rune]uint16{}
	for r := rune(0); r < 0xFFFF; r++ {
		full[r] = uint16(r%3 + 1)
	}
	cm("format 12 groups", []ref.CmapSub{{Format: 12, Map: full}}, []ref.CmapRec{{Platform: 3, Encoding: 10}})
	cm("format 6 entries", []ref.CmapSub{{Raw: func() []byte {
		w := &w17{}
		w.u16(6).u16(0xFFFE).u16(0).u16(0).u16(32762)
		for i := 0; i < 32762; i++ {
			w.u16(i % 4)
		}
		return w.b
	}()}}, []ref.CmapRec{{Platform: 3, Encoding: 1}})
	for _, g := range [][][3]uint32{{{0, 0xFFFFFFFF, 0}}, {{0, 0x10FFFF, 0xFFFFFFFF}}, {{0xFFFFFFFF, 0xFFFFFFFF, 1}}, {{0x7FFFFFFE, 0x80000001, 1}}, {{0, 0, 0xFFFFFFFF}, {1, 0x10FFFF, 1}}, {{5, 4, 1}}, {{0, 0x7FFFFFFF, 0}, {0x80000000, 0xFFFFFFFF, 0}}, {{0, 0x10FFFF, 0xFFFF0000}}} {
		cm(fmt.Sprintf("groups %x", g), []ref.CmapSub{{Format: 12, Groups: g}}, []ref.CmapRec{{Platform: 3, Encoding: 10}})
	}
	// kerning
	for _, n := range []int{0, 1, 10920, 10921, 10922, 65535} {
		font(fmt.Sprintf("kern pairs %d", n), false, func() *ref.Font {
			f := ttFont(plain(4))
			w := &w17{}
			w.u16(0).u16(1).u16(0).u16((14 + 6*n) & 0xFFFF).u16(1).u16(n).u16(0).u16(0).u16(0)
			for i := 0; i < n; i++ {
				w.u16(i >> 8).u16(i & 255).u16(i)
			}
			f.Extra = map[string][]byte{"kern": w.b}
			return f
		})
		font(fmt.Sprintf("kern tables %d", n), false, func() *ref.Font {
			f := ttFont(plain(4))
			w := &w17{}
			w.u16(0).u16(n)
			for i := 0; i < n; i++ {
				w.u16(0).u16(14).u16(1).u16(0).u16(0).u16(0).u16(0)
			}
			f.Extra = map[string][]byte{"kern": w.b}
			return f
		})
	}
	// post names
	for _, n := range []int{257, 258, 259, 32767, 32768, 65535} {
		font(fmt.Sprintf("post index %d", n), false, func() *ref.Font {
			f := ttFont(plain(3))
			w := &w17{}
			w.u32(0x20000).u32(0).u32(0).u32(0).u32(0).u32(0).u32(0).u32(0).u16(3).u16(0).u16(n).u16(n - 1)
			w.b = append(w.b, 0, 0, 255)
			f.Extra = map[string][]byte{"post": w.b}
			return f
		})
	}
	// pairs of damages in glyph data: every byte pair of a simple and a composite glyph
	simple := pts([]int{2, 5}, []byte{0x37, 0x09, 1, 0x33, 0x24, 0x01}, 12)
	comp := (&ref.Font{Glyphs: []ref.Glyph{{}, {}, {Comps: []ref.Component{{GID: 1, Kind: 3, M: [4]int16{1, 2, 3, 4}, Words: true}, {GID: 1, Dx: 3}}, Instr: []byte{1, 2}, HasInstr: true}}}).GlyphData(2)
	vals := []byte{0, 1, 0x08, 0x20, 0x7F, 0x80, 0xFF}
	for k, g := range [][]byte{simple, comp} {
		for i := range g {
			kase(fmt.Sprintf("limits/glyph %d pairs %d", k, i), func(t *core.T) {
				for j := i + 1; j < len(g); j++ {
					for _, a := range vals {
						for _, b := range vals {
							m := clone(g)
							m[i], m[j] = a, b
							f := ttf(ref.Glyph{Raw: m}).SFNT()
							t.StateB(f)
							c17use(t, fmt.Sprintf("glyph bytes %d = %#x, %d = %#x", i, a, j, b), f, c17opt{ops: 1, woff2: true})
							t.Trace()
						}
					}
				}
			})
		}
	}

	// parts of tables cut, what surrounds them says so
	cut := func(name string, cff bool, n int, f func(k int) *ref.Font) {
		kase("cut/"+name, func(t *core.T) {
			for k := 0; k <= n; k++ {
				b := f(k).SFNT()
				t.StateB(b)
				c17use(t, fmt.Sprintf("%s cut to %d", name, k), b, c17opt{ops: 1, woff2: true, other: other[cff][:1]})
				t.Trace()
			}
		})
	}
	data := func(g ref.Glyph) []byte {
		f := &ref.Font{Glyphs: append(plain(2), g)}
		return f.GlyphData(2)
	}
	glyphs := [][]byte{simple, comp,
		data(ref.Glyph{Contours: [][]ref.Point{sq(3, 4, 5), sq(-300, 40, 500)}, Instr: []byte{7, 8, 9}, HasInstr: true}),
		data(ref.Glyph{Contours: [][]ref.Point{sq(3, 4, 5)}, NoCompress: true}),
		data(ref.Glyph{Comps: []ref.Component{{GID: 1, Kind: 1}, {GID: 1, Dx: 3, Kind: 2}, {GID: 1, Dx: 300, Kind: 3}}}),
		data(ref.Glyph{Comps: []ref.Component{{GID: 1, Dx: 300}}, Instr: []byte{1, 2, 3, 4}, HasInstr: true})}
	for i, g := range glyphs {
		for _, last := range []bool{false, true} {
			cut(fmt.Sprintf("glyph %d, last %v", i, last), false, len(g), func(k int) *ref.Font {
				// the offsets are given verbatim, no padding
				f := ttf(ref.Glyph{}, ref.Glyph{Comps: []ref.Component{{GID: 2}}})
				f.LongLoca = true
				ts := f.Tables()
				glyf := clone(ts["glyf"])
				loca := clone(ts["loca"])
				at := int(binary.BigEndian.Uint32(loca[8:]))
				head, tail := glyf[:at], glyf[at:]
				if last {
					head, tail = glyf, nil
				}
				out := append(append(clone(head), g[:k]...), tail...)
				put := func(i, v int) { binary.BigEndian.PutUint32(loca[4*i:], uint32(v)) }
				if last { // glyph 3 is the last
					put(2, at)
					put(3, len(head))
					put(4, len(head)+k)
				} else {
					put(3, at+k)
					put(4, len(out))
				}
				f.Extra = map[string][]byte{"glyf": out, "loca": loca}
				return f
			})
		}
	}
	// character maps, with the length in the subtable patched
	m := map[rune]uint16{'A': 1, 'B': 2, 'D': 1, 0x300: 2}
	for i, s := range []ref.CmapSub{{Format: 0, Map: map[rune]uint16{'A': 1, 'B': 2}}, {Format: 4, Map: m}, {Format: 4, Map: m, GlyphArray: true, DeltaOnArr: 1}, {Format: 6, Map: map[rune]uint16{'A': 1, 'C': 2}}, {Format: 12, Map: m},
		{Raw: (&w17{}).u16(14).u32(10 + 11 + 4 + 4 + 4 + 5).u32(1).u24(0xFE00).u32(21).u32(29).u32(1).u24('A').u8(1).u32(1).u24('B').u16(2).b}} {
		b := ref.EncodeCmapSub(s)
		for _, tail := range []int{0, 1, 40} {
			cut(fmt.Sprintf("cmap subtable %d, %d", i, tail), false, len(b), func(k int) *ref.Font {
				f := ttFont(plain(3))
				w := &w17{}
				w.u16(0).u16(1).u16(3).u16(1).u32(12)
				c := clone(b[:k])
				switch v := b[1]; {
				case v == 12 && k >= 8:
					binary.BigEndian.PutUint32(c[4:], uint32(k))
				case v == 14 && k >= 6:
					binary.BigEndian.PutUint32(c[2:], uint32(k))
				case v < 12 && k >= 4:
					binary.BigEndian.PutUint16(c[2:], uint16(k))
				}
				w.b = append(append(w.b, c...), make([]byte, tail)...)
				f.Extra = map[string][]byte{"cmap": w.b}
				return f
			})
		}
	}
	// charstrings and subroutines
	prog := ref.CS(500, 1, 2, "hstemhm", 3, 4, "vstemhm", "hintmask", []byte{0x80}, 10, 20, "rmoveto", -107, "callsubr", 1, 2, 3, 4, 5, 6, "rrcurveto", 1000, -107, "callgsubr", ref.Num255(70000), "hlineto", 1, 2, 3, 4, 5, 6, 7, "hflex", 1, 2, 3, 4, 5, 6, 7, 8, 9, "hflex1", "endchar")
	sub := ref.CS(8, 9, "rlineto", ref.Num28(300), 1, "rlineto", "return")
	cut("charstring", true, len(prog), func(k int) *ref.Font {
		return cffSrcFont([][]byte{{14}, prog[:k], prog}, ref.CFFInfo{Local: [][]byte{sub}, Global: [][]byte{sub}})
	})
	for _, local := range []bool{true, false} {
		cut(fmt.Sprintf("subroutine %v", local), true, len(sub), func(k int) *ref.Font {
			ci := ref.CFFInfo{Local: [][]byte{sub}, Global: [][]byte{sub[:k]}}
			if local {
				ci = ref.CFFInfo{Local: [][]byte{sub[:k]}, Global: [][]byte{sub}}
			}
			return cffSrcFont([][]byte{{14}, prog, prog}, ci)
		})
	}
	// every pair of bytes of a charstring at boundary values
	for i := range prog {
		kase(fmt.Sprintf("limits/charstring pairs %d", i), func(t *core.T) {
			for j := i + 1; j < len(prog); j++ {
				for _, a := range []byte{10, 19, 21, 28, 29, 255} {
					for _, b := range []byte{10, 11, 14, 28, 29, 31, 32, 139, 255} {
						c := clone(prog)
						c[i], c[j] = a, b
						f := cffSrcFont([][]byte{{14}, c}, ref.CFFInfo{Local: [][]byte{sub}, Global: [][]byte{sub}}).SFNT()
						t.StateB(f)
						c17use(t, fmt.Sprintf("charstring bytes %d = %d, %d = %d", i, a, j, b), f, c17opt{other: other[true][:1]})
						t.Trace()
					}
				}
			}
		})
	}
	// dictionaries: every operator with every kind of operands, in the top, private and font dictionaries
	for o := 0; o < 22+64; o++ {
		kase(fmt.Sprintf("limits/dict operator %d", o), func(t *core.T) {
			opb := []byte{byte(o)}
			if o >= 22 {
				opb = []byte{12, byte(o - 22)}
			}
			for _, n := range []int{0, 1, 2, 3, 6, 14, 47, 48, 49, 100} {
				for _, v := range []string{"\x8b", "\x8c", "\x1c\x80\x00", "\x1c\x7f\xff", "\x1d\x80\x00\x00\x00", "\x1d\x7f\xff\xff\xff", "\x1d\x00\x00\x10\x00", "\x1e\x0a\x5f", "\x1e\xff", "\x1e\x1b\x99\x9f", "\x1e\xee\xff", "\x1e\x1c\x99\x99\x99\x9f"} {
					var d []byte
					for i := 0; i < n; i++ {
						d = append(d, v...)
					}
					d = append(d, opb...)
					for k := 0; k < 4; k++ {
						ci := ref.CFFInfo{Local: [][]byte{sub}, TopExtra: d}
						switch k {
						case 1:
							ci = ref.CFFInfo{Local: [][]byte{sub}, PrivExtra: d}
						case 2:
							ci = ref.CFFInfo{CID: true, FDSelect: []byte{0, 0}, FDLocal: [][][]byte{{sub}}, TopExtra: d}
						case 3:
							ci = ref.CFFInfo{CID: true, FDSelect: []byte{0, 0}, FDLocal: [][][]byte{{sub}}, PrivExtra: d}
						}
						f := cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", -107, "callsubr", "endchar")}, ci).SFNT()
						t.StateB(f)
						c17use(t, fmt.Sprintf("%d operands %q, %d", n, v, k), f, c17opt{ops: 1, other: other[true][:1]})
						t.Trace()
					}
				}
			}
		})
	}
}
