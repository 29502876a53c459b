package checks

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"time"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

func init() {
	core.Register(&core.Check{ID: "C18", Run: c18, Workers: 1, CaseLimit: 60 * time.Second, MemLimit: 6 << 30,
		Rule:        "WOFF and WOFF2 files are enumerated over the configured memory limit (around the size of the font), the declared length of each table (around the actual length) and the actual length (one less, equal, one more, 64 MiB more), stored and compressed: a file is accepted iff what is declared is within the limit and equals what is there, and in no case is more memory requested than a small multiple of the limit and the file. Every graph of composite glyphs up to a number of glyphs and components (and of subroutines and calls), and towers of every depth and fan-out, are queried, subset, merged and written: graphs within the limits give exactly the number of points, cycles and deeper nesting an error, and nothing takes more than 20 s or 256 MiB. Fonts at the limits of every table are parsed within a multiple of their size.",
		Assumptions: []string{"memory is measured as the sum of all allocations of an operation, with a factor of 8 and a constant for the state of the decompressors", "time is measured with a limit of 20 s where some milliseconds are expected"}})
}

// c18measure runs fn (the check has one worker, nothing else runs), and fails if it requests more than maxAlloc bytes or takes more than 20 s.
func c18measure(t *core.T, sig, step string, maxAlloc uint64, fn func()) {
	t.Trans(1)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	start := time.Now()
	t.Try(step, fn)
	d := time.Since(start)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > maxAlloc {
		t.Fail(sig+"/memory", "%s: requests %d bytes of memory, expected at most %d", step, n, maxAlloc)
	}
	if d > 20*time.Second {
		t.Fail(sig+"/time", "%s: takes %v", step, d)
	}
}

const c18bomb = 64 << 20

func c18(e *core.Env) {
	c18woff(e)
	c18woff2(e)
	c18composites(e)
	c18subrs(e)
	// parsing takes memory proportional to the file
	c17limitFonts(func(string, func(t *core.T)) {}, func(name string, cff bool, build func() []byte) {
		e.Case("parse/"+name, func(t *core.T) {
			b := build()
			t.StateB(b)
			// containers are decompressed and parsed, each table is copied a few times
			c18measure(t, "parse", "parse "+name, 200*uint64(len(b))+4<<20, func() { font.ParseSFNT(b, 0) })
			t.Trace()
		})
	}, nil)
	c18overlap(e)
	c18whole(e)
	e.Wait()
}

// c18tables are tables of a font file of which only head is looked at.
func c18tables(n, m int, pattern bool) map[string][]byte {
	fill := func(n int) []byte {
		b := make([]byte, n)
		if pattern {
			for i := range b {
				b[i] = byte(i*i>>3 + i)
			}
		}
		return b
	}
	head := fill(54)
	copy(head, []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x5F, 0x0F, 0x3C, 0xF5, 8, 0})
	return map[string][]byte{"aaaa": fill(n), "head": head, "zzzz": fill(m)}
}

// zeros is what has to be appended for the bomb.
var zeros = make([]byte, c18bomb)

type c18file struct {
	b     []byte
	total int // declared size of the decompressed font
}

// c18woffFile builds a WOFF file that declares other lengths than those of the data.
func c18woffFile(tables map[string][]byte, stored bool, level int, tag string, extra, lie int) c18file {
	var tags []string
	for k := range tables {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	f := c18file{total: 12 + 16*len(tags)}
	dir, data := &w17{}, &w17{}
	for _, k := range tags {
		b := tables[k]
		decl := len(b)
		if k == tag {
			decl += lie
			if extra >= 0 {
				b = append(clone(b), zeros[:extra]...)
			} else {
				b = b[:len(b)+extra]
			}
		}
		f.total += (decl + 3) &^ 3
		c := b
		if !stored {
			var w bytes.Buffer
			z, _ := zlib.NewWriterLevel(&w, level)
			z.Write(b)
			z.Close()
			c = w.Bytes()
		}
		if len(c) >= decl {
			c = b // does not compress
		}
		pad := clone(b)
		for len(pad)%4 != 0 {
			pad = append(pad, 0)
		}
		if k == "head" {
			copy(pad[8:12], []byte{0, 0, 0, 0})
		}
		dir.b = append(dir.b, k...)
		dir.u32(44 + 20*len(tags) + len(data.b)).u32(len(c)).u32(decl).u32(int(ref.Checksum(pad)))
		data.b = append(data.b, c...)
		for len(data.b)%4 != 0 {
			data.b = append(data.b, 0)
		}
	}
	w := &w17{}
	w.b = append(w.b, "wOFF\x00\x01\x00\x00"...)
	w.u32(44 + 20*len(tags) + len(data.b)).u16(len(tags)).u16(0).u32(f.total).u16(1).u16(0).u32(0).u32(0).u32(0).u32(0).u32(0)
	f.b = append(append(w.b, dir.b...), data.b...)
	return f
}

// withLimit sets the configured limit while fn runs. It is used inside c18measure only.
func withLimit(n int64, fn func()) {
	old := font.MaxMemory
	defer func() { font.MaxMemory = old }()
	font.MaxMemory = uint32(n)
	fn()
}

func c18limits(total int) []int64 {
	return []int64{0, 1, int64(total) / 2, int64(total) - 4, int64(total) - 1, int64(total), int64(total) + 1, 2 * int64(total), 30 << 20, 1<<32 - 1}
}

func c18woff(e *core.Env) {
	for _, pattern := range []bool{false, true} {
		for _, size := range []int{1000, 300000} {
			for _, mode := range []int{-1, 1, 9} { // stored, or the level
				for _, tag := range []string{"aaaa", "head", "zzzz"} {
					e.Case(fmt.Sprintf("WOFF/%v/%d/%d/%s", pattern, size, mode, tag), func(t *core.T) {
						tables := c18tables(size, size/3+1, pattern)
						for _, extra := range []int{0, -1, 1, 4, 4096, c18bomb / 4} {
							for _, lie := range []int{0, 1, -1, 4, -4, 1000, 1 << 20, 1<<31 - 1 - 4*size} {
								if extra == c18bomb/4 && (mode == -1 || lie != 0 && lie != 1 && (lie != 1<<20 || mode == 9)) {
									continue
								}
								f := c18woffFile(tables, mode == -1, max(mode, 0), tag, extra, lie)
								t.StateB(f.b)
								for _, l := range c18limits(f.total) {
									if (extra == c18bomb/4 || lie > 40<<20) && l > 40<<20 { // allowed to take that much
										continue
									}
									var out []byte
									var err error
									step := fmt.Sprintf("table %s of %d bytes declares %d, limit %d, %d in total", tag, len(tables[tag])+extra, len(tables[tag])+lie, l, f.total)
									bound := 8*(uint64(min(int64(f.total), l))+uint64(len(f.b))) + 2<<20
									c18measure(t, "WOFF", step, bound, func() { withLimit(l, func() { out, err = font.ParseWOFF(f.b) }) })
									if ok := extra == lie && int64(f.total) <= l; ok != (err == nil) {
										t.Fail("WOFF/accept", "%s: gives error %v", step, err)
									} else if err == nil {
										if len(out) != f.total {
											t.Fail("WOFF/size", "%s: gives %d bytes", step, len(out))
										}
									}
								}
								t.Trace()
							}
						}
					})
				}
			}
		}
	}
}

func c18woff2(e *core.Env) {
	src := ttFont(plain(5))
	src.Glyphs[3] = ref.Glyph{Comps: []ref.Component{{GID: 1, Dx: 3}, {GID: 2, Dy: -300}}}
	base := src.Tables()
	h := clone(base["head"])
	h[16] |= 8
	base["head"] = h
	delete(base, "DSIG")
	for _, size := range []int{100, 200000} {
		for _, trans := range []bool{false, true} {
			for _, quality := range []int{1, 5} {
				for _, extra := range []int{0, -1, 1, 4096, c18bomb} {
					e.Case(fmt.Sprintf("WOFF2/%d/%v/%d/%d", size, trans, quality, extra), func(t *core.T) {
						tables := map[string][]byte{}
						for k, v := range base {
							tables[k] = v
						}
						tables["zzzz"] = make([]byte, size)
						want := 12 + 16*len(tables)
						for _, v := range tables {
							want += (len(v) + 3) &^ 3
						}
						for _, lie := range []int{0, -1, 1, 4096, 1 << 20, 1<<31 - 1 - 4*size} {
							if extra == c18bomb && lie > 4096 {
								continue
							}
							sum, actual := 0, 0
							o := ref.W2Opts{GlyfTransform: trans, Quality: quality}
							o.Edit = func(tag string, b []byte, orig, tl int) ([]byte, int, int) {
								if tag == "zzzz" {
									orig += lie
								}
								if tl >= 0 {
									sum += tl
								} else {
									sum += orig
								}
								actual += len(b)
								return b, orig, tl
							}
							o.Stream = func(b []byte) []byte {
								if extra >= 0 {
									return append(b, zeros[:extra]...)
								}
								return b[:len(b)+extra]
							}
							b := ref.BuildWOFF2("\x00\x01\x00\x00", tables, o)
							t.StateB(b)
							head := int(binary.BigEndian.Uint32(b[16:]))
							for _, hd := range []int{head, 0, 12, head + 5, 1<<32 - 1} {
								b := clone(b)
								binary.BigEndian.PutUint32(b[16:], uint32(hd))
								for _, l := range c18limits(sum) {
									if (extra == c18bomb || lie > 40<<20) && l > 40<<20 || hd == 1<<32-1 && l == 1<<32-1 { // allowed to take 4 GiB
										continue
									}
									var out []byte
									var err error
									step := fmt.Sprintf("last table of %d bytes declares %d, %d bytes too many in the stream, limit %d, %d in total, header says %d", size, size+lie, extra, l, sum, hd)
									lim := min(int64(max(sum, hd)), l)
									c18measure(t, "WOFF2", step, 8*(uint64(lim)+uint64(len(b)))+48<<20, func() { withLimit(l, func() { out, err = font.ParseWOFF2(b) }) })
									ok := extra == lie && int64(sum) <= l && int64(hd) <= l
									if ok != (err == nil) {
										t.Fail("WOFF2/accept", "%s: gives error %v", step, err)
									} else if err == nil && (extra == 0 && len(out) != want) {
										t.Fail("WOFF2/size", "%s: gives %d bytes, expected %d", step, len(out), want)
									}
								}
							}
							t.Trace()
						}
					})
				}
			}
		}
	}
}

// c18ops runs everything on a font, in bounded time and memory.
func c18ops(t *core.T, sig, step string, b []byte, glyph uint16) {
	const mem = 256 << 20
	var f *font.SFNT
	c18measure(t, sig, step+": parse", mem, func() { f, _ = font.ParseSFNT(b, 0) })
	if f == nil {
		return
	}
	c18measure(t, sig, step+": outline", mem, func() { f.GlyphPath(&nopPather{}, glyph, 0, 0, 0, 1, font.NoHinting) })
	c18measure(t, sig, step+": bounds", mem, func() { f.GlyphBounds(glyph) })
	if f.IsTrueType {
		c18measure(t, sig, step+": contour", mem, func() { f.Glyf.Contour(glyph) })
		c18measure(t, sig, step+": dependencies", mem, func() { f.Glyf.Dependencies(glyph) })
	}
	for _, tables := range [][]string{{"all"}, {"pdf"}} {
		c18measure(t, sig, fmt.Sprintf("%s: subset %v", step, tables), mem, func() {
			if g, err := f.Subset([]uint16{0, glyph}, font.SubsetOptions{Tables: tables}); err == nil {
				g.Write()
			}
		})
	}
	c18measure(t, sig, step+": WOFF2", mem, func() { f.WriteWOFF2() })
	c18measure(t, sig, step+": merge", mem, func() {
		g, err := font.ParseSFNT(b, 0)
		if err == nil && f.Merge(g, font.MergeOptions{}) == nil {
			f.Write()
		}
	})
	if f, _ := font.ParseSFNT(b, 0); f != nil && f.CFF != nil {
		c18measure(t, sig, step+": reindex", mem, func() { f.CFF.ReindexSubrs() })
	}
	t.Trace()
}

func c18composites(e *core.Env) {
	leaves := []ref.Glyph{{}, {Contours: [][]ref.Point{{{X: 1, Y: 2, On: true}}}}, {Contours: [][]ref.Point{sq(1, 2, 3)}}}
	// towers
	for li, leaf := range leaves {
		for depth := 1; depth <= 12; depth++ {
			for _, fan := range []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 30, 100, 255, 256, 1000, 5000, 10000} {
				if depth > 9 && fan > 3 && fan < 1000 {
					continue
				}
				e.Case(fmt.Sprintf("tower/%d/%d/%d", li, depth, fan), func(t *core.T) {
					gs := []ref.Glyph{{}, leaf}
					visited, points, pow := 0, 0, 1
					for d := 0; d < depth; d++ {
						var cs []ref.Component
						for k := 0; k < fan; k++ {
							cs = append(cs, ref.Component{GID: uint16(len(gs) - 1), Dx: 1})
						}
						gs = append(gs, ref.Glyph{Comps: cs, BBox: &[4]int16{0, 0, 10, 10}})
						pow = min(pow*fan, 1<<30)
						visited = min(visited+pow, 1<<30)
					}
					if len(leaf.Contours) > 0 {
						points = min(pow*len(leaf.Contours[0]), 1<<30)
					}
					// a tower and a wide glyph of all of it
					f := ttFont(gs)
					f.LongLoca = true
					b := f.SFNT()
					t.StateB(b)
					top := uint16(len(gs) - 1)
					c18ops(t, "composites", fmt.Sprintf("%d levels of %d components", depth, fan), b, top)
					c18points(t, b, top, points, depth <= 8 && points < 65536 && visited < 65536, depth > 8)
				})
			}
		}
	}
	// all graphs
	n := 3
	if e.Thorough {
		n = 4
	}
	var choices [][]int
	choices = append(choices, nil)
	for i := 1; i < n+2; i++ {
		choices = append(choices, []int{i})
		for j := 1; j < n+2; j++ {
			choices = append(choices, []int{i, j})
		}
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(choices)
	}
	chunk(total, 4096, func(lo, hi int) {
		e.Case(fmt.Sprintf("graphs/%d", lo), func(t *core.T) {
			for x := lo; x < hi; x++ {
				gs := []ref.Glyph{{}, leaves[1+x%2]}
				g := make([][]int, n+2)
				y := x
				for i := 0; i < n; i++ {
					c := choices[y%len(choices)]
					y /= len(choices)
					g[i+2] = c
					gl := ref.Glyph{}
					for _, j := range c {
						gl.Comps = append(gl.Comps, ref.Component{GID: uint16(j), Dx: 1})
					}
					if c != nil {
						gl.BBox = &[4]int16{0, 0, 10, 10}
					}
					gs = append(gs, gl)
				}
				b := ttFont(gs).SFNT()
				t.StateB(b)
				var count func(i, depth int) int
				count = func(i, depth int) int {
					if i == 1 {
						return len(gs[1].Contours[0])
					} else if depth > n {
						return -1
					}
					sum := 0
					for _, j := range g[i] {
						k := count(j, depth+1)
						if k < 0 {
							return k
						}
						sum += k
					}
					return sum
				}
				for i := 1; i < n+2; i++ {
					k := count(i, 0)
					c18points(t, b, uint16(i), k, k >= 0, k < 0)
				}
				t.Trace()
			}
		})
	})
}

// c18points checks the number of points of a glyph.
func c18points(t *core.T, b []byte, glyph uint16, points int, must, fail bool) {
	t.Trans(1)
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("graph/parse", "%v", err)
		return
	}
	c, err := f.Glyf.Contour(glyph)
	if must && err != nil {
		t.Fail("graph/error", "glyph %d of %d points: %v", glyph, points, err)
	} else if fail && err == nil {
		t.Fail("graph/no error", "glyph %d: nested too deeply or in a cycle, but gives no error", glyph)
	} else if err == nil && len(c.XCoordinates) != points {
		t.Fail("graph/points", "glyph %d: gives %d points, expected %d", glyph, len(c.XCoordinates), points)
	}
	deps, err := f.Glyf.Dependencies(glyph)
	if must && err != nil || fail && err == nil {
		t.Fail("graph/dependencies", "glyph %d: dependencies %v, error %v", glyph, deps, err)
	}
}

func c18subrs(e *core.Env) {
	for _, local := range []bool{true, false} {
		for depth := 1; depth <= 13; depth++ {
			for _, fan := range []int{1, 2, 3, 4, 5, 6, 8, 10, 16, 30, 100, 1000, 10000, 30000} {
				if depth > 10 && fan > 3 && fan < 1000 {
					continue
				}
				e.Case(fmt.Sprintf("calls/%v/%d/%d", local, depth, fan), func(t *core.T) {
					call := "callgsubr"
					if local {
						call = "callsubr"
					}
					subrs := [][]byte{ref.CS(1, 2, "rlineto", "return")}
					lines := 1
					for d := 0; d < depth; d++ {
						var c []byte
						for k := 0; k < fan; k++ {
							c = append(c, ref.CS(len(subrs)-1-107, call)...)
						}
						lines = min(lines*fan, 1<<30)
						subrs = append(subrs, append(c, ref.CS("return")...))
					}
					ci := ref.CFFInfo{Local: subrs}
					if !local {
						ci = ref.CFFInfo{Global: subrs}
					}
					b := cffSrcFont([][]byte{{14}, ref.CS(1, 2, "rmoveto", len(subrs)-1-107, call, "endchar")}, ci).SFNT()
					t.StateB(b)
					c18ops(t, "calls", fmt.Sprintf("%d levels of %d calls", depth, fan), b, 1)
					c18lines(t, b, 1, lines, depth+1 <= 10 && lines <= 100000, depth+1 > 11)
				})
			}
		}
	}
	// all graphs of calls
	n := 3
	if e.Thorough {
		n = 4
	}
	var choices [][]int
	choices = append(choices, nil)
	for i := 0; i < n; i++ {
		choices = append(choices, []int{i})
		for j := 0; j < n; j++ {
			choices = append(choices, []int{i, j})
		}
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(choices)
	}
	chunk(total, 512, func(lo, hi int) {
		e.Case(fmt.Sprintf("call graphs/%d", lo), func(t *core.T) {
			for x := lo; x < hi; x++ {
				for mask := 0; mask < 1<<n; mask++ { // which are global
					if !e.Thorough && mask != 0 && mask != 1<<n-1 && mask != 2 {
						continue
					}
					g := make([][]int, n)
					at := make([]int, n)
					nl, ng := 0, 0
					for i := range at {
						if mask>>i&1 != 0 {
							at[i] = ng
							ng++
						} else {
							at[i] = nl
							nl++
						}
					}
					call := func(i int) []byte {
						if mask>>i&1 != 0 {
							return ref.CS(at[i]-107, "callgsubr")
						}
						return ref.CS(at[i]-107, "callsubr")
					}
					y := x
					var ci ref.CFFInfo
					css := [][]byte{{14}}
					for i := 0; i < n; i++ {
						g[i] = choices[y%len(choices)]
						y /= len(choices)
						body := ref.CS(1, 2, "rlineto")
						for _, j := range g[i] {
							body = append(body, call(j)...)
						}
						body = append(body, 11)
						if mask>>i&1 != 0 {
							ci.Global = append(ci.Global, body)
						} else {
							ci.Local = append(ci.Local, body)
						}
						css = append(css, append(append(ref.CS(1, 2, "rmoveto"), call(i)...), 14))
					}
					b := cffSrcFont(css, ci).SFNT()
					t.StateB(b)
					var count func(i, depth int) int
					count = func(i, depth int) int {
						if depth > n {
							return -1
						}
						sum := 1
						for _, j := range g[i] {
							k := count(j, depth+1)
							if k < 0 {
								return k
							}
							sum += k
						}
						return sum
					}
					for i := 0; i < n; i++ {
						k := count(i, 0)
						c18lines(t, b, uint16(i+1), k, k >= 0, k < 0)
					}
					t.Trace()
				}
			}
		})
	})
}

type lineCounter struct {
	nopPather
	lines int
}

func (p *lineCounter) LineTo(x, y float64) { p.lines++ }

func c18lines(t *core.T, b []byte, glyph uint16, lines int, must, fail bool) {
	t.Trans(1)
	f, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("calls/parse", "%v", err)
		return
	}
	p := &lineCounter{}
	err = f.GlyphPath(p, glyph, 0, 0, 0, 1, font.NoHinting)
	if must && err != nil {
		t.Fail("calls/error", "glyph %d of %d lines: %v", glyph, lines, err)
	} else if fail && err == nil {
		t.Fail("calls/no error", "glyph %d: nested too deeply or in a cycle, but gives no error", glyph)
	} else if err == nil && p.lines != lines {
		t.Fail("calls/lines", "glyph %d: gives %d lines, expected %d", glyph, p.lines, lines)
	}
}

// c18overlap has many overlapping parts in one table.
func c18overlap(e *core.Env) {
	run := func(name string, tag string, data func() []byte) {
		e.Case("overlap/"+name, func(t *core.T) {
			f := ttFont(plain(4))
			f.Extra = map[string][]byte{tag: data()}
			b := f.SFNT()
			t.StateB(b)
			var g *font.SFNT
			c18measure(t, "parse", name+": parse", 64*uint64(len(b))+4<<20, func() { g, _ = font.ParseSFNT(b, 0) })
			if g == nil {
				return
			}
			c18measure(t, "overlap", name+": queries", 256<<20, func() {
				g.GlyphIndex('A')
				g.GlyphToUnicode(1)
				g.GlyphName(1)
				g.Kerning(1, 2)
				if g.Name != nil {
					for i, r := range g.Name.Get(1) {
						if i < 10 {
							_ = r.String()
						}
					}
				}
			})
			c18measure(t, "overlap", name+": subset", 256<<20, func() {
				if h, err := g.Subset([]uint16{0, 1}, font.SubsetOptions{Tables: []string{"all"}}); err == nil {
					h.Write()
				}
			})
			t.Trace()
		})
	}
	for _, step := range []int{2, 4, 8, 10, 12, 16, 64} {
		for _, n := range []int{2, 100, 2000, 8000} {
			for _, format := range []int{4, 6, 12, 0, 14} {
				run(fmt.Sprintf("cmap format %d, %d times every %d bytes", format, n, step), "cmap", func() []byte {
					w := &w17{}
					w.u16(0).u16(n)
					for i := 0; i < n; i++ {
						w.u16(3).u16(i % 11).u32(4 + 8*n + step*i)
					}
					body := make([]byte, step*n+70000)
					for i := n - 1; i >= 0; i-- {
						h := &w17{}
						rest := len(body) - step*i
						switch format {
						case 4:
							h.u16(4).u16(min(rest, 65535)).u16(0).u16(2)
						case 6:
							h.u16(6).u16(65534).u16(0).u16(0).u16(32760)
						case 12:
							h.u16(12).u16(0).u32(rest).u32(0).u32((rest - 16) / 12)
						case 0:
							h.u16(0).u16(262).u16(0)
						case 14:
							h.u16(14).u32(rest).u32((rest - 10) / 11)
						}
						copy(body[step*i:], h.b)
					}
					w.b = append(w.b, body...)
					return w.b
				})
			}
		}
	}
	for _, n := range []int{10, 1000, 5000} {
		run(fmt.Sprintf("%d names in the same place", n), "name", func() []byte {
			w := &w17{}
			w.u16(0).u16(n).u16(6 + 12*n)
			for i := 0; i < n; i++ {
				w.u16(3).u16(1).u16(0x409).u16(1 + i%2).u16(65534).u16(0)
			}
			w.b = append(w.b, make([]byte, 65534)...)
			return w.b
		})
		run(fmt.Sprintf("%d cmap records of one subtable", n), "cmap", func() []byte {
			w := &w17{}
			w.u16(0).u16(n)
			for i := 0; i < n; i++ {
				w.u16(3).u16(i % 11).u32(4 + 8*n)
			}
			w.u16(6).u16(65534).u16(0).u16(0).u16(32760)
			w.b = append(w.b, make([]byte, 65600)...)
			return w.b
		})
	}
}

// c18whole has operations on all glyphs of the largest fonts.
func c18whole(e *core.Env) {
	const mem = 2 << 30
	for _, n := range []int{5000, 65535} {
		for _, cff := range []bool{false, true} {
			e.Case(fmt.Sprintf("whole/%v/%d", cff, n), func(t *core.T) {
				var f *ref.Font
				if cff {
					cs := make([][]byte, n)
					for i := range cs {
						cs[i] = ref.CS(i%100, 2, "rmoveto", 5, "hlineto", "endchar")
					}
					names := append([]string{}, ref.CFFStd[:]...)
					for len(names) < n {
						names = append(names, fmt.Sprintf("own%d", len(names)))
					}
					f = cffSrcFont(cs, ref.CFFInfo{CharsetFormat: 2, Charset: names[:n]})
				} else {
					gs := make([]ref.Glyph, n)
					for i := 1; i < n; i++ {
						gs[i].Contours = [][]ref.Point{sq(int16(i%100), 1, 5)}
					}
					f = ttFont(gs)
					f.LongLoca = true
					f.Kern = []ref.KernSub{{Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 9}, {L: uint16(n - 2), R: uint16(n - 1), V: -5}}}, {Coverage: 1, Pairs: []ref.KernPair{{L: 1, R: 2, V: 7}}}}
				}
				f.PostVer = 3
				b := f.SFNT()
				t.StateB(b)
				all := make([]uint16, n)
				names := make([]string, n)
				for i := range all {
					all[i] = uint16(i)
					if names[i] = fmt.Sprintf("n%d", i); i < 391 {
						names[i] = ref.CFFStd[i]
					}
				}
				src, err := font.ParseSFNT(b, 0)
				if err != nil {
					t.Fail("whole/parse", "%v", err)
					return
				}
				use := func(step string, g *font.SFNT, err error, named bool) {
					if err != nil {
						t.Fail("whole/error", "%s: %v", step, err)
						return
					}
					if int(g.NumGlyphs()) != n {
						t.Fail("whole/glyphs", "%s: %d glyphs, expected %d", step, g.NumGlyphs(), n)
					}
					if !cff && (g.Kerning(1, 2) != 16 || g.Kerning(uint16(n-2), uint16(n-1)) != -5) {
						t.Fail("whole/kerning", "%s: kerning %d, %d", step, g.Kerning(1, 2), g.Kerning(uint16(n-2), uint16(n-1)))
					}
					if named {
						for _, i := range []int{0, 1, 390, 391, n / 2, n - 1} {
							if s := g.GlyphName(uint16(i)); s != names[i] {
								t.Fail("whole/names", "%s: glyph %d is named %q", step, i, s)
							}
						}
					}
				}
				for _, tables := range [][]string{{"all"}, {"min"}} {
					var g *font.SFNT
					c18measure(t, "whole", fmt.Sprintf("subset %v", tables), mem, func() { g, err = src.Subset(all, font.SubsetOptions{Tables: tables}) })
					if tables[0] == "all" {
						use("subset", g, err, false)
					}
					c18measure(t, "whole", "write", mem, func() { g.Write() })
					c18measure(t, "whole", "write WOFF2", mem, func() { g.WriteWOFF2() })
				}
				c18measure(t, "whole", "rename", mem, func() { err = src.SetGlyphNames(names) })
				if err == nil {
					var g *font.SFNT
					c18measure(t, "whole", "write and parse named", mem, func() { g, err = font.ParseSFNT(src.Write(), 0) })
					use("named", g, err, true)
					c18measure(t, "whole", "subset named", mem, func() { g, err = src.Subset(all, font.SubsetOptions{Tables: []string{"all"}}) })
					use("subset of named", g, err, cff)
				} else if cff || n < 32768 { // the post table has 32768 names at most
					t.Fail("whole/rename", "%v", err)
				}
				c18measure(t, "whole", "all names", mem, func() {
					for i := range all {
						src.GlyphName(uint16(i))
						if i%100 == 0 {
							src.FindGlyphName(names[i])
						}
					}
				})
				c18measure(t, "whole", "all characters", mem, func() {
					for i := range all {
						src.GlyphIndex(rune(i))
						src.GlyphToUnicode(uint16(i))
					}
				})
				t.Trace()
			})
		}
	}
}
