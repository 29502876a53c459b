package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

func init() {
	core.Register(&core.Check{
		ID:  "C12",
		Run: c12,
		Rule: "every on/off-curve pattern, coordinate class, flag encoding and component tree within the bounds is encoded as a font; the path, the placed and scaled path and the bounds of every glyph " +
			"are compared with the reference outline (contours up to the choice of start point)",
		Assumptions: []string{
			"component transformations use values that are exact in F2Dot14 and keep integer coordinates, so no rounding convention is asserted",
			"point-matching components and scaled component offsets are not supported by the library and are outside the space",
			"contours that consist of a single location draw nothing and are not compared",
		},
	})
}

type edge struct {
	op byte
	a  [6]float64
}

// canonPath splits a path into closed contours and rotates each to a canonical start; err tells a malformed path.
func canonPath(p ref.Path) (string, error) {
	var out strings.Builder
	for i := 0; i < len(p); {
		if p[i].Op != 'M' {
			return "", fmt.Errorf("segment %d is %c outside a contour", i, p[i].Op)
		}
		sx, sy := p[i].A[0], p[i].A[1]
		x, y := sx, sy
		var es []edge
		i++
		closed := false
		for ; i < len(p) && !closed; i++ {
			s := p[i]
			switch s.Op {
			case 'M':
				return "", fmt.Errorf("contour before segment %d is not closed", i)
			case 'Z':
				closed = true
			default:
				k := map[byte]int{'L': 0, 'Q': 2, 'C': 4}[s.Op]
				ex, ey := s.A[k], s.A[k+1]
				degenerate := true
				for j := 0; j <= k; j += 2 {
					if s.A[j] != x || s.A[j+1] != y {
						degenerate = false
					}
				}
				if !degenerate {
					es = append(es, edge{s.Op, s.A})
				}
				x, y = ex, ey
			}
		}
		if !closed {
			return "", fmt.Errorf("last contour is not closed")
		}
		if x != sx || y != sy {
			es = append(es, edge{'L', [6]float64{sx, sy}})
		}
		if len(es) == 0 {
			continue
		}
		best := -1
		less := func(a, b int) bool {
			for k := 0; k < len(es); k++ {
				p, q := es[(a+k)%len(es)], es[(b+k)%len(es)]
				if p.op != q.op {
					return p.op < q.op
				}
				for j := range p.a {
					if p.a[j] != q.a[j] {
						return p.a[j] < q.a[j]
					}
				}
			}
			return false
		}
		for k := range es {
			if best < 0 || less(k, best) {
				best = k
			}
		}
		out.WriteString("(")
		for k := range es {
			e := es[(best+k)%len(es)]
			n := map[byte]int{'L': 2, 'Q': 4, 'C': 6}[e.op]
			fmt.Fprintf(&out, "%c%v", e.op, e.a[:n])
		}
		out.WriteString(")")
	}
	return out.String(), nil
}

// place applies the position and scale arguments to a path.
func place(p ref.Path, x, y, f float64) ref.Path {
	out := make(ref.Path, len(p))
	for i, s := range p {
		out[i] = s
		n := map[byte]int{'M': 2, 'L': 2, 'Q': 4, 'C': 6, 'Z': 0}[s.Op]
		for k := 0; k < n; k += 2 {
			out[i].A[k] = x + f*s.A[k]
			out[i].A[k+1] = y + f*s.A[k+1]
		}
	}
	return out
}

var placements = [][3]float64{{0, 0, 1}, {100, -50, 1}, {-3, 7, 0.5}, {0, 0, -2}, {1024, 4096, 0.0625}}

// c12Font checks all glyphs of a TrueType font against the reference; wantErr lists glyphs that must be errors.
func c12Font(t *core.T, desc string, f *ref.Font, wantErr map[int]bool) {
	b := f.SFNT()
	s, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("rejected", "%s: valid font rejected: %v", desc, err)
		return
	}
	for g := range f.Glyphs {
		name := fmt.Sprintf("%s: glyph %d", desc, g)
		r := &sut.Rec{}
		err := s.GlyphPath(r, uint16(g), 0, 0, 0, 1, font.NoHinting)
		t.Trans(1)
		if wantErr[g] {
			if err == nil {
				t.Fail("no error", "%s: unresolvable composite is drawn as %s", name, r.P)
			}
			continue
		}
		if err != nil {
			t.Fail("path error", "%s: %v", name, err)
			continue
		}
		want := ref.PathOf(f.Resolve(g, 0))
		cw, err := canonPath(want)
		if err != nil {
			panic(err)
		}
		cg, err := canonPath(r.P)
		if err != nil {
			t.Fail("malformed path", "%s: %v: %s", name, err, r.P)
			continue
		}
		if cg != cw {
			t.Fail("outline", "%s: path %s instead of %s", name, r.P, want)
			continue
		}
		for i, pl := range placements[1:] {
			q := &sut.Rec{}
			if err := s.GlyphPath(q, uint16(g), uint16(i*100), pl[0], pl[1], pl[2], font.Hinting(i%2)); err != nil {
				t.Fail("path error", "%s at %v: %v", name, pl, err)
				continue
			}
			t.Trans(1)
			if w := place(r.P, pl[0], pl[1], pl[2]); q.P.String() != w.String() {
				t.Fail("placement", "%s at %v: path %s instead of %s", name, pl, q.P, w)
			}
		}
		var bb [4]int16
		bb[0], bb[1], bb[2], bb[3] = s.GlyphBounds(uint16(g))
		t.Trans(1)
		rg, err := ref.ReadGlyph(f.GlyphData(g))
		if err != nil {
			panic(fmt.Sprintf("%s: %v", desc, err))
		}
		if bb != rg.BBox {
			t.Fail("bounds", "%s: %v instead of %v", name, bb, rg.BBox)
		}
		c12Contour(t, name, s, f, g, rg)
		t.State(cw)
	}
	t.Trace()
}

// c12Contour compares the points, instructions and components that are reported.
func c12Contour(t *core.T, name string, s *font.SFNT, f *ref.Font, g int, rg *ref.RGlyph) {
	if c := s.Glyf.IsComposite(uint16(g)); c != (len(rg.Comps) > 0) {
		t.Fail("composite", "%s: composite %v, with %d components", name, c, len(rg.Comps))
	}
	want := map[uint16]bool{}
	var visit func(g, depth int)
	visit = func(g, depth int) {
		want[uint16(g)] = true
		for _, c := range f.Glyphs[g].Comps {
			if depth < 10 {
				visit(int(c.GID), depth+1)
			}
		}
	}
	visit(g, 0)
	deps, err := s.Glyf.Dependencies(uint16(g))
	got := map[uint16]bool{}
	for _, d := range deps {
		got[d] = true
	}
	if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("dependencies", "%s: uses glyphs %v (%v) instead of %v", name, got, err, want)
	}
	c, err := s.Glyf.Contour(uint16(g))
	t.Trans(3)
	if err != nil {
		t.Fail("contour", "%s: %v", name, err)
		return
	}
	if bb := [4]int16{c.XMin, c.YMin, c.XMax, c.YMax}; int(c.GlyphID) != g || bb != rg.BBox {
		t.Fail("contour", "%s: glyph %d with bounds %v instead of %v", name, c.GlyphID, bb, rg.BBox)
	}
	if string(c.Instructions) != string(rg.Instr) {
		t.Fail("instructions", "%s: %d bytes of instructions instead of %d", name, len(c.Instructions), len(rg.Instr))
	}
	n := 0
	cts := f.Resolve(g, 0)
	if len(c.EndPoints) != len(cts) || len(c.XCoordinates) != len(c.YCoordinates) || len(c.XCoordinates) != len(c.OnCurve) || len(c.XCoordinates) != len(c.OverlapSimple) {
		t.Fail("points", "%s: %d contours of %d, %d, %d points", name, len(c.EndPoints), len(c.XCoordinates), len(c.YCoordinates), len(c.OnCurve))
		return
	}
	for i, ct := range cts {
		if int(c.EndPoints[i]) != n+len(ct)-1 || len(c.XCoordinates) < n+len(ct) {
			t.Fail("points", "%s: contour %d ends at point %d instead of %d, of %d points", name, i, c.EndPoints[i], n+len(ct)-1, len(c.XCoordinates))
			return
		}
		for _, q := range ct {
			if c.XCoordinates[n] != q.X || c.YCoordinates[n] != q.Y || c.OnCurve[n] != q.On {
				t.Fail("points", "%s: point %d is (%d, %d) on the curve %v instead of (%d, %d) %v", name, n, c.XCoordinates[n], c.YCoordinates[n], c.OnCurve[n], q.X, q.Y, q.On)
				return
			}
			n++
		}
	}
	if n != len(c.XCoordinates) {
		t.Fail("points", "%s: %d points instead of %d", name, len(c.XCoordinates), n)
	}
	if len(rg.Comps) == 0 && n > 0 && c.OverlapSimple[0] != f.Glyphs[g].Overlap {
		t.Fail("overlap", "%s: overlap flag %v", name, c.OverlapSimple[0])
	}
}

func pts(pattern, n int, off int) []ref.Point {
	xs := []int16{0, 120, 312, 404, 280, 96, -44, -132, 8, 60}
	ys := []int16{0, -36, 20, 268, 420, 388, 212, 100, 44, 16}
	var out []ref.Point
	for i := 0; i < n; i++ {
		out = append(out, ref.Point{X: xs[i%10] + int16(off), Y: ys[i%10] + int16(2*off), On: pattern>>i&1 != 0})
	}
	return out
}

func c12(e *core.Env) {
	maxN := 8
	if e.Thorough {
		maxN = 11
	}
	// every on/off pattern, in compact and long encoding
	for n := 1; n <= maxN; n++ {
		e.Case(fmt.Sprintf("pattern/%d", n), func(t *core.T) {
			for p := 0; p < 1<<n; p += 64 {
				f := &ref.Font{Glyphs: []ref.Glyph{{}}}
				for q := p; q < min(1<<n, p+64); q++ {
					f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{pts(q, n, 0)}, NoCompress: q%2 == 1, Overlap: q%3 == 0})
				}
				c12Font(t, fmt.Sprintf("patterns of %d points from %0*b", n, n, p), f, nil)
			}
			t.Sample(fmt.Sprintf("all on/off patterns of %d points", n))
		})
	}
	// two and three contours
	e.Case("contours", func(t *core.T) {
		type pat struct{ n, p int }
		var ps []pat
		for n := 1; n <= 3; n++ {
			for p := 0; p < 1<<n; p++ {
				ps = append(ps, pat{n, p})
			}
		}
		f := &ref.Font{Glyphs: []ref.Glyph{{}}}
		flush := func() {
			c12Font(t, "contour combinations", f, nil)
			f = &ref.Font{Glyphs: []ref.Glyph{{}}}
		}
		for _, a := range ps {
			for _, b := range ps {
				f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{pts(a.p, a.n, 0), pts(b.p, b.n, 33)}})
				for _, c := range ps {
					if (a.n+b.n+c.n)%2 == 0 || e.Thorough {
						f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{pts(a.p, a.n, 0), pts(b.p, b.n, 33), pts(c.p, c.n, -40)}})
					}
				}
				flush()
			}
		}
	})
	// coordinate classes: every pair of consecutive coordinate values in both axes, all on/off patterns of three points
	vals := []int16{-32768, -20001, -16385, -257, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 257, 16384, 20001, 32767}
	for _, a := range vals {
		e.Case(fmt.Sprintf("coordinates/%d", a), func(t *core.T) {
			for _, b := range vals {
				f := &ref.Font{Glyphs: []ref.Glyph{{}}}
				for p := 0; p < 8; p++ {
					for axis := 0; axis < 3; axis++ {
						ok := true
						var ct []ref.Point
						prev := [2]int{}
						for i, v := range []int16{a, b, (a / 2) + (b / 2)} {
							q := ref.Point{X: v, Y: v, On: p>>i&1 != 0}
							if axis == 0 {
								q.Y = int16(10 * i)
							} else if axis == 1 {
								q.X = int16(-10 * i)
							}
							if dx, dy := int(q.X)-prev[0], int(q.Y)-prev[1]; dx != int(int16(dx)) || dy != int(int16(dy)) {
								ok = false
							}
							prev = [2]int{int(q.X), int(q.Y)}
							ct = append(ct, q)
						}
						if ok {
							f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{ct}}, ref.Glyph{Contours: [][]ref.Point{ct}, NoCompress: true})
						}
					}
				}
				c12Font(t, fmt.Sprintf("coordinates %d, %d", a, b), f, nil)
			}
		})
	}
	// long contours: all on/off patterns of the first and last three points, in front of and behind another contour
	for _, n := range []int{126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 260, 510, 511, 512, 513, 514, 1023, 1024, 1025, 4097, 32766, 32767, 32768, 32769, 65530, 65531} {
		if 5000 < n && n%3 != 0 && !e.Thorough {
			continue
		}
		e.Case(fmt.Sprintf("long/%d", n), func(t *core.T) {
			for p := 0; p < 64; p++ {
				if 5000 < n && p%21 != 0 && !e.Thorough {
					continue
				}
				f := &ref.Font{Glyphs: []ref.Glyph{{}}}
				for mid := 0; mid < 2; mid++ {
					var ct []ref.Point
					for i := 0; i < n; i++ {
						q := ref.Point{X: int16(3*(i%50) + 40*(i/50%100)), Y: int16(5*(i%40) - i/40%200), On: mid == 0 && i%3 == 0}
						if i < 3 {
							q.On = p>>i&1 != 0
						} else if n-3 <= i {
							q.On = p>>(3+i-(n-3))&1 != 0
						}
						ct = append(ct, q)
					}
					f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{ct, pts(p&7, 3, 7)}}, ref.Glyph{Contours: [][]ref.Point{pts(p&7, 3, 7), ct}})
				}
				c12Font(t, fmt.Sprintf("long contour of %d points, pattern %06b", n, p), f, nil)
			}
		})
	}
	// runs of equal flags around the repeat limit
	e.Case("repeats", func(t *core.T) {
		for _, n := range []int{1, 2, 3, 4, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000} {
			for _, kind := range []int{0, 1, 2} {
				var ct []ref.Point
				for i := 0; i < n; i++ {
					p := ref.Point{X: int16(i), Y: int16(2 * i), On: true}
					if kind == 1 {
						p = ref.Point{X: int16(i % 2), Y: int16(i), On: i%2 == 0}
					} else if kind == 2 {
						p = ref.Point{X: 5, Y: 5, On: true} // same as previous in both axes
					}
					ct = append(ct, p)
				}
				for _, il := range []int{0, 1, 255, 256, 300} {
					f := &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{ct, sq(4, 8, 12)}, Instr: make([]byte, il)}, {Contours: [][]ref.Point{sq(4, 8, 12)}, Pad: n % 3}}, LongLoca: n%2 == 0}
					c12Font(t, fmt.Sprintf("run of %d flags of kind %d with %d instructions", n, kind, il), f, nil)
				}
			}
		}
		// a repeat flag with a zero repeat count
		w := &ref.W{}
		w.U16(1, 0, 0, 20, 20, 2, 0)
		w.U8(0x01|0x02|0x10|0x04|0x20|0x08, 0, 0x01|0x02|0x10|0x04|0x20|0x08, 1)
		w.U8(5, 6, 7, 1, 2, 3)
		f := &ref.Font{Glyphs: []ref.Glyph{{}, {Raw: w.B}}}
		s, err := font.ParseSFNT(f.SFNT(), 0)
		if err != nil {
			t.Fail("rejected", "%v", err)
			return
		}
		p, err := sut.Path(s, 1)
		want := ref.PathOf([][]ref.Point{{{X: 5, Y: 1, On: true}, {X: 11, Y: 3, On: true}, {X: 18, Y: 6, On: true}}})
		if err != nil || p.String() != want.String() {
			t.Fail("outline", "zero repeat count: %v %s instead of %s", err, p, want)
		}
	})
	// instructions of composites, announced by any of the components
	e.Case("composite instructions", func(t *core.T) {
		for n := 1; n <= 4; n++ {
			for on := 0; on < 1<<n; on++ {
				for _, il := range []int{0, 1, 2, 3, 127, 255, 256, 1000, 65535} {
					for kind := 0; kind < 4; kind++ {
						f := &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{sq(0, 0, 64)}, Instr: []byte{1, 2, 3}}, {}}, LongLoca: true}
						g := ref.Glyph{HasInstr: true, InstrOn: on}
						for k := 0; k < n; k++ {
							g.Comps = append(g.Comps, ref.Component{GID: 1, Dx: int16(100 * k), Kind: (kind + k) % 4, M: [4]int16{1 << 14, 0, 0, 1 << 14}})
						}
						for k := 0; k < il; k++ {
							g.Instr = append(g.Instr, byte(k*7+5))
						}
						f.Glyphs = append(f.Glyphs, g, ref.Glyph{Comps: []ref.Component{{GID: 3, Dy: 4}}}, ref.Glyph{Comps: []ref.Component{{GID: 3}, {GID: 1}}, HasInstr: true, Instr: []byte{9}})
						c12Font(t, fmt.Sprintf("%d components of which %b announce %d instructions, kind %d", n, on, il, kind), f, nil)
					}
				}
			}
		}
	})
	// recorded bounds that differ from the points
	e.Case("recorded bounds", func(t *core.T) {
		f := &ref.Font{Glyphs: []ref.Glyph{{}}}
		for _, v := range []int16{-32768, -1, 0, 1, 700, 32767} {
			for k := 0; k < 4; k++ {
				bb := [4]int16{-10, -20, 30, 40}
				bb[k] = v
				f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{sq(0, 0, 100)}, BBox: &bb}, ref.Glyph{Comps: []ref.Component{{GID: 1, Dx: 4}}, BBox: &bb})
			}
		}
		c12Font(t, "recorded bounds", f, nil)
	})
	// composites: every component kind and offset class, one to three components, nested
	s2 := int16(1 << 14 / 2)
	comps := []ref.Component{
		{}, {Dx: 127, Dy: -128}, {Dx: 128, Dy: 0}, {Dx: 0, Dy: -129}, {Dx: -3000, Dy: 32767}, {Dx: 4, Dy: 8, Words: true},
		{Kind: 1, M: [4]int16{s2}}, {Kind: 1, M: [4]int16{-1 << 14}, Dx: 40, Dy: -20}, {Kind: 1, M: [4]int16{0x6000}, Dx: 1000, Dy: 1000},
		{Kind: 2, M: [4]int16{s2, 0, 0, -1 << 14}, Dx: 8, Dy: 16}, {Kind: 2, M: [4]int16{-1 << 14, 0, 0, 0x6000}, Dx: 300},
		{Kind: 3, M: [4]int16{0, 1 << 14, -1 << 14, 0}, Dx: 12, Dy: -12}, {Kind: 3, M: [4]int16{s2, -1 << 14, s2, s2}, Dx: -500, Dy: 12},
		{Extra: 0x0004}, {Extra: 0x0200, Dx: 60}, {Extra: 0x0400, Kind: 1, M: [4]int16{s2}}, {Extra: 0x1000, Dy: 60, Kind: 1, M: [4]int16{s2}},
	}
	base := func() *ref.Font {
		return &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{pts(0b1011, 4, 0)[:1], pts(0b0110, 4, 0)}}, {Contours: [][]ref.Point{sq(-40, 20, 64), pts(0b001, 3, 8)}}, {}}}
	}
	mul4 := func(f *ref.Font) *ref.Font { // keep coordinates multiples of 16 so that nested halving stays exact
		for i := range f.Glyphs {
			for j := range f.Glyphs[i].Contours {
				for k := range f.Glyphs[i].Contours[j] {
					p := &f.Glyphs[i].Contours[j][k]
					p.X, p.Y = p.X&^15, p.Y&^15
				}
			}
		}
		return f
	}
	for i, a := range comps {
		e.Case(fmt.Sprintf("composite/%d", i), func(t *core.T) {
			f := mul4(base())
			for g := uint16(1); g <= 3; g++ {
				a.GID = g
				f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{a}})
				f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{a}, HasInstr: true, Instr: []byte{1, 2, 3}})
				f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{a}, HasInstr: true})
			}
			c12Font(t, "single component", f, nil)
			for j, b := range comps {
				f := mul4(base())
				for g := uint16(1); g <= 3; g++ {
					for h := uint16(1); h <= 3; h++ {
						a.GID, b.GID = g, h
						f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{a, b}, HasInstr: (g+h)%2 == 0, Instr: []byte{9}})
					}
				}
				// nested: a component of a composite, and a third component
				n := uint16(len(f.Glyphs))
				a.GID, b.GID = 2, n-1
				f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{a, b}})
				b.GID = 1
				a.GID = n
				f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{b, a, b}})
				c12Font(t, fmt.Sprintf("components %d and %d", i, j), f, nil)
			}
		})
	}
	// all graphs of three composites (each with one or two components out of six glyphs), including cycles and missing glyphs
	e.Case("graphs", func(t *core.T) {
		// glyphs: 0 empty, 1 simple, 2,3,4 composites, 5 missing
		var lists [][]uint16
		for a := uint16(0); a <= 5; a++ {
			lists = append(lists, []uint16{a})
			for b := uint16(0); b <= 5; b++ {
				lists = append(lists, []uint16{a, b})
			}
		}
		for i2, l2 := range lists {
			for i3, l3 := range lists {
				for i4, l4 := range lists {
					if !e.Thorough && (i2+i3*5+i4*11)%4 != 0 {
						continue
					}
					f := &ref.Font{Glyphs: make([]ref.Glyph, 5)}
					f.Glyphs[1].Contours = [][]ref.Point{sq(0, 16, 64)}
					for k, l := range [][]uint16{l2, l3, l4} {
						for q, g := range l {
							f.Glyphs[2+k].Comps = append(f.Glyphs[2+k].Comps, ref.Component{GID: g, Dx: int16(10*k + q)})
						}
						f.Glyphs[2+k].BBox = &[4]int16{1, 2, 3, 4}
					}
					bad := map[int]bool{}
					for g := 2; g <= 4; g++ {
						// an error when a missing glyph or a cycle is reachable
						state := map[uint16]int{}
						var dfs func(g uint16) bool
						dfs = func(g uint16) bool {
							if g == 5 || state[g] == 1 {
								return true
							}
							if state[g] == 2 {
								return false
							}
							state[g] = 1
							if g >= 2 {
								for _, c := range f.Glyphs[g].Comps {
									if dfs(c.GID) {
										return true
									}
								}
							}
							state[g] = 2
							return false
						}
						bad[g] = dfs(uint16(g))
					}
					c12Font(t, fmt.Sprintf("graph 2:%v 3:%v 4:%v", l2, l3, l4), f, bad)
				}
			}
		}
	})
	// chains of composites
	e.Case("chains", func(t *core.T) {
		for n := 1; n <= 6; n++ {
			f := &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{sq(0, 16, 64)}}}}
			for i := 0; i < n; i++ {
				f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{{GID: uint16(i + 1), Dx: 3, Dy: 5}}})
			}
			c12Font(t, fmt.Sprintf("chain of %d composites", n), f, nil)
		}
		// far too deep ones are errors
		f := &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{sq(0, 16, 64)}}}}
		bad := map[int]bool{}
		for i := 0; i < 60; i++ {
			f.Glyphs = append(f.Glyphs, ref.Glyph{Comps: []ref.Component{{GID: uint16(i + 1)}}, BBox: &[4]int16{}})
		}
		s, err := font.ParseSFNT(f.SFNT(), 0)
		if err != nil {
			t.Fail("rejected", "%v", err)
			return
		}
		for i := 40; i < 62; i++ {
			if p, err := sut.Path(s, uint16(i)); err == nil {
				t.Fail("no error", "composite nested %d deep is drawn: %s", i-1, p)
			}
		}
		_ = bad
	})
	// offsets of the loca table around its limits
	e.Case("offsets", func(t *core.T) {
		for _, size := range []int{65534, 65536, 65538, 131068, 131070, 131072, 140000} {
			for _, long := range []bool{false, true} {
				f := &ref.Font{Glyphs: []ref.Glyph{{}, {Contours: [][]ref.Point{sq(0, 0, 8)}}}, LongLoca: long}
				d := len(f.GlyphData(1))
				f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{sq(1, 1, 20)}, Pad: 60000})
				f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{sq(3, 1, 20)}})
				used := d + len(f.GlyphData(2)) + len(f.GlyphData(3))
				if size > used {
					f.Glyphs[3].Pad = size - used
				}
				f.Glyphs = append(f.Glyphs, ref.Glyph{Contours: [][]ref.Point{sq(4, 1, 24)}})
				c12Font(t, fmt.Sprintf("glyph data of %d bytes before the last glyph, long %v", size, long), f, nil)
			}
		}
	})
	for _, n := range []string{"resources/DejaVuSerif.ttf", "examples/merge/A-Z.ttf", "examples/merge/0-9.ttf"} {
		e.Case("real/"+n, func(t *core.T) { realOutlines(t, resource(n)) })
	}
}

// rawTables splits a font file without checking it.
func rawTables(b []byte) map[string][]byte {
	out := map[string][]byte{}
	nt := int(b[4])<<8 | int(b[5])
	for i := 0; i < nt; i++ {
		p := 12 + 16*i
		u := func(o int) int { return int(b[o])<<24 | int(b[o+1])<<16 | int(b[o+2])<<8 | int(b[o+3]) }
		out[string(b[p:p+4])] = b[u(p+8) : u(p+8)+u(p+12)]
	}
	return out
}

// realFont reads the outline related tables of a font of the repository.
func realFont(b []byte) *ref.RFont {
	all := rawTables(b)
	tb := map[string][]byte{}
	for _, k := range []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf", "CFF ", "cmap", "vhea", "vmtx"} {
		if v, ok := all[k]; ok {
			tb[k] = v
		}
	}
	rf, err := ref.ReadTables(string(b[:4]), tb)
	if err != nil {
		panic(err)
	}
	return rf
}

func realOutlines(t *core.T, b []byte) {
	rf := realFont(b)
	s, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fail("rejected", "%v", err)
		return
	}
	for g := 0; g < rf.N; g++ {
		want, err := rf.Path(g)
		if err != nil {
			t.Fail("reference", "glyph %d: %v", g, err)
			return
		}
		r := &sut.Rec{}
		if err := s.GlyphPath(r, uint16(g), 0, 0, 0, 1, font.NoHinting); err != nil {
			t.Fail("path error", "glyph %d: %v", g, err)
			continue
		}
		cw, _ := canonPath(want)
		cg, err := canonPath(r.P)
		if err != nil {
			t.Fail("malformed path", "glyph %d: %v", g, err)
			continue
		}
		if cw != cg && !nearPath(want, r.P) {
			t.Fail("outline", "glyph %d: %s instead of %s", g, r.P, want)
		}
		t.Trans(1)
		t.State(cw)
	}
	t.Trace()
}

// nearPath compares paths with identical structure up to one unit (component rounding).
func nearPath(a, b ref.Path) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Op != b[i].Op {
			return false
		}
		for k := range a[i].A {
			if math.Abs(a[i].A[k]-b[i].A[k]) > 1 {
				return false
			}
		}
	}
	return true
}
