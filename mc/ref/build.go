// Package ref is an independent reference implementation of the font formats: an abstract font model,
// byte builders for every container, and strict readers. It shares no code with the library under test.
package ref

import (
	"encoding/binary"
	"sort"
)

// W is a big-endian byte writer.
type W struct{ B []byte }

func (w *W) U8(v ...int) {
	for _, x := range v {
		w.B = append(w.B, byte(x))
	}
}
func (w *W) U16(v ...int) {
	for _, x := range v {
		w.B = append(w.B, byte(x>>8), byte(x))
	}
}
func (w *W) U24(x int) { w.B = append(w.B, byte(x>>16), byte(x>>8), byte(x)) }
func (w *W) U32(v ...uint32) {
	for _, x := range v {
		w.B = append(w.B, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
}
func (w *W) Str(s string)   { w.B = append(w.B, s...) }
func (w *W) Bytes(b []byte) { w.B = append(w.B, b...) }
func (w *W) Pad4() {
	for len(w.B)%4 != 0 {
		w.B = append(w.B, 0)
	}
}
func (w *W) Len() int { return len(w.B) }

// Point is a TrueType outline point.
type Point struct {
	X, Y int16
	On   bool
}

// Component is one component of a composite glyph.
type Component struct {
	GID    uint16
	Dx, Dy int16
	Words  bool     // force word arguments
	Kind   int      // 0 none, 1 uniform scale, 2 x/y scale, 3 two-by-two
	M      [4]int16 // xscale, scale01, scale10, yscale in F2Dot14
	Extra  uint16   // extra flag bits
}

// Glyph is one glyph of the abstract font.
type Glyph struct {
	Contours   [][]Point
	Comps      []Component
	Instr      []byte
	HasInstr   bool // composite with instruction block (possibly of length zero)
	InstrOn    int  // components that tell so, 0 for the last one
	Overlap    bool // OVERLAP_SIMPLE on the first point
	BBox       *[4]int16
	NoCompress bool   // write long deltas and no repeats
	Raw        []byte // verbatim glyph data when not nil
	Pad        int    // extra zero bytes behind the data
	CS         []byte // CFF charstring
}

// Subtable of the character map.
type CmapSub struct {
	Format int
	Map    map[rune]uint16
	// format 4 controls
	GlyphArray bool // use idRangeOffset for every segment
	MinRun     int
	DeltaOnArr int16  // idDelta together with the glyph array
	Raw        []byte // verbatim subtable
	Segs       []Seg4 // explicit format 4 segments, overriding Map
	Groups     [][3]uint32
}

// Seg4 is an explicit format 4 segment.
type Seg4 struct {
	Start, End uint16
	Delta      int16
	Array      []uint16 // if not nil: glyph array entries
}

type CmapRec struct {
	Platform, Encoding int
	Sub                int
}

type KernSub struct {
	Version  int
	Format   int
	Coverage int // low byte of coverage
	Pairs    []KernPair
	Raw      []byte // raw body for unsupported subtables
	ExtraLen int    // additional bytes inside the subtable behind the pairs
}
type KernPair struct {
	L, R uint16
	V    int16
}

type NameRec struct {
	Platform, Encoding, Language, Name int
	Value                              []byte
}

type OS2 struct {
	Version                                                int
	XAvg                                                   int16
	Weight, Width, FsType                                  uint16
	Range                                                  [4]uint32
	FsSelection                                            uint16
	First, Last                                            uint16
	TypoAsc, TypoDesc, TypoGap                             int16
	WinAsc, WinDesc                                        uint16
	CodePage                                               [2]uint32
	XHeight, CapHeight                                     int16
	DefaultChar, BreakChar, MaxContext, LowerOpt, UpperOpt uint16
}

// CFFInfo describes the CFF specific part of the font.
type CFFInfo struct {
	Global, Local [][]byte
	OffSize       int // minimum INDEX offset size (1..4)
	Charset       []string
	CharsetFormat int // 0, 1, 2, or 255 for the predefined ISOAdobe charset
	DefaultW      int
	NominalW      int
	WriteWidths   bool
	FontName      string
	FullName      string
	TopExtra      []byte // extra top DICT bytes
	PrivExtra     []byte // extra private DICT bytes
	BarePriv      bool   // no private DICT entries but the extra ones
	// CID
	CID        bool
	FDSelect   []byte     // per glyph
	FDFormat   int        // 0 or 3
	FDLocal    [][][]byte // local subrs per FD
	FontMatrix bool
}

// Font is the abstract font.
type Font struct {
	CFF            bool
	UPM            uint16
	Glyphs         []Glyph
	Adv            []uint16
	LSB            []int16
	NHM            int // number of long metrics, 0 for all
	VAdv           []uint16
	TSB            []int16
	NVM            int
	LongLoca       bool
	Subs           []CmapSub
	Recs           []CmapRec
	PostVer        int // 1,2,3
	Names          []string
	Italic         int32 // 16.16
	UnderPos       int16
	UnderThk       int16
	Fixed          uint32
	Kern           []KernSub
	KernVer        int
	OS2            *OS2
	Asc, Desc, Gap int16
	NameRecs       []NameRec
	Extra          map[string][]byte
	C              CFFInfo
	MacStyle       uint16
	Created        uint64
	Modified       uint64
	Version        string // sfnt version tag, default by kind
	NoOS2          bool
	GlyfTail       int // extra bytes at the end of glyf
}

func clone16(v []uint16) []uint16 { return append([]uint16{}, v...) }

func bboxOf(ct [][]Point) [4]int16 {
	first := true
	var b [4]int16
	for _, c := range ct {
		for _, p := range c {
			if first {
				b = [4]int16{p.X, p.Y, p.X, p.Y}
				first = false
			}
			b[0], b[1] = min(b[0], p.X), min(b[1], p.Y)
			b[2], b[3] = max(b[2], p.X), max(b[3], p.Y)
		}
	}
	return b
}

// Resolve returns the flattened points of a glyph.
func (f *Font) Resolve(gid int, depth int) [][]Point {
	g := f.Glyphs[gid]
	if len(g.Comps) == 0 {
		return g.Contours
	}
	var out [][]Point
	if depth > 10 {
		return nil
	}
	for _, c := range g.Comps {
		if int(c.GID) >= len(f.Glyphs) {
			continue
		}
		out = append(out, TransformContours(f.Resolve(int(c.GID), depth+1), c)...)
	}
	return out
}

// TransformContours applies a component transformation.
func TransformContours(cts [][]Point, c Component) [][]Point {
	var out [][]Point
	for _, ct := range cts {
		var n []Point
		for _, p := range ct {
			x, y := int64(p.X), int64(p.Y)
			if c.Kind != 0 {
				m := c.M
				if c.Kind == 1 {
					m = [4]int16{c.M[0], 0, 0, c.M[0]}
				} else if c.Kind == 2 {
					m = [4]int16{c.M[0], 0, 0, c.M[3]}
				}
				h := int64(1 << 13)
				x, y = (x*int64(m[0])+h)>>14+(y*int64(m[2])+h)>>14, (x*int64(m[1])+h)>>14+(y*int64(m[3])+h)>>14
			}
			n = append(n, Point{int16(x) + c.Dx, int16(y) + c.Dy, p.On})
		}
		out = append(out, n)
	}
	return out
}

// GlyphData returns the glyf table bytes of a glyph.
func (f *Font) GlyphData(i int) []byte {
	g := f.Glyphs[i]
	if g.Raw != nil {
		return g.Raw
	}
	if len(g.Contours) == 0 && len(g.Comps) == 0 {
		return nil
	}
	w := &W{}
	var bb [4]int16
	if g.BBox != nil {
		bb = *g.BBox
	} else {
		bb = bboxOf(f.Resolve(i, 0))
	}
	if len(g.Comps) > 0 {
		w.U16(0xFFFF, int(bb[0]), int(bb[1]), int(bb[2]), int(bb[3]))
		for k, c := range g.Comps {
			flags := 0x0002 | int(c.Extra)
			words := c.Words || c.Dx < -128 || c.Dx > 127 || c.Dy < -128 || c.Dy > 127
			if words {
				flags |= 1
			}
			switch c.Kind {
			case 1:
				flags |= 0x8
			case 2:
				flags |= 0x40
			case 3:
				flags |= 0x80
			}
			if k+1 < len(g.Comps) {
				flags |= 0x20
			}
			if g.HasInstr && (g.InstrOn>>k&1 != 0 || g.InstrOn == 0 && k+1 == len(g.Comps)) {
				flags |= 0x100
			}
			w.U16(flags, int(c.GID))
			if words {
				w.U16(int(c.Dx), int(c.Dy))
			} else {
				w.U8(int(c.Dx), int(c.Dy))
			}
			switch c.Kind {
			case 1:
				w.U16(int(c.M[0]))
			case 2:
				w.U16(int(c.M[0]), int(c.M[3]))
			case 3:
				w.U16(int(c.M[0]), int(c.M[1]), int(c.M[2]), int(c.M[3]))
			}
		}
		if g.HasInstr {
			w.U16(len(g.Instr))
			w.Bytes(g.Instr)
		}
	} else {
		w.U16(len(g.Contours), int(bb[0]), int(bb[1]), int(bb[2]), int(bb[3]))
		n := 0
		var pts []Point
		for _, c := range g.Contours {
			n += len(c)
			pts = append(pts, c...)
			w.U16(n - 1)
		}
		w.U16(len(g.Instr))
		w.Bytes(g.Instr)
		var flags []int
		xs, ys := &W{}, &W{}
		var px, py int16
		for k, p := range pts {
			fl := 0
			if p.On {
				fl |= 1
			}
			if k == 0 && g.Overlap {
				fl |= 0x40
			}
			dx, dy := p.X-px, p.Y-py
			px, py = p.X, p.Y
			if g.NoCompress {
				xs.U16(int(dx))
				ys.U16(int(dy))
			} else {
				switch {
				case dx == 0:
					fl |= 0x10
				case -256 < dx && dx < 0:
					fl |= 0x02
					xs.U8(int(-dx))
				case 0 < dx && dx < 256:
					fl |= 0x12
					xs.U8(int(dx))
				default:
					xs.U16(int(dx))
				}
				switch {
				case dy == 0:
					fl |= 0x20
				case -256 < dy && dy < 0:
					fl |= 0x04
					ys.U8(int(-dy))
				case 0 < dy && dy < 256:
					fl |= 0x24
					ys.U8(int(dy))
				default:
					ys.U16(int(dy))
				}
			}
			flags = append(flags, fl)
		}
		for k := 0; k < len(flags); {
			r := 1
			if !g.NoCompress {
				for k+r < len(flags) && flags[k+r] == flags[k] && r < 256 {
					r++
				}
			}
			if r > 1 {
				w.U8(flags[k]|8, r-1)
			} else {
				w.U8(flags[k])
			}
			k += r
		}
		w.Bytes(xs.B)
		w.Bytes(ys.B)
	}
	for k := 0; k < g.Pad; k++ {
		w.U8(0)
	}
	return w.B
}

func metricTable(adv []uint16, lsb []int16, n int) []byte {
	w := &W{}
	for i := range adv {
		if i < n {
			w.U16(int(adv[i]))
		}
		w.U16(int(lsb[i]))
	}
	return w.B
}

// EncodeCmapSub encodes one subtable.
func EncodeCmapSub(s CmapSub) []byte {
	if s.Raw != nil {
		return s.Raw
	}
	w := &W{}
	rs := make([]int, 0, len(s.Map))
	for r := range s.Map {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	switch s.Format {
	case 0:
		w.U16(0, 262, 0)
		arr := make([]byte, 256)
		for r, g := range s.Map {
			arr[r] = byte(g)
		}
		w.Bytes(arr)
	case 6:
		lo, hi := 0, -1
		if len(rs) > 0 {
			lo, hi = rs[0], rs[len(rs)-1]
		}
		w.U16(6, 10+2*(hi-lo+1), 0, lo, hi-lo+1)
		for r := lo; r <= hi; r++ {
			w.U16(int(s.Map[rune(r)]))
		}
	case 4:
		segs := s.Segs
		if segs == nil {
			for i := 0; i < len(rs); {
				j := i + 1
				if s.GlyphArray {
					for j < len(rs) && rs[j] == rs[j-1]+1 {
						j++
					}
				} else {
					for j < len(rs) && rs[j] == rs[j-1]+1 && s.Map[rune(rs[j])] == s.Map[rune(rs[j-1])]+1 {
						j++
					}
				}
				sg := Seg4{Start: uint16(rs[i]), End: uint16(rs[j-1])}
				if s.GlyphArray {
					sg.Delta = s.DeltaOnArr
					for k := i; k < j; k++ {
						sg.Array = append(sg.Array, s.Map[rune(rs[k])]-uint16(s.DeltaOnArr))
					}
				} else {
					sg.Delta = int16(int(s.Map[rune(rs[i])]) - rs[i])
				}
				segs = append(segs, sg)
				i = j
			}
		}
		if len(segs) == 0 || segs[len(segs)-1].End != 0xFFFF {
			segs = append(segs, Seg4{0xFFFF, 0xFFFF, 1, nil})
		}
		n := len(segs)
		sr, es := 1, 0
		for sr*2 <= n {
			sr *= 2
			es++
		}
		w.U16(4, 0, 0, 2*n, 2*sr, es, 2*(n-sr))
		for _, sg := range segs {
			w.U16(int(sg.End))
		}
		w.U16(0)
		for _, sg := range segs {
			w.U16(int(sg.Start))
		}
		for _, sg := range segs {
			w.U16(int(sg.Delta))
		}
		var arr []uint16
		for i, sg := range segs {
			if sg.Array == nil {
				w.U16(0)
			} else {
				w.U16(2 * (n - i + len(arr)))
				arr = append(arr, sg.Array...)
			}
		}
		for _, a := range arr {
			w.U16(int(a))
		}
		binary.BigEndian.PutUint16(w.B[2:], uint16(len(w.B)))
	case 12:
		gs := s.Groups
		if gs == nil {
			for i := 0; i < len(rs); {
				j := i + 1
				for j < len(rs) && rs[j] == rs[j-1]+1 && s.Map[rune(rs[j])] == s.Map[rune(rs[j-1])]+1 {
					j++
				}
				gs = append(gs, [3]uint32{uint32(rs[i]), uint32(rs[j-1]), uint32(s.Map[rune(rs[i])])})
				i = j
			}
		}
		w.U16(12, 0)
		w.U32(uint32(16+12*len(gs)), 0, uint32(len(gs)))
		for _, g := range gs {
			w.U32(g[0], g[1], g[2])
		}
	}
	return w.B
}

func (f *Font) cmapTable() []byte {
	w := &W{}
	w.U16(0, len(f.Recs))
	var blobs [][]byte
	off := 4 + 8*len(f.Recs)
	offs := []int{}
	for _, s := range f.Subs {
		b := EncodeCmapSub(s)
		blobs = append(blobs, b)
		offs = append(offs, off)
		off += len(b)
	}
	for _, r := range f.Recs {
		w.U16(r.Platform, r.Encoding)
		w.U32(uint32(offs[r.Sub]))
	}
	for _, b := range blobs {
		w.Bytes(b)
	}
	return w.B
}

func searchParams(n, size int) (int, int, int) {
	sr, es := 1, 0
	for sr*2 <= n {
		sr *= 2
		es++
	}
	if n == 0 {
		sr = 0
	}
	return sr * size & 0xFFFF, es, (n*size - sr*size) & 0xFFFF
}

// KernTable encodes a kern table.
func KernTable(ver int, subs []KernSub) []byte {
	w := &W{}
	if ver == 1 {
		w.U16(1, 0)
		w.U32(uint32(len(subs)))
	} else {
		w.U16(0, len(subs))
	}
	for _, s := range subs {
		n := 14 + 6*len(s.Pairs) + s.ExtraLen
		if s.Raw != nil {
			n = 6 + len(s.Raw)
		}
		if ver == 1 {
			// Apple's layout: 32-bit length, coverage flags, format, tuple index
			w.U32(uint32(n + 2))
			w.U8(s.Coverage, s.Format)
			w.U16(0)
		} else {
			w.U16(s.Version, n)
			w.U8(s.Format, s.Coverage)
		}
		if s.Raw != nil {
			w.Bytes(s.Raw)
			continue
		}
		a, b, c := searchParams(len(s.Pairs), 6)
		w.U16(len(s.Pairs), a, b, c)
		for _, p := range s.Pairs {
			w.U16(int(p.L), int(p.R), int(p.V))
		}
		w.Bytes(make([]byte, s.ExtraLen))
	}
	return w.B
}

// NameTable encodes a version 0 name table.
func NameTable(recs []NameRec) []byte {
	w := &W{}
	w.U16(0, len(recs), 6+12*len(recs))
	off := 0
	for _, r := range recs {
		w.U16(r.Platform, r.Encoding, r.Language, r.Name, len(r.Value), off)
		off += len(r.Value)
	}
	for _, r := range recs {
		w.Bytes(r.Value)
	}
	return w.B
}

func U16BE(s string) []byte {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r>>8), byte(r))
	}
	return b
}

func (o *OS2) Bytes() []byte {
	w := &W{}
	w.U16(o.Version, int(o.XAvg), int(o.Weight), int(o.Width), int(o.FsType))
	w.U16(650, 600, 0, 75, 651, 601, 1, 350, 49, 258) // sub/superscript, strikeout
	w.U16(0x0102)                                     // family class
	w.U8(2, 0, 5, 3, 6, 7, 8, 9, 1, 4)                // panose
	w.U32(o.Range[0], o.Range[1], o.Range[2], o.Range[3])
	w.Str("VRFY")
	w.U16(int(o.FsSelection), int(o.First), int(o.Last))
	w.U16(int(o.TypoAsc), int(o.TypoDesc), int(o.TypoGap), int(o.WinAsc), int(o.WinDesc))
	if o.Version >= 1 {
		w.U32(o.CodePage[0], o.CodePage[1])
	}
	if o.Version >= 2 {
		w.U16(int(o.XHeight), int(o.CapHeight), int(o.DefaultChar), int(o.BreakChar), int(o.MaxContext))
	}
	if o.Version >= 5 {
		w.U16(int(o.LowerOpt), int(o.UpperOpt))
	}
	return w.B
}

// Tables builds all tables.
func (f *Font) Tables() map[string][]byte {
	t := map[string][]byte{}
	n := len(f.Glyphs)
	upm := f.UPM
	if upm == 0 {
		upm = 1000
	}
	adv, lsb := f.Adv, f.LSB
	if adv == nil {
		adv = make([]uint16, n)
		for i := range adv {
			adv[i] = uint16(500 + 10*i)
		}
	}
	if lsb == nil {
		lsb = make([]int16, n)
		for i := range lsb {
			lsb[i] = int16(3*i - 4)
		}
	}
	nhm := f.NHM
	if nhm == 0 {
		nhm = n
	}
	var advMax uint16
	for _, a := range adv {
		advMax = max(advMax, a)
	}
	long := f.LongLoca
	if !f.CFF {
		glyf := &W{}
		offs := []uint32{0}
		maxPts, maxCt := 0, 0
		for i := range f.Glyphs {
			glyf.Bytes(f.GlyphData(i))
			if !long && glyf.Len()%2 == 1 {
				glyf.U8(0)
			}
			offs = append(offs, uint32(glyf.Len()))
			p := 0
			for _, c := range f.Glyphs[i].Contours {
				p += len(c)
			}
			maxPts, maxCt = max(maxPts, p), max(maxCt, len(f.Glyphs[i].Contours))
		}
		if glyf.Len() > 131070 {
			long = true
		}
		for k := 0; k < f.GlyfTail; k++ {
			glyf.U8(0)
		}
		if glyf.Len() == 0 {
			glyf.U8(0, 0)
		}
		t["glyf"] = glyf.B
		l := &W{}
		for _, o := range offs {
			if long {
				l.U32(o)
			} else {
				l.U16(int(o / 2))
			}
		}
		t["loca"] = l.B
		m := &W{}
		m.U32(0x00010000)
		m.U16(n, maxPts, maxCt, maxPts*2, maxCt*2, 2, 1, 3, 4, 0, 64, 20, 2, 3)
		t["maxp"] = m.B
	} else {
		m := &W{}
		m.U32(0x00005000)
		m.U16(n)
		t["maxp"] = m.B
		t["CFF "] = f.CFFTable(adv)
	}
	h := &W{}
	h.U32(0x00010000, 0x00018000, 0, 0x5F0F3CF5)
	h.U16(0x000B, int(upm))
	cr, md := f.Created, f.Modified
	if cr == 0 {
		cr = 0xC0000000
	}
	if md == 0 {
		md = 0xD0000000
	}
	h.U32(uint32(cr>>32), uint32(cr), uint32(md>>32), uint32(md))
	bb := [4]int16{-10, -200, 900, 800}
	h.U16(int(bb[0]), int(bb[1]), int(bb[2]), int(bb[3]), int(f.MacStyle), 9, 2)
	if long {
		h.U16(1)
	} else {
		h.U16(0)
	}
	h.U16(0)
	t["head"] = h.B
	hh := &W{}
	hh.U32(0x00010000)
	hh.U16(int(f.Asc), int(f.Desc), int(f.Gap), int(advMax), -5, -6, 900, 1, 0, 0, 0, 0, 0, 0, 0, nhm)
	t["hhea"] = hh.B
	t["hmtx"] = metricTable(adv, lsb, nhm)
	if f.VAdv != nil {
		nvm := f.NVM
		if nvm == 0 {
			nvm = n
		}
		vh := &W{}
		vh.U32(0x00011000)
		vh.U16(500, -500, 0, 1000, 1, 2, 800, 0, 1, 0, 0, 0, 0, 0, 0, nvm)
		t["vhea"] = vh.B
		t["vmtx"] = metricTable(f.VAdv, f.TSB, nvm)
	}
	t["cmap"] = f.cmapTable()
	t["name"] = NameTable(f.NameRecs)
	if !f.NoOS2 {
		o := f.OS2
		if o == nil {
			o = &OS2{Version: 4, Weight: 400, Width: 5, WinAsc: 900, WinDesc: 250, TypoAsc: 700, TypoDesc: -200, TypoGap: 90, First: 32, Last: 0xFFFF, XHeight: 480, CapHeight: 690, Range: [4]uint32{0x11, 0x22, 0x44, 0x8}}
		}
		t["OS/2"] = o.Bytes()
	}
	p := &W{}
	pv := f.PostVer
	if pv == 0 {
		pv = 3
	}
	p.U32(map[int]uint32{1: 0x00010000, 2: 0x00020000, 3: 0x00030000}[pv], uint32(f.Italic))
	p.U16(int(f.UnderPos), int(f.UnderThk))
	p.U32(f.Fixed, 1, 2, 3, 4)
	if pv == 2 {
		p.U16(n)
		std := map[string]int{}
		for i, s := range MacNames {
			if _, ok := std[s]; !ok {
				std[s] = i
			}
		}
		extra := map[string]int{}
		var list []string
		for _, s := range f.Names {
			if i, ok := std[s]; ok {
				p.U16(i)
			} else {
				if _, ok := extra[s]; !ok {
					extra[s] = len(list)
					list = append(list, s)
				}
				p.U16(258 + extra[s])
			}
		}
		for _, s := range list {
			p.U8(len(s))
			p.Str(s)
		}
	}
	t["post"] = p.B
	if f.Kern != nil {
		t["kern"] = KernTable(f.KernVer, f.Kern)
	}
	for k, v := range f.Extra {
		t[k] = v
	}
	return t
}

func Checksum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var q [4]byte
		copy(q[:], b[i:])
		s += binary.BigEndian.Uint32(q[:])
	}
	return s
}

func (f *Font) VersionTag() string {
	if f.Version != "" {
		return f.Version
	}
	if f.CFF {
		return "OTTO"
	}
	return "\x00\x01\x00\x00"
}

// SFNT builds the font file.
func (f *Font) SFNT() []byte { return BuildSFNT(f.VersionTag(), f.Tables()) }

// BuildSFNT assembles an sfnt file out of tables.
func BuildSFNT(version string, tables map[string][]byte) []byte {
	tags := []string{}
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	w := &W{}
	w.Str(version)
	n := len(tags)
	sr, es, rs := searchParams(n, 16)
	w.U16(n, sr, es, rs)
	off := 12 + 16*n
	headOff := -1
	for _, t := range tags {
		b := tables[t]
		c := append([]byte{}, b...)
		if t == "head" && len(c) >= 12 {
			headOff = off
			copy(c[8:12], []byte{0, 0, 0, 0})
		}
		w.Str(t)
		w.U32(Checksum(c), uint32(off), uint32(len(b)))
		off += (len(b) + 3) &^ 3
	}
	for _, t := range tags {
		c := append([]byte{}, tables[t]...)
		if t == "head" && len(c) >= 12 {
			copy(c[8:12], []byte{0, 0, 0, 0})
		}
		w.Bytes(c)
		w.Pad4()
	}
	if headOff >= 0 {
		binary.BigEndian.PutUint32(w.B[headOff+8:], 0xB1B0AFBA-Checksum(w.B))
	}
	return w.B
}
