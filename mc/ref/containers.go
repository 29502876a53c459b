package ref

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"sort"

	"github.com/andybalholm/brotli"
)

// Member is one font of a collection.
type Member struct {
	Version string
	Tables  map[string][]byte
}

func sortedTags(t map[string][]byte) []string {
	var tags []string
	for k := range t {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	return tags
}

// BuildTTC builds a collection. order gives the order in which the members' directories are laid out;
// share stores identical tables once.
func BuildTTC(ms []Member, order []int, share bool, version int) []byte {
	w := &W{}
	w.Str("ttcf")
	w.U16(version, 0)
	w.U32(uint32(len(ms)))
	hdr := 12 + 4*len(ms)
	if version == 2 {
		hdr += 12
	}
	dirOff := make([]int, len(ms))
	off := hdr
	for _, k := range order {
		dirOff[k] = off
		off += 12 + 16*len(ms[k].Tables)
	}
	for _, o := range dirOff {
		w.U32(uint32(o))
	}
	if version == 2 {
		w.U32(0, 0, 0)
	}
	data := &W{}
	pool := map[string]int{}
	for _, k := range order {
		tags := sortedTags(ms[k].Tables)
		n := len(tags)
		sr, es, rs := searchParams(n, 16)
		w.Str(ms[k].Version)
		w.U16(n, sr, es, rs)
		for _, t := range tags {
			b := ms[k].Tables[t]
			key := string(b)
			p, ok := pool[key]
			if !ok || !share {
				p = off + data.Len()
				pool[key] = p
				data.Bytes(b)
				data.Pad4()
			}
			w.Str(t)
			w.U32(Checksum(b), uint32(p), uint32(len(b)))
		}
	}
	w.Bytes(data.B)
	return w.B
}

// WOFFOpts are the encoding choices of a WOFF file.
type WOFFOpts struct {
	Compress func(tag string) bool
	Level    int
	Reverse  bool // table data in reverse order
	Meta     bool
}

// BuildWOFF builds a WOFF file.
func BuildWOFF(version string, tables map[string][]byte, o WOFFOpts) []byte {
	tags := sortedTags(tables)
	// checksums as in the plain sfnt
	plain := BuildSFNT(version, tables)
	ds, tb, err := ReadDir(plain)
	if err != nil {
		panic(err)
	}
	sums := map[string]uint32{}
	for _, d := range ds {
		sums[d.Tag] = d.Sum
	}
	enc := map[string][]byte{}
	for _, t := range tags {
		enc[t] = tb[t]
		if o.Compress != nil && o.Compress(t) {
			var bb bytes.Buffer
			lv := o.Level
			if lv == 0 {
				lv = 9
			}
			z, _ := zlib.NewWriterLevel(&bb, lv)
			z.Write(tb[t])
			z.Close()
			if bb.Len() < len(tb[t]) {
				enc[t] = bb.Bytes()
			}
		}
	}
	order := append([]string{}, tags...)
	if o.Reverse {
		sort.Sort(sort.Reverse(sort.StringSlice(order)))
	}
	off := 44 + 20*len(tags)
	offs := map[string]int{}
	data := &W{}
	for _, t := range order {
		offs[t] = off + data.Len()
		data.Bytes(enc[t])
		data.Pad4()
	}
	total := 12 + 16*len(tags)
	for _, t := range tags {
		total += (len(tables[t]) + 3) &^ 3
	}
	var meta []byte
	mo, ml, mol := 0, 0, 0
	if o.Meta {
		var bb bytes.Buffer
		z := zlib.NewWriter(&bb)
		z.Write([]byte("<?xml version=\"1.0\"?><metadata version=\"1.0\"></metadata>"))
		z.Close()
		meta = bb.Bytes()
		mo, ml, mol = off+data.Len(), len(meta), 56
	}
	w := &W{}
	w.Str("wOFF")
	w.Str(version)
	w.U32(uint32(off + data.Len() + len(meta)))
	w.U16(len(tags), 0)
	w.U32(uint32(total))
	w.U16(1, 0)
	w.U32(uint32(mo), uint32(ml), uint32(mol), 0, 0)
	for _, t := range tags {
		w.Str(t)
		w.U32(uint32(offs[t]), uint32(len(enc[t])), uint32(len(tables[t])), sums[t])
	}
	w.Bytes(data.B)
	w.Bytes(meta)
	return w.B
}

// EOTOpts are the header choices of an EOT file.
type EOTOpts struct {
	Version uint32
	XOR     bool
	Strings [4]int // lengths in characters of family, style, version, full name
	Root    int
	Sig     int
	EUDC    int
	Tail    int
}

// BuildEOT wraps a font file.
func BuildEOT(sfnt []byte, o EOTOpts) []byte {
	w := &W{}
	l16 := func(v ...int) {
		for _, x := range v {
			w.U8(x&255, x>>8&255)
		}
	}
	l32 := func(v ...uint32) {
		for _, x := range v {
			w.U8(int(x&255), int(x>>8&255), int(x>>16&255), int(x>>24))
		}
	}
	flags := uint32(0)
	if o.XOR {
		flags |= 0x10000000
	}
	l32(0, uint32(len(sfnt)), o.Version, flags)
	for i := 0; i < 10; i++ {
		w.U8(i)
	}
	w.U8(1, 0)
	l32(400)
	l16(0, 0x504C)
	l32(1, 2, 3, 4, 5, 6)
	l32(0x12345678)
	l32(0, 0, 0, 0)
	l16(0)
	str := func(n int) {
		l16(2 * n)
		for i := 0; i < n; i++ {
			l16('A' + i%26)
		}
	}
	str(o.Strings[0])
	l16(0)
	str(o.Strings[1])
	l16(0)
	str(o.Strings[2])
	l16(0)
	str(o.Strings[3])
	if o.Version >= 0x00020001 {
		l16(0)
		str(o.Root)
	}
	if o.Version >= 0x00020002 {
		l32(0x50475342, 0)
		l16(0)
		l16(o.Sig)
		w.Bytes(bytes.Repeat([]byte{0xAA}, o.Sig))
		l32(0, uint32(o.EUDC))
		w.Bytes(bytes.Repeat([]byte{0xBB}, o.EUDC))
	}
	c := append([]byte{}, sfnt...)
	if o.XOR {
		for i := range c {
			c[i] ^= 0x50
		}
	}
	w.Bytes(c)
	w.Bytes(make([]byte, o.Tail))
	binary.LittleEndian.PutUint32(w.B, uint32(len(w.B)))
	return w.B
}

// W2Opts are the encoding choices of a WOFF2 file.
type W2Opts struct {
	GlyfTransform bool
	Hmtx          int  // 0 plain, else flag bits
	BBoxAlways    bool // explicit bounding boxes for every glyph
	Triplet       int  // 0 shortest, 1 always four bytes, 2 next longer form
	U255          int  // 0 shortest, 1 always three bytes
	OverlapBitmap bool
	LocaLong      int // -1 as head
	Order         []string
	ArbTags       bool // write every tag explicitly
	Quality       int
	Stream        func([]byte) []byte // changes the data before compression
	// Edit changes the data of a table and its declared original and transformed (-1: none) lengths
	Edit func(tag string, b []byte, orig, tl int) ([]byte, int, int)
}

func u255(w *W, v int, mode int) {
	switch {
	case mode == 1:
		w.U8(253, v>>8, v)
	case v < 253:
		w.U8(v)
	case v < 506:
		w.U8(255, v-253)
	case v < 762:
		w.U8(254, v-506)
	default:
		w.U8(253, v>>8, v)
	}
}

func base128(w *W, v uint32) {
	var b []int
	b = append(b, int(v&0x7f))
	v >>= 7
	for v > 0 {
		b = append(b, int(v&0x7f)|0x80)
		v >>= 7
	}
	for i := len(b) - 1; i >= 0; i-- {
		w.U8(b[i])
	}
}

var w2tags = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "cvt ", "fpgm", "glyf", "loca", "prep", "CFF ", "VORG", "EBDT", "EBLC", "gasp", "hdmx", "kern", "LTSH", "PCLT", "VDMX", "vhea", "vmtx", "BASE", "GDEF", "GPOS", "GSUB", "EBSC", "JSTF", "MATH", "CBDT", "CBLC", "COLR", "CPAL", "SVG ", "sbix", "acnt", "avar", "bdat", "bloc", "bsln", "cvar", "fdsc", "feat", "fmtx", "fvar", "gvar", "hsty", "just", "lcar", "mort", "morx", "opbd", "prop", "trak", "Zapf", "Silf", "Glat", "Gloc", "Feat", "Sill"}

// tripletForms lists the legal encodings of a point delta: flag (without on-curve bit) and bytes.
func tripletForms(dx, dy int) [][]int {
	ax, ay := dx, dy
	sx, sy := 1, 1
	if dx < 0 {
		ax, sx = -dx, 0
	}
	if dy < 0 {
		ay, sy = -dy, 0
	}
	var out [][]int
	if dx == 0 && ay < 1280 {
		out = append(out, []int{(ay >> 8 << 1) + sy, ay & 255})
	}
	if dy == 0 && ax < 1280 {
		out = append(out, []int{10 + (ax >> 8 << 1) + sx, ax & 255})
	}
	sg := sx + 2*sy
	if ax >= 1 && ay >= 1 && ax <= 64 && ay <= 64 {
		out = append(out, []int{20 + (ax-1)>>4<<4 + (ay-1)>>4<<2 + sg, ((ax-1)&15)<<4 | (ay-1)&15})
	}
	if ax >= 1 && ay >= 1 && ax <= 768 && ay <= 768 {
		out = append(out, []int{84 + 12*((ax-1)>>8) + 4*((ay-1)>>8) + sg, (ax - 1) & 255, (ay - 1) & 255})
	}
	if ax < 4096 && ay < 4096 {
		out = append(out, []int{120 + sg, ax >> 4, (ax&15)<<4 | ay>>8, ay & 255})
	}
	out = append(out, []int{124 + sg, ax >> 8, ax & 255, ay >> 8, ay & 255})
	return out
}

// TransformGlyf builds the transformed glyf table.
func TransformGlyf(f *RFont, long bool, o W2Opts) []byte {
	nc, np, fs, gs, cs, bb, is := &W{}, &W{}, &W{}, &W{}, &W{}, &W{}, &W{}
	bmp := make([]byte, (f.N+31)/32*4)
	ovl := make([]byte, (f.N+31)/32*4)
	for i, g := range f.Glyphs {
		if len(g.Data) == 0 {
			nc.U16(0)
			continue
		}
		bbox := func() {
			bmp[i/8] |= 0x80 >> (i % 8)
			for _, v := range g.BBox {
				bb.U16(int(v))
			}
		}
		if g.Overlap {
			ovl[i/8] |= 0x80 >> (i % 8)
		}
		if len(g.Comps) > 0 {
			nc.U16(0xFFFF)
			// copy the component records verbatim
			end := 10
			for {
				fl := int(binary.BigEndian.Uint16(g.Data[end:]))
				n := 6
				if fl&1 != 0 {
					n += 2
				}
				if fl&8 != 0 {
					n += 2
				} else if fl&0x40 != 0 {
					n += 4
				} else if fl&0x80 != 0 {
					n += 8
				}
				cs.Bytes(g.Data[end : end+n])
				end += n
				if fl&0x20 == 0 {
					break
				}
			}
			if g.HasInstr {
				u255(gs, len(g.Instr), o.U255)
				is.Bytes(g.Instr)
			}
			bbox()
			continue
		}
		nc.U16(len(g.Contours))
		px, py := 0, 0
		for _, c := range g.Contours {
			u255(np, len(c), o.U255)
			for _, p := range c {
				forms := tripletForms(int(p.X)-px, int(p.Y)-py)
				px, py = int(p.X), int(p.Y)
				t := forms[0]
				if o.Triplet == 1 {
					t = forms[len(forms)-1]
				} else if o.Triplet == 2 && len(forms) > 1 {
					t = forms[1]
				}
				fl := t[0]
				if !p.On {
					fl |= 0x80
				}
				fs.U8(fl)
				gs.U8(t[1:]...)
			}
		}
		u255(gs, len(g.Instr), o.U255)
		is.Bytes(g.Instr)
		if o.BBoxAlways || bboxOf(g.Contours) != g.BBox {
			bbox()
		}
	}
	w := &W{}
	opt := 0
	if o.OverlapBitmap {
		opt = 1
	}
	lf := 0
	if long {
		lf = 1
	}
	w.U16(0, opt, f.N, lf)
	w.U32(uint32(nc.Len()), uint32(np.Len()), uint32(fs.Len()), uint32(gs.Len()), uint32(cs.Len()), uint32(bb.Len()+len(bmp)), uint32(is.Len()))
	for _, s := range []*W{nc, np, fs, gs, cs, {B: bmp}, bb, is} {
		w.Bytes(s.B)
	}
	if o.OverlapBitmap {
		w.Bytes(ovl)
	}
	return w.B
}

// HmtxTransformable tells which of the transform flag bits are legal for the font.
func HmtxTransformable(f *RFont) int {
	nm := int(binary.BigEndian.Uint16(f.Tables["hhea"][34:]))
	fl := 3
	for i := 0; i < f.N; i++ {
		x := int16(0)
		if len(f.Glyphs[i].Data) > 0 {
			x = f.Glyphs[i].BBox[0]
		}
		if f.LSB[i] != x {
			if i < nm {
				fl &^= 1
			} else {
				fl &^= 2
			}
		}
	}
	return fl
}

// BuildWOFF2 builds a WOFF2 file. head bit 11 has to be set in the tables.
func BuildWOFF2(version string, tables map[string][]byte, o W2Opts) []byte {
	f, err := ReadTables(version, tables)
	if err != nil {
		panic(err)
	}
	order := o.Order
	if order == nil {
		order = sortedTags(tables)
	}
	w := &W{}
	w.Str("wOF2")
	w.Str(version)
	w.U32(0)
	w.U16(len(order), 0)
	total := 12 + 16*len(order)
	for _, t := range order {
		total += (len(tables[t]) + 3) &^ 3
	}
	w.U32(uint32(total), 0)
	w.U16(1, 0)
	w.U32(0, 0, 0, 0, 0)
	data := &W{}
	long := f.LongLoca
	for _, t := range order {
		ti := 63
		for i, x := range w2tags {
			if x == t && !o.ArbTags {
				ti = i
			}
		}
		tv := 0
		b := tables[t]
		tl := -1
		orig := len(b)
		switch {
		case (t == "glyf" || t == "loca") && !o.GlyfTransform:
			tv = 3
		case t == "glyf":
			b = TransformGlyf(f, long, o)
			tl = len(b)
		case t == "loca":
			b = nil
			tl = 0
		case t == "hmtx" && o.Hmtx != 0:
			tv = 1
			nm := int(binary.BigEndian.Uint16(tables["hhea"][34:]))
			h := &W{}
			h.U8(o.Hmtx)
			for i := 0; i < nm; i++ {
				h.U16(int(f.Adv[i]))
			}
			if o.Hmtx&1 == 0 {
				for i := 0; i < nm; i++ {
					h.U16(int(f.LSB[i]))
				}
			}
			if o.Hmtx&2 == 0 {
				for i := nm; i < f.N; i++ {
					h.U16(int(f.LSB[i]))
				}
			}
			b = h.B
			tl = len(b)
		}
		if o.Edit != nil {
			b, orig, tl = o.Edit(t, b, orig, tl)
		}
		w.U8(tv<<6 | ti)
		if ti == 63 {
			w.Str(t)
		}
		base128(w, uint32(orig))
		if tl >= 0 {
			base128(w, uint32(tl))
		}
		data.Bytes(b)
	}
	if o.Stream != nil {
		data.B = o.Stream(data.B)
	}
	var bb bytes.Buffer
	q := o.Quality
	z := brotli.NewWriterLevel(&bb, q)
	z.Write(data.B)
	z.Close()
	w.Bytes(bb.Bytes())
	binary.BigEndian.PutUint32(w.B[20:], uint32(bb.Len()))
	w.Pad4()
	binary.BigEndian.PutUint32(w.B[8:], uint32(w.Len()))
	return w.B
}

// KnownTags lists the tags that WOFF2 numbers.
func KnownTags() []string { return w2tags }

// BuildTTCTail is BuildTTC with the directories behind the tables.
func BuildTTCTail(ms []Member, order []int, share bool, version int) []byte {
	hdr := 12 + 4*len(ms)
	if version == 2 {
		hdr += 12
	}
	data := &W{}
	pool := map[string]int{}
	dirs := make([]*W, len(ms))
	for _, k := range order {
		tags := sortedTags(ms[k].Tables)
		n := len(tags)
		sr, es, rs := searchParams(n, 16)
		d := &W{}
		d.Str(ms[k].Version)
		d.U16(n, sr, es, rs)
		for _, t := range tags {
			b := ms[k].Tables[t]
			p, ok := pool[string(b)]
			if !ok || !share {
				p = hdr + data.Len()
				pool[string(b)] = p
				data.Bytes(b)
				data.Pad4()
			}
			d.Str(t)
			d.U32(Checksum(b), uint32(p), uint32(len(b)))
		}
		dirs[k] = d
	}
	offs := make([]int, len(ms))
	tail := &W{}
	for _, k := range order {
		offs[k] = hdr + data.Len() + tail.Len()
		tail.Bytes(dirs[k].B)
	}
	w := &W{}
	w.Str("ttcf")
	w.U16(version, 0)
	w.U32(uint32(len(ms)))
	for _, o := range offs {
		w.U32(uint32(o))
	}
	if version == 2 {
		w.U32(0, 0, 0)
	}
	w.Bytes(data.B)
	w.Bytes(tail.B)
	return w.B
}

// DecodeWOFF is a decoder of WOFF files.
func DecodeWOFF(b []byte) (string, map[string][]byte, error) {
	r := &rd{b: b}
	if string(r.bytes(4)) != "wOFF" {
		return "", nil, fmt.Errorf("signature")
	}
	version := string(r.bytes(4))
	if r.u(4) != len(b) {
		return "", nil, fmt.Errorf("length")
	}
	n := r.u(2)
	r.bytes(30)
	tables := map[string][]byte{}
	for i := 0; i < n; i++ {
		tag := string(r.bytes(4))
		off, cl, ol := r.u(4), r.u(4), r.u(4)
		r.u(4)
		d := (&rd{b: b, p: off}).bytes(cl)
		if cl < ol {
			z, err := zlib.NewReader(bytes.NewReader(d))
			if err != nil {
				return "", nil, err
			}
			if d, err = io.ReadAll(z); err != nil {
				return "", nil, err
			}
		}
		if r.err != nil || len(d) != ol {
			return "", nil, fmt.Errorf("%s: length", tag)
		}
		tables[tag] = d
	}
	return version, tables, nil
}
