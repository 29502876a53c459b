package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/andybalholm/brotli"
)

func readBase128(r *rd) (uint32, error) {
	v := uint64(0)
	for i := 0; i < 5; i++ {
		b := r.u(1)
		if r.err != nil {
			return 0, r.err
		}
		if i == 0 && b == 0x80 {
			return 0, fmt.Errorf("UIntBase128 with leading zeros")
		}
		v = v<<7 | uint64(b&0x7f)
		if v > 0xFFFFFFFF {
			return 0, fmt.Errorf("UIntBase128 overflow")
		}
		if b&0x80 == 0 {
			return uint32(v), nil
		}
	}
	return 0, fmt.Errorf("UIntBase128 too long")
}

func read255(r *rd) int {
	switch c := r.u(1); c {
	case 253:
		return r.u(2)
	case 255:
		return r.u(1) + 253
	case 254:
		return r.u(1) + 506
	default:
		return c
	}
}

// triplet decodes a point delta.
func triplet(flag int, r *rd) (int, int) {
	sgn := func(bit int) int {
		if flag>>bit&1 == 1 {
			return 1
		}
		return -1
	}
	switch {
	case flag < 10:
		return 0, sgn(0) * (flag/2*256 + r.u(1))
	case flag < 20:
		return sgn(0) * ((flag-10)/2*256 + r.u(1)), 0
	case flag < 84:
		k, b := flag-20, r.u(1)
		return sgn(0) * (k/16*16 + 1 + b/16), sgn(1) * (k%16/4*16 + 1 + b%16)
	case flag < 120:
		k := flag - 84
		x := r.u(1)
		y := r.u(1)
		return sgn(0) * (k/12*256 + 1 + x), sgn(1) * (k%12/4*256 + 1 + y)
	case flag < 124:
		v := r.u(3)
		return sgn(0) * (v >> 12), sgn(1) * (v & 4095)
	default:
		x := r.u(2)
		y := r.u(2)
		return sgn(0) * x, sgn(1) * y
	}
}

// DecodeWOFF2 is a strict decoder of single fonts. The transformed tables are rebuilt in a canonical form.
func DecodeWOFF2(b []byte) (string, map[string][]byte, error) {
	r := &rd{b: b}
	if string(r.bytes(4)) != "wOF2" {
		return "", nil, fmt.Errorf("signature")
	}
	version := string(r.bytes(4))
	if n := r.u(4); n != len(b) {
		return "", nil, fmt.Errorf("length %d of %d bytes", n, len(b))
	}
	num := r.u(2)
	if r.u(2) != 0 || num == 0 {
		return "", nil, fmt.Errorf("reserved or number of tables")
	}
	r.u(4)
	comp := r.u(4)
	r.u(4)
	for i := 0; i < 5; i++ {
		if r.u(4) != 0 {
			return "", nil, fmt.Errorf("metadata or private data")
		}
	}
	type entry struct {
		tag       string
		tv        int
		orig, len uint32
	}
	var es []entry
	seen := map[string]int{}
	total := 0
	for i := 0; i < num; i++ {
		fl := r.u(1)
		e := entry{tv: fl >> 6}
		if fl&63 == 63 {
			e.tag = string(r.bytes(4))
		} else {
			e.tag = w2tags[fl&63]
		}
		var err error
		if e.orig, err = readBase128(r); err != nil {
			return "", nil, err
		}
		e.len = e.orig
		gl := e.tag == "glyf" || e.tag == "loca"
		switch {
		case gl && e.tv == 3, !gl && e.tv == 0:
		case gl && e.tv == 0, e.tag == "hmtx" && e.tv == 1:
			if e.len, err = readBase128(r); err != nil {
				return "", nil, err
			}
			if e.tag == "loca" && e.len != 0 {
				return "", nil, fmt.Errorf("transformed loca of length %d", e.len)
			}
		default:
			return "", nil, fmt.Errorf("%s: transform %d", e.tag, e.tv)
		}
		if _, ok := seen[e.tag]; ok {
			return "", nil, fmt.Errorf("%s twice", e.tag)
		}
		if e.tag == "DSIG" {
			return "", nil, fmt.Errorf("DSIG present")
		}
		seen[e.tag] = i
		es = append(es, e)
		total += int(e.len)
	}
	gi, okg := seen["glyf"]
	li, okl := seen["loca"]
	if okg != okl || okg && (es[gi].tv != es[li].tv || li < gi) {
		return "", nil, fmt.Errorf("glyf and loca")
	}
	data := r.bytes(comp)
	if r.err != nil {
		return "", nil, r.err
	}
	rest := b[r.p:]
	if len(rest) > 3 || len(bytes.Trim(rest, "\x00")) > 0 {
		return "", nil, fmt.Errorf("%d bytes behind the data", len(rest))
	}
	src := bytes.NewReader(data)
	raw, err := io.ReadAll(brotli.NewReader(src))
	if err != nil {
		return "", nil, err
	}
	if len(raw) != total {
		return "", nil, fmt.Errorf("%d bytes of tables instead of %d", len(raw), total)
	}
	tables := map[string][]byte{}
	p := 0
	for _, e := range es {
		tables[e.tag] = raw[p : p+int(e.len) : p+int(e.len)]
		p += int(e.len)
	}
	head := tables["head"]
	if len(head) < 54 {
		return "", nil, fmt.Errorf("head")
	}
	if binary.BigEndian.Uint16(head[16:])&0x0800 == 0 {
		return "", nil, fmt.Errorf("head flag bit 11 not set")
	}
	if okg && es[gi].tv == 0 {
		xmin, err := untransform(tables, head)
		if err != nil {
			return "", nil, err
		}
		if len(tables["loca"]) != int(es[li].orig) {
			return "", nil, fmt.Errorf("loca of %d bytes, declared %d", len(tables["loca"]), es[li].orig)
		}
		if hi, ok := seen["hmtx"]; ok && es[hi].tv == 1 {
			if err := unhmtx(tables, xmin); err != nil {
				return "", nil, err
			}
			if len(tables["hmtx"]) != int(es[hi].orig) {
				return "", nil, fmt.Errorf("hmtx of %d bytes, declared %d", len(tables["hmtx"]), es[hi].orig)
			}
		}
	} else if hi, ok := seen["hmtx"]; ok && es[hi].tv == 1 {
		return "", nil, fmt.Errorf("transformed hmtx without transformed glyf")
	}
	return version, tables, nil
}

func untransform(tables map[string][]byte, head []byte) ([]int16, error) {
	r := &rd{b: tables["glyf"]}
	if r.u(2) != 0 {
		return nil, fmt.Errorf("glyf: reserved field")
	}
	opt := r.u(2)
	n := r.u(2)
	lf := r.u(2)
	if opt > 1 || lf > 1 {
		return nil, fmt.Errorf("glyf: options %d, loca format %d", opt, lf)
	}
	if lf != int(binary.BigEndian.Uint16(head[50:])) {
		return nil, fmt.Errorf("glyf: loca format %d, head %d", lf, binary.BigEndian.Uint16(head[50:]))
	}
	if n != int(binary.BigEndian.Uint16(tables["maxp"][4:])) {
		return nil, fmt.Errorf("glyf: %d glyphs, maxp %d", n, binary.BigEndian.Uint16(tables["maxp"][4:]))
	}
	var sz [7]int
	for i := range sz {
		sz[i] = r.u(4)
	}
	var s [7]*rd
	for i := range s {
		s[i] = &rd{b: r.bytes(sz[i])}
	}
	bs := (n + 31) / 32 * 4
	ovl := make([]byte, bs)
	if opt == 1 {
		ovl = r.bytes(bs)
	}
	if r.err != nil {
		return nil, r.err
	}
	if r.p != len(r.b) {
		return nil, fmt.Errorf("glyf: %d bytes behind the streams", len(r.b)-r.p)
	}
	bmp := s[5].bytes(bs)
	if s[5].err != nil {
		return nil, fmt.Errorf("glyf: bounding box bitmap: %v", s[5].err)
	}
	bit := func(m []byte, i int) bool { return m[i/8]>>(7-i%8)&1 == 1 }
	for i := n; i < 8*bs; i++ {
		if bit(bmp, i) || bit(ovl, i) {
			return nil, fmt.Errorf("glyf: bitmap bit %d set for %d glyphs", i, n)
		}
	}
	f := &Font{Glyphs: make([]Glyph, n)}
	xmin := make([]int16, n)
	glyf := &W{}
	loca := &W{}
	add := func() error {
		if lf == 0 {
			if glyf.Len() > 131070 {
				return fmt.Errorf("glyf: too long for short loca")
			}
			loca.U16(glyf.Len() / 2)
		} else {
			loca.U32(uint32(glyf.Len()))
		}
		return nil
	}
	for i := 0; i < n; i++ {
		if err := add(); err != nil {
			return nil, err
		}
		g := &f.Glyphs[i]
		nc := int(s[0].i16())
		has := bit(bmp, i)
		var bb [4]int16
		if has {
			for k := range bb {
				bb[k] = s[5].i16()
			}
			g.BBox = &bb
		}
		g.Overlap = bit(ovl, i)
		switch {
		case nc == 0:
			if has || g.Overlap {
				return nil, fmt.Errorf("glyph %d: bits for an empty glyph", i)
			}
			continue
		case nc > 0:
			var ct []int
			for k := 0; k < nc; k++ {
				ct = append(ct, read255(s[1]))
			}
			x, y := 0, 0
			for _, c := range ct {
				var pts []Point
				for k := 0; k < c; k++ {
					fl := s[2].u(1)
					dx, dy := triplet(fl&0x7f, s[3])
					x += dx
					y += dy
					if x != int(int16(x)) || y != int(int16(y)) {
						return nil, fmt.Errorf("glyph %d: coordinate out of range", i)
					}
					pts = append(pts, Point{int16(x), int16(y), fl&0x80 == 0})
				}
				g.Contours = append(g.Contours, pts)
			}
			g.Instr = s[6].bytes(read255(s[3]))
			if !has {
				bb = bboxOf(g.Contours)
			}
			g.BBox = &bb
			glyf.Bytes(f.GlyphData(i))
		case nc == -1:
			if !has || g.Overlap {
				return nil, fmt.Errorf("glyph %d: bits for a composite glyph", i)
			}
			w := &W{}
			w.U16(0xFFFF, int(bb[0]), int(bb[1]), int(bb[2]), int(bb[3]))
			inst := false
			for {
				fl := s[4].u(2)
				k := 4
				if fl&1 != 0 {
					k += 2
				}
				if fl&8 != 0 {
					k += 2
				} else if fl&0x40 != 0 {
					k += 4
				} else if fl&0x80 != 0 {
					k += 8
				}
				w.U16(fl)
				w.Bytes(s[4].bytes(k))
				inst = inst || fl&0x100 != 0
				if fl&0x20 == 0 || s[4].err != nil {
					break
				}
			}
			if inst {
				k := read255(s[3])
				w.U16(k)
				w.Bytes(s[6].bytes(k))
			}
			glyf.Bytes(w.B)
		default:
			return nil, fmt.Errorf("glyph %d: %d contours", i, nc)
		}
		for k := range s {
			if s[k].err != nil {
				return nil, fmt.Errorf("glyph %d: stream %d: %v", i, k, s[k].err)
			}
		}
		xmin[i] = bb[0]
		if glyf.Len()%2 == 1 {
			glyf.U8(0)
		}
	}
	if err := add(); err != nil {
		return nil, err
	}
	for k := range s {
		if s[k].p != len(s[k].b) {
			return nil, fmt.Errorf("glyf: %d unused bytes in stream %d", len(s[k].b)-s[k].p, k)
		}
	}
	tables["glyf"], tables["loca"] = glyf.B, loca.B
	return xmin, nil
}

func unhmtx(tables map[string][]byte, xmin []int16) error {
	nm := int(binary.BigEndian.Uint16(tables["hhea"][34:]))
	r := &rd{b: tables["hmtx"]}
	fl := r.u(1)
	if fl == 0 || fl > 3 {
		return fmt.Errorf("hmtx: flags %d", fl)
	}
	n := len(xmin)
	if nm > n || nm == 0 {
		return fmt.Errorf("hmtx: %d metrics", nm)
	}
	adv := make([]int, nm)
	for i := range adv {
		adv[i] = r.u(2)
	}
	lsb := append([]int16{}, xmin...)
	if fl&1 == 0 {
		for i := 0; i < nm; i++ {
			lsb[i] = r.i16()
		}
	}
	if fl&2 == 0 {
		for i := nm; i < n; i++ {
			lsb[i] = r.i16()
		}
	}
	if r.err != nil || r.p != len(r.b) {
		return fmt.Errorf("hmtx: length %d", len(r.b))
	}
	w := &W{}
	for i := range lsb {
		if i < nm {
			w.U16(adv[i])
		}
		w.U16(int(lsb[i]))
	}
	tables["hmtx"] = w.B
	return nil
}
