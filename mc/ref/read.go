package ref

import (
	"encoding/binary"
	"fmt"
	"sort"
)

// Dir is one entry of a table directory.
type Dir struct {
	Tag                 string
	Sum, Offset, Length uint32
}

// ReadDir decodes and strictly checks an SFNT file: header, search fields, directory order, alignment,
// padding, checksums.
func ReadDir(b []byte) ([]Dir, map[string][]byte, error) {
	if len(b) < 12 {
		return nil, nil, fmt.Errorf("file of %d bytes", len(b))
	}
	v := string(b[:4])
	if v != "OTTO" && v != "\x00\x01\x00\x00" && v != "true" {
		return nil, nil, fmt.Errorf("bad version %q", v)
	}
	u16 := func(o int) int { return int(binary.BigEndian.Uint16(b[o:])) }
	n := u16(4)
	if n == 0 {
		return nil, nil, fmt.Errorf("no tables")
	}
	if len(b) < 12+16*n {
		return nil, nil, fmt.Errorf("directory past end")
	}
	sr, es, rs := searchParams(n, 16)
	if u16(6) != sr || u16(8) != es || u16(10) != rs {
		return nil, nil, fmt.Errorf("search fields %d,%d,%d instead of %d,%d,%d for %d tables", u16(6), u16(8), u16(10), sr, es, rs, n)
	}
	var ds []Dir
	tables := map[string][]byte{}
	used := make([]bool, len(b))
	for i := 0; i < 12+16*n; i++ {
		used[i] = true
	}
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		d := Dir{string(b[p : p+4]), binary.BigEndian.Uint32(b[p+4:]), binary.BigEndian.Uint32(b[p+8:]), binary.BigEndian.Uint32(b[p+12:])}
		if i > 0 && d.Tag <= ds[i-1].Tag {
			return nil, nil, fmt.Errorf("directory not sorted: %q after %q", d.Tag, ds[i-1].Tag)
		}
		if d.Offset%4 != 0 {
			return nil, nil, fmt.Errorf("%s: offset %d not aligned", d.Tag, d.Offset)
		}
		if uint64(d.Offset)+uint64(d.Length) > uint64(len(b)) {
			return nil, nil, fmt.Errorf("%s: past the end of the file", d.Tag)
		}
		for k := d.Offset; k < d.Offset+d.Length; k++ {
			if used[k] {
				return nil, nil, fmt.Errorf("%s: overlaps another table", d.Tag)
			}
			used[k] = true
		}
		t := b[d.Offset : d.Offset+d.Length]
		tables[d.Tag] = t
		c := t
		if d.Tag == "head" && len(t) >= 12 {
			c = append([]byte{}, t...)
			copy(c[8:12], []byte{0, 0, 0, 0})
			z := append([]byte{}, b...)
			copy(z[d.Offset+8:], []byte{0, 0, 0, 0})
			if got, want := binary.BigEndian.Uint32(t[8:]), 0xB1B0AFBA-Checksum(z); got != want {
				return nil, nil, fmt.Errorf("head: checksum adjustment %08x instead of %08x", got, want)
			}
		}
		if s := Checksum(c); s != d.Sum {
			return nil, nil, fmt.Errorf("%s: checksum %08x instead of %08x", d.Tag, d.Sum, s)
		}
		ds = append(ds, d)
	}
	for k, u := range used {
		if !u && b[k] != 0 {
			return nil, nil, fmt.Errorf("byte %d between tables is %#x", k, b[k])
		}
	}
	if len(b)%4 != 0 {
		return nil, nil, fmt.Errorf("file length %d not padded", len(b))
	}
	return ds, tables, nil
}

// Cmap is a decoded character map.
type Cmap struct {
	Recs [][3]int // platform, encoding, subtable
	Subs []CSub
}

// CSub is a decoded subtable: sorted disjoint ranges.
type CSub struct {
	Format int
	Off    int
	Ranges []CRange
}

// CRange maps Start..End; GIDs nil means Base+(r-Start).
type CRange struct {
	Start, End uint32
	Base       uint32
	GIDs       []uint16
}

func (s *CSub) Get(r rune) (uint16, bool) {
	if r < 0 {
		return 0, false
	}
	u := uint32(r)
	i := sort.Search(len(s.Ranges), func(i int) bool { return s.Ranges[i].End >= u })
	if i == len(s.Ranges) || u < s.Ranges[i].Start {
		return 0, false
	}
	g := s.Ranges[i]
	if g.GIDs != nil {
		return g.GIDs[u-g.Start], true
	}
	return uint16(g.Base + u - g.Start), true
}

// Get looks up the first subtable containing the code point.
func (c *Cmap) Get(r rune) uint16 {
	if c == nil {
		return 0
	}
	for i := range c.Subs {
		if g, ok := c.Subs[i].Get(r); ok {
			return g
		}
	}
	return 0
}

// Runes returns all covered code points in ascending order.
func (c *Cmap) Runes() []rune {
	if c == nil {
		return nil
	}
	seen := map[rune]bool{}
	for _, s := range c.Subs {
		for _, g := range s.Ranges {
			for u := g.Start; u <= g.End; u++ {
				seen[rune(u)] = true
				if u == 0xFFFFFFFF {
					break
				}
			}
		}
	}
	out := make([]rune, 0, len(seen))
	for r := range seen {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Inverse returns for every non-zero glyph the code points that look up to it.
func (c *Cmap) Inverse() map[uint16][]rune {
	m := map[uint16][]rune{}
	for _, r := range c.Runes() {
		if g := c.Get(r); g != 0 {
			m[g] = append(m[g], r)
		}
	}
	return m
}

// ReadCmap strictly decodes a cmap table.
func ReadCmap(b []byte) (*Cmap, error) {
	r := &rd{b: b}
	if r.u(2) != 0 {
		return nil, fmt.Errorf("cmap: bad version")
	}
	n := r.u(2)
	c := &Cmap{}
	byOff := map[int]int{}
	type iv struct{ a, b int }
	ivs := []iv{{0, 4 + 8*n}}
	var prev [2]int
	for i := 0; i < n; i++ {
		p, e, off := r.u(2), r.u(2), r.u(4)
		if r.err != nil {
			return nil, r.err
		}
		if i > 0 && (p < prev[0] || p == prev[0] && e < prev[1]) {
			return nil, fmt.Errorf("cmap: encoding records not sorted")
		}
		prev = [2]int{p, e}
		if k, ok := byOff[off]; ok {
			c.Recs = append(c.Recs, [3]int{p, e, k})
			continue
		}
		s := &rd{b: b, p: off}
		f := s.u(2)
		var ln int
		if f == 0 || f == 4 || f == 6 {
			ln = s.u(2)
			s.u(2)
		} else if f == 12 {
			s.u(2)
			ln = s.u(4)
			s.u(4)
		} else if f == 14 {
			ln = s.u(4)
			byOff[off] = -1
			c.Recs = append(c.Recs, [3]int{p, e, -1})
			continue
		} else {
			return nil, fmt.Errorf("cmap: format %d", f)
		}
		if s.err != nil || off+ln > len(b) {
			return nil, fmt.Errorf("cmap: subtable %d past the end", i)
		}
		for _, v := range ivs {
			if off < v.b && v.a < off+ln {
				return nil, fmt.Errorf("cmap: subtable %d overlaps", i)
			}
		}
		ivs = append(ivs, iv{off, off + ln})
		s.b = b[:off+ln]
		sub := CSub{Format: f, Off: off}
		switch f {
		case 0:
			if ln != 262 {
				return nil, fmt.Errorf("cmap: format 0 of length %d", ln)
			}
			g := CRange{Start: 0, End: 255}
			for k := 0; k < 256; k++ {
				g.GIDs = append(g.GIDs, uint16(s.u(1)))
			}
			sub.Ranges = append(sub.Ranges, g)
		case 6:
			st, cnt := s.u(2), s.u(2)
			g := CRange{Start: uint32(st), End: uint32(st + cnt - 1), GIDs: []uint16{}}
			for k := 0; k < cnt; k++ {
				g.GIDs = append(g.GIDs, uint16(s.u(2)))
			}
			if cnt > 0 {
				sub.Ranges = append(sub.Ranges, g)
			}
		case 4:
			x2 := s.u(2)
			sr, es, rs := searchParams(x2/2, 2)
			if x2%2 != 0 || x2 == 0 {
				return nil, fmt.Errorf("cmap: segCountX2 %d", x2)
			}
			if a, b, c := s.u(2), s.u(2), s.u(2); a != sr || b != es || c != rs {
				return nil, fmt.Errorf("cmap: format 4 search fields %d,%d,%d instead of %d,%d,%d", a, b, c, sr, es, rs)
			}
			m := x2 / 2
			end, start, delta, ro := make([]int, m), make([]int, m), make([]int, m), make([]int, m)
			for k := range end {
				end[k] = s.u(2)
			}
			s.u(2)
			for k := range start {
				start[k] = s.u(2)
			}
			for k := range delta {
				delta[k] = s.u(2)
			}
			base := s.p
			for k := range ro {
				ro[k] = s.u(2)
			}
			if s.err != nil {
				return nil, fmt.Errorf("cmap: format 4 too short")
			}
			if end[m-1] != 0xFFFF {
				return nil, fmt.Errorf("cmap: last endCode %#x", end[m-1])
			}
			for k := 0; k < m; k++ {
				if start[k] > end[k] || k > 0 && start[k] <= end[k-1] {
					return nil, fmt.Errorf("cmap: segments not ordered")
				}
				g := CRange{Start: uint32(start[k]), End: uint32(end[k]), GIDs: []uint16{}}
				for ch := start[k]; ch <= end[k]; ch++ {
					if ro[k] == 0 || k == m-1 && start[k] == 0xFFFF {
						g.GIDs = append(g.GIDs, uint16(ch+delta[k]))
						continue
					}
					q := &rd{b: s.b, p: base + 2*k + ro[k] + 2*(ch-start[k])}
					v := q.u(2)
					if q.err != nil {
						return nil, fmt.Errorf("cmap: idRangeOffset past the end")
					}
					if v != 0 {
						v += delta[k]
					}
					g.GIDs = append(g.GIDs, uint16(v))
				}
				if k == m-1 && start[k] == 0xFFFF {
					g.GIDs[0] = 0
				}
				sub.Ranges = append(sub.Ranges, g)
			}
		case 12:
			cnt := s.u(4)
			if s.err != nil || ln != 16+12*cnt {
				return nil, fmt.Errorf("cmap: format 12 length %d for %d groups", ln, cnt)
			}
			last := -1
			for k := 0; k < cnt; k++ {
				a, e, gid := s.u(4), s.u(4), s.u(4)
				if a > e || a <= last {
					return nil, fmt.Errorf("cmap: format 12 groups not ordered")
				}
				last = e
				sub.Ranges = append(sub.Ranges, CRange{Start: uint32(a), End: uint32(e), Base: uint32(gid)})
			}
		}
		if s.err != nil {
			return nil, fmt.Errorf("cmap: subtable %d: %v", i, s.err)
		}
		byOff[off] = len(c.Subs)
		c.Recs = append(c.Recs, [3]int{p, e, len(c.Subs)})
		c.Subs = append(c.Subs, sub)
	}
	return c, nil
}

// RKern is a decoded kern subtable.
type RKern struct {
	Minimum  bool
	Coverage int
	Pairs    map[uint32]int16
}

// ReadKern decodes a kern table strictly.
func ReadKern(b []byte) ([]RKern, error) {
	r := &rd{b: b}
	if r.u(2) != 0 {
		return nil, fmt.Errorf("kern: bad version")
	}
	n := r.u(2)
	var out []RKern
	for i := 0; i < n; i++ {
		st := r.p
		v, ln, f, cov := r.u(2), r.u(2), r.u(1), r.u(1)
		np, a, c, d := r.u(2), r.u(2), r.u(2), r.u(2)
		if r.err != nil {
			return nil, fmt.Errorf("kern: too short")
		}
		if v != 0 || f != 0 {
			return nil, fmt.Errorf("kern: version %d format %d", v, f)
		}
		if ln != (14+6*np)&0xFFFF || ln != 14+6*np && i+1 != n {
			return nil, fmt.Errorf("kern: length %d for %d pairs", ln, np)
		}
		sr, es, rs := searchParams(np, 6)
		if np <= 10922 && (a != sr || c != es || d != rs) {
			return nil, fmt.Errorf("kern: search fields %d,%d,%d instead of %d,%d,%d", a, c, d, sr, es, rs)
		}
		k := RKern{Minimum: cov&2 != 0, Coverage: cov, Pairs: map[uint32]int16{}}
		prev := -1
		for j := 0; j < np; j++ {
			key, val := r.u(4), r.i16()
			if r.err != nil {
				return nil, fmt.Errorf("kern: too short")
			}
			if key <= prev {
				return nil, fmt.Errorf("kern: pairs not sorted")
			}
			prev = key
			k.Pairs[uint32(key)] = val
		}
		if r.p != st+14+6*np {
			return nil, fmt.Errorf("kern: internal")
		}
		out = append(out, k)
	}
	if r.p != len(b) {
		return nil, fmt.Errorf("kern: %d bytes left", len(b)-r.p)
	}
	return out, nil
}

// KernValue combines kerning subtables.
func KernValue(ks []RKern, l, rr uint16) int16 {
	var v int
	for _, k := range ks {
		x, ok := k.Pairs[uint32(l)<<16|uint32(rr)]
		if !ok {
			continue
		}
		if k.Minimum {
			v = max(v, int(x))
		} else {
			v += int(x)
		}
	}
	return int16(v)
}

// RGlyph is a decoded TrueType glyph.
type RGlyph struct {
	Contours [][]Point
	Comps    []Component
	HasInstr bool
	Instr    []byte
	BBox     [4]int16
	Overlap  bool
	Data     []byte
}

// ReadGlyph decodes one glyph description.
func ReadGlyph(b []byte) (*RGlyph, error) {
	g := &RGlyph{Data: b}
	if len(b) == 0 {
		return g, nil
	}
	r := &rd{b: b}
	n := int(r.i16())
	for i := range g.BBox {
		g.BBox[i] = r.i16()
	}
	if n >= 0 {
		ends := make([]int, n)
		np := 0
		for i := range ends {
			ends[i] = r.u(2)
			if ends[i] < np && r.err == nil {
				return nil, fmt.Errorf("glyf: end points not increasing")
			}
			np = ends[i] + 1
		}
		il := r.u(2)
		g.Instr = r.bytes(il)
		fl := make([]int, 0, np)
		for len(fl) < np && r.err == nil {
			f := r.u(1)
			fl = append(fl, f)
			if f&8 != 0 {
				rep := r.u(1)
				for k := 0; k < rep; k++ {
					fl = append(fl, f)
				}
			}
		}
		if r.err != nil {
			return nil, fmt.Errorf("glyf: %v", r.err)
		}
		if len(fl) != np {
			return nil, fmt.Errorf("glyf: %d flags for %d points", len(fl), np)
		}
		pts := make([]Point, np)
		var x, y int16
		for i, f := range fl {
			switch f & 0x12 {
			case 0x02:
				x -= int16(r.u(1))
			case 0x12:
				x += int16(r.u(1))
			case 0:
				x += r.i16()
			}
			pts[i].X = x
			pts[i].On = f&1 != 0
			if f&0x40 != 0 {
				g.Overlap = true
			}
		}
		for i, f := range fl {
			switch f & 0x24 {
			case 0x04:
				y -= int16(r.u(1))
			case 0x24:
				y += int16(r.u(1))
			case 0:
				y += r.i16()
			}
			pts[i].Y = y
		}
		if r.err != nil {
			return nil, fmt.Errorf("glyf: %v", r.err)
		}
		s := 0
		for _, e := range ends {
			g.Contours = append(g.Contours, pts[s:e+1])
			s = e + 1
		}
		return g, nil
	}
	for {
		f, id := r.u(2), r.u(2)
		c := Component{GID: uint16(id), Extra: uint16(f &^ 0x01EB), Words: f&1 != 0}
		if f&2 == 0 {
			return nil, fmt.Errorf("glyf: point matching")
		}
		if f&1 != 0 {
			c.Dx, c.Dy = r.i16(), r.i16()
		} else {
			c.Dx, c.Dy = int16(int8(r.u(1))), int16(int8(r.u(1)))
		}
		switch {
		case f&8 != 0:
			c.Kind = 1
			c.M[0] = r.i16()
		case f&0x40 != 0:
			c.Kind = 2
			c.M[0], c.M[3] = r.i16(), r.i16()
		case f&0x80 != 0:
			c.Kind = 3
			c.M = [4]int16{r.i16(), r.i16(), r.i16(), r.i16()}
		}
		g.Comps = append(g.Comps, c)
		if f&0x100 != 0 {
			g.HasInstr = true
		}
		if r.err != nil {
			return nil, fmt.Errorf("glyf: %v", r.err)
		}
		if f&0x20 == 0 {
			break
		}
	}
	if g.HasInstr {
		n := r.u(2)
		g.Instr = r.bytes(n)
	}
	if r.err != nil {
		return nil, fmt.Errorf("glyf: %v", r.err)
	}
	return g, nil
}

// RFont is a strictly decoded font.
type RFont struct {
	CFF      bool
	N        int
	UPM      int
	Glyphs   []*RGlyph
	C        *CFFView
	Adv      []uint16
	LSB      []int16
	VAdv     []uint16
	TSB      []int16
	Cmap     *Cmap
	Kern     []RKern
	HasKern  bool
	PostVer  uint32
	Names    []string
	Tables   map[string][]byte
	HheaVM   [3]int16
	LongLoca bool
}

func readMetrics(b []byte, n, nm int, what string) ([]uint16, []int16, error) {
	if nm < 1 || nm > n {
		return nil, nil, fmt.Errorf("%s: %d metrics for %d glyphs", what, nm, n)
	}
	if len(b) != 4*nm+2*(n-nm) {
		return nil, nil, fmt.Errorf("%s: %d bytes for %d glyphs with %d metrics", what, len(b), n, nm)
	}
	adv, sb := make([]uint16, n), make([]int16, n)
	r := &rd{b: b}
	for i := 0; i < n; i++ {
		if i < nm {
			adv[i] = uint16(r.u(2))
		} else {
			adv[i] = adv[nm-1]
		}
		sb[i] = r.i16()
	}
	return adv, sb, nil
}

// ReadTables strictly decodes the tables of a font. Tables that are absent are skipped.
func ReadTables(version string, t map[string][]byte) (*RFont, error) {
	f := &RFont{CFF: version == "OTTO", Tables: t}
	u16 := func(b []byte, o int) int { return int(binary.BigEndian.Uint16(b[o:])) }
	head := t["head"]
	if len(head) != 54 {
		return nil, fmt.Errorf("head: length %d", len(head))
	}
	if binary.BigEndian.Uint32(head[12:]) != 0x5F0F3CF5 {
		return nil, fmt.Errorf("head: magic")
	}
	f.UPM = u16(head, 18)
	mx := t["maxp"]
	if f.CFF && (len(mx) != 6 || binary.BigEndian.Uint32(mx) != 0x5000) || !f.CFF && (len(mx) != 32 || binary.BigEndian.Uint32(mx) != 0x10000) {
		return nil, fmt.Errorf("maxp: length %d", len(mx))
	}
	f.N = u16(mx, 4)
	hh := t["hhea"]
	if len(hh) != 36 {
		return nil, fmt.Errorf("hhea: length %d", len(hh))
	}
	for i := range f.HheaVM {
		f.HheaVM[i] = int16(u16(hh, 4+2*i))
	}
	var err error
	if f.Adv, f.LSB, err = readMetrics(t["hmtx"], f.N, u16(hh, 34), "hmtx"); err != nil {
		return nil, err
	}
	if vh, ok := t["vhea"]; ok {
		if len(vh) != 36 {
			return nil, fmt.Errorf("vhea: length %d", len(vh))
		}
		if f.VAdv, f.TSB, err = readMetrics(t["vmtx"], f.N, u16(vh, 34), "vmtx"); err != nil {
			return nil, err
		}
	}
	if f.CFF {
		if f.C, err = ReadCFF(t["CFF "]); err != nil {
			return nil, err
		}
		if len(f.C.CharStrings) != f.N {
			return nil, fmt.Errorf("CFF: %d charstrings for %d glyphs", len(f.C.CharStrings), f.N)
		}
	} else {
		loca, glyf := t["loca"], t["glyf"]
		lf := u16(head, 50)
		if lf > 1 {
			return nil, fmt.Errorf("head: indexToLocFormat %d", lf)
		}
		f.LongLoca = lf == 1
		if len(loca) != (2+2*lf)*(f.N+1) {
			return nil, fmt.Errorf("loca: %d bytes for %d glyphs in format %d", len(loca), f.N, lf)
		}
		off := func(i int) int {
			if lf == 0 {
				return 2 * u16(loca, 2*i)
			}
			return int(binary.BigEndian.Uint32(loca[4*i:]))
		}
		for i := 0; i < f.N; i++ {
			a, b := off(i), off(i+1)
			if a > b || b > len(glyf) {
				return nil, fmt.Errorf("loca: glyph %d at %d..%d of %d", i, a, b, len(glyf))
			}
			g, err := ReadGlyph(glyf[a:b])
			if err != nil {
				return nil, fmt.Errorf("glyph %d: %v", i, err)
			}
			f.Glyphs = append(f.Glyphs, g)
		}
		for i, g := range f.Glyphs {
			for _, c := range g.Comps {
				if int(c.GID) >= f.N {
					return nil, fmt.Errorf("glyph %d: component %d of %d", i, c.GID, f.N)
				}
			}
		}
	}
	if b, ok := t["cmap"]; ok {
		if f.Cmap, err = ReadCmap(b); err != nil {
			return nil, err
		}
		for _, s := range f.Cmap.Subs {
			for _, g := range s.Ranges {
				for u := g.Start; u <= g.End; u++ {
					if x, _ := s.Get(rune(u)); int(x) >= f.N {
						return nil, fmt.Errorf("cmap: U+%04X maps to glyph %d of %d", u, x, f.N)
					}
				}
			}
		}
	}
	if b, ok := t["kern"]; ok {
		f.HasKern = true
		if f.Kern, err = ReadKern(b); err != nil {
			return nil, err
		}
	}
	if b, ok := t["post"]; ok {
		if len(b) < 32 {
			return nil, fmt.Errorf("post: length %d", len(b))
		}
		f.PostVer = binary.BigEndian.Uint32(b)
		switch f.PostVer {
		case 0x00030000:
			if len(b) != 32 {
				return nil, fmt.Errorf("post: version 3 of length %d", len(b))
			}
		case 0x00010000:
			f.Names = append([]string{}, MacNames[:]...)
		case 0x00020000:
			r := &rd{b: b, p: 32}
			n := r.u(2)
			if n != f.N {
				return nil, fmt.Errorf("post: %d glyphs of %d", n, f.N)
			}
			idx := make([]int, n)
			for i := range idx {
				idx[i] = r.u(2)
			}
			var strs []string
			for r.err == nil && r.p < len(b) {
				strs = append(strs, string(r.bytes(r.u(1))))
			}
			if r.err != nil {
				return nil, fmt.Errorf("post: %v", r.err)
			}
			f.Names = make([]string, n)
			for i, k := range idx {
				if k < 258 {
					f.Names[i] = MacNames[k]
				} else if k-258 < len(strs) {
					f.Names[i] = strs[k-258]
				} else {
					return nil, fmt.Errorf("post: name index %d of %d", k, 258+len(strs))
				}
			}
		default:
			return nil, fmt.Errorf("post: version %08x", f.PostVer)
		}
	}
	if b, ok := t["name"]; ok {
		if err := checkName(b); err != nil {
			return nil, err
		}
	}
	if b, ok := t["OS/2"]; ok {
		want := map[int]int{0: 78, 1: 86, 2: 96, 3: 96, 4: 96, 5: 100}
		if len(b) < 2 || len(b) < want[u16(b, 0)] {
			return nil, fmt.Errorf("OS/2: length %d", len(b))
		}
	}
	return f, nil
}

func checkName(b []byte) error {
	r := &rd{b: b}
	v, n, so := r.u(2), r.u(2), r.u(2)
	if r.err != nil || v > 1 {
		return fmt.Errorf("name: bad header")
	}
	for i := 0; i < n; i++ {
		r.u(2)
		r.u(2)
		r.u(2)
		r.u(2)
		l, o := r.u(2), r.u(2)
		if r.err != nil || so+o+l > len(b) {
			return fmt.Errorf("name: record %d past the end", i)
		}
	}
	if so > len(b) {
		return fmt.Errorf("name: storage past the end")
	}
	return nil
}

// ReadFont decodes a complete font file strictly.
func ReadFont(b []byte) (*RFont, error) {
	_, t, err := ReadDir(b)
	if err != nil {
		return nil, err
	}
	return ReadTables(string(b[:4]), t)
}

// Flat returns the flattened contours of a TrueType glyph.
func (f *RFont) Flat(gid, depth int) ([][]Point, error) {
	if gid >= len(f.Glyphs) {
		return nil, fmt.Errorf("no glyph %d", gid)
	}
	g := f.Glyphs[gid]
	if len(g.Comps) == 0 {
		return g.Contours, nil
	}
	if depth > 7 {
		return nil, fmt.Errorf("nested too deeply")
	}
	var out [][]Point
	for _, c := range g.Comps {
		sub, err := f.Flat(int(c.GID), depth+1)
		if err != nil {
			return nil, err
		}
		out = append(out, TransformContours(sub, c)...)
	}
	return out, nil
}

// PathOf converts contours into a path: every contour starts at its first on-curve point, at the second
// point if only that is on-curve, or at the midpoint of the first two points.
func PathOf(cts [][]Point) Path {
	var out Path
	for _, ct := range cts {
		out = append(out, contourPath(ct)...)
	}
	return out
}

func contourPath(ct []Point) Path {
	n := len(ct)
	if n == 0 {
		return nil
	}
	type fp struct {
		x, y float64
		on   bool
	}
	// insert implied midpoints
	var v []fp
	for i, p := range ct {
		v = append(v, fp{float64(p.X), float64(p.Y), p.On})
		q := ct[(i+1)%n]
		if !p.On && !q.On {
			v = append(v, fp{(float64(p.X) + float64(q.X)) / 2, (float64(p.Y) + float64(q.Y)) / 2, true})
		}
	}
	// rotate to the first on-curve point
	s := 0
	for s < len(v) && !v[s].on {
		s++
	}
	if s == len(v) {
		return nil // a single off-curve point
	}
	v = append(append([]fp{}, v[s:]...), v[:s]...)
	out := Path{{'M', [6]float64{v[0].x, v[0].y}}}
	for i := 1; i <= len(v); i++ {
		p := v[i%len(v)]
		if i < len(v) && !p.on {
			continue
		}
		pr := v[i-1]
		if i-1 > 0 && !pr.on {
			out = append(out, Seg{'Q', [6]float64{pr.x, pr.y, p.x, p.y}})
		} else if i < len(v) {
			out = append(out, Seg{'L', [6]float64{p.x, p.y}})
		}
	}
	return append(out, Seg{Op: 'Z'})
}

// Path draws a glyph.
func (f *RFont) Path(gid int) (Path, error) {
	if f.CFF {
		p, _, err := f.C.Exec(gid)
		return p, err
	}
	c, err := f.Flat(gid, 0)
	if err != nil {
		return nil, err
	}
	return PathOf(c), nil
}
