package ref

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// CFFIndex encodes an INDEX with at least the given offset size.
func CFFIndex(items [][]byte, minOff int) []byte {
	w := &W{}
	w.U16(len(items))
	if len(items) == 0 {
		return w.B
	}
	tot := 1
	for _, it := range items {
		tot += len(it)
	}
	sz := 1
	for tot >= 1<<(8*sz) {
		sz++
	}
	sz = max(sz, minOff)
	w.U8(sz)
	put := func(v int) {
		for k := sz - 1; k >= 0; k-- {
			w.U8(v >> (8 * k))
		}
	}
	o := 1
	put(o)
	for _, it := range items {
		o += len(it)
		put(o)
	}
	for _, it := range items {
		w.Bytes(it)
	}
	return w.B
}

func dictInt(v int) []byte {
	return []byte{29, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// DictEntry encodes a DICT entry with operands in textual form.
func DictEntry(o int, vals ...string) []byte {
	var b []byte
	for _, v := range vals {
		if i, err := strconv.Atoi(v); err == nil {
			b = append(b, dictInt(i)...)
		} else {
			b = append(b, DictReal(v)...)
		}
	}
	if o >= 256 {
		return op(b, 12, o-256)
	}
	return op(b, o)
}

// DictReal encodes a real operand from its textual form.
func DictReal(s string) []byte {
	var nb []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			nb = append(nb, c-'0')
		case c == '.':
			nb = append(nb, 0xA)
		case c == 'E' && i+1 < len(s) && s[i+1] == '-':
			nb = append(nb, 0xC)
			i++
		case c == 'E':
			nb = append(nb, 0xB)
		case c == '-':
			nb = append(nb, 0xE)
		}
	}
	nb = append(nb, 0xF)
	if len(nb)%2 == 1 {
		nb = append(nb, 0xF)
	}
	out := []byte{30}
	for i := 0; i < len(nb); i += 2 {
		out = append(out, nb[i]<<4|nb[i+1])
	}
	return out
}

func op(b []byte, ops ...int) []byte {
	for _, o := range ops {
		b = append(b, byte(o))
	}
	return b
}

// CFFTable builds the CFF table.
func (f *Font) CFFTable(adv []uint16) []byte {
	c := f.C
	n := len(f.Glyphs)
	cs := make([][]byte, n)
	for i, g := range f.Glyphs {
		cs[i] = g.CS
		if cs[i] == nil {
			cs[i] = []byte{14}
		}
	}
	var strs [][]byte
	known := map[string]int{}
	for i := len(CFFStd) - 1; i >= 0; i-- {
		known[CFFStd[i]] = i
	}
	sid := func(s string) int {
		if i, ok := known[s]; ok {
			return i
		}
		strs = append(strs, []byte(s))
		known[s] = len(strs) - 1 + len(CFFStd)
		return known[s]
	}
	fn := c.FontName
	if fn == "" {
		fn = "Verif"
	}
	charsetFmt := c.CharsetFormat
	var charset []byte
	if charsetFmt != 255 {
		w := &W{}
		sids := make([]int, n)
		for i := 1; i < n; i++ {
			nm := fmt.Sprintf("glyph%d", i)
			if c.CID {
				sids[i] = i
				continue
			}
			if i < len(c.Charset) {
				nm = c.Charset[i]
			}
			sids[i] = sid(nm)
		}
		w.U8(charsetFmt)
		if charsetFmt == 0 {
			for i := 1; i < n; i++ {
				w.U16(sids[i])
			}
		} else {
			for i := 1; i < n; {
				j := i + 1
				for j < n && sids[j] == sids[j-1]+1 && (charsetFmt == 2 || j-i < 256) {
					j++
				}
				w.U16(sids[i])
				if charsetFmt == 1 {
					w.U8(j - i - 1)
				} else {
					w.U16(j - i - 1)
				}
				i = j
			}
		}
		charset = w.B
	}
	var topPre []byte
	if c.CID {
		a, b := sid("Adobe"), sid("Identity")
		topPre = append(topPre, dictInt(a)...)
		topPre = append(topPre, dictInt(b)...)
		topPre = append(topPre, dictInt(0)...)
		topPre = op(topPre, 12, 30)
	}
	if c.FullName != "" {
		topPre = append(topPre, dictInt(sid(c.FullName))...)
		topPre = op(topPre, 2)
	}
	if c.FontMatrix {
		for _, s := range []string{"0.0005", "0", "0", "5E-4", "0", "0"} {
			topPre = append(topPre, DictReal(s)...)
		}
		topPre = op(topPre, 12, 7)
	}
	topPre = append(topPre, c.TopExtra...)

	priv := func(local [][]byte) []byte {
		var p []byte
		if !c.BarePriv {
			for _, v := range []int{-15, 15, 400, 15} {
				p = append(p, dictInt(v)...)
			}
			p = op(p, 6) // BlueValues (delta)
			p = append(p, dictInt(80)...)
			p = op(p, 11)
			p = append(p, DictReal("0.04375")...)
			p = op(p, 12, 9)
		}
		if c.DefaultW != 0 {
			p = append(p, dictInt(c.DefaultW)...)
			p = op(p, 20)
		}
		if c.NominalW != 0 {
			p = append(p, dictInt(c.NominalW)...)
			p = op(p, 21)
		}
		p = append(p, c.PrivExtra...)
		if local != nil {
			p = append(p, dictInt(len(p)+6)...)
			p = op(p, 19)
		}
		return p
	}
	build := func(offCharset, offFDS, offCS, offFDA, offPriv, lenPriv int) []byte {
		t := append([]byte{}, topPre...)
		if charsetFmt != 255 {
			t = op(append(t, dictInt(offCharset)...), 15)
		}
		t = op(append(t, dictInt(offCS)...), 17)
		if c.CID {
			t = op(append(t, dictInt(offFDA)...), 12, 36)
			t = op(append(t, dictInt(offFDS)...), 12, 37)
		} else {
			t = op(append(append(t, dictInt(lenPriv)...), dictInt(offPriv)...), 18)
		}
		return t
	}
	mo := c.OffSize
	head := &W{}
	head.U8(1, 0, 4, 4)
	head.Bytes(CFFIndex([][]byte{[]byte(fn)}, mo))
	dummy := CFFIndex([][]byte{build(0, 0, 0, 0, 0, 0)}, mo)
	strIdx := CFFIndex(strs, mo)
	gIdx := CFFIndex(c.Global, mo)
	csIdx := CFFIndex(cs, mo)
	off := head.Len() + len(dummy) + len(strIdx) + len(gIdx)
	offCharset := off
	off += len(charset)
	var fds []byte
	offFDS := off
	if c.CID {
		w := &W{}
		sel := c.FDSelect
		w.U8(c.FDFormat)
		if c.FDFormat == 0 {
			w.Bytes(sel)
		} else {
			rg := &W{}
			k := 0
			for i := 0; i < n; {
				j := i
				for j < n && sel[j] == sel[i] {
					j++
				}
				rg.U16(i)
				rg.U8(int(sel[i]))
				k++
				i = j
			}
			w.U16(k)
			w.Bytes(rg.B)
			w.U16(n)
		}
		fds = w.B
		off += len(fds)
	}
	offCS := off
	off += len(csIdx)
	tail := &W{}
	offFDA, offPriv, lenPriv := 0, 0, 0
	if c.CID {
		offFDA = off
		mk := func(base int) ([]byte, []byte) {
			var dicts [][]byte
			blob := &W{}
			for _, loc := range c.FDLocal {
				p := priv(loc)
				d := op(append(append([]byte{}, dictInt(len(p))...), dictInt(base+blob.Len())...), 18)
				dicts = append(dicts, d)
				blob.Bytes(p)
				if loc != nil {
					blob.Bytes(CFFIndex(loc, mo))
				}
			}
			return CFFIndex(dicts, mo), blob.B
		}
		fi, _ := mk(0)
		fi, blob := mk(off + len(fi))
		tail.Bytes(fi)
		tail.Bytes(blob)
	} else {
		p := priv(c.Local)
		offPriv, lenPriv = off, len(p)
		tail.Bytes(p)
		if c.Local != nil {
			tail.Bytes(CFFIndex(c.Local, mo))
		}
	}
	w := head
	w.Bytes(CFFIndex([][]byte{build(offCharset, offFDS, offCS, offFDA, offPriv, lenPriv)}, mo))
	w.Bytes(strIdx)
	w.Bytes(gIdx)
	w.Bytes(charset)
	w.Bytes(fds)
	w.Bytes(csIdx)
	w.Bytes(tail.B)
	return w.B
}

// Num encodes a Type 2 charstring integer in its shortest form.
func Num(v int) []byte {
	switch {
	case v >= -107 && v <= 107:
		return []byte{byte(v + 139)}
	case v >= 108 && v <= 1131:
		v -= 108
		return []byte{byte(247 + v>>8), byte(v)}
	case v >= -1131 && v <= -108:
		v = -v - 108
		return []byte{byte(251 + v>>8), byte(v)}
	}
	return []byte{28, byte(v >> 8), byte(v)}
}

// Num28 encodes an integer in the three byte form.
func Num28(v int) []byte { return []byte{28, byte(v >> 8), byte(v)} }

// Num255 encodes a 16.16 number.
func Num255(v int32) []byte { return []byte{255, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// CS assembles a charstring: ints are operands, strings are operator names, []byte are verbatim.
func CS(items ...any) []byte {
	var b []byte
	for _, it := range items {
		switch v := it.(type) {
		case int:
			b = append(b, Num(v)...)
		case []int:
			for _, x := range v {
				b = append(b, Num(x)...)
			}
		case float64:
			b = append(b, Num255(int32(math.Round(v*65536)))...)
		case []byte:
			b = append(b, v...)
		case string:
			o, ok := Type2Ops[v]
			if !ok {
				panic("bad op " + v)
			}
			if o >= 256 {
				b = append(b, 12, byte(o-256))
			} else {
				b = append(b, byte(o))
			}
		}
	}
	return b
}

// Type2Ops maps operator names to codes.
var Type2Ops = map[string]int{"hstem": 1, "vstem": 3, "vmoveto": 4, "rlineto": 5, "hlineto": 6, "vlineto": 7, "rrcurveto": 8, "callsubr": 10, "return": 11, "endchar": 14, "hstemhm": 18, "hintmask": 19, "cntrmask": 20, "rmoveto": 21, "hmoveto": 22, "vstemhm": 23, "rcurveline": 24, "rlinecurve": 25, "vvcurveto": 26, "hhcurveto": 27, "callgsubr": 29, "vhcurveto": 30, "hvcurveto": 31, "hflex": 256 + 34, "flex": 256 + 35, "hflex1": 256 + 36, "flex1": 256 + 37}

var type2Names = func() map[int]string {
	m := map[int]string{}
	for k, v := range Type2Ops {
		m[v] = k
	}
	return m
}()

func Bias(n int) int {
	if n < 1240 {
		return 107
	} else if n < 33900 {
		return 1131
	}
	return 32768
}

// CFFView is a decoded CFF table.
type CFFView struct {
	Name        string
	Strings     [][]byte
	Top         map[int][]float64
	TopStr      map[int]string
	Global      [][]byte
	CharStrings [][]byte
	Charset     []string
	SIDs        []int
	Private     []map[int][]float64
	Local       [][][]byte
	FD          []int
	CID         bool
	OffSizes    []int
}

type rd struct {
	b   []byte
	p   int
	err error
}

func (r *rd) u(n int) int {
	if r.err != nil {
		return 0
	}
	if r.p < 0 || r.p+n > len(r.b) {
		r.err = fmt.Errorf("read past end at %d+%d of %d", r.p, n, len(r.b))
		return 0
	}
	v := 0
	for i := 0; i < n; i++ {
		v = v<<8 | int(r.b[r.p+i])
	}
	r.p += n
	return v
}
func (r *rd) i16() int16 { return int16(r.u(2)) }
func (r *rd) bytes(n int) []byte {
	if r.err != nil {
		return nil
	}
	if n < 0 || r.p < 0 || r.p+n > len(r.b) {
		r.err = fmt.Errorf("read past end at %d+%d of %d", r.p, n, len(r.b))
		return nil
	}
	v := r.b[r.p : r.p+n]
	r.p += n
	return v
}

func readIndex(r *rd, sizes *[]int) [][]byte {
	n := r.u(2)
	if n == 0 || r.err != nil {
		return nil
	}
	sz := r.u(1)
	*sizes = append(*sizes, sz)
	if sz < 1 || sz > 4 {
		r.err = fmt.Errorf("bad INDEX offSize %d", sz)
		return nil
	}
	offs := make([]int, n+1)
	for i := range offs {
		offs[i] = r.u(sz)
		if i == 0 && offs[0] != 1 && r.err == nil {
			r.err = fmt.Errorf("INDEX first offset is %d", offs[0])
		}
		if i > 0 && offs[i] < offs[i-1] && r.err == nil {
			r.err = fmt.Errorf("INDEX offsets decrease at %d: %d after %d", i, offs[i], offs[i-1])
		}
	}
	base := r.p - 1
	var out [][]byte
	for i := 0; i < n && r.err == nil; i++ {
		if base+offs[i+1] > len(r.b) {
			r.err = fmt.Errorf("INDEX data past end")
			return nil
		}
		out = append(out, r.b[base+offs[i]:base+offs[i+1]])
	}
	r.p = base + offs[n]
	return out
}

func readDict(b []byte) (map[int][]float64, error) {
	m := map[int][]float64{}
	r := &rd{b: b}
	var st []float64
	for r.p < len(b) && r.err == nil {
		b0 := r.u(1)
		switch {
		case b0 <= 21:
			if b0 == 12 {
				b0 = 256 + r.u(1)
			}
			if _, dup := m[b0]; dup {
				return m, fmt.Errorf("duplicate DICT operator %d", b0)
			}
			m[b0] = st
			st = nil
		case b0 == 28:
			st = append(st, float64(int16(r.u(2))))
		case b0 == 29:
			st = append(st, float64(int32(uint32(r.u(4)))))
		case b0 == 30:
			s := ""
			done := false
			for !done && r.err == nil {
				v := r.u(1)
				for _, nb := range []int{v >> 4, v & 15} {
					switch {
					case nb < 10:
						s += string(rune('0' + nb))
					case nb == 10:
						s += "."
					case nb == 11:
						s += "E"
					case nb == 12:
						s += "E-"
					case nb == 14:
						s += "-"
					case nb == 15:
						done = true
					}
					if done {
						break
					}
				}
			}
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return m, fmt.Errorf("bad DICT real %q", s)
			}
			st = append(st, v)
		case b0 >= 32 && b0 <= 246:
			st = append(st, float64(b0-139))
		case b0 >= 247 && b0 <= 250:
			st = append(st, float64((b0-247)*256+r.u(1)+108))
		case b0 >= 251 && b0 <= 254:
			st = append(st, float64(-(b0-251)*256-r.u(1)-108))
		default:
			return m, fmt.Errorf("reserved DICT byte %d", b0)
		}
	}
	if len(st) != 0 {
		return m, fmt.Errorf("operands left in DICT")
	}
	return m, r.err
}

// ReadCFF decodes a CFF table.
func ReadCFF(b []byte) (*CFFView, error) {
	v := &CFFView{}
	r := &rd{b: b}
	if r.u(1) != 1 || r.u(1) != 0 {
		return nil, fmt.Errorf("CFF: bad version")
	}
	hs := r.u(1)
	r.u(1)
	r.p = hs
	names := readIndex(r, &v.OffSizes)
	tops := readIndex(r, &v.OffSizes)
	v.Strings = readIndex(r, &v.OffSizes)
	v.Global = readIndex(r, &v.OffSizes)
	if r.err != nil {
		return nil, r.err
	}
	if len(names) != 1 || len(tops) != 1 {
		return nil, fmt.Errorf("CFF: not a single font")
	}
	v.Name = string(names[0])
	top, err := readDict(tops[0])
	if err != nil {
		return nil, fmt.Errorf("top DICT: %v", err)
	}
	v.Top = top
	str := func(sid int) (string, error) {
		if sid < 0 {
			return "", fmt.Errorf("bad SID %d", sid)
		}
		if sid < len(CFFStd) {
			return CFFStd[sid], nil
		}
		if sid-len(CFFStd) < len(v.Strings) {
			return string(v.Strings[sid-len(CFFStd)]), nil
		}
		return "", fmt.Errorf("SID %d out of range", sid)
	}
	v.TopStr = map[int]string{}
	for _, o := range []int{0, 1, 2, 3, 4, 256, 256 + 21, 256 + 22} {
		if a, ok := top[o]; ok {
			if len(a) != 1 {
				return nil, fmt.Errorf("top DICT op %d has %d operands", o, len(a))
			}
			s, err := str(int(a[0]))
			if err != nil {
				return nil, err
			}
			v.TopStr[o] = s
		}
	}
	if len(top[17]) != 1 {
		return nil, fmt.Errorf("no CharStrings")
	}
	r.p = int(top[17][0])
	v.CharStrings = readIndex(r, &v.OffSizes)
	if r.err != nil {
		return nil, fmt.Errorf("CharStrings: %v", r.err)
	}
	n := len(v.CharStrings)
	_, v.CID = top[256+30]
	v.SIDs = make([]int, n)
	if a, ok := top[15]; ok && a[0] > 2 {
		r.p = int(a[0])
		switch fm := r.u(1); fm {
		case 0:
			for i := 1; i < n; i++ {
				v.SIDs[i] = r.u(2)
			}
		case 1, 2:
			for i := 1; i < n && r.err == nil; {
				f := r.u(2)
				l := r.u(fm)
				for j := 0; j <= l; j++ {
					if i >= n {
						return nil, fmt.Errorf("charset covers too many glyphs")
					}
					v.SIDs[i] = f + j
					i++
				}
			}
		default:
			return nil, fmt.Errorf("bad charset format %d", fm)
		}
		if r.err != nil {
			return nil, fmt.Errorf("charset: %v", r.err)
		}
	} else {
		if ok && a[0] != 0 {
			return nil, fmt.Errorf("expert charset")
		}
		if n > 229 {
			return nil, fmt.Errorf("ISOAdobe charset for %d glyphs", n)
		}
		for i := range v.SIDs {
			v.SIDs[i] = i
		}
	}
	v.Charset = make([]string, n)
	if !v.CID {
		for i := range v.SIDs {
			s, err := str(v.SIDs[i])
			if err != nil {
				return nil, fmt.Errorf("charset of glyph %d: %v", i, err)
			}
			v.Charset[i] = s
		}
	}
	readPriv := func(a []float64) error {
		if len(a) != 2 {
			return fmt.Errorf("bad Private operands")
		}
		l, o := int(a[0]), int(a[1])
		if l < 0 || o < 0 || o+l > len(b) {
			return fmt.Errorf("Private DICT outside of table")
		}
		p, err := readDict(b[o : o+l])
		if err != nil {
			return fmt.Errorf("Private DICT: %v", err)
		}
		v.Private = append(v.Private, p)
		var loc [][]byte
		if s, ok := p[19]; ok {
			r.p = o + int(s[0])
			loc = readIndex(r, &v.OffSizes)
			if r.err != nil {
				return fmt.Errorf("Local Subrs: %v", r.err)
			}
		}
		v.Local = append(v.Local, loc)
		return nil
	}
	v.FD = make([]int, n)
	if !v.CID {
		if err := readPriv(top[18]); err != nil {
			return nil, err
		}
	} else {
		r.p = int(top[256+36][0])
		fda := readIndex(r, &v.OffSizes)
		if r.err != nil {
			return nil, r.err
		}
		for _, d := range fda {
			fd, err := readDict(d)
			if err != nil {
				return nil, err
			}
			if err := readPriv(fd[18]); err != nil {
				return nil, err
			}
		}
		r.p = int(top[256+37][0])
		switch r.u(1) {
		case 0:
			for i := range v.FD {
				v.FD[i] = r.u(1)
			}
		case 3:
			nr := r.u(2)
			st := r.u(2)
			for k := 0; k < nr; k++ {
				fd := r.u(1)
				e := r.u(2)
				for i := st; i < e && i < n; i++ {
					v.FD[i] = fd
				}
				st = e
			}
		}
		if r.err != nil {
			return nil, r.err
		}
	}
	return v, nil
}

// Seg is a path segment.
type Seg struct {
	Op byte // M L Q C Z
	A  [6]float64
}
type Path []Seg

func (p Path) String() string {
	var sb strings.Builder
	for _, s := range p {
		sb.WriteByte(s.Op)
		n := map[byte]int{'M': 2, 'L': 2, 'Q': 4, 'C': 6}[s.Op]
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, " %g", s.A[i])
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

// Exec runs a charstring; it returns the path and the flattened operator trace (subroutines inlined).
func (v *CFFView) Exec(gid int) (Path, []string, error) {
	if gid >= len(v.CharStrings) {
		return nil, nil, fmt.Errorf("no glyph %d", gid)
	}
	var local [][]byte
	if v.FD[gid] < len(v.Local) {
		local = v.Local[v.FD[gid]]
	}
	return ExecType2(v.CharStrings[gid], local, v.Global)
}

// ExecType2 executes a Type 2 charstring.
func ExecType2(cs []byte, local, global [][]byte) (Path, []string, error) {
	var path Path
	var trace []string
	var st []int64
	var x, y int64
	hints := 0
	open := false
	widthDone := false
	moved := false
	ended := false
	fx := func(v int64) float64 { return float64(v) / 65536 }
	closep := func() {
		if open {
			path = append(path, Seg{Op: 'Z'})
		}
		open = false
	}
	moveto := func(dx, dy int64) {
		closep()
		x += dx
		y += dy
		path = append(path, Seg{'M', [6]float64{fx(x), fx(y)}})
		open = true
		moved = true
	}
	lineto := func(dx, dy int64) {
		x += dx
		y += dy
		path = append(path, Seg{'L', [6]float64{fx(x), fx(y)}})
	}
	curve := func(a, b, c, d, e, f int64) {
		x1, y1 := x+a, y+b
		x2, y2 := x1+c, y1+d
		x, y = x2+e, y2+f
		path = append(path, Seg{'C', [6]float64{fx(x1), fx(y1), fx(x2), fx(y2), fx(x), fx(y)}})
	}
	var run func(b []byte, depth int) (bool, error)
	run = func(b []byte, depth int) (bool, error) {
		if depth > 10 {
			return false, fmt.Errorf("subroutines nested too deeply")
		}
		r := &rd{b: b}
		for r.p < len(b) {
			b0 := r.u(1)
			if b0 >= 32 || b0 == 28 {
				var n int64
				switch {
				case b0 == 28:
					n = int64(int16(r.u(2))) << 16
				case b0 <= 246:
					n = int64(b0-139) << 16
				case b0 <= 250:
					n = int64((b0-247)*256+r.u(1)+108) << 16
				case b0 <= 254:
					n = int64(-(b0-251)*256-r.u(1)-108) << 16
				default:
					n = int64(int32(uint32(r.u(4))))
				}
				if r.err != nil {
					return false, r.err
				}
				if len(st) >= 48 {
					return false, fmt.Errorf("stack overflow")
				}
				st = append(st, n)
				continue
			}
			if b0 == 12 {
				b0 = 256 + r.u(1)
			}
			if r.err != nil {
				return false, r.err
			}
			name := type2Names[b0]
			switch name {
			case "callsubr", "callgsubr":
				subs := local
				if name == "callgsubr" {
					subs = global
				}
				if len(st) == 0 {
					return false, fmt.Errorf("%s without operand", name)
				}
				i := int(st[len(st)-1]>>16) + Bias(len(subs))
				st = st[:len(st)-1]
				if i < 0 || i >= len(subs) {
					return false, fmt.Errorf("%s %d of %d", name, i, len(subs))
				}
				end, err := run(subs[i], depth+1)
				if err != nil || end {
					return end, err
				}
				continue
			case "return":
				if depth == 0 {
					return false, fmt.Errorf("return outside of subroutine")
				}
				return false, nil
			}
			// width
			var width string
			if !widthDone {
				odd := -1
				switch name {
				case "hstem", "vstem", "hstemhm", "vstemhm", "hintmask", "cntrmask", "rmoveto", "endchar":
					odd = 1
				case "hmoveto", "vmoveto":
					odd = 0
				default:
					return false, fmt.Errorf("operator %s before first stack-clearing operator", name)
				}
				if len(st)%2 == odd && len(st) > 0 {
					width = fmt.Sprint("w", st[0], " ")
					st = st[1:]
				}
				widthDone = true
			}
			ev := width + name
			for _, s := range st {
				ev += fmt.Sprint(" ", s)
			}
			bad := func() (bool, error) { return false, fmt.Errorf("%s with %d operands", name, len(st)) }
			n := len(st)
			if !moved {
				switch name {
				case "rlineto", "hlineto", "vlineto", "rrcurveto", "rcurveline", "rlinecurve", "vvcurveto", "hhcurveto", "vhcurveto", "hvcurveto", "flex", "hflex", "hflex1", "flex1":
					return false, fmt.Errorf("%s before moveto", name)
				}
			}
			switch name {
			case "hstem", "vstem", "hstemhm", "vstemhm":
				if n < 2 || n%2 != 0 {
					return bad()
				}
				hints += n / 2
			case "hintmask", "cntrmask":
				if n%2 != 0 {
					return bad()
				}
				hints += n / 2
				mask := r.bytes((hints + 7) / 8)
				if r.err != nil {
					return false, r.err
				}
				ev += fmt.Sprintf(" mask%x", mask)
			case "rmoveto":
				if n != 2 {
					return bad()
				}
				moveto(st[0], st[1])
			case "hmoveto":
				if n != 1 {
					return bad()
				}
				moveto(st[0], 0)
			case "vmoveto":
				if n != 1 {
					return bad()
				}
				moveto(0, st[0])
			case "rlineto":
				if n == 0 || n%2 != 0 {
					return bad()
				}
				for i := 0; i < n; i += 2 {
					lineto(st[i], st[i+1])
				}
			case "hlineto", "vlineto":
				if n == 0 {
					return bad()
				}
				h := name == "hlineto"
				for i := 0; i < n; i++ {
					if h {
						lineto(st[i], 0)
					} else {
						lineto(0, st[i])
					}
					h = !h
				}
			case "rrcurveto":
				if n == 0 || n%6 != 0 {
					return bad()
				}
				for i := 0; i < n; i += 6 {
					curve(st[i], st[i+1], st[i+2], st[i+3], st[i+4], st[i+5])
				}
			case "rcurveline":
				if n < 8 || (n-2)%6 != 0 {
					return bad()
				}
				i := 0
				for ; i < n-2; i += 6 {
					curve(st[i], st[i+1], st[i+2], st[i+3], st[i+4], st[i+5])
				}
				lineto(st[i], st[i+1])
			case "rlinecurve":
				if n < 8 || n%2 != 0 {
					return bad()
				}
				i := 0
				for ; i < n-6; i += 2 {
					lineto(st[i], st[i+1])
				}
				curve(st[i], st[i+1], st[i+2], st[i+3], st[i+4], st[i+5])
			case "hhcurveto":
				if n < 4 || n%4 > 1 {
					return bad()
				}
				i := 0
				var d int64
				if n%4 == 1 {
					d = st[0]
					i = 1
				}
				for ; i < n; i += 4 {
					curve(st[i], d, st[i+1], st[i+2], st[i+3], 0)
					d = 0
				}
			case "vvcurveto":
				if n < 4 || n%4 > 1 {
					return bad()
				}
				i := 0
				var d int64
				if n%4 == 1 {
					d = st[0]
					i = 1
				}
				for ; i < n; i += 4 {
					curve(d, st[i], st[i+1], st[i+2], 0, st[i+3])
					d = 0
				}
			case "hvcurveto", "vhcurveto":
				if n < 4 || n%4 > 1 {
					return bad()
				}
				h := name == "hvcurveto"
				for i := 0; i+4 <= n; i += 4 {
					var last int64
					if i+5 == n {
						last = st[n-1]
					}
					if h {
						curve(st[i], 0, st[i+1], st[i+2], last, st[i+3])
					} else {
						curve(0, st[i], st[i+1], st[i+2], st[i+3], last)
					}
					h = !h
				}
			case "flex":
				if n != 13 {
					return bad()
				}
				curve(st[0], st[1], st[2], st[3], st[4], st[5])
				curve(st[6], st[7], st[8], st[9], st[10], st[11])
			case "hflex":
				if n != 7 {
					return bad()
				}
				curve(st[0], 0, st[1], st[2], st[3], 0)
				curve(st[4], 0, st[5], -st[2], st[6], 0)
			case "hflex1":
				if n != 9 {
					return bad()
				}
				curve(st[0], st[1], st[2], st[3], st[4], 0)
				curve(st[5], 0, st[6], st[7], st[8], -(st[1] + st[3] + st[7]))
			case "flex1":
				if n != 11 {
					return bad()
				}
				dx := st[0] + st[2] + st[4] + st[6] + st[8]
				dy := st[1] + st[3] + st[5] + st[7] + st[9]
				ax, ay := dx, dy
				if ax < 0 {
					ax = -ax
				}
				if ay < 0 {
					ay = -ay
				}
				curve(st[0], st[1], st[2], st[3], st[4], st[5])
				if ax > ay {
					curve(st[6], st[7], st[8], st[9], st[10], -dy)
				} else {
					curve(st[6], st[7], st[8], st[9], -dx, st[10])
				}
			case "endchar":
				if n != 0 {
					return bad()
				}
				trace = append(trace, ev)
				closep()
				ended = true
				return true, nil
			default:
				return false, fmt.Errorf("unsupported operator %d", b0)
			}
			trace = append(trace, ev)
			st = st[:0]
		}
		if depth > 0 {
			return false, fmt.Errorf("subroutine without return")
		}
		return false, nil
	}
	_, err := run(cs, 0)
	if err != nil {
		return path, trace, err
	}
	if !ended {
		return path, trace, fmt.Errorf("charstring without endchar")
	}
	return path, trace, nil
}
