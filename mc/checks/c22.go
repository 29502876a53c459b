package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
	"verifmc/sut"
)

// C22: the command line tool. The binary is built from the current tree and run as a user without rights in scratch directories.

func init() {
	core.Register(&core.Check{ID: "C22", Run: c22, CaseLimit: 120 * time.Second,
		Rule: "exhaustive enumeration of selection expressions over a token alphabet up to a length, of all Unicode categories and scripts, of all combinations of selection options, of input and output containers, encodings and destinations, of output states with answers and failure causes, and of a fault or kill at every system call of runs that overwrite a file; every run executes the real binary and the resulting directory is compared with a model of the command",
		Assumptions: []string{
			"the tool runs as an unprivileged user in scratch directories when the check runs as root",
			"system call faults are injected with strace; where it cannot run, only limits on the file size are used",
			"glyph names of CFF subsets without --glyph-name are not compared: the tool drops them by design",
		}})
}

// c22src is a source font with what the model knows of it.
type c22src struct {
	file  string
	b     []byte // as SFNT
	cff   bool
	n     int
	paths []string // nil for large fonts
	adv   map[uint16]int
	runes map[rune]int
	names map[string]int
	name  []string
	deps  map[int][]int
}

type c22env struct {
	root string // scratch directory
	bin  string
	uid  int // -1: as is
	src  map[string]*c22src
	n    int
	mu   sync.Mutex
	st   bool // strace works
}

func (x *c22env) add(t func(string, []byte), name string, f *ref.Font) *c22src {
	s := &c22src{cff: f.CFF, n: len(f.Glyphs), runes: map[rune]int{}, adv: map[uint16]int{}, names: map[string]int{}, deps: map[int][]int{}}
	for i := range f.Glyphs {
		f.Adv[i] = uint16(i + 7)
		s.adv[f.Adv[i]] = i
		for _, c := range f.Glyphs[i].Comps {
			s.deps[i] = append(s.deps[i], int(c.GID))
		}
	}
	s.b = f.SFNT()
	s.name = f.Names
	if f.CFF {
		s.name = f.C.Charset
	}
	for i, n := range s.name {
		s.names[n] = i
	}
	for _, sub := range f.Subs {
		for r, g := range sub.Map {
			s.runes[r] = int(g)
		}
	}
	if s.n < 1000 {
		p, err := font.ParseSFNT(clone(s.b), 0)
		if err != nil {
			panic(fmt.Sprintf("%s: %v", name, err))
		}
		for i := 0; i < s.n; i++ {
			s.paths = append(s.paths, c22path(p, i))
		}
	}
	s.file = name
	x.src[name] = s
	t(name, s.b)
	return s
}

func c22path(p *font.SFNT, i int) string {
	q, err := sut.Path(p, uint16(i))
	return fmt.Sprint(q, err)
}

// the characters of the text font
func c22chars() (out []rune) {
	for r := rune(7); r < 127; r++ {
		if r != 'm' && r != 0x10 && r != '5' {
			out = append(out, r)
		}
	}
	return append(out, 0xE9, 0x3B1, 0x4E2D, 0xFFFD, 0x1F600, 0x10FFFF)
}

func c22world() *c22env {
	x := &c22env{src: map[string]*c22src{}, uid: -1}
	tmp := os.TempDir()
	var err error
	if x.root, err = os.MkdirTemp(tmp, "c22."); err != nil {
		panic(err)
	}
	if os.Getuid() == 0 {
		x.uid = 65534
		os.Chmod(tmp, 0755)
	}
	os.Chmod(x.root, 0755)
	x.bin = filepath.Join(x.root, "fontcmd")
	mod := filepath.Join(x.root, "mod")
	os.Mkdir(mod, 0755)
	cmd := filepath.Join(repoDir(), "cmd/fontcmd")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(cmd, n))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(mod, n), b, 0644)
	}
	c := exec.Command("go", "build", "-modfile="+filepath.Join(mod, "go.mod"), "-o", x.bin, ".")
	c.Dir = cmd
	if out, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("fontcmd does not build: %v\n%s", err, out))
	}
	os.Chmod(x.bin, 0755)
	in := filepath.Join(x.root, "in")
	os.Mkdir(in, 0755)
	put := func(name string, b []byte) {
		if err := os.WriteFile(filepath.Join(in, name), b, 0644); err != nil {
			panic(err)
		}
	}

	// text font: a glyph for every character, a composite for é, glyphs without a character
	chars := c22chars()
	n := len(chars) + 4
	m := map[rune]uint16{}
	f := ttFont(plain(n))
	names := []string{".notdef"}
	for i, r := range chars {
		m[r] = uint16(i + 1)
		names = append(names, fmt.Sprintf("c%x", r))
	}
	names = append(names, "acute", "un-named", "twin")
	names[m['A']], names[m[' ']] = "A", "space"
	e := &f.Glyphs[m[0xE9]]
	*e = ref.Glyph{Comps: []ref.Component{{GID: m['e']}, {GID: uint16(n - 3), Dx: 4, Dy: 9}}}
	m['x'] = m['X'] // two characters for a glyph
	f.Subs, f.Recs = cmap12(m)
	f.PostVer, f.Names = 2, names
	T := x.add(put, "T.ttf", f)

	f = ttFont(plain(5))
	for i := range f.Glyphs {
		f.Glyphs[i].Contours = append(f.Glyphs[i].Contours, sq(1, 2, int16(i+9)))
	}
	f.Subs, f.Recs = cmap4(map[rune]uint16{0x4E00: 1, 0x4E01: 2, 0x4E02: 3})
	f.PostVer, f.Names = 2, []string{".notdef", "U", "V", "W", "Z"}
	T2 := x.add(put, "T2.ttf", f)

	// overlaps with the first and second
	f = ttFont(plain(3))
	f.Glyphs[1].Contours = append(f.Glyphs[1].Contours, sq(3, 3, 3))
	f.Subs, f.Recs = cmap4(map[rune]uint16{0x4E00: 1, 'b': 2})
	T3 := x.add(put, "T3.ttf", f)

	cffFont := func(n int, d int) *ref.Font {
		var cs [][]byte
		names := []string{".notdef"}
		m := map[rune]uint16{}
		for i := 0; i < n; i++ {
			cs = append(cs, ref.CS(i+d, 2, "rmoveto", 3+i, 4, "rlineto", 3, 9, "rlineto", "endchar"))
			if i > 0 {
				names = append(names, fmt.Sprintf("cff%d", i+d))
				m[rune('@'+i+8*d)] = uint16(i)
			}
		}
		f := cffSrcFont(cs, ref.CFFInfo{Charset: names})
		f.Subs, f.Recs = cmap4(m)
		return f
	}
	C := x.add(put, "C.otf", cffFont(20, 0))
	C2 := x.add(put, "C2.otf", cffFont(6, 5))
	x.add(put, "C300.otf", cffFont(300, 1))

	// containers
	ms := func(s ...*c22src) (out []ref.Member) {
		for _, s := range s {
			_, t, err := ref.ReadDir(s.b)
			if err != nil {
				panic(err)
			}
			v := "\x00\x01\x00\x00"
			if s.cff {
				v = "OTTO"
			}
			out = append(out, ref.Member{Version: v, Tables: t})
		}
		return
	}
	put("TC.ttc", ref.BuildTTC(ms(T, T2, T3), []int{0, 1, 2}, false, 1))
	put("CC.otc", ref.BuildTTC(ms(C, C2), []int{1, 0}, false, 2))
	put("CC.ttc", ref.BuildTTC(ms(C, C2), []int{1, 0}, false, 1))
	for _, s := range []*c22src{T, C} {
		q := ms(s)[0]
		base := s.file[:1]
		put(base+".woff", ref.BuildWOFF(q.Version, q.Tables, ref.WOFFOpts{}))
		q.Tables["head"] = clone(q.Tables["head"])
		q.Tables["head"][16] |= 8 // lossless transformation
		put(base+".woff2", ref.BuildWOFF2(q.Version, q.Tables, ref.W2Opts{}))
		put(base+".eot", ref.BuildEOT(s.b, ref.EOTOpts{Version: 0x00020001}))
	}
	put("bad.ttf", []byte("no font"))
	put("cut.ttf", T.b[:len(T.b)/2])

	// as many glyphs as there can be
	f = ttFont(make([]ref.Glyph, 65535))
	f.Subs, f.Recs = []ref.CmapSub{{Format: 12, Groups: [][3]uint32{{0x20000, 0x20000 + 65533, 1}}}}, []ref.CmapRec{{Platform: 3, Encoding: 10}}
	B := x.add(put, "B.ttf", f)
	for i := rune(0); i < 65534; i++ {
		B.runes[0x20000+i] = int(i) + 1
	}

	// the characters at the edges of all Unicode categories and scripts
	edges := map[rune]bool{}
	for _, ts := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts} {
		for _, t := range ts {
			for _, q := range t.R16 {
				for _, r := range []rune{-2, -1, 0, 1, rune(q.Stride)} {
					edges[rune(q.Lo)+r], edges[rune(q.Hi)-r] = true, true
				}
			}
			for _, q := range t.R32 {
				for _, r := range []rune{-2, -1, 0, 1, rune(q.Stride)} {
					edges[rune(q.Lo)+r], edges[rune(q.Hi)-r] = true, true
				}
			}
		}
	}
	var rs []rune
	for r := range edges {
		if 0 <= r && r <= unicode.MaxRune {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	f = ttFont(make([]ref.Glyph, len(rs)+1))
	m = map[rune]uint16{}
	for i, r := range rs {
		m[r] = uint16(i + 1)
	}
	f.Subs, f.Recs = cmap12(m)
	x.add(put, "R.ttf", f)

	if x.uid >= 0 {
		c := exec.Command(x.bin, "info", filepath.Join(in, "T2.ttf"))
		x.cred(c)
		if c.Run() != nil {
			x.uid = -1
		}
	}
	if p, err := exec.LookPath("strace"); err == nil && p != "" {
		log := filepath.Join(x.root, "log")
		os.WriteFile(log, nil, 0666)
		os.Chmod(log, 0666)
		c := exec.Command("strace", "-f", "-o", log, "-e", "trace=write", "-e", "inject=write:error=EIO:when=1", x.bin, "info", filepath.Join(in, "T2.ttf"))
		x.cred(c)
		c.Run()
		b, _ := os.ReadFile(log)
		x.st = bytes.Contains(b, []byte("INJECTED"))
	}
	return x
}

func (x *c22env) cred(c *exec.Cmd) {
	if x.uid >= 0 {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(x.uid), Gid: uint32(x.uid)}}
	}
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "LANG=C"}
}

// c22file is an entry of the working directory.
type c22file struct {
	mode os.FileMode
	b    string // content or link target
}

type c22run struct {
	args  []string
	stdin []byte
	pre   map[string]c22file // files before the run
	wrap  []string           // command that runs the tool
	mode  os.FileMode        // of the directory, 0: 0755
}

type c22res struct {
	code     int // -1: killed
	hang     bool
	out, err string
	files    map[string]c22file
}

// run executes the tool in a fresh directory.
func (x *c22env) run(t *core.T, r c22run) *c22res {
	x.mu.Lock()
	x.n++
	dir := filepath.Join(x.root, fmt.Sprintf("w%d", x.n))
	x.mu.Unlock()
	if err := os.Mkdir(dir, 0755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	own := func(p string) {
		if x.uid >= 0 {
			os.Lchown(p, x.uid, x.uid)
		}
	}
	own(dir)
	for n, f := range r.pre {
		p := filepath.Join(dir, n)
		switch {
		case f.mode&os.ModeSymlink != 0:
			os.Symlink(f.b, p)
		case f.mode.IsDir():
			os.Mkdir(p, 0755)
		default:
			if err := os.WriteFile(p, []byte(f.b), 0600); err != nil {
				panic(err)
			}
			os.Chmod(p, f.mode.Perm())
		}
		own(p)
	}
	if r.mode != 0 {
		os.Chmod(dir, r.mode)
	}
	args := append(append([]string{}, r.wrap...), x.bin)
	args = append(args, r.args...)
	c := exec.Command(args[0], args[1:]...)
	c.Dir = dir
	x.cred(c)
	if c.SysProcAttr == nil {
		c.SysProcAttr = &syscall.SysProcAttr{}
	}
	c.SysProcAttr.Setpgid = true
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	c.Stdin = bytes.NewReader(r.stdin)
	c.WaitDelay = time.Second
	res := &c22res{files: map[string]c22file{}}
	if err := c.Start(); err != nil {
		panic(err)
	}
	tm := time.AfterFunc(20*time.Second, func() {
		res.hang = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	c.Wait()
	tm.Stop()
	res.code = c.ProcessState.ExitCode()
	res.out, res.err = out.String(), errb.String()
	os.Chmod(dir, 0755)
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		fi, err := os.Lstat(p)
		if err != nil {
			panic(err)
		}
		f := c22file{mode: fi.Mode()}
		if fi.Mode()&os.ModeSymlink != 0 {
			f.b, _ = os.Readlink(p)
		} else if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			f.b = string(b)
		}
		res.files[e.Name()] = f
	}
	t.Trans(1)
	if res.hang {
		t.Fail("hang", "%v does not end within 20 s", r.args)
	} else if strings.Contains(res.err, "goroutine ") && strings.Contains(res.err, "panic") {
		t.Fail("panic", "%v panics: %.600s", r.args, res.err)
	}
	return res
}

// c22sel is a selection by options.
type c22sel struct{ glyphs, chars, names, unicodes, ranges []string }

func (s c22sel) args() (out []string) {
	for _, v := range []struct {
		o string
		a []string
	}{{"-g", s.glyphs}, {"-c", s.chars}, {"-n", s.names}, {"-u", s.unicodes}, {"-r", s.ranges}} {
		for _, a := range v.a {
			out = append(out, v.o, a)
		}
	}
	return
}

const (
	c22ok   = iota
	c22err  // must fail
	c22free // may fail, or may select more; no demands on the selection
	c22may  // may fail; when it does not the selection is exact
)

type c22item struct {
	r  rune
	op bool
}

// c22unescape reads a list of characters; false when it has an invalid escape sequence.
func c22unescape(s string) ([]c22item, bool) {
	var out []c22item
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '\\' {
			out = append(out, c22item{rs[i], rs[i] == '-'})
			continue
		}
		if i+1 == len(rs) {
			return nil, false
		}
		i++
		num := func(n, base int) bool {
			if i+n > len(rs) {
				return false
			}
			v, err := strconv.ParseUint(string(rs[i:i+n]), base, 32)
			if err != nil || v > unicode.MaxRune || 0xD800 <= v && v < 0xE000 || base == 8 && v > 255 {
				return false
			}
			out = append(out, c22item{rune(v), false})
			i += n - 1
			return true
		}
		if k := strings.IndexRune(`abtnvfr"'\,-`, rs[i]); k >= 0 {
			out = append(out, c22item{rune("\a\b\t\n\v\f\r\"'\\,-"[k]), false})
			continue
		}
		ok := false
		switch c := rs[i]; {
		case c == 'x':
			i++
			ok = num(2, 16)
		case c == 'u':
			i++
			ok = num(4, 16)
		case c == 'U':
			i++
			ok = num(8, 16)
		case '0' <= c && c <= '7':
			ok = num(3, 8)
		}
		if !ok {
			return nil, false
		}
	}
	return out, true
}

var (
	c22dec = regexp.MustCompile(`^[0-9]+$`)
	c22hex = regexp.MustCompile(`^[0-9a-fA-F]+$`)
)

// want gives the glyphs that a selection keeps, without the dependencies.
func (s *c22src) want(q c22sel) (map[int]bool, int) {
	set := map[int]bool{0: true}
	st := c22ok
	worse := func(v int) {
		if st == c22err || v == c22err {
			st = c22err
		} else if st == c22free || v == c22free {
			st = c22free
		} else if v == c22may {
			st = c22may
		}
	}
	rangeOf := func(v string, re *regexp.Regexp, base int, limit uint64) (uint64, uint64) {
		a, b, dash := strings.Cut(v, "-")
		if !dash {
			b = a
		}
		if !re.MatchString(a) || !re.MatchString(b) {
			if strings.Contains(v, "+") {
				worse(c22free)
			} else {
				worse(c22err)
			}
			return 1, 0
		}
		lo, err1 := strconv.ParseUint(a, base, 64)
		hi, err2 := strconv.ParseUint(b, base, 64)
		if err1 != nil || err2 != nil || lo > hi || hi > limit {
			worse(c22err)
			return 1, 0
		}
		return lo, hi
	}
	for _, v := range q.glyphs {
		for lo, hi := rangeOf(v, c22dec, 10, 65535); lo <= hi; lo++ {
			if lo >= uint64(s.n) {
				worse(c22may)
			} else {
				set[int(lo)] = true
			}
		}
	}
	for _, v := range q.unicodes {
		for lo, hi := rangeOf(v, c22hex, 16, unicode.MaxRune); lo <= hi; lo++ {
			set[s.runes[rune(lo)]] = true
		}
	}
	for _, v := range q.names {
		set[s.names[v]] = true
	}
	for _, v := range q.chars {
		it, ok := c22unescape(v)
		if !ok {
			worse(c22free)
			continue
		}
		prev := rune(-1)
		for i := 0; i < len(it); i++ {
			if it[i].op && prev >= 0 && i+1 < len(it) {
				if it[i+1].r < prev || it[i+1].op {
					worse(c22free)
				}
				for r := prev; r <= it[i+1].r; r++ {
					set[s.runes[r]] = true
				}
				prev = -1
				i++
			} else {
				set[s.runes[it[i].r]] = true
				prev = it[i].r
			}
		}
	}
	for _, v := range q.ranges {
		t := unicode.Categories[v]
		if t == nil {
			t = unicode.Scripts[v]
		}
		if t == nil {
			worse(c22err)
			continue
		}
		for r, g := range s.runes {
			if unicode.Is(t, r) {
				set[g] = true
			}
		}
	}
	return set, st
}

// close adds what the glyphs are composed of; the missing glyph is kept without its outline.
func (s *c22src) close(set map[int]bool) map[int]bool {
	out := map[int]bool{}
	var add func(g int)
	add = func(g int) {
		if !out[g] {
			out[g] = true
			if g != 0 {
				for _, d := range s.deps[g] {
					add(d)
				}
			}
		}
	}
	for g := range set {
		add(g)
	}
	return out
}

// c22decode reads the container; it returns an SFNT and the MIME type.
func c22decode(b []byte) ([]byte, string, error) {
	switch {
	case bytes.HasPrefix(b, []byte("wOF2")):
		if _, _, err := ref.DecodeWOFF2(b); err != nil {
			return nil, "", err
		}
		s, err := font.ToSFNT(clone(b))
		return s, "font/woff2", err
	case bytes.HasPrefix(b, []byte("OTTO")):
		_, err := ref.ReadFont(b)
		return b, "font/opentype", err
	case bytes.HasPrefix(b, []byte{0, 1, 0, 0}), bytes.HasPrefix(b, []byte("true")):
		_, err := ref.ReadFont(b)
		return b, "font/truetype", err
	}
	return nil, "", fmt.Errorf("unknown container %.8q", b)
}

// verify checks that b is a font in the container with exactly the glyphs.
func (s *c22src) verify(t *core.T, what, b, mime, enc string, want map[int]bool, free bool) *font.SFNT {
	fail := func(sig, f string, a ...any) *font.SFNT {
		t.Fail(sig, "%s: %s", what, fmt.Sprintf(f, a...))
		return nil
	}
	if enc == "base64" {
		d, err := base64.StdEncoding.Strict().DecodeString(b)
		if err != nil {
			return fail("encoding", "not base64: %v, %.20q", err, b)
		}
		b = string(d)
	}
	sf, got, err := c22decode([]byte(b))
	if err != nil {
		return fail("output", "%v", err)
	} else if got != mime {
		return fail("container", "%s instead of %s", got, mime)
	}
	f, err := font.ParseSFNT(sf, 0)
	if err != nil {
		return fail("output", "%v", err)
	}
	if f.IsCFF != s.cff {
		return fail("output", "outlines of another kind")
	}
	pos := map[int]int{}
	for i := 0; i < int(f.NumGlyphs()); i++ {
		g, ok := s.adv[f.GlyphAdvance(uint16(i))]
		if !ok {
			return fail("glyph", "glyph %d has advance %d of no glyph", i, f.GlyphAdvance(uint16(i)))
		}
		if _, dup := pos[g]; dup {
			return fail("glyph", "glyph %d is contained twice", g)
		}
		pos[g] = i
		if s.paths != nil {
			if p := c22path(f, i); p != s.paths[g] && (g != 0 || strings.TrimSpace(p) != "<nil>") {
				return fail("outline", "glyph %d: %s instead of %s", g, p, s.paths[g])
			}
		}
	}
	if pos[0] != 0 || f.NumGlyphs() == 0 || s.adv[f.GlyphAdvance(0)] != 0 {
		return fail("notdef", "the missing glyph is not the first")
	}
	if !free {
		want = s.close(want)
		for g := range want {
			if _, ok := pos[g]; !ok {
				return fail("selected glyph is missing", "glyph %d of %v is missing, has %v", g, c22keys(want), c22keys2(pos))
			}
		}
		for g := range pos {
			if !want[g] {
				return fail("glyph not selected", "glyph %d was not selected by %v", g, c22keys(want))
			}
		}
	}
	for r, g := range s.runes {
		if got := int(f.GlyphIndex(r)); got != pos[g] {
			return fail("character", "%U maps to %d instead of %d", r, got, pos[g])
		}
	}
	return f
}

func c22keys(m map[int]bool) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	if len(out) > 20 {
		out = out[:20]
	}
	return
}

func c22keys2(m map[int]int) []int {
	q := map[int]bool{}
	for k := range m {
		q[k] = true
	}
	return c22keys(q)
}

// same checks that the directory holds the files only.
func (r *c22res) same(t *core.T, what, sig string, want map[string]c22file) bool {
	for n, f := range want {
		g, ok := r.files[n]
		if !ok {
			t.Fail(sig+": file removed", "%s: %s was removed", what, n)
			return false
		} else if g != f {
			t.Fail(sig+": file changed", "%s: %s was %v with %d bytes, is %v with %d bytes", what, n, f.mode, len(f.b), g.mode, len(g.b))
			return false
		}
	}
	for n, g := range r.files {
		if _, ok := want[n]; !ok {
			t.Fail(sig+": file created", "%s: %s of %d bytes was created", what, n, len(g.b))
			return false
		}
	}
	return true
}

const c22old = "the old content of the file"

func c22reg(b string) c22file { return c22file{0644, b} }

// selection runs a subset to a file and checks the glyphs.
func (x *c22env) selection(t *core.T, src string, q c22sel, quiet bool) {
	s := x.src[src]
	set, st := s.want(q)
	args := append([]string{"subset", "-o", "o" + filepath.Ext(src)}, q.args()...)
	if quiet {
		args = append(args, "-q")
	}
	args = append(args, "../in/"+src)
	r := x.run(t, c22run{args: args})
	what := fmt.Sprintf("%q", args)
	if r.hang {
		return
	}
	if r.code != 0 {
		if st == c22ok {
			t.Fail("valid selection fails", "%s: exit status %d: %.200s", what, r.code, r.err)
			return
		}
		r.same(t, what, "failed run", nil)
		if strings.TrimSpace(r.err) == "" {
			t.Fail("error without message", "%s: exit status %d without message", what, r.code)
		}
		return
	}
	if st == c22err {
		t.Fail("invalid selection accepted", "%s: exit status 0: %.200s", what, r.err)
		return
	}
	f, ok := r.files["o"+filepath.Ext(src)]
	if !ok || len(r.files) != 1 {
		t.Fail("files", "%s: files %v", what, r.files)
		return
	}
	if quiet && r.out+r.err != "" {
		t.Fail("output when quiet", "%s: prints %.200q %.200q", what, r.out, r.err)
	}
	mime := "font/truetype"
	if s.cff {
		mime = "font/opentype"
	}
	s.verify(t, what, f.b, mime, "", set, st == c22free)
	t.Trace()
	t.State(what)
}

func c22(e *core.Env) {
	x := c22world()
	defer os.RemoveAll(x.root)
	x.selections(e)
	x.containers(e)
	x.writing(e)
	x.naming(e)
	x.merging(e)
	x.others(e)
	x.faults(e)
	e.Wait()
}

func (x *c22env) selections(e *core.Env) {
	// characters: all sequences of tokens
	tokens := []string{"a", "c", "e", "m", "-", `\-`, `\,`, `\n`, `\\`, `\x41`, `\u00e9`, `\U0001F600`, `\103`, `\x2d`, `\x4`, `\q`, "é", "z", "~", " "}
	for _, s := range []string{`\a\b\t\n\v\f\r\"\'\\\,\-`, `\x07-\x0D`, `\u4e2d`, `\U0010FFFF`, `\U00110000`, `\U7FFFFFFF`, `\UFFFFFFFF`, `a-\U7FFFFFFF`, `\uD800`, "\\x", "\\u", "\\U", "\\u12", "\\U1234567", `\x4g`, `\u00eg`,
		strings.Repeat("ab", 30) + `\x`, strings.Repeat("ab", 30) + `\x1`, strings.Repeat("ab", 30) + `\u1`, strings.Repeat("ab", 30) + `\U1`, strings.Repeat("ab", 30) + `\`, "a-z,A-Z,0-9", "a,b", `a\,b`, "!-~", "é-中", "a-", "-a", "--", "---", "a-c-e", `\xE9`, `\xe9`, `\u00E9`, "x", "X", "~-\U0010FFFF", `\1`, `\18`, `\400`, `\377`, `\351`, `中\-😀`, "\"'"} {
		e.Case("chars/"+s, func(t *core.T) {
			q := c22sel{chars: []string{s}}
			// commas separate the values
			var vs []string
			last := 0
			for i := 0; i < len(s); i++ {
				if s[i] == '\\' {
					i++
				} else if s[i] == ',' {
					vs = append(vs, s[last:i])
					last = i + 1
				}
			}
			vs = append(vs, s[min(last, len(s)):])
			set, st := x.src["T.ttf"].want(c22sel{chars: vs})
			set2, st2 := x.src["T.ttf"].want(q)
			if len(vs) == 1 && (st != st2 || len(set) != len(set2)) {
				panic("model")
			}
			if len(vs) > 1 {
				x.selectionSplit(t, "T.ttf", q, c22sel{chars: vs})
				return
			}
			x.selection(t, "T.ttf", q, false)
		})
	}
	n := 3
	if e.Thorough {
		n = 4
	}
	var rec func(pre string, k int)
	rec = func(pre string, k int) {
		if k == 0 {
			return
		}
		e.Case(fmt.Sprintf("chars/%q", pre), func(t *core.T) {
			for _, tok := range tokens {
				x.selection(t, "T.ttf", c22sel{chars: []string{pre + tok}}, len(tok) == 1)
			}
		})
		for _, tok := range tokens {
			rec(pre+tok, k-1)
		}
	}
	rec("", n)

	// glyph numbers
	nums := []string{"0", "1", "2", "255", "256", "32767", "32768", "40000", "65533", "65534", "65535", "65536", "99999999999999999999", "", "x", "1x", " 1", "0x1", "1e1", "007", "-1", "+1"}
	for _, src := range []string{"B.ttf", "T.ttf", "C300.otf"} {
		for _, a := range nums {
			e.Case("glyphs/"+src+"/"+a, func(t *core.T) {
				if a != "" && a[0] != '-' {
					x.selection(t, src, c22sel{glyphs: []string{a}}, true)
				}
				for _, b := range nums {
					if src != "B.ttf" || len(b)+len(a) > 6 || a < "2" {
						x.selection(t, src, c22sel{glyphs: []string{a + "-" + b}}, false)
					}
				}
			})
		}
	}
	e.Case("glyphs/many", func(t *core.T) {
		for _, k := range []int{227, 228, 229, 230, 231, 256, 299} {
			x.selection(t, "C300.otf", c22sel{glyphs: []string{fmt.Sprintf("1-%d", k)}}, true)
		}
		x.selection(t, "C300.otf", c22sel{glyphs: []string{"1-2-3"}}, true)
		x.selection(t, "T.ttf", c22sel{glyphs: []string{"1", "1-3", "2-4", "3"}}, true)
	})

	// code points
	codes := []string{"0", "7", "41", "5a", "5A", "6D", "e9", "E9", "4e2d", "fffd", "ffff", "10000", "1f600", "10FFFF", "110000", "7fffffff", "80000000", "ffffffff", "100000000", "", "g", "U+41", "0x41", "-1", " 41", "+41"}
	for _, a := range codes {
		e.Case("codes/"+a, func(t *core.T) {
			if a != "" && a[0] != '-' {
				x.selection(t, "T.ttf", c22sel{unicodes: []string{a}}, true)
			}
			for _, b := range codes {
				x.selection(t, "T.ttf", c22sel{unicodes: []string{a + "-" + b}}, true)
			}
		})
	}

	// names
	e.Case("names", func(t *core.T) {
		s := x.src["T.ttf"]
		for _, n := range append(append([]string{}, s.name...), "nothing", ".notdef", "un-named", "acute") {
			x.selection(t, "T.ttf", c22sel{names: []string{n}}, n != "nothing")
		}
		for i := 0; i < 20; i++ {
			for j := 0; j < 20; j++ {
				x.selection(t, "C.otf", c22sel{names: []string{x.src["C.otf"].name[i], x.src["C.otf"].name[j]}}, true)
			}
		}
	})

	// all categories and scripts, on a font with the characters at all their edges
	var ts []string
	for _, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts} {
		for n := range m {
			ts = append(ts, n)
		}
	}
	sort.Strings(ts)
	for _, n := range append(ts, "", "latin", "Klingon", "L,N", "White_Space") {
		if n == "L,N" || n == "" {
			continue
		}
		e.Case("range/"+n, func(t *core.T) {
			x.selection(t, "R.ttf", c22sel{ranges: []string{n}}, true)
			x.selection(t, "T.ttf", c22sel{ranges: []string{n}}, false)
		})
	}
	e.Case("range/pairs", func(t *core.T) {
		for _, a := range []string{"L", "Nd", "Latin", "Han", "Greek", "bad"} {
			for _, b := range []string{"Zs", "P", "Co", "Lu"} {
				x.selection(t, "T.ttf", c22sel{ranges: []string{a, b}}, true)
			}
		}
	})

	// all combinations of the options
	gl := [][]string{nil, {"3"}, {"3", "10-12"}, {"7-6"}}
	ch := [][]string{nil, {"é"}, {"A-C", "z"}}
	na := [][]string{nil, {"twin"}, {"A", "nothing"}}
	un := [][]string{nil, {"41"}, {"4e2d", "61-63"}, {"zz"}}
	ra := [][]string{nil, {"Greek"}, {"Lu", "Nd"}, {"None"}}
	for i, g := range gl {
		for j, c := range ch {
			e.Case(fmt.Sprintf("combined/%d/%d", i, j), func(t *core.T) {
				for _, n := range na {
					for _, u := range un {
						for _, r := range ra {
							x.selection(t, "T.ttf", c22sel{g, c, n, u, r}, true)
						}
					}
				}
			})
		}
	}
}

// selectionSplit runs a selection given as a list with commas.
func (x *c22env) selectionSplit(t *core.T, src string, q, model c22sel) {
	s := x.src[src]
	set, st := s.want(model)
	args := append([]string{"subset", "-o", "o.ttf"}, append(q.args(), "../in/"+src)...)
	r := x.run(t, c22run{args: args})
	if r.code != 0 {
		if st == c22ok {
			t.Fail("valid selection fails", "%q: %.200s", args, r.err)
		}
		return
	}
	s.verify(t, fmt.Sprintf("%q", args), r.files["o.ttf"].b, "font/truetype", "", set, st == c22free)
	t.Trace()
}
