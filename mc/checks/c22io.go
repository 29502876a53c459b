package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/sut"
)

// c22in is an input file with the font it has at an index.
type c22in struct {
	file, src string
	index     int
	mime      string // media type of the file
}

var c22ins = []c22in{
	{"T.ttf", "T.ttf", 0, "font/truetype"}, {"C.otf", "C.otf", 0, "font/opentype"},
	{"TC.ttc", "T.ttf", 0, "font/truetype"}, {"TC.ttc", "T2.ttf", 1, "font/truetype"}, {"TC.ttc", "T3.ttf", 2, "font/truetype"}, {"TC.ttc", "", 3, ""}, {"TC.ttc", "", -1, ""},
	{"CC.otc", "C.otf", 0, "?"}, {"CC.otc", "C2.otf", 1, "?"}, {"CC.ttc", "C2.otf", 1, "?"},
	{"T.woff", "T.ttf", 0, "font/woff"}, {"C.woff", "C.otf", 0, "font/woff"},
	{"T.woff2", "T.ttf", 0, "font/woff2"}, {"C.woff2", "C.otf", 0, "font/woff2"},
	{"T.eot", "T.ttf", 0, "application/vnd.ms-fontobject"}, {"C.eot", "C.otf", 0, "application/vnd.ms-fontobject"},
	{"bad.ttf", "", 0, ""}, {"cut.ttf", "", 0, ""}, {"none.ttf", "", 0, ""},
}

var c22exts = map[string]string{".ttf": "font/truetype", ".ttc": "font/truetype", ".otf": "font/opentype", ".otc": "font/opentype", ".woff2": "font/woff2", ".woff": "font/woff", ".eot": "application/vnd.ms-fontobject"}

// c22mime gives the container of an output and whether it can be written.
func c22mime(in c22in, cff bool, output, typ string) (string, int) {
	mime := c22exts[filepath.Ext(output)]
	ext := mime != ""
	if typ != "" {
		mime = typ
	} else if !ext {
		mime = in.mime
	}
	switch {
	case mime == "font/woff2", mime == "font/truetype" && !cff, mime == "font/opentype" && cff:
		return mime, c22ok
	case mime == "?", typ == "" && (filepath.Ext(output) == ".ttc" || filepath.Ext(output) == ".otc"):
		if cff { // a collection may have outlines of any kind
			return "font/opentype", c22may
		}
		return "font/truetype", c22may
	}
	return "", c22err
}

func (x *c22env) containers(e *core.Env) {
	exts := []string{".ttf", ".otf", ".woff2", ".ttc", ".otc", ".woff", ".eot", ".xyz", ""}
	types := []string{"", "font/truetype", "font/opentype", "font/woff2", "font/woff", "text/plain"}
	for _, in := range c22ins {
		for _, stdin := range []bool{false, true} {
			if stdin && in.file == "none.ttf" {
				continue
			}
			e.Case(fmt.Sprintf("container/%s/%d/stdin=%v", in.file, in.index, stdin), func(t *core.T) {
				for _, out := range append(exts, "-") {
					for _, typ := range types {
						for _, enc := range []string{"", "base64", "base32"} {
							x.convert(t, in, stdin, out, typ, enc)
						}
					}
				}
			})
		}
		if in.file == "none.ttf" {
			continue
		}
		// without output the input is replaced
		e.Case(fmt.Sprintf("container/%s/%d/in place", in.file, in.index), func(t *core.T) {
			b, err := os.ReadFile(filepath.Join(x.root, "in", in.file))
			if err != nil {
				panic(err)
			}
			pre := map[string]c22file{in.file: c22reg(string(b))}
			for _, typ := range types {
				for _, enc := range []string{"", "base64", "base32"} {
					for _, ans := range []string{"-f", "y\n", "n\n"} {
						args := []string{"subset", "-g", "1-2", "-i", strconv.Itoa(in.index)}
						if ans == "-f" {
							args = append(args, ans)
						}
						if typ != "" {
							args = append(args, "-t", typ)
						}
						if enc != "" {
							args = append(args, "-e", enc)
						}
						args = append(args, in.file)
						what := fmt.Sprintf("%q with input %q", args, ans)
						st, mime := c22err, ""
						if in.src != "" && enc != "base32" && ans != "n\n" {
							mime, st = c22mime(in, x.src[in.src].cff, in.file, typ)
						}
						r := x.run(t, c22run{args: args, stdin: []byte(ans), pre: pre})
						if r.code != 0 {
							if st == c22ok {
								t.Fail("in place fails", "%s: %.200s", what, r.err)
							}
							r.same(t, what, "failed run", pre)
							continue
						}
						if st == c22err {
							t.Fail("in place does not fail", "%s: exit status 0", what)
							continue
						}
						f := r.files[in.file]
						if len(r.files) != 1 || f.mode != 0644 {
							t.Fail("files", "%s: files %d, mode %v", what, len(r.files), f.mode)
						}
						x.src[in.src].verify(t, what, f.b, mime, enc, map[int]bool{0: true, 1: true, 2: true}, false)
						t.Trace()
					}
				}
			}
		})
	}

	// several outputs
	outs := []string{"a.ttf", "b.woff2", "-", "c.ttc"}
	for i := 0; i < 64; i++ {
		e.Case(fmt.Sprintf("outputs/%d", i), func(t *core.T) {
			sel := []string{outs[i&3], outs[i>>2&3], outs[i>>4&3]}
			seen := map[string]int{}
			for _, s := range sel {
				seen[s]++
			}
			if len(seen) < 3 {
				return
			}
			for _, cmd := range []string{"subset", "merge"} {
				for _, join := range []bool{false, true} {
					for _, exist := range []string{"", "a.ttf"} {
						args := []string{cmd, "-o", strings.Join(sel, ",")}
						if !join {
							args = []string{cmd, "-o", sel[0], "-o", sel[1], "-o", sel[2]}
						}
						want := map[int]bool{0: true, 1: true, 2: true}
						typ := ""
						if cmd == "merge" && seen["-"] > 0 { // has no type by default
							typ = "font/truetype"
							args = append(args, "-t", typ)
						}
						if cmd == "subset" {
							args = append(args, "-g", "1,2")
						} else {
							for i := range x.src["T.ttf"].n {
								want[i] = true
							}
						}
						args = append(args, "../in/T.ttf")
						pre := map[string]c22file{}
						if exist != "" {
							pre[exist] = c22reg(c22old)
						}
						what := fmt.Sprintf("%q with %d existing", args, len(pre))
						r := x.run(t, c22run{args: args, pre: pre, stdin: []byte("y\n")})
						if r.code != 0 {
							t.Fail("outputs fail", "%s: %.200s", what, r.err)
							return
						}
						n := 0
						if exist != "" && seen[exist] == 0 {
							n++
						}
						for _, s := range sel {
							mime, _ := c22mime(c22ins[0], false, s, typ)
							b := r.out
							if s != "-" {
								n++
								b = r.files[s].b
							}
							x.src["T.ttf"].verify(t, what+" output "+s, b, mime, "", want, false)
						}
						if n != len(r.files) {
							t.Fail("files", "%s: %d files", what, len(r.files))
						}
						t.Trace()
					}
				}
			}
		})
	}
}

// convert runs a subset from an input to an output.
func (x *c22env) convert(t *core.T, in c22in, stdin bool, out, typ, enc string) {
	name := out
	if out != "-" {
		name = "o" + out
	}
	args := []string{"subset", "-g", "1-2", "-i", strconv.Itoa(in.index), "-o", name}
	if typ != "" {
		args = append(args, "-t", typ)
	}
	if enc != "" {
		args = append(args, "-e", enc)
	}
	var sb []byte
	if stdin {
		args = append(args, "-")
		var err error
		if sb, err = os.ReadFile(filepath.Join(x.root, "in", in.file)); err != nil {
			panic(err)
		}
	} else {
		args = append(args, "../in/"+in.file)
	}
	what := fmt.Sprintf("%q", args)
	if stdin {
		what += " < " + in.file
	}
	st, mime := c22err, ""
	if in.src != "" && enc != "base32" {
		mime, st = c22mime(in, x.src[in.src].cff, name, typ)
	}
	r := x.run(t, c22run{args: args, stdin: sb})
	if r.code != 0 {
		if st == c22ok {
			t.Fail("conversion fails", "%s: %.200s", what, r.err)
		}
		r.same(t, what, "failed run", nil)
		if out == "-" && r.out != "" {
			t.Fail("failed run prints", "%s: prints %d bytes", what, len(r.out))
		}
		return
	}
	if st == c22err {
		t.Fail("conversion does not fail", "%s: exit status 0", what)
		return
	}
	b := r.out
	if out != "-" {
		b = r.files[name].b
		delete(r.files, name)
	}
	r.same(t, what, "further output", nil)
	x.src[in.src].verify(t, what, b, mime, enc, map[int]bool{0: true, 1: true, 2: true}, false)
	t.Trace()
	t.State(what)
}

// c22state is the state of the output before a run.
type c22state struct {
	name string
	pre  map[string]c22file
	out  string
	mode os.FileMode
	real string // the file that gets the content
	any  bool   // may fail although allowed
	bad  bool   // cannot be written
	ask  bool   // exists
}

var c22states = []c22state{
	{name: "absent", out: "o.ttf", real: "o.ttf"},
	{name: "file", out: "o.ttf", pre: map[string]c22file{"o.ttf": c22reg(c22old)}, real: "o.ttf", ask: true},
	{name: "large file", out: "o.ttf", pre: map[string]c22file{"o.ttf": c22reg(strings.Repeat(c22old, 10000))}, real: "o.ttf", ask: true},
	{name: "empty file", out: "o.ttf", pre: map[string]c22file{"o.ttf": c22reg("")}, real: "o.ttf", ask: true},
	{name: "private file", out: "o.ttf", pre: map[string]c22file{"o.ttf": {0600, c22old}}, real: "o.ttf", ask: true},
	{name: "wide file", out: "o.ttf", pre: map[string]c22file{"o.ttf": {0666, c22old}, "q.ttf": {0640, "x"}}, real: "o.ttf", ask: true},
	{name: "read-only file", out: "o.ttf", pre: map[string]c22file{"o.ttf": {0444, c22old}}, real: "o.ttf", ask: true, any: true},
	{name: "link", out: "o.ttf", pre: map[string]c22file{"o.ttf": {os.ModeSymlink | 0777, "r.ttf"}, "r.ttf": c22reg(c22old)}, real: "r.ttf", ask: true},
	{name: "dangling link", out: "o.ttf", pre: map[string]c22file{"o.ttf": {os.ModeSymlink | 0777, "r.ttf"}}, real: "r.ttf", any: true},
	{name: "directory", out: "o.ttf", pre: map[string]c22file{"o.ttf": {os.ModeDir | 0755, ""}}, real: "o.ttf", bad: true, ask: true},
	{name: "no directory", out: "no/o.ttf", real: "no/o.ttf", bad: true},
	{name: "file in closed directory", out: "o.ttf", mode: 0555, pre: map[string]c22file{"o.ttf": c22reg(c22old)}, real: "o.ttf", ask: true},
	{name: "absent in closed directory", out: "o.ttf", mode: 0555, real: "o.ttf", bad: true},
}

// c22content tells whether the content is that of a complete run of the command.
func (x *c22env) content(t *core.T, what, cmd, b string) {
	s := x.src["T.ttf"]
	switch cmd {
	case "css":
		s.css(t, what, ".%n", b)
	case "merge":
		want := map[int]bool{}
		for i := range s.n {
			want[i] = true
		}
		s.verify(t, what, b, "font/truetype", "", want, false)
	default:
		s.verify(t, what, b, "font/truetype", "", map[int]bool{0: true, 5: true}, false)
	}
}

func c22args(cmd, out string, force bool, in string) []string {
	args := []string{cmd, "-o", out}
	if cmd == "subset" {
		args = append(args, "-g", "5")
	}
	if force {
		args = append(args, "-f")
	}
	return append(args, in)
}

func (x *c22env) writing(e *core.Env) {
	answers := map[string]bool{"": false, "\n": false, "y\n": true, "Y\n": true, "yes\n": true, "YES\n": true, "Yes\n": true, "n\n": false, "N\n": false, "no\n": false, "q\n": false, "yy\n": false, "ye\n": false, "y": true, "n": false, "1\n": false, "true\n": false, "\ny\n": false, "n\ny\n": false, "y\r\n": true}
	for _, s := range c22states {
		for _, cmd := range []string{"subset", "merge", "css"} {
			e.Case(fmt.Sprintf("consent/%s/%s", s.name, cmd), func(t *core.T) {
				if x.uid < 0 && os.Getuid() == 0 {
					return
				}
				for _, force := range []bool{false, true} {
					for ans, yes := range answers {
						args := c22args(cmd, s.out, force, "../in/T.ttf")
						what := fmt.Sprintf("%s, %q with input %q", s.name, args, ans)
						r := x.run(t, c22run{args: args, pre: s.pre, stdin: []byte(ans), mode: s.mode})
						allowed := force || !s.ask || yes
						if !allowed || s.bad {
							r.same(t, what, "without consent", s.pre)
							if r.code == 0 && (s.bad && allowed || cmd != "css") {
								t.Fail("no error", "%s: exit status 0", what)
							}
							continue
						}
						if r.code != 0 {
							if !s.any {
								t.Fail("write fails", "%s: %.200s", what, r.err)
							}
							r.same(t, what, "failed run", s.pre)
							continue
						}
						got := r.files[s.real]
						want := map[string]c22file{}
						for n, f := range s.pre {
							want[n] = f
						}
						mode := os.FileMode(0644)
						if f, ok := s.pre[s.real]; ok {
							mode = f.mode
						}
						want[s.real] = c22file{mode, got.b}
						r.same(t, what, "written", want)
						x.content(t, what, cmd, got.b)
						t.Trace()
						t.State(what)
					}
				}
			})
		}
	}

	// failing runs
	type cause struct {
		name string
		args []string
	}
	in := "../in/T.ttf"
	causes := []cause{
		{"no input file", []string{"subset", "-f", "-g", "1", "-o", "o.ttf", "../in/none.ttf"}},
		{"no font", []string{"subset", "-f", "-g", "1", "-o", "o.ttf", "../in/bad.ttf"}},
		{"truncated font", []string{"subset", "-f", "-g", "1", "-o", "o.ttf", "../in/cut.ttf"}},
		{"no font in place", []string{"subset", "-f", "-g", "1", "o.ttf"}},
		{"index", []string{"subset", "-f", "-g", "1", "-i", "3", "-o", "o.ttf", "../in/TC.ttc"}},
		{"index of font", []string{"subset", "-f", "-g", "1", "-i", "1", "-o", "o.ttf", in}},
		{"negative index", []string{"subset", "-f", "-g", "1", "--index=-1", "-o", "o.ttf", "../in/TC.ttc"}},
		{"glyph", []string{"subset", "-f", "-g", "x", "-o", "o.ttf", in}},
		{"glyph range", []string{"subset", "-f", "-g", "3-2", "-o", "o.ttf", in}},
		{"code", []string{"subset", "-f", "-u", "zz", "-o", "o.ttf", in}},
		{"code range", []string{"subset", "-f", "-u", "62-61", "-o", "o.ttf", in}},
		{"script", []string{"subset", "-f", "-r", "None", "-o", "o.ttf", in}},
		{"encoding", []string{"subset", "-f", "-e", "hex", "-g", "1", "-o", "o.ttf", in}},
		{"type", []string{"subset", "-f", "-t", "font/none", "-g", "1", "-o", "o.ttf", in}},
		{"outlines", []string{"subset", "-f", "-g", "1", "-o", "o.ttf", "../in/C.otf"}},
		{"second type", []string{"subset", "-f", "-g", "1", "-o", "o.ttf", "-o", "p.xyz", "../in/T.woff"}},
		{"second outlines", []string{"subset", "-f", "-g", "1", "-o", "o.ttf,p.otf", in}},
		{"second outlines, existing", []string{"subset", "-f", "-g", "1", "-o", "o.ttf,q.otf", in}},
		{"second directory", []string{"subset", "-f", "-g", "1", "-o", "o.ttf,no/p.ttf", in}},
		{"second is directory", []string{"subset", "-f", "-g", "1", "-o", "o.ttf,d.ttf", in}},
		{"second declined", []string{"subset", "-g", "1", "-o", "o.ttf,q.ttf", in}},
		{"merge no input", []string{"merge", "-f", "-o", "o.ttf"}},
		{"merge no input file", []string{"merge", "-f", "-o", "o.ttf", in, "../in/none.ttf"}},
		{"merge no font", []string{"merge", "-f", "-o", "o.ttf", in, "../in/bad.ttf"}},
		{"merge first no font", []string{"merge", "-f", "-o", "o.ttf", "../in/bad.ttf", in}},
		{"merge overlap", []string{"merge", "-f", "-o", "o.ttf", in, "../in/T3.ttf"}},
		{"merge kinds", []string{"merge", "-f", "-o", "o.ttf", in, "../in/C.otf"}},
		{"merge outlines", []string{"merge", "-f", "-o", "o.ttf", "../in/C.otf", "../in/C2.otf"}},
		{"merge encoding", []string{"merge", "-f", "-e", "hex", "-o", "o.ttf", in}},
		{"merge type", []string{"merge", "-f", "-t", "x", "-o", "o.ttf", in}},
		{"merge extension", []string{"merge", "-f", "-o", "o.ttf,q.txt", in}},
		{"merge no output", []string{"merge", "-f", in}},
		{"merge second declined", []string{"merge", "-o", "o.ttf,q.ttf", in}},
		{"css no input file", []string{"css", "-f", "-o", "o.ttf", "../in/none.ttf"}},
		{"css no font", []string{"css", "-f", "-o", "o.ttf", "../in/bad.ttf"}},
		{"css index", []string{"css", "-f", "-i", "5", "-o", "o.ttf", "../in/TC.ttc"}},
		{"css no output", []string{"css", "-f", in}},
		{"css append no font", []string{"css", "-a", "-o", "o.ttf", "../in/bad.ttf"}},
	}
	pre := map[string]c22file{"o.ttf": c22reg(c22old), "q.ttf": {0600, c22old}, "q.otf": c22reg("q"), "q.txt": c22reg("t"), "d.ttf": {os.ModeDir | 0755, ""}}
	for _, c := range causes {
		e.Case("failure/"+c.name, func(t *core.T) {
			for _, ans := range []string{"y\nn\n", "n\nn\n"} {
				r := x.run(t, c22run{args: c.args, pre: pre, stdin: []byte(ans)})
				what := fmt.Sprintf("%q with input %q", c.args, ans)
				if r.code == 0 {
					t.Fail("no error: "+c.name, "%s: exit status 0, prints %.200q", what, r.out)
				}
				r.same(t, what, "failed run", pre)
				t.Trace()
			}
		})
	}

	// writing to standard output that is full
	e.Case("failure/full", func(t *core.T) {
		for _, cmd := range []string{"subset", "merge"} {
			args := c22args(cmd, "-", false, in)
			r := x.run(t, c22run{args: args, wrap: []string{"/bin/sh", "-c", `exec "$@" > /dev/full`, "sh"}})
			if r.code == 0 {
				t.Fail("no error: full", "%q: exit status 0 when the output cannot be written", args)
			}
			t.Trace()
		}
	})
}

func (x *c22env) naming(e *core.Env) {
	tokens := []string{"%i", "%n", "%u", "%%", "x", "é", "-"}
	n := 2
	if e.Thorough {
		n = 4
	}
	expand := func(s *c22src, pat string, g int, r rune, has bool) (string, bool) {
		out := ""
		for i := 0; i < len(pat); i++ {
			if pat[i] != '%' || i+1 == len(pat) {
				out += pat[i : i+1]
				continue
			}
			i++
			switch pat[i] {
			case '%':
				out += "%"
			case 'i':
				out += strconv.Itoa(g)
			case 'n':
				out += s.name[g]
			case 'u':
				if !has {
					return "", false
				}
				out += fmt.Sprintf("%x", r)
			}
		}
		return out, true
	}
	check := func(t *core.T, src, pat string, q c22sel) {
		s := x.src[src]
		ext := filepath.Ext(src)
		args := append([]string{"subset", "-o", "o" + ext, "--glyph-name", pat}, q.args()...)
		args = append(args, "../in/"+src)
		what := fmt.Sprintf("%q", args)
		r := x.run(t, c22run{args: args})
		if r.code != 0 {
			t.Fail("names fail", "%s: %.200s", what, r.err)
			return
		}
		set, _ := s.want(q)
		mime := c22exts[ext]
		f := s.verify(t, what, r.files["o"+ext].b, mime, "", set, false)
		if f == nil {
			return
		}
		for i := 1; i < int(f.NumGlyphs()); i++ {
			g := s.adv[f.GlyphAdvance(uint16(i))]
			if !set[g] {
				continue
			}
			var ok []string
			has := false
			for r, k := range s.runes {
				if k == g {
					has = true
					v, _ := expand(s, pat, g, r, true)
					ok = append(ok, v)
				}
			}
			if !has {
				v, is := expand(s, pat, g, 0, false)
				if !is {
					continue
				}
				ok = append(ok, v)
			}
			got := f.GlyphName(uint16(i))
			match := false
			for _, v := range ok {
				match = match || v == got
			}
			if !match {
				t.Fail("glyph name", "%s: glyph %d is named %q instead of %q", what, g, got, ok)
				return
			}
		}
		t.Trace()
	}
	var rec func(pre string, k int)
	rec = func(pre string, k int) {
		if pre != "" {
			e.Case("names/"+pre, func(t *core.T) {
				for _, p := range []string{pre, pre + "%"} {
					check(t, "T.ttf", p, c22sel{chars: []string{"é", "a-dX"}, names: []string{"twin"}})
					check(t, "C.otf", p, c22sel{glyphs: []string{"2-4", "9"}})
				}
			})
		}
		if k == 0 {
			return
		}
		for _, tok := range tokens {
			rec(pre+tok, k-1)
		}
	}
	rec("", n)
	e.Case("names/many", func(t *core.T) {
		check(t, "C300.otf", "g%i", c22sel{glyphs: []string{"1-299"}})
		check(t, "C300.otf", "%n", c22sel{glyphs: []string{"5-250"}})
		check(t, "T.ttf", "g%i", c22sel{glyphs: []string{"0-" + strconv.Itoa(x.src["T.ttf"].n-1)}})
	})
}

func (x *c22env) merging(e *core.Env) {
	ins := []string{"T.ttf", "T2.ttf", "T3.ttf", "C.otf", "C2.otf", "T.woff2", "C.woff", "TC.ttc", "T.eot"}
	view := func(f *font.SFNT) string {
		return sut.Observe(f, sut.Opt{Names: nil}).Canon()
	}
	load := func(n string) *font.SFNT {
		b, err := os.ReadFile(filepath.Join(x.root, "in", n))
		if err != nil {
			panic(err)
		}
		if b, err = font.ToSFNT(b); err != nil {
			panic(err)
		}
		f, err := font.ParseSFNT(b, 0)
		if err != nil {
			panic(err)
		}
		return f
	}
	run := func(t *core.T, files []string, rearrange bool) {
		f := load(files[0])
		var err error
		for _, n := range files[1:] {
			if err = f.Merge(load(n), font.MergeOptions{RearrangeCmap: rearrange}); err != nil {
				break
			}
		}
		for _, ext := range []string{".ttf", ".otf", ".woff2"} {
			args := []string{"merge", "-q", "-o", "o" + ext}
			if rearrange {
				args = append(args, "--rearrange-cmap")
			}
			for _, n := range files {
				args = append(args, "../in/"+n)
			}
			what := fmt.Sprintf("%q", args)
			r := x.run(t, c22run{args: args})
			fits := ext == ".woff2" || (ext == ".otf") == f.IsCFF
			if (err != nil || !fits) != (r.code != 0) {
				t.Fail("merge status", "%s: exit status %d, merging gives %v: %.200s", what, r.code, err, r.err)
				continue
			}
			if r.code != 0 {
				r.same(t, what, "failed merge", nil)
				continue
			}
			if r.out+r.err != "" {
				t.Fail("output when quiet", "%s: prints %.200q %.200q", what, r.out, r.err)
			}
			sf, mime, derr := c22decode([]byte(r.files["o"+ext].b))
			if derr != nil || mime != c22exts[ext] {
				t.Fail("merge output", "%s: %s %v", what, mime, derr)
				continue
			}
			g, perr := font.ParseSFNT(sf, 0)
			if perr != nil {
				t.Fail("merge output", "%s: %v", what, perr)
				continue
			}
			if a, b := view(g), view(f); a != b {
				t.Fail("merge content", "%s: %s", what, c22diff(a, b))
			}
			t.Trace()
			t.State(what)
		}
	}
	for i := range ins {
		e.Case("merge/"+ins[i], func(t *core.T) {
			for _, re := range []bool{false, true} {
				if !re {
					run(t, ins[i:i+1], re)
				}
				for j := range ins {
					if i == j {
						continue
					}
					run(t, []string{ins[i], ins[j]}, re)
					for k := range ins {
						if k != i && k != j && (e.Thorough || (i+j+k)%3 == 0) {
							run(t, []string{ins[i], ins[j], ins[k]}, re)
						}
					}
				}
			}
		})
	}
}

func c22diff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] != bs[i] {
			return fmt.Sprintf("%.200q instead of %.200q", as[i], bs[i])
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(as), len(bs))
}

// css checks a style sheet.
func (s *c22src) css(t *core.T, what, sel, b string) {
	by := map[int][]rune{}
	for r, g := range s.runes {
		if g > 0 {
			by[g] = append(by[g], r)
		}
	}
	rest := b
	for g := 1; g < s.n; g++ {
		if len(by[g]) == 0 {
			continue
		}
		ok, name := false, ""
		if s.name != nil {
			name = s.name[g]
		}
		for _, r := range by[g] {
			l := strings.NewReplacer("%n", name, "%i", strconv.Itoa(g), "%u", fmt.Sprintf("%x", r)).Replace(sel) + fmt.Sprintf("{content:\"\\%x\"}\n", r)
			if strings.HasPrefix(rest, l) {
				rest, ok = rest[len(l):], true
				break
			}
		}
		if !ok {
			t.Fail("css", "%s: no rule for glyph %d at %.80q", what, g, rest)
			return
		}
	}
	if rest != "" {
		t.Fail("css", "%s: superfluous %.80q", what, rest)
	}
}

var c22dirLine = regexp.MustCompile(`(?m)^ +(\d+) +(.{4}) +checksum=0x([0-9A-F]+) +offset= *(\d+) +length= *(\d+)$`)

var c22drawHead = regexp.MustCompile(`^GlyphID: (\d+)\n((?:Char: (?:.|\n)*? \(\d+\)\n)*)(?:Name: (.*)\n)?`)
var c22drawChar = regexp.MustCompile(`Char: (?:.|\n)*? \((\d+)\)\n`)

func (x *c22env) others(e *core.Env) {
	for _, in := range c22ins {
		if in.src == "" || in.file == "C.eot" {
			continue
		}
		e.Case(fmt.Sprintf("css/%s/%d", in.file, in.index), func(t *core.T) {
			for _, sel := range []string{"", ".%n", ".icon-%i", "#u%u", "%n %i"} {
				if x.src[in.src].name == nil && (sel == "" || strings.Contains(sel, "%n")) {
					continue // has no names
				}
				for _, app := range []bool{false, true} {
					for _, exist := range []bool{false, true} {
						args := []string{"css", "-i", strconv.Itoa(in.index), "-o", "o.css"}
						if sel != "" {
							args = append(args, "--selector", sel)
						}
						if app {
							args = append(args, "-a")
						}
						args = append(args, "../in/"+in.file)
						pre := map[string]c22file{}
						if exist {
							pre["o.css"] = c22file{0600, "old{}\n"}
						}
						what := fmt.Sprintf("%q", args)
						r := x.run(t, c22run{args: args, pre: pre, stdin: []byte("y\n")})
						f := r.files["o.css"]
						if r.code != 0 || len(r.files) != 1 {
							t.Fail("css status", "%s: exit status %d, %d files: %.200s", what, r.code, len(r.files), r.err)
							continue
						}
						b := f.b
						if app && exist {
							if !strings.HasPrefix(b, "old{}\n") {
								t.Fail("css append", "%s: the old content is missing", what)
								continue
							}
							b = b[len("old{}\n"):]
						}
						if sel == "" {
							sel = ".%n"
						}
						x.src[in.src].css(t, what, sel, b)
						t.Trace()
					}
				}
			}
		})
	}
	for _, name := range []string{"T.ttf", "C.otf"} {
		e.Case("draw/"+name, func(t *core.T) {
			s := x.src[name]
			// with room to draw
			b := clone(s.b)
			for i := 0; i < int(b[5]); i++ {
				if d := b[12+16*i:]; string(d[:4]) == "hhea" {
					o := int(d[8])<<24 | int(d[9])<<16 | int(d[10])<<8 | int(d[11])
					copy(b[o+4:], []byte{3, 0, 0xFF, 0}) // ascender and descender
				}
			}
			if err := os.WriteFile(filepath.Join(x.root, "in", "draw-"+name), b, 0644); err != nil {
				panic(err)
			}
			by := map[int][]string{}
			for r, g := range s.runes {
				by[g] = append(by[g], strconv.Itoa(int(r)))
			}
			try := func(g int, args ...string) {
				args = append(append([]string{"draw"}, args...), "../in/draw-"+name)
				r := x.run(t, c22run{args: args})
				t.Trans(1)
				if g < 0 {
					if r.code == 0 {
						t.Fail("draw missing", "%q: draws a character that the font does not have\n%.300s", args, r.out)
					}
					return
				}
				m := c22drawHead.FindStringSubmatch(r.out)
				if r.code != 0 || m == nil {
					t.Fail("draw", "%q: exit status %d %.300s\n%.300s", args, r.code, r.err, r.out)
					return
				}
				var chars []string
				for _, c := range c22drawChar.FindAllStringSubmatch(m[2], -1) {
					chars = append(chars, c[1])
				}
				want := append([]string{}, by[g]...)
				sort.Strings(chars)
				sort.Strings(want)
				nm := ""
				if s.name != nil {
					nm = s.name[g]
				}
				if m[1] != strconv.Itoa(g) || g != 0 && fmt.Sprint(chars) != fmt.Sprint(want) || m[3] != nm {
					t.Fail("draw glyph", "%q: glyph %s %q of characters %v instead of %d %q %v", args, m[1], m[3], chars, g, nm, want)
				}
				t.State(strings.Join(args, " "))
			}
			for g := 0; g < s.n; g++ {
				try(g, "-g", strconv.Itoa(g))
			}
			for r, g := range s.runes {
				if g == 0 {
					continue
				}
				try(g, "-u", fmt.Sprintf("%x", r))
				try(g, "-u", fmt.Sprintf("%06X", r))
				if unicode.IsLetter(r) || unicode.IsDigit(r) {
					try(g, "-c", string(r))
				}
			}
			for _, r := range []rune{0xE123, 0x10FFFF, 0x1} {
				if s.runes[r] == 0 {
					try(-1, "-u", fmt.Sprintf("%x", r))
				}
			}
			for k, ext := range []string{"png", "jpg", "jpeg", "gif", "tiff"} {
				for _, scale := range []string{"1", "4"} {
					args := []string{"draw", "-g", strconv.Itoa(1 + k%(s.n-1)), "--scale", scale, "--ppem", "200", "-o", "o." + ext, "../in/draw-" + name}
					r := x.run(t, c22run{args: args})
					head := map[string]string{"png": "\x89PNG", "jpg": "\xFF\xD8\xFF", "jpeg": "\xFF\xD8\xFF", "gif": "GIF8", "tiff": "II*\x00"}[ext]
					if r.code != 0 || len(r.files) != 1 || !strings.HasPrefix(r.files["o."+ext].b, head) {
						t.Fail("draw image", "%q: exit status %d, %d files: %.300s %.20q", args, r.code, len(r.files), r.err, r.files["o."+ext].b)
					}
				}
			}
			t.Trace()
		})
	}
	for _, in := range []string{"T.ttf", "C.otf", "T.woff", "T.woff2", "T.eot", "C.woff", "TC.ttc", "CC.otc", "B.ttf"} {
		e.Case("info/"+in, func(t *core.T) {
			b, err := os.ReadFile(filepath.Join(x.root, "in", in))
			if err != nil {
				panic(err)
			}
			if b, err = font.ToSFNT(b); err != nil {
				panic(err)
			}
			var want []string
			dir := func(o int) {
				n := int(b[o+4])<<8 | int(b[o+5])
				for i := 0; i < n; i++ {
					e := b[o+12+16*i:]
					u := func(k int) uint32 {
						return uint32(e[k])<<24 | uint32(e[k+1])<<16 | uint32(e[k+2])<<8 | uint32(e[k+3])
					}
					want = append(want, fmt.Sprintf("%d %s %08X %d %d", i, e[:4], u(4), u(8), u(12)))
				}
			}
			if bytes.HasPrefix(b, []byte("ttcf")) {
				for i := 0; i < int(b[11]); i++ {
					dir(int(b[12+4*i])<<24 | int(b[13+4*i])<<16 | int(b[14+4*i])<<8 | int(b[15+4*i]))
				}
			} else {
				dir(0)
			}
			args := []string{"info", "../in/" + in}
			r := x.run(t, c22run{args: args})
			var got []string
			for _, m := range c22dirLine.FindAllStringSubmatch(r.out, -1) {
				sum, _ := strconv.ParseUint(m[3], 16, 32)
				got = append(got, fmt.Sprintf("%s %s %08X %s %s", m[1], m[2], sum, m[4], m[5]))
			}
			if r.code != 0 || strings.Join(got, "\n") != strings.Join(want, "\n") {
				t.Fail("info", "%q: exit status %d\n%s\ninstead of\n%s", args, r.code, strings.Join(got, "\n"), strings.Join(want, "\n"))
			}
			r.same(t, "info", "info", nil)
			t.Trace()
		})
	}
}

// faults injects a fault or a kill at every system call of runs that replace a file.
func (x *c22env) faults(e *core.Env) {
	old := strings.Repeat(c22old, 300)
	pre := map[string]c22file{"o.ttf": c22reg(old)}
	// limits on the size of files
	for _, cmd := range []string{"subset", "merge"} {
		e.Case("fault/size/"+cmd, func(t *core.T) {
			args := c22args(cmd, "o.ttf", true, "../in/T.ttf")
			for _, blocks := range []int{0, 1, 2, 3, 8, 16, 20, 100} { // of 512 bytes
				r := x.run(t, c22run{args: args, pre: pre, wrap: []string{"/bin/sh", "-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, blocks), "sh"}})
				what := fmt.Sprintf("%q with files of at most %d blocks", args, blocks)
				if r.code != 0 {
					r.faultSame(t, what, pre)
				} else {
					x.content(t, what, cmd, r.files["o.ttf"].b)
				}
				t.Trace()
			}
		})
	}
	if !x.st {
		e.Count("system call faults not injected", 1)
		return
	}
	calls := []string{"openat", "read", "write", "close", "fsync", "fchmod", "fchmodat", "ftruncate", "rename", "renameat", "renameat2", "unlinkat", "newfstatat", "fstat", "lseek", "readlinkat", "linkat", "fchown", "fchownat", "fdatasync", "pwrite64", "mkdirat"}
	type job struct {
		name string
		args []string
		pre  map[string]c22file
		cmd  string
		ans  string
	}
	jobs := []job{
		{"subset", c22args("subset", "o.ttf", true, "../in/T.ttf"), pre, "subset", ""},
		{"subset asks", c22args("subset", "o.ttf", false, "../in/T.ttf"), pre, "subset", "y\n"},
		{"merge", c22args("merge", "o.ttf", true, "../in/T.ttf"), pre, "merge", ""},
		{"in place", []string{"subset", "-f", "-g", "5", "o.ttf"}, map[string]c22file{"o.ttf": c22reg(string(x.src["T.ttf"].b))}, "subset", ""},
		{"css", c22args("css", "o.ttf", true, "../in/T.ttf"), pre, "css", ""},
	}
	if e.Thorough {
		jobs = append(jobs, job{"two", []string{"subset", "-f", "-g", "5", "-o", "o.ttf,p.ttf", "../in/T.ttf"}, map[string]c22file{"o.ttf": c22reg(old), "p.ttf": c22reg(c22old)}, "subset", ""},
			job{"link", c22args("subset", "l.ttf", true, "../in/T.ttf"), map[string]c22file{"l.ttf": {os.ModeSymlink | 0777, "o.ttf"}, "o.ttf": c22reg(old)}, "subset", ""})
	}
	for _, j := range jobs {
		for _, call := range calls {
			for _, how := range []string{"error=EIO", "error=ENOSPC", "error=EACCES", "signal=KILL"} {
				if !e.Thorough && (how == "error=ENOSPC" || how == "error=EACCES") {
					continue
				}
				e.Case(fmt.Sprintf("fault/%s/%s/%s", j.name, call, how), func(t *core.T) {
					for k := 1; k < 60; k++ {
						log := filepath.Join(x.root, fmt.Sprintf("log.%s.%s.%s.%d", strings.ReplaceAll(j.name, " ", "_"), call, how[6:], k))
						if os.WriteFile(log, nil, 0666) != nil || os.Chmod(log, 0666) != nil {
							panic("log")
						}
						r := x.run(t, c22run{args: j.args, pre: j.pre, stdin: []byte(j.ans), wrap: []string{"strace", "-f", "-o", log, "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", call, how, k)}})
						b, _ := os.ReadFile(log)
						os.Remove(log)
						hit := bytes.Contains(b, []byte("INJECTED")) || how == "signal=KILL" && bytes.Contains(b, []byte("killed by SIGKILL"))
						what := fmt.Sprintf("%q with %s in call %d of %s", j.args, how, k, call)
						if r.hang {
							return
						}
						if r.code == 0 {
							x.content(t, what, j.cmd, r.files["o.ttf"].b)
						} else if how == "signal=KILL" || len(j.pre) > 1 {
							// every file is as before or complete
							for n, f := range j.pre {
								if g, ok := r.files[n]; !ok {
									t.Fail("file lost", "%s: %s is lost", what, n)
								} else if f != g {
									if f.mode != g.mode {
										t.Fail("file mode", "%s: %s has mode %v", what, n, g.mode)
									}
									x.content(t, what+", "+n, j.cmd, g.b)
								}
							}
						} else {
							r.faultSame(t, what, j.pre)
						}
						t.Trace()
						if !hit {
							break
						}
					}
				})
			}
		}
	}
}

// faultSame checks that the files that were there are unchanged.
func (r *c22res) faultSame(t *core.T, what string, pre map[string]c22file) {
	var names []string
	for n := range pre {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if f, ok := r.files[n]; !ok {
			t.Fail("failed write loses the file", "%s: %s is lost", what, n)
		} else if f != pre[n] {
			t.Fail("failed write changes the file", "%s: %s has %d bytes, had %d; exit status %d: %.100s", what, n, len(f.b), len(pre[n].b), r.code, r.err)
		}
	}
}
