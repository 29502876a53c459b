package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/tdewolff/font"

	"verifmc/core"
	"verifmc/ref"
)

// C21: styles, matching, and the index of system fonts.

func init() {
	core.Register(&core.Check{ID: "C21", Run: c21,
		Rule: "exhaustive enumeration of styles and CSS values, of all sets of installed styles with all queries against a reference matcher, of histories of adding fonts with saving and loading in between and of every truncated save file, and of directory layouts with fonts having all combinations of name records, the latter in scratch directories"})
}

var (
	sWeights = []font.Style{font.Thin, font.ExtraLight, font.Light, font.Regular, font.Medium, font.SemiBold, font.Bold, font.ExtraBold, font.Black}
	sNames   = []string{"Thin", "ExtraLight", "Light", "Regular", "Medium", "SemiBold", "Bold", "ExtraBold", "Black"}
)

// sOrder gives the weights in order of preference, as in CSS font matching.
func sOrder(w int) (out []int) {
	add := func(x int) {
		for _, y := range out {
			if x == y {
				return
			}
		}
		if x >= 0 && x < 9 {
			out = append(out, x)
		}
	}
	add(w)
	down := func() {
		for x := w - 1; x >= 0; x-- {
			add(x)
		}
	}
	up := func() {
		for x := w + 1; x < 9; x++ {
			add(x)
		}
	}
	switch {
	case w == 3: // 400 tries 500 first
		add(4)
		down()
		up()
	case w == 4:
		add(3)
		down()
		up()
	case w < 3:
		down()
		up()
	default:
		up()
		down()
	}
	return
}

type sQuery struct {
	name string
	w    int
	it   bool
}

// sInst are the installed fonts: family → style index (weight, italic) → file.
type sInst map[string]map[[2]int]string

// sWant is the reference matcher.
func sWant(in sInst, gen map[string][]string, q sQuery) (string, bool) {
	var fams []string
	for _, n := range strings.Split(q.name, ",") {
		n = strings.TrimSpace(n)
		if g, ok := gen[n]; ok {
			fams = append(fams, g...)
		} else {
			fams = append(fams, n)
		}
	}
	it := 0
	if q.it {
		it = 1
	}
	for _, f := range fams {
		if m, ok := in[f]; ok {
			for _, w := range sOrder(q.w) {
				if file, ok := m[[2]int{w, it}]; ok {
					return file, true
				}
			}
			return "", false
		}
	}
	return "", false
}

func sStyle(w int, it bool) font.Style {
	if it {
		return sWeights[w] | font.Italic
	}
	return sWeights[w]
}

func (in sInst) add(fam string, w int, it bool, file string) font.FontMetadata {
	if in[fam] == nil {
		in[fam] = map[[2]int]string{}
	}
	i := 0
	if it {
		i = 1
	}
	in[fam][[2]int{w, i}] = file
	return font.FontMetadata{Filename: file, Family: fam, Style: sStyle(w, it)}
}

// sCompare asks all queries.
func sCompare(t *core.T, desc string, s *font.SystemFonts, in sInst, gen map[string][]string, names []string) bool {
	for _, n := range names {
		for w := 0; w < 9; w++ {
			for _, it := range []bool{false, true} {
				q := sQuery{n, w, it}
				want, ok := sWant(in, gen, q)
				got, ok2 := s.Match(n, sStyle(w, it))
				t.Trans(1)
				if ok != ok2 || got.Filename != want {
					t.Fail("match", "%s: %q in %s italic %v gives %q (%v), must be %q (%v)", desc, n, sNames[w], it, got.Filename, ok2, want, ok)
					return false
				}
				if ok {
					found := false
					for x := range sNames {
						for _, y := range []bool{false, true} {
							found = found || got.Style == sStyle(x, y) && in[got.Family][[2]int{x, map[bool]int{true: 1}[y]}] == want
						}
					}
					if !found {
						t.Fail("match metadata", "%s: %q in %s italic %v gives %v, which is not installed like that", desc, n, sNames[w], it, got)
						return false
					}
				}
			}
		}
	}
	return true
}

func c21(e *core.Env) {
	e.Case("style text", func(t *core.T) {
		for i, w := range sWeights {
			for _, it := range []bool{false, true} {
				s := sStyle(i, it)
				t.Trans(1)
				t.State(s.String())
				if got := font.ParseStyle(s.String()); got != s {
					t.Fail("style does not parse back", "%q is parsed as %v (%d), must be %d", s.String(), got, got, s)
				}
				if s.Weight() != w || s.Italic() != it {
					t.Fail("style parts", "%v has weight %v and italic %v", s, s.Weight(), s.Italic())
				}
				for _, sp := range []string{"", " ", "-"} {
					for _, sl := range []string{"Italic", "Oblique"} {
						for _, pad := range []string{"", " ", "\t "} {
							txt, want := pad+sNames[i]+pad, w
							if it {
								txt, want = pad+sNames[i]+sp+sl+pad, w|font.Italic
							}
							t.Trans(1)
							if got := font.ParseStyle(txt); got != want {
								t.Fail("style name", "%q is parsed as %v, must be %v", txt, got, want)
							}
							if i == 3 && it {
								if got := font.ParseStyle(pad + sl + pad); got != want {
									t.Fail("style name", "%q is parsed as %v, must be %v", sl, got, want)
								}
							}
						}
					}
				}
			}
		}
		for _, x := range []struct {
			s string
			w font.Style
		}{{"", font.Regular}, {"Extra Light", font.ExtraLight}, {"Semi Bold", font.SemiBold}, {"Extra Bold", font.ExtraBold}, {"Hairline", font.Thin}, {"UltraLight", font.ExtraLight}, {"Heavy", font.Black}, {"Book", font.Regular}, {"Roman", font.Regular}, {"Normal", font.Regular}, {"Demi", font.SemiBold}} {
			for _, it := range []bool{false, true} {
				s, w := x.s, x.w
				if it {
					s, w = strings.TrimSpace(s+" Italic"), w|font.Italic
				}
				if got := font.ParseStyle(s); got != w {
					t.Fail("style name", "%q is parsed as %v, must be %v", s, got, w)
				}
			}
		}
		for _, s := range []string{"Nonsense", "Bold Bold", "Italic Bold Fat", "400", "Boldest", "xBold", "UnknownStyle", "Wide Italic"} {
			if got := font.ParseStyle(s); got != font.UnknownStyle {
				t.Fail("unknown style name", "%q is parsed as %v", s, got)
			}
		}
		if s := font.ParseStyle(font.UnknownStyle.String()); s != font.UnknownStyle {
			t.Fail("style does not parse back", "the unknown style is parsed as %v", s)
		}
		t.Trace()
	})

	e.Case("CSS", func(t *core.T) {
		hi := 3000
		if e.Thorough {
			hi = 200000
		}
		for v := -hi; v <= hi; v++ {
			for _, it := range []bool{false, true} {
				got := font.ParseStyleCSS(v, it)
				t.Trans(1)
				ok := false
				for i := range sWeights {
					if got != sStyle(i, it) {
						continue
					}
					d := func(k int) int { return max(v-100*(k+1), 100*(k+1)-v) }
					ok = true
					for k := range sWeights {
						ok = ok && d(i) <= d(k)
					}
				}
				if !ok {
					t.Fail("CSS weight", "weight %d italic %v gives %v (%d)", v, it, got, got)
				}
			}
			t.State(fmt.Sprint("css", v))
		}
		t.Trace()
	})

	// one family with every set of styles
	sets := func(fn func(m int)) {
		if e.Thorough {
			for m := 0; m < 1<<18; m++ {
				fn(m)
			}
			return
		}
		for u := 0; u < 1<<9; u++ {
			for _, i := range []int{0, u, 511 &^ u, 511, 1 << (u % 9)} {
				fn(i<<9 | u)
			}
		}
	}
	var all []int
	sets(func(m int) { all = append(all, m) })
	chunk(len(all), 4096, func(lo, hi int) {
		e.Case(fmt.Sprintf("installed styles/%d", lo), func(t *core.T) {
			for _, m := range all[lo:hi] {
				in := sInst{}
				s := &font.SystemFonts{Fonts: map[string]map[font.Style]font.FontMetadata{}}
				for k := 0; k < 18; k++ {
					if m>>k&1 != 0 {
						s.Add(in.add("F", k%9, k >= 9, fmt.Sprintf("f%d", k)))
					}
				}
				t.State(fmt.Sprint("set", m))
				if !sCompare(t, fmt.Sprintf("installed %018b", m), s, in, nil, []string{"F"}) {
					return
				}
				t.Trace()
			}
		})
	})

	// families and generics
	fams := []string{"Alpha", "Beta Two", "Gamma", "serif"}
	names := []string{"", "Alpha", "Beta Two", "Gamma", "serif", "sans", "none", "alpha"}
	var lists []string
	for _, a := range names {
		lists = append(lists, a)
		for _, b := range names {
			lists = append(lists, a+","+b, " "+a+" ,\t"+b+" ")
			for _, c := range names {
				lists = append(lists, a+", "+b+","+c)
			}
		}
	}
	gens := []map[string][]string{
		nil,
		{},
		{"serif": {"Gamma", "Alpha"}},
		{"serif": {}, "sans": {"Beta Two"}},
		{"serif": {"none", "Beta Two", "Gamma"}, "sans": {"Alpha", "Gamma"}},
		{"serif": {"serif"}, "sans": {"serif", "Gamma"}},
		{"serif": {"sans"}, "sans": {"Alpha"}, "Alpha": {"Gamma"}},
	}
	for gi, g := range gens {
		for m := 0; m < 1<<len(fams); m++ {
			e.Case(fmt.Sprintf("families/%d/%d", gi, m), func(t *core.T) {
				in := sInst{}
				s := &font.SystemFonts{Fonts: map[string]map[font.Style]font.FontMetadata{}}
				for k, f := range fams {
					if m>>k&1 != 0 {
						s.Add(in.add(f, 3, false, f+"-R"))
						if k != 1 {
							s.Add(in.add(f, 6, false, f+"-B"))
						}
						s.Add(in.add(f, 2+k, true, f+"-I"))
					}
				}
				// the lists of the generic names are parts of a longer one, nothing of which may change
				if g != nil {
					s.Generics = map[string][]string{}
					var flat []string
					keys := []string{}
					for k := range g {
						keys = append(keys, k)
					}
					sort.Strings(keys)
					for _, k := range keys {
						flat = append(flat, g[k]...)
					}
					flat = append(flat, "guard", "guard", "guard", "guard")
					o := 0
					for _, k := range keys {
						s.Generics[k] = flat[o : o+len(g[k])]
						o += len(g[k])
					}
					keep := append([]string{}, flat...)
					defer func() {
						if !reflect.DeepEqual(flat, keep) {
							t.Fail("matching changes the generic names", "lists were %q and are %q", keep, flat)
						}
					}()
				}
				t.State(fmt.Sprint(gi, m))
				if sCompare(t, fmt.Sprintf("generics %v, families %b", g, m), s, in, g, lists) {
					t.Trace()
				}
			})
		}
	}

	// histories of adding, saving and loading
	type add = struct {
		fam string
		w   int
		it  bool
	}
	adds := []add{{"A", 3, false}, {"A", 6, false}, {"A", 3, true}, {"B b", 3, false}, {"B b", 8, true}, {"", 0, false}}
	depth := 4
	if e.Thorough {
		depth = 5
	}
	for gi, g := range gens[:5] {
		for first := 0; first <= len(adds)+1; first++ {
			e.Case(fmt.Sprintf("histories/%d/%d", gi, first), func(t *core.T) {
				dir, err := os.MkdirTemp("", "verif-c21-")
				if err != nil {
					t.Fail("scratch", "%v", err)
					return
				}
				defer os.RemoveAll(dir)
				file := filepath.Join(dir, "cache")
				var rec func(h []int)
				rec = func(h []int) {
					in := sInst{}
					s := &font.SystemFonts{}
					if gi%2 == 1 {
						s.Fonts = map[string]map[font.Style]font.FontMetadata{}
					}
					s.Generics = g
					desc := fmt.Sprintf("generics %v:", g)
					load := func() bool {
						if err := s.Save(file); err != nil {
							t.Fail("save", "%s: %v", desc, err)
							return false
						}
						txt := s.String()
						n, err := font.LoadSystemFonts(file)
						if err != nil {
							t.Fail("load", "%s: %v", desc, err)
							return false
						}
						if n.String() != txt {
							t.Fail("loaded index differs", "%s: saved\n%s\nloaded\n%s", desc, txt, n.String())
							return false
						}
						s = n
						return true
					}
					for i, k := range h {
						t.Trans(1)
						switch k {
						case len(adds): // save and load
							desc += " save and load,"
							if !load() {
								return
							}
						case len(adds) + 1: // save over, load twice
							desc += " save twice,"
							if err := os.WriteFile(file, bytes.Repeat([]byte("old content"), 400), 0644); err != nil {
								t.Fail("scratch", "%v", err)
							}
							if !load() || !load() {
								return
							}
						default:
							desc += fmt.Sprintf(" add %v,", adds[k])
							s.Add(in.add(adds[k].fam, adds[k].w, adds[k].it, fmt.Sprintf("%d-%d.ttf", i, k)))
						}
					}
					t.State(desc)
					if !sCompare(t, desc, s, in, g, []string{"A", "B b", "x,B b", "serif", "sans, A", ""}) {
						return
					}
					if !load() || !sCompare(t, desc+" saved and loaded", s, in, g, []string{"A", "B b", "x,B b", "serif", "sans, A", ""}) {
						return
					}
					t.Trace()
					if len(h) < depth {
						for k := 0; k <= len(adds)+1; k++ {
							rec(append(h[:len(h):len(h)], k))
						}
					}
				}
				rec([]int{first})
			})
		}
	}

	// crash points of saving: every prefix of the file
	e.Case("torn save files", func(t *core.T) {
		dir, err := os.MkdirTemp("", "verif-c21-")
		if err != nil {
			t.Fail("scratch", "%v", err)
			return
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "cache")
		s := &font.SystemFonts{Generics: gens[4], Fonts: map[string]map[font.Style]font.FontMetadata{}}
		in := sInst{}
		for i, a := range adds {
			s.Add(in.add(a.fam, a.w, a.it, fmt.Sprintf("%d.ttf", i)))
		}
		if err := s.Save(file); err != nil {
			t.Fail("save", "%v", err)
			return
		}
		if open := openBelow(dir); len(open) > 0 {
			t.Fail("file left open", "after saving %q are open", open)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			t.Fail("scratch", "%v", err)
			return
		}
		if _, err := font.LoadSystemFonts(file); err != nil {
			t.Fail("load", "%v", err)
		}
		if open := openBelow(dir); len(open) > 0 {
			t.Fail("file left open", "after loading %q are open", open)
		}
		for n := 0; n < len(b); n++ {
			os.WriteFile(file, b[:n], 0644)
			t.Trans(1)
			if l, err := font.LoadSystemFonts(file); err == nil && l.String() != s.String() {
				t.Fail("torn file is loaded", "the first %d of %d bytes load without error as\n%s", n, len(b), l)
			}
			if open := openBelow(dir); len(open) > 0 {
				t.Fail("file left open", "after loading the first %d of %d bytes %q are open", n, len(b), open)
				return
			}
			t.State(fmt.Sprint("torn", n))
			t.Trace()
		}
		if _, err := font.LoadSystemFonts(filepath.Join(dir, "missing")); err == nil {
			t.Fail("missing file", "loading a file that does not exist succeeds")
		}
		if err := s.Save(filepath.Join(dir, "no", "such", "dir")); err == nil {
			t.Fail("save to nowhere", "saving in a directory that does not exist succeeds")
		}
		if err := s.Save("/dev/full"); err == nil {
			t.Fail("save to full disk", "saving on a full disk succeeds")
		}
	})

	c21dirs(e)
	e.Wait()
}

// sGroup are the name records of a language.
type sGroup struct {
	name                  string
	plat, enc, lang       int
	fam, sub, pfam, sub17 string
	text                  func(s string) []byte
}

func macRoman(s string) []byte {
	var b []byte
	for _, r := range s {
		switch r {
		case 'é':
			b = append(b, 0x8E)
		case 'ü':
			b = append(b, 0x9F)
		default:
			b = append(b, byte(r))
		}
	}
	return b
}

func utf16be(s string) []byte {
	var b []byte
	for _, r := range s {
		if r > 0xFFFF {
			r -= 0x10000
			b = append(b, byte(0xD8|r>>18), byte(r>>10), byte(0xDC|r>>8&3), byte(r))
		} else {
			b = append(b, byte(r>>8), byte(r))
		}
	}
	return b
}

var sGroups = []sGroup{
	{"Unicode", 0, 3, 0, "Uni Fam", "Bold", "Uni Pref", "Light", utf16be},
	{"Macintosh", 1, 0, 0, "Mac Fém", "Italic", "Mac Préf", "Black", macRoman},
	{"Macintosh Japanese", 1, 1, 11, "MacJ Fam", "Light", "MacJ Pref", "Medium", macRoman},
	{"German", 3, 1, 0x407, "Deutsch Famílie", "Medium", "Deutsch Vorzug", "Thin Italic", utf16be},
	{"English", 3, 1, 0x409, "English Fam", "Bold Italic", "English Pref", "SemiBold", utf16be},
	{"Japanese", 3, 1, 0x411, "\u540d\u524d\U00020bb7", "ExtraBold", "\u6e38\u660e\u671d", "Light Italic", utf16be},
	{"British", 3, 1, 0x809, "British Fam", "Medium Italic", "British Pref", "ExtraLight", utf16be},
}

// sFont makes a font file with the name records of the groups; how 0 leaves a group out, 1 gives it plain names, 2 also preferred ones,
// 3 only a family.
func sFont(how []int, version int, cff bool, others bool) []byte {
	var recs []ref.NameRec
	for k, g := range sGroups {
		add := func(id int, s string) {
			recs = append(recs, ref.NameRec{Platform: g.plat, Encoding: g.enc, Language: g.lang, Name: id, Value: g.text(s)})
		}
		if how[k] == 0 {
			continue
		}
		if others {
			add(0, "Copyright")
		}
		add(1, g.fam)
		if how[k] != 3 {
			add(2, g.sub)
		}
		if others {
			add(3, "unique")
			add(4, g.fam+" "+g.sub)
		}
		if how[k] == 2 {
			add(16, g.pfam)
			add(17, g.sub17)
		}
		if others {
			add(25, "last")
		}
	}
	name := ref.NameTable(recs)
	if version == 1 {
		w := &ref.W{}
		w.U16(1, len(recs), 6+12*len(recs)+2+4)
		w.Bytes(name[6 : 6+12*len(recs)])
		w.U16(1, 4, len(name)-6-12*len(recs))
		w.Bytes(name[6+12*len(recs):])
		w.Bytes([]byte{0, 'e', 0, 'n'})
		name = w.B
	}
	var tb map[string][]byte
	v := "\x00\x01\x00\x00"
	if cff {
		v = "OTTO"
		tb = rawTables(c06full(true).SFNT())
	} else {
		tb = rawTables(ttFont([]ref.Glyph{{Contours: [][]ref.Point{sq(0, 0, 50)}}}).SFNT())
	}
	tb["name"] = name
	return ref.BuildSFNT(v, tb)
}

// sAccept lists the families and styles under which a font may be found.
func sAccept(how []int) (out []string) {
	for _, win := range []bool{true, false} {
		for k, g := range sGroups {
			if how[k] == 0 || win != (g.name == "English" || g.name == "British") {
				continue
			}
			switch how[k] {
			case 1:
				out = append(out, strings.Replace(g.fam+"|"+g.sub, "|Italic", "|Regular Italic", 1))
			case 2:
				out = append(out, g.pfam+"|"+g.sub17)
			case 3:
				out = append(out, g.fam+"|Regular")
			}
		}
		if out != nil {
			return
		}
	}
	return
}

// openBelow returns the files below a directory that this process has open.
func openBelow(dirs ...string) (open []string) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		to, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil {
			continue
		}
		for _, dir := range dirs {
			if strings.HasPrefix(to, dir+"/") {
				open = append(open, to)
			}
		}
	}
	return
}

func c21dirs(e *core.Env) {
	states := 3
	if e.Thorough {
		states = 4
	}
	total := 1
	for range sGroups {
		total *= states
	}
	find := func(t *core.T, desc string, dirs []string) map[string][]string {
		s, err := font.FindSystemFonts(dirs)
		t.Trans(1)
		if err != nil {
			t.Fail("indexing fails", "%s: %v", desc, err)
			return nil
		}
		if open := openBelow(dirs...); len(open) > 0 {
			t.Fail("file left open", "%s: after indexing %q are open", desc, open)
		}
		byFile := map[string][]string{}
		for fam, m := range s.Fonts {
			for st, md := range m {
				if md.Family != fam || md.Style != st {
					t.Fail("index is inconsistent", "%s: %v is listed as %s %v", desc, md, fam, st)
				}
				byFile[md.Filename] = append(byFile[md.Filename], fam+"|"+st.String())
				if got, ok := s.Match(fam, st); ok && got.Filename != md.Filename && !strings.ContainsAny(fam, ",") {
					t.Fail("match after indexing", "%s: %s %v is %s, matched as %s", desc, fam, st, md.Filename, got.Filename)
				}
			}
		}
		return byFile
	}
	check := func(t *core.T, desc, file string, byFile map[string][]string, want []string) {
		got := byFile[file]
		if len(want) == 0 {
			if len(got) > 0 {
				t.Fail("font without names is indexed", "%s: found as %q", desc, got)
			}
			return
		}
		if len(got) != 1 {
			t.Fail("font is not found", "%s: found as %q, must be one of %q", desc, got, want)
			return
		}
		for _, w := range want {
			if got[0] == w {
				return
			}
		}
		t.Fail("font is found under another name", "%s: found as %q, must be one of %q", desc, got, want)
	}
	chunk(total, 81, func(lo, hi int) {
		e.Case(fmt.Sprintf("name records/%d", lo), func(t *core.T) {
			dir, err := os.MkdirTemp("", "verif-c21-")
			if err != nil {
				t.Fail("scratch", "%v", err)
				return
			}
			defer os.RemoveAll(dir)
			for m := lo; m < hi; m++ {
				how := make([]int, len(sGroups))
				x := m
				for k := range how {
					how[k] = x % states
					x /= states
				}
				for v := 0; v < 2; v++ {
					// alone, so that no other font takes its place
					ext := []string{".ttf", ".otf", ".TTF", ".Otf"}[(m+v)%4]
					b := sFont(how, v, (m+v)%4%2 == 1, m%2 == 0)
					file := filepath.Join(dir, "font"+ext)
					if err := os.WriteFile(file, b, 0644); err != nil {
						t.Fail("scratch", "%v", err)
						return
					}
					var nm []string
					for k, g := range sGroups {
						if how[k] > 0 {
							nm = append(nm, fmt.Sprintf("%s %d", g.name, how[k]))
						}
					}
					desc := fmt.Sprintf("name table version %d in a %s file with %s", v, ext, strings.Join(nm, ", "))
					t.State(desc)
					if bf := find(t, desc, []string{dir}); bf != nil {
						check(t, desc, file, bf, sAccept(how))
						t.Trace()
					}
					os.Remove(file)
				}
			}
		})
	})

	// layouts: where fonts lie, what lies beside them, and which directories are asked for
	english := func(k int) []int {
		how := make([]int, len(sGroups))
		how[k] = 1
		return how
	}
	files := []struct {
		path string
		how  []int
	}{{"a.ttf", english(4)}, {"sub/b.otf", english(0)}, {"sub/deep/er/c.ttf", english(1)}, {"sub2/d.ttf", english(6)}, {"sub2/deep/er/c.ttf", english(5)}}
	junk := map[string][]byte{"x.txt": []byte("text"), "sub/empty.ttf": {}, "sub/short.otf": []byte("OTTO"), "sub2/broken.ttf": bytes.Repeat([]byte{0xFF}, 300), "sub/e.ttf.bak": sFont(english(3), 0, false, false)}
	dirSets := [][]string{{"."}, {".", "."}, {"sub"}, {"sub", "."}, {".", "sub"}, {"sub2", "sub"}, {"sub/deep", "sub2/deep"}, {"missing", "."}, {"a.ttf", "."}, {".", "a.ttf/x"}, {"sub/deep", "sub", "sub2", "."}, {}, {"sub\x00bad", "."}, {strings.Repeat("n", 300), "."}}
	for m := 0; m < 1<<len(files); m++ {
		e.Case(fmt.Sprintf("layouts/%d", m), func(t *core.T) {
			for withJunk := 0; withJunk < 4; withJunk++ {
				root := ""
				if withJunk == 3 {
					root = "/tmp" // reachable for an unprivileged user
				}
				dir, err := os.MkdirTemp(root, "verif-c21-")
				if err != nil {
					t.Fail("scratch", "%v", err)
					return
				}
				defer os.RemoveAll(dir)
				os.Chmod(dir, 0755)
				put := func(p string, b []byte) {
					p = filepath.Join(dir, p)
					os.MkdirAll(filepath.Dir(p), 0755)
					if err := os.WriteFile(p, b, 0644); err != nil {
						t.Fail("scratch", "%v", err)
					}
				}
				for k, f := range files {
					if m>>k&1 != 0 {
						put(f.path, sFont(f.how, 0, false, true))
					}
				}
				if withJunk == 1 {
					for p, b := range junk {
						put(p, b)
					}
				}
				if withJunk == 2 {
					// what is neither a file nor a directory
					os.MkdirAll(filepath.Join(dir, "sub2/dir.ttf/dir.otf"), 0755)
					os.Symlink(".", filepath.Join(dir, "loop"))
					os.Symlink("missing", filepath.Join(dir, "sub2/dead.otf"))
					os.Symlink("..", filepath.Join(dir, "sub2/up.ttf"))
					syscall.Mkfifo(filepath.Join(dir, "pipe.ttf"), 0644)
				}
				asNobody := false
				if withJunk == 3 {
					// what cannot be read
					put("closed/x.ttf", sFont(english(3), 0, false, true))
					put("sub2/f.otf", sFont(english(3), 0, false, true))
					os.Chmod(filepath.Join(dir, "sub2/f.otf"), 0)
					os.Chmod(filepath.Join(dir, "closed"), 0)
					asNobody = true
				}
				for _, ds := range dirSets {
					if withJunk == 3 {
						ds = append(append([]string{}, ds...), "closed")
					}
					var dirs []string
					for _, d := range ds {
						dirs = append(dirs, filepath.Join(dir, d))
					}
					desc := fmt.Sprintf("files %b, junk %d, directories %.40q", m, withJunk, ds)
					t.State(desc)
					var bf map[string][]string
					if asNobody {
						done := make(chan bool)
						go func() {
							defer close(done)
							// the thread ends with the goroutine
							runtime.LockOSThread()
							syscall.Setfsuid(65534)
							if _, err := os.ReadDir(filepath.Join(dir, "closed")); err == nil {
								asNobody = false // no unprivileged user available
								return
							}
							bf = find(t, desc, dirs)
						}()
						<-done
					} else {
						bf = find(t, desc, dirs)
					}
					if bf == nil {
						continue
					}
					for k, f := range files {
						in := false
						for _, d := range ds {
							in = in || d == "." || strings.HasPrefix(f.path, d+"/")
						}
						if m>>k&1 == 0 || !in {
							if got := bf[filepath.Join(dir, f.path)]; got != nil {
								t.Fail("font outside is found", "%s: %s", desc, f.path)
							}
							continue
						}
						check(t, desc+": "+f.path, filepath.Join(dir, f.path), bf, sAccept(f.how))
					}
					t.Trace()
				}
			}
		})
	}

	// damaged fonts beside a good one: every truncation and every changed byte of header and name table
	good := sFont([]int{0, 1, 0, 0, 1, 0, 0}, 0, false, false)
	ds, _, _ := ref.ReadDir(good)
	var nameOff, nameLen int
	for _, d := range ds {
		if d.Tag == "name" {
			nameOff, nameLen = int(d.Offset), int(d.Length)
		}
	}
	var muts [][]byte
	var mutDesc []string
	for n := 0; n < len(good); n++ {
		if n < 300 || n > nameOff-4 && n < nameOff+nameLen+4 {
			muts, mutDesc = append(muts, good[:n]), append(mutDesc, fmt.Sprintf("first %d bytes", n))
		}
	}
	for i := 0; i < len(good); i++ {
		if i < 12+16*len(ds) || i >= nameOff && i < nameOff+nameLen {
			for _, v := range []byte{0, 1, 0x7F, 0x80, 0xFF, good[i] + 1, good[i] - 1} {
				if v != good[i] {
					b := clone(good)
					b[i] = v
					muts, mutDesc = append(muts, b), append(mutDesc, fmt.Sprintf("byte %d is %#x", i, v))
				}
			}
		}
	}
	chunk(len(muts), 200, func(lo, hi int) {
		e.Case(fmt.Sprintf("damaged fonts/%d", lo), func(t *core.T) {
			dir, err := os.MkdirTemp("", "verif-c21-")
			if err != nil {
				t.Fail("scratch", "%v", err)
				return
			}
			defer os.RemoveAll(dir)
			keep := filepath.Join(dir, "n.ttf")
			os.WriteFile(keep, sFont(english(0), 0, false, true), 0644)
			for i := lo; i < hi; i++ {
				for _, n := range []string{"a.ttf", "z.otf"} {
					p := filepath.Join(dir, n)
					os.WriteFile(p, muts[i], 0644)
					t.State(mutDesc[i] + n)
					if bf := find(t, mutDesc[i], []string{dir}); bf != nil {
						check(t, "good font beside a damaged one with "+mutDesc[i], keep, bf, sAccept(english(0)))
						t.Trace()
					}
					os.Remove(p)
				}
			}
		})
	})
}
