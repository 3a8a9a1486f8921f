package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"github.com/bmatcuk/doublestar/v4"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// gvcPath is a file name, gvcPattern a pattern (or several).
type gvcPath string
type gvcPattern string

func init() {
	os.RemoveAll(tempFolder) // nothing of the command itself is run
	comps := []string{"a", "b", "c", "a.tf", "b.tf", "x y", "a,b", ".h", "..", "."}
	rt.Gen(func(g *rt.G) gvcPath {
		var p []string
		for i := g.Intn(3); i >= 0; i-- {
			p = append(p, comps[g.Intn(len(comps))])
		}
		s := strings.Join(p, "/")
		switch g.Intn(12) {
		case 0:
			s = "/" + s
		case 1:
			s += "/"
		case 2:
			s = "./" + s
		case 3:
			return ""
		}
		return gvcPath(s)
	})
	globs := append([]string{"*", "**", "?", "*.tf", "[ab]", "{a,b}", "a*", "[", "{a"}, comps...)
	rt.Gen(func(g *rt.G) gvcPattern {
		one := func() string {
			var p []string
			for i := g.Intn(3); i >= 0; i-- {
				p = append(p, globs[g.Intn(len(globs))])
			}
			return strings.Join(p, "/")
		}
		s := one()
		switch g.Intn(8) {
		case 0:
			s += "," + one()
		case 1:
			s = " " + s + ", ,"
		case 2:
			return gvcPattern(g.Str())
		case 3:
			return gvcPattern([]string{"", " ", ",", " , "}[g.Intn(4)])
		case 4:
			s = "/" + s
		}
		return gvcPattern(s)
	})
}

// gvcSplit is the list of the patterns of a text.
func gvcSplit(values []string) (out []string) {
	for _, v := range values {
		for v != "" {
			var one string
			if i := strings.IndexByte(v, ','); i < 0 {
				one, v = v, ""
			} else {
				one, v = v[:i], v[i+1:]
			}
			if one = strings.TrimSpace(one); one != "" {
				out = append(out, one)
			}
		}
	}
	return
}

func gvcSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// A comma separated list counts as its trimmed, non-empty parts.
//
//gvc:prop C26
//gvc:opt bounded=1
func SpecExtend(in []gvcPattern) {
	var values []string
	for _, p := range in {
		values = append(values, string(p))
	}
	before := append([]string{}, values...)
	rt.Ensures("parts in order", gvcSame(extend(values), gvcSplit(before)))
	rt.Ensures("the list is unchanged", gvcSame(values, before))
}

// Excluding keeps exactly the files that match no pattern.
//
//gvc:prop C26
//gvc:opt bounded=1
func SpecExclude(in []gvcPath, out []gvcPattern) {
	var files, patterns, want []string
	for _, f := range in {
		files = append(files, string(f))
	}
	for _, p := range out {
		patterns = append(patterns, string(p))
	}
	malformed := false
	for _, f := range files {
		keep := true
		abs, err := filepath.Abs(f)
		rt.Requires(err == nil)
		for _, p := range gvcSplit(patterns) {
			absP, err := filepath.Abs(p)
			rt.Requires(err == nil)
			m, err := doublestar.PathMatch(absP, abs)
			malformed = malformed || keep && err != nil
			keep = keep && !m
		}
		if keep {
			want = append(want, f)
		}
	}
	before := append([]string{}, files...)
	r, err := exclude(files, patterns)
	rt.Ensures("a malformed pattern is an error", malformed == (err != nil))
	rt.Ensures("exactly the files that match nothing", malformed || gvcSame(r, want))
	rt.Ensures("the list of files is unchanged", gvcSame(files, before))
}

// gvcVar is a variable of the command line: a file that may be missing, or a named value.
type gvcVar struct {
	Key     string
	Val     interface{}
	Missing bool
	Form    int
}

func init() {
	rt.Gen(func(g *rt.G) gvcVar {
		keys := []string{"a", "b", "c", "key", "a.b", "x_1"}
		vals := []interface{}{g.Intn(100), g.Intn(100), g.Intn(100), "", "text", false, true, 0, 1.5}
		return gvcVar{keys[g.Intn(len(keys))], vals[g.Intn(len(vals))], g.Intn(6) == 0, g.Intn(8)}
	})
}

func gvcClip(l []gvcVar, n int) []gvcVar {
	if len(l) > n {
		return l[:n]
	}
	return l
}

// The later variables have priority.
//
//gvc:prop C30
//gvc:opt bounded=1 noframe=1
func SpecContextPriority(optional, required, named []gvcVar, typed, ignoreMissing bool) {
	dir, err := os.MkdirTemp("", "ctx")
	rt.Requires(err == nil)
	defer os.RemoveAll(dir)
	want := map[string]interface{}{}
	missing := false
	file := 0
	write := func(v gvcVar) string {
		file++
		name := filepath.Join(dir, v.Key+string(rune('A'+file%26))+".json")
		if !v.Missing {
			text := map[string]interface{}{v.Key: v.Val}
			if v.Form == 1 {
				text["both"] = v.Val
			}
			b, _ := json.Marshal(text)
			os.WriteFile(name, b, 0644)
		}
		return name
	}
	set := func(v gvcVar) {
		if v.Missing {
			return
		}
		want[v.Key] = v.Val
		if v.Form == 1 {
			want["both"] = v.Val
		}
	}
	var files, ifExist, vars []string
	for _, v := range gvcClip(optional, 5) {
		ifExist = append(ifExist, write(v))
		set(v)
	}
	for _, v := range gvcClip(required, 5) {
		files = append(files, write(v))
		set(v)
		missing = missing || v.Missing
	}
	for _, v := range gvcClip(named, 6) {
		b, _ := json.Marshal(v.Val)
		switch v.Form {
		case 0:
			vars = append(vars, `{"`+v.Key+`": `+string(b)+`}`)
		case 1: // a file stored under a name
			if v.Missing {
				v.Form, v.Missing = 2, false
				vars = append(vars, v.Key+"="+string(b))
			} else {
				name := filepath.Join(dir, "named"+string(rune('a'+file%26))+".json")
				file++
				os.WriteFile(name, b, 0644)
				vars = append(vars, v.Key+"="+name)
				v.Form = 2
			}
		case 2:
			vars = append(vars, v.Key+": "+string(b))
		case 3:
			vars = append(vars, v.Key+" = "+string(b))
		default:
			vars = append(vars, v.Key+"="+string(b))
		}
		v.Missing = false
		if v.Form == 1 {
			v.Form = 2
		}
		set(v)
	}
	mode := ""
	if typed {
		mode = "hcl"
	}
	r, err := createContext(files, ifExist, vars, mode, ignoreMissing)
	rt.Ensures("a missing required file is an error unless ignored", (err != nil) == (missing && !ignoreMissing))
	if err != nil {
		return
	}
	if r == nil {
		rt.Ensures("nothing defined", len(want) == 0 && !typed)
		return
	}
	rt.Ensures("the expected keys", r.Len() == len(want))
	for k, v := range want {
		rt.Ensures("the last definition of a key wins", rt.Same(r.Get(k), v))
	}
}

// gvcArg is any argument.
type gvcArg string

func init() {
	rt.Gen(func(g *rt.G) gvcArg {
		pool := []string{"-", "a=1", "a=", "=b", "=", "a", "{}", "{", "[1,2]", `{"a": null}`, "a=null", "a: null", "null", `{"a": {"b": 1}}`, "a=[1,2]", "a={b=1}", "a=-", "", " ", "/", ".", "a b=c d", "a=b=c", "1", "true", "- a\n- b", "a=1 b=2", "\"a\"", "a:", "~", "a=~", ","}
		if g.Intn(5) == 0 {
			return gvcArg(g.Str())
		}
		return gvcArg(pool[g.Intn(len(pool))])
	})
}

// No combination of arguments crashes.
//
//gvc:prop C30
//gvc:opt bounded=1 noframe=1
func SpecContextTotal(optional, required, named []gvcArg, typed, ignoreMissing bool) {
	conv := func(in []gvcArg) (out []string) {
		for _, a := range in {
			out = append(out, string(a))
		}
		return
	}
	stdinContent = "z: 1"
	mode := ""
	if typed {
		mode = "yaml"
	}
	panicked := rt.Try(func() { createContext(conv(required), conv(optional), conv(named), mode, ignoreMissing) })
	rt.Ensures("no crash", !panicked)
	// named variables alone
	panicked = rt.Try(func() { createContext(nil, nil, conv(named), mode, ignoreMissing) })
	rt.Ensures("no crash with named variables only", !panicked)
}
