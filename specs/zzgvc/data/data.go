// Package data specifies how texts become data.
package data

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/yaml"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// Format is a data format that accepts or refuses everything.
type Format struct {
	Name   string
	Accept bool
	Alike  bool // refuses without saying who does
	Value  int
}

// Text is a document.
type Text string

func init() {
	names := []string{"!json", "hcl", "yaml", "xml", "toml", "a", "Z", "0"}
	rt.Gen(func(g *rt.G) Format {
		return Format{names[g.Intn(len(names))], g.Intn(4) == 0, g.Intn(3) == 0, g.Intn(1000)}
	})
	docs := []string{`{"a": 1}`, `[1, 2]`, "a: 1\nb: 2", "a = 1", "a = \"x\" b = 2", "a=1 b=2", "- a\n- b", "12", "1.5", "true", "text", "", "{", "a: b: c", `a { b = 1 }`, `"quoted"`, "null", "x = [1, 2]", "key: {a: 1}", "a=b=c", "\t- x", "a:\n- 1\n- 2", `{"a": [1, {"b": 2}]}`, "@", "%", "*a", "a = {", "=", ":"}
	rt.Gen(func(g *rt.G) Text {
		if g.Intn(4) == 0 {
			return Text(g.Str())
		}
		return Text(docs[g.Intn(len(docs))])
	})
}

// with runs f with these formats registered.
func with(formats map[string]func([]byte, interface{}) error, f func()) {
	saved := collections.TypeConverters
	defer func() { collections.TypeConverters = saved }()
	collections.TypeConverters = formats
	f()
}

// The first format that accepts, in alphabetical order, gives the result.
//
//gvc:prop C25
//gvc:opt bounded=1 noframe=1
func SpecFormatOrder(formats []Format, text string) {
	rt.Requires(!strings.ContainsAny(text, "=:{}"))
	table := map[string]func([]byte, interface{}) error{}
	by := map[string]Format{}
	var tried, names []string
	for _, f := range formats {
		f := f
		if _, twice := by[f.Name]; !twice {
			names = append(names, f.Name)
		}
		by[f.Name] = f
		table[f.Name] = func(b []byte, out interface{}) error {
			tried = append(tried, f.Name)
			if string(b) != text {
				return fmt.Errorf("another text")
			}
			if !f.Accept && f.Alike {
				return fmt.Errorf("refused")
			}
			if !f.Accept {
				return fmt.Errorf("refused by %s", f.Name)
			}
			*(out.(*interface{})) = f.Value
			return nil
		}
	}
	sort.Strings(names)
	var want interface{}
	var wantTried []string
	accepted := false
	for _, n := range names {
		wantTried = append(wantTried, n)
		if by[n].Accept {
			want, accepted = by[n].Value, true
			break
		}
	}
	with(table, func() {
		var out interface{}
		err := collections.ConvertData(text, &out)
		rt.Ensures("accepted by any", accepted == (err == nil) || len(names) == 0)
		rt.Ensures("the result of the first that accepts", rt.Same(out, want))
		rt.Ensures("tried in order", reflect.DeepEqual(append([]string{}, tried...), append([]string{}, wantTried...)))
		if !accepted && len(names) > 0 {
			all := err.Error()
			for _, n := range names {
				i := strings.Index(all, n+": refused")
				rt.Ensures("every refusal is reported, in order", i >= 0)
				if i >= 0 {
					all = all[i+1:]
				}
			}
		}
	})
}

// The real formats are tried in order: JSON, HCL, YAML.
//
//gvc:prop C25
//gvc:opt bounded=1 noframe=1
func SpecRealFormats(doc Text) {
	text := string(doc)
	var want, out interface{}
	err := json.Unmarshal([]byte(text), &want)
	if err != nil {
		want = nil
		err = hcl.Unmarshal([]byte(text), &want)
	}
	if err != nil {
		want = nil
		err = yaml.Unmarshal([]byte(text), &want)
	}
	got := collections.ConvertData(text, &out)
	if err == nil {
		if s, isText := want.(string); isText && s == text && strings.ContainsAny(text, "=:{}") {
			rt.Ensures("something that looks like data is not kept as text", got != nil || out != nil)
			return
		}
		rt.Ensures("accepted", got == nil)
		rt.Ensures("the result of the first that accepts", reflect.DeepEqual(out, want))
	}
	// the same, independently of what was converted before
	var again interface{}
	got2 := collections.ConvertData(text, &again)
	rt.Ensures("always the same", (got == nil) == (got2 == nil) && reflect.DeepEqual(out, again))
}

// Data files hold texts; a missing one is reported as such.
//
//gvc:prop C25
//gvc:opt bounded=1 noframe=1
func SpecLoadData(doc Text, missing, folder bool) {
	dir, err := os.MkdirTemp("", "data")
	rt.Requires(err == nil)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "file.txt")
	if folder {
		os.Mkdir(name, 0755)
	} else if !missing {
		os.WriteFile(name, []byte(doc), 0644)
	}
	var out, want interface{}
	err = collections.LoadData(name, &out)
	if missing || folder {
		_, isPath := err.(*os.PathError)
		rt.Ensures("reported as a file error", isPath && os.IsNotExist(err) == !folder)
		rt.Ensures("nothing is returned", out == nil)
		return
	}
	err2 := collections.ConvertData(string(doc), &want)
	rt.Ensures("accepted like the text", (err == nil) == (err2 == nil))
	rt.Ensures("the same data", reflect.DeepEqual(out, want))
}
