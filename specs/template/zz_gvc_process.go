package template

import (
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
	"github.com/coveooss/multilogger/errors"
)

// gvcPrinted is what was sent to the standard output.
var gvcPrinted []string

func gvcQuiet() {
	gvcPrinted = nil
	keep := func(args ...interface{}) (int, error) {
		for _, a := range args {
			gvcPrinted = append(gvcPrinted, a.(string))
		}
		return 0, nil
	}
	Print, Println = keep, keep
	SetLogLevel := func() { InternalLog.SetDefaultConsoleHookLevel(0) }
	SetLogLevel()
}

// gvcDoc is a document, possibly a template.
type gvcDoc string

func init() {
	parts := []string{"text ", "{{ .a }}", "{{ .none }}", "{{ add 1 2 }}", "{{ add 1 \"x\" }}", "{{ raise \"oops\" }}", "{{ noSuchFunc 1 }}", "{{ $x }}", "{{ if }}", "{{ if .a }}", "{{ end }}", "{{", "}}", "\n", "\n", "\n\n", "@a", "@none", "@(1 + 2)", "@raise(\"no\")", "\"<RUN_ERROR>\"", "\"<no value>\"", "<no value>", "{{ \"<RUN_ERROR>\" | foo }}", "{{ index .l 9 }}", "{{ .a.b.c }}", "{{ $y := 2 }}", "{{ $y }}", "{{ range .l }}", "{{ define \"t\" }}", "{{ template \"t\" }}", "{{ template \"none\" }}", "force-gotemplate!", "no-gotemplate!", "no-razor!", "gotemplate-pause!", "gotemplate-resume!", "razor-pause!", "razor-resume!", "#! gotemplate\n", "#!\n", "#! /bin/sh\n", "é", "\t", "{{/* c */}}", "{{- .a -}}", "{{ assert false \"bad\" }}", "!NO_VALUE!", "{{ slice \"abc\" 1 9 9 }}", "{{ default 1 .none }}", "a@b.com", "@@", "{{ .l }}", "// comment ", "\"!Q!x!Q!\"", "{{ nil }}", "{{ int \"z\" }}"}
	rt.Gen(func(g *rt.G) gvcDoc {
		var b strings.Builder
		n := 1 + g.Intn(4)
		if g.Intn(8) == 0 {
			n += g.Intn(10)
		}
		for i := 0; i < n; i++ {
			b.WriteString(parts[g.Intn(len(parts))])
			if g.Intn(10) == 0 {
				b.WriteString(g.Str())
			}
		}
		return gvcDoc(b.String())
	})
}

func gvcTemplate(folder string, options ...Options) *Template {
	gvcQuiet()
	set := OptionsSet{Razor: true, Math: true, Data: true, Runtime: true, Utils: true, Logging: true}
	for _, o := range options {
		set[o] = true
	}
	ctx := collections.AsDictionary(map[string]interface{}{"a": 1, "l": []interface{}{1, 2}})
	return MustNewTemplate(folder, ctx, "", set)
}

// A failure leaves the document unchanged unless strict checking applies.
//
//gvc:prop C17
//gvc:opt bounded=1 noframe=1 runs=1500
func SpecFailedRendering(doc gvcDoc, acceptNoValue bool) {
	text := string(doc)
	var more []Options
	if acceptNoValue {
		more = append(more, AcceptNoValue)
	}
	render := func(name string, options ...Options) (r string, changed bool, err error) {
		t := gvcTemplate(".", append(options, more...)...)
		return t.processContentInternal(text, name, nil, 0, true, nil)
	}
	var r, s string
	var changed, changedS bool
	var err, errS error
	rt.Ensures("no crash", !rt.Try(func() { r, changed, err = render("file.txt") }))
	rt.Ensures("no crash in strict mode", !rt.Try(func() { s, changedS, errS = render("file.txt", StrictErrorCheck) }))
	explicit := strings.Contains(text, explicitGoTemplate)
	if errS != nil && !explicit {
		rt.Ensures("no error", err == nil)
		rt.Ensures("the original document", r == text)
		rt.Ensures("reported as unchanged", !changed)
	}
	if errS != nil && explicit {
		rt.Ensures("explicit documents report the error", err != nil)
	}
	if errS == nil {
		rt.Ensures("the same result", err == nil && r == s && changed == changedS)
	}
	for _, ext := range []string{"x.gt", "x.template"} {
		rt.Ensures("no crash with a template", !rt.Try(func() { r, changed, err = render(ext) }))
		rt.Ensures("template files report the error", (err != nil) == (errS != nil))
	}
	rt.Ensures("no crash when disabled", !rt.Try(func() { r, changed, err = render("file.txt", RenderingDisabled) }))
	rt.Ensures("disabled: never changed", !changed && err == nil)
	if !strings.ContainsAny(text, "@{}") {
		rt.Ensures("no code: never changed", !changedS && errS == nil)
	}
}

// gvcTree is the content of a folder.
func gvcTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// gvcFile is a file to render.
type gvcFile struct {
	Name string
	Text string
	Kind int // 0: regular, 1: missing
}

func init() {
	names := []string{"a.txt", "b", "c.tf.gt", "d.gt", "e.txt.template", "sub/f.txt", "sub/g.yml.gt", "h.template.gt", "i.gt.txt", "sub/x.gte"}
	texts := []string{"plain", "v={{ .a }}", "{{ raise \"x\" }}", "#! gotemplate\n{{ .a }}", "", "{{ /* */}}", "  ", "@a", "{{ if }}", "#!/bin/sh\n{{ .a }}", "{{ .none }}", "\"!Q!x!Q!\"", "{{ \"\" }}", "force-gotemplate! {{ raise \"z\" }}", "{{ $x := 1 }}{{ set . \"a\" 5 }}{{ .a }}", "no-gotemplate! {{ .a }}"}
	rt.Gen(func(g *rt.G) gvcFile {
		f := gvcFile{names[g.Intn(len(names))], texts[g.Intn(len(texts))], 0}
		if g.Intn(8) == 0 {
			f.Kind = 1
		}
		return f
	})
}

func gvcWrite(dir string, files []gvcFile) {
	for _, f := range files {
		p := filepath.Join(dir, f.Name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if f.Kind == 0 {
			os.WriteFile(p, []byte(f.Text), 0644)
		}
	}
}

func gvcDir() string {
	dir, err := os.MkdirTemp("", "proc")
	if err != nil {
		rt.Skip()
	}
	dir, _ = filepath.EvalSymlinks(dir)
	return dir
}

// gvcTarget is the file that receives the result.
func gvcTarget(name string, overwrite bool) (target string, isTemplate bool) {
	target = strings.TrimSuffix(strings.TrimSuffix(name, ".gt"), ".template")
	isTemplate = strings.HasSuffix(name, ".gt") || strings.HasSuffix(name, ".template")
	if isTemplate && !overwrite {
		ext := filepath.Ext(target)
		target = strings.TrimSuffix(target, ext) + ".generated" + ext
	}
	return
}

// Writing a result never loses the source.
//
//gvc:prop C18
//gvc:opt bounded=1 noframe=1 runs=1500
func SpecFileEffects(f gvcFile, before []gvcFile, overwrite, stdout, elsewhere, blocked bool) {
	rt.Requires(f.Kind == 0)
	root := gvcDir()
	defer os.RemoveAll(root)
	src := filepath.Join(root, "src")
	dst := src
	os.MkdirAll(src, 0755)
	for i := range before {
		before[i].Text = "there before"
	}
	gvcWrite(src, before)
	gvcWrite(src, []gvcFile{f})
	if elsewhere {
		dst = filepath.Join(root, "dst")
	}
	var opts []Options
	if overwrite {
		opts = append(opts, Overwrite)
	}
	if stdout {
		opts = append(opts, OutputStdout)
	}
	target, isTemplate := gvcTarget(f.Name, overwrite)
	relTarget, _ := filepath.Rel(root, filepath.Join(dst, target))
	relSource, _ := filepath.Rel(root, filepath.Join(src, f.Name))
	if blocked && relTarget != relSource { // the target cannot be written
		os.RemoveAll(filepath.Join(root, relTarget))
		os.MkdirAll(filepath.Join(root, relTarget, "keep"), 0755)
	} else {
		blocked = false
	}
	old := gvcTree(root)
	t := gvcTemplate(src, opts...)
	sub := gvcTemplate(src, opts...)
	rendered, changed, rerr := sub.processContentInternal(f.Text, filepath.Join(src, f.Name), nil, 0, true, nil)
	stdout = sub.options[OutputStdout]
	gvcPrinted = nil
	var result string
	var err error
	rt.Ensures("no crash", !rt.Try(func() { result, err = t.ProcessTemplate(filepath.Join(src, f.Name), src, dst) }))
	now := gvcTree(root)

	for name, text := range old {
		got, there := now[name]
		switch {
		case there && got == text:
		case name == relTarget && name != relSource:
		case name == relSource && !isTemplate:
			if !overwrite && !elsewhere {
				rt.Ensures("the source is kept under .original", now[name+".original"] == text)
			} else {
				rt.Ensures("only overwrite replaces a source", overwrite && there)
			}
		case name == relSource && isTemplate:
			rt.Ensures("a template is removed only once its result is beside it", overwrite && !elsewhere && !there && err == nil && now[relTarget] == rendered)
		case name == relSource+".original" && !isTemplate && !overwrite:
		default:
			rt.Ensures("nothing else is touched: "+name, false)
		}
	}
	for name := range now {
		if _, there := old[name]; !there {
			rt.Ensures("nothing else is created: "+name, name == relTarget || name == relSource+".original" && !isTemplate && !overwrite && !elsewhere)
		}
	}
	if rerr != nil || stdout || !changed && !elsewhere {
		rt.Ensures("nothing is touched", reflect.DeepEqual(old, now))
	}
	if rerr != nil {
		rt.Ensures("the failure is reported", err != nil)
		return
	}
	empty := isTemplate && strings.TrimSpace(rendered)+filepath.Ext(target) == ""
	if err == nil && !blocked && !stdout && (changed || elsewhere) && !(isTemplate && strings.TrimSpace(rendered) == "" && filepath.Ext(strings.TrimSuffix(strings.TrimSuffix(f.Name, ".gt"), ".template")) == "") {
		_ = empty
		rt.Ensures("the target receives the result", now[relTarget] == rendered)
		rt.Ensures("the target is returned", result == filepath.Join(root, relTarget))
	}
	if stdout && err == nil && (!isTemplate || strings.TrimSpace(rendered) != "") {
		rt.Ensures("the result is printed", strings.Join(gvcPrinted, "") == rendered)
		rt.Ensures("no file is listed", result == "")
	}
	if blocked && !stdout && (changed || elsewhere) && !(isTemplate && strings.TrimSpace(rendered) == "") {
		rt.Ensures("a result that cannot be written is an error", err != nil)
	}
}

// Each file is processed as if it were alone.
//
//gvc:prop C19
//gvc:opt bounded=1 noframe=1 runs=1000
func SpecIndependentFiles(files []gvcFile, overwrite, stdout, elsewhere, blocked bool) {
	var list []gvcFile
	seen := map[string]bool{}
	for _, f := range files {
		base := strings.SplitN(f.Name, ".", 2)[0]
		if !seen[base] {
			seen[base] = true
			list = append(list, f)
		}
	}
	var opts []Options
	if overwrite {
		opts = append(opts, Overwrite)
	}
	if stdout {
		opts = append(opts, OutputStdout)
	}
	run := func(todo []gvcFile) (results []string, errs int, tree map[string]string, printed []string, crashed bool) {
		root := gvcDir()
		defer os.RemoveAll(root)
		src := filepath.Join(root, "src")
		dst := src
		os.MkdirAll(src, 0755)
		gvcWrite(src, list)
		if elsewhere {
			dst = filepath.Join(root, "dst")
			if blocked {
				os.WriteFile(dst, []byte("in the way"), 0644)
			}
		}
		if blocked { // a folder where .original must go
			os.MkdirAll(filepath.Join(src, "a.txt.original", "keep"), 0755)
			os.MkdirAll(filepath.Join(src, "sub", "f.txt.original", "keep"), 0755)
		}
		t := gvcTemplate(src, opts...)
		gvcPrinted = nil
		var names []string
		for _, f := range todo {
			names = append(names, filepath.Join(src, f.Name))
		}
		var err error
		crashed = rt.Try(func() { results, err = t.ProcessTemplates(src, dst, names...) })
		if l, ok := err.(errors.Array); ok {
			errs = len(l)
		} else if err != nil {
			errs = 1
		}
		for i := range results {
			results[i], _ = filepath.Rel(root, results[i])
		}
		return results, errs, gvcTree(root), gvcPrinted, crashed
	}
	all, errs, tree, printed, crashed := run(list)
	rt.Ensures("no crash", !crashed)
	var wantAll, wantPrinted []string
	wantErrs := 0
	var effects []string
	_, _, none, _, _ := run(nil)
	want := map[string]string{}
	for k, v := range none {
		want[k] = v
	}
	for _, f := range list {
		one, e, tr, p, crashed := run([]gvcFile{f})
		rt.Ensures("no crash alone", !crashed)
		wantAll = append(wantAll, one...)
		wantErrs += e
		wantPrinted = append(wantPrinted, p...)
		for k, v := range tr {
			if old, ok := none[k]; !ok || old != v {
				want[k] = v
				effects = append(effects, k)
			}
		}
		for k := range none {
			if _, ok := tr[k]; !ok {
				delete(want, k)
			}
		}
	}
	sort.Strings(effects)
	for i := 1; i < len(effects); i++ { // two files with the same target are not independent
		rt.Requires(effects[i] != effects[i-1])
	}
	rt.Ensures("the successful targets, in order", reflect.DeepEqual(append([]string{}, all...), append([]string{}, wantAll...)))
	rt.Ensures("every failure is reported", errs == wantErrs)
	rt.Ensures("the same effects", reflect.DeepEqual(tree, want))
	rt.Ensures("the same output", reflect.DeepEqual(append([]string{}, printed...), append([]string{}, wantPrinted...)))
}
