package utils

import (
	"regexp"
	"strings"

	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// gvcRepl is the text of a substitution.
type gvcRepl string

func init() {
	rt.Gen(func(g *rt.G) RegexReplacer {
		exprs := []string{"a", "b+", "(a)(b)", `(?P<x>\w)\s`, "a$", "(?m)b$", "^ ", "[0-9]", ".", "x|y"}
		repls := []string{"", "b", "$1", "${x}${x}", "a$2$1", "dd", "\n", "ab"}
		return RegexReplacer{regexp.MustCompile(exprs[g.Intn(len(exprs))]), repls[g.Intn(len(repls))]}
	})
	rt.Gen(func(g *rt.G) gvcRepl {
		exprs := []string{"a", "b+", "(a)(b)", `(?P<x>\w)\s`, "a$", "(?m)b$", "^ ", "[0-9]", ".", `\s*$`, "x|y", "", "(", "[a"}
		repls := []string{"", "d", "b", "$1", "${x}${x}", "a$2$1", "dd", "\n", "ab"}
		sep := []string{"/", "/", "/", "!", ",", "é"}[g.Intn(6)]
		e, r := exprs[g.Intn(len(exprs)-g.Intn(4))], repls[g.Intn(len(repls))]
		switch g.Intn(16) {
		case 0:
			return gvcRepl(sep + e + sep + r + sep)
		case 1:
			return gvcRepl(sep + e)
		case 2:
			return gvcRepl(g.Str())
		case 3:
			return gvcRepl("  " + sep + e + sep + r + "\n")
		}
		return gvcRepl(sep + e + sep + r)
	})
}

func gvcTexts(in []gvcRepl) (out []string) {
	for _, r := range in {
		out = append(out, string(r))
	}
	return
}

// gvcParse is what a substitution means; ok tells if it is well formed.
func gvcParse(text string) (re *regexp.Regexp, repl string, ok bool) {
	text = strings.TrimSpace(text)
	if text == "" {
		return
	}
	parts := strings.Split(text, string(text[0]))
	if len(parts) != 3 || parts[1] == "" {
		return
	}
	expr, repl := parts[1], parts[2]
	if repl == "d" {
		repl = ""
		if strings.HasSuffix(expr, "$") {
			expr += `\n`
			if !strings.HasPrefix(expr, "(?m)") {
				expr = "(?m)" + expr
			}
		}
	}
	re, err := regexp.Compile(expr)
	return re, repl, err == nil
}

// Substitutions apply in order, each on the result of the previous one.
//
//gvc:prop C28
func SpecSubstitute(content string, rs []RegexReplacer) {
	before := content
	rt.LoopInv(func(i int, content string) bool {
		return content == rt.FoldStr(i, before, func(k int, s string) string { return rs[k].regex.ReplaceAllString(s, rs[k].replace) })
	})
	r := Substitute(content, rs...)
	rt.Ensures("folded in order", r == rt.FoldStr(len(rs), content, func(k int, s string) string { return rs[k].regex.ReplaceAllString(s, rs[k].replace) }))
	rt.Ensures("nothing to do", len(rs) > 0 || r == content)
}

// A well formed substitution does what its text says, a malformed one is refused.
//
//gvc:prop C28
//gvc:opt bounded=1 noframe=1
func SpecInitReplacers(content string, in []gvcRepl) {
	texts := gvcTexts(in)
	want, good := content, true
	for _, s := range texts {
		re, repl, ok := gvcParse(s)
		good = good && ok
		if good {
			want = re.ReplaceAllString(want, repl)
		}
	}
	var rs []RegexReplacer
	panicked := rt.Try(func() { rs = InitReplacers(texts...) })
	rt.Ensures("refused when malformed", panicked == !good)
	if good {
		rt.Ensures("one per text", len(rs) == len(in))
		rt.Ensures("applied in order", Substitute(content, rs...) == want)
	}
}
