package strs

import (
	"strings"
	"unicode/utf8"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// Centering puts even spaces around the text.
//
//gvc:prop C23
//gvc:opt strings=text
//gvc:contract ~/collections.CenterString
func SpecCenterString(s string, width int) {
	rt.Requires(width < 1<<20)
	r := collections.CenterString(s, width)
	n := utf8.RuneCountInString(s)
	rt.Ensures("too long: unchanged", rt.Implies(n > width, r == s))
	rt.EnsuresF("the text between spaces, evenly", func() bool {
		return n > width || r == strings.Repeat(" ", (width-n)/2)+s+strings.Repeat(" ", width-n-(width-n)/2)
	})
	rt.EnsuresF("exactly the width", func() bool { return n > width || utf8.RuneCountInString(r) == width })
}

// Any width is possible.
//
//gvc:prop C23
//gvc:opt bounded=1 runs=1
func SpecCenterWide() {
	rt.Ensures("exactly the width", utf8.RuneCountInString(collections.CenterString("é", 3000001)) == 3000001)
}

// Indent prefixes every line.
//
//gvc:prop C23
//gvc:opt strings=text
func SpecIndent(s, indent string) {
	in := strings.Split(s, "\n")
	rt.LoopInv(func(i int, split []string) bool {
		return len(split) == len(in) && rt.ForAll(0, i, func(k int) bool { return split[k] == indent+in[k] }) && rt.ForAll(i, len(in), func(k int) bool { return split[k] == in[k] })
	})
	r := collections.Indent(s, indent)
	if strings.Contains(indent, "\n") {
		return
	}
	out := strings.Split(r, "\n")
	rt.Ensures("the same lines", len(out) == len(in))
	rt.EnsuresF("every line gets the prefix", func() bool { return rt.ForAll(0, len(in), func(k int) bool { return out[k] == indent+in[k] }) })
}

// Indent inserts the prefix after every end of line, whatever the prefix is.
//
//gvc:prop C23
//gvc:opt bounded=1
func SpecIndentText(s, indent string) {
	rt.Ensures("every line gets the prefix", collections.Indent(s, indent) == indent+strings.ReplaceAll(s, "\n", "\n"+indent))
}

// IndentN prefixes every line by spaces.
//
//gvc:prop C23
//gvc:opt strings=text
func SpecIndentN(s string, n int) {
	rt.Requires(n >= 0 && n < 1<<20)
	spaces := strings.Repeat(" ", n)
	rt.Requires(!strings.Contains(spaces, "\n"))
	in := strings.Split(s, "\n")
	rt.LoopInv(func(i int, split []string) bool {
		return len(split) == len(in) && rt.ForAll(0, i, func(k int) bool { return split[k] == spaces+in[k] }) && rt.ForAll(i, len(in), func(k int) bool { return split[k] == in[k] })
	})
	out := strings.Split(collections.IndentN(s, n), "\n")
	rt.Ensures("the same lines", len(out) == len(in))
	rt.EnsuresF("every line gets that many spaces", func() bool {
		return rt.ForAll(0, len(in), func(k int) bool { return out[k] == spaces+in[k] })
	})
}

//gvc:prop C23
//gvc:opt strings=text
func SpecStringCenter(s str, n int) {
	rt.Requires(n < 1<<20)
	rt.Ensures("center", string(s.Center(n)) == collections.CenterString(string(s), n))
}

//gvc:prop C23
//gvc:opt strings=text
func SpecStringIndent(s str, indent string) {
	in := strings.Split(string(s), "\n")
	rt.LoopInv(func(i int, split []string) bool {
		return len(split) == len(in) && rt.ForAll(0, i, func(k int) bool { return split[k] == indent+in[k] }) && rt.ForAll(i, len(in), func(k int) bool { return split[k] == in[k] })
	})
	r := string(s.Indent(indent))
	if strings.Contains(indent, "\n") {
		return
	}
	out := strings.Split(r, "\n")
	rt.Ensures("the same lines", len(out) == len(in))
	rt.EnsuresF("every line gets the prefix", func() bool { return rt.ForAll(0, len(in), func(k int) bool { return out[k] == indent+in[k] }) })
}

//gvc:prop C23
//gvc:opt bounded=1
func SpecStringIndentN(s str, n int) {
	rt.Requires(n >= 0 && n < 1<<20)
	rt.Ensures("indentN", string(s.IndentN(n)) == collections.Indent(string(s), strings.Repeat(" ", n)))
}

// Restoring gives back the protected text, unless the text itself contains something looking like a token.
//
//gvc:prop C22
func SpecProtectRestore(s str) {
	rt.Requires(!strings.Contains(string(s), "\"♠"))
	p, lits := s.Protect()
	rt.Ensures("restored", p.RestoreProtected(lits) == s)
}

// Restoring never fails.
//
//gvc:prop C22
func SpecRestoreTotal(s str, lits []str) {
	s.RestoreProtected(lits)
	rt.Ensures("no token: unchanged", strings.Contains(string(s), "\"♠") || s.RestoreProtected(lits) == s)
}

// The literals are parts of the text, in order, between their delimiters.
//
//gvc:prop C22
func SpecProtectLiterals(s str) {
	_, lits := s.Protect()
	rest := string(s)
	ok := true
	for _, l := range lits {
		i := strings.Index(rest, string(l))
		if i < 0 || len(l) < 2 || l[0] != l[len(l)-1] || l[0] != '"' && l[0] != '`' {
			ok = false
			break
		}
		rest = rest[i+len(l):]
	}
	rt.Ensures("literals of the text, in order", ok)
	rt.Ensures("Protecting again finds them", len(lits) == 0 || strings.ContainsAny(string(s), "`\""))
}

// Known finding: a text holding a look-alike token after a literal.
//
//gvc:prop C22
//gvc:opt bounded=1 runs=1
func SpecProtectCollision() {
	s := str("\"lit\" `\"♠0\"")
	p, lits := s.Protect()
	rt.Ensures("restored", p.RestoreProtected(lits) == s)
}
