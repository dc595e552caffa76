package main

import (
	"go/ast"
	"go/token"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
)

// words are the identifier-like parts of the string literals in the repository
// packages whose import path contains one of the comma separated parts of in.
// They come from the current source, so special cases a change introduces are
// among them.
func (p *Program) words(in string) []string {
	p.wordMu.Lock()
	defer p.wordMu.Unlock()
	if w, ok := p.wordSets[in]; ok {
		return w
	}
	set := map[string]bool{}
	packages.Visit(p.pkgs, nil, func(pk *packages.Package) {
		if !inRepo(pk.PkgPath) {
			return
		}
		hit := false
		for _, part := range strings.Split(in, ",") {
			if strings.HasSuffix(pk.PkgPath, part) {
				hit = true
			}
		}
		if !hit {
			return
		}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				// what is only logged or reported is no special case
				if c, ok := n.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok {
						switch s.Sel.Name {
						case "Errorf", "Wrap", "Wrapf", "Warnf", "Warn", "Info", "Infof", "Debug", "Debugf", "Trace", "Tracef", "WithField", "Fatalf", "Printf":
							return false
						}
					}
				}
				l, ok := n.(*ast.BasicLit)
				if !ok || l.Kind != token.STRING || len(l.Value) > 60 {
					return true
				}
				s, err := strconv.Unquote(l.Value)
				if err != nil {
					return true
				}
				for _, w := range strings.FieldsFunc(s, func(r rune) bool {
					return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_')
				}) {
					for w != "" && (w[0] >= '0' && w[0] <= '9' || w[0] == '_') {
						w = w[1:]
					}
					if w != "" && len(w) <= 24 {
						set[w] = true
					}
				}
				return true
			})
		}
	})
	var out []string
	for w := range set {
		out = append(out, w)
	}
	sort.Strings(out)
	if len(out) > 250 {
		out = out[:250]
	}
	if p.wordSets == nil {
		p.wordSets = map[string][]string{}
	}
	p.wordSets[in] = out
	return out
}

var _ sync.Mutex

func init() {
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := m.uname(m.conc(a[0], "name"))
		ws := m.prog.words(m.conc(a[1], "in"))
		if len(ws) == 0 {
			panic(&pathEnd{"assume", "no words"})
		}
		i := m.chooseN(n+"?", len(ws))
		v := strV(ws[i])
		m.inputs = append(m.inputs, &Input{n, "string", v})
		return v
	}, rtPkg+".Word")
}
