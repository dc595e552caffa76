// Package svcparse holds the harnesses for the proto service parser.
package svcparse

import (
	"strings"

	"github.com/teamlint/baron/internal/zzverif/rt"
	sp "github.com/teamlint/baron/svcdef/svcparse"
)

// Entries lists the harness functions.
var Entries = map[string]func(){
	"LexFaithful":    LexFaithful,
	"LexPieces":      LexPieces,
	"IsolationLex":   IsolationLex,
	"LexUnicode":     LexUnicode,
	"LexUnget":       LexUnget,
	"RobustRaw":      RobustRaw,
	"RobustMutate":   RobustMutate,
	"RobustTruncate": RobustTruncate,
	"Isolation":      Isolation,
	"ParseShape":     ParseShape,
	"ParseNames":     ParseNames,
	"ParseValue":     ParseValue,
	"ParseLayout":    ParseLayout,
	"ParseOptions":   ParseOptions,
	"ParseOrder":     ParseOrder,
	"ParseOutside":   ParseOutside,
	"ParseLong":      ParseLong,
	"IsolationMany":  IsolationMany,
	"LexLong":        LexLong,
	"RobustLong":     RobustLong,
}

type tok struct {
	kind sp.Token
	text string
	line int // line of the token's last character, counting the line breaks it contains
}

func wordByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func blank(b byte) bool {
	return b == ' ' || b == '\t' || b == '\n' || b == '\v' || b == '\f' || b == '\r'
}

// refLex is the reference tokenizer for ASCII text: ok is false when a string
// or block comment is not terminated.
func refLex(s string) (out []tok, ok bool) {
	line := 1
	i := 0
	for i < len(s) {
		st := i
		k := sp.SYMBOL
		switch c := s[i]; {
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			k = sp.COMMENT
			i += 2
			for i < len(s) && s[i] != '\n' {
				i++
			}
			if i == len(s) {
				return nil, false
			}
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			k = sp.COMMENT
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return nil, false
			}
			i += 2 + e + 2
		case c == '"' || c == '\'':
			k = sp.STRING_LITERAL
			i++
			for i < len(s) && s[i] != c {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(s) {
				return nil, false
			}
			i++
		case blank(c):
			k = sp.WHITESPACE
			for i < len(s) && blank(s[i]) {
				i++
			}
		case wordByte(c):
			k = sp.IDENT
			for i < len(s) && wordByte(s[i]) {
				i++
			}
		case c == '{':
			k = sp.OPEN_BRACE
			i++
		case c == '}':
			k = sp.CLOSE_BRACE
			i++
		case c == '(':
			k = sp.OPEN_PAREN
			i++
		case c == ')':
			k = sp.CLOSE_PAREN
			i++
		default:
			i++
		}
		line += strings.Count(s[st:i], "\n")
		out = append(out, tok{k, s[st:i], line})
	}
	return out, true
}

// joinComments applies the lexer's documented grouping: a run of comments with
// no line break of its own in between is one comment.
func joinComments(in []tok) []tok {
	var out []tok
	for i := 0; i < len(in); i++ {
		t := in[i]
		if t.kind == sp.COMMENT {
			for {
				if i+1 < len(in) && in[i+1].kind == sp.COMMENT {
					t.text += in[i+1].text
					t.line = in[i+1].line
					i++
					continue
				}
				if i+2 < len(in) && in[i+1].kind == sp.WHITESPACE && in[i+2].kind == sp.COMMENT && strings.Count(in[i+1].text, "\n") == 0 {
					t.text += in[i+1].text + in[i+2].text
					t.line = in[i+2].line
					i += 2
					continue
				}
				break
			}
		}
		out = append(out, t)
	}
	return out
}

func depthOK(ts []tok) bool {
	d := 0
	for i, t := range ts {
		if t.kind == sp.OPEN_BRACE {
			d++
		}
		if t.kind == sp.CLOSE_BRACE {
			d--
			if d <= 0 && i != len(ts)-1 {
				return false
			}
		}
	}
	return d == 0
}

func lexAll(lex *sp.SvcLexer, limit int) []tok {
	var out []tok
	for i := 0; i < limit; i++ {
		k, v := lex.GetToken()
		if k == sp.EOF {
			return out
		}
		out = append(out, tok{k, v, lex.GetLineNumber()})
	}
	rt.Fail("lexer yields more tokens than the input has characters")
	return nil
}

func checkLex(text string, observe bool) {
	ref, ok := refLex(text)
	rt.Assume(ok)
	rt.Assume(depthOK(ref))
	ref = joinComments(ref)
	lex := sp.NewSvcLexer(strings.NewReader(text))
	got := lexAll(lex, len(text)+2)
	if observe {
		rt.Observe("tokens", len(got))
	}
	cat := ""
	for _, t := range got {
		cat += t.text
	}
	rt.Assert(cat == text, "the token values do not reproduce the input text")
	rt.Assert(len(got) == len(ref), "wrong number of tokens")
	for i := range got {
		rt.Assert(got[i].kind == ref[i].kind, "token of the wrong kind")
		rt.Assert(got[i].text == ref[i].text, "token with the wrong text")
		rt.Assert(got[i].line == ref[i].line, "wrong line number reported with a token")
	}
	rt.Reach("lexed")
}

const lexAlpha = "a7_ \n\t\r\f\v/*\"'\\{}();.:-"

// LexFaithful: arbitrary text inside a service.
func LexFaithful() {
	body := rt.String("body", 0, rt.Param("len", 3), lexAlpha)
	checkLex("service S{"+body+"}", true)
}

// pieceText puts lexical pieces of every kind one after the other.
func pieceText(n int) string {
	text := ""
	for i := 0; i < n; i++ {
		t := string([]byte{byte('0' + i)})
		switch rt.Choice("piece"+t, 8) {
		case 1:
			text += "/*" + rt.String("block"+t, 0, 1, "*/\n\"a") + "*/"
		case 2:
			text += "//" + rt.String("line"+t, 0, 1, "*/\"\\") + "\n"
		case 3:
			text += rt.String("blank"+t, 1, 1, " \n\t")
		case 4:
			text += " \n "
		case 5:
			q := rt.Pick("quote"+t, "\"", "'")
			text += q + rt.String("str"+t, 0, 1, "/*\n'\"") + q
		case 6:
			q := rt.Pick("quote"+t, "\"", "'")
			text += q + "\\" + rt.String("esc"+t, 1, 1, "'\"\\n") + q
		case 7:
			text += rt.String("id"+t, 1, 1, "a9_:/")
		}
	}
	return text
}

// LexPieces: comments, blanks, strings and words in any order.
func LexPieces() {
	checkLex("service S{"+pieceText(rt.Param("n", 3))+" }", true)
}

// LexUnicode: arbitrary bytes inside a comment and a string literal.
func LexUnicode() {
	body := rt.String("c", 0, rt.Param("len", 2), "")
	for i := 0; i < len(body); i++ {
		rt.Assume(body[i] < 0x80)
	}
	switch rt.Choice("place", 3) {
	case 0:
		rt.Assume(!strings.Contains(body+"*", "*/"))
		checkLex("service S{/*"+body+"*/}", true)
	case 1:
		rt.Assume(strings.Count(body, "\n") == 0)
		checkLex("service S{//"+body+"\n }", true)
	case 2:
		q := rt.Pick("quote", "\"", "'")
		checkLex("service S{"+q+body+q+"}", true)
	}
}

// LexUnget: ungetting to any earlier position replays the same tokens and lines.
func LexUnget() {
	body := ""
	if rt.Bool("pieces") {
		body = pieceText(rt.Param("pieces", 1))
	} else {
		body = rt.String("body", 0, rt.Param("len", 2), lexAlpha)
	}
	text := "service S {" + body + "\n/* c */rpc\n}"
	lex := sp.NewSvcLexer(strings.NewReader(text))
	all := lexAll(lex, len(text)+2)
	lex = sp.NewSvcLexer(strings.NewReader(text))
	n := len(all)
	rt.Assume(n >= 2)
	adv := 1 + rt.Choice("advance", n)
	rt.Assume(adv <= n)
	for i := 0; i < adv; i++ {
		lex.GetToken()
	}
	rt.Assert(lex.GetPosition() == adv, "position does not count the tokens read")
	back := rt.Choice("back", adv+1)
	single := rt.Bool("single")
	if single {
		for i := 0; i < back; i++ {
			rt.Assert(lex.UnGetToken() == nil, "ungetting a read token fails")
		}
	} else {
		rt.Assert(lex.UnGetToPosition(adv-back) == nil, "ungetting to a saved position fails")
	}
	rt.Assert(lex.GetPosition() == adv-back, "position not restored by ungetting")
	if back == adv {
		rt.Assert(lex.UnGetToken() != nil, "ungetting before the first token is not refused")
		rt.Assert(lex.GetPosition() == 0, "a refused unget moves the lexer")
	}
	rest := lexAll(lex, len(text)+2)
	rt.Assert(len(rest) == n-adv+back, "re-reading yields another number of tokens")
	for i := range rest {
		rt.Assert(rest[i] == all[adv-back+i], "re-reading yields another token or line number")
	}
	rt.Observe("n", n)
	rt.Reach("replayed")
}

func drive(text string) {
	lex := sp.NewSvcLexer(strings.NewReader(text))
	svc, err := sp.ParseService(lex)
	rt.Assert(svc != nil || err != nil, "neither a service nor an error")
	rt.Observe("err", err != nil)
	if svc != nil {
		rt.Observe("name", svc.Name)
		rt.Observe("methods", len(svc.Methods))
	}
	rt.Reach("parsed")
}

const robustAlpha = "a \n/*\"\\{}();:.'"

// RobustRaw: arbitrary bytes around and inside a service.
func RobustRaw() {
	n := rt.Param("len", 3)
	switch rt.Choice("place", 3) {
	case 0:
		drive(rt.String("t", 0, n, robustAlpha+"\xc3\xa9\xff\x00"))
	case 1:
		drive("service " + rt.String("t", 0, n, robustAlpha))
	case 2:
		drive("service S{" + rt.String("t", 0, n, robustAlpha))
	}
}

const sample = "//h\nservice S{\n//d\nrpc A(stream p.Q) returns (R) {\n /*c\n*/ option (google.api.http) = {\n// f\n get: \"/a/{b}\" custom { kind: \"X\\\"\\\\\" path: \"/p\" }\n additional_bindings { put: \"/c\" body: \"*\" }\n };\n}\n rpc B (Q) returns (R);\n//e\n}\nmessage M{}\n"

// RobustTruncate: a definition cut off anywhere, followed by arbitrary characters.
func RobustTruncate() {
	cut := rt.Choice("cut", len(sample)+1)
	drive(sample[:cut] + rt.String("tail", 0, rt.Param("len", 1), robustAlpha))
}

// RobustMutate: one character replaced, inserted or deleted.
func RobustMutate() {
	pos := rt.Choice("pos", len(sample))
	switch rt.Choice("edit", 3) {
	case 0:
		drive(sample[:pos] + rt.String("r", 1, 1, "") + sample[pos+1:])
	case 1:
		drive(sample[:pos] + rt.String("r", 1, 1, "") + sample[pos:])
	case 2:
		drive(sample[:pos] + sample[pos+1:])
	}
}
