// Package jsonsub stands in for encoding/json when the engine runs the code:
// the same language and the same results for the types generated code uses.
package jsonsub

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/teamlint/baron/internal/zzverif/rt/mref"
)

// Marshal is json.Marshal.
func Marshal(v interface{}) ([]byte, error) {
	return enc(nil, v)
}

func enc(b []byte, v interface{}) ([]byte, error) {
	if v == nil {
		return append(b, "null"...), nil
	}
	k := mref.Kind(v)
	if k == 'p' && mref.IsNil(v) {
		return append(b, "null"...), nil
	}
	if m, ok := v.(json.Marshaler); ok {
		t, err := m.MarshalJSON()
		if err != nil {
			return nil, err
		}
		return append(b, t...), nil
	}
	if mref.HasMethod(v, "MarshalText") {
		panic("jsonsub: MarshalText")
	}
	switch k {
	case 'i':
		return append(b, strconv.FormatInt(mref.Int(v), 10)...), nil
	case 'u':
		return append(b, strconv.FormatUint(mref.Uint(v), 10)...), nil
	case 'b':
		if mref.Bool(v) {
			return append(b, "true"...), nil
		}
		return append(b, "false"...), nil
	case 's':
		return quote(b, mref.Str(v)), nil
	case 'f':
		f := mref.Float(v)
		if f != f || f-f != 0 {
			return nil, errors.New("json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, mref.Bits(v)))
		}
		return append(b, floatText(f, mref.Bits(v))...), nil
	case 'p':
		return enc(b, mref.Elem(v))
	case 'l':
		if mref.IsNil(v) {
			return append(b, "null"...), nil
		}
		if mref.ElemKind(v) == 'u' && mref.Bits(v) == 8 {
			t := []byte{}
			for i := 0; i < mref.Len(v); i++ {
				t = append(t, byte(mref.Uint(mref.At(v, i))))
			}
			return append(append(append(b, '"'), base64.StdEncoding.EncodeToString(t)...), '"'), nil
		}
		b = append(b, '[')
		n := mref.Len(v)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			var err error
			if b, err = enc(b, mref.At(v, i)); err != nil {
				return nil, err
			}
		}
		return append(b, ']'), nil
	case 't':
		b = append(b, '{')
		n := mref.Len(v)
		first := true
		for i := 0; i < n; i++ {
			name, omit := field(v, i)
			if name == "" {
				continue
			}
			f := mref.At(v, i)
			if omit && empty(f) {
				continue
			}
			if !first {
				b = append(b, ',')
			}
			first = false
			b = quote(b, name)
			b = append(b, ':')
			var err error
			if b, err = enc(b, f); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	}
	if k == 'm' {
		if mref.IsNil(v) {
			return append(b, "null"...), nil
		}
		keys, texts := sorted(mref.Keys(v))
		b = append(b, '{')
		for i, key := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(quote(b, texts[i]), ':')
			var err error
			if b, err = enc(b, mref.Index(v, key)); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	}
	panic("jsonsub: unsupported type")
}

// sorted gives keys in the order of their texts.
func sorted(keys []interface{}) ([]interface{}, []string) {
	var texts []string
	for i, key := range keys {
		t := ""
		switch mref.Kind(key) {
		case 's':
			t = mref.Str(key)
		case 'i':
			t = strconv.FormatInt(mref.Int(key), 10)
		case 'u':
			t = strconv.FormatUint(mref.Uint(key), 10)
		default:
			panic("jsonsub: map key")
		}
		texts = append(texts, t)
		for j := i; j > 0 && texts[j] < texts[j-1]; j-- {
			texts[j], texts[j-1] = texts[j-1], texts[j]
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	return keys, texts
}

func floatText(f float64, bits int) string {
	abs := f
	if abs < 0 {
		abs = -abs
	}
	format := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			format = 'e'
		}
	}
	s := strconv.FormatFloat(f, format, -1, bits)
	if format == 'e' {
		if n := len(s); n >= 4 && s[n-4] == 'e' && (s[n-3] == '-' || s[n-3] == '+') && s[n-2] == '0' {
			s = s[:n-2] + s[n-1:]
		}
	}
	return s
}

// field gives the JSON name of a field, "" if it has none.
func field(v interface{}, i int) (string, bool) {
	tag, name := mref.Tag(v, i)
	if tag == "-" {
		return "", false
	}
	parts := strings.Split(tag, ",")
	if parts[0] != "" {
		name = parts[0]
	}
	omit := false
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omit = true
		} else {
			panic("jsonsub: tag option " + p)
		}
	}
	return name, omit
}

func empty(v interface{}) bool {
	if v == nil {
		return true
	}
	switch mref.Kind(v) {
	case 'i':
		return mref.Int(v) == 0
	case 'u':
		return mref.Uint(v) == 0
	case 'b':
		return !mref.Bool(v)
	case 's':
		return mref.Str(v) == ""
	case 'f':
		return mref.Float(v) == 0
	case 'l':
		return mref.Len(v) == 0
	case 'm':
		return mref.IsNil(v) || len(mref.Keys(v)) == 0
	case 'p':
		return mref.IsNil(v)
	}
	return false
}

const hex = "0123456789abcdef"

func quote(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c < ' ' || c == '<' || c == '>' || c == '&':
				b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
			default:
				b = append(b, c)
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b = append(b, `\ufffd`...)
		} else if r == '\u2028' || r == '\u2029' {
			b = append(b, `\u202`...)
			b = append(b, hex[r&15])
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}

var errSyntax = errors.New("invalid JSON")
var errType = errors.New("json: cannot unmarshal value into Go value")

// Unmarshal is json.Unmarshal.
func Unmarshal(data []byte, v interface{}) error {
	d := &dec{s: data}
	d.space()
	if !d.value(nil) {
		return errSyntax
	}
	d.space()
	if d.i != len(d.s) {
		return errSyntax
	}
	if v == nil || mref.Kind(v) != 'p' || mref.IsNil(v) {
		return errors.New("json: Unmarshal(non-pointer)")
	}
	d.i = 0
	d.space()
	d.value(v)
	return d.err
}

type dec struct {
	s   []byte
	i   int
	err error
}

func (d *dec) space() {
	for d.i < len(d.s) && (d.s[d.i] == ' ' || d.s[d.i] == '\t' || d.s[d.i] == '\r' || d.s[d.i] == '\n') {
		d.i++
	}
}

func (d *dec) bad(e error) {
	if d.err == nil {
		d.err = e
	}
}

func (d *dec) lit(s string) bool {
	if len(d.s)-d.i < len(s) {
		return false
	}
	for j := 0; j < len(s); j++ {
		if d.s[d.i+j] != s[j] {
			return false
		}
	}
	d.i += len(s)
	return true
}

func digit(c byte) bool { return '0' <= c && c <= '9' }

// target follows pointers, allocating them.
func target(p interface{}) interface{} {
	for p != nil && mref.ElemKind(p) == 'p' {
		if mref.HasMethod(p, "UnmarshalJSON") || mref.HasMethod(p, "UnmarshalText") {
			panic("jsonsub: custom decoder")
		}
		e := mref.Elem(p)
		if e == nil || mref.IsNil(e) {
			p = mref.Alloc(p)
		} else {
			p = e
		}
	}
	return p
}

// value checks (p == nil) or decodes the value at d.i; false is a syntax error.
func (d *dec) value(p interface{}) bool {
	if d.i >= len(d.s) {
		return false
	}
	switch c := d.s[d.i]; {
	case c == 'n':
		if !d.lit("null") {
			return false
		}
		if p != nil {
			switch mref.ElemKind(p) {
			case 'p', 'l', 'm':
				mref.SetNil(p)
			}
		}
		return true
	case c == 't' || c == 'f':
		if c == 't' && !d.lit("true") || c == 'f' && !d.lit("false") {
			return false
		}
		if p = target(p); p != nil {
			if mref.ElemKind(p) == 'b' {
				mref.SetBool(p, c == 't')
			} else {
				d.bad(errType)
			}
		}
		return true
	case c == '"':
		s, ok := d.str(p != nil)
		if !ok {
			return false
		}
		if p = target(p); p != nil {
			if mref.ElemKind(p) == 's' {
				mref.SetStr(p, s)
			} else if l := mref.Elem(p); mref.Kind(l) == 'l' && mref.ElemKind(l) == 'u' && mref.Bits(l) == 8 {
				t, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					d.bad(err)
					return true
				}
				mref.SetLen(p, len(t))
				for i, c := range t {
					mref.SetUint(mref.AtPtr(p, i), uint64(c))
				}
			} else {
				d.bad(errType)
			}
		}
		return true
	case c == '-' || digit(c):
		from := d.i
		if !d.number() {
			return false
		}
		if p = target(p); p != nil {
			d.setNumber(p, string(d.s[from:d.i]))
		}
		return true
	case c == '[':
		return d.array(target(p))
	case c == '{':
		return d.object(target(p))
	}
	return false
}

func (d *dec) setNumber(p interface{}, s string) {
	switch mref.ElemKind(p) {
	case 'i':
		n, err := strconv.ParseInt(s, 10, mref.Bits(mref.Elem(p)))
		if err != nil {
			d.bad(errType)
			return
		}
		mref.SetInt(p, n)
	case 'u':
		n, err := strconv.ParseUint(s, 10, mref.Bits(mref.Elem(p)))
		if err != nil {
			d.bad(errType)
			return
		}
		mref.SetUint(p, n)
	case 'f':
		n, err := strconv.ParseFloat(s, mref.Bits(mref.Elem(p)))
		if err != nil {
			d.bad(errType)
			return
		}
		mref.SetFloat(p, n)
	default:
		d.bad(errType)
	}
}

func (d *dec) number() bool {
	if d.s[d.i] == '-' {
		d.i++
	}
	if d.i >= len(d.s) || !digit(d.s[d.i]) {
		return false
	}
	if d.s[d.i] == '0' {
		d.i++
	} else {
		d.digits()
	}
	if d.i < len(d.s) && d.s[d.i] == '.' {
		d.i++
		if !d.digits() {
			return false
		}
	}
	if d.i < len(d.s) && (d.s[d.i] == 'e' || d.s[d.i] == 'E') {
		d.i++
		if d.i < len(d.s) && (d.s[d.i] == '+' || d.s[d.i] == '-') {
			d.i++
		}
		if !d.digits() {
			return false
		}
	}
	return true
}

func (d *dec) digits() bool {
	from := d.i
	for d.i < len(d.s) && digit(d.s[d.i]) {
		d.i++
	}
	return d.i > from
}

func (d *dec) hex4() (rune, bool) {
	if len(d.s)-d.i < 4 {
		return 0, false
	}
	r := rune(0)
	for j := 0; j < 4; j++ {
		c := d.s[d.i]
		switch {
		case digit(c):
			c -= '0'
		case 'a' <= c && c <= 'f':
			c = c - 'a' + 10
		case 'A' <= c && c <= 'F':
			c = c - 'A' + 10
		default:
			return 0, false
		}
		r = r*16 + rune(c)
		d.i++
	}
	return r, true
}

func (d *dec) str(want bool) (string, bool) {
	d.i++
	out := []byte{}
	for d.i < len(d.s) {
		c := d.s[d.i]
		switch {
		case c == '"':
			d.i++
			return string(out), true
		case c < ' ':
			return "", false
		case c == '\\':
			d.i++
			if d.i >= len(d.s) {
				return "", false
			}
			e := d.s[d.i]
			d.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := d.hex4()
				if !ok {
					return "", false
				}
				if r >= 0xd800 && r < 0xe000 {
					r2 := rune(-1)
					if save := d.i; r < 0xdc00 && d.lit(`\u`) {
						if x, ok := d.hex4(); ok && x >= 0xdc00 && x < 0xe000 {
							r2 = (r-0xd800)<<10 | (x - 0xdc00) + 0x10000
						} else {
							d.i = save
						}
					}
					if r2 < 0 {
						r2 = utf8.RuneError
					}
					r = r2
				}
				out = append(out, string(r)...)
			default:
				return "", false
			}
		case c < utf8.RuneSelf:
			out = append(out, c)
			d.i++
		default:
			r, n := utf8.DecodeRune(d.s[d.i:])
			out = append(out, string(r)...)
			d.i += n
		}
	}
	return "", false
}

func (d *dec) array(p interface{}) bool {
	d.i++
	slice := p != nil && mref.ElemKind(p) == 'l'
	if p != nil && !slice {
		d.bad(errType)
	}
	d.space()
	n := 0
	if d.i < len(d.s) && d.s[d.i] == ']' {
		d.i++
	} else {
		if slice {
			// count first
			save := d.i
			for {
				d.space()
				d.value(nil)
				n++
				d.space()
				d.i++
				if d.s[d.i-1] == ']' {
					break
				}
			}
			d.i = save
			mref.SetLen(p, n)
		}
		for j := 0; ; j++ {
			d.space()
			var e interface{}
			if slice {
				e = mref.AtPtr(p, j)
			}
			if !d.value(e) {
				return false
			}
			d.space()
			if d.i >= len(d.s) || d.s[d.i] != ',' && d.s[d.i] != ']' {
				return false
			}
			d.i++
			if d.s[d.i-1] == ']' {
				return true
			}
		}
	}
	if slice {
		mref.SetLen(p, 0)
	}
	return true
}

func (d *dec) object(p interface{}) bool {
	d.i++
	str := p != nil && mref.ElemKind(p) == 't'
	table := p != nil && mref.ElemKind(p) == 'm'
	if table {
		mref.Put(p, nil, nil)
	} else if p != nil && !str {
		d.bad(errType)
	}
	d.space()
	if d.i < len(d.s) && d.s[d.i] == '}' {
		d.i++
		return true
	}
	for {
		d.space()
		if d.i >= len(d.s) || d.s[d.i] != '"' {
			return false
		}
		key, ok := d.str(p != nil)
		if !ok {
			return false
		}
		d.space()
		if d.i >= len(d.s) || d.s[d.i] != ':' {
			return false
		}
		d.i++
		d.space()
		var f interface{}
		if str {
			f = d.member(p, key)
		}
		if table {
			f = mref.Room(p)
		}
		if !d.value(f) {
			return false
		}
		if table {
			d.put(p, key, f)
		}
		d.space()
		if d.i >= len(d.s) || d.s[d.i] != ',' && d.s[d.i] != '}' {
			return false
		}
		d.i++
		if d.s[d.i-1] == '}' {
			return true
		}
	}
}

// put stores a value under the key of a text.
func (d *dec) put(p interface{}, key string, room interface{}) {
	kind, bits := mref.KeyKind(p)
	switch kind {
	case 's':
		mref.Put(p, key, room)
	case 'i':
		n, err := strconv.ParseInt(key, 10, bits)
		if err != nil {
			d.bad(errType)
			return
		}
		mref.Put(p, n, room)
	case 'u':
		n, err := strconv.ParseUint(key, 10, bits)
		if err != nil {
			d.bad(errType)
			return
		}
		mref.Put(p, int64(n), room)
	default:
		panic("jsonsub: map key")
	}
}

func (d *dec) member(p interface{}, key string) interface{} {
	v := mref.Elem(p)
	n := mref.Len(v)
	for _, fold := range []bool{false, true} {
		for i := 0; i < n; i++ {
			name, _ := field(v, i)
			if name != "" && (name == key || fold && strings.EqualFold(name, key)) {
				return mref.AtPtr(p, i)
			}
		}
	}
	return nil
}
