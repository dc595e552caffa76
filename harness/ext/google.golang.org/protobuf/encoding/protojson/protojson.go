// Package protojson stands in for protojson: the JSON text it writes for a
// message is a token that names a copy of it, so that encoding and decoding
// lose nothing. It reads such tokens, and JSON objects with plain fields.
package protojson

import (
	"errors"

	"github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/proto"
)

// MarshalOptions configures the encoder.
type MarshalOptions struct {
	Multiline       bool
	Indent          string
	AllowPartial    bool
	UseProtoNames   bool
	UseEnumNumbers  bool
	EmitUnpopulated bool
}

// UnmarshalOptions configures the decoder.
type UnmarshalOptions struct {
	AllowPartial   bool
	DiscardUnknown bool
}

var sent []proto.Message

const head, tail = `{"@message":`, `}`

// Marshal encodes m.
func (o MarshalOptions) Marshal(m proto.Message) ([]byte, error) {
	c := m.VerifNew()
	if !c.VerifMerge(m) {
		return nil, errors.New("cannot copy")
	}
	sent = append(sent, c)
	return []byte(head + string([]byte{byte('0' + len(sent))}) + tail), nil
}

// Marshal encodes m with the default options.
func Marshal(m proto.Message) ([]byte, error) { return MarshalOptions{}.Marshal(m) }

// Unmarshal decodes into m.
func (o UnmarshalOptions) Unmarshal(b []byte, m proto.Message) error {
	s := string(b)
	m.Reset()
	if len(s) != len(head)+1+len(tail) || s[:len(head)] != head || s[len(s)-1:] != tail {
		d := &dec{s: s, discard: o.DiscardUnknown}
		d.space()
		if !d.object(m) {
			return errors.New("proto: syntax error")
		}
		d.space()
		if d.i != len(s) {
			return errors.New("proto: syntax error")
		}
		return nil
	}
	i := int(s[len(head)] - '1')
	if i < 0 || i >= len(sent) {
		return errors.New("proto: unknown message")
	}
	// fields of another message are unknown
	m.VerifMerge(sent[i])
	return nil
}

// Unmarshal decodes into m with the default options.
func Unmarshal(b []byte, m proto.Message) error { return UnmarshalOptions{}.Unmarshal(b, m) }

type dec struct {
	s       string
	i       int
	discard bool
}

func (d *dec) peek() byte {
	if d.i < len(d.s) {
		return d.s[d.i]
	}
	return 0
}

func (d *dec) space() {
	for c := d.peek(); c == ' ' || c == '\t' || c == '\n' || c == '\r'; c = d.peek() {
		d.i++
	}
}

func (d *dec) accept(c byte) bool {
	if d.peek() != c {
		return false
	}
	d.i++
	return true
}

// object reads an object, into m unless it is nil.
func (d *dec) object(m proto.Message) bool {
	if !d.accept('{') {
		return false
	}
	d.space()
	if d.accept('}') {
		return true
	}
	for {
		d.space()
		name, ok := d.str()
		if !ok {
			return false
		}
		d.space()
		if !d.accept(':') {
			return false
		}
		kind, text, ok := d.value()
		if !ok {
			return false
		}
		if m != nil {
			known, ok := m.VerifSet(name, kind, text)
			if kind == '0' {
				ok = true
			}
			if !ok || !known && !d.discard {
				return false
			}
		}
		d.space()
		if d.accept('}') {
			return true
		}
		if !d.accept(',') {
			return false
		}
	}
}

func (d *dec) str() (string, bool) {
	if !d.accept('"') {
		return "", false
	}
	out := ""
	for d.i < len(d.s) {
		c := d.s[d.i]
		d.i++
		switch {
		case c == '"':
			return out, true
		case c == '\\':
			e := d.peek()
			d.i++
			if e != '"' && e != '\\' && e != '/' {
				return "", false
			}
			out += string([]byte{e})
		case c < ' ':
			return "", false
		default:
			out += string([]byte{c})
		}
	}
	return "", false
}

// value reads a value: 's'tring, 'n'umber, 'b'ool, '0' for null, '{' or '['.
func (d *dec) value() (kind byte, text string, ok bool) {
	d.space()
	from := d.i
	switch c := d.peek(); {
	case c == '"':
		text, ok = d.str()
		return 's', text, ok
	case c == '{':
		return '{', "", d.object(nil)
	case c == '[':
		d.i++
		d.space()
		if d.accept(']') {
			return '[', "", true
		}
		for {
			if _, _, ok := d.value(); !ok {
				return '[', "", false
			}
			d.space()
			if d.accept(']') {
				return '[', "", true
			}
			if !d.accept(',') {
				return '[', "", false
			}
		}
	case c == '-' || '0' <= c && c <= '9':
		d.i++
		for c := d.peek(); '0' <= c && c <= '9'; c = d.peek() {
			d.i++
		}
		return 'n', d.s[from:d.i], d.s[from:d.i] != "-"
	}
	for _, w := range []string{"true", "false", "null"} {
		if len(d.s)-d.i >= len(w) && d.s[d.i:d.i+len(w)] == w {
			d.i += len(w)
			if w == "null" {
				return '0', w, true
			}
			return 'b', w, true
		}
	}
	return 0, "", false
}
