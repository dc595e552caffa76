// Code written by tools/mkpb.py: what message reflection does in real code.

package pb

import "strconv"

import "github.com/teamlint/baron/internal/zzverif/ext/google.golang.org/protobuf/proto"

func (x Color) String() string {
	switch x {
	case Color_RED:
		return "RED"
	case Color_GREEN:
		return "GREEN"
	case Color_DARK:
		return "DARK"
	}
	return proto.EnumNumber(int32(x))
}

func (x *PingReq) String() string { return "PingReq" }

func (x *PingReq) VerifNew() proto.Message { return new(PingReq) }

// VerifMerge copies what protojson would carry over.
func (x *PingReq) VerifMerge(from proto.Message) bool {
	y, ok := from.(*PingReq)
	if !ok {
		return false
	}
	x.Name = y.Name
	x.Num = y.Num
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *PingReq) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "name":
		if kind == 's' {
			x.Name = text
		}
		return true, kind == 's'
	case "num":
		n, err := strconv.ParseInt(text, 10, 32)
		if err == nil {
			x.Num = int32(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	}
	return false, true
}

func (x *Res) String() string { return "Res" }

func (x *Res) VerifNew() proto.Message { return new(Res) }

// VerifMerge copies what protojson would carry over.
func (x *Res) VerifMerge(from proto.Message) bool {
	y, ok := from.(*Res)
	if !ok {
		return false
	}
	x.Text = y.Text
	x.Num = y.Num
	return true
}

// VerifSet sets a field from its JSON value; known is false if there is no such field.
func (x *Res) VerifSet(name string, kind byte, text string) (known, ok bool) {
	switch name {
	case "text":
		if kind == 's' {
			x.Text = text
		}
		return true, kind == 's'
	case "num":
		n, err := strconv.ParseInt(text, 10, 64)
		if err == nil {
			x.Num = int64(n)
		}
		return true, err == nil && (kind == 'n' || kind == 's')
	}
	return false, true
}
