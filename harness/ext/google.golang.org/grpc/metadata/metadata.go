// Package metadata is grpc's metadata, as far as generated code uses it.
package metadata

import "strings"

// MD maps lower-case keys to values.
type MD map[string][]string

// Pairs makes an MD of key, value, key, value...
func Pairs(kv ...string) MD {
	md := make(MD, len(kv)/2)
	for i := 0; i < len(kv); i += 2 {
		key := strings.ToLower(kv[i])
		md[key] = append(md[key], kv[i+1])
	}
	return md
}

// Join joins MDs.
func Join(mds ...MD) MD {
	out := MD{}
	for _, md := range mds {
		for k, v := range md {
			out[k] = append(out[k], v...)
		}
	}
	return out
}

// New makes an MD from a map.
func New(m map[string]string) MD {
	md := MD{}
	for k, v := range m {
		md[strings.ToLower(k)] = append(md[strings.ToLower(k)], v)
	}
	return md
}

// Get returns the values of a key.
func (md MD) Get(k string) []string { return md[strings.ToLower(k)] }

// Set sets the values of a key.
func (md MD) Set(k string, vals ...string) {
	if len(vals) > 0 {
		md[strings.ToLower(k)] = vals
	}
}

// Append adds values to a key.
func (md MD) Append(k string, vals ...string) {
	if len(vals) > 0 {
		md[strings.ToLower(k)] = append(md[strings.ToLower(k)], vals...)
	}
}

// Len is the number of keys.
func (md MD) Len() int { return len(md) }

// Copy copies an MD.
func (md MD) Copy() MD { return Join(md) }
