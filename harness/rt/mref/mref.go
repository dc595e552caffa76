// Package mref is the little reflection that jsonsub needs; the engine
// intercepts all of it.
package mref

func no() { panic("mref: symbolic execution only") }

// Kind is 'i', 'u', 'b', 's', 'f', 'l' (slice), 'p' (pointer), 't' (struct), 'm' (map), 0 (nil), '?'.
func Kind(v interface{}) byte { no(); return 0 }

// ElemKind is the kind of what a pointer or slice type holds.
func ElemKind(v interface{}) byte { no(); return 0 }

// Bits is the size of a number or of the elements of a slice of numbers.
func Bits(v interface{}) int { no(); return 0 }

// Int is the value of a signed number.
func Int(v interface{}) int64 { no(); return 0 }

// Uint is the value of an unsigned number.
func Uint(v interface{}) uint64 { no(); return 0 }

// Bool is the value of a bool.
func Bool(v interface{}) bool { no(); return false }

// Str is the value of a string.
func Str(v interface{}) string { no(); return "" }

// Float is the value of a float.
func Float(v interface{}) float64 { no(); return 0 }

// IsNil tells whether a slice or pointer is nil.
func IsNil(v interface{}) bool { no(); return false }

// Len is the length of a slice or the number of fields of a struct.
func Len(v interface{}) int { no(); return 0 }

// At is the i-th element or field.
func At(v interface{}, i int) interface{} { no(); return nil }

// Tag is the json tag of field i, "-" for unexported fields, and its name.
func Tag(v interface{}, i int) (tag, name string) { no(); return "", "" }

// Keys are the keys of a map.
func Keys(v interface{}) []interface{} { no(); return nil }

// Index is the value at a key of a map.
func Index(v, key interface{}) interface{} { no(); return nil }

// Room is a pointer to a new zero value of the element type of the map at p.
func Room(p interface{}) interface{} { no(); return nil }

// Put stores what room points to in the map at p, which it makes if there is none;
// the key, a string or an int64, is converted to the key type; without a key it only makes the map.
func Put(p, key, room interface{}) { no() }

// KeyKind is the kind of the keys of the map at p, and their bits.
func KeyKind(p interface{}) (byte, int) { no(); return 0, 0 }

// Elem is what a pointer points to.
func Elem(p interface{}) interface{} { no(); return nil }

// AtPtr points to the i-th element or field of what p points to.
func AtPtr(p interface{}, i int) interface{} { no(); return nil }

// Alloc makes the pointer p points to point to a new zero value, and returns it.
func Alloc(p interface{}) interface{} { no(); return nil }

// Set functions store through p.
func SetInt(p interface{}, v int64)     { no() }
func SetUint(p interface{}, v uint64)   { no() }
func SetBool(p interface{}, v bool)     { no() }
func SetStr(p interface{}, v string)    { no() }
func SetFloat(p interface{}, v float64) { no() }

// SetNil stores the zero value.
func SetNil(p interface{}) { no() }

// SetLen stores a slice of n zero elements.
func SetLen(p interface{}, n int) { no() }

// HasMethod tells whether the type of v has the method.
func HasMethod(v interface{}, name string) bool { no(); return false }
