// Package structpb stands in for the well-known type package of that name.
package structpb

// Struct is never used by the definitions under check.
type Struct struct{}
