// Package anypb stands in for the well-known type package of that name.
package anypb

// Any is never used by the definitions under check.
type Any struct{}
