// Package emptypb stands in for the well-known type package of that name.
package emptypb

// Empty is never used by the definitions under check.
type Empty struct{}
