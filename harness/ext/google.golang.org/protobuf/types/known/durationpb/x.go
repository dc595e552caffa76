// Package durationpb stands in for the well-known type package of that name.
package durationpb

// Duration is never used by the definitions under check.
type Duration struct{}
