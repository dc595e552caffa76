// Package fieldmaskpb stands in for the well-known type package of that name.
package fieldmaskpb

// FieldMask is never used by the definitions under check.
type FieldMask struct{}
