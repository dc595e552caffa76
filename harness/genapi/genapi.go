// Package genapi runs the code generated for pb/api.proto.
package genapi

// Entries lists the harness entry points.
var Entries = map[string]func(){
	"IntValues": IntValues, "IntRange": IntRange, "IntSyntax": IntSyntax, "IntList": IntList, "Lists": Lists,
	"Absent": Absent, "Bools": Bools, "Strings": Strings, "Floats": Floats, "Oneof": Oneof, "Routes": Routes,
	"ClientInts": ClientInts, "ClientFlags": ClientFlags, "ClientFloats": ClientFloats, "ClientStrings": ClientStrings,
	"ClientAlt": ClientAlt, "ClientBody": ClientBody, "ClientBindings": ClientBindings, "ClientHost": ClientHost, "ClientNext": ClientNext, "Beside": Beside, "AltJSON": AltJSON, "DeepJSON": DeepJSON, "ClientDeep": ClientDeep,
	"OptValues": OptValues, "OddValues": OddValues, "ClientOpt": ClientOpt, "ClientOdd": ClientOdd,
	"PassThrough": PassThrough, "WrapSubsets": WrapSubsets, "WrapNames": WrapNames, "WrapTwice": WrapTwice,
	"Errors": Errors, "Statuses": Statuses, "Successes": Successes, "Headers": Headers, "Sent": Sent,
	"GRPC": GRPC, "GRPCMetadata": GRPCMetadata, "NATS": NATS, "NATSServe": NATSServe,
}
