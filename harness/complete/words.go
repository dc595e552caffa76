package complete

// usedWords are the identifiers of the generated code; the check replaces this
// file with what the current generator gives.
var usedWords = []string{"Endpoint"}
