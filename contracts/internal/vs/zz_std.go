package vs

// Contracts assumed of the standard library, shared by all proofs.

//gover:stub errors.New
func stub_errorsNew(text string) error {
	e := Any[error]("errors.New")
	Assume(e != nil)
	return e
}

//gover:stub fmt.Errorf
func stub_fmtErrorf(format string, a ...any) error {
	e := Any[error]("fmt.Errorf")
	Assume(e != nil)
	return e
}
