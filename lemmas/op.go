package store

// lemmaOpRoundTrip: the text of an operation code reads back as that code.
func lemmaOpRoundTrip(op Op, start Op) (got Op, err1, err2 error) {
	a := op
	text, e1 := a.MarshalText()
	got, err1 = start, e1
	err2 = got.UnmarshalText(text)
	return
}

// lemmaOpUnknown: text naming no operation is rejected, the code stays.
func lemmaOpText(text []byte, start Op) (got Op, err error) {
	got = start
	err = got.UnmarshalText(text)
	return
}
