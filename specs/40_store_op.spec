package store

def defined(op int) := op == OpCreate || op == OpWrite || op == OpRemove || op == OpRename || op == OpChmod || op == OpNone

// a client of MarshalText and UnmarshalText (lemmas/op.go), both inlined
func lemmaOpRoundTrip(op, start) (got, err1, err2)
  requires defined(op)
  modifies alloc
  ensures got == op && err1 == nil && err2 == nil

func lemmaOpText(text, start) (got, err)
  modifies alloc
  ensures rejected: err != nil ==> got == start
  ensures accepted: err == nil ==> defined(got)

property R16: lemmaOpRoundTrip, lemmaOpText
