package flags

import "flag"

func someMore() bool       { return false }
func someFlag() *flag.Flag { return nil }

// modelVisitAll: flag.VisitAll calls fn some number of times, with some flag each.
func modelVisitAll(fn func(*flag.Flag)) {
	for someMore() {
		fn(someFlag())
	}
}
