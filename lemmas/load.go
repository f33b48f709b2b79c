package store

// Client lemma functions: what a caller sees of the loading state.

func lemmaWithin(s *storeS) (in, after bool) {
	s.WithinLoading(func() { in = s.inLoading() })
	return in, s.inLoading()
}

func lemmaWithinSet(s *storeS, k string, v any) (after bool) {
	s.WithinLoading(func() { s.Set(k, v) })
	return s.inLoading()
}
