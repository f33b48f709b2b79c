package flags

// lemmaIter is a client iterating a provider from its start.
func lemmaIter(p *pvdr) (keys []string, vals, musts []any, all bool, count int, again bool) {
	all = true
	for {
		k, eol := p.Next()
		if eol {
			break
		}
		v, ok := p.Value(k)
		if !ok || !p.Has(k) {
			all = false
		}
		keys = append(keys, k)
		vals = append(vals, v)
		musts = append(musts, p.MustValue(k))
	}
	count = p.Count()
	_, eol := p.Next()
	again = !eol
	return
}

// lemmaLookup is a client looking up a key.
func lemmaLookup(p *pvdr, key string) (has, ok bool, val, must any) {
	has = p.Has(key)
	val, ok = p.Value(key)
	must = p.MustValue(key)
	return
}

// lemmaNew is a client making a provider.
func lemmaNew(opts ...Opt) *pvdr { return New(opts...) }
