package ctx

// lemmaIter is a client iterating all values.
func lemmaIter(c *ctxS) (names, keys []string, vals, values []any, ends bool) {
	c.Reset()
	for c.Next() {
		k, v := c.Entry()
		names = append(names, k)
		vals = append(vals, v)
		keys = append(keys, c.Key())
		values = append(values, c.Value())
	}
	ends = !c.Next()
	return
}

// lemmaWith is a client adding a value.
func lemmaWith(c *ctxS, name string, value Val) {
	c.WithValue(name, value)
}
