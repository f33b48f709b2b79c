package radix

// nodesBeneath stands for the nodes a walk from n visits, in its order. Its
// contract (specs/18) is what (*nodeS).walk is proved to do.
func nodesBeneath[T any](n *nodeS[T]) []*nodeS[T] { return nil }

// modelWalk calls cb for these nodes, one after the other.
func modelWalk[T any](n *nodeS[T], cb func(path, fragment string, node Node[T])) {
	for _, x := range nodesBeneath(n) {
		cb(x.pathS, string(x.path), x)
	}
}
