package radix

// The clone of a tree, seen as a tree of its own.
func lemmaDup(s *trieS[any]) (t *trieS[any]) {
	return s.Dup()
}

// Writing, removing and annotating in the clone.
func lemmaCloneSet(s *trieS[any], path string, data any) (t *trieS[any]) {
	t = lemmaDup(s)
	t.Set(path, data)
	return
}

func lemmaCloneRemove(s *trieS[any], path string) (t *trieS[any]) {
	t = lemmaDup(s)
	t.Remove(path)
	return
}

func lemmaCloneNote(s *trieS[any], path, desc, comment string, tag any) (t *trieS[any]) {
	t = lemmaDup(s)
	t.SetComment(path, desc, comment)
	t.SetTag(path, tag)
	return
}

// Writing, removing and annotating in the origin.
func lemmaOriginSet(s *trieS[any], path string, data any) (t *trieS[any]) {
	t = s.Dup()
	s.Set(path, data)
	return
}

func lemmaOriginRemove(s *trieS[any], path string) (t *trieS[any]) {
	t = s.Dup()
	s.Remove(path)
	return
}

func lemmaOriginNote(s *trieS[any], path, desc, comment string, tag any) (t *trieS[any]) {
	t = s.Dup()
	s.SetComment(path, desc, comment)
	s.SetTag(path, tag)
	return
}
