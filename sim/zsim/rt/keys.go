package rt

import (
	"fmt"
	"sort"
)

func sortKeys[K comparable](ks []K) {
	names := make([]string, len(ks))
	for i, k := range ks {
		names[i] = fmt.Sprintf("%v", k)
	}
	sort.Sort(&keySorter[K]{ks, names})
}

type keySorter[K comparable] struct {
	ks    []K
	names []string
}

func (s *keySorter[K]) Len() int           { return len(s.ks) }
func (s *keySorter[K]) Less(i, j int) bool { return s.names[i] < s.names[j] }
func (s *keySorter[K]) Swap(i, j int) {
	s.ks[i], s.ks[j] = s.ks[j], s.ks[i]
	s.names[i], s.names[j] = s.names[j], s.names[i]
}
