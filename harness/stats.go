package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"sync"
)

// Stats is what one test process covered; the runner merges the shards.
type Stats struct {
	mu       sync.Mutex
	Evals    int64
	Classes  map[string]int64
	Samples  []string
	Exhausts map[string]int64
	nt       map[uint64]struct{}
}

var S = &Stats{Classes: map[string]int64{}, Exhausts: map[string]int64{}, nt: map[uint64]struct{}{}}

// Case records one generated case. A non-trivial case has a key that
// identifies it (equal keys are the same case).
func (s *Stats) Case(nontrivial bool, key func() string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evals++
	if !nontrivial {
		return
	}
	k := key()
	h := fnv.New64a()
	h.Write([]byte(k))
	x := h.Sum64()
	if _, ok := s.nt[x]; ok {
		return
	}
	s.nt[x] = struct{}{}
	// keep a spread of samples: the 3rd, 30th, 300th, ... distinct case
	switch len(s.nt) {
	case 3, 30, 300, 1000, 3000:
		if len(k) > 700 {
			k = k[:700] + "...(truncated)"
		}
		s.Samples = append(s.Samples, k)
	}
}

// Class counts a class of cases (the distribution report).
func (s *Stats) Class(name string) {
	s.mu.Lock()
	s.Classes[name]++
	s.mu.Unlock()
}

func (s *Stats) ClassIf(c bool, name string) {
	if c {
		s.Class(name)
	}
}

// Exhaust counts members of a finite space enumerated completely (over all shards).
func (s *Stats) Exhaust(name string, n int64) {
	s.mu.Lock()
	s.Exhausts[name] += n
	s.Evals += n
	s.mu.Unlock()
}

// Write stores the statistics for the runner.
func (s *Stats) Write(path string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, err := json.Marshal(map[string]interface{}{
		"evaluations": s.Evals, "distinct": len(s.nt), "classes": s.Classes,
		"samples": s.Samples, "exhaustive": s.Exhausts,
	})
	if err != nil {
		return err
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return err
	}
	hs := make([]uint64, 0, len(s.nt))
	for h := range s.nt {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	out := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(out[8*i:], h)
	}
	return os.WriteFile(path+".nt", out, 0o644)
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
