package tagstack

import (
	"sync"

	"github.com/companyzero/zkc/zkv"
)

// ZkvH_Seq: every sequence of pops and pushes of outstanding tags, every depth.
//zkv:prop G01
func ZkvH_Seq() {
	depth := zkv.Choose("depth", 4)
	s := New(depth)
	zkv.Assert(s.Depth() == depth, "Depth reports the configured depth")
	out := make([]bool, 4)
	nout := 0
	steps := zkv.Pick(7, 9)
	for i := 0; i < steps; i++ {
		if zkv.Choose("op", 2) == 0 {
			t, err := s.Pop()
			zkv.Assert((err != nil) == (nout == depth), "Pop fails exactly when every tag is outstanding")
			if err != nil {
				zkv.Reach("underflow")
				continue
			}
			zkv.Assert(int(t) < depth, "tag is below the configured depth")
			zkv.Assert(!out[t], "tag is handed out only once")
			out[t] = true
			nout++
		} else {
			// give an outstanding tag back, or one too many
			v := uint32(0)
			if nout > 0 {
				v = uint32(zkv.Choose("ret", 4))
				zkv.Assume(out[v])
			}
			err := s.Push(v)
			zkv.Assert((err != nil) == (nout == 0), "Push fails exactly when every tag is in")
			if err != nil {
				zkv.Reach("overflow")
				continue
			}
			out[v] = false
			nout--
		}
		zkv.ObsInt("nout", int64(nout))
	}
}

// ZkvH_BlockSeq: the blocking flavour, used within its capacity.
//zkv:prop G01
func ZkvH_BlockSeq() {
	depth := 1 + zkv.Choose("depth", 3)
	s := NewBlocking(depth)
	out := make([]bool, 4)
	nout := 0
	steps := zkv.Pick(7, 9)
	for i := 0; i < steps; i++ {
		if zkv.Choose("op", 2) == 0 {
			if nout == depth {
				continue
			}
			t, err := s.Pop()
			zkv.Assert(err == nil, "Pop succeeds while tags are available")
			zkv.Assert(int(t) < depth, "tag is below the configured depth")
			zkv.Assert(!out[t], "tag is handed out only once")
			out[t] = true
			nout++
		} else {
			if nout == 0 {
				continue
			}
			v := uint32(zkv.Choose("ret", 4))
			zkv.Assume(out[v])
			zkv.Assert(s.Push(v) == nil, "Push of an outstanding tag succeeds")
			out[v] = false
			nout--
		}
		zkv.ObsInt("nout", int64(nout))
	}
}

// ZkvH_Conc: two users pop and push concurrently.
//zkv:prop G01
func ZkvH_Conc() {
	depth := 1 + zkv.Choose("depth", 2)
	blocking := zkv.Bool("blocking")
	var s *TagStack
	if zkv.Fork(blocking) {
		s = NewBlocking(depth)
	} else {
		s = New(depth)
	}
	zkv.Interleave(zkv.Pick(2, 3))
	zkv.MemPreempt()
	var mu sync.Mutex
	out := make([]int, 4)
	var wg sync.WaitGroup
	fails := 0
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < zkv.Pick(1, 2); k++ {
				t, err := s.Pop()
				if err != nil {
					mu.Lock()
					fails++
					mu.Unlock()
					continue
				}
				mu.Lock()
				zkv.Assert(int(t) < depth, "tag is below the configured depth")
				out[t]++
				zkv.Assert(out[t] == 1, "tag is handed out only once")
				mu.Unlock()
				zkv.Gate()
				mu.Lock()
				out[t]--
				mu.Unlock()
				zkv.Assert(s.Push(t) == nil, "Push of an outstanding tag succeeds")
			}
		}()
	}
	wg.Wait()
	if zkv.Fork(blocking) || depth == 2 {
		zkv.Assert(fails == 0, "a tag was available")
	}
	// everything is back
	for i := 0; i < depth; i++ {
		t, err := s.Pop()
		zkv.Assert(err == nil, "all tags are available again")
		zkv.Assert(int(t) < depth && out[t] == 0, "all tags are available again, each once")
		out[t]++
	}
	zkv.Reach("end")
}
