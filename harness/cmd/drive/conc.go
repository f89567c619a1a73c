package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"sync"

	. "aa/core"
)

func init() { gens["C24"] = genConc }

// prepared is a call whose arguments all callers share.
type prepared struct {
	op     string
	in     M
	slices map[string][]byte
}

func prepare(op string, in M) prepared {
	p := prepared{op, in, map[string][]byte{}}
	for _, a := range Slices(in) {
		if a.B != nil {
			// room behind the argument, shared as well
			p.slices[a.K] = append(make([]byte, 0, len(a.B)+150), a.B...)
		}
	}
	return p
}

// concurrently lets n callers make the calls, caller i in the order order(i).
func concurrently(r *Rec, n int, calls []prepared, order func(i int) []int) {
	var wg sync.WaitGroup
	start := make(chan bool)
	rs := make([]*Rec, n)
	for i := range rs {
		rs[i] = r.Fork()
		wg.Add(1)
		go func(q *Rec, o []int) {
			defer wg.Done()
			<-start
			for _, j := range o {
				c := calls[j]
				out := q.Bare(c.op, c.in, c.slices)
				q.Write(merge(M{"op": c.op, "mod": "", "alias": ""}, c.in, out))
			}
		}(rs[i], order(i))
	}
	close(start)
	wg.Wait()
	for _, q := range rs {
		r.Join(q)
	}
}

func merge(ms ...M) M {
	r := M{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

// program runs the calls of a file, in a process that has made none before.
func program(r *Rec, path string, callers int) {
	var calls []prepared
	readCalls(path, func(op string, in M) { calls = append(calls, prepare(op, in)) })
	concurrently(r, callers, calls, func(i int) (o []int) {
		for j := range calls {
			o = append(o, (i+j)%len(calls))
		}
		return
	})
}

func genConc(r *Rec) {
	g := newGoods(r)
	f, err := os.Open(os.Getenv("SCENARIOS"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	type prog struct{ Calls []memStep }
	var progs []prog
	sc := bufio.NewScanner(f)
	single := map[string]memStep{}
	for sc.Scan() {
		var str string
		var p prog
		if json.Unmarshal(sc.Bytes(), &str) != nil || json.Unmarshal([]byte(str), &p) != nil {
			panic(sc.Text())
		}
		if len(p.Calls) == 1 {
			single[p.Calls[0].Op+" "+p.Calls[0].Alg] = p.Calls[0]
		}
		progs = append(progs, p)
	}
	var names []string
	for k := range single {
		names = append(names, k)
	}
	sort.Strings(names)
	// the arguments are made by a process of its own, and kept in a file
	note := map[string]M{}
	line := func(s memStep) []byte {
		in, n := g.build(shapeCall{s.Op, s.Alg, nil})
		note[s.Op+" "+s.Alg] = n
		b, _ := json.Marshal(Encoded(merge(M{"op": s.Op}, in)))
		return append(b, '\n')
	}
	lines := map[string][]byte{}
	for _, k := range names {
		lines[k] = line(single[k])
	}
	seen := map[string]bool{}
	collect := func(path string) {
		f, err := os.Open(path)
		if err != nil {
			return
		}
		defer os.Remove(path)
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			if !seen[sc.Text()] {
				seen[sc.Text()] = true
				var m M
				if json.Unmarshal(sc.Bytes(), &m) == nil {
					alg, _ := m["alg"].(string)
					if alg == "" {
						alg, _ = m["name"].(string)
					}
					for k, v := range note[fmt.Sprint(m["op"], " ", alg)] {
						m[k] = v
					}
					r.Write(m)
				}
			}
		}
	}
	tmp := fmt.Sprintf("%s/conc-%d", os.TempDir(), os.Getpid())
	os.MkdirAll(tmp, 0755)
	defer os.RemoveAll(tmp)
	run := func(in []byte, callers int) {
		if os.WriteFile(tmp+"/in", in, 0644) != nil {
			panic(tmp)
		}
		c := exec.Command(os.Args[0], "-exec", tmp+"/in", "-callers", fmt.Sprint(callers), "-out", tmp+"/out", "-seed", "1")
		b, err := c.CombinedOutput()
		if err != nil && c.ProcessState.ExitCode() != 66 {
			r.Write(M{"op": "Process", "st": "CRASH", "text": string(b), "calls": string(in)})
		}
		n := 0
		fmt.Sscanf(string(b), "calls %d", &n)
		r.N += n
		collect(tmp + "/out")
	}
	for i, p := range progs {
		if r.Skip(i) || len(p.Calls) == 2 && !r.Thorough() && (i/r.Parts+int(r.Seed))%4 != 0 {
			continue
		}
		var in []byte
		for _, c := range p.Calls {
			in = append(in, lines[c.Op+" "+c.Alg]...)
		}
		run(in, 4)
	}
	// everything at once, each caller in another order
	var in []byte
	perm := r.Rng.Perm(len(names))
	for _, j := range perm {
		in = append(in, lines[names[j]]...)
	}
	for i := 0; i < r.Scale(1, 10); i++ {
		run(in, 12)
	}
}

func init() { gens["C24streams"] = genConcStreams }

// genConcStreams gives every caller hash objects of its own, among them clones
// of one object.
func genConcStreams(r *Rec) {
	hs, xs := streamKinds(r)
	kinds := append(hs, xs...)
	run := func(h *history, o int, seed int) {
		k := h.kinds[o-1]
		sizes := []string{"1", "B-1", "B", "B+1", "R", "P", "2B", "0"}
		for i := 0; i < 4; i++ {
			c := sizes[h.r.Rng.Intn(len(sizes))]
			ev := scenEv{"Write", c}
			switch n := (seed + i) % 4; {
			case k.rec["alg"] == "SHAKE" && i == 3:
				ev.Op = "Read"
			case k.rec["alg"] != "SHAKE" && n == 1:
				ev.Op = "Sum"
			case n == 2 && i > 1:
				ev.Op, ev.C = "Reset", ""
			}
			h.event(o, ev)
		}
		if k.rec["alg"] == "SHAKE" {
			h.read(o, 200)
		} else {
			h.sum(o, nil)
		}
		h.end()
	}
	n := 8
	for round := 0; round < r.Scale(2, 20); round++ {
		clones := make([]*history, n)
		src := &history{r: r}
		o := src.create(xs[round%len(xs)])
		src.write(o, r.Bytes(150+r.Rng.Intn(100)))
		for i := range clones {
			h := &history{kinds: append([]streamKind{}, src.kinds[:1]...), objs: append([]interface{}{}, src.objs[:1]...), ev: append([]M{}, src.ev[:2]...)}
			h.r = r
			h.clone(1)
			clones[i] = h
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		rs := make([]*Rec, n)
		for i := range rs {
			rs[i] = r.Fork()
			wg.Add(1)
			go func(q *Rec, i int) {
				defer wg.Done()
				<-start
				clones[i].r = q
				run(clones[i], 2, i)
				for j := range kinds {
					h := &history{r: q}
					h.create(kinds[(j+i*(round%2))%len(kinds)])
					run(h, 1, j)
				}
			}(rs[i], i)
		}
		close(start)
		wg.Wait()
		for _, q := range rs {
			r.Join(q)
		}
	}
}

func init() { gens["C24parts"] = genConcParts }

// genConcParts gives callers of the functions of the packages below the root
// the same arguments: each gets the answer that a caller alone gets.
func genConcParts(r *Rec) {
	g := newGoods(r)
	type job struct {
		s    memStep
		h    *heap
		in   M
		ss   map[string][]byte
		ev   M
		outs []M
	}
	for round := 0; round < r.Scale(1, 8); round++ {
		var jobs []*job
		f, err := os.Open(os.Getenv("SCENARIOS"))
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var str string
			var p struct{ Calls []memStep }
			if json.Unmarshal(sc.Bytes(), &str) != nil || json.Unmarshal([]byte(str), &p) != nil {
				panic(sc.Text())
			}
			s := p.Calls[0]
			j := &job{s: s, h: &heap{r: r}, in: g.make(s.Op, s.Alg)}
			layout := "spare"
			if round%2 == 1 {
				layout = "packed"
			}
			j.ss, j.ev = j.h.prepare(s.Op, j.in, layout)
			jobs = append(jobs, j)
		}
		f.Close()
		callers := 6
		for _, j := range jobs {
			j.outs = make([]M, callers)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		rs := make([]*Rec, callers)
		for i := range rs {
			rs[i] = r.Fork()
			wg.Add(1)
			go func(q *Rec, i int) {
				defer wg.Done()
				<-start
				for k := range jobs { // two callers in each order
					j := jobs[(k+(i/2)*len(jobs)/3)%len(jobs)]
					j.outs[i] = q.Bare(j.s.Op, j.in, j.ss)
				}
			}(rs[i], i)
		}
		close(start)
		wg.Wait()
		for _, q := range rs {
			r.Join(q)
		}
		for _, j := range jobs {
			for _, o := range j.outs {
				j.h.note(j.ev, o)
			}
			j.h.note(j.ev, r.Bare(j.s.Op, j.in, j.ss))
			j.h.end()
		}
	}
}
