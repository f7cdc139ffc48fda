package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"sync"

	"verifharness/cat"
	"verifharness/vm"
)

var c35 = vm.Spec{
	Run: runC35,
	Rule: "A case is one compilation of one gadget (distinct by gadget, constraint form and the context it was compiled in: repetition, order, " +
		"goroutine or process), whose serialized constraint system must equal the first one, or one witness (distinct by gadget and values), for which " +
		"the constraints compiled beforehand must accept, refuse and yield what direct evaluation does.",
}

type build struct {
	gadget int
	plonk  bool
}

func (b build) form() string {
	if b.plonk {
		return "plonk"
	}
	return "r1cs"
}

func compileOne(gs []*cat.Gadget, b build) (*vm.Compiled, string) {
	g := gs[b.gadget]
	c, err := vm.Compile(g.Field, g.NIn(), b.plonk, g.Fn)
	if err != nil {
		return nil, fmt.Sprintf("error: %.300s", err)
	}
	return c, digest(c)
}

func builds(gs []*cat.Gadget, max int) (o []build) {
	for i, g := range gs {
		if g.Weight > max {
			continue
		}
		o = append(o, build{i, false})
		if g.Weight < 2 {
			o = append(o, build{i, true})
		}
	}
	return
}

// digestChild compiles everything in the order that the environment asks for and prints the digests.
func digestChild() {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_DIGESTS"), 10, 64)
	max, _ := strconv.Atoi(os.Getenv("VERIF_WEIGHT"))
	gs := cat.All()
	bs := builds(gs, max)
	rand.New(rand.NewSource(seed)).Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	out := map[string]string{}
	for _, b := range bs {
		var d string
		if m := vm.Try(func() { _, d = compileOne(gs, b) }); m != "" {
			d = m
		}
		out[fmt.Sprintf("%d/%s", b.gadget, b.form())] = d
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}

func runC35(r *vm.R) {
	gs := cat.All()
	bs := builds(gs, r.N(2, 3))
	first := map[build]string{}
	compiled := map[build]*vm.Compiled{}
	var mu sync.Mutex
	check := func(b build, context, d string) {
		mu.Lock()
		want := first[b]
		mu.Unlock()
		k := key(gs[b.gadget])
		r.Eval("digest/"+context, fmt.Sprint(k, b.gadget, b.form(), context))
		r.Expect(d == want, k+"/digest", map[string]any{"gadget": k, "form": b.form(), "context": context},
			"compiled %s, the %s constraints have digest %s, first %s", context, b.form(), d, want)
	}
	// Child processes with other orders, in the background.
	max := r.N(1, 2)
	var children sync.WaitGroup
	results := make([]map[string]string, r.N(2, 4))
	errs := make([]error, len(results))
	for i := range results {
		i := i
		children.Add(1)
		go func() {
			defer children.Done()
			c := exec.Command(os.Args[0])
			c.Env = append(os.Environ(), fmt.Sprintf("VERIF_DIGESTS=%d", 7+i), fmt.Sprintf("VERIF_WEIGHT=%d", max), fmt.Sprintf("GOMAXPROCS=%d", 1+i*3))
			b, err := c.Output()
			if err == nil {
				// gnark may log before; the digests are the last line.
				for j := len(b) - 2; j >= 0; j-- {
					if j == 0 || b[j-1] == '\n' {
						err = json.Unmarshal(b[j:], &results[i])
						break
					}
				}
			}
			errs[i] = err
		}()
	}
	// The reference: one after the other, each gadget in a catalogue of its own.
	for _, b := range bs {
		c, d := compileOne(cat.All(), b)
		if c == nil {
			r.Violate(key(gs[b.gadget])+"/compile", b.form(), "%s", d)
			continue
		}
		first[b] = d
		compiled[b] = c
		r.Count("constraints", int64(c.CS.GetNbConstraints()))
	}
	var ok []build
	for _, b := range bs {
		if compiled[b] != nil {
			ok = append(ok, b)
		}
	}
	light := func(w int) (o []build) {
		for _, b := range ok {
			if gs[b.gadget].Weight <= w {
				o = append(o, b)
			}
		}
		return
	}
	// Witnesses: what was compiled without them against the direct evaluation of the gadget.
	var ws []build
	for _, b := range ok {
		n := []int{r.N(6, 60), r.N(2, 12), r.N(1, 3), 1}[gs[b.gadget].Weight]
		if b.plonk {
			n = (n + 2) / 3
		}
		for i := 0; i < n; i++ {
			ws = append(ws, b)
		}
	}
	sort.SliceStable(ws, func(i, j int) bool { return gs[ws[i].gadget].Weight > gs[ws[j].gadget].Weight })
	vm.Par(len(ws), 0, func(i int) {
		b := ws[i]
		g := gs[b.gadget]
		k := key(g)
		rng := r.Rand(fmt.Sprint("witness", i))
		bad := g.Bad != nil && rng.Intn(3) == 0
		in := g.Gen(rng)
		if bad {
			in = g.Bad(rng)
		}
		input := map[string]any{"gadget": k, "form": b.form(), "input": vm.Str(in)}
		r.Case(k+"/witness", input, func() {
			out, err := compiled[b].Solve(vm.V(in), withHints())
			want, err2 := vm.Run(g.Field, vm.V(in), g.Fn)
			r.Eval("witness/"+b.form(), fmt.Sprint(k, vm.Str(in)))
			if (err == nil) != (err2 == nil) {
				r.Violate(k+"/witness", input, "constraints: %v; direct evaluation: %v", err, err2)
				return
			}
			if err != nil {
				r.Count("both_refuse", 1)
				return
			}
			r.Count("both_accept", 1)
			r.Expect(same(g.Meaning(out), g.Meaning(want)), k+"/witness", input, "the constraints yield %.300s, direct evaluation %.300s",
				vm.Str(g.Meaning(out)), vm.Str(g.Meaning(want)))
		})
	})
	// Again after all that, from the same gadget values, in another order.
	for round := 0; round < r.N(1, 3); round++ {
		l := light(1 + round)
		r.Rand(fmt.Sprint("order", round)).Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for _, b := range l {
			_, d := compileOne(gs, b)
			check(b, "again in another order", d)
		}
	}
	// Concurrently, neighbours being the same gadget.
	l := light(r.N(0, 2))
	vm.Par(3*len(l), 0, func(i int) {
		b := l[i/3]
		src := gs
		if i%3 == 0 {
			src = cat.All()
		}
		_, d := compileOne(src, b)
		check(b, "concurrently", d)
	})
	children.Wait()
	for i := range results {
		if errs[i] != nil {
			r.Violate("child", errs[i].Error(), "a process that only compiles the gadgets fails: %v", errs[i])
			continue
		}
		for _, b := range light(max) {
			check(b, "in another process", results[i][fmt.Sprintf("%d/%s", b.gadget, b.form())])
		}
	}
}
