// Fault-injecting monitor of the persistence helpers (C30).
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test/unsafekzg"
)

func main() {
	vm.Main(map[string]vm.Spec{"C30": {Run: c30, Level: "fault_enumeration",
		Rule:        "every helper x {round trip into a new file, over a longer and a shorter one, repeated} x {missing directory, directory as file, full device, write failing after k bytes for a ladder of k, missing file, file truncated at a ladder of lengths}; descriptors counted with the collector off; read objects used to prove and verify",
		Assumptions: []string{"only truncation is detectable for formats without a checksum; contents of public-input and raw files carry no length"}}})
}

type cubic struct {
	X, Y   frontend.Variable `gnark:",public"`
	W      frontend.Variable
	N      int  `gnark:"-"`
	Commit bool `gnark:"-"`
}

func (c *cubic) Define(api frontend.API) error {
	x := c.W
	for i := 0; i < c.N; i++ {
		x = api.Add(api.Mul(x, x), i)
	}
	api.AssertIsEqual(c.Y, api.Mul(c.X, x))
	if c.Commit {
		cm, err := api.(frontend.Committer).Commit(c.X, c.W)
		if err != nil {
			return err
		}
		api.AssertIsDifferent(cm, 0)
	}
	return nil
}

func (c *cubic) assign(curve ecc.ID, seed int64) *cubic {
	m := curve.ScalarField()
	x, w := big.NewInt(seed*7+3), big.NewInt(seed*11+5)
	t := new(big.Int).Set(w)
	for i := 0; i < c.N; i++ {
		t.Mul(t, t).Add(t, big.NewInt(int64(i))).Mod(t, m)
	}
	t.Mul(t, x).Mod(t, m)
	return &cubic{X: x, Y: t, W: w, N: c.N, Commit: c.Commit}
}

// item is one helper pair on one object.
type item struct {
	name  string
	write func(path string) error
	read  func(path string) (any, error)
	same  func(got any) error
	// framed: truncation is detectable
	framed bool
}

type writerTo interface {
	WriteTo(io.Writer) (int64, error)
}

func enc(x any) ([]byte, error) {
	var b bytes.Buffer
	_, err := x.(writerTo).WriteTo(&b)
	return b.Bytes(), err
}

func sameEnc(want any) func(any) error {
	w, err := enc(want)
	if err != nil {
		panic(err)
	}
	return func(got any) error {
		g, err := enc(got)
		if err != nil {
			return err
		}
		if !bytes.Equal(g, w) {
			return fmt.Errorf("read object encodes to %d bytes (%x), written one to %d (%x)", len(g), sha256.Sum256(g), len(w), sha256.Sum256(w))
		}
		return nil
	}
}

func both(a, b func(any) error) func(any) error {
	return func(x any) error {
		if err := a(x); err != nil {
			return err
		}
		return b(x)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func items(r *vm.R, curve ecc.ID, n int, commit, variant bool) (out []item) {
	c := &cubic{N: n, Commit: commit}
	add := func(i item) {
		i.name = fmt.Sprintf("%s/%s/n%d/commit=%v", i.name, curve, n, commit)
		out = append(out, i)
	}
	full, err := frontend.NewWitness(c.assign(curve, 1), curve.ScalarField())
	must(err)
	pub, err := full.Public()
	must(err)
	sol := curve == ecc.BN254

	// Groth16
	cs, err := frontend.Compile(curve.ScalarField(), r1cs.NewBuilder, c)
	must(err)
	pk, vk, err := groth16.Setup(cs)
	must(err)
	proof, err := groth16.Prove(cs, pk, full)
	must(err)
	must(groth16.Verify(proof, vk, pub))
	add(item{"groth16-pk", func(p string) error { return utils.WriteProvingKey(p, pk) },
		func(p string) (any, error) {
			k := groth16.NewProvingKey(curve)
			return k, utils.ReadProvingKey(p, k)
		}, both(sameEnc(pk), func(x any) error {
			q, err := groth16.Prove(cs, x.(groth16.ProvingKey), full)
			if err != nil {
				return err
			}
			return groth16.Verify(q, vk, pub)
		}), true})
	add(item{"groth16-vk", func(p string) error { return utils.WriteVerifyingKey(p, vk) },
		func(p string) (any, error) {
			k := groth16.NewVerifyingKey(curve)
			return k, utils.ReadVerifyingKey(p, k)
		}, both(sameEnc(vk), func(x any) error { return groth16.Verify(proof, x.(groth16.VerifyingKey), pub) }), true})
	add(item{"groth16-proof", func(p string) error { return utils.WriteProofIntoLocalFile(p, proof) },
		func(p string) (any, error) {
			k := groth16.NewProof(curve)
			return k, utils.ReadProofFromLocalFile(p, k)
		}, both(sameEnc(proof), func(x any) error { return groth16.Verify(x.(groth16.Proof), vk, pub) }), true})
	add(item{"r1cs", func(p string) error { return utils.WriteCcs(p, cs) },
		func(p string) (any, error) {
			k := groth16.NewCS(curve)
			return k, utils.ReadCcs(p, k)
		}, both(sameEnc(cs), func(x any) error {
			q, err := groth16.Prove(x.(constraint.ConstraintSystem), pk, full)
			if err != nil {
				return err
			}
			return groth16.Verify(q, vk, pub)
		}), true})
	if sol {
		var b bytes.Buffer
		must(vk.ExportSolidity(&b))
		add(item{"groth16-solidity", func(p string) error { return utils.WriteVKSolidity(p, vk) },
			func(p string) (any, error) { return utils.ReadFileAndReturnByteArray(p) }, sameBytes(b.Bytes()), false})
	}

	// PLONK
	ps, err := frontend.Compile(curve.ScalarField(), scs.NewBuilder, c)
	must(err)
	srs, lag, err := unsafekzg.NewSRS(ps)
	must(err)
	ppk, pvk, err := plonk.Setup(ps, srs, lag)
	must(err)
	pproof, err := plonk.Prove(ps, ppk, full)
	must(err)
	must(plonk.Verify(pproof, pvk, pub))
	add(item{"plonk-pk", func(p string) error { return utils.WritePlonkProvingKey(p, ppk) },
		func(p string) (any, error) {
			k := plonk.NewProvingKey(curve)
			return k, utils.ReadPlonkProvingKey(p, k)
		}, both(sameEnc(ppk), func(x any) error {
			q, err := plonk.Prove(ps, x.(plonk.ProvingKey), full)
			if err != nil {
				return err
			}
			return plonk.Verify(q, pvk, pub)
		}), true})
	add(item{"plonk-vk", func(p string) error { return utils.WritePlonkVerifyingKey(p, pvk) },
		func(p string) (any, error) {
			k := plonk.NewVerifyingKey(curve)
			return k, utils.ReadPlonkVerifyingKey(p, k)
		}, both(sameEnc(pvk), func(x any) error { return plonk.Verify(pproof, x.(plonk.VerifyingKey), pub) }), true})
	add(item{"plonk-proof", func(p string) error { return utils.WritePlonkProofIntoLocalFile(pproof, p) },
		func(p string) (any, error) {
			k := plonk.NewProof(curve)
			return k, utils.ReadPlonkProofFromLocalFile(p, k)
		}, both(sameEnc(pproof), func(x any) error { return plonk.Verify(x.(plonk.Proof), pvk, pub) }), true})
	add(item{"scs", func(p string) error { return utils.WritePlonkCcs(p, ps) },
		func(p string) (any, error) {
			k := plonk.NewCS(curve)
			return k, utils.ReadPlonkCcs(p, k)
		}, both(sameEnc(ps), func(x any) error {
			q, err := plonk.Prove(x.(constraint.ConstraintSystem), ppk, full)
			if err != nil {
				return err
			}
			return plonk.Verify(q, pvk, pub)
		}), true})
	if sol {
		var b bytes.Buffer
		must(pvk.ExportSolidity(&b))
		add(item{"plonk-solidity", func(p string) error { return utils.WritePlonkVKSolidity(p, pvk) },
			func(p string) (any, error) { return utils.ReadFileAndReturnByteArray(p) }, sameBytes(b.Bytes()), false})
	}

	// witnesses
	for name, w := range map[string]witness.Witness{"witness": full, "public-witness": pub} {
		name, w := name, w
		add(item{name, func(p string) error { return utils.WriteWitness(p, w) },
			func(p string) (any, error) {
				k, err := witness.New(curve.ScalarField())
				must(err)
				return k, utils.ReadWitness(p, k)
			}, both(sameEnc(w), func(x any) error {
				if name == "witness" {
					q, err := groth16.Prove(cs, pk, x.(witness.Witness))
					if err != nil {
						return err
					}
					return groth16.Verify(q, vk, pub)
				}
				return groth16.Verify(proof, vk, x.(witness.Witness))
			}), true})
	}
	return
}

func sameBytes(want []byte) func(any) error {
	return func(x any) error {
		if g := x.([]byte); !bytes.Equal(g, want) {
			return fmt.Errorf("read %d bytes (%x), want %d (%x)", len(g), sha256.Sum256(g), len(want), sha256.Sum256(want))
		}
		return nil
	}
}

func pubInputs(b []byte, via string) item {
	rd := utils.ReadPublicInputs
	if via == "array" {
		rd = utils.ReadFileAndReturnByteArray
	}
	return item{fmt.Sprintf("public-inputs-%s/%d", via, len(b)), func(p string) error { return utils.WritePublicInputs(p, b) },
		func(p string) (any, error) { return rd(p) }, sameBytes(b), false}
}

// fds lists the open descriptors of the process that name files under dir (or any file at all when dir is "").
func fds(dir string) (out []string) {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(t, dir) || t == "/dev/full") {
			out = append(out, t)
		}
	}
	return
}

func ladder(n int64, steps int) (out []int64) {
	seen := map[int64]bool{}
	add := func(x int64) {
		if x >= 0 && x < n && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range []int64{0, 1, 2, 3, 4, 7, 8, 12, 31, 32, n - 1, n - 2, n - 31, n - 32, n - 33, n / 2} {
		add(x)
	}
	for i := 1; i < steps; i++ {
		add(n * int64(i) / int64(steps))
	}
	return
}

func withFileLimit(n int64, f func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

func c30(r *vm.R) {
	signal.Ignore(syscall.SIGXFSZ)
	dir, err := os.MkdirTemp("", "persist-")
	must(err)
	defer os.RemoveAll(dir)
	debug.SetGCPercent(-1) // finalizers close forgotten files; keep them open so that they are counted
	debug.SetMemoryLimit(6 << 30)

	var its []item
	curves := []ecc.ID{ecc.BN254, ecc.BLS12_377, ecc.BLS12_381, ecc.BW6_761}
	for _, c := range curves {
		its = append(its, items(r, c, 5, false, false)...)
		if c == ecc.BN254 {
			its = append(its, items(r, c, 300, true, false)...)
			if r.Thorough {
				its = append(its, items(r, c, 5000, true, false)...)
			}
		}
	}
	rng := r.Rand("bytes")
	for _, n := range []int{0, 1, 31, 32, 4095, 4096, 4097, 100000, 1<<20 + 7} {
		b := make([]byte, n)
		rng.Read(b)
		its = append(its, pubInputs(b, "plain"), pubInputs(b, "array"))
	}
	junk := make([]byte, 1<<21)
	rng.Read(junk)

	leak := func(key string, in any) {
		if open := fds(dir); len(open) > 0 {
			r.Violate(key+"/descriptor", in, "%d descriptors left open: %v", len(open), open)
			for _, e := range open { // so that one leak is one report
				_ = e
			}
			es, _ := os.ReadDir("/proc/self/fd")
			for _, e := range es {
				if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(t, dir) || t == "/dev/full") {
					var fd int
					fmt.Sscan(e.Name(), &fd)
					_ = syscall.Close(fd)
				}
			}
		}
	}
	// step runs one call under the monitor: no panic, no descriptor left.
	step := func(it item, what string, f func(key string, in any)) {
		kind := strings.SplitN(it.name, "/", 2)[0]
		key := kind + "/" + strings.SplitN(what, "@", 2)[0]
		in := map[string]any{"item": it.name, "step": what}
		r.Case(key, in, func() { f(key, in) })
		leak(key, in)
		r.Eval(key, it.name+what)
	}
	for k, it := range its {
		path := filepath.Join(dir, fmt.Sprintf("f%d", k))
		roundTrip := func(key string, in any) {
			if err := it.write(path); err != nil {
				r.Violate(key, in, "write: %v", err)
				return
			}
			got, err := it.read(path)
			if err != nil {
				r.Violate(key, in, "read: %v", err)
				return
			}
			if err := it.same(got); err != nil {
				r.Violate(key, in, "read back: %v", err)
			}
		}
		step(it, "round-trip", roundTrip)
		if k < 3 {
			r.Sample("item", it.name)
		}
		st, err := os.Stat(path)
		if err != nil {
			r.Violate("file/"+it.name, it.name, "no file was written: %v", err)
			continue
		}
		size := st.Size()
		good, _ := os.ReadFile(path)
		step(it, "over-longer-file", func(key string, in any) {
			must(os.WriteFile(path, append(append([]byte(nil), good...), junk[:1000+len(good)%5000]...), 0o600))
			roundTrip(key, in)
			if s, _ := os.Stat(path); s.Size() != size {
				r.Violate(key, in, "file has %d bytes, a fresh one %d", s.Size(), size)
			}
		})
		step(it, "over-shorter-file", func(key string, in any) {
			must(os.WriteFile(path, junk[:size/2], 0o600))
			roundTrip(key, in)
		})
		step(it, "repeated", func(key string, in any) {
			for i := 0; i < 3; i++ {
				roundTrip(key, in)
			}
		})
		must(os.WriteFile(path, good, 0o600))
		// faults
		missing := filepath.Join(dir, "no", "such", "dir", "f")
		fails := func(what, p string, f func(string) error) {
			step(it, what, func(key string, in any) {
				r.Expect(f(p) != nil, key, in, "no error was reported")
			})
		}
		rd := func(p string) error { _, err := it.read(p); return err }
		fails("write-missing-dir", missing, it.write)
		fails("read-missing-dir", missing, rd)
		fails("read-missing-file", filepath.Join(dir, "absent"), rd)
		fails("write-directory", dir, it.write)
		fails("read-directory", dir, rd)
		if _, err := os.Stat(filepath.Join(dir, "absent")); err == nil {
			r.Violate("read-creates-file", it.name, "reading a missing file created it")
			os.Remove(filepath.Join(dir, "absent"))
		}
		if size > 0 {
			fails("write-full-device", "/dev/full", it.write)
			for _, n := range ladder(size, r.N(40, 300)) {
				step(it, fmt.Sprintf("write-stops@%d", n), func(key string, in any) {
					p := filepath.Join(dir, "partial")
					var err error
					withFileLimit(n, func() { err = it.write(p) })
					r.Expect(err != nil, key, in, "no error was reported although only %d of %d bytes could be written", n, size)
					os.Remove(p)
				})
			}
		}
		if it.framed {
			for _, n := range ladder(size, r.N(60, 500)) {
				step(it, fmt.Sprintf("read-truncated@%d", n), func(key string, in any) {
					p := filepath.Join(dir, "truncated")
					must(os.WriteFile(p, good[:n], 0o600))
					r.Expect(rd(p) != nil, key, in, "no error for the first %d of %d bytes", n, size)
				})
			}
		}
	}
	// the file handle helper
	for i := 0; i < 20; i++ {
		p := filepath.Join(dir, fmt.Sprintf("handle%d", i))
		in := map[string]any{"step": i}
		r.Case("create-or-open", in, func() {
			f, err := utils.CreateOrOpenFile(p)
			if !r.Expect(err == nil, "create-or-open", in, "new file: %v", err) {
				return
			}
			data := junk[i*10 : i*10+i*37]
			_, err = f.Write(data)
			r.Expect(err == nil, "create-or-open", in, "a created file is not writable: %v", err)
			f.Close()
			if st, err := os.Stat(p); err != nil || st.Mode().Perm()&0o600 != 0o600 {
				r.Violate("create-or-open", in, "the created file cannot be read and written by its owner: %v %v", st, err)
			}
			f, err = utils.CreateOrOpenFile(p)
			if !r.Expect(err == nil, "create-or-open", in, "existing file: %v", err) {
				return
			}
			got, err := io.ReadAll(f)
			f.Close()
			r.Expect(err == nil && bytes.Equal(got, data), "create-or-open", in, "opening an existing file gave %d bytes (%v), it has %d", len(got), err, len(data))
			f, err = utils.CreateOrOpenFile(filepath.Join(dir, "none", "x"))
			r.Expect(err != nil && f == nil, "create-or-open", in, "missing directory: %v", err)
			f, err = utils.CreateOrOpenFile(filepath.Join(p, "x"))
			r.Expect(err != nil && f == nil, "create-or-open", in, "file as directory: %v", err)
			r.Eval("create-or-open", fmt.Sprint(i))
		})
		leak("create-or-open", in)
	}
	r.Count("items", int64(len(its)))
}
