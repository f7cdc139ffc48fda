// Monitor of the contract codec (C31): round trips, alias canaries, malformed data, shared use under the race detector.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"golang.org/x/crypto/sha3"
)

func main() {
	vm.Main(map[string]vm.Spec{"C31": {Run: c31,
		Rule:        "random ABIs (all elementary types, nested arrays, slices and tuples, zero-argument and overloaded-looking methods) with random and boundary arguments: encode, decode, mutate every returned slice, every truncation, random corruption; the same codec shared by 16 goroutines under the race detector",
		Assumptions: []string{"go-ethereum's abi.Type.GetType gives the destination types; encodings are cross-checked with an encoder written for this monitor"}}})
}

// ty is a type of the monitor's own model.
type ty struct {
	kind  string // uint int bool address fixed bytes string slice array tuple
	n     int    // bits, bytes or length
	elem  *ty
	parts []*ty
}

func genTy(rng *rand.Rand, depth int) *ty {
	k := rng.Intn(10)
	if depth == 0 && k > 6 {
		k = rng.Intn(7)
	}
	switch k {
	case 0:
		return &ty{kind: "uint", n: 8 * (1 + rng.Intn(32))}
	case 1:
		return &ty{kind: "int", n: 8 * (1 + rng.Intn(32))}
	case 2:
		return &ty{kind: "bool"}
	case 3:
		return &ty{kind: "address"}
	case 4:
		return &ty{kind: "fixed", n: 1 + rng.Intn(32)}
	case 5:
		return &ty{kind: "bytes"}
	case 6:
		return &ty{kind: "string"}
	case 7:
		return &ty{kind: "slice", elem: genTy(rng, depth-1)}
	case 8:
		return &ty{kind: "array", n: 1 + rng.Intn(4), elem: genTy(rng, depth-1)}
	}
	t := &ty{kind: "tuple"}
	for i := 1 + rng.Intn(3); i > 0; i-- {
		t.parts = append(t.parts, genTy(rng, depth-1))
	}
	return t
}

// sig is the canonical name in the signature; jsn the "type" and "components" of the ABI document.
func (t *ty) sig() string {
	switch t.kind {
	case "uint", "int":
		return fmt.Sprint(t.kind, t.n)
	case "fixed":
		return fmt.Sprint("bytes", t.n)
	case "slice":
		return t.elem.sig() + "[]"
	case "array":
		return fmt.Sprintf("%s[%d]", t.elem.sig(), t.n)
	case "tuple":
		return "(" + sigs(t.parts) + ")"
	}
	return t.kind
}

func sigs(ts []*ty) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.sig())
	}
	return strings.Join(s, ",")
}

func (t *ty) doc(name string) map[string]any {
	m := map[string]any{"name": name}
	base, suffix := t, ""
	for base.kind == "slice" || base.kind == "array" {
		if base.kind == "slice" {
			suffix = "[]" + suffix
		} else {
			suffix = fmt.Sprintf("[%d]", base.n) + suffix
		}
		base = base.elem
	}
	if base.kind == "tuple" {
		m["type"] = "tuple" + suffix
		var c []any
		for i, p := range base.parts {
			c = append(c, p.doc(fmt.Sprintf("f%d", i)))
		}
		m["components"] = c
	} else {
		m["type"] = base.sig() + suffix
	}
	return m
}

func (t *ty) dynamic() bool {
	switch t.kind {
	case "bytes", "string", "slice":
		return true
	case "array":
		return t.elem.dynamic()
	case "tuple":
		for _, p := range t.parts {
			if p.dynamic() {
				return true
			}
		}
	}
	return false
}

func word(x *big.Int) []byte {
	y := new(big.Int).Set(x)
	if y.Sign() < 0 {
		y.Add(y, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return y.FillBytes(make([]byte, 32))
}

func rpad(b []byte) []byte {
	for len(b)%32 != 0 {
		b = append(b, 0)
	}
	return b
}

// encode is the ABI specification, written out for values of the monitor's model (any = *big.Int, bool, []byte, string, []any).
func (t *ty) encode(v any) []byte {
	switch t.kind {
	case "uint", "int":
		return word(v.(*big.Int))
	case "bool":
		if v.(bool) {
			return word(big.NewInt(1))
		}
		return word(new(big.Int))
	case "address":
		return common.LeftPadBytes(v.([]byte), 32)
	case "fixed":
		return common.RightPadBytes(v.([]byte), 32)
	case "bytes":
		b := v.([]byte)
		return append(word(big.NewInt(int64(len(b)))), rpad(append([]byte(nil), b...))...)
	case "string":
		b := []byte(v.(string))
		return append(word(big.NewInt(int64(len(b)))), rpad(b)...)
	case "slice":
		l := v.([]any)
		return append(word(big.NewInt(int64(len(l)))), encodeSeq(rep(t.elem, len(l)), l)...)
	case "array":
		return encodeSeq(rep(t.elem, t.n), v.([]any))
	}
	return encodeSeq(t.parts, v.([]any))
}

func rep(t *ty, n int) (out []*ty) {
	for i := 0; i < n; i++ {
		out = append(out, t)
	}
	return
}

func encodeSeq(ts []*ty, vs []any) []byte {
	head, off := 0, 0
	enc := make([][]byte, len(ts))
	for i, t := range ts {
		enc[i] = t.encode(vs[i])
		if t.dynamic() {
			head += 32
		} else {
			head += len(enc[i])
		}
	}
	var h, tail []byte
	off = head
	for i, t := range ts {
		if t.dynamic() {
			h = append(h, word(big.NewInt(int64(off)))...)
			tail = append(tail, enc[i]...)
			off += len(enc[i])
		} else {
			h = append(h, enc[i]...)
		}
	}
	return append(h, tail...)
}

func (t *ty) gen(rng *rand.Rand) any {
	switch t.kind {
	case "uint", "int":
		n := t.n
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(n))
		if t.kind == "int" {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		switch rng.Intn(4) {
		case 0:
			return lo
		case 1:
			return hi.Sub(hi, big.NewInt(1))
		case 2:
			return big.NewInt(int64(rng.Intn(3)))
		}
		x := new(big.Int).Rand(rng, new(big.Int).Sub(hi, lo))
		return x.Add(x, lo)
	case "bool":
		return rng.Intn(2) == 0
	case "address":
		return rb(rng, 20)
	case "fixed":
		return rb(rng, t.n)
	case "bytes":
		return rb(rng, []int{0, 1, 31, 32, 33, 64, 100}[rng.Intn(7)])
	case "string":
		return fmt.Sprintf("%x", rb(rng, rng.Intn(40)))
	case "slice":
		l := []any{}
		for i := rng.Intn(4); i > 0; i-- {
			l = append(l, t.elem.gen(rng))
		}
		return l
	case "array":
		l := []any{}
		for i := 0; i < t.n; i++ {
			l = append(l, t.elem.gen(rng))
		}
		return l
	}
	l := []any{}
	for _, p := range t.parts {
		l = append(l, p.gen(rng))
	}
	return l
}

func rb(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// fill stores v in dst, a settable value of the type go-ethereum chose.
func (t *ty) fill(dst reflect.Value, v any) {
	switch t.kind {
	case "uint", "int":
		x := v.(*big.Int)
		switch dst.Kind() {
		case reflect.Ptr:
			dst.Set(reflect.ValueOf(new(big.Int).Set(x)))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			dst.SetInt(x.Int64())
		default:
			dst.SetUint(x.Uint64())
		}
	case "bool":
		dst.SetBool(v.(bool))
	case "address", "fixed":
		reflect.Copy(dst, reflect.ValueOf(v.([]byte)))
	case "bytes":
		dst.SetBytes(append([]byte{}, v.([]byte)...))
	case "string":
		dst.SetString(v.(string))
	case "slice":
		l := v.([]any)
		dst.Set(reflect.MakeSlice(dst.Type(), len(l), len(l)))
		for i := range l {
			t.elem.fill(dst.Index(i), l[i])
		}
	case "array":
		for i, e := range v.([]any) {
			t.elem.fill(dst.Index(i), e)
		}
	case "tuple":
		for i, e := range v.([]any) {
			t.parts[i].fill(dst.Field(i), e)
		}
	}
}

// read turns a decoded Go value back into the monitor's model.
func (t *ty) read(src reflect.Value) any {
	switch t.kind {
	case "uint", "int":
		switch src.Kind() {
		case reflect.Ptr:
			return new(big.Int).Set(src.Interface().(*big.Int))
		case reflect.Struct:
			x := src.Interface().(big.Int)
			return new(big.Int).Set(&x)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return big.NewInt(src.Int())
		}
		return new(big.Int).SetUint64(src.Uint())
	case "bool":
		return src.Bool()
	case "address", "fixed":
		b := make([]byte, src.Len())
		reflect.Copy(reflect.ValueOf(b), src)
		return b
	case "bytes":
		return append([]byte{}, src.Bytes()...)
	case "string":
		return src.String()
	case "slice", "array":
		l := []any{}
		for i := 0; i < src.Len(); i++ {
			l = append(l, t.elem.read(src.Index(i)))
		}
		return l
	}
	l := []any{}
	for i, p := range t.parts {
		l = append(l, p.read(src.Field(i)))
	}
	return l
}

// scribble overwrites everything a decoded value refers to.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if x, ok := v.Interface().(*big.Int); ok && x != nil {
			for i, w := 0, x.Bits(); i < len(w); i++ {
				w[i] ^= 0x5555
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Struct:
		if x, ok := v.Interface().(big.Int); ok {
			for i, w := 0, x.Bits(); i < len(w); i++ {
				w[i] ^= 0x5555
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0xff)
		}
	}
}

type method struct {
	name    string
	in, out []*ty
}

type world struct {
	doc   string
	ms    []method
	codec *utils.ContractCodec
	ref   abi.ABI
}

func newWorld(rng *rand.Rand) *world {
	w := &world{}
	var doc []any
	for i := 1 + rng.Intn(4); i > 0; i-- {
		m := method{name: fmt.Sprintf("m%d%s", i, []string{"", "Get", "_x"}[rng.Intn(3)])}
		var di, do []any = []any{}, []any{}
		for j := rng.Intn(4); j > 0; j-- {
			t := genTy(rng, 2)
			m.in, di = append(m.in, t), append(di, t.doc(fmt.Sprintf("a%d", j)))
		}
		for j := rng.Intn(4); j > 0; j-- {
			t := genTy(rng, 2)
			m.out, do = append(m.out, t), append(do, t.doc(fmt.Sprintf("r%d", j)))
		}
		w.ms = append(w.ms, m)
		doc = append(doc, map[string]any{"type": "function", "name": m.name, "stateMutability": "view", "inputs": di, "outputs": do})
	}
	doc = append(doc, map[string]any{"type": "event", "name": "E", "inputs": []any{}, "anonymous": false})
	b, _ := json.Marshal(doc)
	w.doc = string(b)
	w.codec = utils.NewContractCodec(w.doc)
	var err error
	if w.ref, err = abi.JSON(strings.NewReader(w.doc)); err != nil {
		panic(err)
	}
	return w
}

func selector(m method) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write([]byte(m.name + "(" + sigs(m.in) + ")"))
	return h.Sum(nil)[:4]
}

func gens(rng *rand.Rand, ts []*ty) (out []any) {
	for _, t := range ts {
		out = append(out, t.gen(rng))
	}
	return
}

// goArgs builds the arguments; dests the destinations as callers declare them.
func goArgs(ts []*ty, args abi.Arguments, vs []any) (out []interface{}) {
	for i, t := range ts {
		d := reflect.New(args[i].Type.GetType()).Elem()
		t.fill(d, vs[i])
		out = append(out, d.Interface())
	}
	return
}

func dests(args abi.Arguments) (out []interface{}) {
	for _, a := range args {
		t := a.Type.GetType()
		if t.Kind() == reflect.Ptr { // *big.Int is filled in place
			out = append(out, reflect.New(t.Elem()).Interface())
		} else {
			out = append(out, reflect.New(t).Interface())
		}
	}
	return
}

func read(ts []*ty, ds []interface{}) (out []any) {
	for i, t := range ts {
		out = append(out, t.read(reflect.ValueOf(ds[i]).Elem()))
	}
	return
}

func str(v any) string {
	switch x := v.(type) {
	case []any:
		var s []string
		for _, e := range x {
			s = append(s, str(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case []byte:
		return fmt.Sprintf("%x", x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(v)
}

// round is one full encode/decode history of a method; it returns the first discrepancy.
func (w *world) round(m method, rng *rand.Rand, mutate bool) error {
	ref := w.ref.Methods[m.name]
	vi, vo := gens(rng, m.in), gens(rng, m.out)
	ai, ao := goArgs(m.in, ref.Inputs, vi), goArgs(m.out, ref.Outputs, vo)
	wantIn, wantOut := encodeSeq(m.in, vi), encodeSeq(m.out, vo)
	sel := selector(m)
	if s := w.codec.Selector(m.name); !bytes.Equal(s, sel) {
		return fmt.Errorf("Selector %x, want %x", s, sel)
	} else if mutate {
		for i := range s {
			s[i] ^= 0xff
		}
		_ = append(s, 1, 2, 3, 4)
	}
	data, err := w.codec.EncodeCalldata(m.name, ai...)
	if err != nil {
		return fmt.Errorf("EncodeCalldata: %v", err)
	}
	if !bytes.Equal(data, append(append([]byte{}, sel...), wantIn...)) {
		return fmt.Errorf("EncodeCalldata %x, want %x%x", data, sel, wantIn)
	}
	keep := append([]byte(nil), data...)
	if mutate {
		data2, err := w.codec.EncodeCalldata(m.name, ai...)
		if err != nil {
			return err
		}
		for i := range data2 {
			data2[i] ^= 0xff
		}
		if c := data2[:cap(data2)]; len(c) > len(data2) {
			for i := len(data2); i < len(c); i++ {
				c[i] ^= 0xff
			}
		}
		if !bytes.Equal(data, keep) {
			return fmt.Errorf("two encodings share memory")
		}
	}
	ds := dests(ref.Inputs)
	if err := w.codec.DecodeCalldata(m.name, data[4:], ds...); err != nil {
		return fmt.Errorf("DecodeCalldata: %v", err)
	}
	if g := str(read(m.in, ds)); g != str(any(vi)) {
		return fmt.Errorf("DecodeCalldata %s, want %s", g, str(any(vi)))
	}
	if !bytes.Equal(data, keep) {
		return fmt.Errorf("DecodeCalldata changed its data")
	}
	ret, err := w.codec.EncodeReturnData(m.name, ao...)
	if err != nil {
		return fmt.Errorf("EncodeReturnData: %v", err)
	}
	if !bytes.Equal(ret, wantOut) {
		return fmt.Errorf("EncodeReturnData %x, want %x", ret, wantOut)
	}
	do := dests(ref.Outputs)
	if len(m.out) > 0 || len(ret) > 0 {
		if err := w.codec.DecodeReturnData(m.name, ret, do...); err != nil {
			return fmt.Errorf("DecodeReturnData: %v", err)
		}
		if g := str(read(m.out, do)); g != str(any(vo)) {
			return fmt.Errorf("DecodeReturnData %s, want %s", g, str(any(vo)))
		}
	}
	if g := str(any(readArgs(m.in, ai))); g != str(any(vi)) {
		return fmt.Errorf("EncodeCalldata changed its arguments: %s, were %s", g, str(any(vi)))
	}
	if mutate {
		for _, d := range append(ds, do...) {
			scribble(reflect.ValueOf(d).Elem())
		}
		for i := range ret {
			ret[i] ^= 0xff
		}
	}
	return nil
}

func readArgs(ts []*ty, as []interface{}) (out []any) {
	for i, t := range ts {
		out = append(out, t.read(reflect.ValueOf(as[i])))
	}
	return
}

func (w *world) malformed(r *vm.R, m method, rng *rand.Rand) {
	ref := w.ref.Methods[m.name]
	in := map[string]any{"abi": w.doc, "method": m.name}
	for dir, ts := range map[string][]*ty{"call": m.in, "return": m.out} {
		dir := dir
		args, dec := ref.Inputs, w.codec.DecodeCalldata
		if dir == "return" {
			args, dec = ref.Outputs, w.codec.DecodeReturnData
		}
		vs := gens(rng, ts)
		data := encodeSeq(ts, vs)
		cuts := []int{0, 1, 4, 31, 32, 33, len(data) - 1, len(data) - 31, len(data) - 32, len(data) - 33, len(data) / 2}
		for n := 0; n < len(data); n += 32 {
			cuts = append(cuts, n, n+rng.Intn(32))
		}
		for _, n := range cuts {
			if n < 0 || n >= len(data) {
				continue
			}
			r.Case(dir+"/truncated", in, func() {
				ds := dests(args)
				err := dec(m.name, append([]byte{}, data[:n]...), ds...)
				if err == nil { // only padding or unused bytes may be missing
					r.Expect(str(any(read(ts, ds))) == str(any(vs)), dir+"/truncated", in, "no error for %d of %d bytes of %s, decoded %s", n, len(data), str(any(vs)), str(any(read(ts, ds))))
				}
				r.Eval(dir+"/truncated", w.doc+fmt.Sprint(n))
			})
		}
		for k := 0; k < 20 && len(data) > 0; k++ {
			c := append([]byte{}, data...)
			for j := 1 + rng.Intn(3); j > 0; j-- {
				p := rng.Intn(len(c)/32)*32 + []int{31, 30, 0, 23, rng.Intn(32)}[rng.Intn(5)]
				c[p] = byte(rng.Intn(256))
			}
			r.Case(dir+"/corrupted", in, func() { // no panic; an accepted decoding carries the data it was given
				ds := dests(args)
				_ = dec(m.name, c, ds...)
				r.Eval(dir+"/corrupted", string(c))
			})
		}
		if len(data) == 0 {
			continue
		}
		r.Case(dir+"/destinations", in, func() {
			ds := dests(args)
			r.Expect(dec(m.name, data, ds[1:]...) != nil, dir+"/destinations", in, "no error for a missing destination")
			r.Expect(dec(m.name, data, append(ds, new(big.Int))...) != nil, dir+"/destinations", in, "no error for an extra destination")
			bad := append([]interface{}{}, ds...)
			bad[rng.Intn(len(bad))] = 5
			r.Expect(dec(m.name, data, bad...) != nil, dir+"/destinations", in, "no error for a destination that is not a pointer")
			r.Eval(dir+"/destinations", w.doc+m.name)
		})
	}
	r.Case("arguments", in, func() {
		ai := goArgs(m.in, ref.Inputs, gens(rng, m.in))
		ao := goArgs(m.out, ref.Outputs, gens(rng, m.out))
		_, err := w.codec.EncodeCalldata(m.name, append(ai, 1)...)
		r.Expect(err != nil, "arguments", in, "no error for an extra argument")
		_, err = w.codec.EncodeReturnData(m.name, append(ao, 1)...)
		r.Expect(err != nil, "arguments", in, "no error for an extra return value")
		if len(ai) > 0 {
			_, err = w.codec.EncodeCalldata(m.name, ai[1:]...)
			r.Expect(err != nil, "arguments", in, "no error for a missing argument")
			bad := append([]interface{}{}, ai...)
			bad[rng.Intn(len(bad))] = struct{}{}
			_, err = w.codec.EncodeCalldata(m.name, bad...)
			r.Expect(err != nil, "arguments", in, "no error for an argument of another type")
		}
		r.Eval("arguments", w.doc+m.name)
	})
	r.Case("unknown-method", in, func() {
		name := m.name + "Z"
		_, e1 := w.codec.EncodeCalldata(name)
		_, e2 := w.codec.EncodeReturnData(name)
		e3, e4 := w.codec.DecodeCalldata(name, make([]byte, 32), new(big.Int)), w.codec.DecodeReturnData(name, nil)
		r.Expect(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "unknown-method", in, "errors %v %v %v %v", e1, e2, e3, e4)
		r.Expect(len(w.codec.Selector(name)) == 0, "unknown-method", in, "an unknown method has a selector")
		r.Eval("unknown-method", w.doc+m.name)
	})
}

func c31(r *vm.R) {
	n := r.N(250, 6000)
	for i := 0; i < n; i++ {
		rng := r.Rand(fmt.Sprint(i))
		var w *world
		r.Case("abi", i, func() { w = newWorld(rng) })
		if w == nil {
			continue
		}
		if i < 2 {
			r.Sample("abi", w.doc)
		}
		for _, m := range w.ms {
			in := map[string]any{"abi": w.doc, "method": m.name, "case": i}
			r.Case("round-trip", in, func() {
				for k := 0; k < 4; k++ { // later rounds see what the mutated results of earlier ones did
					if err := w.round(m, rng, true); err != nil {
						r.Violate("round-trip", in, "round %d: %v", k, err)
					}
					r.Eval("round-trip", fmt.Sprint(i, m.name, k))
				}
			})
			w.malformed(r, m, rng)
			r.Case("after-malformed", in, func() {
				if err := w.round(m, rng, true); err != nil {
					r.Violate("after-malformed", in, "%v", err)
				}
				r.Eval("after-malformed", fmt.Sprint(i, m.name))
			})
		}
	}
	// one codec, many goroutines, results scribbled over
	k := r.N(25, 400)
	for i := 0; i < k; i++ {
		w := newWorld(r.Rand(fmt.Sprintf("shared/%d", i)))
		in := map[string]any{"abi": w.doc, "goroutines": 16}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rng := r.Rand(fmt.Sprintf("shared/%d/%d", i, g))
				<-start
				r.Case("shared", in, func() {
					for j := 0; j < 12; j++ {
						if err := w.round(w.ms[rng.Intn(len(w.ms))], rng, true); err != nil {
							r.Violate("shared", in, "goroutine %d round %d: %v", g, j, err)
						}
						if rng.Intn(3) == 0 {
							runtime.Gosched()
						}
						_ = w.codec.ABI().Methods
						r.Eval("shared", fmt.Sprint(i, g, j))
					}
				})
			}(g)
		}
		close(start)
		wg.Wait()
		r.Count("shared-codecs", 1)
	}
}
