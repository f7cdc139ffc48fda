// Monitor of the contract bindings (C40): every method of every binding is called against a recording node.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/vm"

	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

type entry struct {
	name                               string
	meta                               *bind.MetaData
	abi                                *string
	bin                                string
	deploy                             any
	full, caller, transactor, filterer func(common.Address, bind.ContractBackend) (any, error)
	wrap                               func(any, bind.CallOpts, bind.TransactOpts) map[string]any
}

// node records what a binding sends and answers what the monitor prepared.
type node struct {
	mu      sync.Mutex
	calls   []ethereum.CallMsg
	blocks  []*big.Int
	txs     []*types.Transaction
	queries []ethereum.FilterQuery
	answer  []byte
	fail    error
	logs    []types.Log
	unsub   int
}

func (n *node) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) {
	return []byte{1}, nil
}
func (n *node) PendingCodeAt(context.Context, common.Address) ([]byte, error) { return []byte{1}, nil }
func (n *node) CallContract(_ context.Context, c ethereum.CallMsg, b *big.Int) ([]byte, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.calls, n.blocks = append(n.calls, c), append(n.blocks, b)
	return append([]byte{}, n.answer...), n.fail
}
func (n *node) HeaderByNumber(context.Context, *big.Int) (*types.Header, error) {
	return &types.Header{}, nil
}
func (n *node) PendingNonceAt(context.Context, common.Address) (uint64, error) { return 77, nil }
func (n *node) SuggestGasPrice(context.Context) (*big.Int, error)              { return big.NewInt(1), nil }
func (n *node) SuggestGasTipCap(context.Context) (*big.Int, error)             { return big.NewInt(1), nil }
func (n *node) EstimateGas(context.Context, ethereum.CallMsg) (uint64, error)  { return 100000, nil }
func (n *node) SendTransaction(_ context.Context, tx *types.Transaction) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.txs = append(n.txs, tx)
	return n.fail
}
func (n *node) FilterLogs(_ context.Context, q ethereum.FilterQuery) ([]types.Log, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.queries = append(n.queries, q)
	return n.logs, n.fail
}

type sub struct {
	n    *node
	err  chan error
	quit chan bool
	once sync.Once
}

func (s *sub) Err() <-chan error { return s.err }
func (s *sub) Unsubscribe() {
	s.once.Do(func() {
		close(s.quit)
		close(s.err)
		s.n.mu.Lock()
		s.n.unsub++
		s.n.mu.Unlock()
	})
}
func (n *node) SubscribeFilterLogs(_ context.Context, q ethereum.FilterQuery, ch chan<- types.Log) (ethereum.Subscription, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.queries = append(n.queries, q)
	if n.fail != nil {
		return nil, n.fail
	}
	s := &sub{n: n, err: make(chan error), quit: make(chan bool)}
	logs := n.logs
	go func() {
		for _, l := range logs {
			select {
			case ch <- l:
			case <-s.quit:
				return
			}
		}
	}()
	return s, nil
}

func main() {
	vm.Main(map[string]vm.Spec{"C40": {Run: c40, Level: "exploration",
		Rule: "A case is one use of one method of one binding (distinct by binding, receiver, method and argument values): a call, a transaction, a deployment, an event " +
			"query, subscription or parse. What reaches the recording node, and what comes back from its answer, is compared with an ABI encoder of the monitor's own.",
		Assumptions: []string{"go-ethereum's abi.JSON parser, selectors and event identifiers are right"}}})
}

func methods(x any) (o []string) {
	t := reflect.TypeOf(x)
	for i := 0; i < t.NumMethod(); i++ {
		o = append(o, t.Method(i).Name)
	}
	return
}

func c40(r *vm.R) {
	sort.Slice(registry, func(i, j int) bool { return registry[i].name < registry[j].name })
	vm.Par(len(registry), 0, func(i int) {
		e := &registry[i]
		r.Case(e.name, nil, func() {
			m := &mon{R: r, e: e}
			m.run()
		})
	})
}

type mon struct {
	*vm.R
	e   *entry
	abi abi.ABI
}

func (m *mon) bad(what string, in any, format string, args ...any) {
	m.Violate(m.e.name+"/"+what, in, format, args...)
}

func (m *mon) run() {
	parsed, err := abi.JSON(strings.NewReader(m.e.meta.ABI))
	if err != nil {
		m.bad("abi", nil, "the ABI does not parse: %v", err)
		return
	}
	m.abi = parsed
	m.Expect(*m.e.abi == m.e.meta.ABI, m.e.name+"/abi", nil, "the deprecated ABI constant is not the metadata's ABI")
	m.Expect(m.e.bin == m.e.meta.Bin, m.e.name+"/bin", nil, "the deprecated bytecode constant is not the metadata's bytecode")
	m.Count("bindings", 1)
	m.bytecode()
	for rep := 0; rep < m.N(12, 100); rep++ {
		rng := m.Rand(fmt.Sprint(m.e.name, rep))
		n := &node{}
		var addr common.Address
		rng.Read(addr[:])
		full, err := m.e.full(addr, n)
		c, err2 := m.e.caller(addr, n)
		t, err3 := m.e.transactor(addr, n)
		f, err4 := m.e.filterer(addr, n)
		if err := errors.Join(err, err2, err3, err4); err != nil {
			m.bad("new", nil, "%v", err)
			return
		}
		var from common.Address
		rng.Read(from[:])
		co := bind.CallOpts{From: from, BlockNumber: big.NewInt(rng.Int63())}
		to := bind.TransactOpts{From: from, Nonce: new(big.Int).SetUint64(rng.Uint64()), Value: big.NewInt(rng.Int63()), GasPrice: big.NewInt(rng.Int63()), GasLimit: rng.Uint64(),
			Signer: func(_ common.Address, tx *types.Transaction) (*types.Transaction, error) { return tx, nil }}
		w := m.e.wrap(full, co, to)
		u := &use{mon: m, n: n, addr: addr, co: co, to: to, rng: rng}
		u.methods("caller", c, true, true, false)
		u.methods("full", full, true, true, true)
		u.methods("transactor", t, true, false, true)
		u.methods("session", w["session"], false, true, true)
		u.methods("callerSession", w["callerSession"], false, true, false)
		u.methods("transactorSession", w["transactorSession"], false, false, true)
		u.raw(w)
		u.events("filterer", f)
		u.events("full", full)
		if m.e.deploy != nil {
			u.deploy()
		}
		if rep == 0 {
			// Every method of the binding answers to something in the ABI.
			known := map[string]bool{}
			for _, x := range m.abi.Methods {
				known[abi.ToCamelCase(x.Name)] = true
			}
			for _, x := range m.abi.Events {
				for _, p := range []string{"Filter", "Watch", "Parse"} {
					known[p+abi.ToCamelCase(x.Name)] = true
				}
			}
			known["Fallback"], known["Receive"] = m.abi.HasFallback(), m.abi.HasReceive()
			for _, x := range methods(full) {
				m.Expect(known[x], m.e.name+"/"+x, nil, "the binding has a method %s that the ABI does not", x)
			}
		}
	}
}

// bytecode checks that the compiled contract dispatches on the selectors of the ABI.
func (m *mon) bytecode() {
	if m.e.bin == "" {
		return
	}
	code, err := hex.DecodeString(strings.TrimPrefix(m.e.bin, "0x"))
	if !m.Expect(err == nil, m.e.name+"/bin", nil, "the bytecode is not hexadecimal: %v", err) {
		return
	}
	for _, x := range m.abi.Methods {
		id := x.ID
		for len(id) > 1 && id[0] == 0 {
			id = id[1:]
		}
		m.Eval("selector in bytecode", m.e.name+x.Sig)
		if !bytes.Contains(code, append([]byte{0x5f + byte(len(id))}, id...)) {
			m.bad("selector/"+x.Name, nil, "%s has selector %x, on which the contract's bytecode does not dispatch", x.Sig, x.ID)
		}
	}
	for _, x := range m.abi.Events {
		if m.e.name == "eth.BrevisRequest" && x.Name == "AvsSigsVerifierUpdated" {
			continue // declared, never emitted
		}
		m.Eval("event in bytecode", m.e.name+x.Sig)
		if !bytes.Contains(code, x.ID[:]) {
			m.bad("event/"+x.Name, nil, "%s has identifier %x, which the contract's bytecode does not hold", x.Sig, x.ID)
		}
	}
}

type use struct {
	*mon
	n    *node
	addr common.Address
	co   bind.CallOpts
	to   bind.TransactOpts
	rng  *rand.Rand
}

func (u *use) args(what string, as abi.Arguments, ft reflect.Type, skip int) (vs []any, in []reflect.Value, ok bool) {
	if ft.NumIn()-skip != len(as) {
		u.bad(what, nil, "the method takes %d arguments, the ABI %d", ft.NumIn()-skip, len(as))
		return nil, nil, false
	}
	for i := range as {
		v := value(u.rng, &as[i].Type)
		g, err := toGo(&as[i].Type, v, ft.In(i+skip))
		if err != nil {
			u.bad(what, nil, "argument %d: %v", i, err)
			return nil, nil, false
		}
		vs, in = append(vs, v), append(in, g)
	}
	return vs, in, true
}

func info(data []byte) any { return map[string]string{"encoded arguments": vm.Hex(data)} }

func (u *use) methods(recv string, x any, opts, calls, txs bool) {
	rv := reflect.ValueOf(x)
	names := []string{}
	for k := range u.abi.Methods {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		me := u.abi.Methods[k]
		what := recv + "." + abi.ToCamelCase(me.Name)
		f := rv.MethodByName(abi.ToCamelCase(me.Name))
		wanted := (me.IsConstant() && calls) || (!me.IsConstant() && txs)
		if f.IsValid() != wanted {
			u.bad(what, nil, "the method is there: %v, by the ABI: %v", f.IsValid(), wanted)
			continue
		}
		if !wanted {
			continue
		}
		skip := 0
		if opts {
			skip = 1
		}
		vs, in, ok := u.args(what, me.Inputs, f.Type(), skip)
		if !ok {
			continue
		}
		data := append(append([]byte{}, me.ID...), encodeAll(me.Inputs, vs)...)
		u.Eval(what[:len(recv)], fmt.Sprintf("%s%s%x", u.e.name, what, data))
		if me.IsConstant() {
			if opts {
				in = append([]reflect.Value{reflect.ValueOf(&u.co)}, in...)
			}
			u.call(what, me, f, in, data)
		} else {
			if opts {
				in = append([]reflect.Value{reflect.ValueOf(&u.to)}, in...)
			}
			u.transact(what, f, in, data)
		}
	}
	if txs {
		if f := rv.MethodByName("Fallback"); u.Expect(f.IsValid() == u.abi.HasFallback(), u.e.name+"/"+recv+".Fallback", nil, "the method is there: %v", f.IsValid()) && f.IsValid() {
			b := rbytes(u.rng, u.rng.Intn(50))
			in := []reflect.Value{reflect.ValueOf(b)}
			if opts {
				in = append([]reflect.Value{reflect.ValueOf(&u.to)}, in...)
			}
			u.transact(recv+".Fallback", f, in, b)
		}
		if f := rv.MethodByName("Receive"); u.Expect(f.IsValid() == u.abi.HasReceive(), u.e.name+"/"+recv+".Receive", nil, "the method is there: %v", f.IsValid()) && f.IsValid() {
			var in []reflect.Value
			if opts {
				in = append(in, reflect.ValueOf(&u.to))
			}
			u.transact(recv+".Receive", f, in, nil)
		}
	}
}

func errOf(v reflect.Value) error {
	e, _ := v.Interface().(error)
	return e
}

// sent checks the last message of a call.
func (u *use) sent(what string, data []byte) {
	if !u.Expect(len(u.n.calls) == 1, u.e.name+"/"+what, info(data), "%d calls reached the node", len(u.n.calls)) {
		return
	}
	c, b := u.n.calls[0], u.n.blocks[0]
	u.Expect(bytes.Equal(c.Data, data), u.e.name+"/"+what, info(data), "the node was sent %x, want %x", c.Data, data)
	u.Expect(c.To != nil && *c.To == u.addr && c.From == u.co.From, u.e.name+"/"+what, info(data), "the call went from %v to %v", c.From, c.To)
	u.Expect(b != nil && b.Cmp(u.co.BlockNumber) == 0, u.e.name+"/"+what, info(data), "the call is about block %v, want %v", b, u.co.BlockNumber)
}

func (u *use) call(what string, me abi.Method, f reflect.Value, in []reflect.Value, data []byte) {
	var outs []any
	for i := range me.Outputs {
		outs = append(outs, value(u.rng, &me.Outputs[i].Type))
	}
	u.n.calls, u.n.blocks, u.n.fail = nil, nil, nil
	u.n.answer = encodeAll(me.Outputs, outs)
	res := f.Call(in)
	u.sent(what, data)
	err := errOf(res[len(res)-1])
	note := map[string]string{"encoded arguments": vm.Hex(data), "answer": vm.Hex(u.n.answer)}
	if !u.Expect(err == nil, u.e.name+"/"+what, note, "error %v", err) {
		return
	}
	res = res[:len(res)-1]
	if len(outs) > 1 && len(res) == 1 { // a struct of named results
		st := res[0]
		if !u.Expect(st.Kind() == reflect.Struct && st.NumField() == len(outs), u.e.name+"/"+what, note, "%v for %d results", st.Type(), len(outs)) {
			return
		}
		for i, o := range me.Outputs {
			sf, ok := field(st.Type(), o.Name)
			if !u.Expect(ok, u.e.name+"/"+what, note, "%v has no field for result %q", st.Type(), o.Name) {
				continue
			}
			if err := differ(&o.Type, outs[i], st.FieldByIndex(sf.Index)); err != nil {
				u.bad(what, note, "result %s: %v", o.Name, err)
			}
		}
	} else if u.Expect(len(res) == len(outs), u.e.name+"/"+what, note, "%d results, the ABI has %d", len(res), len(outs)) {
		for i := range outs {
			if err := differ(&me.Outputs[i].Type, outs[i], res[i]); err != nil {
				u.bad(what, note, "result %d: %v", i, err)
			}
		}
	}
	// A failing node and a short answer are errors, not values.
	u.n.fail = errors.New("node says no")
	res = f.Call(in)
	err = errOf(res[len(res)-1])
	u.Expect(err != nil && strings.Contains(err.Error(), "node says no"), u.e.name+"/"+what, note, "the node failed, the method returned %v", err)
	u.n.fail = nil
	if len(u.n.answer) >= 32 {
		u.n.answer = u.n.answer[:u.rng.Intn(32)]
		var e2 error
		m := vm.Try(func() {
			res = f.Call(in)
			e2 = errOf(res[len(res)-1])
		})
		u.Expect(m == "" && e2 != nil, u.e.name+"/"+what, note, "an answer of %d bytes: %s %v", len(u.n.answer), m, e2)
	}
	u.n.answer = nil
}

func (u *use) txOK(what string, tx *types.Transaction, to *common.Address, data []byte) {
	if !u.Expect(len(u.n.txs) == 1, u.e.name+"/"+what, info(data), "%d transactions were sent", len(u.n.txs)) {
		return
	}
	s := u.n.txs[0]
	u.Expect(tx == s || (tx != nil && tx.Hash() == s.Hash()), u.e.name+"/"+what, info(data), "the transaction returned is not the one sent")
	u.Expect(bytes.Equal(s.Data(), data), u.e.name+"/"+what, info(data), "the transaction carries %x, want %x", s.Data(), data)
	u.Expect(fmt.Sprint(s.To()) == fmt.Sprint(to), u.e.name+"/"+what, info(data), "the transaction goes to %v, want %v", s.To(), to)
	u.Expect(s.Nonce() == u.to.Nonce.Uint64() && s.Value().Cmp(u.to.Value) == 0 && s.Gas() == u.to.GasLimit && s.GasPrice().Cmp(u.to.GasPrice) == 0, u.e.name+"/"+what, info(data), "the options were not respected")
}

func (u *use) transact(what string, f reflect.Value, in []reflect.Value, data []byte) {
	u.n.txs, u.n.fail = nil, nil
	res := f.Call(in)
	tx, _ := res[0].Interface().(*types.Transaction)
	if err := errOf(res[1]); !u.Expect(err == nil, u.e.name+"/"+what, info(data), "error %v", err) {
		return
	}
	u.txOK(what, tx, &u.addr, data)
	u.n.fail = errors.New("node says no")
	res = f.Call(in)
	u.Expect(errOf(res[1]) != nil, u.e.name+"/"+what, info(data), "the node refused the transaction, the method did not")
	u.n.fail = nil
}

// raw uses the untyped receivers.
func (u *use) raw(w map[string]any) {
	for _, k := range []string{"raw", "callerRaw", "transactorRaw"} {
		rv := reflect.ValueOf(w[k])
		for name, me := range u.abi.Methods {
			var ps []any
			var vs []any
			ok := true
			for i := range me.Inputs {
				v := value(u.rng, &me.Inputs[i].Type)
				g, err := toGo(&me.Inputs[i].Type, v, me.Inputs[i].Type.GetType())
				if err != nil {
					panic("harness: " + err.Error())
				}
				vs, ps = append(vs, v), append(ps, g.Interface())
			}
			if !ok {
				continue
			}
			data := append(append([]byte{}, me.ID...), encodeAll(me.Inputs, vs)...)
			what := k + "." + name
			u.Eval(k, fmt.Sprintf("%s%s%x", u.e.name, what, data))
			if me.IsConstant() && k != "transactorRaw" {
				call, ok := rv.Interface().(interface {
					Call(*bind.CallOpts, *[]interface{}, string, ...interface{}) error
				})
				if !u.Expect(ok, u.e.name+"/"+what, nil, "no Call") {
					continue
				}
				var outs []any
				for i := range me.Outputs {
					outs = append(outs, value(u.rng, &me.Outputs[i].Type))
				}
				u.n.calls, u.n.blocks, u.n.answer = nil, nil, encodeAll(me.Outputs, outs)
				var res []interface{}
				err := call.Call(&u.co, &res, name, ps...)
				u.sent(what, data)
				if u.Expect(err == nil && len(res) == len(outs), u.e.name+"/"+what, info(data), "%d results, error %v", len(res), err) {
					for i := range outs {
						if err := differ(&me.Outputs[i].Type, outs[i], reflect.ValueOf(res[i])); err != nil {
							u.bad(what, info(data), "result %d: %v", i, err)
						}
					}
				}
			}
			if !me.IsConstant() && k != "callerRaw" {
				tr, ok := rv.Interface().(interface {
					Transact(*bind.TransactOpts, string, ...interface{}) (*types.Transaction, error)
				})
				if !u.Expect(ok, u.e.name+"/"+what, nil, "no Transact") {
					continue
				}
				u.n.txs = nil
				tx, err := tr.Transact(&u.to, name, ps...)
				if u.Expect(err == nil, u.e.name+"/"+what, info(data), "error %v", err) {
					u.txOK(what, tx, &u.addr, data)
				}
			}
		}
		if tr, ok := rv.Interface().(interface {
			Transfer(*bind.TransactOpts) (*types.Transaction, error)
		}); k != "callerRaw" && u.Expect(ok, u.e.name+"/"+k+".Transfer", nil, "no Transfer") {
			u.n.txs = nil
			tx, err := tr.Transfer(&u.to)
			if u.Expect(err == nil, u.e.name+"/"+k+".Transfer", nil, "error %v", err) {
				u.txOK(k+".Transfer", tx, &u.addr, nil)
			}
		}
	}
}

func (u *use) deploy() {
	f := reflect.ValueOf(u.e.deploy)
	vs, in, ok := u.args("deploy", u.abi.Constructor.Inputs, f.Type(), 2)
	if !ok {
		return
	}
	data := append(common.FromHex(u.e.bin), encodeAll(u.abi.Constructor.Inputs, vs)...)
	u.n.txs = nil
	res := f.Call(append([]reflect.Value{reflect.ValueOf(&u.to), reflect.ValueOf(u.n)}, in...))
	u.Eval("deploy", fmt.Sprintf("%s%x", u.e.name, data))
	if err := errOf(res[3]); !u.Expect(err == nil, u.e.name+"/deploy", nil, "error %v", err) {
		return
	}
	tx, _ := res[1].Interface().(*types.Transaction)
	u.txOK("deploy", tx, nil, data)
	a := crypto.CreateAddress(u.to.From, u.to.Nonce.Uint64())
	u.Expect(res[0].Interface() == a, u.e.name+"/deploy", nil, "the address is %v, want %v", res[0], a)
	// The instance returned talks to the new contract.
	v := *u
	v.addr = a
	v.methods("deployed", res[2].Interface(), true, true, true)
	v.events("deployed", res[2].Interface())
	u.n.fail = errors.New("node says no")
	res = f.Call(append([]reflect.Value{reflect.ValueOf(&u.to), reflect.ValueOf(u.n)}, in...))
	u.Expect(errOf(res[3]) != nil, u.e.name+"/deploy", nil, "the node refused the deployment, the function did not")
	u.n.fail = nil
}

type logCase struct {
	log types.Log
	vs  []any
}

func (u *use) log(ev abi.Event) (lc logCase) {
	lc.log = types.Log{Address: u.addr, BlockNumber: u.rng.Uint64(), TxIndex: uint(u.rng.Intn(100)), Index: uint(u.rng.Intn(100))}
	u.rng.Read(lc.log.TxHash[:])
	if !ev.Anonymous {
		lc.log.Topics = append(lc.log.Topics, ev.ID)
	}
	var rest []any
	for i := range ev.Inputs {
		a := &ev.Inputs[i]
		v := value(u.rng, &a.Type)
		lc.vs = append(lc.vs, v)
		if a.Indexed {
			lc.log.Topics = append(lc.log.Topics, common.BytesToHash(topic(&a.Type, v)))
		} else {
			rest = append(rest, v)
		}
	}
	lc.log.Data = encodeAll(ev.Inputs.NonIndexed(), rest)
	return
}

// event compares a decoded event with the log.
func (u *use) event(what string, ev abi.Event, lc logCase, got reflect.Value) {
	note := map[string]any{"topics": lc.log.Topics, "data": vm.Hex(lc.log.Data)}
	if !u.Expect(got.Kind() == reflect.Ptr && !got.IsNil(), u.e.name+"/"+what, note, "no event") {
		return
	}
	got = got.Elem()
	u.Expect(got.NumField() == len(ev.Inputs)+1, u.e.name+"/"+what, note, "%v has %d fields for %d arguments", got.Type(), got.NumField(), len(ev.Inputs))
	for i := range ev.Inputs {
		a := &ev.Inputs[i]
		f, ok := field(got.Type(), a.Name)
		if !u.Expect(ok, u.e.name+"/"+what, note, "%v has no field for %q", got.Type(), a.Name) {
			continue
		}
		g := got.FieldByIndex(f.Index)
		if a.Indexed && (a.Type.T == abi.StringTy || a.Type.T == abi.BytesTy) {
			u.Expect(fmt.Sprint(g.Interface()) == common.BytesToHash(topic(&a.Type, lc.vs[i])).String(), u.e.name+"/"+what, note, "%s is %v", a.Name, g)
			continue
		}
		if err := differ(&a.Type, lc.vs[i], g); err != nil {
			u.bad(what, note, "%s: %v", a.Name, err)
		}
	}
	u.Expect(fmt.Sprint(got.FieldByName("Raw").Interface()) == fmt.Sprint(lc.log), u.e.name+"/"+what, note, "Raw is %v, the log is %v", got.FieldByName("Raw"), lc.log)
}

func (u *use) events(recv string, x any) {
	rv := reflect.ValueOf(x)
	for _, ev := range u.abi.Events {
		name := abi.ToCamelCase(ev.Name)
		parse, filter, watch := rv.MethodByName("Parse"+name), rv.MethodByName("Filter"+name), rv.MethodByName("Watch"+name)
		if !u.Expect(parse.IsValid() && filter.IsValid() && watch.IsValid(), u.e.name+"/"+recv+"."+name, nil, "methods of event %s are missing", ev.Sig) {
			continue
		}
		lcs := []logCase{u.log(ev), u.log(ev), u.log(ev)}
		u.n.logs = nil
		for _, lc := range lcs {
			u.n.logs = append(u.n.logs, lc.log)
			u.Eval("parse", fmt.Sprintf("%s%s%s%x%x", u.e.name, recv, name, lc.log.Topics, lc.log.Data))
			res := parse.Call([]reflect.Value{reflect.ValueOf(lc.log)})
			if err := errOf(res[1]); u.Expect(err == nil, u.e.name+"/Parse"+name, lc.log, "error %v", err) {
				u.event("Parse"+name, ev, lc, res[0])
			}
		}
		if !ev.Anonymous {
			l := lcs[0].log
			l.Topics = append([]common.Hash{}, l.Topics...)
			l.Topics[0][u.rng.Intn(32)] ^= 1
			res := parse.Call([]reflect.Value{reflect.ValueOf(l)})
			u.Expect(errOf(res[1]) != nil, u.e.name+"/Parse"+name, l, "a log of another event was parsed")
		}
		// What is asked of the node: the event's identifier and the indexed arguments, each at its place.
		var want [][]common.Hash
		if !ev.Anonymous {
			want = append(want, []common.Hash{ev.ID})
		}
		var rules []reflect.Value
		k := 1
		for i := range ev.Inputs {
			a := &ev.Inputs[i]
			if !a.Indexed {
				continue
			}
			if !u.Expect(k < filter.Type().NumIn(), u.e.name+"/Filter"+name, nil, "no argument for %s", a.Name) {
				return
			}
			st := filter.Type().In(k)
			k++
			rule := reflect.MakeSlice(st, 0, 0)
			var ts []common.Hash
			for c := u.rng.Intn(3); c > 0; c-- {
				v := value(u.rng, &a.Type)
				g, err := toGo(&a.Type, v, st.Elem())
				if !u.Expect(err == nil, u.e.name+"/Filter"+name, nil, "%s: %v", a.Name, err) {
					return
				}
				rule = reflect.Append(rule, g)
				ts = append(ts, common.BytesToHash(topic(&a.Type, v)))
			}
			rules = append(rules, rule)
			want = append(want, ts)
		}
		from, end := uint64(u.rng.Intn(1000)), uint64(1000+u.rng.Intn(1000))
		query := func(what string, q []ethereum.FilterQuery, withEnd bool) {
			if !u.Expect(len(q) == 1, u.e.name+"/"+what, nil, "%d queries reached the node", len(q)) {
				return
			}
			u.Expect(fmt.Sprint(q[0].Topics) == fmt.Sprint(want), u.e.name+"/"+what, nil, "the node was asked for topics %v, want %v", q[0].Topics, want)
			u.Expect(len(q[0].Addresses) == 1 && q[0].Addresses[0] == u.addr, u.e.name+"/"+what, nil, "asked about %v", q[0].Addresses)
			u.Expect(q[0].FromBlock != nil && q[0].FromBlock.Uint64() == from && (!withEnd || q[0].ToBlock != nil && q[0].ToBlock.Uint64() == end), u.e.name+"/"+what, nil, "asked about blocks %v to %v", q[0].FromBlock, q[0].ToBlock)
		}
		u.n.queries = nil
		u.Eval("filter", fmt.Sprintf("%s%s%s%v", u.e.name, recv, name, want))
		res := filter.Call(append([]reflect.Value{reflect.ValueOf(&bind.FilterOpts{Start: from, End: &end})}, rules...))
		query("Filter"+name, u.n.queries, true)
		if err := errOf(res[1]); u.Expect(err == nil, u.e.name+"/Filter"+name, nil, "error %v", err) {
			it := res[0]
			got := 0
			for it.MethodByName("Next").Call(nil)[0].Bool() {
				if got < len(lcs) {
					u.event("Filter"+name, ev, lcs[got], it.Elem().FieldByName("Event"))
				}
				got++
			}
			err := errOf(it.MethodByName("Error").Call(nil)[0])
			u.Expect(got == len(lcs) && err == nil, u.e.name+"/Filter"+name, nil, "the iterator gave %d of %d events, error %v", got, len(lcs), err)
			u.Expect(errOf(it.MethodByName("Close").Call(nil)[0]) == nil, u.e.name+"/Filter"+name, nil, "closing failed")
		}
		u.n.queries = nil
		u.Eval("watch", fmt.Sprintf("%s%s%s%v", u.e.name, recv, name, want))
		ct := watch.Type().In(1)
		sink := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, ct.Elem()), 0)
		before := u.n.unsub
		res = watch.Call(append([]reflect.Value{reflect.ValueOf(&bind.WatchOpts{Start: &from}), sink.Convert(ct)}, rules...))
		query("Watch"+name, u.n.queries, false)
		if err := errOf(res[1]); u.Expect(err == nil, u.e.name+"/Watch"+name, nil, "error %v", err) {
			for _, lc := range lcs {
				i, g, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: sink},
					{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(time.After(20 * time.Second))}})
				if !u.Expect(i == 0 && ok, u.e.name+"/Watch"+name, nil, "an event did not arrive") {
					break
				}
				u.event("Watch"+name, ev, lc, g)
			}
			s := res[0].Interface().(ethereum.Subscription)
			s.Unsubscribe()
			select {
			case <-s.Err():
			case <-time.After(20 * time.Second):
				u.bad("Watch"+name, nil, "the subscription did not end")
			}
			u.n.mu.Lock()
			u.Expect(u.n.unsub == before+1, u.e.name+"/Watch"+name, nil, "the node's subscription was ended %d times", u.n.unsub-before)
			u.n.mu.Unlock()
		}
		// An iterator closed early, and a subscriber that stops listening, leave nothing behind.
		if res = filter.Call(append([]reflect.Value{reflect.ValueOf(&bind.FilterOpts{Start: from, End: &end})}, rules...)); errOf(res[1]) == nil {
			res[0].MethodByName("Next").Call(nil)
			u.Expect(errOf(res[0].MethodByName("Close").Call(nil)[0]) == nil, u.e.name+"/Filter"+name, nil, "closing early failed")
		}
		before = u.n.unsub
		if res = watch.Call(append([]reflect.Value{reflect.ValueOf(&bind.WatchOpts{Start: &from}), sink.Convert(ct)}, rules...)); errOf(res[1]) == nil {
			if u.rng.Intn(2) == 0 { // with an event waiting to be taken
				time.Sleep(100 * time.Microsecond)
			}
			s := res[0].Interface().(ethereum.Subscription)
			done := make(chan bool)
			go func() { s.Unsubscribe(); close(done) }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				u.bad("Watch"+name, nil, "a subscription with an event waiting cannot be ended")
			}
			select {
			case <-s.Err():
			case <-time.After(20 * time.Second):
				u.bad("Watch"+name, nil, "a subscription with an event waiting did not end")
			}
			u.n.mu.Lock()
			u.Expect(u.n.unsub == before+1, u.e.name+"/Watch"+name, nil, "the node's subscription was ended %d times", u.n.unsub-before)
			u.n.mu.Unlock()
			u.Eval("stopped subscription", u.e.name+recv+name)
		}
		// A log that does not decode is an error for whoever reads it.
		if len(ev.Inputs.NonIndexed()) > 0 && !ev.Anonymous {
			l := lcs[0].log
			l.Data = l.Data[:1+u.rng.Intn(31)] // go-ethereum takes no data at all for an event without arguments
			u.n.logs = []types.Log{l}
			u.Expect(errOf(parse.Call([]reflect.Value{reflect.ValueOf(l)})[1]) != nil, u.e.name+"/Parse"+name, l, "a log without its data was parsed")
			u.Eval("log without data", u.e.name+recv+name+fmt.Sprint(len(l.Data)))
			if res = filter.Call(append([]reflect.Value{reflect.ValueOf(&bind.FilterOpts{Start: from, End: &end})}, rules...)); errOf(res[1]) == nil {
				more := res[0].MethodByName("Next").Call(nil)[0].Bool()
				u.Expect(!more && errOf(res[0].MethodByName("Error").Call(nil)[0]) != nil, u.e.name+"/Filter"+name, l, "a log without its data was iterated over")
			}
			if res = watch.Call(append([]reflect.Value{reflect.ValueOf(&bind.WatchOpts{Start: &from}), sink.Convert(ct)}, rules...)); errOf(res[1]) == nil {
				select {
				case err := <-res[0].Interface().(ethereum.Subscription).Err():
					u.Expect(err != nil, u.e.name+"/Watch"+name, l, "a log without its data ended the subscription without an error")
				case <-time.After(20 * time.Second):
					u.bad("Watch"+name, l, "a log without its data did not end the subscription")
				}
			}
			u.n.logs = nil
		}
		u.n.fail = errors.New("node says no")
		res = filter.Call(append([]reflect.Value{reflect.ValueOf(&bind.FilterOpts{Start: from, End: &end})}, rules...))
		u.Expect(errOf(res[1]) != nil, u.e.name+"/Filter"+name, nil, "the node failed, the query did not")
		res = watch.Call(append([]reflect.Value{reflect.ValueOf(&bind.WatchOpts{Start: &from}), sink.Convert(ct)}, rules...))
		u.Expect(errOf(res[1]) != nil, u.e.name+"/Watch"+name, nil, "the node failed, the subscription did not")
		u.n.fail = nil
	}
}
