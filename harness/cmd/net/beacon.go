package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient/gethclient"
	"github.com/ethereum/go-ethereum/rpc"
)

// answer is what the stub endpoint replies to a request for block or slot n.
type answer struct {
	name      string
	status    int
	body      []byte
	readErr   error // after the body
	transport error
	// carried are the values a reader may take from the response; clean: it must take them.
	carried func() (value uint64, finalized bool, ok bool)
	clean   bool
}

type beaconStub struct {
	mu     sync.Mutex
	open   int
	opened int
	reqs   []string
	f      func(req *http.Request) answer
}

func (b *beaconStub) RoundTrip(req *http.Request) (*http.Response, error) {
	b.mu.Lock()
	b.reqs = append(b.reqs, req.Method+" "+req.URL.String())
	b.mu.Unlock()
	a := b.f(req)
	if a.transport != nil {
		return nil, a.transport
	}
	b.mu.Lock()
	b.open++
	b.opened++
	b.mu.Unlock()
	var rd io.Reader = bytes.NewReader(a.body)
	if a.readErr != nil {
		rd = failing{rd, a.readErr}
	}
	return &http.Response{Status: fmt.Sprint(a.status), StatusCode: a.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
		ContentLength: -1, Request: req, Body: &body{Reader: rd, close: func() { b.mu.Lock(); b.open--; b.mu.Unlock() }}}, nil
}

func edge64(rng *rand.Rand) uint64 {
	switch rng.Intn(6) {
	case 0:
		return []uint64{0, 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 4700013, 1<<32 + 1}[rng.Intn(10)]
	case 1:
		return rng.Uint64()
	}
	return uint64(rng.Intn(20000000))
}

func none() (uint64, bool, bool) { return 0, false, false }

// slotAnswers is the catalogue of replies of the execution-block endpoint; blockAnswers of the slot endpoint.
func slotAnswers(rng *rand.Rand, slot uint64, fin bool) (out []answer) {
	other := slot/2 + 12345
	good := func() (uint64, bool, bool) { return slot, fin, true }
	obj := fmt.Sprintf(`{"status":"OK","data":[{"blockHash":"0xab","blockNumber":1,"posConsensus":{"executionBlockNumber":1,"proposerIndex":%d,"slot":%d,"epoch":3,"finalized":%v},"relay":null}]}`, other, slot, fin)
	min := fmt.Sprintf(`{"data":[{"posConsensus":{"slot":%d,"finalized":%v}}]}`, slot, fin)
	reordered := fmt.Sprintf("\n {\"data\" : [ { \"posConsensus\" : { \"finalized\" : %v , \"extra\":{\"slot\":%d}, \"slot\" : %d } , \"slot\": %d}, {\"posConsensus\":{\"slot\":%d,\"finalized\":%v}} ], \"slot\": %d } \n", fin, other, slot, other, other, !fin, other)
	ok := func(name, b string) {
		out = append(out, answer{name: name, status: 200, body: []byte(b), carried: good, clean: true})
	}
	ok("full", obj)
	ok("minimal", min)
	ok("reordered", reordered)
	ok("large", strings.Replace(obj, `"status":"OK"`, `"status":"`+strings.Repeat("x", 200000)+`"`, 1))
	bad := func(name, b string) {
		out = append(out, answer{name: name, status: 200, body: []byte(b), carried: none})
	}
	for i, b := range []string{``, ` `, `null`, `true`, `0`, `"x"`, `[]`, `{}`, `{"data":null}`, `{"data":[]}`, `{"data":[null]}`, `{"data":[{}]}`, `{"data":[1]}`, `{"data":["a"]}`, `{"data":[[]]}`, `{"data":{}}`, `{"data":"x"}`, `{"data":7}`,
		`{"data":[{"posConsensus":null}]}`, `{"data":[{"posConsensus":{}}]}`, `{"data":[{"posConsensus":[]}]}`, `{"data":[{"posConsensus":5}]}`, `{"data":[{"posConsensus":"x"}]}`,
		`{"status":"ERROR: could not retrieve db results","data":null}`, `<html>502</html>`, "\x00\x01", `{"data":[{"posConsensus":{"slot":{},"finalized":true}}]}`, `{"data":[{"posConsensus":{"slot":[],"finalized":true}}]}`,
		`{"data":[{"posConsensus":{"slot":null,"finalized":true}}]}`, `{"data":[{"posConsensus":{"slot":-5,"finalized":true}}]}`, `{"data":[{"posConsensus":{"slot":1.5,"finalized":true}}]}`, `{"data":[{"posConsensus":{"slot":18446744073709551616,"finalized":true}}]}`,
		`{"data":[{"posConsensus":{"slot":1e400,"finalized":true}}]}`, `{"data":[{"posConsensus":{"slot":true,"finalized":true}}]}`, `{"data":[{"posConsensus":{"finalized":true}}]}`, strings.Repeat(`{"data":[`, 20000)} {
		bad(fmt.Sprintf("shape-%d", i), b)
	}
	for i, b := range []string{`"finalized":null`, `"finalized":"true"`, `"finalized":1`, `"finalized":{}`, `"x":1`} {
		// the slot is there, its status is not: it must not be reported as finalized
		out = append(out, answer{name: fmt.Sprintf("status-%d", i), status: 200, body: []byte(fmt.Sprintf(`{"data":[{"posConsensus":{"slot":%d,%s}}]}`, slot, b)), carried: func() (uint64, bool, bool) { return slot, false, true }})
	}
	for i, b := range []string{`{"data":[{"posConsensus":{"slot":%d,"finalized":true,"slot":"x"}}]}`, `{"data":[{"posConsensus":{"slot":%d,"finalized":true,"slot":-1}}]}`, `{"data":[{"posConsensus":{"slot":%d,"finalized":true}}],"data":"ERROR"}`, `{"data":[{"posConsensus":{"slot":%d,"finalized":true},"posConsensus":7}]}`} {
		bad(fmt.Sprintf("withdrawn-%d", i), fmt.Sprintf(b, slot))
	}
	out = append(out, answer{name: "string-slot", status: 200, body: []byte(fmt.Sprintf(`{"data":[{"posConsensus":{"slot":"%d","finalized":%v}}]}`, slot, fin)), carried: good})
	out = append(out, answer{name: "trailing", status: 200, body: []byte(min + "xyz"), carried: good}, answer{name: "two-documents", status: 200, body: []byte(min + "\n" + strings.Replace(min, fmt.Sprint(slot), fmt.Sprint(other), 1)), carried: good})
	return append(out, common33(rng, min, good)...)
}

func blockAnswers(rng *rand.Rand, block uint64) (out []answer) {
	other := block/2 + 12345
	good := func() (uint64, bool, bool) { return block, false, true }
	obj := fmt.Sprintf(`{"status":"OK","data":{"attestationscount":64,"blockroot":"0xab","epoch":1,"exec_base_fee_per_gas":%d,"exec_block_hash":"0xcd","exec_block_number":%d,"slot":%d,"exec_gas_limit":30000000}}`, other, block, other)
	min := fmt.Sprintf(`{"data":{"exec_block_number":%d}}`, block)
	ok := func(name, b string) {
		out = append(out, answer{name: name, status: 200, body: []byte(b), carried: good, clean: true})
	}
	ok("full", obj)
	ok("minimal", min)
	ok("reordered", fmt.Sprintf(" {\"exec_block_number\":%d, \"data\": {\"nested\":{\"exec_block_number\":%d},\n\"exec_block_number\" :\t%d}}", other, other, block))
	ok("large", strings.Replace(obj, `"status":"OK"`, `"status":"`+strings.Repeat("x", 200000)+`"`, 1))
	for i, b := range []string{``, ` `, `null`, `true`, `0`, `"x"`, `[]`, `{}`, `{"data":null}`, `{"data":[]}`, `{"data":[{"exec_block_number":5}]}`, `{"data":5}`, `{"data":"x"}`, `{"data":{}}`, `{"data":{"exec_block_number":null}}`, `{"data":{"exec_block_number":{}}}`,
		`{"data":{"exec_block_number":[]}}`, `{"data":{"exec_block_number":true}}`, `{"data":{"exec_block_number":-1}}`, `{"data":{"exec_block_number":1.5}}`, `{"data":{"exec_block_number":18446744073709551616}}`, `{"data":{"exec_block_number":1e999}}`,
		`{"status":"ERROR: invalid block","data":null}`, `<html>`, strings.Repeat(`[`, 50000)} {
		out = append(out, answer{name: fmt.Sprintf("shape-%d", i), status: 200, body: []byte(b), carried: none})
	}
	for i, b := range []string{`{"data":{"exec_block_number":%d,"exec_block_number":"x"}}`, `{"data":{"exec_block_number":%d,"exec_block_number":-1}}`, `{"data":{"exec_block_number":%d},"data":[]}`, `{"data":{"exec_block_number":%d},"data":"ERROR"}`, `{"data":{"exec_block_number":%d,"exec_block_number":18446744073709551616}}`} {
		// the number is withdrawn by what follows
		out = append(out, answer{name: fmt.Sprintf("withdrawn-%d", i), status: 200, body: []byte(fmt.Sprintf(b, block)), carried: none})
	}
	out = append(out, answer{name: "string-number", status: 200, body: []byte(fmt.Sprintf(`{"data":{"exec_block_number":"%d"}}`, block)), carried: good})
	out = append(out, answer{name: "trailing", status: 200, body: []byte(min + "xyz"), carried: good})
	return append(out, common33(rng, min, good)...)
}

// common33: status codes with a plausible body, truncations, failing reads and transports.
func common33(rng *rand.Rand, min string, good func() (uint64, bool, bool)) (out []answer) {
	for _, c := range []int{400, 401, 403, 404, 409, 418, 429, 500, 501, 502, 503, 504, 300, 304} {
		out = append(out, answer{name: fmt.Sprintf("status-code-%d", c), status: c, body: []byte(min), carried: none})
		out = append(out, answer{name: fmt.Sprintf("status-code-%d-text", c), status: c, body: []byte("rate limited"), carried: none})
	}
	for _, c := range []int{201, 202, 203, 206} {
		out = append(out, answer{name: fmt.Sprintf("status-code-%d", c), status: c, body: []byte(min), carried: good})
	}
	for _, c := range []int{204, 301, 302, 307} { // no body, or a redirection without a target
		out = append(out, answer{name: fmt.Sprintf("status-code-%d", c), status: c, body: nil, carried: none})
	}
	for n := 0; n < len(min); n++ {
		out = append(out, answer{name: fmt.Sprintf("truncated-%d", n), status: 200, body: []byte(min[:n]), carried: none})
		if n%5 == 0 {
			out = append(out, answer{name: fmt.Sprintf("read-error-%d", n), status: 200, body: []byte(min[:n]), readErr: io.ErrUnexpectedEOF, carried: none})
		}
	}
	// the document is complete, the connection breaks afterwards
	out = append(out, answer{name: "read-error-end", status: 200, body: []byte(min), readErr: errors.New("connection reset"), carried: good})
	out = append(out, answer{name: "transport", transport: errors.New("connection refused"), carried: none}, answer{name: "timeout", transport: context.DeadlineExceeded, carried: none})
	for i := 0; i < 30; i++ {
		b := []byte(min)
		p := rng.Intn(len(b))
		c := []byte(`{}[]":,x0 -.`)[rng.Intn(12)]
		if b[p] >= '0' && b[p] <= '9' || b[p] == c || c == '0' || c == '-' || c == '.' { // another number is another response
			continue
		}
		b[p] = c
		out = append(out, answer{name: "damaged", status: 200, body: b, carried: func() (uint64, bool, bool) { return 0, false, json.Valid(b) }})
	}
	return
}

func c33(r *vm.R) {
	st := &beaconStub{}
	http.DefaultTransport = st
	hosts := map[uint64]string{1: "beaconcha.in", 5: "goerli.beaconcha.in"}
	n := r.N(40, 800)
	for i := 0; i < n; i++ {
		rng := r.Rand(fmt.Sprint(i))
		for chain, host := range hosts {
			c := &eth.Client{ChainId: chain}
			req, val, fin := edge64(rng), edge64(rng), rng.Intn(2) == 0
			run := func(op string, a answer, path string, call func() (uint64, bool)) {
				key := op + "/" + strings.TrimRight(a.name, "0123456789")
				bd := string(a.body)
				if len(bd) > 400 {
					bd = bd[:400] + "..."
				}
				in := map[string]any{"op": op, "chain": chain, "requested": req, "reply": a.name, "status": a.status, "body": bd}
				st.f = func(q *http.Request) answer {
					if q.URL.Host != host || q.URL.Path != path || q.Method != "GET" { // another block's or network's data
						return answer{status: 200, body: []byte(strings.NewReplacer(fmt.Sprint(val), "31337").Replace(string(a.body)))}
					}
					return a
				}
				st.open, st.opened, st.reqs = 0, 0, nil
				r.Case(key, in, func() {
					got, gf := call()
					wv, wf, ok := a.carried()
					zero := got == 0 && !gf
					exact := ok && got == wv && gf == wf
					if a.clean {
						r.Expect(exact, key, in, "got (%d, %v), the response carries (%d, %v); requests %v", got, gf, wv, wf, st.reqs)
					} else if a.name == "damaged" && ok {
						// a still valid document with another meaning: no panic is all that is asked
					} else {
						r.Expect(zero || exact, key, in, "got (%d, %v) from a response that is not usable", got, gf)
					}
					r.Eval(key, fmt.Sprint(i, chain, a.name))
				})
				st.mu.Lock()
				open := st.open
				st.mu.Unlock()
				r.Expect(open == 0, op+"/body-close", in, "%d of %d response bodies were not closed", open, st.opened)
				r.Count("bodies", int64(st.opened))
			}
			for _, a := range slotAnswers(rng, val, fin) {
				run("slot", a, "/api/v1/execution/block/"+strconv.FormatUint(req, 10), func() (uint64, bool) { return c.GetSlot(req) })
			}
			for _, a := range blockAnswers(rng, val) {
				run("block", a, "/api/v1/slot/"+strconv.FormatUint(req, 10), func() (uint64, bool) { return c.GetBlock(req), false })
			}
		}
		// chains without a beacon chain: no request, no data; BSC has its own numbering
		for _, chain := range []uint64{0, 2, 10, 56, 97, 137, 42161, 1<<64 - 1} {
			c := &eth.Client{ChainId: chain}
			req := edge64(rng)
			st.f = func(*http.Request) answer {
				return answer{status: 200, body: []byte(`{"data":[{"posConsensus":{"slot":5,"finalized":true}}]}`)}
			}
			st.reqs = nil
			in := map[string]any{"chain": chain, "requested": req}
			r.Case("other-chain", in, func() {
				s, ok := c.GetSlot(req)
				r.Expect(s == 0 && !ok, "other-chain", in, "GetSlot (%d, %v)", s, ok)
				b, want := c.GetBlock(req), uint64(0)
				if chain == 56 || chain == 97 {
					want = req
				}
				r.Expect(b == want, "other-chain", in, "GetBlock %d, want %d", b, want)
				r.Expect(len(st.reqs) == 0, "other-chain", in, "requests %v", st.reqs)
				r.Eval("other-chain", fmt.Sprint(chain, req))
			})
		}
	}
	concurrent33(r, st)
	getProof(r)
}

// concurrent33: answers depend on the request only; many callers at once each get their own.
func concurrent33(r *vm.R, st *beaconStub) {
	st.f = func(q *http.Request) answer {
		p := strings.Split(q.URL.Path, "/")
		n, _ := strconv.ParseUint(p[len(p)-1], 10, 64)
		if strings.Contains(q.URL.Path, "execution") {
			return answer{status: 200, body: []byte(fmt.Sprintf(`{"data":[{"posConsensus":{"slot":%d,"finalized":%v}}]}`, n*3+1, n%2 == 0))}
		}
		return answer{status: 200, body: []byte(fmt.Sprintf(`{"data":{"exec_block_number":%d}}`, n*5+2))}
	}
	c := &eth.Client{ChainId: 1}
	vm.Par(r.N(2000, 20000), 32, func(i int) {
		n := uint64(i)
		in := map[string]any{"requested": n}
		r.Case("concurrent", in, func() {
			s, f := c.GetSlot(n)
			b := c.GetBlock(n)
			r.Expect(s == n*3+1 && f == (n%2 == 0) && b == n*5+2, "concurrent", in, "got slot %d %v, block %d", s, f, b)
			r.Eval("concurrent", fmt.Sprint(i))
		})
	})
}

// ethService answers eth_getProof.
type ethService struct {
	mu   sync.Mutex
	fail bool
	seen []string
	hold chan struct{} // if set, the answer waits for it
}

type proofReply struct {
	Address      common.Address `json:"address"`
	AccountProof []string       `json:"accountProof"`
	Balance      *hexutil.Big   `json:"balance"`
	CodeHash     common.Hash    `json:"codeHash"`
	Nonce        hexutil.Uint64 `json:"nonce"`
	StorageHash  common.Hash    `json:"storageHash"`
	StorageProof []storageReply `json:"storageProof"`
}
type storageReply struct {
	Key   string       `json:"key"`
	Value *hexutil.Big `json:"value"`
	Proof []string     `json:"proof"`
}

func (s *ethService) reply(a common.Address, keys []string, block string) proofReply {
	h := func(x string) common.Hash { return common.BytesToHash([]byte(x)) }
	p := proofReply{Address: a, AccountProof: []string{"0x" + vm.Hex(a[:]), "0x01"}, Balance: (*hexutil.Big)(new(big.Int).SetBytes(crypto.Keccak256(a[:], []byte(block)))),
		CodeHash: h("code" + block), Nonce: hexutil.Uint64(len(block)), StorageHash: h("st" + block)}
	for i, k := range keys {
		p.StorageProof = append(p.StorageProof, storageReply{Key: k, Value: (*hexutil.Big)(big.NewInt(int64(i + 7))), Proof: []string{"0x" + vm.Hex([]byte(k))}})
	}
	return p
}

func (s *ethService) GetProof(ctx context.Context, a common.Address, keys []string, block string) (*proofReply, error) {
	s.mu.Lock()
	hold := s.hold
	s.mu.Unlock()
	if hold != nil {
		select {
		case <-hold:
		case <-time.After(3 * time.Second):
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, fmt.Sprint(a, keys, block))
	if s.fail {
		return nil, errors.New("missing trie node")
	}
	p := s.reply(a, keys, block)
	return &p, nil
}

func getProof(r *vm.R) {
	svc := &ethService{}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", svc); err != nil {
		panic(err)
	}
	defer srv.Stop()
	cl := rpc.DialInProc(srv)
	defer cl.Close()
	c := &eth.Client{GethClient: gethclient.New(cl), ChainId: 1}
	for i := 0; i < r.N(300, 5000); i++ {
		rng := r.Rand(fmt.Sprintf("proof/%d", i))
		var a common.Address
		rng.Read(a[:])
		var keys []string
		for j := rng.Intn(4); j > 0; j-- {
			var k common.Hash
			rng.Read(k[:])
			keys = append(keys, k.Hex())
		}
		var blk *big.Int
		tag := "latest"
		if rng.Intn(5) > 0 {
			blk = new(big.Int).SetUint64(edge64(rng))
			tag = hexutil.EncodeBig(blk)
		}
		fail := rng.Intn(5) == 0
		svc.mu.Lock()
		svc.fail = fail
		svc.mu.Unlock()
		in := map[string]any{"account": a, "keys": keys, "block": tag, "fail": fail}
		if i%25 == 0 { // a caller that has given up gets its error
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			hold := make(chan struct{})
			set := func(h chan struct{}) { svc.mu.Lock(); svc.hold = h; svc.mu.Unlock() }
			set(hold)
			r.Case("get-proof-cancelled", in, func() {
				got, err := c.GetProof(ctx, a, keys, blk)
				r.Expect(err != nil, "get-proof-cancelled", in, "the caller's context is done, got %v", got)
				r.Eval("get-proof cancelled", fmt.Sprint(i))
			})
			set(nil)
			close(hold)
		}
		r.Case("get-proof", in, func() {
			got, err := c.GetProof(context.Background(), a, keys, blk)
			if fail {
				r.Expect(err != nil, "get-proof", in, "the node failed, got %v, %v", got, err)
			} else if r.Expect(err == nil && got != nil, "get-proof", in, "%v", err) {
				w := svc.reply(a, keys, tag)
				same := got.Address == a && got.Balance.Cmp(w.Balance.ToInt()) == 0 && got.CodeHash == w.CodeHash && got.Nonce == uint64(w.Nonce) && got.StorageHash == w.StorageHash &&
					strings.Join(got.AccountProof, ",") == strings.Join(w.AccountProof, ",") && len(got.StorageProof) == len(keys)
				for j := 0; same && j < len(keys); j++ {
					s := got.StorageProof[j]
					same = s.Key == keys[j] && s.Value.Cmp(w.StorageProof[j].Value.ToInt()) == 0 && strings.Join(s.Proof, ",") == strings.Join(w.StorageProof[j].Proof, ",")
				}
				r.Expect(same, "get-proof", in, "got %+v, the node sent %+v", got, w)
			}
			r.Eval("get-proof", fmt.Sprint(i))
		})
	}
}
