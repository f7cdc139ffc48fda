package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/s3api"
)

// router gives every client its own store: the stub is chosen by bucket.
type router struct {
	mu sync.Mutex
	m  map[string]*stub
}

func (r *router) RoundTrip(req *http.Request) (*http.Response, error) {
	bucket := strings.SplitN(req.URL.Host, ".", 2)[0]
	if bucket == "s3" {
		bucket = strings.SplitN(strings.TrimPrefix(req.URL.Path, "/"), "/", 2)[0]
	}
	r.mu.Lock()
	s := r.m[bucket]
	r.mu.Unlock()
	if s == nil {
		return nil, fmt.Errorf("monitor: unknown bucket in %s", req.URL)
	}
	c := req.Clone(req.Context())
	c.URL.Host = "bkt." + strings.TrimPrefix(c.URL.Host, bucket+".")
	if strings.HasPrefix(req.URL.Host, "s3") {
		c.URL.Path = strings.TrimPrefix(c.URL.Path, "/"+bucket)
		if c.URL.Path == "" {
			c.URL.Path = "/"
		}
	}
	return s.RoundTrip(c)
}

type writerAt struct {
	mu sync.Mutex
	b  []byte
	n  int
}

func (w *writerAt) WriteAt(p []byte, off int64) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if need := int(off) + len(p); need > len(w.b) {
		w.b = append(w.b, make([]byte, need-len(w.b))...)
	}
	copy(w.b[off:], p)
	w.n += len(p)
	return len(p), nil
}

type onlyReader struct{ io.Reader }

type world32 struct {
	r    *vm.R
	s    *stub
	c    *s3api.Client
	hist []string
	name string
}

func (w *world32) in() any {
	h := w.hist
	if len(h) > 40 {
		h = append([]string{"..."}, h[len(h)-40:]...)
	}
	return map[string]any{"client": w.name, "history": append([]string(nil), h...)}
}

// op runs one client call with a fault schedule and hands over what the store held before and after.
func (w *world32) op(kind, what string, fault func(int, *http.Request) string, call func() error) (before, after map[string][]byte, faults int, err error, ok bool) {
	snap := func() map[string][]byte {
		m := map[string][]byte{}
		for k, v := range w.s.objs {
			m[k] = v
		}
		return m
	}
	w.s.mu.Lock()
	before = snap()
	w.s.requests, w.s.fault, w.s.applied = 0, fault, 0
	w.s.mu.Unlock()
	w.hist = append(w.hist, kind+" "+what)
	w.r.Case(kind, w.in(), func() {
		err = call()
		ok = true
	})
	w.s.mu.Lock()
	after, faults = snap(), w.s.applied
	open, reqs, sparse := w.s.open, w.s.requests, w.s.sparse
	w.s.sparse = 0
	w.s.fault = nil
	w.s.mu.Unlock()
	w.hist[len(w.hist)-1] += fmt.Sprintf(" faults=%d -> %v", faults, err)
	if open != 0 {
		w.r.Violate(kind+"/connection", w.in(), "%d response bodies were not closed", open)
		w.s.mu.Lock()
		w.s.open = 0
		w.s.mu.Unlock()
	}
	w.r.Count("requests", int64(reqs))
	if sparse > 0 {
		w.r.Count("pages-without-keys", int64(sparse))
	}
	w.r.Count("faults-injected", int64(faults))
	return
}

func others(a, b map[string][]byte, key string) error {
	for k, v := range a {
		if x, ok := b[k]; k != key && (!ok || !bytes.Equal(x, v)) {
			return fmt.Errorf("key %q was changed or removed", k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && k != key {
			return fmt.Errorf("key %q appeared", k)
		}
	}
	return nil
}

func trim(s string) string {
	if len(s) > 30 {
		return fmt.Sprintf("%s..(%d)", s[:12], len(s))
	}
	return s
}

func (w *world32) upload(key string, data []byte, seekable bool, failAt int, fault func(int, *http.Request) string) {
	var body io.Reader = bytes.NewReader(data)
	if !seekable {
		body = onlyReader{body}
	}
	if failAt >= 0 {
		body = failing{bytes.NewReader(data[:failAt]), errors.New("source failed")}
	}
	before, after, faults, err, ok := w.op("upload", fmt.Sprintf("%s %d bytes seekable=%v failAt=%d", trim(key), len(data), seekable, failAt), fault, func() error { return w.c.Upload(key, body) })
	if !ok {
		return
	}
	got, has := after[key]
	old, had := before[key]
	if err == nil {
		w.r.Expect(failAt < 0, "upload", w.in(), "no error although the source failed")
		w.r.Expect(has && bytes.Equal(got, data), "upload", w.in(), "reported success, store holds %d bytes (present %v) of %d", len(got), has, len(data))
	} else {
		w.r.Expect(faults > 0 || failAt >= 0, "upload", w.in(), "error without a fault: %v", err)
		w.r.Expect((has == had && bytes.Equal(got, old)) || (has && bytes.Equal(got, data)), "upload", w.in(), "a failed upload left %d bytes", len(got))
		if failAt >= 0 {
			w.r.Expect(has == had && bytes.Equal(got, old), "upload", w.in(), "an upload whose source failed stored %d bytes", len(got))
		}
	}
	e := others(before, after, key)
	w.r.Expect(e == nil, "upload", w.in(), "%v", e)
	w.r.Eval("upload", fmt.Sprint(w.name, len(w.hist)))
}

func (w *world32) download(key string, fault func(int, *http.Request) string) {
	buf := &writerAt{}
	before, after, faults, err, ok := w.op("download", trim(key), fault, func() error { return w.c.Download(key, buf) })
	if !ok {
		return
	}
	want, has := before[key]
	if err == nil {
		w.r.Expect(has && bytes.Equal(buf.b, want), "download", w.in(), "reported success, got %d bytes, the object (present %v) has %d", len(buf.b), has, len(want))
	} else {
		w.r.Expect(!has || faults > 0, "download", w.in(), "error without a fault: %v", err)
		if !has {
			w.r.Expect(len(buf.b) == 0, "download", w.in(), "%d bytes of a missing object", len(buf.b))
		}
	}
	e := others(before, after, "\x00")
	w.r.Expect(e == nil, "download", w.in(), "%v", e)
	w.r.Eval("download", fmt.Sprint(w.name, len(w.hist)))
}

func (w *world32) del(key string, fault func(int, *http.Request) string) {
	before, after, faults, err, ok := w.op("delete", trim(key), fault, func() error { return w.c.Delete(key) })
	if !ok {
		return
	}
	_, has := after[key]
	if err == nil {
		w.r.Expect(!has, "delete", w.in(), "reported success, the key is still there")
	} else {
		w.r.Expect(faults > 0, "delete", w.in(), "error without a fault: %v", err)
	}
	e := others(before, after, key)
	w.r.Expect(e == nil, "delete", w.in(), "%v", e)
	w.r.Eval("delete", fmt.Sprint(w.name, len(w.hist)))
}

func (w *world32) head(key string, fault func(int, *http.Request) string, persistent bool) {
	before, after, faults, err, ok := w.op("exists", trim(key), fault, func() error { return w.c.HeadObject(key) })
	if !ok {
		return
	}
	_, has := before[key]
	if err == nil {
		w.r.Expect(has, "exists", w.in(), "reported success for a key that does not exist")
		w.r.Expect(!persistent, "exists", w.in(), "reported success although every request failed")
	} else {
		w.r.Expect(!has || faults > 0, "exists", w.in(), "error for an existing key: %v", err)
	}
	e := others(before, after, "\x00")
	w.r.Expect(e == nil, "exists", w.in(), "%v", e)
	w.r.Eval("exists", fmt.Sprint(w.name, len(w.hist)))
}

func (w *world32) list(prefix string, fault func(int, *http.Request) string, persistent bool) {
	var got []string
	var sizes []string
	n := 0
	before, after, faults, err, ok := w.op("list", trim(prefix), fault, func() error {
		l, err := w.c.ListObjects(prefix)
		n = len(l)
		for _, o := range l {
			if o == nil || o.Key == nil {
				got = append(got, "<nil>")
				continue
			}
			got = append(got, *o.Key)
			if o.Size != nil {
				sizes = append(sizes, fmt.Sprint(*o.Key, " ", *o.Size))
			}
		}
		return err
	})
	if !ok {
		return
	}
	var want, wantSizes []string
	for k, v := range before {
		if strings.HasPrefix(k, prefix) {
			want = append(want, k)
			wantSizes = append(wantSizes, fmt.Sprint(k, " ", len(v)))
		}
	}
	sort.Strings(want)
	if err == nil {
		w.r.Expect(!persistent, "list", w.in(), "reported success although every request failed")
		sort.Strings(got)
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
			w.r.Violate("list", w.in(), "listed %d keys, the store has %d with the prefix", len(got), len(want))
		}
		sort.Strings(sizes)
		sort.Strings(wantSizes)
		w.r.Expect(strings.Join(sizes, "\x00") == strings.Join(wantSizes, "\x00"), "list", w.in(), "listed objects have other sizes than the stored ones")
	} else {
		w.r.Expect(faults > 0, "list", w.in(), "error without a fault: %v", err)
		w.r.Expect(n == 0, "list", w.in(), "an error together with %d objects", n)
	}
	e := others(before, after, "\x00")
	w.r.Expect(e == nil, "list", w.in(), "%v", e)
	w.r.Eval("list", fmt.Sprint(w.name, len(w.hist)))
}

func newWorld32(r *vm.R, rt *router, name string, page int) *world32 {
	s := &stub{objs: map[string][]byte{}, uploads: map[string]map[int][]byte{}, page: page}
	bucket := "b" + strings.ToLower(strings.NewReplacer("/", "-", "_", "-").Replace(name))
	rt.mu.Lock()
	rt.m[bucket] = s
	rt.mu.Unlock()
	c, err := s3api.NewClient(bucket)
	if err != nil {
		panic(err)
	}
	return &world32{r: r, s: s, c: c, name: name}
}

var faultKinds = []string{"transport", "500", "503", "403", "404-bucket", "garbage-200", "garbage-500", "short-body", "lost-response"}

func always(kind string) func(int, *http.Request) string {
	return func(int, *http.Request) string { return kind }
}
func at(k int, kind string) func(int, *http.Request) string {
	return func(n int, _ *http.Request) string {
		if n == k {
			return kind
		}
		return ""
	}
}
func from(k int, kind string) func(int, *http.Request) string {
	return func(n int, _ *http.Request) string {
		if n >= k {
			return kind
		}
		return ""
	}
}

func keyPool(rng *rand.Rand) (out []string) {
	base := []string{"ethereum/update", "ethereum/update/chunk", "ethereum/proof", "ethereum/proof/sig", "ethereum/proof/sig/1/part", "/lead//double/", "a/../b", "a/./b", "b", "a/b", "e", "x y", "plus+percent%25", "ünïcode", "a&b<c>", "q?x=1", "hash#1", "tilde~'()*!"}
	for i := 0; i < 14; i++ {
		k := base[rng.Intn(len(base))]
		switch rng.Intn(3) {
		case 0:
			out = append(out, s3api.ObjectKey(k, uint64(rng.Intn(30))))
		case 1:
			out = append(out, k+fmt.Sprint(rng.Intn(5)))
		default:
			out = append(out, k)
		}
	}
	return
}

func c32(r *vm.R) {
	for _, e := range os.Environ() { // the sandbox's own settings (a CA bundle makes the SDK build its own transport)
		if k := strings.SplitN(e, "=", 2)[0]; strings.HasPrefix(k, "AWS_") {
			os.Unsetenv(k)
		}
	}
	for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": "AKIDEXAMPLE", "AWS_SECRET_ACCESS_KEY": "secret", "AWS_EC2_METADATA_DISABLED": "true", "AWS_CONFIG_FILE": "/dev/null", "AWS_SHARED_CREDENTIALS_FILE": "/dev/null"} {
		os.Setenv(k, v)
	}
	rt := &router{m: map[string]*stub{}}
	http.DefaultTransport = rt
	sizes := []int{0, 1, 2, 100, 4096, 70000}
	data := func(rng *rand.Rand, n int) []byte { b := make([]byte, n); rng.Read(b); return b }

	// histories without faults
	n := r.N(60, 1500)
	vm.Par(n, 0, func(i int) {
		rng := r.Rand(fmt.Sprintf("hist/%d", i))
		w := newWorld32(r, rt, fmt.Sprintf("hist/%d", i), []int{1000, 3, 1, 7, 2}[rng.Intn(5)])
		w.s.gaps = i%3 == 2
		pool := keyPool(rng)
		for j := 0; j < 60; j++ {
			k := pool[rng.Intn(len(pool))]
			switch rng.Intn(8) {
			case 0, 1, 2:
				d := data(rng, sizes[rng.Intn(len(sizes))])
				failAt := -1
				if rng.Intn(10) == 0 {
					failAt = rng.Intn(len(d) + 1)
				}
				w.upload(k, d, rng.Intn(2) == 0, failAt, nil)
			case 3, 4:
				w.download(k, nil)
			case 5:
				w.del(k, nil)
			case 6:
				w.head(k, nil, false)
			case 7:
				p := k
				if rng.Intn(2) == 0 {
					p = p[:rng.Intn(len(p)+1)]
				}
				if strings.ToValidUTF8(p, "") != p {
					p = ""
				}
				w.list(p, nil, false)
			}
		}
		w.list("", nil, false)
		if i < 2 {
			r.Sample("history", w.in())
		}
		r.Expect(w.s.unsigned == 0, "signed", w.in(), "%d requests were not signed with the configured key", w.s.unsigned)
	})

	// one client shared by callers that each keep to their own keys
	shared := r.N(12, 120)
	vm.Par(shared, 4, func(i int) {
		w := newWorld32(r, rt, fmt.Sprintf("shared/%d", i), []int{1000, 3, 1, 7, 2}[i%5])
		in := map[string]any{"client": w.name, "callers": 8}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			rng := r.Rand(fmt.Sprintf("shared/%d/%d", i, g))
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				model := map[string][]byte{}
				mine := fmt.Sprintf("caller%d/", g)
				for j := 0; j < 25; j++ {
					k := mine + fmt.Sprint(rng.Intn(5))
					what := "shared"
					r.Case(what, in, func() {
						want, has := model[k]
						switch rng.Intn(6) {
						case 0, 1:
							d := data(rng, sizes[rng.Intn(len(sizes))])
							err := w.c.Upload(k, bytes.NewReader(d))
							r.Expect(err == nil, what, in, "upload of %s: %v", k, err)
							model[k] = d
						case 2, 3:
							buf := &writerAt{}
							err := w.c.Download(k, buf)
							r.Expect((err == nil) == has && bytes.Equal(buf.b, want), what, in, "download of %s: %v, %d bytes, want %d (present %v)", k, err, len(buf.b), len(want), has)
						case 4:
							if rng.Intn(2) == 0 {
								err := w.c.Delete(k)
								r.Expect(err == nil, what, in, "delete of %s: %v", k, err)
								delete(model, k)
								break
							}
							err := w.c.HeadObject(k)
							r.Expect((err == nil) == has, what, in, "existence of %s: %v, present %v", k, err, has)
						case 5:
							l, err := w.c.ListObjects(mine)
							r.Expect(err == nil && len(l) == len(model), what, in, "listing of %s: %v, %d objects, want %d", mine, err, len(l), len(model))
							for _, o := range l {
								b, ok := model[*o.Key]
								r.Expect(ok && int(*o.Size) == len(b), what, in, "listing of %s has %s with %d bytes", mine, *o.Key, *o.Size)
							}
						}
						r.Eval(what, fmt.Sprint(w.name, g, j))
					})
				}
			}()
		}
		close(start)
		wg.Wait()
	})

	// large objects: several parts and ranges
	const part = 5 << 20
	bigs := []int{part - 1, part, part + 1, 2 * part, 2*part + 1, 3*part + 12345, 41<<20 + 7}
	vm.Par(len(bigs), 3, func(i int) {
		rng := r.Rand(fmt.Sprintf("big/%d", i))
		w := newWorld32(r, rt, fmt.Sprintf("big/%d", i), 1000)
		d := data(rng, bigs[i])
		w.upload("big", d, i%2 == 0, -1, nil)
		w.download("big", nil)
		w.upload("big", d[:len(d)-1], i%2 == 1, -1, nil)
		w.download("big", nil)
		w.upload("big", d, true, len(d)-1, nil)
		w.download("big", nil)
		if i >= 2 {
			for _, f := range []string{"403", "lost-response", "short-body", "404-bucket"} {
				if i == len(bigs)-1 || r.N(0, 1) == 0 && i%2 == 1 {
					break
				}
				for k := 1; k <= 4; k++ {
					w.upload("big", data(rng, bigs[i]), true, -1, from(k, f))
					w.download("big", from(k, f))
				}
			}
		}
	})

	// listings of more than one real page
	lists := []int{999, 1000, 1001, 2000, 2500}
	vm.Par(2*len(lists), 0, func(i int) {
		w := newWorld32(r, rt, fmt.Sprintf("pages/%d", i), 1000)
		w.s.gaps = i >= len(lists)
		for j := 0; j < lists[i%len(lists)]; j++ {
			w.s.objs[s3api.ObjectKey("p/q", uint64(j))] = []byte("x")
		}
		w.s.objs["p/z"] = []byte("y")
		w.list("p/q/", nil, false)
		w.list("p/", nil, false)
		w.list("", nil, false)
		w.list("p/q/1", nil, false)
		w.list("nothing", nil, false)
		w.list("p/q/", from(2, "403"), false)
		w.list("p/q/", from(2, "garbage-200"), false)
	})

	// every fault kind at every request of every operation
	type fc struct {
		op, kind, when string
		k              int
	}
	var fcs []fc
	for _, op := range []string{"upload", "upload-new", "download", "delete", "exists", "exists-missing", "list", "list-pages"} {
		for _, kind := range faultKinds {
			for _, k := range []int{1, 2, 3, 4} {
				fcs = append(fcs, fc{op, kind, "once", k})
			}
			fcs = append(fcs, fc{op, kind, "always", 1})
			if op == "list-pages" {
				fcs = append(fcs, fc{op, kind, "from", 2}, fc{op, kind, "from", 3})
			}
		}
	}
	reps := r.N(1, 10)
	vm.Par(len(fcs)*reps, 64, func(x int) {
		f := fcs[x%len(fcs)]
		rng := r.Rand(fmt.Sprintf("fault/%d", x))
		w := newWorld32(r, rt, fmt.Sprintf("fault/%d", x), 4)
		w.upload("k/a", data(rng, 3000), true, -1, nil)
		for j := 0; j < 10; j++ {
			w.s.objs[fmt.Sprintf("l/%02d", j)] = []byte{byte(j)}
		}
		fault := at(f.k, f.kind)
		persistent := f.when == "always"
		switch f.when {
		case "always":
			fault = always(f.kind)
		case "from":
			fault = from(f.k, f.kind)
		}
		// kinds that only disturb reads of bodies leave these operations alone
		hard := persistent && f.kind != "garbage-200" && f.kind != "short-body"
		switch f.op {
		case "upload":
			w.upload("k/a", data(rng, 5000), true, -1, fault)
		case "upload-new":
			w.upload("k/b", data(rng, 5000), false, -1, fault)
		case "download":
			w.download("k/a", fault)
		case "delete":
			w.del("k/a", fault)
		case "exists":
			w.head("k/a", fault, hard)
		case "exists-missing":
			w.head("k/none", fault, hard)
		case "list":
			w.list("k/", fault, persistent)
		case "list-pages":
			w.list("l/", fault, persistent)
		}
		w.list("", nil, false)
		w.download("k/a", nil)
		r.Count("fault-cases", 1)
	})

	for _, c := range []struct {
		p string
		s uint64
		w string
	}{{"a", 0, "a/0.json"}, {"a/b", 18446744073709551615, "a/b/18446744073709551615.json"}, {"", 7, "/7.json"}, {"p%d", 12, "p%d/12.json"}, {"x", 1 << 53, "x/9007199254740992.json"}} {
		r.Case("object-key", c, func() {
			g := s3api.ObjectKey(c.p, c.s)
			r.Expect(g == c.w, "object-key", c, "ObjectKey(%q, %d) = %q, want %q", c.p, c.s, g, c.w)
			r.Eval("object-key", c.w)
		})
	}
}
