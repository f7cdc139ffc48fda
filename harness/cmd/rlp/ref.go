package main

import (
	"math/rand"
)

// item is one RLP value of the reference encoder.
type item struct {
	list    bool
	payload []byte
	enc     []byte
}

func lenPrefix(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	var l []byte
	for m := n; m > 0; m >>= 8 {
		l = append([]byte{byte(m)}, l...)
	}
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func str(b []byte) item {
	if len(b) == 1 && b[0] < 0x80 {
		return item{false, b, b}
	}
	return item{false, b, append(lenPrefix(0x80, len(b)), b...)}
}

func list(items ...item) item {
	var p []byte
	for _, i := range items {
		p = append(p, i.enc...)
	}
	return item{true, p, append(lenPrefix(0xc0, len(p)), p...)}
}

func nibs(b []byte) []byte {
	out := make([]byte, 0, 2*len(b))
	for _, x := range b {
		out = append(out, x>>4, x&15)
	}
	return out
}

func bytesOf(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch rng.Intn(5) {
	case 0: // prefix-like bytes
		set := []byte{0x00, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff, 0x01}
		for i := range b {
			b[i] = set[rng.Intn(len(set))]
		}
	case 1:
	default:
		rng.Read(b)
	}
	return b
}

const (
	kArray = iota
	kNums  // array with a variable number of fields
	kNest
	kHeader
)

var kindName = []string{"array", "nums", "nest", "header"}

type cfg struct {
	Kind     int
	MaxHex   int
	N        int // configured fields
	Num      int // actual fields (kNums, kHeader)
	Prefix   int
	Min, Max []int
}

type decoded struct {
	total int // whole list in nibbles, with prefix
	lens  []int
	data  [][]byte
	sumOK bool
	list  bool
	stuck bool
}

// decode reads the list the way its length prefixes say, on the circular nibble buffer: the only
// thing demanded is that every length that is declared adds up.
func decode(c cfg, buf []byte) (d decoded) {
	n := c.MaxHex
	at := func(i int) int { return int(buf[((i%n)+n)%n]) }
	b := func(i int) int { return at(i)*16 + at(i+1) }
	val := func(i, k int) int {
		v := 0
		for j := 0; j < k; j++ {
			v = v*256 + b(i+2*j)
			if v > 1<<24 {
				v = 1 << 24
			}
		}
		return v
	}
	p := b(0)
	if p < 0xc0 {
		return
	}
	d.list = true
	cur, declared := 2, 2*(p-0xc0)
	if p >= 0xf8 {
		k := p - 0xf7
		declared = 2 * val(2, k)
		cur = 2 + 2*k
	}
	d.total = cur + declared
	sum := 0
	num := c.N
	if c.Kind == kNums || c.Kind == kHeader {
		num = c.Num
	}
	for i := 0; i < c.N; i++ {
		p := b(cur)
		off, l, isList := 0, 0, false
		switch {
		case p < 0x80:
			l = 2
		case p < 0xb8:
			off, l = 2, 2*(p-0x80)
		case p < 0xc0:
			off, l = 2+2*(p-0xb7), 2*val(cur+2, p-0xb7)
		case p < 0xf8:
			off, l, isList = 2, 2*(p-0xc0), true
		default:
			off, l, isList = 2+2*(p-0xf7), 2*val(cur+2, p-0xf7), true
		}
		if i >= num {
			off, l, isList = 0, 0, false
		}
		if c.Kind == kNest && p == 0 && sum == declared {
			off, l = 0, 0
		}
		from, ln := cur+off, l
		if c.Kind == kNest && isList {
			from, ln = cur, off+l
		}
		var data []byte
		for j := 0; j < ln && j < n; j++ {
			data = append(data, byte(at(from+j)))
		}
		d.lens = append(d.lens, ln)
		d.data = append(d.data, data)
		sum += off + l
		if i+1 < c.N && c.Min[i] == c.Max[i] && ln != c.Min[i] {
			d.stuck = true // a field of fixed length has another length
		}
		cur = (cur + off + l) % n
	}
	d.sumOK = sum == declared
	return
}
