package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/crypto"
)

// A value is a tree: *big.Int (integers, addresses), bool, []byte (bytes, bytesN, string), []any (tuples, arrays, slices).

func value(rng *rand.Rand, t *abi.Type) any {
	switch t.T {
	case abi.UintTy, abi.IntTy, abi.AddressTy:
		n := uint(t.Size)
		if t.T == abi.AddressTy {
			n = 160
		}
		top := new(big.Int).Lsh(big.NewInt(1), n)
		x := new(big.Int).Rand(rng, top)
		switch rng.Intn(8) {
		case 0:
			x.SetInt64(0)
		case 1:
			x.Sub(top, big.NewInt(1))
		case 2:
			x.Rsh(x, uint(rng.Intn(int(n))))
		}
		if t.T == abi.IntTy && x.Bit(int(n)-1) == 1 {
			x.Sub(x, top)
		}
		return x
	case abi.BoolTy:
		return rng.Intn(2) == 1
	case abi.FixedBytesTy:
		return rbytes(rng, t.Size)
	case abi.BytesTy:
		return rbytes(rng, []int{0, 1, 31, 32, 33, 64, 100}[rng.Intn(7)])
	case abi.StringTy:
		return []byte(fmt.Sprintf("%x", rbytes(rng, rng.Intn(40))))
	case abi.SliceTy:
		o := []any{}
		for k := rng.Intn(4); k > 0; k-- {
			o = append(o, value(rng, t.Elem))
		}
		return o
	case abi.ArrayTy:
		o := []any{}
		for k := 0; k < t.Size; k++ {
			o = append(o, value(rng, t.Elem))
		}
		return o
	case abi.TupleTy:
		o := []any{}
		for _, e := range t.TupleElems {
			o = append(o, value(rng, e))
		}
		return o
	}
	panic("harness: ABI type " + t.String())
}

func rbytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func dynamic(t *abi.Type) bool {
	switch t.T {
	case abi.BytesTy, abi.StringTy, abi.SliceTy:
		return true
	case abi.ArrayTy:
		return t.Size > 0 && dynamic(t.Elem)
	case abi.TupleTy:
		for _, e := range t.TupleElems {
			if dynamic(e) {
				return true
			}
		}
	}
	return false
}

func word(x *big.Int) []byte {
	return new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))).FillBytes(make([]byte, 32))
}

func seq(ts []*abi.Type, vs []any) []byte {
	head := 0
	parts := make([][]byte, len(ts))
	for i, t := range ts {
		parts[i] = encode(t, vs[i])
		if dynamic(t) {
			head += 32
		} else {
			head += len(parts[i])
		}
	}
	var h, tail []byte
	for i, t := range ts {
		if dynamic(t) {
			h = append(h, word(big.NewInt(int64(head+len(tail))))...)
			tail = append(tail, parts[i]...)
		} else {
			h = append(h, parts[i]...)
		}
	}
	return append(h, tail...)
}

func right(b []byte) []byte {
	return append(append([]byte{}, b...), make([]byte, (32-len(b)%32)%32)...)
}

func encode(t *abi.Type, v any) []byte {
	switch x := v.(type) {
	case *big.Int:
		return word(x)
	case bool:
		if x {
			return word(big.NewInt(1))
		}
		return word(big.NewInt(0))
	case []byte:
		if t.T == abi.FixedBytesTy {
			return right(x)
		}
		return append(word(big.NewInt(int64(len(x)))), right(x)...)
	case []any:
		ts := t.TupleElems
		if t.T != abi.TupleTy {
			ts = nil
			for range x {
				ts = append(ts, t.Elem)
			}
		}
		b := seq(ts, x)
		if t.T == abi.SliceTy {
			b = append(word(big.NewInt(int64(len(x)))), b...)
		}
		return b
	}
	panic("harness: value")
}

func encodeAll(args abi.Arguments, vs []any) []byte {
	var ts []*abi.Type
	for i := range args {
		ts = append(ts, &args[i].Type)
	}
	return seq(ts, vs)
}

// topic is the topic of an indexed argument.
func topic(t *abi.Type, v any) []byte {
	switch t.T {
	case abi.StringTy, abi.BytesTy:
		return crypto.Keccak256(v.([]byte))
	case abi.SliceTy, abi.ArrayTy, abi.TupleTy:
		panic("harness: indexed " + t.String())
	}
	return encode(t, v)
}

func field(t reflect.Type, name string) (reflect.StructField, bool) {
	if f, ok := t.FieldByName(abi.ToCamelCase(name)); ok {
		return f, true
	}
	return t.FieldByName(abi.ToCamelCase("_" + name))
}

// toGo makes the Go argument of a value; errors are mismatches between the binding's types and the ABI.
func toGo(t *abi.Type, v any, rt reflect.Type) (reflect.Value, error) {
	o := reflect.New(rt).Elem()
	bad := fmt.Errorf("Go type %v for ABI type %v", rt, t)
	switch x := v.(type) {
	case *big.Int:
		switch {
		case t.T == abi.AddressTy:
			if rt.Kind() != reflect.Array || rt.Len() != 20 {
				return o, bad
			}
			reflect.Copy(o, reflect.ValueOf(x.FillBytes(make([]byte, 20))))
		case rt == reflect.TypeOf(x):
			o.Set(reflect.ValueOf(new(big.Int).Set(x)))
		case rt.Kind() >= reflect.Uint8 && rt.Kind() <= reflect.Uint64 && t.T == abi.UintTy && rt.Bits() == t.Size:
			o.SetUint(x.Uint64())
		case rt.Kind() >= reflect.Int8 && rt.Kind() <= reflect.Int64 && t.T == abi.IntTy && rt.Bits() == t.Size:
			o.SetInt(x.Int64())
		default:
			return o, bad
		}
	case bool:
		if rt.Kind() != reflect.Bool {
			return o, bad
		}
		o.SetBool(x)
	case []byte:
		switch {
		case t.T == abi.StringTy && rt.Kind() == reflect.String:
			o.SetString(string(x))
		case t.T == abi.BytesTy && rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Uint8:
			o.SetBytes(append([]byte{}, x...))
		case t.T == abi.FixedBytesTy && rt.Kind() == reflect.Array && rt.Len() == len(x) && rt.Elem().Kind() == reflect.Uint8:
			reflect.Copy(o, reflect.ValueOf(x))
		default:
			return o, bad
		}
	case []any:
		if t.T == abi.TupleTy {
			if rt.Kind() != reflect.Struct || rt.NumField() != len(x) {
				return o, bad
			}
			for i, e := range t.TupleElems {
				f, ok := field(rt, t.TupleRawNames[i])
				if !ok {
					return o, fmt.Errorf("%v: no field %q", rt, t.TupleRawNames[i])
				}
				w, err := toGo(e, x[i], f.Type)
				if err != nil {
					return o, fmt.Errorf("%s: %w", f.Name, err)
				}
				o.FieldByIndex(f.Index).Set(w)
			}
			return o, nil
		}
		if t.T == abi.SliceTy {
			if rt.Kind() != reflect.Slice {
				return o, bad
			}
			o.Set(reflect.MakeSlice(rt, len(x), len(x)))
		} else if rt.Kind() != reflect.Array || rt.Len() != len(x) {
			return o, bad
		}
		for i := range x {
			w, err := toGo(t.Elem, x[i], rt.Elem())
			if err != nil {
				return o, err
			}
			o.Index(i).Set(w)
		}
	}
	return o, nil
}

// differ compares a value decoded by the binding with the value sent.
func differ(t *abi.Type, v any, got reflect.Value) error {
	if got.Kind() == reflect.Interface {
		got = got.Elem()
	}
	want, err := toGo(t, v, got.Type())
	if err != nil {
		// Values decoded without a binding's own types (raw calls): structs of any name.
		return err
	}
	a, b := show(got), show(want)
	if a != b {
		return fmt.Errorf("got %s, want %s", a, b)
	}
	return nil
}

func show(v reflect.Value) string {
	var b bytes.Buffer
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if x, ok := v.Interface().(*big.Int); ok {
			b.WriteString(x.String())
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				b.WriteString(v.Type().Field(i).Name + ":")
				rec(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%x", v.Interface())
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		default:
			fmt.Fprint(&b, v.Interface())
		}
	}
	rec(v)
	return strings.TrimSpace(b.String())
}
