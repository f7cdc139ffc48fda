package main

import "reflect"

// forkAny copies the digest value behind the interface.
func forkAny(d dig) dig {
	v := reflect.ValueOf(d).Elem()
	c := reflect.New(v.Type())
	c.Elem().Set(v)
	return c.Interface().(dig)
}
