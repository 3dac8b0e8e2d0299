package main

import "unsafe"

// unsafeSlice rebuilds the slice of n cells starting at the pointed cell.
func (in *Interp) unsafeSlice(p Value, n int) []Value {
	c, ok := p.r.(*Value)
	if !ok {
		in.unsupported("unsafe.Slice of %T", p.r)
	}
	return unsafe.Slice(c, n)
}
