package main

import (
	"encoding/binary"
	"hash/fnv"
)

// Hashes are abstracted by another collision-free-in-practice function: the
// code only ever compares them.
func hash128(s string) Value {
	h := fnv.New128a()
	h.Write([]byte(s))
	b := h.Sum(nil)
	return Value{P: &Agg{v: []Value{{N: binary.BigEndian.Uint64(b)}, {N: binary.BigEndian.Uint64(b[8:])}}}}
}

func init() {
	const x = "github.com/zeebo/xxh3."
	reg(x+"HashString128", func(g *Gor, fn *Func, a []Value) (Value, int) { return ret(hash128(g.w.cs(a[0]))) })
	reg(x+"HashString", func(g *Gor, fn *Func, a []Value) (Value, int) {
		return ret(hash128(g.w.cs(a[0])).P.(*Agg).v[0])
	})
	get := func(g *Gor, v Value) (*Obj, int, string) {
		o, off := g.w.loc(v)
		s, _ := o.side[off].(string)
		return o, off, s
	}
	put := func(g *Gor, o *Obj, off int, s string) {
		if o.side == nil {
			o.side = map[int]any{}
		}
		old, had := o.side[off]
		if o.base {
			g.w.journalFn(func() {
				if had {
					o.side[off] = old
				} else {
					delete(o.side, off)
				}
			})
		}
		o.side[off] = s
	}
	const h = "(*github.com/zeebo/xxh3.Hasher)."
	reg(h+"Write", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off, s := get(g, a[0])
		n := 0
		if sl, ok := a[1].P.(*Slice); ok {
			n = sl.len
			s += g.w.cs(bytesToStr(sl.obj.slots[sl.off : sl.off+sl.len]))
		}
		put(g, o, off, s)
		return ret(Value{P: &Agg{v: []Value{{N: uint64(n)}, {}}}})
	})
	reg(h+"WriteString", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off, s := get(g, a[0])
		put(g, o, off, s+g.w.cs(a[1]))
		return ret(Value{P: &Agg{v: []Value{{N: uint64(strLen(a[1]))}, {}}}})
	})
	reg(h+"Sum128", func(g *Gor, fn *Func, a []Value) (Value, int) {
		_, _, s := get(g, a[0])
		return ret(hash128(s))
	})
	reg(h+"Sum64", func(g *Gor, fn *Func, a []Value) (Value, int) {
		_, _, s := get(g, a[0])
		return ret(hash128(s).P.(*Agg).v[0])
	})
	reg(h+"Reset", func(g *Gor, fn *Func, a []Value) (Value, int) {
		o, off, _ := get(g, a[0])
		put(g, o, off, "")
		return ret(Value{})
	})
}

func init() {
	reg("slices.overlaps", func(g *Gor, fn *Func, a []Value) (Value, int) {
		x, ok1 := a[0].P.(*Slice)
		y, ok2 := a[1].P.(*Slice)
		if !ok1 || !ok2 || x.len == 0 || y.len == 0 || x.obj != y.obj {
			return ret(Value{})
		}
		n := 1
		if et := rtype(fn.fn.Signature.Params().At(0).Type()).elem; et != nil && et.slots > 0 {
			n = et.slots
		}
		return ret(b2v(x.off < y.off+y.len*n && y.off < x.off+x.len*n))
	})
	reg("maps.clone", func(g *Gor, fn *Func, a []Value) (Value, int) {
		w := g.w
		i := a[0].P.(*Iface)
		m, ok := i.v.P.(*MapV)
		if !ok {
			return ret(a[0])
		}
		if w.raceOn {
			w.race(m.hdr, 0, false)
		}
		n := w.newMap(m.kt)
		n.d = m.d.clone()
		return ret(Value{P: &Iface{t: i.t, v: Value{P: n}}})
	})
}
