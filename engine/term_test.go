package main

import (
	"math/rand"
	"testing"
)

// Random terms: the simplified term must evaluate to the value computed by
// applying the plain operation to the operands' values, and stay in its
// intervals.
func TestSimplifier(t *testing.T) {
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		m := NewTermMgr()
		ws := []uint8{8, 16, 64}
		var vars []*Term
		for i := 0; i < 4; i++ {
			w := []uint8{3, 8, 8, 16}[r.Intn(4)]
			lo, up := uint64(0), mask(w)
			if r.Intn(2) == 0 {
				lo = uint64(r.Intn(int(up)))
				up = lo + uint64(r.Intn(int(up-lo)+1))
			}
			vars = append(vars, m.Var(string(rune('a'+i)), w, lo, up))
		}
		model := map[int32]uint64{}
		for _, v := range vars {
			model[v.id] = v.lo + uint64(r.Int63n(int64(v.up-v.lo+1)))
		}
		type tv struct {
			t *Term
			v uint64
		}
		pool := map[uint8][]tv{}
		for _, v := range vars {
			for _, w := range ws {
				if w >= v.w {
					x := tv{m.ZExt(v, w), model[v.id]}
					pool[w] = append(pool[w], x)
					y := tv{m.SExt(v, w), uint64(sext(model[v.id], v.w)) & mask(w)}
					pool[w] = append(pool[w], y)
				}
			}
		}
		pick := func(w uint8) tv {
			if len(pool[w]) == 0 || r.Intn(4) == 0 {
				c := uint64(r.Intn(5))
				if r.Intn(2) == 0 {
					c = -c
				}
				if r.Intn(4) == 0 {
					c = r.Uint64() >> uint(r.Intn(60))
				}
				return tv{m.Const(c, w), c & mask(w)}
			}
			return pool[w][r.Intn(len(pool[w]))]
		}
		var bools []tv
		m.gen++
		chk := func(what string, x tv) {
			got := m.Eval(x.t, model)
			if got != x.v {
				t.Fatalf("seed %d: %s: got %d want %d", seed, what, got, x.v)
			}
			if x.t.w > 0 && (got < x.t.lo || got > x.t.up || sext(got, x.t.w) < x.t.slo || sext(got, x.t.w) > x.t.sup) {
				t.Fatalf("seed %d: %s: %d outside of [%d %d] [%d %d]", seed, what, got, x.t.lo, x.t.up, x.t.slo, x.t.sup)
			}
		}
		bv := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for step := 0; step < 40; step++ {
			w := ws[r.Intn(3)]
			a, b := pick(w), pick(w)
			var x tv
			what := ""
			switch k := r.Intn(22); k {
			case 0, 1, 2:
				x, what = tv{m.Add(a.t, b.t), (a.v + b.v) & mask(w)}, "add"
			case 3, 4:
				x, what = tv{m.Sub(a.t, b.t), (a.v - b.v) & mask(w)}, "sub"
			case 5:
				x, what = tv{m.Mul(a.t, b.t), (a.v * b.v) & mask(w)}, "mul"
			case 6:
				x, what = tv{m.BAnd(a.t, b.t), a.v & b.v}, "and"
			case 7:
				x, what = tv{m.BOr(a.t, b.t), a.v | b.v}, "or"
			case 8:
				x, what = tv{m.BXor(a.t, b.t), a.v ^ b.v}, "xor"
			case 9:
				x, what = tv{m.Neg(a.t), -a.v & mask(w)}, "neg"
			case 10:
				n := uint64(r.Intn(int(w)))
				x, what = tv{m.Shl(a.t, m.Const(n, w)), a.v << n & mask(w)}, "shl"
			case 11:
				n := uint64(r.Intn(int(w)))
				x, what = tv{m.LShr(a.t, m.Const(n, w)), a.v >> n}, "lshr"
			case 12:
				n := uint64(r.Intn(int(w)))
				x, what = tv{m.AShr(a.t, m.Const(n, w)), uint64(sext(a.v, w)>>n) & mask(w)}, "ashr"
			case 13:
				c := r.Intn(int(w))
				l := r.Intn(c + 1)
				x, what = tv{m.ZExt(m.Extract(a.t, uint8(c), uint8(l)), w), a.v >> l & mask(uint8(c-l+1))}, "extract"
			case 14, 15:
				if len(bools) == 0 {
					continue
				}
				c := bools[r.Intn(len(bools))]
				v := b.v
				if c.v == 1 {
					v = a.v
				}
				x, what = tv{m.Ite(c.t, a.t, b.t), v}, "ite"
			case 16:
				if w < 64 {
					a2 := tv{m.ZExt(a.t, 64), a.v}
					chk("zext", a2)
					pool[64] = append(pool[64], a2)
					continue
				}
				a2 := tv{m.Extract(a.t, 7, 0), a.v & 255}
				chk("trunc", a2)
				pool[8] = append(pool[8], a2)
				continue
			case 17:
				a2 := tv{m.SExt(a.t, 64), uint64(sext(a.v, w))}
				chk("sext", a2)
				pool[64] = append(pool[64], a2)
				continue
			default:
				var c tv
				switch r.Intn(5) {
				case 0:
					c, what = tv{m.Eq(a.t, b.t), bv(a.v == b.v)}, "eq"
				case 1:
					c, what = tv{m.Ult(a.t, b.t), bv(a.v < b.v)}, "ult"
				case 2:
					c, what = tv{m.Ule(a.t, b.t), bv(a.v <= b.v)}, "ule"
				case 3:
					c, what = tv{m.Slt(a.t, b.t), bv(sext(a.v, w) < sext(b.v, w))}, "slt"
				case 4:
					c, what = tv{m.Sle(a.t, b.t), bv(sext(a.v, w) <= sext(b.v, w))}, "sle"
				}
				if r.Intn(3) == 0 {
					c = tv{m.Not(c.t), 1 - c.v}
				}
				if len(bools) > 0 && r.Intn(3) == 0 {
					d := bools[r.Intn(len(bools))]
					if r.Intn(2) == 0 {
						c = tv{m.And(c.t, d.t), c.v & d.v}
					} else {
						c = tv{m.Or(c.t, d.t), c.v | d.v}
					}
				}
				chk(what, c)
				bools = append(bools, c)
				continue
			}
			chk(what, x)
			pool[w] = append(pool[w], x)
		}
	}
}
