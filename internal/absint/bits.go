// Package absint is a path-sensitive abstract interpreter over go/ssa.
//
// Event sets (uint32 bit masks) are abstracted by the Boolean-function domain
// of this file: a set-valued expression is, for every class of bits that the
// analysed code treats alike, a Boolean function of the input set variables.
// All of Go's bitwise operators act pointwise on that domain, and the two
// predicates the code can ask of a set (is it empty, is it non-empty) turn
// into a care-set restriction and an existence constraint. The domain is
// exact for code that combines sets with & | ^ &^ and compares them with
// == and !=.
package absint

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// NV is the number of set variables that may be live at once.
const NV = 9
const ttWords = (1 << NV) / 64

// TT is the truth table of a Boolean function of NV variables.
type TT [ttWords]uint64

var ttTrue, ttFalse TT
var ttVar [NV]TT

func init() {
	for i := range ttTrue {
		ttTrue[i] = ^uint64(0)
	}
	for v := 0; v < NV; v++ {
		for x := 0; x < 1<<NV; x++ {
			if x>>uint(v)&1 == 1 {
				ttVar[v][x/64] |= 1 << uint(x%64)
			}
		}
	}
}

func (a TT) and(b TT) (r TT) {
	for i := range a {
		r[i] = a[i] & b[i]
	}
	return
}
func (a TT) or(b TT) (r TT) {
	for i := range a {
		r[i] = a[i] | b[i]
	}
	return
}
func (a TT) xor(b TT) (r TT) {
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return
}
func (a TT) andnot(b TT) (r TT) {
	for i := range a {
		r[i] = a[i] &^ b[i]
	}
	return
}
func (a TT) not() (r TT) {
	for i := range a {
		r[i] = ^a[i]
	}
	return
}
func (a TT) zero() bool { return a == ttFalse }

// depends reports whether a depends on variable v.
func (a TT) depends(v int) bool {
	if v >= 6 {
		s := 1 << uint(v-6)
		for i := range a {
			if i&s == 0 && a[i] != a[i|s] {
				return true
			}
		}
		return false
	}
	sh := uint(1) << uint(v)
	m := ^ttVar[v][0]
	for i := range a {
		if (a[i]^(a[i]>>sh))&m != 0 {
			return true
		}
	}
	return false
}

// exists projects variable v away existentially.
func (a TT) exists(v int) (r TT) {
	if v >= 6 {
		s := 1 << uint(v-6)
		for i := range a {
			if i&s == 0 {
				r[i] = a[i] | a[i|s]
				r[i|s] = r[i]
			}
		}
		return
	}
	sh := uint(1) << uint(v)
	hi := ttVar[v][0]
	for i := range a {
		lo := (a[i] &^ hi) | ((a[i] & hi) >> sh)
		r[i] = lo | lo<<sh
	}
	return
}

// permute renames variable v to p[v] (p is a partial injection, -1: must not
// be depended on).
func (a TT) permute(p *[NV]int) (r TT) {
	same := true
	for v := 0; v < NV; v++ {
		if p[v] >= 0 && p[v] != v {
			same = false
		}
	}
	if same {
		return a
	}
	// complete p to a permutation and carry it out as a series of exchanges
	var q, at, who [NV]int
	used := 0
	for v := range q {
		q[v] = -1
		if p[v] >= 0 && a.depends(v) {
			q[v] = p[v]
			used |= 1 << uint(p[v])
		}
	}
	for v := range q {
		if q[v] >= 0 {
			continue
		}
		for t := 0; t < NV; t++ {
			if used>>uint(t)&1 == 0 {
				q[v] = t
				used |= 1 << uint(t)
				break
			}
		}
	}
	for v := range at {
		at[v], who[v] = v, v
	}
	r = a
	for v := range q {
		i, j := at[v], q[v]
		if i == j {
			continue
		}
		r.swap(i, j)
		w := who[j]
		at[v], at[w], who[j], who[i] = j, i, v, w
	}
	return
}

// swap exchanges two variables.
func (a *TT) swap(i, j int) {
	if i > j {
		i, j = j, i
	}
	switch {
	case j < 6:
		sh := uint(1)<<uint(j) - uint(1)<<uint(i)
		m := ttVar[i][0] &^ ttVar[j][0]
		for k, w := range a {
			t := (w>>sh ^ w) & m
			a[k] = w ^ t ^ t<<sh
		}
	case i < 6:
		sh := uint(1) << uint(i)
		hi := ttVar[i][0]
		s := 1 << uint(j-6)
		for k := range a {
			if k&s == 0 {
				x, y := a[k], a[k|s]
				a[k] = x&^hi | (y&^hi)<<sh
				a[k|s] = y&hi | (x&hi)>>sh
			}
		}
	default:
		si, sj := 1<<uint(i-6), 1<<uint(j-6)
		for k := range a {
			if k&si != 0 && k&sj == 0 {
				o := k&^si | sj
				a[k], a[o] = a[o], a[k]
			}
		}
	}
}

func (a TT) hash() uint64 {
	h := uint64(14695981039346656037)
	for _, w := range a {
		h = (h ^ w) * 1099511628211
		h = bits.RotateLeft64(h, 23) * 0x9E3779B97F4A7C15
	}
	return h
}

// Classes is a partition of the 32 bits.
type Classes struct {
	Mask []uint32 // mask of each class
}

// Partition builds the coarsest partition that every constant respects.
func Partition(consts []uint32) *Classes {
	sig := map[string]uint32{}
	var keys []string
	for b := 0; b < 32; b++ {
		var sb strings.Builder
		for _, c := range consts {
			if c>>uint(b)&1 == 1 {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		k := sb.String()
		if _, ok := sig[k]; !ok {
			keys = append(keys, k)
		}
		sig[k] |= 1 << uint(b)
	}
	cl := &Classes{}
	for _, k := range keys {
		cl.Mask = append(cl.Mask, sig[k])
	}
	sort.Slice(cl.Mask, func(i, j int) bool {
		return bits.TrailingZeros32(cl.Mask[i]) < bits.TrailingZeros32(cl.Mask[j])
	})
	return cl
}

// BV is a set-valued abstract expression: one truth table per class.
type BV []TT

func (cl *Classes) constBV(c uint32) (BV, bool) {
	r := make(BV, len(cl.Mask))
	for k, m := range cl.Mask {
		switch c & m {
		case m:
			r[k] = ttTrue
		case 0:
		default:
			return nil, false
		}
	}
	return r, true
}

func (cl *Classes) varBV(v int) BV {
	r := make(BV, len(cl.Mask))
	for k := range r {
		r[k] = ttVar[v]
	}
	return r
}

func bvop(a, b BV, f func(x, y TT) TT) BV {
	r := make(BV, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

// And, Or, Xor, AndNot and Not are the pointwise set operations.
func (a BV) And(b BV) BV    { return bvop(a, b, TT.and) }
func (a BV) Or(b BV) BV     { return bvop(a, b, TT.or) }
func (a BV) Xor(b BV) BV    { return bvop(a, b, TT.xor) }
func (a BV) AndNot(b BV) BV { return bvop(a, b, TT.andnot) }
func (a BV) Not() BV {
	r := make(BV, len(a))
	for i := range a {
		r[i] = a[i].not()
	}
	return r
}

// EqualBV is syntactic (pointwise) equality.
func (a BV) EqualBV(b BV) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a BV) isConst(cl *Classes) (uint32, bool) {
	var c uint32
	for k := range a {
		switch a[k] {
		case ttTrue:
			c |= cl.Mask[k]
		case ttFalse:
		default:
			return 0, false
		}
	}
	return c, true
}

func (a BV) deps() (m uint) {
	for v := 0; v < NV; v++ {
		for k := range a {
			if a[k].depends(v) {
				m |= 1 << uint(v)
				break
			}
		}
	}
	return
}

// ---- constraints on the set variables of one state

// Cond is the conjunction of constraints on set variables.
type Cond struct {
	Care  []TT // per class: valuations a bit of the class may have
	Exist []BV // each: some bit satisfies it
	used  uint // allocated variables
}

func (c *Cond) clone() *Cond {
	n := &Cond{Care: append([]TT(nil), c.Care...), used: c.used}
	n.Exist = append([]BV(nil), c.Exist...)
	return n
}

// sat checks that every existence constraint can be met; single-bit classes
// carry one valuation only, which is taken into account for constraints that
// only that class can meet.
func (c *Cond) sat(cl *Classes) bool {
	for k := range c.Care {
		if c.Care[k].zero() {
			return false
		}
	}
	var single map[int]TT
	for _, e := range c.Exist {
		n, at := 0, -1
		for k := range e {
			if !e[k].and(c.Care[k]).zero() {
				n++
				at = k
			}
		}
		if n == 0 {
			return false
		}
		if n == 1 && bits.OnesCount32(cl.Mask[at]) == 1 {
			if single == nil {
				single = map[int]TT{}
			}
			cur, ok := single[at]
			if !ok {
				cur = c.Care[at]
			}
			cur = cur.and(e[at])
			if cur.zero() {
				return false
			}
			single[at] = cur
		}
	}
	if single != nil {
		// A forced valuation set is a care-set restriction.
		changed := false
		for k, t := range single {
			if c.Care[k] != t {
				c.Care[k] = t
				changed = true
			}
		}
		if changed {
			return c.sat(cl)
		}
	}
	return true
}

func (c *Cond) assumeZero(cl *Classes, b BV) bool {
	for k := range c.Care {
		c.Care[k] = c.Care[k].andnot(b[k])
	}
	return c.sat(cl)
}

func (c *Cond) assumeNonzero(cl *Classes, b BV) bool {
	e := make(BV, len(b))
	for k := range b {
		e[k] = b[k].and(c.Care[k])
	}
	c.Exist = append(c.Exist, e)
	return c.sat(cl)
}

// zeroness: 0 = definitely empty, 1 = definitely non-empty, -1 = unknown.
func (c *Cond) zeroness(b BV) int {
	allz := true
	for k := range b {
		x := b[k].and(c.Care[k])
		if !x.zero() {
			allz = false
			if x == c.Care[k] {
				return 1
			}
		}
	}
	if allz {
		return 0
	}
	for _, e := range c.Exist {
		ok := true
		for k := range e {
			if !e[k].and(c.Care[k]).andnot(b[k]).zero() {
				ok = false
				break
			}
		}
		if ok {
			return 1
		}
	}
	return -1
}

// project removes variable v.
func (c *Cond) project(v int) {
	for i, e := range c.Exist {
		n := make(BV, len(e))
		for k := range e {
			n[k] = e[k].and(c.Care[k]).exists(v)
		}
		c.Exist[i] = n
	}
	for k := range c.Care {
		c.Care[k] = c.Care[k].exists(v)
	}
	c.used &^= 1 << uint(v)
	c.simplify()
}

// simplify drops existence constraints that always hold or that another one
// implies.
func (c *Cond) simplify() {
	var out []BV
	for i, e := range c.Exist {
		n := make(BV, len(e))
		triv := false
		for k := range e {
			n[k] = e[k].and(c.Care[k])
			if !n[k].zero() && n[k] == c.Care[k] {
				triv = true
			}
		}
		if triv {
			continue
		}
		c.Exist[i] = n
		out = append(out, n)
	}
	// implied ones: e is implied by f when f <= e
	var keep []BV
	for i, e := range out {
		impl := false
		for j, f := range out {
			if i == j {
				continue
			}
			le := true
			for k := range e {
				if !f[k].andnot(e[k]).zero() {
					le = false
					break
				}
			}
			if le && (j < i || !f.EqualBV(e)) {
				impl = true
				break
			}
		}
		if !impl {
			keep = append(keep, e)
		}
	}
	c.Exist = keep
}

// describe renders b over names for reports.
func (cl *Classes) describe(b BV, c *Cond, name func(int) string, cname func(uint32) string) string {
	var parts []string
	for k := range b {
		x := b[k].and(c.Care[k])
		if x.zero() {
			continue
		}
		if x == c.Care[k] {
			parts = append(parts, cname(cl.Mask[k]))
			continue
		}
		var vs []string
		for v := 0; v < NV; v++ {
			if b[k].depends(v) {
				vs = append(vs, name(v))
			}
		}
		parts = append(parts, fmt.Sprintf("%s?(%s)", cname(cl.Mask[k]), strings.Join(vs, ",")))
	}
	if len(parts) == 0 {
		return "0"
	}
	return strings.Join(parts, "|")
}
