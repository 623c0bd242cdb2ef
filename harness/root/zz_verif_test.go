// Search for failing inputs of the properties of /verif/properties.jsonl on
// the real code of package zeropb. This file is compiled into the package by
// 'go test -overlay'; it never lives in /repo. The oracle (vfParse and the
// functions below it) is written from the protobuf wire format alone.
//
// Everything is a function of (VERIF_SEED, case number): a case is replayed by
// running it again with VERIF_CASE=<n>.

package zeropb

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- plumbing

type vfCtx struct {
	prop     string
	rng      *rand.Rand
	k        int
	size     int // grows with k
	trace    []string
	failed   bool
	evals    int
	progress int64
}

type vfReport struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Test     string   `json:"test"`
	What     string   `json:"what"`
	Trace    []string `json:"trace"`
}

type vfStop struct{}

func (c *vfCtx) log(format string, args ...interface{}) {
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
	atomic.AddInt64(&c.progress, 1)
}

// fail records a violation of the property under search and ends the case.
func (c *vfCtx) fail(format string, args ...interface{}) {
	if c.failed {
		panic(vfStop{})
	}
	c.failed = true
	vfWrite(c, fmt.Sprintf(format, args...))
	panic(vfStop{})
}

func vfWrite(c *vfCtx, what string) {
	r := vfReport{Property: c.prop, Seed: vfEnvInt("VERIF_SEED", 1), Case: c.k, Test: "TestVerifSearch", What: what, Trace: c.trace}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, _ := json.MarshalIndent(r, "", " ")
		ioutil.WriteFile(out, b, 0644)
	}
	fmt.Printf("VERIF-FAIL property=%s case=%d: %s\n", c.prop, c.k, what)
}

func vfEnvInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func vfHex(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x..(%d bytes)", b[:96], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// try runs f; a panic or a fault is a violation.
func (c *vfCtx) try(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vfStop); ok {
				panic(r)
			}
			c.fail("%s panicked: %v", what, r)
		}
	}()
	f()
}

// quiet runs f and reports whether it returned normally.
func (c *vfCtx) quiet(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, stop := r.(vfStop); stop {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

// ---------------------------------------------------------------- oracle

// vfUvarint reads a varint of at most 64 bits; n <= 0 if there is none.
func vfUvarint(b []byte) (x uint64, n int) {
	var hi, lo uint64 // 128-bit accumulator, enough for 10 groups of 7 bits
	for i := 0; i < len(b) && i < 10; i++ {
		g := uint64(b[i] & 0x7f)
		sh := uint(7 * i)
		lo |= g << sh
		if sh > 57 {
			hi |= g >> (64 - sh)
		}
		if b[i] < 0x80 {
			if hi != 0 {
				return 0, 0
			}
			return lo, i + 1
		}
	}
	return 0, 0
}

func vfPutUvarint(x uint64) []byte {
	var out []byte
	for x >= 0x80 {
		out = append(out, byte(x&0x7f)|0x80)
		x >>= 7
	}
	return append(out, byte(x))
}

type vfRec struct {
	begin, data, end int
	field            uint64
	typ              int
	canon            bool   // minimal tag
	content          []byte // contents of a length-delimited record
	val              uint64 // value of the others
	raw              []byte
}

// vfParse splits b into records; ok is false if b is not well-formed.
func vfParse(b []byte) (recs []vfRec, ok bool) {
	i := 0
	for i < len(b) {
		r := vfRec{begin: i}
		tag, n := vfUvarint(b[i:])
		if n <= 0 {
			return nil, false
		}
		r.field, r.typ = tag>>3, int(tag&7)
		r.canon = n == len(vfPutUvarint(tag))
		i += n
		r.data = i
		switch r.typ {
		case 0:
			v, n := vfUvarint(b[i:])
			if n <= 0 {
				return nil, false
			}
			r.val = v
			i += n
		case 1, 5:
			w := 8
			if r.typ == 5 {
				w = 4
			}
			if len(b)-i < w {
				return nil, false
			}
			for j := w - 1; j >= 0; j-- {
				r.val = r.val<<8 | uint64(b[i+j])
			}
			i += w
		case 2:
			v, n := vfUvarint(b[i:])
			if n <= 0 || v > uint64(len(b)-i-n) {
				return nil, false
			}
			i += n
			r.content = b[i : i+int(v)]
			i += int(v)
		default:
			return nil, false
		}
		r.end = i
		r.raw = b[r.begin:i]
		recs = append(recs, r)
	}
	return recs, true
}

// ---------------------------------------------------------------- kinds

type vfKind struct {
	name string
	typ  int
	get  func(b []byte, o Offsets, f int) interface{}
	set  func(b *[]byte, o Offsets, f int, v interface{})
	gen  func(c *vfCtx) interface{}
	want func(r *vfRec) interface{} // value of a record, or of no record (nil)
	enc  func(v interface{}) []byte
}

func vfU64(c *vfCtx) uint64 {
	switch c.rng.Intn(6) {
	case 0:
		return uint64(c.rng.Intn(3))
	case 1:
		return math.MaxUint64 - uint64(c.rng.Intn(3))
	case 2:
		return 1<<uint(c.rng.Intn(64)) - uint64(c.rng.Intn(2))
	case 3:
		return -(uint64(1) << uint(c.rng.Intn(64)))
	default:
		return c.rng.Uint64() >> uint(c.rng.Intn(64))
	}
}

func vfLE(x uint64, n int) []byte {
	var out []byte
	for i := 0; i < n; i++ {
		out = append(out, byte(x>>uint(8*i)))
	}
	return out
}

func vfVal(r *vfRec) uint64 {
	if r == nil {
		return 0
	}
	return r.val
}

func vfUnzig(x uint64) uint64 {
	v := x >> 1
	if x&1 == 1 {
		v = ^v
	}
	return v
}

func vfZig(x int64) uint64 {
	if x < 0 {
		return ^(uint64(x) << 1)
	}
	return uint64(x) << 1
}

func vfLenDelim(b []byte) []byte { return append(vfPutUvarint(uint64(len(b))), b...) }

var vfKinds []vfKind

func init() { vfKinds = vfMakeKinds() }

func vfMakeKinds() []vfKind {
	return []vfKind{
		{"bool", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetBool(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetBool(b, o, f, v.(bool)) },
			func(c *vfCtx) interface{} { return c.rng.Intn(2) == 0 },
			func(r *vfRec) interface{} { return vfVal(r) != 0 },
			func(v interface{}) []byte {
				if v.(bool) {
					return []byte{1}
				}
				return []byte{0}
			}},
		{"int32", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetInt32(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetInt32(b, o, f, v.(int32)) },
			func(c *vfCtx) interface{} { return int32(vfU64(c)) },
			func(r *vfRec) interface{} { return int32(uint32(vfVal(r))) },
			func(v interface{}) []byte { return vfPutUvarint(uint64(int64(v.(int32)))) }},
		{"int64", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetInt64(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetInt64(b, o, f, v.(int64)) },
			func(c *vfCtx) interface{} { return int64(vfU64(c)) },
			func(r *vfRec) interface{} { return int64(vfVal(r)) },
			func(v interface{}) []byte { return vfPutUvarint(uint64(v.(int64))) }},
		{"uint32", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetUint32(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetUint32(b, o, f, v.(uint32)) },
			func(c *vfCtx) interface{} { return uint32(vfU64(c)) },
			func(r *vfRec) interface{} { return uint32(vfVal(r)) },
			func(v interface{}) []byte { return vfPutUvarint(uint64(v.(uint32))) }},
		{"uint64", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetUint64(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetUint64(b, o, f, v.(uint64)) },
			func(c *vfCtx) interface{} { return vfU64(c) },
			func(r *vfRec) interface{} { return vfVal(r) },
			func(v interface{}) []byte { return vfPutUvarint(v.(uint64)) }},
		{"sint32", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetZigZagInt32(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetZigZagInt32(b, o, f, v.(int32)) },
			func(c *vfCtx) interface{} { return int32(vfU64(c)) },
			func(r *vfRec) interface{} { return int32(uint32(vfUnzig(vfVal(r)))) },
			func(v interface{}) []byte { return vfPutUvarint(uint64(uint32(vfZig(int64(v.(int32)))))) }},
		{"sint64", 0,
			func(b []byte, o Offsets, f int) interface{} { return GetZigZagInt64(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetZigZagInt64(b, o, f, v.(int64)) },
			func(c *vfCtx) interface{} { return int64(vfU64(c)) },
			func(r *vfRec) interface{} { return int64(vfUnzig(vfVal(r))) },
			func(v interface{}) []byte { return vfPutUvarint(vfZig(v.(int64))) }},
		{"fixed32", 5,
			func(b []byte, o Offsets, f int) interface{} { return GetFixedUint32(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetFixedUint32(b, o, f, v.(uint32)) },
			func(c *vfCtx) interface{} { return uint32(vfU64(c)) },
			func(r *vfRec) interface{} { return uint32(vfVal(r)) },
			func(v interface{}) []byte { return vfLE(uint64(v.(uint32)), 4) }},
		{"fixed64", 1,
			func(b []byte, o Offsets, f int) interface{} { return GetFixedUint64(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetFixedUint64(b, o, f, v.(uint64)) },
			func(c *vfCtx) interface{} { return vfU64(c) },
			func(r *vfRec) interface{} { return vfVal(r) },
			func(v interface{}) []byte { return vfLE(v.(uint64), 8) }},
		{"sfixed32", 5,
			func(b []byte, o Offsets, f int) interface{} { return GetFixedInt32(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetFixedInt32(b, o, f, v.(int32)) },
			func(c *vfCtx) interface{} { return int32(vfU64(c)) },
			func(r *vfRec) interface{} { return int32(uint32(vfVal(r))) },
			func(v interface{}) []byte { return vfLE(uint64(uint32(v.(int32))), 4) }},
		{"sfixed64", 1,
			func(b []byte, o Offsets, f int) interface{} { return GetFixedInt64(b, o, f) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetFixedInt64(b, o, f, v.(int64)) },
			func(c *vfCtx) interface{} { return int64(vfU64(c)) },
			func(r *vfRec) interface{} { return int64(vfVal(r)) },
			func(v interface{}) []byte { return vfLE(uint64(v.(int64)), 8) }},
		// Floats travel as their bit patterns, so that NaNs compare.
		{"float", 5,
			func(b []byte, o Offsets, f int) interface{} { return math.Float32bits(GetFloat32(b, o, f)) },
			func(b *[]byte, o Offsets, f int, v interface{}) {
				SetFloat32(b, o, f, math.Float32frombits(v.(uint32)))
			},
			func(c *vfCtx) interface{} {
				switch c.rng.Intn(5) {
				case 0:
					return uint32(0x7fc00000 | c.rng.Intn(1<<22)) // quiet NaNs
				case 1:
					return uint32(0xffc00000 | c.rng.Intn(1<<22))
				case 2:
					return uint32(c.rng.Intn(2)) << 31
				case 3:
					return uint32(c.rng.Intn(1 << 23)) // subnormal
				}
				return math.Float32bits(float32(c.rng.NormFloat64()))
			},
			func(r *vfRec) interface{} { return uint32(vfVal(r)) },
			func(v interface{}) []byte { return vfLE(uint64(v.(uint32)), 4) }},
		{"double", 1,
			func(b []byte, o Offsets, f int) interface{} { return math.Float64bits(GetFloat64(b, o, f)) },
			func(b *[]byte, o Offsets, f int, v interface{}) {
				SetFloat64(b, o, f, math.Float64frombits(v.(uint64)))
			},
			func(c *vfCtx) interface{} {
				switch c.rng.Intn(5) {
				case 0:
					return uint64(0x7ff8000000000000) | c.rng.Uint64()>>13
				case 1:
					return uint64(0xfff8000000000000) | c.rng.Uint64()>>13
				case 2:
					return uint64(c.rng.Intn(2)) << 63
				case 3:
					return c.rng.Uint64() >> 12
				}
				return math.Float64bits(c.rng.NormFloat64())
			},
			func(r *vfRec) interface{} { return vfVal(r) },
			func(v interface{}) []byte { return vfLE(v.(uint64), 8) }},
		{"string", 2,
			func(b []byte, o Offsets, f int) interface{} { return vfCopyString(GetString(b, o, f)) },
			func(b *[]byte, o Offsets, f int, v interface{}) { SetString(b, o, f, v.(string)) },
			func(c *vfCtx) interface{} { return string(vfBlob(c)) },
			func(r *vfRec) interface{} {
				if r == nil {
					return ""
				}
				return string(r.content)
			},
			func(v interface{}) []byte { return vfLenDelim([]byte(v.(string))) }},
		{"bytes", 2,
			func(b []byte, o Offsets, f int) interface{} {
				x := GetBytes(b, o, f)
				if x == nil {
					return "nil"
				}
				return "x" + string(x)
			},
			func(b *[]byte, o Offsets, f int, v interface{}) { SetBytes(b, o, f, []byte(v.(string)[1:])) },
			func(c *vfCtx) interface{} { return "x" + string(vfBlob(c)) },
			func(r *vfRec) interface{} {
				if r == nil {
					return "nil"
				}
				return "x" + string(r.content)
			},
			func(v interface{}) []byte { return vfLenDelim([]byte(v.(string)[1:])) }},
	}
}

func vfCopyString(s string) string { return string(append([]byte(nil), s...)) }

func vfShow(v interface{}) string {
	switch x := v.(type) {
	case string:
		if len(x) > 60 {
			return fmt.Sprintf("%q..(%d bytes)", x[:60], len(x))
		}
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%v", v)
}

func vfBlob(c *vfCtx) []byte {
	var n int
	switch c.rng.Intn(8) {
	case 0, 1:
		n = 0
	case 2:
		n = 126 + c.rng.Intn(4)
	case 3:
		if c.size > 3 {
			n = 16382 + c.rng.Intn(4)
		}
	case 4:
		if c.size > 4 {
			n = 65500 + c.rng.Intn(80)
		}
	default:
		n = c.rng.Intn(20)
	}
	b := make([]byte, n)
	c.rng.Read(b)
	if n > 0 && c.rng.Intn(3) == 0 {
		// Contents that look like records.
		r := vfGenRecords(c, nil, 3)
		copy(b, r)
	}
	return b
}

// ---------------------------------------------------------------- messages

type vfSchema struct {
	max    int
	kind   map[int]int // single field -> kind
	rep    map[int]bool
	single []int
	reps   []int
}

func vfGenSchema(c *vfCtx) *vfSchema {
	s := &vfSchema{kind: map[int]int{}, rep: map[int]bool{}}
	n := 1 + c.rng.Intn(8)
	for i := 0; i < n; i++ {
		var f int
		switch c.rng.Intn(8) {
		case 0:
			f = 15 + c.rng.Intn(3)
		case 1:
			f = 2045 + c.rng.Intn(6)
		case 2:
			f = 1 + c.rng.Intn(300)
		default:
			f = 1 + c.rng.Intn(20)
		}
		if f > s.max {
			s.max = f
		}
		if _, ok := s.kind[f]; ok || s.rep[f] {
			continue
		}
		if c.rng.Intn(4) == 0 {
			s.rep[f] = true
			s.reps = append(s.reps, f)
		} else {
			s.kind[f] = c.rng.Intn(len(vfKinds))
			s.single = append(s.single, f)
		}
	}
	return s
}

func (s *vfSchema) repeated() RepeatedFields {
	r := RepeatedFields{}
	for f := range s.rep {
		r[f] = struct{}{}
	}
	return r
}

func (s *vfSchema) String() string {
	var fs []string
	for _, f := range s.single {
		fs = append(fs, fmt.Sprintf("%d:%s", f, vfKinds[s.kind[f]].name))
	}
	for _, f := range s.reps {
		fs = append(fs, fmt.Sprintf("%d:repeated bytes", f))
	}
	return fmt.Sprintf("index length %d, fields %s", s.max+1, strings.Join(fs, " "))
}

// vfVarint encodes x, sometimes not minimally.
func vfVarint(c *vfCtx, x uint64, oddly bool) []byte {
	b := vfPutUvarint(x)
	if oddly && c.rng.Intn(6) == 0 {
		for len(b) < 10 && c.rng.Intn(2) == 0 {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
	}
	return b
}

func vfGenPayload(c *vfCtx, typ int, deep int) []byte {
	switch typ {
	case 0:
		return vfVarint(c, vfU64(c), true)
	case 1:
		return vfLE(vfU64(c), 8)
	case 5:
		return vfLE(vfU64(c), 4)
	default:
		if deep > 0 && c.rng.Intn(3) == 0 {
			in := vfGenRecords(c, nil, deep-1)
			return append(vfVarint(c, uint64(len(in)), true), in...)
		}
		var b []byte
		if deep > 2 {
			b = vfBlob(c)
		} else {
			b = make([]byte, c.rng.Intn(9))
			c.rng.Read(b)
		}
		return append(vfVarint(c, uint64(len(b)), true), b...)
	}
}

// vfGenRecords makes well-formed bytes; s may be nil.
func vfGenRecords(c *vfCtx, s *vfSchema, deep int) []byte {
	var out []byte
	n := c.rng.Intn(2 + deep*2)
	odd := c.rng.Intn(3) == 0
	types := []int{0, 1, 2, 5}
	for i := 0; i < n; i++ {
		var f uint64
		typ := types[c.rng.Intn(4)]
		known := false
		if s != nil && c.rng.Intn(4) > 0 {
			known = true
			if len(s.reps) > 0 && (len(s.single) == 0 || c.rng.Intn(2) == 0) {
				f = uint64(s.reps[c.rng.Intn(len(s.reps))])
				if !odd || c.rng.Intn(5) > 0 {
					typ = 2
				}
			} else {
				fi := s.single[c.rng.Intn(len(s.single))]
				f = uint64(fi)
				if !odd || c.rng.Intn(5) > 0 {
					typ = vfKinds[s.kind[fi]].typ
				}
			}
		}
		if !known {
			switch c.rng.Intn(5) {
			case 0:
				f = uint64(c.rng.Intn(30))
			case 1:
				f = 1<<uint(c.rng.Intn(61)) - uint64(c.rng.Intn(2))
			case 2:
				f = 1<<29 - 1
			default:
				if s != nil {
					f = uint64(s.max + c.rng.Intn(3))
				} else {
					f = uint64(1 + c.rng.Intn(5))
				}
			}
			if s != nil && !odd {
				// Keep the wire types of known fields right.
				if s.rep[int(f)] {
					typ = 2
				} else if k, ok := s.kind[int(f)]; ok {
					typ = vfKinds[k].typ
				}
			}
		}
		out = append(out, vfVarint(c, f<<3|uint64(typ), odd)...)
		out = append(out, vfGenPayload(c, typ, deep)...)
	}
	return out
}

// vfMsg is a message over raw memory: its buffer lives in an arena with guard
// bytes on both sides.
type vfMsg struct {
	s    *vfSchema
	buf  []byte
	a    []uint16
	m    map[int]uint64
	reps RepeatedFields
}

func (m *vfMsg) o() Offsets { return WrapOffsets(m.a, &m.m) }

func vfNewMsg(s *vfSchema) *vfMsg {
	return &vfMsg{s: s, a: make([]uint16, s.max+1), reps: s.repeated()}
}

// place puts b into fresh memory with some spare capacity.
func vfPlace(c *vfCtx, b []byte) []byte {
	spare := 0
	switch c.rng.Intn(3) {
	case 0:
		spare = c.rng.Intn(30)
	case 1:
		spare = 1000 + c.rng.Intn(70000)
	}
	buf := make([]byte, len(b), len(b)+spare)
	copy(buf, b)
	junk := buf[len(b):cap(buf)]
	for i := range junk {
		junk[i] = byte(0x80 + i) // continuation bytes for careless reads
	}
	return buf
}

// vfPos gives what the index should hold for b: the data position of the
// first (repeated) or last occurrence of every field it has room for.
func vfPos(recs []vfRec, s *vfSchema) map[int]uint64 {
	want := map[int]uint64{}
	for _, r := range recs {
		if r.field > uint64(s.max) {
			continue
		}
		f := int(r.field)
		if s.rep[f] {
			if _, ok := want[f]; ok {
				continue
			}
		}
		want[f] = uint64(r.data)
	}
	return want
}

func vfLast(recs []vfRec, f int) *vfRec {
	for i := len(recs) - 1; i >= 0; i-- {
		if recs[i].field == uint64(f) {
			return &recs[i]
		}
	}
	return nil
}

func vfElems(recs []vfRec, f int) (out []string, ok bool) {
	for _, r := range recs {
		if r.field == uint64(f) {
			if r.typ != 2 {
				return nil, false
			}
			out = append(out, string(r.content))
		}
	}
	return out, true
}

func vfIter(b []byte, o Offsets, f, limit int) []string {
	var out []string
	it := GetRepeatedNonPacked(b, o, f)
	for {
		var x []byte
		it, x = FindNextField(it, f)
		if x == nil {
			break
		}
		out = append(out, string(x))
		if len(out) > limit {
			return append(out, "<does not end>")
		}
	}
	for i := 0; i < 2; i++ {
		var x []byte
		it, x = FindNextField(it, f)
		if x != nil || it != nil {
			out = append(out, "<element after the end>")
		}
	}
	return out
}

// vfObserve reports every field of the message through the accessors, keyed
// by field number. Fields whose last occurrence (by recs) has another wire
// type than the accessor's are reported by presence only.
func vfObserve(c *vfCtx, m *vfMsg, recs []vfRec) map[int]string {
	out := map[int]string{}
	o := m.o()
	for f := 0; f <= m.s.max; f++ {
		_, ok := o.Get(f)
		desc := fmt.Sprintf("present=%v", ok)
		if !ok {
			if k, single := m.s.kind[f]; single {
				desc += " default=" + vfShow(vfKinds[k].get(m.buf, o, f))
			} else if m.s.rep[f] {
				desc += fmt.Sprintf(" elements=%d", len(vfIter(m.buf, o, f, len(recs))))
			}
			out[f] = desc
			continue
		}
		if m.s.rep[f] {
			if _, good := vfElems(recs, f); good {
				els := vfIter(m.buf, o, f, len(recs))
				desc += fmt.Sprintf(" %d elements: ", len(els))
				for _, e := range els {
					desc += vfShow(vfSum(e)) + ","
				}
			}
			out[f] = desc
			continue
		}
		last := vfLast(recs, f)
		if last == nil {
			out[f] = desc
			continue
		}
		for _, k := range vfKinds {
			if kk, single := m.s.kind[f]; single && vfKinds[kk].name != k.name {
				continue
			}
			if k.typ == last.typ {
				v := k.get(m.buf, o, f)
				if s, ok := v.(string); ok {
					v = vfSum(s)
				}
				desc += fmt.Sprintf(" %s=%s", k.name, vfShow(v))
			}
		}
		out[f] = desc
	}
	return out
}

// vfSum shortens long contents, keeping them distinguishable.
func vfSum(s string) string {
	if len(s) <= 40 {
		return s
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("%x..len%d..hash%x", s[:8], len(s), h)
}

func vfDiff(before, after map[int]string, skip int) string {
	var fs []int
	for f := range before {
		fs = append(fs, f)
	}
	sort.Ints(fs)
	for _, f := range fs {
		if f != skip && before[f] != after[f] {
			return fmt.Sprintf("field %d: %s became %s", f, before[f], after[f])
		}
	}
	return ""
}

// ---------------------------------------------------------------- histories

// vfHistory runs a random history of decodes, sets, appends and resets on one
// message and checks the property c.prop after every step.
func vfHistory(c *vfCtx) {
	s := vfGenSchema(c)
	c.log("schema: %v", s)
	m := vfNewMsg(s)
	switch c.rng.Intn(3) {
	case 0:
		m.buf = make([]byte, 0, []int{0, 10, 100, 70000, 200000}[c.rng.Intn(5)])
		c.log("empty message, capacity %d", cap(m.buf))
	default:
		vfStepDecode(c, m)
	}
	steps := 1 + c.rng.Intn(2+c.size)
	for i := 0; i < steps; i++ {
		switch n := c.rng.Intn(20); {
		case n == 0:
			vfStepDecode(c, m)
		case n < 5 && len(s.reps) > 0:
			vfStepAppend(c, m)
		case len(s.single) > 0:
			vfStepSet(c, m)
		}
	}
}

func vfStepDecode(c *vfCtx, m *vfMsg) {
	b := vfGenRecords(c, m.s, 3)
	if c.size > 3 && c.rng.Intn(3) == 0 {
		// Push later positions around the 16-bit limit.
		pad := 65535 - len(b) - 8 + c.rng.Intn(24)
		if pad > 0 {
			f := uint64(m.s.max + 1)
			if len(m.s.reps) > 0 && c.rng.Intn(2) == 0 {
				f = uint64(m.s.reps[0])
			}
			big := append(vfPutUvarint(f<<3|2), vfLenDelim(make([]byte, pad))...)
			tail := vfGenRecords(c, m.s, 3)
			if c.rng.Intn(2) == 0 {
				b = append(b, big...)
			} else {
				b = append(big, b...)
			}
			b = append(b, tail...)
		}
	}
	m.buf = vfPlace(c, b)
	c.log("decode %s (capacity %d)", vfHex(b), cap(m.buf))
	err := Decode(m.buf, m.o(), m.reps)
	if err != nil {
		if c.prop == "C01" {
			c.fail("decode of well-formed bytes failed: %v", err)
		}
		// Start over.
		m.buf = nil
		m.a = make([]uint16, m.s.max+1)
		m.m = nil
	}
	vfCheckConsistent(c, m, "after decode")
}

// vfCheckConsistent is C05.
func vfCheckConsistent(c *vfCtx, m *vfMsg, when string) {
	if c.prop != "C05" {
		return
	}
	c.evals++
	recs, ok := vfParse(m.buf)
	if !ok {
		c.fail("%s the message encodes to malformed bytes %s", when, vfHex(m.buf))
	}
	m2 := vfNewMsg(m.s)
	m2.buf = append([]byte(nil), m.buf...)
	var d string
	c.try("observing the message "+when, func() {
		if err := Decode(m2.buf, m2.o(), m2.reps); err != nil {
			c.fail("%s the encoded bytes do not decode: %v", when, err)
		}
		d = vfDiff(vfObserve(c, m, recs), vfObserve(c, m2, recs), -1)
	})
	if d != "" {
		c.fail("%s the message and its decoded encoding differ: %s", when, d)
	}
	want := vfPos(recs, m.s)
	for f := 0; f <= m.s.max; f++ {
		pos, ok := m.o().Get(f)
		w, wok := want[f]
		if ok != wok || ok && pos != w {
			c.fail("%s field %d is indexed at (%d,%v), its bytes are at (%d,%v)", when, f, pos, ok, w, wok)
		}
	}
}

// vfArena moves the buffer of m into an arena with neighbours on both sides.
func vfArena(c *vfCtx, m *vfMsg) (left, right []byte) {
	capacity := cap(m.buf)
	arena := make([]byte, 64+capacity+64)
	c.rng.Read(arena[:64])
	c.rng.Read(arena[64+capacity:])
	copy(arena[64:], m.buf[:cap(m.buf)])
	m.buf = arena[64 : 64+len(m.buf) : 64+capacity]
	return arena[:64], arena[64+capacity:]
}

func vfStepSet(c *vfCtx, m *vfMsg) {
	f := m.s.single[c.rng.Intn(len(m.s.single))]
	k := vfKinds[m.s.kind[f]]
	before, wf := vfParse(append([]byte(nil), m.buf...))
	if !wf {
		return // broken by an earlier step, which is another property's business
	}
	v := k.gen(c)
	last := vfLast(before, f)
	if last != nil && last.typ == k.typ && c.rng.Intn(3) == 0 && k.typ == 2 {
		// The same length again.
		nv := make([]byte, len(last.content))
		c.rng.Read(nv)
		if k.name == "string" {
			v = string(nv)
		} else {
			v = "x" + string(nv)
		}
	}
	var obs map[int]string
	if c.prop == "C04" {
		c.try("observing the message", func() { obs = vfObserve(c, m, before) })
	}
	left, right := vfArena(c, m)
	set := func() { k.set(&m.buf, m.o(), f, v) }
	var value, vcopy []byte
	alias := ""
	if k.typ == 2 && len(m.buf) > 0 && c.rng.Intn(3) == 0 {
		i := c.rng.Intn(len(m.buf))
		j := i + c.rng.Intn(len(m.buf)-i+1)
		if last != nil && last.typ == 2 && c.rng.Intn(2) == 0 {
			i, j = last.end-len(last.content), last.end
			if c.rng.Intn(2) == 0 && j > i {
				i += c.rng.Intn(j - i)
			}
		}
		x := m.buf[i:j]
		alias = fmt.Sprintf(", being bytes %d:%d of the message itself", i, j)
		if k.name == "bytes" {
			v = "x" + string(x)
			set = func() { SetBytes(&m.buf, m.o(), f, x) }
		} else {
			v = string(x)
			hdr := *(*string)(unsafe.Pointer(&x))
			set = func() { SetString(&m.buf, m.o(), f, hdr) }
		}
	} else if k.name == "bytes" {
		value = append([]byte(nil), v.(string)[1:]...)
		vcopy = append([]byte(nil), value...)
		set = func() { SetBytes(&m.buf, m.o(), f, value) }
	}
	c.log("set field %d (%s) to %s%s", f, k.name, vfShow(v), alias)
	vfRunStep(c, m, f, "the setter", set, left, right, value, vcopy, before)

	switch c.prop {
	case "C03":
		c.evals++
		c.try("reading the field back", func() {
			if _, ok := m.o().Get(f); !ok {
				c.fail("field %d is absent after it was set", f)
			}
			if got := k.get(m.buf, m.o(), f); got != v {
				c.fail("field %d (%s) was set to %s and reads %s", f, k.name, vfShow(v), vfShow(got))
			}
		})
	case "C04":
		c.evals++
		after, ok := vfParse(m.buf)
		if !ok {
			after = nil
		}
		c.try("observing the message", func() {
			if d := vfDiff(obs, vfObserve(c, m, vfMerge(before, after)), f); d != "" {
				c.fail("setting field %d changed %s", f, d)
			}
		})
	case "C06":
		c.evals++
		vfCheckBytes(c, m, before, f, k.typ, k.enc(v), true)
	}
	vfCheckConsistent(c, m, fmt.Sprintf("after setting field %d", f))
}

// vfMerge: observations after the step use the records after it, unless the
// bytes are broken, in which case those before it tell the wire types.
func vfMerge(before, after []vfRec) []vfRec {
	if after == nil {
		return before
	}
	return after
}

func vfStepAppend(c *vfCtx, m *vfMsg) {
	f := m.s.reps[c.rng.Intn(len(m.s.reps))]
	before, wf := vfParse(append([]byte(nil), m.buf...))
	if !wf {
		return
	}
	els, good := vfElems(before, f)
	x := vfBlob(c)
	var vcopy []byte
	var obs map[int]string
	if c.prop == "C04" {
		c.try("observing the message", func() { obs = vfObserve(c, m, before) })
	}
	left, right := vfArena(c, m)
	value, alias := x, ""
	if len(m.buf) > 0 && c.rng.Intn(4) == 0 {
		i := c.rng.Intn(len(m.buf))
		j := i + c.rng.Intn(len(m.buf)-i+1)
		x = m.buf[i:j]
		value = nil
		alias = fmt.Sprintf(", being bytes %d:%d of the message itself", i, j)
	}
	content := string(x)
	c.log("append to field %d: %s%s", f, vfHex(x), alias)
	if value != nil {
		vcopy = append([]byte(nil), value...)
	}
	vfRunStep(c, m, f, "the append", func() { AppendBytes(&m.buf, m.o(), f, x) }, left, right, value, vcopy, before)
	switch c.prop {
	case "C07":
		if !good {
			break
		}
		c.evals++
		c.try("iterating", func() {
			got := vfIter(m.buf, m.o(), f, len(before)+2)
			want := append(els, content)
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				c.fail("after an append, iterating field %d gives %s, want %s", f, vfShow(fmt.Sprintf("%q", got)), vfShow(fmt.Sprintf("%q", want)))
			}
		})
	case "C04":
		c.evals++
		after, ok := vfParse(m.buf)
		if !ok {
			after = nil
		}
		c.try("observing the message", func() {
			if d := vfDiff(obs, vfObserve(c, m, vfMerge(before, after)), f); d != "" {
				c.fail("appending to field %d changed %s", f, d)
			}
		})
	case "C06":
		c.evals++
		vfCheckBytes(c, m, before, f, 2, vfLenDelim([]byte(content)), false)
	}
	vfCheckConsistent(c, m, fmt.Sprintf("after appending to field %d", f))
}

// vfRunStep runs a setter or append. A panic is a violation for the
// properties that promise something about its outcome.
func vfRunStep(c *vfCtx, m *vfMsg, f int, what string, step func(), left, right, value, vcopy []byte, before []vfRec) {
	lcopy := append([]byte(nil), left...)
	rcopy := append([]byte(nil), right...)
	old := m.buf
	ok := c.quiet(step)
	if !ok {
		switch c.prop {
		case "C03", "C04", "C05", "C06", "C07":
			c.fail("%s of field %d panicked", what, f)
		}
	}
	if c.prop == "C10" {
		c.evals++
		if !bytes.Equal(left, lcopy) || !bytes.Equal(right, rcopy) {
			c.fail("%s of field %d wrote outside the message's buffer", what, f)
		}
		if value != nil && !bytes.Equal(value, vcopy) {
			c.fail("%s of field %d changed the value passed in", what, f)
		}
		if cap(m.buf) > 0 && cap(old) > 0 && &m.buf[:1][0] == &old[:1][0] && cap(m.buf) != cap(old) {
			c.fail("%s of field %d changed the extent of the buffer", what, f)
		}
	}
}

// vfCheckBytes is C06: exactly one record was added (with the canonical bytes
// enc), exactly the old last occurrence was removed if its tag was canonical
// and of this wire type, and the others kept their bytes and order.
func vfCheckBytes(c *vfCtx, m *vfMsg, before []vfRec, f, typ int, enc []byte, replace bool) {
	after, ok := vfParse(m.buf)
	if !ok {
		c.fail("the bytes after the call are malformed: %s", vfHex(m.buf))
	}
	rec := string(append(vfPutUvarint(uint64(f)<<3|uint64(typ)), enc...))
	var others []string
	last := vfLast(before, f)
	grown := len(rec)
	for i := range before {
		r := before[i]
		if replace && last != nil && last.begin == r.begin && r.typ == typ && r.canon {
			grown -= r.end - r.begin
			continue
		}
		others = append(others, vfRaw(r))
	}
	// Find the new record: the last occurrence of f.
	nl := vfLast(after, f)
	if nl == nil {
		c.fail("no record of field %d after the call", f)
	}
	if got := string(m.buf[nl.begin:nl.end]); got != rec {
		c.fail("field %d was written as %x, want %x", f, vfHex([]byte(got)), vfHex([]byte(rec)))
	}
	var rest []string
	for _, r := range after {
		if r.begin != nl.begin {
			rest = append(rest, vfRaw(r))
		}
	}
	if len(rest) != len(others) {
		c.fail("the message has %d other records after the call, want %d", len(rest), len(others))
	}
	for i := range rest {
		if rest[i] != others[i] {
			c.fail("other record %d was %s, is %s", i, vfShow(others[i]), vfShow(rest[i]))
		}
	}
	n := 0
	for _, r := range before {
		n += r.end - r.begin
	}
	if len(m.buf) != n+grown {
		c.fail("the message has %d bytes after the call, want %d", len(m.buf), n+grown)
	}
}

func vfRaw(r vfRec) string { return string(r.raw) }

// ---------------------------------------------------------------- C01

func vfDecodeCase(c *vfCtx) {
	var b []byte
	s := vfGenSchema(c)
	switch c.rng.Intn(5) {
	case 0:
		b = make([]byte, c.rng.Intn(12))
		c.rng.Read(b)
	case 1: // few distinct, interesting bytes
		al := []byte{0, 1, 2, 8, 10, 0x7f, 0x80, 0x81, 0xff, 9, 13, 11, 12}
		b = make([]byte, c.rng.Intn(16))
		for i := range b {
			b[i] = al[c.rng.Intn(len(al))]
		}
	case 2: // a record with a hand-made varint
		b = vfGenRecords(c, s, 1)
		f := uint64(c.rng.Intn(s.max + 2))
		typ := uint64(c.rng.Intn(8))
		b = append(b, vfPutUvarint(f<<3|typ)...)
		n := c.rng.Intn(12)
		for i := 0; i < n; i++ {
			b = append(b, byte(0x80|c.rng.Intn(128)*c.rng.Intn(2)))
		}
		if c.rng.Intn(4) > 0 {
			b = append(b, byte(c.rng.Intn(4)))
		}
		if c.rng.Intn(2) == 0 {
			b = append(b, make([]byte, c.rng.Intn(20))...)
		}
	case 3: // a length around the interesting limits
		b = vfGenRecords(c, s, 1)
		f := uint64(c.rng.Intn(s.max + 2))
		b = append(b, vfPutUvarint(f<<3|2)...)
		rest := c.rng.Intn(20)
		var l uint64
		switch c.rng.Intn(5) {
		case 0:
			l = uint64(rest) + uint64(c.rng.Intn(3)) - 1
		case 1:
			l = 1<<uint(31+c.rng.Intn(33)) - uint64(c.rng.Intn(30))
		case 2:
			l = -uint64(c.rng.Intn(40))
		case 3:
			l = 1<<63 - uint64(c.rng.Intn(40))
		default:
			l = vfU64(c)
		}
		b = append(b, vfPutUvarint(l)...)
		b = append(b, make([]byte, rest)...)
	default:
		b = vfGenRecords(c, s, 3)
		for n := c.rng.Intn(3); n > 0 && len(b) > 0; n-- {
			switch c.rng.Intn(3) {
			case 0:
				b = b[:c.rng.Intn(len(b)+1)]
			case 1:
				i := c.rng.Intn(len(b))
				b[i] = byte(c.rng.Intn(256))
			default:
				i := c.rng.Intn(len(b))
				b = append(b[:i], append([]byte{byte(c.rng.Intn(256))}, b[i:]...)...)
			}
		}
	}
	vfDecodeOne(c, s, b)
}

func vfDecodeOne(c *vfCtx, s *vfSchema, b []byte) {
	m := vfNewMsg(s)
	_, want := vfParse(b)
	for _, tight := range []bool{true, false} {
		m.buf = b[:len(b):len(b)]
		if !tight {
			m.buf = vfPlace(c, b)
		}
		c.trace = nil
		c.log("schema: %v", s)
		c.log("decode %x (capacity %d)", b, cap(m.buf))
		var err error
		c.try("decode", func() { err = Decode(m.buf, m.o(), m.reps) })
		c.evals++
		if (err == nil) != want {
			c.fail("decode returned error %v; the bytes are well-formed: %v", err, want)
		}
	}
}

// ---------------------------------------------------------------- C02, C07, C09

// vfReadCase decodes well-formed bytes (into a message with a past, for C09)
// and compares every accessor with the oracle.
func vfReadCase(c *vfCtx) {
	s := vfGenSchema(c)
	m := vfNewMsg(s)
	c.log("schema: %v", s)
	for n := c.rng.Intn(3); n > 0; n-- {
		vfStepDecode(c, m)
		if c.prop == "C09" && c.rng.Intn(4) == 0 {
			b := append(append([]byte(nil), m.buf...), 0x07) // a decode that fails
			c.log("failing decode of %s", vfHex(b))
			c.quiet(func() { Decode(b, m.o(), m.reps) })
		}
		for j := c.rng.Intn(4); j > 0 && len(s.single) > 0 && c.prop == "C09"; j-- {
			vfStepSet(c, m)
		}
		if c.prop == "C09" && c.rng.Intn(5) == 0 {
			c.log("clear")
			c.try("clear", func() { m.o().Clear() })
			m.buf = nil
			c.evals++
			c.try("observing the message", func() {
				if d := vfDiff(vfObserve(c, vfNewMsg(s), nil), vfObserve(c, m, nil), -1); d != "" {
					c.fail("after clearing, %s", d)
				}
			})
		}
	}
	vfStepDecode(c, m)
	recs, ok := vfParse(m.buf)
	if !ok {
		return
	}
	c.evals++
	c.try("reading the message", func() {
		for round := 0; round < 2; round++ {
			o := m.o()
			for f := 0; f <= s.max; f++ {
				last := vfLast(recs, f)
				if s.rep[f] {
					if c.prop == "C02" {
						continue
					}
					els, good := vfElems(recs, f)
					if !good {
						continue
					}
					got := vfIter(m.buf, o, f, len(recs)+2)
					if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", els) {
						c.fail("iterating field %d gives %s, want %s", f, vfShow(fmt.Sprintf("%q", got)), vfShow(fmt.Sprintf("%q", els)))
					}
					continue
				}
				if c.prop == "C07" {
					continue
				}
				_, present := o.Get(f)
				if present != (last != nil) {
					c.fail("field %d: present=%v after the decode, it occurs in the bytes: %v", f, present, last != nil)
				}
				for _, k := range vfKinds {
					if last != nil && last.typ != k.typ {
						continue
					}
					if got, want := k.get(m.buf, o, f), k.want(last); got != want {
						c.fail("field %d read as %s is %s, want %s", f, k.name, vfShow(got), vfShow(want))
					}
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C08

func vfIndexCase(c *vfCtx) {
	n := 1 + c.rng.Intn(12)
	a := make([]uint16, n)
	var mm map[int]uint64
	o := WrapOffsets(a, &mm)
	ref := map[int]uint64{}
	c.log("index of length %d", n)
	for i := 3 + c.rng.Intn(20); i > 0; i-- {
		f := c.rng.Intn(n)
		if c.rng.Intn(12) == 0 {
			c.log("clear")
			c.try("Clear", func() { o.Clear() })
			ref = map[int]uint64{}
		} else {
			var pos uint64
			switch c.rng.Intn(4) {
			case 0:
				pos = uint64(1 + c.rng.Intn(10))
			case 1:
				pos = uint64(65530 + c.rng.Intn(12))
			case 2:
				pos = 1<<uint(16+c.rng.Intn(47)) + uint64(c.rng.Intn(5)) - 2
			default:
				pos = uint64(1 + c.rng.Intn(200000))
			}
			c.log("set %d to %d", f, pos)
			c.try("Set", func() { o.Set(f, pos) })
			ref[f] = pos
		}
		c.evals++
		c.try("Get", func() {
			for f := 0; f < n; f++ {
				got, ok := o.Get(f)
				want, wok := ref[f]
				if ok != wok || ok && got != want {
					c.fail("field %d is at (%d,%v), want (%d,%v)", f, got, ok, want, wok)
				}
				_, in := mm[f]
				if in != (a[f] == math.MaxUint16) {
					c.fail("field %d: array entry %d, in the overflow map: %v", f, a[f], in)
				}
				if in && want < math.MaxUint16 {
					c.fail("field %d at %d is kept in the overflow map", f, want)
				}
			}
			for f := range mm {
				if f < 0 || f >= n {
					c.fail("the overflow map holds field %d", f)
				}
			}
		})
	}
}

// ---------------------------------------------------------------- C10

// vfReadOnly runs decoding, accessors and iterators on bytes in a read-only
// mapping that ends at an inaccessible page.
func vfReadOnly(c *vfCtx) {
	s := vfGenSchema(c)
	b := vfGenRecords(c, s, 3)
	c.log("schema: %v", s)
	c.log("decode %s in read-only memory", vfHex(b))
	page := syscall.Getpagesize()
	n := (len(b) + page - 1) / page * page
	mem, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return
	}
	defer syscall.Munmap(mem)
	buf := mem[n-len(b) : n : n]
	copy(buf, b)
	if n > 0 {
		syscall.Mprotect(mem[:n], syscall.PROT_READ)
	}
	syscall.Mprotect(mem[n:], syscall.PROT_NONE)
	m := vfNewMsg(s)
	m.buf = buf
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	recs, _ := vfParse(b)
	c.evals++
	var derr error
	c.try("decoding read-only bytes", func() { derr = Decode(m.buf, m.o(), m.reps) })
	if derr != nil {
		return
	}
	a := append([]uint16(nil), m.a...)
	mm := fmt.Sprint(m.m)
	c.try("reading read-only bytes", func() {
		vfObserve(c, m, recs)
		for f := 0; f <= s.max; f++ {
			last := vfLast(recs, f)
			if s.rep[f] {
				if _, good := vfElems(recs, f); !good {
					continue
				}
				it := GetRepeatedNonPacked(m.buf, m.o(), f)
				for i := 0; i <= len(recs); i++ {
					var x []byte
					it, x = FindNextField(it, f)
					if x == nil {
						break
					}
					if cap(x) != len(x) {
						c.fail("an element of field %d was handed out with spare capacity (%d of %d)", f, len(x), cap(x))
					}
				}
			} else if last == nil || last.typ == 2 {
				if x := GetBytes(m.buf, m.o(), f); cap(x) != len(x) {
					c.fail("field %d was handed out with spare capacity (%d of %d)", f, len(x), cap(x))
				}
			}
		}
	})
	for f := range a {
		if a[f] != m.a[f] {
			c.fail("reading changed the array entry of field %d from %d to %d", f, a[f], m.a[f])
		}
	}
	if mm != fmt.Sprint(m.m) {
		c.fail("reading changed the overflow map from %s to %v", mm, m.m)
	}
}

// ---------------------------------------------------------------- C11

var vfSink uint64
var vfSinkB []byte

func vfAllocs(c *vfCtx, what string, f func()) { vfAllocsAfter(c, what, nil, f) }

func vfAllocsAfter(c *vfCtx, what string, prep, f func()) {
	c.evals++
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	min := uint64(math.MaxUint64)
	var ms1, ms2 runtime.MemStats
	for i := 0; i < 3 && min > 0; i++ { // the runtime itself may allocate now and then
		if prep != nil {
			prep()
		}
		runtime.ReadMemStats(&ms1)
		f()
		runtime.ReadMemStats(&ms2)
		if n := ms2.Mallocs - ms1.Mallocs; n < min {
			min = n
		}
	}
	if min > 0 {
		c.fail("%s made %d heap allocations", what, min)
	}
}

func vfAllocCase(c *vfCtx) {
	s := vfGenSchema(c)
	m := vfNewMsg(s)
	b := vfGenRecords(c, s, 3)
	if c.rng.Intn(4) == 0 {
		if pad := 65535 - len(b) - 8; pad > 0 && c.rng.Intn(2) == 0 {
			b = append(append(vfPutUvarint(uint64(s.max+1)<<3|2), vfLenDelim(make([]byte, pad-c.rng.Intn(20)))...), b...)
		}
	}
	if len(b) > 65535 {
		return
	}
	m.buf = b
	c.log("schema: %v", s)
	c.log("decode %s", vfHex(b))
	// The message may have been large before.
	var prep func()
	if c.rng.Intn(3) > 0 {
		var fs []int
		for n := c.rng.Intn(20); n > 0; n-- {
			fs = append(fs, c.rng.Intn(s.max+1))
		}
		c.log("before that, fields %v are beyond the 16-bit limit", fs)
		prep = func() {
			for _, f := range fs {
				m.o().Set(f, 65535+uint64(f))
			}
		}
	}
	var err error
	ok := c.quiet(func() {
		if prep != nil && c.rng.Intn(3) == 0 {
			vfAllocsAfter(c, "clearing the index", prep, func() { m.o().Clear() })
		}
		vfAllocsAfter(c, "decoding", prep, func() { err = Decode(m.buf, m.o(), m.reps) })
	})
	recs, wf := vfParse(b)
	if !ok || err != nil || !wf {
		return
	}
	for f := 0; f <= s.max; f++ {
		last := vfLast(recs, f)
		f := f
		o := m.o()
		if _, single := s.kind[f]; last == nil && !s.rep[f] && (!single || f > 5) {
			continue
		}
		if s.rep[f] {
			if _, good := vfElems(recs, f); good {
				vfAllocs(c, fmt.Sprintf("iterating field %d", f), func() {
					it := GetRepeatedNonPacked(m.buf, o, f)
					for it != nil {
						it, vfSinkB = FindNextField(it, f)
					}
				})
			}
			continue
		}
		typ := -1
		if last != nil {
			typ = last.typ
		}
		vfAllocs(c, fmt.Sprintf("reading field %d", f), func() { vfGetAll(m.buf, o, f, typ) })
	}
	// Sets and appends with room to spare.
	room := 200
	if len(b)+room > 65534 {
		return
	}
	m.buf = append(make([]byte, 0, len(b)+room*20), b...)
	for i := 0; i < 8; i++ {
		f := 1 + c.rng.Intn(s.max)
		o := m.o()
		x := make([]byte, c.rng.Intn(100))
		str := string(x)
		n := vfU64(c)
		kind := c.rng.Intn(len(vfKinds))
		rep := s.rep[f]
		if len(m.buf)+110 > 65534 || cap(m.buf)-len(m.buf) < 3*115 {
			break
		}
		c.log("set field %d (kind %d)", f, kind)
		ok := c.quiet(func() {
			vfAllocs(c, fmt.Sprintf("setting field %d as %s", f, vfKinds[kind].name), func() {
				if rep {
					AppendBytes(&m.buf, o, f, x)
				} else {
					vfSetAny(&m.buf, o, f, kind, n, x, str)
				}
			})
		})
		if !ok {
			return
		}
	}
}

func vfGetAll(b []byte, o Offsets, f, typ int) {
	if typ == 0 || typ < 0 {
		if GetBool(b, o, f) {
			vfSink++
		}
		vfSink += uint64(GetInt32(b, o, f)) + uint64(GetInt64(b, o, f)) + uint64(GetUint32(b, o, f)) +
			GetUint64(b, o, f) + uint64(GetZigZagInt32(b, o, f)) + uint64(GetZigZagInt64(b, o, f))
	}
	if typ == 5 || typ < 0 {
		vfSink += uint64(GetFixedUint32(b, o, f)) + uint64(GetFixedInt32(b, o, f)) + uint64(math.Float32bits(GetFloat32(b, o, f)))
	}
	if typ == 1 || typ < 0 {
		vfSink += GetFixedUint64(b, o, f) + uint64(GetFixedInt64(b, o, f)) + math.Float64bits(GetFloat64(b, o, f))
	}
	if typ == 2 || typ < 0 {
		vfSink += uint64(len(GetString(b, o, f))) + uint64(len(GetBytes(b, o, f)))
	}
}

func vfSetAny(b *[]byte, o Offsets, f, kind int, n uint64, x []byte, s string) {
	switch kind {
	case 0:
		SetBool(b, o, f, n&1 == 1)
	case 1:
		SetInt32(b, o, f, int32(n))
	case 2:
		SetInt64(b, o, f, int64(n))
	case 3:
		SetUint32(b, o, f, uint32(n))
	case 4:
		SetUint64(b, o, f, n)
	case 5:
		SetZigZagInt32(b, o, f, int32(n))
	case 6:
		SetZigZagInt64(b, o, f, int64(n))
	case 7:
		SetFixedUint32(b, o, f, uint32(n))
	case 8:
		SetFixedUint64(b, o, f, n)
	case 9:
		SetFixedInt32(b, o, f, int32(n))
	case 10:
		SetFixedInt64(b, o, f, int64(n))
	case 11:
		SetFloat32(b, o, f, math.Float32frombits(uint32(n)))
	case 12:
		SetFloat64(b, o, f, math.Float64frombits(n))
	case 13:
		SetString(b, o, f, s)
	default:
		SetBytes(b, o, f, x)
	}
}

// ---------------------------------------------------------------- driver

// VfCtx and the functions below are used by zz_verif_x_test.go.
type VfCtx = vfCtx

// VfExtra holds the cases that need the generated packages or the generator.
var VfExtra = map[string]func(c *VfCtx){}

// VfRec is a record of a well-formed message.
type VfRec struct {
	Field   uint64
	Typ     int
	Raw     string
	Val     uint64
	Content []byte
}

// VfParse splits b into records.
func VfParse(b []byte) (out []VfRec, ok bool) {
	recs, ok := vfParse(b)
	for _, r := range recs {
		out = append(out, VfRec{r.field, r.typ, string(r.raw), r.val, r.content})
	}
	return out, ok
}

func (c *vfCtx) Rng() *rand.Rand                    { return c.rng }
func (c *vfCtx) Prop() string                       { return c.prop }
func (c *vfCtx) Case() int                          { return c.k }
func (c *vfCtx) Log(f string, args ...interface{})  { c.log(f, args...) }
func (c *vfCtx) Fail(f string, args ...interface{}) { c.fail(f, args...) }
func (c *vfCtx) Try(what string, f func())          { c.try(what, f) }
func (c *vfCtx) Quiet(f func()) bool                { return c.quiet(f) }
func (c *vfCtx) Eval()                              { c.evals++ }
func VfRandBytes(c *VfCtx) []byte                   { return vfGenRecords(c, nil, 3) }
func VfPlace(c *VfCtx, b []byte) []byte             { return vfPlace(c, b) }
func VfPutUvarint(x uint64) []byte                  { return vfPutUvarint(x) }
func VfShow(v interface{}) string                   { return vfShow(v) }

// VfGen makes a random value for the named kind, as the Go value its setter
// takes.
func VfGen(c *VfCtx, kind string) interface{} {
	for _, k := range vfKinds {
		if k.name == kind {
			return VfFromKey(kind, k.gen(c))
		}
	}
	panic(kind)
}

// VfFromKey turns the comparable form of a value into the Go value.
func VfFromKey(kind string, v interface{}) interface{} {
	switch kind {
	case "float":
		return math.Float32frombits(v.(uint32))
	case "double":
		return math.Float64frombits(v.(uint64))
	case "bytes":
		if v.(string) == "nil" {
			return []byte(nil)
		}
		return []byte(v.(string)[1:])
	}
	return v
}

// VfKey turns a Go value into its comparable form.
func VfKey(kind string, v interface{}) interface{} {
	switch x := v.(type) {
	case float32:
		return math.Float32bits(x)
	case float64:
		return math.Float64bits(x)
	case []byte:
		if x == nil {
			return "nil"
		}
		return "x" + string(x)
	case string:
		return vfCopyString(x)
	}
	return v
}

// VfEnc is the encoding of a value (in comparable form) without its tag.
func VfEnc(kind string, v interface{}) (typ int, enc []byte) {
	for _, k := range vfKinds {
		if k.name == kind {
			return k.typ, k.enc(v)
		}
	}
	panic(kind)
}

// VfDefault is the value of an absent field, in comparable form.
func VfDefault(kind string) interface{} {
	for _, k := range vfKinds {
		if k.name == kind {
			return k.want(nil)
		}
	}
	panic(kind)
}

func vfCase(c *vfCtx) {
	if f := VfExtra[c.prop]; f != nil {
		switch c.prop {
		case "C12", "C13", "C14", "C15", "C16":
			f(c)
			return
		}
		if c.rng.Intn(2) == 0 {
			f(c)
			return
		}
	}
	switch c.prop {
	case "C01":
		vfDecodeCase(c)
	case "C02", "C09":
		vfReadCase(c)
	case "C07":
		if c.rng.Intn(2) == 0 {
			vfReadCase(c)
		} else {
			vfHistory(c)
		}
	case "C08":
		vfIndexCase(c)
	case "C10":
		if c.rng.Intn(2) == 0 {
			vfReadOnly(c)
		} else {
			vfHistory(c)
		}
	case "C11":
		vfAllocCase(c)
	case "C03", "C04", "C05", "C06":
		vfHistory(c)
	}
}

func TestVerifSearch(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP is not set")
	}
	seed := vfEnvInt("VERIF_SEED", 1)
	budget := time.Duration(vfEnvInt("VERIF_BUDGET", 5)) * time.Second
	first, last := 0, math.MaxInt32
	if only := vfEnvInt("VERIF_CASE", -1); only >= 0 {
		first, last = int(only), int(only)
	}
	var cur atomic.Value
	done := make(chan bool)
	go func() { // a case that makes no progress is a hang
		var prev *vfCtx
		var seen int64
		for {
			select {
			case <-done:
				return
			case <-time.After(20 * time.Second):
			}
			c, _ := cur.Load().(*vfCtx)
			if c == nil {
				continue
			}
			p := atomic.LoadInt64(&c.progress)
			if c == prev && p == seen {
				vfWrite(c, "a call does not return")
				os.Exit(1)
			}
			prev, seen = c, p
		}
	}()
	start := time.Now()
	cases, evals := 0, 0
	for k := first; k <= last; k++ {
		if time.Since(start) > budget && last != first {
			break
		}
		size := 1 + k/2000
		if size > 6 || k%16 == 15 {
			size = 6
		}
		c := &vfCtx{prop: prop, k: k, size: size, rng: rand.New(rand.NewSource(seed*1000003 + int64(k)))}
		cur.Store(c)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vfStop); !ok {
						if prop == "C10" || prop == "C11" || prop == "C08" || prop == "C09" {
							// A crash elsewhere: other properties report it.
							return
						}
						vfWrite(c, fmt.Sprintf("panic: %v", r))
						c.failed = true
					}
				}
			}()
			vfCase(c)
		}()
		cases++
		evals += c.evals
		if c.failed {
			for _, l := range c.trace {
				fmt.Println("  " + l)
			}
			t.FailNow()
		}
	}
	close(done)
	fmt.Printf("VERIF-OK cases=%d evaluations=%d\n", cases, evals)
}
