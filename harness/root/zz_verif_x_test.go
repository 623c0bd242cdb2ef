// The part of the failing-input search that needs the generated packages, the
// generator or the plugin commands. See zz_verif_test.go.

package zeropb_test

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/generate"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
	"github.com/golang/protobuf/proto"
)

func init() {
	zeropb.VfExtra["C09"] = vxReset
	zeropb.VfExtra["C12"] = vxGenerate
	zeropb.VfExtra["C13"] = vxGolden
	zeropb.VfExtra["C14"] = vxPlugin
	zeropb.VfExtra["C15"] = vxWriter
	zeropb.VfExtra["C16"] = vxEmbedded
}

// ---------------------------------------------------------------- schemas

type vxField struct {
	name     string
	num      int
	typ      string // proto type name, "enum" for enums, "message"
	msg      string // message type name
	repeated bool
}

type vxMessage struct {
	pkg    string
	name   string
	fields []vxField
	rtype  reflect.Type
}

var vxMessages = vxLoad()

var vxTypes = map[string]reflect.Type{
	"testzeropb.TestMessage":      reflect.TypeOf(testzeropb.TestMessage{}),
	"raftzeropb.Entry":            reflect.TypeOf(raftzeropb.Entry{}),
	"raftzeropb.SnapshotMetadata": reflect.TypeOf(raftzeropb.SnapshotMetadata{}),
	"raftzeropb.Snapshot":         reflect.TypeOf(raftzeropb.Snapshot{}),
	"raftzeropb.Message":          reflect.TypeOf(raftzeropb.Message{}),
	"raftzeropb.HardState":        reflect.TypeOf(raftzeropb.HardState{}),
	"raftzeropb.ConfState":        reflect.TypeOf(raftzeropb.ConfState{}),
	"raftzeropb.ConfChange":       reflect.TypeOf(raftzeropb.ConfChange{}),
}

// vxLoad reads the schemas shipped with the project.
func vxLoad() map[string]*vxMessage {
	out := map[string]*vxMessage{}
	msgRE := regexp.MustCompile(`(?s)\b(message|enum)\s+(\w+)\s*\{(.*?)\}`)
	fieldRE := regexp.MustCompile(`(?m)^\s*(optional|repeated|required)?\s*(\w+)\s+(\w+)\s*=\s*(\d+)\s*;`)
	for pkg, file := range map[string]string{"testzeropb": "test.proto", "raftzeropb": "raft.proto"} {
		src, err := ioutil.ReadFile(filepath.Join("golden", file))
		if err != nil {
			continue
		}
		enums := map[string]bool{}
		for _, m := range msgRE.FindAllStringSubmatch(string(src), -1) {
			if m[1] == "enum" {
				enums[m[2]] = true
			}
		}
		for _, m := range msgRE.FindAllStringSubmatch(string(src), -1) {
			if m[1] == "enum" {
				continue
			}
			msg := &vxMessage{pkg: pkg, name: m[2], rtype: vxTypes[pkg+"."+m[2]]}
			for _, f := range fieldRE.FindAllStringSubmatch(m[3], -1) {
				num, _ := strconv.Atoi(f[4])
				fl := vxField{name: f[3], num: num, repeated: f[1] == "repeated", typ: f[2]}
				if enums[f[2]] {
					fl.typ = "enum"
				} else if vxKind(f[2]) == "" {
					fl.typ, fl.msg = "message", f[2]
				}
				msg.fields = append(msg.fields, fl)
			}
			out[pkg+"."+msg.name] = msg
		}
	}
	return out
}

// vxKind maps a proto type to the value kinds of zz_verif_test.go.
func vxKind(typ string) string {
	switch typ {
	case "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
		"sfixed32", "sfixed64", "float", "double", "string", "bytes":
		return typ
	case "enum":
		return "uint32"
	}
	return ""
}

func vxGoName(s string) string {
	var out []byte
	up := true
	for i := 0; i < len(s); i++ {
		ch := s[i]
		letter := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'
		if !letter && !(ch >= '0' && ch <= '9') {
			up = true
			continue
		}
		if up && ch >= 'a' && ch <= 'z' {
			ch -= 'a' - 'A'
		}
		up = false
		out = append(out, ch)
	}
	return string(out)
}

func vxNames() []string {
	var names []string
	for n := range vxTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func vxPick(c *zeropb.VfCtx) *vxMessage {
	names := vxNames()
	name := names[c.Rng().Intn(len(names))]
	if c.Rng().Intn(2) == 0 {
		name = "testzeropb.TestMessage"
	}
	m := vxMessages[name]
	if m == nil {
		panic("no schema for " + name)
	}
	return m
}

// vxMsg is a value of a generated message type.
type vxMsg struct {
	s *vxMessage
	v reflect.Value // pointer
}

func vxNew(s *vxMessage) vxMsg { return vxMsg{s, reflect.New(s.rtype)} }

func (m vxMsg) call(c *zeropb.VfCtx, name string, args ...interface{}) []reflect.Value {
	meth := m.v.MethodByName(name)
	if !meth.IsValid() {
		c.Fail("%s.%s has no method %s", m.s.pkg, m.s.name, name)
	}
	var in []reflect.Value
	for i, a := range args {
		v := reflect.ValueOf(a)
		if rv, ok := a.(reflect.Value); ok {
			v = rv
		}
		if !v.Type().AssignableTo(meth.Type().In(i)) {
			c.Fail("%s.%s.%s takes %v, want %v", m.s.pkg, m.s.name, name, meth.Type().In(i), v.Type())
		}
		in = append(in, v)
	}
	return meth.Call(in)
}

func (m vxMsg) encode(c *zeropb.VfCtx) []byte { return m.call(c, "Encode")[0].Bytes() }
func (m vxMsg) decode(c *zeropb.VfCtx, b []byte) error {
	err, _ := m.call(c, "Decode", b)[0].Interface().(error)
	return err
}

// vxSub is the message type of a message field.
func vxSub(s *vxMessage, f vxField) *vxMessage { return vxMessages[s.pkg+"."+f.msg] }

// vxObserve reports everything the accessors of m say.
func vxObserve(c *zeropb.VfCtx, m vxMsg) map[string]string {
	out := map[string]string{}
	for _, f := range m.s.fields {
		name := vxGoName(f.name)
		switch {
		case f.repeated && f.typ == "message":
			els := ""
			it := reflect.New(m.v.MethodByName(name).Type().Out(0))
			it.Elem().Set(m.call(c, name)[0])
			for i := 0; i < 1000; i++ {
				sub := vxNew(vxSub(m.s, f))
				res := it.MethodByName("Next").Call([]reflect.Value{sub.v})
				if !res[0].Bool() {
					break
				}
				els += fmt.Sprintf("[%x err=%v]", sub.encode(c), res[1].Interface() != nil)
			}
			out[f.name] = els
		case f.repeated:
		case f.typ == "message":
			sub := vxNew(vxSub(m.s, f))
			res := m.call(c, name, sub.v)
			out[f.name] = fmt.Sprintf("present=%v err=%v %x", res[0].Bool(), res[1].Interface() != nil, sub.encode(c))
		default:
			out[f.name] = fmt.Sprintf("%#v", zeropb.VfKey(vxKind(f.typ), m.call(c, name)[0].Interface()))
		}
	}
	return out
}

func vxDiff(a, b map[string]string, skip string) string {
	var names []string
	for n := range a {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n != skip && a[n] != b[n] {
			return fmt.Sprintf("%s: %.200s, and %.200s", n, a[n], b[n])
		}
	}
	return ""
}

// vxRecord is the canonical record of a random value of f.
func vxRecord(c *zeropb.VfCtx, s *vxMessage, f vxField, depth int) (raw []byte, key interface{}) {
	if f.typ == "message" {
		var in []byte
		if depth > 0 {
			in = vxBytes(c, vxSub(s, f), depth-1)
		}
		raw = zeropb.VfPutUvarint(uint64(f.num)<<3 | 2)
		raw = append(raw, zeropb.VfPutUvarint(uint64(len(in)))...)
		return append(raw, in...), "x" + string(in)
	}
	kind := vxKind(f.typ)
	v := zeropb.VfKey(kind, zeropb.VfGen(c, kind))
	typ, enc := zeropb.VfEnc(kind, v)
	return append(zeropb.VfPutUvarint(uint64(f.num)<<3|uint64(typ)), enc...), v
}

// vxBytes makes bytes of message s: known fields in any order, with
// duplicates and unknown fields.
func vxBytes(c *zeropb.VfCtx, s *vxMessage, depth int) []byte {
	var out []byte
	for n := c.Rng().Intn(6); n > 0 && len(s.fields) > 0; n-- {
		if c.Rng().Intn(6) == 0 {
			out = append(out, zeropb.VfPutUvarint(uint64(200+c.Rng().Intn(100))<<3|2)...)
			out = append(out, 2, 8, 1)
			continue
		}
		f := s.fields[c.Rng().Intn(len(s.fields))]
		raw, _ := vxRecord(c, s, f, depth)
		if len(raw) < 2000 {
			out = append(out, raw...)
		}
	}
	return out
}

// vxUse gives m some history.
func vxUse(c *zeropb.VfCtx, m vxMsg) {
	if c.Rng().Intn(3) > 0 {
		b := vxBytes(c, m.s, 2)
		c.Log("decode %x", b)
		c.Quiet(func() { m.decode(c, zeropb.VfPlace(c, b)) })
	}
	for n := c.Rng().Intn(3); n > 0; n-- {
		f := m.s.fields[c.Rng().Intn(len(m.s.fields))]
		c.Quiet(func() { vxSet(c, m, f) })
	}
}

// vxSet sets f (or appends to it) and returns what was written.
func vxSet(c *zeropb.VfCtx, m vxMsg, f vxField) (key interface{}) {
	name := vxGoName(f.name)
	switch {
	case f.typ == "message":
		sub := vxNew(vxSub(m.s, f))
		b := vxBytes(c, sub.s, 1)
		if c.Rng().Intn(3) == 0 {
			b = []byte{}
		}
		sub.decode(c, b)
		meth := "Set" + name
		if f.repeated {
			meth = "AppendTo" + name
		}
		c.Log("%s(message %x)", meth, b)
		m.call(c, meth, sub.v.Elem())
		return "x" + string(b)
	case f.repeated:
		return nil
	default:
		v := zeropb.VfGen(c, vxKind(f.typ))
		c.Log("Set%s(%s)", name, zeropb.VfShow(v))
		key := zeropb.VfKey(vxKind(f.typ), v)
		m.call(c, "Set"+name, v)
		return key
	}
}

// ---------------------------------------------------------------- C09

func vxReset(c *zeropb.VfCtx) {
	s := vxPick(c)
	m := vxNew(s)
	c.Log("message %s.%s", s.pkg, s.name)
	vxUse(c, m)
	if c.Rng().Intn(4) == 0 && len(s.fields) > 0 { // cross the 16-bit limit
		big := append(zeropb.VfPutUvarint(999<<3|2), zeropb.VfPutUvarint(70000)...)
		big = append(append(big, make([]byte, 70000)...), vxBytes(c, s, 1)...)
		c.Log("decode 70000 bytes of unknown field and some records")
		c.Quiet(func() { m.decode(c, big) })
	}
	c.Eval()
	if c.Rng().Intn(4) == 0 {
		before := reflect.New(s.rtype)
		before.Elem().Set(m.v.Elem())
		enc := string(m.encode(c))
		var obs map[string]string
		observed := c.Quiet(func() { obs = vxObserve(c, m) })
		arg := []byte{8}
		if c.Rng().Intn(2) == 0 {
			arg = vxBytes(c, s, 1)
			arg = append(arg, 8, 1)
		}
		c.Log("reset with %x", arg)
		refused := false
		func() {
			defer func() { refused = recover() != nil }()
			m.call(c, "Reset", arg)
		}()
		if !refused {
			c.Fail("a reset with a buffer of %d bytes was accepted", len(arg))
		}
		if string(m.encode(c)) != enc {
			c.Fail("a refused reset changed the bytes")
		}
		if observed {
			c.Try("observing the message", func() {
				if d := vxDiff(obs, vxObserve(c, m), ""); d != "" {
					c.Fail("a refused reset changed %s", d)
				}
			})
		}
		return
	}
	var arg []byte
	switch c.Rng().Intn(3) {
	case 0:
		arg = []byte{}
	case 1:
		arg = make([]byte, 40)[:0]
	}
	c.Log("reset")
	c.Try("reset", func() { m.call(c, "Reset", arg) })
	if n := len(m.encode(c)); n != 0 {
		c.Fail("after a reset the message encodes to %d bytes", n)
	}
	c.Try("observing the message", func() {
		if d := vxDiff(vxObserve(c, vxNew(s)), vxObserve(c, m), ""); d != "" {
			c.Fail("a new message and one after a reset differ in %s", d)
		}
	})
}

// ---------------------------------------------------------------- C13

func vxGolden(c *zeropb.VfCtx) {
	s := vxPick(c)
	m := vxNew(s)
	c.Log("message %s.%s", s.pkg, s.name)
	f := s.fields[c.Rng().Intn(len(s.fields))]
	name := vxGoName(f.name)
	c.Log("field %s = %d (%s)", f.name, f.num, f.typ)
	c.Eval()
	if c.Case() < len(vxNames()) {
		vxMethods(c, vxMessages[vxNames()[c.Case()]])
	}
	if f.repeated && f.typ != "message" {
		// No accessors; but the index must take the field.
		raw, _ := vxRecord(c, s, f, 0)
		c.Try("decode", func() {
			if err := m.decode(c, raw); err != nil {
				c.Fail("bytes with only field %s do not decode: %v", f.name, err)
			}
		})
		return
	}
	// Reading: bytes made by the oracle.
	raw, key := vxRecord(c, s, f, 1)
	other := vxBytes(c, s, 1)
	c.Log("read %s from %x", f.name, raw)
	c.Try("reading "+f.name, func() {
		if err := m.decode(c, append(append([]byte(nil), other...), raw...)); err != nil {
			c.Fail("the bytes do not decode: %v", err)
		}
		switch {
		case f.repeated:
			recs, _ := zeropb.VfParse(append(append([]byte(nil), other...), raw...))
			want := ""
			for _, r := range recs {
				if r.Field == uint64(f.num) {
					want += fmt.Sprintf("[%x err=false]", r.Content)
				}
			}
			if got := vxObserve(c, m)[f.name]; got != want {
				c.Fail("field %s: elements %s, want %s", f.name, got, want)
			}
		case f.typ == "message":
			want := fmt.Sprintf("present=true err=false %x", key.(string)[1:])
			if got := vxObserve(c, m)[f.name]; got != want {
				c.Fail("field %s: %s, want %s", f.name, got, want)
			}
		default:
			if got := zeropb.VfKey(vxKind(f.typ), m.call(c, name)[0].Interface()); got != key {
				c.Fail("field %s reads %s from %x, want %s", f.name, zeropb.VfShow(got), raw, zeropb.VfShow(key))
			}
		}
	})
	// Writing into a new message: exactly one record, with the declared number.
	m = vxNew(s)
	c.Try("writing "+f.name, func() {
		fresh := vxObserve(c, m)
		key := vxSet(c, m, f)
		recs, ok := zeropb.VfParse(m.encode(c))
		if !ok || len(recs) != 1 || recs[0].Field != uint64(f.num) {
			c.Fail("setting field %s writes %x", f.name, m.encode(c))
		}
		typ, want := 2, []byte(nil)
		if f.typ == "message" {
			want = append(zeropb.VfPutUvarint(uint64(len(key.(string))-1)), key.(string)[1:]...)
		} else {
			typ, want = zeropb.VfEnc(vxKind(f.typ), key)
		}
		want = append(zeropb.VfPutUvarint(uint64(f.num)<<3|uint64(typ)), want...)
		if recs[0].Raw != string(want) {
			c.Fail("setting field %s writes %x, want %x", f.name, recs[0].Raw, want)
		}
		if d := vxDiff(fresh, vxObserve(c, m), f.name); d != "" {
			c.Fail("setting field %s on a new message changes %s", f.name, d)
		}
		if f.typ != "message" {
			if got := zeropb.VfKey(vxKind(f.typ), m.call(c, name)[0].Interface()); got != key {
				c.Fail("field %s was set to %s and reads %s", f.name, zeropb.VfShow(key), zeropb.VfShow(got))
			}
		} else if got := vxObserve(c, m)[f.name]; !strings.Contains(got, fmt.Sprintf("%x", key.(string)[1:])) {
			c.Fail("field %s was set to %x and reads %s", f.name, key.(string)[1:], got)
		}
	})
}

// vxMethods checks which methods a message type has.
func vxMethods(c *zeropb.VfCtx, s *vxMessage) {
	want := map[string]bool{"Encode": true, "Decode": true, "Reset": true}
	for _, f := range s.fields {
		n := vxGoName(f.name)
		switch {
		case f.repeated && f.typ == "message":
			want[n], want["AppendTo"+n] = true, true
		case !f.repeated:
			want[n], want["Set"+n] = true, true
		}
	}
	t := reflect.PtrTo(s.rtype)
	for n := range want {
		if _, ok := t.MethodByName(n); !ok {
			c.Fail("%s.%s has no method %s", s.pkg, s.name, n)
		}
	}
}

// ---------------------------------------------------------------- C16

func vxEmbedded(c *zeropb.VfCtx) {
	var s *vxMessage
	var fs []vxField
	for len(fs) == 0 {
		s = vxPick(c)
		for _, f := range s.fields {
			if f.typ == "message" {
				fs = append(fs, f)
			}
		}
	}
	f := fs[c.Rng().Intn(len(fs))]
	name := vxGoName(f.name)
	m := vxNew(s)
	c.Log("message %s.%s, field %s", s.pkg, s.name, f.name)
	vxUse(c, m)
	c.Eval()
	sub := vxNew(vxSub(s, f))
	vxUse(c, sub)
	payload := append([]byte(nil), sub.encode(c)...)
	bad := c.Rng().Intn(4) == 0
	if f.repeated {
		c.Log("append message %x", payload)
		c.Try("AppendTo", func() {
			before := vxObserve(c, m)[f.name]
			m.call(c, "AppendTo"+name, sub.v.Elem())
			want := before + fmt.Sprintf("[%x err=false]", payload)
			if got := vxObserve(c, m)[f.name]; got != want {
				c.Fail("after the append the elements are %s, want %s", got, want)
			}
		})
		return
	}
	if bad {
		// Malformed embedded bytes: the outer decode accepts them, the read
		// reports them.
		raw := append(payload, 0x0f)
		b := append(zeropb.VfPutUvarint(uint64(f.num)<<3|2), zeropb.VfPutUvarint(uint64(len(raw)))...)
		b = append(b, raw...)
		c.Log("decode %x", b)
		c.Try("decoding and reading", func() {
			if err := m.decode(c, b); err != nil {
				c.Fail("the outer decode reports the embedded message: %v", err)
			}
			into := vxNew(vxSub(s, f))
			res := m.call(c, name, into.v)
			if !res[0].Bool() || res[1].Interface() == nil {
				c.Fail("reading malformed embedded bytes gives (%v, %v)", res[0], res[1])
			}
		})
		return
	}
	if c.Rng().Intn(3) == 0 {
		payload = nil
		sub = vxNew(vxSub(s, f))
	}
	present := true
	if c.Rng().Intn(4) == 0 {
		m = vxNew(s)
		present = false
	} else {
		c.Log("set message %x", payload)
		c.Try("Set", func() { m.call(c, "Set"+name, sub.v.Elem()) })
	}
	into := vxNew(vxSub(s, f))
	vxUse(c, into)
	c.Try("reading", func() {
		old := string(into.encode(c))
		obs := vxObserve(c, into)
		res := m.call(c, name, into.v)
		if res[1].Interface() != nil {
			c.Fail("reading gives error %v", res[1])
		}
		if res[0].Bool() != present {
			c.Fail("reading reports presence %v, want %v", res[0].Bool(), present)
		}
		want := old
		if present {
			want = string(payload)
			fresh := vxNew(vxSub(s, f))
			fresh.decode(c, payload)
			obs = vxObserve(c, fresh)
		}
		if got := string(into.encode(c)); got != want {
			c.Fail("reading gives the message %x, want %x", got, want)
		}
		if d := vxDiff(obs, vxObserve(c, into), ""); d != "" {
			c.Fail("reading gives a message that differs in %s", d)
		}
		if present {
			if string(sub.encode(c)) != string(payload) {
				c.Fail("setting changed the embedded message")
			}
		}
	})
}

// ---------------------------------------------------------------- C12

var vxProtoTypes = map[generate.FieldDescriptorProto_Type][2]string{
	generate.FieldDescriptorProto_TYPE_BOOL:     {"bool", "Bool"},
	generate.FieldDescriptorProto_TYPE_INT32:    {"int32", "Int32"},
	generate.FieldDescriptorProto_TYPE_INT64:    {"int64", "Int64"},
	generate.FieldDescriptorProto_TYPE_UINT32:   {"uint32", "Uint32"},
	generate.FieldDescriptorProto_TYPE_UINT64:   {"uint64", "Uint64"},
	generate.FieldDescriptorProto_TYPE_SINT32:   {"int32", "ZigZagInt32"},
	generate.FieldDescriptorProto_TYPE_SINT64:   {"int64", "ZigZagInt64"},
	generate.FieldDescriptorProto_TYPE_FIXED32:  {"uint32", "FixedUint32"},
	generate.FieldDescriptorProto_TYPE_FIXED64:  {"uint64", "FixedUint64"},
	generate.FieldDescriptorProto_TYPE_SFIXED32: {"int32", "FixedInt32"},
	generate.FieldDescriptorProto_TYPE_SFIXED64: {"int64", "FixedInt64"},
	generate.FieldDescriptorProto_TYPE_DOUBLE:   {"float64", "Float64"},
	generate.FieldDescriptorProto_TYPE_FLOAT:    {"float32", "Float32"},
	generate.FieldDescriptorProto_TYPE_STRING:   {"string", "String"},
	generate.FieldDescriptorProto_TYPE_BYTES:    {"[]byte", "Bytes"},
	generate.FieldDescriptorProto_TYPE_ENUM:     {"uint32", "Uint32"},
}

func vxIdent(c *zeropb.VfCtx, used map[string]bool) string {
	const first = "abcdefgXYZ"
	const rest = "abcXYZ019__"
	for {
		b := []byte{first[c.Rng().Intn(len(first))]}
		if c.Rng().Intn(8) == 0 {
			b = append([]byte{'_'}, b...)
		}
		for n := c.Rng().Intn(8); n > 0; n-- {
			b = append(b, rest[c.Rng().Intn(len(rest))])
		}
		name := string(b)
		g := strings.ToLower(vxGoName(name))
		if used[g] {
			continue
		}
		used[g] = true
		return name
	}
}

// vxFile makes a random file description and the declarations expected of it.
func vxFile(c *zeropb.VfCtx, name string) (*generate.FileDescriptorProto, string) {
	pkg := "pkg" + strconv.Itoa(c.Rng().Intn(5))
	fd := &generate.FileDescriptorProto{Name: proto.String(name), Package: proto.String(pkg)}
	src := "package " + pkg + "\nimport \"github.com/danhhz/zeropb\"\n"
	msgs := map[string]bool{}
	names := []string{}
	for n := c.Rng().Intn(4); n > 0; n-- {
		names = append(names, "M"+vxIdent(c, msgs))
	}
	const off = "zeropb.WrapOffsets(m.offsets.a[:], &m.offsets.m)"
	var types []generate.FieldDescriptorProto_Type
	for t := range vxProtoTypes {
		types = append(types, t)
	}
	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
	for _, mn := range names {
		md := &generate.DescriptorProto{Name: proto.String(mn)}
		used := map[string]bool{"encode": true, "decode": true, "reset": true}
		nums := map[int32]bool{}
		largest := int32(0)
		reps := ""
		body := ""
		its := map[string]bool{}
		for n := c.Rng().Intn(7); n > 0; n-- {
			fn := vxIdent(c, used)
			num := int32(1 + c.Rng().Intn(20))
			if c.Rng().Intn(5) == 0 {
				num = int32(1) << uint(c.Rng().Intn(29))
			}
			if nums[num] {
				continue
			}
			nums[num] = true
			g := vxGoName(fn)
			label := []generate.FieldDescriptorProto_Label{
				generate.FieldDescriptorProto_LABEL_OPTIONAL,
				generate.FieldDescriptorProto_LABEL_REQUIRED,
				generate.FieldDescriptorProto_LABEL_REPEATED}[c.Rng().Intn(3)]
			typ := generate.FieldDescriptorProto_TYPE_MESSAGE
			if c.Rng().Intn(3) > 0 {
				typ = types[c.Rng().Intn(len(types))]
			}
			tn := "M" + vxIdent(c, map[string]bool{})
			if c.Rng().Intn(2) == 0 && len(names) > 0 {
				tn = names[c.Rng().Intn(len(names))]
			}
			rep := label == generate.FieldDescriptorProto_LABEL_REPEATED
			if rep && typ == generate.FieldDescriptorProto_TYPE_MESSAGE {
				if its[tn] {
					continue // a known finding: two iterators of one name
				}
				its[tn] = true
			}
			if num > largest {
				largest = num
			}
			field := &generate.FieldDescriptorProto{Name: proto.String(fn), Number: proto.Int32(num), Label: &label, Type: &typ}
			if typ == generate.FieldDescriptorProto_TYPE_MESSAGE || typ == generate.FieldDescriptorProto_TYPE_ENUM {
				field.TypeName = proto.String([]string{tn, "." + pkg + "." + tn, "." + pkg + ".Outer." + tn, "." + tn}[c.Rng().Intn(4)])
			}
			if c.Rng().Intn(6) == 0 {
				md.Field = append(md.Field, nil)
			}
			md.Field = append(md.Field, field)
			if rep {
				reps += fmt.Sprintf("%d: struct{}{},\n", num)
			}
			fm := map[string]string{"M": mn, "F": g, "T": tn, "N": strconv.Itoa(int(num)), "O": off}
			switch {
			case rep && typ == generate.FieldDescriptorProto_TYPE_MESSAGE:
				body += vxExpand(fm, `
					type @M@TIterator []byte
					func (i *@M@TIterator) Next(m *@T) (bool, error) {
						var buf []byte
						*i, buf = zeropb.FindNextField((*i), @N)
						if buf == nil { 
							return false, nil
						}
						return true, m.Decode(buf)
					}
					func (m *@M) @F() @M@TIterator {
						return @M@TIterator(zeropb.GetRepeatedNonPacked(m.buf, @O, @N))
					}
					func (m *@M) AppendTo@F(x @T) {
						buf := x.Encode()
						zeropb.AppendBytes(&m.buf, @O, @N, buf)
					}
				`)
			case rep:
			case typ == generate.FieldDescriptorProto_TYPE_MESSAGE:
				body += vxExpand(fm, `
					func (m *@M) @F(x *@T) (bool, error) {
						buf := zeropb.GetBytes(m.buf, @O, @N)
						if buf == nil {
							return false, nil
						}
						return true, x.Decode(buf)
					}
					func (m *@M) Set@F(x @T) {
						buf := x.Encode()
						zeropb.SetBytes(&m.buf, @O, @N, buf)
					}
				`)
			default:
				fm["G"], fm["K"] = vxProtoTypes[typ][0], vxProtoTypes[typ][1]
				body += vxExpand(fm, `
					func (m *@M) @F() @G {
						return zeropb.Get@K(m.buf, @O, @N)
					}
					func (m *@M) Set@F(x @G) {
						zeropb.Set@K(&m.buf, @O, @N, x)
					}
				`)
			}
		}
		if c.Rng().Intn(6) == 0 {
			fd.MessageType = append(fd.MessageType, nil)
		}
		fd.MessageType = append(fd.MessageType, md)
		fm := map[string]string{"M": mn, "L": strconv.Itoa(int(largest) + 1), "R": reps, "O": off}
		src += vxExpand(fm, `
			type @M struct {
				buf []byte
				offsets struct {
					a [@L]uint16
					m map[int]uint64
				}
			}
			var repeatedFields_@M = zeropb.RepeatedFields{
				@R}
			func (m *@M) Encode() []byte { 
				return m.buf
			}
			func (m *@M) Decode(buf []byte) error {
				m.buf = buf
				return zeropb.Decode(m.buf, @O, repeatedFields_@M)
			}
			func (m *@M) Reset(buf []byte) {
				if len(buf) > 0 {
					panic(`+"`buf must be empty`"+`)
				}
				m.buf = buf
				@O.Clear()
			}
		`) + body
	}
	return fd, src
}

func vxExpand(m map[string]string, s string) string {
	for k, v := range m {
		s = strings.Replace(s, "@"+k, v, -1)
	}
	return s
}

// vxDecls gives the declarations of a file, normalized and sorted.
func vxDecls(src string) ([]string, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, "", err
	}
	var out []string
	for _, d := range f.Decls {
		// Lay the declaration out afresh: drop its positions by printing,
		// joining and formatting it again.
		var b bytes.Buffer
		format.Node(&b, fset, d)
		s := strings.Join(strings.Fields(b.String()), " ")
		out = append(out, s)
	}
	sort.Strings(out)
	_ = ast.Print
	return out, f.Name.Name, nil
}

func vxGenerate(c *zeropb.VfCtx) {
	fd, src := vxFile(c, "some/file.proto")
	c.Log("schema: %s", proto.CompactTextString(fd))
	c.Eval()
	c.Try("generating", func() {
		req := &generate.CodeGeneratorRequest{FileToGenerate: []string{"some/file.proto"}, ProtoFile: []*generate.FileDescriptorProto{fd}}
		res, err := generate.Generate(req)
		if err != nil || len(res.File) != 1 {
			c.Fail("generation gives %d files, error %v", len(res.GetFile()), err)
		}
		got, pkg, err := vxDecls(res.File[0].GetContent())
		if err != nil {
			c.Fail("the generated text does not parse: %v", err)
		}
		want, wpkg, err := vxDecls(src)
		if err != nil {
			panic(err)
		}
		if pkg != wpkg {
			c.Fail("the generated package is %s, want %s", pkg, wpkg)
		}
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) || i < len(want) && got[i] > want[i] {
				c.Log("missing: %s", want[i])
			}
			if i >= len(want) || i < len(got) && got[i] < want[i] {
				c.Log("unexpected: %s", got[i])
			}
			if i >= len(want) || i >= len(got) || got[i] != want[i] {
				c.Fail("the generated code is not what the schema asks for")
			}
		}
		// A function of the schema alone: with another file before it, and again.
		other, _ := vxFile(c, "other.proto")
		req.ProtoFile = []*generate.FileDescriptorProto{other, fd}
		req.FileToGenerate = []string{"other.proto", "some/file.proto"}
		res2, err := generate.Generate(req)
		if err != nil || len(res2.File) != 2 || res2.File[1].GetContent() != res.File[0].GetContent() {
			c.Fail("generation depends on more than the schema")
		}
	})
}

// ---------------------------------------------------------------- C14

func vxRequest(c *zeropb.VfCtx) (*generate.CodeGeneratorRequest, []string, []string) {
	req := &generate.CodeGeneratorRequest{}
	pool := []string{"a.proto", "b.proto", "dir/c.proto", "d", "x.proto.proto", "e.protox", "f.pro", "a.b.proto", ".proto", "g.proto/h.proto", "to", "dir.proto/z"}
	var names, pkgs []string
	if c.Rng().Intn(8) == 0 {
		for i := 0; i < 60; i++ {
			pool = append(pool, fmt.Sprintf("m%d/n%d.proto", i%7, i))
		}
	}
	switch c.Rng().Intn(24) {
	case 0:
		pool = append(pool, "")
	case 1:
		pool = append(pool, pool...) // described more than once
	}
	req.FileToGenerate = []string{}
	asked := map[string]bool{}
	for n := c.Rng().Intn(2 + len(pool)/3); n > 0; n-- {
		f := pool[c.Rng().Intn(len(pool))]
		req.FileToGenerate = append(req.FileToGenerate, f)
		asked[f] = true
	}
	perm := c.Rng().Perm(len(pool))
	for _, i := range perm[:c.Rng().Intn(len(pool))] {
		if c.Rng().Intn(6) == 0 && os.Getenv("VERIF_BIN") == "" {
			req.ProtoFile = append(req.ProtoFile, nil)
		}
		fd, _ := vxFile(c, pool[i])
		req.ProtoFile = append(req.ProtoFile, fd)
		if asked[pool[i]] {
			out := pool[i]
			if strings.HasSuffix(out, ".proto") {
				out = out[:len(out)-len(".proto")]
			}
			names = append(names, out+".zeropb.go")
			pkgs = append(pkgs, fd.GetPackage())
		}
	}
	return req, names, pkgs
}

func vxCheckResponse(c *zeropb.VfCtx, res *generate.CodeGeneratorResponse, names, pkgs []string) {
	var got []string
	for _, f := range res.File {
		got = append(got, f.GetName())
	}
	if fmt.Sprint(got) != fmt.Sprint(names) {
		c.Fail("the response holds files %q, want %q", got, names)
	}
	for i, f := range res.File {
		pf, err := parser.ParseFile(token.NewFileSet(), "x.go", f.GetContent(), parser.PackageClauseOnly)
		if err != nil || pf.Name.Name != pkgs[i] {
			c.Fail("file %s does not declare package %s", f.GetName(), pkgs[i])
		}
	}
	if res.Error != nil {
		c.Fail("the response reports an error: %s", *res.Error)
	}
}

func vxPlugin(c *zeropb.VfCtx) {
	req, names, pkgs := vxRequest(c)
	c.Log("request: %s", proto.CompactTextString(req))
	c.Eval()
	c.Try("generating", func() {
		res, err := generate.Generate(req)
		if err != nil {
			c.Fail("Generate fails: %v", err)
		}
		vxCheckResponse(c, res, names, pkgs)
	})
	bin := os.Getenv("VERIF_BIN")
	if bin == "" || c.Case()%20 != 0 && os.Getenv("VERIF_CASE") == "" {
		return
	}
	for _, f := range req.ProtoFile {
		for _, m := range f.GetMessageType() {
			var fs []*generate.FieldDescriptorProto
			for _, x := range m.GetField() {
				if x != nil {
					fs = append(fs, x)
				}
			}
			if m != nil {
				m.Field = fs
			}
		}
		if f != nil {
			var ms []*generate.DescriptorProto
			for _, m := range f.MessageType {
				if m != nil {
					ms = append(ms, m)
				}
			}
			f.MessageType = ms
		}
	}
	if c.Rng().Intn(3) == 0 {
		req.Parameter = proto.String(strings.Repeat("p", 1<<uint(9+c.Rng().Intn(14))))
	}
	b, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	plugin := filepath.Join(bin, "protoc-gen-zeropb")
	c.Log("run protoc-gen-zeropb on it")
	out, ok := vxRun(plugin, bytes.NewReader(b), nil)
	if !ok {
		c.Fail("the plugin fails on a good request")
	}
	var res generate.CodeGeneratorResponse
	if err := proto.Unmarshal(out, &res); err != nil {
		c.Fail("the plugin's output is no response: %v", err)
	}
	vxCheckResponse(c, &res, names, pkgs)
	direct, err := generate.Generate(req)
	if err != nil || !proto.Equal(direct, &res) {
		c.Fail("the plugin's response differs from the generator's")
	}
	for _, p := range []string{plugin, filepath.Join(bin, "protoc-gen-text")} {
		if p != plugin {
			if out, ok := vxRun(p, bytes.NewReader(b), nil); !ok || len(out) > 0 {
				c.Fail("%s on a good request: success %v, %d bytes on standard output", filepath.Base(p), ok, len(out))
			}
		}
		bad := append(append([]byte(nil), b...), 0x0a, 0x7f)
		switch c.Rng().Intn(4) {
		case 0:
			bad = []byte{0xff, 0xff, 0x07}
		case 1:
			// complete bytes that lack a required field: a file with an option
			// whose name part does not say whether it is an extension
			bad = append(append([]byte(nil), b...), 0x7a, 9, 0x42, 7, 0xba, 0x3e, 4, 0x12, 2, 0x0a, 0)
		case 2:
			if len(b) == 0 {
				break
			}
			bad = b[:len(b)-1] // every field of a request ends with its data
		}
		c.Log("run %s on %x", filepath.Base(p), bad)
		if out, ok := vxRun(p, bytes.NewReader(bad), nil); ok || len(out) > 0 {
			c.Fail("%s on input that does not parse: success %v, %d bytes on standard output", filepath.Base(p), ok, len(out))
		}
		dir, err := os.Open(bin)
		if err == nil {
			c.Log("run %s on input that cannot be read (a directory)", filepath.Base(p))
			out, ok := vxRun(p, nil, dir)
			dir.Close()
			if ok || len(out) > 0 {
				c.Fail("%s on input that cannot be read: success %v, %d bytes on standard output", filepath.Base(p), ok, len(out))
			}
		}
	}
}

func vxRun(bin string, in *bytes.Reader, file *os.File) ([]byte, bool) {
	cmd := exec.Command(bin)
	if file != nil {
		cmd.Stdin = file
	} else {
		cmd.Stdin = in
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	return out.Bytes(), err == nil
}

// ---------------------------------------------------------------- C15

// vxSink takes limit bytes and then fails once; later writes succeed, so that
// a write after the error shows.
type vxSink struct {
	limit  int
	got    []byte
	err    error
	failed bool
	late   int
	repeat bool
}

func (s *vxSink) Write(p []byte) (int, error) {
	if s.failed {
		s.late++
		if s.repeat {
			return 0, errors.New("a later error")
		}
		return len(p), nil
	}
	if s.limit >= 0 && len(s.got)+len(p) > s.limit {
		n := s.limit - len(s.got)
		s.got = append(s.got, p[:n]...)
		s.failed = true
		return n, s.err
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

type vxStringer string

func (s vxStringer) String() string { return string(s) }

func vxWriter(c *zeropb.VfCtx) {
	indent := []string{"", " ", "  ", "\t", "ab"}[c.Rng().Intn(5)]
	sink := &vxSink{limit: -1, err: errors.New("the first error"), repeat: c.Rng().Intn(2) == 0}
	if c.Rng().Intn(3) > 0 {
		sink.limit = c.Rng().Intn(40)
	}
	c.Log("indent %q, the writer fails after %d bytes", indent, sink.limit)
	st := generate.NewStringTree(sink, indent)
	want := ""
	c.Eval()
	c.Try("writing", func() {
		for n := c.Rng().Intn(5); n > 0; n-- {
			var args []interface{}
			for j := c.Rng().Intn(5); j > 0; j-- {
				var a interface{}
				word := strings.Repeat("xyz", c.Rng().Intn(3))
				switch c.Rng().Intn(5) {
				case 0:
					k := c.Rng().Intn(4)
					var in generate.StringTreeIndent
					for i := 0; i < k; i++ {
						in = in.Next()
					}
					a = in
					want += strings.Repeat(indent, k)
				case 1:
					a = []byte(word)
					want += word
				case 2:
					a = word
					want += word
				case 3:
					a = vxStringer(word)
					want += word
				default:
					v := int32(c.Rng().Uint32() >> uint(c.Rng().Intn(32)))
					if c.Rng().Intn(6) == 0 {
						v = -1 << 31
					}
					a = v
					want += fmt.Sprintf("%d", v)
				}
				args = append(args, a)
			}
			c.Log("write %#v", args)
			st.Write(args...)
			exp := want
			var err error
			if sink.limit >= 0 && len(want) > sink.limit {
				exp, err = want[:sink.limit], sink.err
			}
			if string(sink.got) != exp {
				c.Fail("the writer received %q, want %q", sink.got, exp)
			}
			if sink.late > 0 {
				c.Fail("something was written after the first error")
			}
			if st.Error() != err {
				c.Fail("the reported error is %v, want %v", st.Error(), err)
			}
		}
	})
}
