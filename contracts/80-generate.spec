// The code generator (properties C12 and C14): the text of a generated file as
// a function of the schema.

def reliable(w: Int): Bool = typeof(w) == tcode("*strings.Builder") || typeof(w) == tcode("*bytes.Buffer")

// ---- descriptors: the getters' values, for a descriptor or a pointer to one ----

def fname(f: Any): Str = f.Name == nil ? "" : *f.Name
def fnum(f: Any): Int = f.Number == nil ? 0 : *f.Number
def flab(f: Any): Int = f.Label == nil ? 1 : *f.Label
def ftyp(f: Any): Int = f.Type == nil ? 1 : *f.Type
def ftname(f: Any): Str = f.TypeName == nil ? "" : *f.TypeName

// ---- schema types ----

def simpletype(t: Int): Bool = 1 <= t && t <= 18 && t != 10 && t != 11
opaque def gotype(t: Int): Str =
  t == 1 ? "float64" : t == 2 ? "float32" : t == 3 ? "int64" : t == 4 ? "uint64" : t == 5 ? "int32" :
  t == 6 ? "uint64" : t == 7 ? "uint32" : t == 8 ? "bool" : t == 9 ? "string" : t == 12 ? "[]byte" :
  t == 13 ? "uint32" : t == 14 ? "uint32" : t == 15 ? "int32" : t == 16 ? "int64" : t == 17 ? "int32" : "int64"
opaque def gofn(t: Int): Str =
  t == 1 ? "Float64" : t == 2 ? "Float32" : t == 3 ? "Int64" : t == 4 ? "Uint64" : t == 5 ? "Int32" :
  t == 6 ? "FixedUint64" : t == 7 ? "FixedUint32" : t == 8 ? "Bool" : t == 9 ? "String" : t == 12 ? "Bytes" :
  t == 13 ? "Uint32" : t == 14 ? "Uint32" : t == 15 ? "FixedInt32" : t == 16 ? "FixedInt64" : t == 17 ? "ZigZagInt32" : "ZigZagInt64"

// ---- Go names: the letters and digits, the first of each run in title case ----

uninterp runecount(s: Str): Int
uninterp runeat(s: Str, i: Int): Int
uninterp chr(r: Int): Str
uninterp isletter(r: Int): Bool
uninterp isdigit(r: Int): Bool
uninterp totitle(r: Int): Int

extern unicode.IsLetter(r)(b)
  note "unicode.IsLetter is a function of the rune"
  ensures b == isletter(r)

extern unicode.IsDigit(r)(b)
  note "unicode.IsDigit is a function of the rune"
  ensures b == isdigit(r)

extern unicode.ToTitle(r)(t)
  note "unicode.ToTitle is a function of the rune and gives a rune"
  ensures t == totitle(r) && (r >= 0 ==> t >= 0)

def isword(r: Int): Bool = isletter(r) || isdigit(r)
def starts(s: Str, k: Int): Bool = k == 0 || !isword(runeat(s, k - 1))
// the Go name made of the first k runes of s
rec gocasen(s: Str, k: Int): Str decreases k =
  k <= 0 ? "" : gocasen(s, k - 1) + (let r = runeat(s, k - 1); !isword(r) ? "" : chr(starts(s, k - 1) ? totitle(r) : r))
def gocase(s: Str): Str = gocasen(s, runecount(s))

contract "generate.toGoCase"(s)(r)
  tags C12
  strings on
  modifies fresh
  loopinv for C12 [o: ModStr, i: ModInt] name_so_far: o == gocasen(s, i)
    using { unfold gocasen(s, i) }
  loopinv for C12 [b: ModBool, i: ModInt] at_word_start: b == starts(s, i)
  loopinv for C12 [b: ModBool, i: ModInt] inside_word: b == !starts(s, i)
  ensures [C12] go_name: r == gocase(s)

contract "generate.fieldToGoTypeSimple"(typ)(t, fn)
  tags C12
  strings on
  requires supported: simpletype(typ)
  modifies fresh
  ensures [C12] go_type: t == gotype(typ)
    using { unfold gotype(typ) }
  ensures [C12] runtime_functions: fn == gofn(typ)
    using { unfold gofn(typ) }

// ---- the accessors of one field ----

def offsetstext(): Str = "zeropb.WrapOffsets(m.offsets.a[:], &m.offsets.m)"
opaque def simpletext(s: Str, i: Int, m: Str, name: Str, t: Int, n: Int): Str =
  repeat(s, i) + "func (m *" + m + ") " + name + "() " + gotype(t) + " {\n" +
  repeat(s, i + 1) + "return zeropb.Get" + gofn(t) + "(m.buf, " + offsetstext() + ", " + itoa_(n) + ")\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") Set" + name + "(x " + gotype(t) + ") {\n" +
  repeat(s, i + 1) + "zeropb.Set" + gofn(t) + "(&m.buf, " + offsetstext() + ", " + itoa_(n) + ", x)\n" +
  repeat(s, i) + "}\n\n"

def writer(st: Any, i: Int): Bool =
  st != nil && reliable(st.w) && st.err == nil && 0 <= i && i <= 1000 && strlen(st.indent) <= 1000

contract "generate.generateSimpleField"(st, indent, m, f)
  tags C12
  strings on
  requires writer: writer(st, indent)
  requires supported: simpletype(ftyp(f))
  modifies st.err, ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures no_error: st.err == nil
  ensures [C14] appends: ghost(out) == store(old(ghost(out)), st.w, ghost(out)[st.w]) && prefixof(old(ghost(out))[st.w], ghost(out)[st.w])
  ensures [C12] accessors: ghost(out) == store(old(ghost(out)), st.w, old(ghost(out))[st.w] + simpletext(st.indent, indent, m, gocase(old(fname(f))), old(ftyp(f)), old(fnum(f))))
    using { unfold simpletext(st.indent, indent, m, gocase(old(fname(f))), old(ftyp(f)), old(fnum(f))) }

// the type's name without the packages and messages it is declared in
uninterp lastidx(s: Str, sub: Str): Int
extern strings.LastIndex(s, sub)(i)
  note "strings.LastIndex gives the last position of sub, or -1"
  ensures i == lastidx(s, sub) && -1 <= i && i + strlen(sub) <= strlen(s) && i <= 1125899906842624

extern strings.LastIndexByte(s, c)(i)
  note "strings.LastIndexByte gives the last position of c, or -1"
  ensures -1 <= i && i < strlen(s) && i <= 1125899906842624 && (c == 46 ==> i == lastidx(s, "."))

def shortname(s: Str): Str = lastidx(s, ".") == -1 ? s : substr(s, lastidx(s, ".") + 1, strlen(s) - lastidx(s, ".") - 1)

contract "generate.fieldToGoTypeMessage"(s)(r)
  tags C12
  strings on
  modifies fresh
  ensures [C12] short_name: r == shortname(s)

opaque def messagetext(s: Str, i: Int, m: Str, name: Str, t: Str, n: Int): Str =
  repeat(s, i) + "func (m *" + m + ") " + name + "(x *" + t + ") (bool, error) {\n" +
  repeat(s, i + 1) + "buf := zeropb.GetBytes(m.buf, " + offsetstext() + ", " + itoa_(n) + ")\n" +
  repeat(s, i + 1) + "if buf == nil {\n" +
  repeat(s, i + 2) + "return false, nil\n" +
  repeat(s, i + 1) + "}\n" +
  repeat(s, i + 1) + "return true, x.Decode(buf)\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") Set" + name + "(x " + t + ") {\n" +
  repeat(s, i + 1) + "buf := x.Encode()\n" +
  repeat(s, i + 1) + "zeropb.SetBytes(&m.buf, " + offsetstext() + ", " + itoa_(n) + ", buf)\n" +
  repeat(s, i) + "}\n\n"

opaque def repeatedtext(s: Str, i: Int, m: Str, name: Str, t: Str, n: Int): Str =
  repeat(s, i) + "type " + m + t + "Iterator []byte\n\n" +
  repeat(s, i) + "func (i *" + m + t + "Iterator) Next(m *" + t + ") (bool, error) {\n" +
  repeat(s, i + 1) + "var buf []byte\n" +
  repeat(s, i + 1) + "*i, buf = zeropb.FindNextField((*i), " + itoa_(n) + ")\n" +
  repeat(s, i + 1) + "if buf == nil {\n" +
  repeat(s, i + 2) + "return false, nil\n" +
  repeat(s, i + 1) + "}\n" +
  repeat(s, i + 1) + "return true, m.Decode(buf)\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") " + name + "() " + m + t + "Iterator {\n" +
  repeat(s, i + 1) + "return " + m + t + "Iterator(zeropb.GetRepeatedNonPacked(m.buf, " + offsetstext() + ", " + itoa_(n) + "))\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") AppendTo" + name + "(x " + t + ") {\n" +
  repeat(s, i + 1) + "buf := x.Encode()\n" +
  repeat(s, i + 1) + "zeropb.AppendBytes(&m.buf, " + offsetstext() + ", " + itoa_(n) + ", buf)\n" +
  repeat(s, i) + "}\n\n"

contract "generate.generateMessageField"(st, indent, m, f)
  tags C12
  strings on
  requires writer: writer(st, indent)
  modifies st.err, ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures no_error: st.err == nil
  ensures [C14] appends: ghost(out) == store(old(ghost(out)), st.w, ghost(out)[st.w]) && prefixof(old(ghost(out))[st.w], ghost(out)[st.w])
  ensures [C12] accessors: ghost(out) == store(old(ghost(out)), st.w, old(ghost(out))[st.w] + messagetext(st.indent, indent, m, gocase(old(fname(f))), shortname(old(ftname(f))), old(fnum(f))))
    using { unfold messagetext(st.indent, indent, m, gocase(old(fname(f))), shortname(old(ftname(f))), old(fnum(f))) }

contract "generate.generateRepeatedMessageField"(st, indent, m, f)
  tags C12
  strings on
  requires writer: writer(st, indent)
  modifies st.err, ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures no_error: st.err == nil
  ensures [C14] appends: ghost(out) == store(old(ghost(out)), st.w, ghost(out)[st.w]) && prefixof(old(ghost(out))[st.w], ghost(out)[st.w])
  ensures [C12] accessors: ghost(out) == store(old(ghost(out)), st.w, old(ghost(out))[st.w] + repeatedtext(st.indent, indent, m, gocase(old(fname(f))), shortname(old(ftname(f))), old(fnum(f))))
    using { unfold repeatedtext(st.indent, indent, m, gocase(old(fname(f))), shortname(old(ftname(f))), old(fnum(f))) }

// ---- the schema: what the descriptors at each address say. The functions
// below are tied to the descriptors in memory by the preconditions. ----

uninterp NameOf(a: Int): Str
uninterp NumOf(a: Int): Int
uninterp LabOf(a: Int): Int
uninterp TypOf(a: Int): Int
uninterp TNameOf(a: Int): Str

// a is an object below top
def object(a: Int, top: Int): Bool = 0 < a && a + 256 <= top
// the descriptors below top are those of the schema
def schemafields(top: Int): Bool = forall a: Int :: { NameOf(a) } { NumOf(a) } { LabOf(a) } { TypOf(a) } { TNameOf(a) }
  object(a, top) ==> (let f = ptr(a, "generate.FieldDescriptorProto");
    NameOf(a) == fname(f) && NumOf(a) == fnum(f) && LabOf(a) == flab(f) && TypOf(a) == ftyp(f) && TNameOf(a) == ftname(f) &&
    f.Name < top && f.Number < top && f.Label < top && f.Type < top && f.TypeName < top)

def labof(a: Int): Int = a == 0 ? 1 : LabOf(a)
def numof(a: Int): Int = a == 0 ? 0 : NumOf(a)
// a field descriptor, or nil, that the generator supports
def fieldok(a: Int, top: Int): Bool = a == 0 || object(a, top) && (
  0 <= NumOf(a) && NumOf(a) < 536870912 && ((LabOf(a) == 1 || LabOf(a) == 2) ==> simpletype(TypOf(a)) || TypOf(a) == 11))
def fieldtext(a: Int, s: Str, i: Int, m: Str): Str =
  a == 0 ? "" :
  LabOf(a) == 1 || LabOf(a) == 2 ?
    (TypOf(a) == 11 ? messagetext(s, i, m, gocase(NameOf(a)), shortname(TNameOf(a)), NumOf(a)) : simpletext(s, i, m, gocase(NameOf(a)), TypOf(a), NumOf(a))) :
  LabOf(a) == 3 && TypOf(a) == 11 ? repeatedtext(s, i, m, gocase(NameOf(a)), shortname(TNameOf(a)), NumOf(a)) : ""
rec fieldstext(A: Arr, p: Int, e: Int, s: Str, i: Int, m: Str): Str decreases e - p =
  e <= p ? "" : fieldstext(A, p, e - 1, s, i, m) + fieldtext(A[e-1], s, i, m)
rec repsettext(A: Arr, p: Int, e: Int, s: Str, i: Int): Str decreases e - p =
  e <= p ? "" : repsettext(A, p, e - 1, s, i) + (labof(A[e-1]) == 3 ? repeat(s, i + 1) + itoa_(numof(A[e-1])) + ": struct{}{},\n" : "")
rec maxnum(A: Arr, p: Int, e: Int): Int decreases e - p =
  e <= p ? 0 : (let r = maxnum(A, p, e - 1); numof(A[e-1]) > r ? numof(A[e-1]) : r)

opaque def msgtext(m: Str, A: Arr, p: Int, e: Int, s: Str, i: Int): Str =
  repeat(s, i) + "type " + m + " struct {\n" +
  repeat(s, i + 1) + "buf []byte\n" +
  repeat(s, i + 1) + "offsets struct {\n" +
  repeat(s, i + 2) + "a [" + itoa_(maxnum(A, p, e) + 1) + "]uint16\n" +
  repeat(s, i + 2) + "m map[int]uint64\n" +
  repeat(s, i + 1) + "}\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "var repeatedFields_" + m + " = zeropb.RepeatedFields{\n" +
  repsettext(A, p, e, s, i) +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") Encode() []byte {\n" +
  repeat(s, i + 1) + "return m.buf\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") Decode(buf []byte) error {\n" +
  repeat(s, i + 1) + "m.buf = buf\n" +
  repeat(s, i + 1) + "return zeropb.Decode(m.buf, " + offsetstext() + ", repeatedFields_" + m + ")\n" +
  repeat(s, i) + "}\n\n" +
  repeat(s, i) + "func (m *" + m + ") Reset(buf []byte) {\n" +
  repeat(s, i + 1) + "if len(buf) > 0 {\n" +
  repeat(s, i + 2) + "panic(`buf must be empty`)\n" +
  repeat(s, i + 1) + "}\n" +
  repeat(s, i + 1) + "m.buf = buf\n" +
  repeat(s, i + 1) + offsetstext() + ".Clear()\n" +
  repeat(s, i) + "}\n\n" +
  fieldstext(A, p, e, s, i, m)

contract "generate.generateMessage"(st, indent, m)
  tags C12
  strings on
  let top = ghost(top)
  let w = st.w
  let A = arr(m.Field)
  let lo = m.Field.off
  let hi = m.Field.end
  let name = m.Name == nil ? "" : *m.Name
  requires writer: writer(st, indent)
  requires heap: top <= next && m.Name < top && m.Field.base < top && st >= top
  requires schema: schemafields(top)
  requires supported: forall k: Int :: { arr(m.Field)[k] } m.Field.off <= k < m.Field.end ==> fieldok(arr(m.Field)[k], top)
  modifies st.err, ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  loopinv no_error: st.err == nil
  loopinv for C12 [i: ModInt] fields: ghost(out) == store(atloop(ghost(out)), w, atloop(ghost(out))[w] + fieldstext(A, lo, lo + i, st.indent, indent, name))
    using { unfold fieldstext(A, lo, lo + i, st.indent, indent, name) }
  loopinv for C12 [i: ModInt] repeated_set: ghost(out) == store(atloop(ghost(out)), w, atloop(ghost(out))[w] + repsettext(A, lo, lo + i, st.indent, indent))
    using { unfold repsettext(A, lo, lo + i, st.indent, indent) }
  loopinv for C14 appends: ghost(out) == store(atloop(ghost(out)), w, ghost(out)[w]) && prefixof(atloop(ghost(out))[w], ghost(out)[w])
  loopinv [x: ModInt, i: ModInt] largest: x == maxnum(A, lo, lo + i) && 0 <= x && x < 536870912
    using { unfold maxnum(A, lo, lo + i) }
  ensures no_error: st.err == nil
  ensures [C14] appends: ghost(out) == store(old(ghost(out)), w, ghost(out)[w]) && prefixof(old(ghost(out))[w], ghost(out)[w])
  ensures [C12] text: ghost(out) == store(old(ghost(out)), w, old(ghost(out))[w] + msgtext(name, A, lo, hi, st.indent, indent))
    using { unfold msgtext(name, A, lo, hi, st.indent, indent) }

// ---- files ----

uninterp MNameOf(a: Int): Str
uninterp MArr(a: Int): Arr
uninterp MLo(a: Int): Int
uninterp MHi(a: Int): Int
def schemamsgs(top: Int): Bool = forall a: Int :: { MNameOf(a) } { MArr(a) } { MLo(a) } { MHi(a) }
  object(a, top) ==> (let m = ptr(a, "generate.DescriptorProto");
    MNameOf(a) == (m.Name == nil ? "" : *m.Name) && MArr(a) == arr(m.Field) && MLo(a) == m.Field.off && MHi(a) == m.Field.end &&
    m.Name < top && m.Field.base < top)

uninterp PNameOf(a: Int): Str
uninterp PPkgOf(a: Int): Str
uninterp PArr(a: Int): Arr
uninterp PLo(a: Int): Int
uninterp PHi(a: Int): Int
def schemafiles(top: Int): Bool = forall a: Int :: { PNameOf(a) } { PPkgOf(a) } { PArr(a) } { PLo(a) } { PHi(a) }
  object(a, top) ==> (let p = ptr(a, "generate.FileDescriptorProto");
    PNameOf(a) == (p.Name == nil ? "" : *p.Name) && PPkgOf(a) == (p.Package == nil ? "" : *p.Package) &&
    PArr(a) == arr(p.MessageType) && PLo(a) == p.MessageType.off && PHi(a) == p.MessageType.end &&
    p.Name < top && p.Package < top && p.MessageType.base < top)

def messageok(a: Int, top: Int): Bool = a == 0 || object(a, top) && (forall k: Int :: { MArr(a)[k] } MLo(a) <= k < MHi(a) ==> fieldok(MArr(a)[k], top))
def fileok(a: Int, top: Int): Bool = a == 0 || object(a, top) && (forall k: Int :: { PArr(a)[k] } PLo(a) <= k < PHi(a) ==> messageok(PArr(a)[k], top))

rec msgstext(A: Arr, p: Int, e: Int, s: Str): Str decreases e - p =
  e <= p ? "" : msgstext(A, p, e - 1, s) + (A[e-1] == 0 ? "" : msgtext(MNameOf(A[e-1]), MArr(A[e-1]), MLo(A[e-1]), MHi(A[e-1]), s, 0))

def header(pkg: Str): Str = "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\npackage " + pkg + "\n\n" + "import \"github.com/danhhz/zeropb\"" + "\n\n"
opaque def begins(pkg: Str, s: Str): Bool = prefixof(header(pkg), s)
opaque def filetext(pkg: Str, A: Arr, p: Int, e: Int): Str = header(pkg) + msgstext(A, p, e, "  ")
opaque def outname(s: Str): Str = (suffixof(".proto", s) ? substr(s, 0, strlen(s) - 6) : s) + ".zeropb.go"

// a builder that nobody has made yet has had nothing written to it
def newbuilders(n: Int): Bool = forall a: Int :: { box(ptr(a, "strings.Builder"), "*strings.Builder") } a >= n ==> ghost(out)[box(ptr(a, "strings.Builder"), "*strings.Builder")] == ""

def stdout(): Int = box(global("os.Stdout"), "*os.File")

extern strings.TrimSuffix(s, suffix)(r)
  note "strings.TrimSuffix removes the suffix if it is there"
  strings on
  ensures r == (suffixof(suffix, s) ? substr(s, 0, strlen(s) - strlen(suffix)) : s)

extern strings.HasSuffix(s, suffix)(r)
  note "strings.HasSuffix tells whether s ends with the suffix"
  strings on
  ensures r <==> suffixof(suffix, s)

extern strings.HasPrefix(s, prefix)(r)
  note "strings.HasPrefix tells whether s begins with the prefix"
  strings on
  ensures r <==> prefixof(prefix, s)

extern strings.Builder.WriteString(b, s)(n, err)
  note "a strings.Builder takes everything written to it"
  strings on
  modifies ghost(out)
  ensures ghost(out) == store(old(ghost(out)), box(b, "*strings.Builder"), old(ghost(out))[box(b, "*strings.Builder")] + s) && err == nil && n == strlen(s)

extern strings.Builder.String(b)(r)
  note "a strings.Builder holds what was written to it"
  strings on
  ensures r == ghost(out)[box(b, "*strings.Builder")]

contract "generate.generateFile"(req)(r, err)
  tags C12 C14
  strings on
  let top = ghost(top)
  requires heap: top <= next && object(req, top)
  requires schema: schemafields(top) && schemamsgs(top) && schemafiles(top)
  requires supported: fileok(req, top)
  requires new_builders: newbuilders(next)
  modifies ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  loopinv [s: PtrVar "*generate.StringTree"] writer: s.err == nil
  loopinv for C14 [s: PtrVar "*generate.StringTree"] one_writer: ghost(out) == store(atloop(ghost(out)), s.w, ghost(out)[s.w])
  loopinv for C14 [s: PtrVar "*generate.StringTree"] begins: prefixof(header(PPkgOf(req)), ghost(out)[s.w])
  loopinv for C12 [s: PtrVar "*generate.StringTree", i: ModInt] messages: ghost(out) == store(atloop(ghost(out)), s.w, atloop(ghost(out))[s.w] + msgstext(PArr(req), PLo(req), PLo(req) + i, "  "))
    using { unfold msgstext(PArr(req), PLo(req), PLo(req) + i, "  ") }
  ensures answer: err == nil && r != nil && r >= old(next) && r + 64 <= next && r.Name != nil && r.Name < next && r.Content != nil && r.Content < next && r.InsertionPoint == nil
  ensures [C14] file_name: *r.Name == outname(PNameOf(req))
    using { unfold outname(PNameOf(req)) }
  ensures [C14] package: begins(PPkgOf(req), *r.Content)
    using { unfold begins(PPkgOf(req), *r.Content) }
  ensures [C12] text: *r.Content == filetext(PPkgOf(req), PArr(req), PLo(req), PHi(req))
    using { unfold filetext(PPkgOf(req), PArr(req), PLo(req), PHi(req)) }
  ensures new_builders: newbuilders(next)
  ensures [C14] stdout_kept: ghost(out)[stdout()] == old(ghost(out)[stdout()])

// ---- the response ----

rec reqset(F: AStr, p: Int, e: Int): StrSet decreases e - p = e <= p ? emptystrset() : store(reqset(F, p, e - 1), F[e-1], true)
// the described file at address a is requested, by a set of names
def selected(S: StrSet, a: Int): Bool = a != 0 && S[PNameOf(a)]
// how many of A[p:e) are requested
rec nsel(S: StrSet, A: Arr, p: Int, e: Int): Int decreases e - p = e <= p ? 0 : nsel(S, A, p, e - 1) + (selected(S, A[e-1]) ? 1 : 0)

lemma nsel_bounds(S: StrSet, A: Arr, p: Int, e: Int)
  tags C14
  requires p <= e
  ensures 0 <= nsel(S, A, p, e) && nsel(S, A, p, e) <= e - p
  decreases e - p
  proof { unfold nsel(S, A, p, e)  if p < e { use nsel_bounds(S, A, p, e - 1) } }

lemma nsel_step(S: StrSet, A: Arr, p: Int, q: Int, e: Int)
  tags C14
  requires p <= q && q < e && selected(S, A[q])
  ensures nsel(S, A, p, q) < nsel(S, A, p, e) && 0 <= nsel(S, A, p, q)
  decreases e - q
  proof { unfold nsel(S, A, p, e) use nsel_bounds(S, A, p, q) if q < e - 1 { use nsel_step(S, A, p, q, e - 1) } }

def answers(f: Int, a: Int): Bool = let r = ptr(f, "generate.CodeGeneratorResponse_File");
  f != 0 && r.Name != nil && *r.Name == outname(PNameOf(a)) && r.Content != nil && begins(PPkgOf(a), *r.Content) && r.InsertionPoint == nil
def holds(f: Int, a: Int): Bool = let r = ptr(f, "generate.CodeGeneratorResponse_File");
  f != 0 && r.Content != nil && *r.Content == filetext(PPkgOf(a), PArr(a), PLo(a), PHi(a))
def madebefore(f: Int, n: Int): Bool = let r = ptr(f, "generate.CodeGeneratorResponse_File"); f + 64 <= n && r.Name < n && r.Content < n

// a well-formed request: the schema functions describe it and the generator
// supports it
def wellformed(r: Int, top: Int): Bool = let req = ptr(r, "generate.CodeGeneratorRequest");
  object(req, top) && req.FileToGenerate.base < top && req.ProtoFile.base < top &&
  schemafields(top) && schemamsgs(top) && schemafiles(top) &&
  (forall k: Int :: { arr(req.ProtoFile)[k] } req.ProtoFile.off <= k < req.ProtoFile.end ==> fileok(arr(req.ProtoFile)[k], top))

contract "generate.Generate"(req)(res, err)
  tags C12 C14
  strings on
  let top = ghost(top)
  let F = arr(req.FileToGenerate)
  let flo = req.FileToGenerate.off
  let fhi = req.FileToGenerate.end
  let S = reqset(F, flo, fhi)
  let A = arr(req.ProtoFile)
  let lo = req.ProtoFile.off
  let hi = req.ProtoFile.end
  requires heap: top <= next && object(req, top) && req.FileToGenerate.base < top && req.ProtoFile.base < top
  requires schema: schemafields(top) && schemamsgs(top) && schemafiles(top)
  requires supported: forall k: Int :: { arr(req.ProtoFile)[k] } req.ProtoFile.off <= k < req.ProtoFile.end ==> fileok(arr(req.ProtoFile)[k], top)
  requires new_builders: newbuilders(next)
  modifies ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  loopinv [m: MapVar, i: ModInt] names: dom(m) == reqset(F, flo, flo + i)
    using { unfold reqset(F, flo, flo + i) }
  loopinv new_builders: newbuilders(next)
  loopinv for C14 stdout_kept: ghost(out)[stdout()] == old(ghost(out)[stdout()])
  loopinv [out: SliceVar "[]*generate.CodeGeneratorResponse_File", i: ModInt] count: out.len == nsel(S, A, lo, lo + i)
    using { unfold nsel(S, A, lo, lo + i) }
  loopinv [out: SliceVar "[]*generate.CodeGeneratorResponse_File"] own_array: (out.cap == 0 || out.base >= old(next)) && out.base < next && 0 <= out.len && out.len <= out.cap
  loopinv [out: SliceVar "[]*generate.CodeGeneratorResponse_File"] made: forall j: Int :: { arr(out)[j] } out.off <= j < out.end ==> madebefore(arr(out)[j], next)
  loopinv for C14 [out: SliceVar "[]*generate.CodeGeneratorResponse_File", i: ModInt] answered: forall k: Int :: { A[k] } lo <= k < lo + i && selected(S, A[k]) ==> answers(arr(out)[out.off + nsel(S, A, lo, k)], A[k])
    using { unfold nsel(S, A, lo, lo + i) forall k: Int :: { A[k] } { use nsel_step(S, A, lo, k, lo + i) use nsel_step(S, A, lo, k, lo + i - 1) } }
  loopinv for C12 [out: SliceVar "[]*generate.CodeGeneratorResponse_File", i: ModInt] generated: forall k: Int :: { A[k] } lo <= k < lo + i && selected(S, A[k]) ==> holds(arr(out)[out.off + nsel(S, A, lo, k)], A[k])
    using { unfold nsel(S, A, lo, lo + i) forall k: Int :: { A[k] } { use nsel_step(S, A, lo, k, lo + i) use nsel_step(S, A, lo, k, lo + i - 1) } }
  ensures no_error: err == nil && res != nil
  ensures [C14] stdout_kept: ghost(out)[stdout()] == old(ghost(out)[stdout()])
  ensures [C14] one_each: res.File.len == nsel(S, A, lo, hi)
  ensures [C14] in_order: forall k: Int :: { A[k] } lo <= k < hi && selected(S, A[k]) ==> answers(arr(res.File)[res.File.off + nsel(S, A, lo, k)], A[k])
    using { forall k: Int :: { A[k] } { use nsel_step(S, A, lo, k, hi) } }
  ensures [C12] generated: forall k: Int :: { A[k] } lo <= k < hi && selected(S, A[k]) ==> holds(arr(res.File)[res.File.off + nsel(S, A, lo, k)], A[k])
    using { forall k: Int :: { A[k] } { use nsel_step(S, A, lo, k, hi) } }
