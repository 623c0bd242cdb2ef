#!/usr/bin/env python3
"""Write the contracts of the generated messages, from their schemas.

  protospec.py REPO OUTDIR

Reads every schema golden/NAME.proto that has a generated package
golden/NAMEzeropb in REPO, and writes one contract for each accessor that the
schema declares. Only the schema is consulted, not the generated code: a
contract says what the accessor of a field with this number, label and type has
to do. The words for messages and records are those of /verif/contracts.
"""
import os, re, sys

# schema type: value macro of the runtime's accessor, wire type, bytes of data of value x
SCALARS = {
    "bool": ("vBool", 0, "(x ? 1 : 0)"),
    "int32": ("vInt32", 0, "bits64(x)"), "int64": ("vInt64", 0, "bits64(x)"),
    "uint32": ("vUint32", 0, "x"), "uint64": ("vUint64", 0, "x"),
    "sint32": ("vZigZagInt32", 0, "zz(x)"), "sint64": ("vZigZagInt64", 0, "zz(x)"),
    "fixed32": ("vFixedUint32", 5, "x"), "fixed64": ("vFixedUint64", 1, "x"),
    "sfixed32": ("vFixedInt32", 5, "bits32(x)"), "sfixed64": ("vFixedInt64", 1, "bits64(x)"),
    "double": ("vFloat64", 1, "x"), "float": ("vFloat32", 5, "x"),
}
ENUM = ("vUint32", 0, "x")


def fail(msg):
    sys.exit("protospec: " + msg)


def tokens(text):
    text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
    return re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\.[A-Za-z_][\w.]*|-?\d\w*|\S', text)


def parse(text, name):
    """({message: [(label, type, field name, number)]}, enum names, go package)"""
    t, i = tokens(text), 0
    messages, enums, pkg = {}, set(), None

    def want(w):
        nonlocal i
        if t[i] != w:
            fail("%s: expected %s, found %s" % (name, w, t[i]))
        i += 1

    while i < len(t):
        if t[i] in ("syntax", "import", "option"):
            while t[i] != ";":
                i += 1
            i += 1
        elif t[i] == "package":
            pkg = t[i + 1]
            i += 2
            want(";")
        elif t[i] == "enum":
            enums.add(t[i + 1])
            i += 2
            want("{")
            while t[i] != "}":
                i += 1
            i += 1
        elif t[i] == "message":
            m = t[i + 1]
            i += 2
            want("{")
            fs = []
            while t[i] != "}":
                label = "optional"
                if t[i] in ("optional", "required", "repeated"):
                    label = t[i]
                    i += 1
                elif t[i] in ("message", "enum", "oneof", "map", "extensions", "reserved", "option", "group"):
                    fail("%s: %s in message %s is not handled" % (name, t[i], m))
                typ, f = t[i], t[i + 1]
                i += 2
                want("=")
                num = int(t[i])
                i += 1
                if t[i] == "[":
                    while t[i] != "]":
                        i += 1
                    i += 1
                want(";")
                fs.append((label, typ, f, num))
            i += 1
            messages[m] = fs
        elif t[i] == ";":
            i += 1
        else:
            fail("%s: %s is not handled" % (name, t[i]))
    return messages, enums, pkg


def go_case(s):
    out, up = "", True
    for c in s:
        if not c.isalnum():
            up = True
        else:
            out += c.upper() if up else c
            up = False
    return out


HEAD = """// Contracts of generated messages. Written by protospec.py from the schemas.

def offs(m: Any): Any = mk("zeropb.Offsets", slice(m.offsets.a), addr(m.offsets.m))
def lastOf(b: Any, f: Int): Int = lasts(arr(b), b.off, b.end, f)
// the last occurrence of the field, if any, has wire type w
def typed(b: Any, f: Int, w: Int): Bool = lastOf(b, f) < 0 || wtyp(arr(b), lastOf(b, f)) == w
// where its data starts
def dataOf(b: Any, f: Int): Int = dpos(arr(b), lastOf(b, f), b.end)
// s is the length-delimited data at d of b, without spare capacity
def payload(s: Any, b: Any, d: Int): Bool = s != nil && content(s, b, d) && s.cap == s.len
// the message b has become c: every record of another field is still there, in order
def others(b: Any, A: Arr, c: Any, f: Int): Bool =
  forall k: Int, i: Int :: { nths(arr(c), c.off, c.end, k, i) } k != f ==> samerec(A, b.off, b.end, arr(c), c.off, c.end, k, i)
// the same, and the records of f come first
def appended(b: Any, A: Arr, c: Any, f: Int): Bool =
  forall k: Int, i: Int :: { nths(arr(c), c.off, c.end, k, i) } k != f || i < cnt(A, b.off, b.end, f) ==> samerec(A, b.off, b.end, arr(c), c.off, c.end, k, i)

lemma reads(A: Arr, p: Int, e: Int, f: Int)
  requires 0 <= p <= e
  ensures lasts(A, p, e, f) >= 0 ==> dsz(A, dpos(A, lasts(A, p, e, f), e), e, wtyp(A, lasts(A, p, e, f))) > 0 && p < dpos(A, lasts(A, p, e, f), e) && dpos(A, lasts(A, p, e, f), e) < e
  ensures wantS(A, p, e, f) == 0 <==> lasts(A, p, e, f) < 0
  ensures firsts(A, p, e, f) >= 0 ==> p < dpos(A, firsts(A, p, e, f), e) && dpos(A, firsts(A, p, e, f), e) < e
  ensures wantR(A, p, e, f) == 0 <==> firsts(A, p, e, f) < 0
  proof {
    use last_loc(A, p, e, f)  use first_loc(A, p, e, f)
    use rec_range(A, lasts(A, p, e, f), e)  use rec_range(A, firsts(A, p, e, f), e)
  }

// what a record with a minimal tag is
lemma tagged(A: Arr, s: Int, e: Int, f: Int, w: Int)
  requires isvar(A, s, tagv(f, w)) && 0 <= w < 8 && f >= 1 && okrec(A, s, e)
  ensures fid(A, s) == f && wtyp(A, s) == w
"""


def gen(pkg, messages, enums):
    o = []
    w = o.append
    for m, fs in messages.items():
        rep = " || ".join("k == %d" % n for l, _, _, n in fs if l == "repeated") or "false"
        decl = " || ".join("k == %d" % n for _, _, _, n in fs) or "false"
        P = "%s_%s" % (pkg, m)
        T = "%s.%s" % (pkg, m)
        w("""
// ---- %(T)s ----

def rep_%(P)s(k: Int): Bool = %(rep)s
def decl_%(P)s(k: Int): Bool = %(decl)s
// the message has a well-formed encoding and the positions of its fields
def inv_%(P)s(m: Any): Bool =
  let o = offs(m); let b = m.buf;
  repOK(o) && wf(arr(b), b.off, b.end) &&
  (forall k: Int :: { o.a[k] } 0 <= k < o.a.len ==> idx(o, k) == wantS(arr(b), b.off, b.end, k) || idx(o, k) == wantR(arr(b), b.off, b.end, k)) &&
  (forall k: Int :: { o.a[k] } 0 <= k < o.a.len && decl_%(P)s(k) ==> idx(o, k) == (rep_%(P)s(k) ? wantR(arr(b), b.off, b.end, k) : wantS(arr(b), b.off, b.end, k)))
""" % locals())
        decode = """
  ensures accepts_exactly_wellformed: %(err)s == nil <==> wf(arr(%(buf)s), %(buf)s.off, %(buf)s.end)
  ensures fields: %(err)s == nil ==> inv_%(Q)s(%(m)s)"""
        w("""contract %(T)s.Encode(m)(r)
  tags C05 C09 C13 C16
  requires receiver: m != nil
  ensures bytes: r == m.buf

contract %(T)s.Decode(m, buf)(err)
  tags C01 C05 C09 C10 C11 C13 C16
  requires receiver: m != nil
  modifies *m, mapof(m.offsets.m), fresh
  ensures stored: m.buf == buf""" % locals() + decode % {"err": "err", "buf": "buf", "m": "m", "Q": P} + """
  ensures [C11] no_allocation: buf.len <= 65535 && err == nil ==> allocs == old(allocs)

contract %(T)s.Reset(m, buf)
  tags C09 C10 C13
  requires receiver: m != nil
  modifies *m, mapof(m.offsets.m)
  panics when buf.len > 0
  ensures bytes: m.buf == buf && m.buf.len == 0
  ensures absent: forall k: Int :: { offs(m).a[k] } 0 <= k < offs(m).a.len ==> idx(offs(m), k) == 0
  ensures fields: inv_%(P)s(m)
    using { forall k: Int :: { lasts(arr(m.buf), m.buf.off, m.buf.end, k) } { use nil_msg(arr(m.buf), m.buf.off, k, 0) }  forall k: Int :: { firsts(arr(m.buf), m.buf.off, m.buf.end, k) } { use nil_msg(arr(m.buf), m.buf.off, k, 0) } }
""" % locals())
        common_req = "  requires receiver: m != nil\n  requires state: inv_%s(m)\n" % P
        frame = """  modifies *m, elems(m.buf), mapof(m.offsets.m), fresh
"""
        bounds = """  ensures [C10] buffer: (m.buf.base == b0.base && m.buf.off == b0.off && m.buf.cap == b0.cap) || m.buf.base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
"""
        for label, typ, fname, n in fs:
            g = go_case(fname)
            kind = "message" if typ.split(".")[-1] in messages else "enum" if typ.split(".")[-1] in enums else typ
            rd = "  entry { use reads(arr(m.buf), m.buf.off, m.buf.end, %d) }\n" % n
            if label == "repeated":
                if kind != "message":
                    continue
                e = typ.split(".")[-1]
                Q = "%s_%s" % (pkg, e)
                it = "%s.%s%sIterator" % (pkg, m, e)
                w("""contract %(it)s.Next(i, m)(more, err)
  tags C07 C10 C11 C13
  let b = *i
  requires receiver: i != nil && m != nil
  requires separate: i != addr(m.buf)
  requires elements: b != nil ==> dsz(arr(b), b.off, b.end, 2) > 0 && wf(arr(b), b.off + dsz(arr(b), b.off, b.end, 2), b.end)
  modifies *i, *m, mapof(m.offsets.m), fresh
  ensures more: more <==> b != nil
  ensures ends: b == nil ==> *i == nil && err == nil
  ensures element: b != nil ==> payload(m.buf, b, b.off) && (err == nil <==> wf(arr(m.buf), m.buf.off, m.buf.end))
  ensures element_fields: b != nil && err == nil ==> inv_%(Q)s(m)
  ensures [C07 C13] iteration: forall p: Int, j: Int :: { nths(arr(b), p, b.end, %(n)d, j) } b != nil && element(b, p, %(n)d, j) ==> remaining(*i, b, p, %(n)d, j + 1)
  ensures untouched: b == nil ==> m.buf == old(m.buf) && m.offsets.m == old(m.offsets.m) && (forall k: Int :: { offs(m).a[k] } 0 <= k < offs(m).a.len ==> idx(offs(m), k) == old(idx(offs(m), k)))
  ensures [C11] no_allocation: b != nil && m.buf.len <= 65535 && err == nil || b == nil ==> allocs == old(allocs)

contract %(T)s.%(g)s(m)(r)
  tags C07 C10 C11 C13
%(common_req)s%(rd)s  ensures [C07 C13] elements: remaining(r, m.buf, m.buf.off, %(n)d, 0)

contract %(T)s.AppendTo%(g)s(m, x)
  tags C04 C05 C06 C07 C10 C11 C13
%(common_req)s  let b0 = m.buf
  let A = arr(m.buf)
  let v = x.buf
  let V = arr(x.buf)
  requires value_placement: placed(x.buf, m.buf)
%(frame)s  entry { use reads(arr(m.buf), m.buf.off, m.buf.end, %(n)d) }
  ensures fields: inv_%(P)s(m)
  ensures [C04 C06 C07] edit: eqb(A, b0.off, arr(m.buf), m.buf.off, b0.len) && m.buf.len == b0.len + vlen(tagv(%(n)d, 2)) + vlen(v.len) + v.len
  ensures [C06 C07 C13] canonical: (let t = m.buf.off + b0.len; let u = t + vlen(tagv(%(n)d, 2)); isvar(arr(m.buf), t, tagv(%(n)d, 2)) && isvar(arr(m.buf), u, v.len) && eqb(V, v.off, arr(m.buf), u + vlen(v.len), v.len))
  ensures [C05 C07] last_element: (let c = cnt(A, b0.off, b0.end, %(n)d); cnt(arr(m.buf), m.buf.off, m.buf.end, %(n)d) == c + 1 && nths(arr(m.buf), m.buf.off, m.buf.end, %(n)d, c) == m.buf.off + b0.len)
    using { use nth_loc(A, b0.off, b0.end, %(n)d, cnt(A, b0.off, b0.end, %(n)d)) }
  ensures [C04 C05 C07] other_records: appended(b0, A, m.buf, %(n)d)
%(bounds)s  ensures [C11] no_allocation: (let z = b0.len + vlen(tagv(%(n)d, 2)) + vlen(v.len) + v.len; z <= b0.cap && z <= 65535 ==> allocs == old(allocs))
""" % locals())
                continue
            if kind == "message":
                e = typ.split(".")[-1]
                Q = "%s_%s" % (pkg, e)
                w("""contract %(T)s.%(g)s(m, x)(ok, err)
  tags C10 C11 C13 C16
  let b = m.buf
  let s = lastOf(m.buf, %(n)d)
  let d = dataOf(m.buf, %(n)d)
%(common_req)s  requires target: x != nil
  requires wire_type: typed(m.buf, %(n)d, 2)
  modifies *x, mapof(x.offsets.m), fresh
%(rd)s  ensures presence: ok <==> s >= 0
  ensures content: ok ==> payload(x.buf, b, d) && (err == nil <==> wf(arr(x.buf), x.buf.off, x.buf.end))
  ensures content_fields: ok && err == nil ==> inv_%(Q)s(x)
  ensures untouched: !ok ==> err == nil && x.buf == old(x.buf) && x.offsets.m == old(x.offsets.m) && (forall k: Int :: { offs(x).a[k] } 0 <= k < offs(x).a.len ==> idx(offs(x), k) == old(idx(offs(x), k)))
  ensures [C11] no_allocation: !ok || err == nil && x.buf.len <= 65535 ==> allocs == old(allocs)
""" % locals())
                wt, val = 2, "x.buf"
            elif kind in ("string", "bytes"):
                default = "r.len == 0" if kind == "string" else "r == nil"
                cap = "" if kind == "string" else "  ensures [C10] no_spare_capacity: r.cap == r.len\n"
                w("""contract %(T)s.%(g)s(m)(r)
  tags C02 C03 C10 C11 C13
%(common_req)s  requires wire_type: typed(m.buf, %(n)d, 2)
%(rd)s  ensures value: lastOf(m.buf, %(n)d) < 0 ? %(default)s : content(r, m.buf, dataOf(m.buf, %(n)d))
%(cap)s""" % locals())
                wt, val = 2, "x"
            else:
                if kind == "enum":
                    mac, wt, data = ENUM
                elif kind in SCALARS:
                    mac, wt, data = SCALARS[kind]
                else:
                    fail("%s: field %s of unknown type %s" % (T, fname, typ))
                eq, default = ("<==>", "false") if kind == "bool" else ("==", "0")
                w("""contract %(T)s.%(g)s(m)(r)
  tags C02 C03 C10 C11 C13
%(common_req)s  requires wire_type: typed(m.buf, %(n)d, %(wt)d)
%(rd)s  ensures value: r %(eq)s (lastOf(m.buf, %(n)d) < 0 ? %(default)s : %(mac)s(arr(m.buf), dataOf(m.buf, %(n)d)))
""" % locals())
            # the setter
            c16 = " C16" if kind == "message" else ""
            lets = "  let b0 = m.buf\n  let A = arr(m.buf)\n"
            placed = ""
            if wt == 2:
                lets += "  let v = %s\n  let V = arr(%s)\n" % (val, val)
                placed = "  requires value_placement: placed(%s, m.buf)\n" % val
                size = "(vlen(v.len) + v.len)"
                canon = "isvar(arr(m.buf), d, v.len) && eqb(V, v.off, arr(m.buf), d + vlen(v.len), v.len)"
                back = "uval(arr(m.buf), d) == v.len && eqb(V, v.off, arr(m.buf), d + us(arr(m.buf), d, m.buf.end), v.len)"
            else:
                size = {5: "4", 1: "8", 0: "vlen(%s)" % data}[wt]
                canon = {5: "le32(arr(m.buf), d) == %s" % data, 1: "le64(arr(m.buf), d) == %s" % data, 0: "isvar(arr(m.buf), d, %s)" % data}[wt]
                back = "(%s(arr(m.buf), d) %s x)" % (mac, eq)
            w("""contract %(T)s.Set%(g)s(m, x)
  tags C03 C04 C05 C06 C10 C11 C13%(c16)s
%(lets)s%(common_req)s%(placed)s%(frame)s%(rd)s  exit { let s = lastOf(m.buf, %(n)d); use last_loc(arr(m.buf), m.buf.off, m.buf.end, %(n)d)  use tagged(arr(m.buf), s, m.buf.end, %(n)d, %(wt)d)  use rec_range(arr(m.buf), s, m.buf.end) }
  ensures fields: inv_%(P)s(m)
  ensures [C03 C13%(c16)s] reads_back: (let d = dataOf(m.buf, %(n)d); lastOf(m.buf, %(n)d) >= 0 && typed(m.buf, %(n)d, %(wt)d) && %(back)s)
  ensures [C06 C13%(c16)s] canonical: (let s = lastOf(m.buf, %(n)d); let d = s + vlen(tagv(%(n)d, %(wt)d)); isvar(arr(m.buf), s, tagv(%(n)d, %(wt)d)) && %(canon)s)
  ensures [C04 C05] other_records: others(b0, A, m.buf, %(n)d)
  ensures [C04 C06] edit: changed(b0, A, m.buf, offs(m), %(n)d, %(wt)d, %(size)s)
%(bounds)s  ensures [C11] no_allocation: b0.len + vlen(tagv(%(n)d, %(wt)d)) + %(size)s <= b0.cap && b0.len + vlen(tagv(%(n)d, %(wt)d)) + %(size)s <= 65535 ==> allocs == old(allocs)
""" % locals())
    return "\n".join(o)


def main():
    repo, out = sys.argv[1], sys.argv[2]
    g = os.path.join(repo, "golden")
    os.makedirs(out, exist_ok=True)
    found = 0
    with open(os.path.join(out, "60-messages.spec"), "w") as f:
        f.write(HEAD)
        for name in sorted(os.listdir(g)):
            if not name.endswith(".proto"):
                continue
            pkg = name[:-len(".proto")] + "zeropb"
            if not os.path.isdir(os.path.join(g, pkg)):
                continue
            messages, enums, _ = parse(open(os.path.join(g, name)).read(), name)
            f.write(gen(pkg, messages, enums))
            found += 1
    if not found:
        fail("no schema found")


main()
