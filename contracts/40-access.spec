// The accessors of the runtime and iteration.

def present(o: Any, f: Int): Bool = idx(o, f) != 0
// absolute position of the recorded data of field f
def at(buf: Any, o: Any, f: Int): Int = buf.off + idx(o, f)
// the recorded position of f, if any, holds complete data of wire type w
def vok(buf: Any, o: Any, f: Int, w: Int): Bool =
  idx(o, f) != 0 ==> 0 < idx(o, f) < buf.len && dsz(arr(buf), buf.off + idx(o, f), buf.end, w) > 0
// the slice s is the content of the length-delimited data at absolute position d, with no spare capacity
def content(s: Any, buf: Any, d: Int): Bool =
  s.base == buf.base && s.off == d + us(arr(buf), d, buf.end) && s.len == uval(arr(buf), d) && s.end <= buf.end

def u32(u: Int): Int = u % 4294967296
def s32(u: Int): Int = u % 4294967296 >= 2147483648 ? u % 4294967296 - 4294967296 : u % 4294967296
def s64(u: Int): Int = u % 18446744073709551616 >= 9223372036854775808 ? u % 18446744073709551616 - 18446744073709551616 : u % 18446744073709551616

contract zeropb.GetBool(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r <==> present(o, f) && uval(arr(buf), at(buf, o, f)) != 0
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetInt32(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r == (present(o, f) ? s32(uval(arr(buf), at(buf, o, f))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetInt64(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r == (present(o, f) ? s64(uval(arr(buf), at(buf, o, f))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetUint32(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r == (present(o, f) ? u32(uval(arr(buf), at(buf, o, f))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetUint64(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r == (present(o, f) ? uval(arr(buf), at(buf, o, f)) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetZigZagInt32(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r == (present(o, f) ? s32(unzz(uval(arr(buf), at(buf, o, f)))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetZigZagInt64(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 0)
  ensures value: r == (present(o, f) ? unzz(uval(arr(buf), at(buf, o, f))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 0) }

contract zeropb.GetFixedUint32(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 5)
  ensures value: r == (present(o, f) ? le32(arr(buf), at(buf, o, f)) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 5) }

contract zeropb.GetFixedUint64(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 1)
  ensures value: r == (present(o, f) ? le64(arr(buf), at(buf, o, f)) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 1) }

contract zeropb.GetFixedInt32(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 5)
  ensures value: r == (present(o, f) ? s32(le32(arr(buf), at(buf, o, f))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 5) }

contract zeropb.GetFixedInt64(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 1)
  ensures value: r == (present(o, f) ? s64(le64(arr(buf), at(buf, o, f))) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 1) }

contract zeropb.GetFloat32(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 5)
  ensures value: r == (present(o, f) ? le32(arr(buf), at(buf, o, f)) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 5) }

contract zeropb.GetFloat64(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 1)
  ensures value: r == (present(o, f) ? le64(arr(buf), at(buf, o, f)) : 0)
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 1) }

contract zeropb.GetString(buf, o, f)(r)
  tags C02 C03 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 2)
  ensures value: present(o, f) ? content(r, buf, at(buf, o, f)) : r.len == 0
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 2) }

contract zeropb.GetBytes(buf, o, f)(r)
  tags C02 C03 C10 C11 C13 C16
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: vok(buf, o, f, 2)
  ensures value: present(o, f) ? content(r, buf, at(buf, o, f)) : r == nil
  ensures no_spare_capacity: r.cap == r.len
  entry { unfold dsz(arr(buf), buf.off + idx(o, f), buf.end, 2) }

contract zeropb.GetRepeatedNonPacked(buf, o, f)(r)
  tags C07 C10 C11 C13
  requires in_range: 0 <= f < o.a.len
  requires consistent: repOK(o)
  requires readable: idx(o, f) != 0 ==> 0 < idx(o, f) < buf.len
  ensures rest: present(o, f) ? r.base == buf.base && r.off == at(buf, o, f) && r.end == buf.end : r == nil
  ensures [C07 C13] first: idx(o, f) == wantR(arr(buf), buf.off, buf.end, f) ==> remaining(r, buf, buf.off, f, 0)
    using { use first_nth(arr(buf), buf.off, buf.end, f)  use want_range(arr(buf), buf.off, buf.end, f)  use nth_loc(arr(buf), buf.off, buf.end, f, 0) }

// buf starts with the data of the j-th record of the field in the message that starts at p
def element(b: Any, p: Int, f: Int, j: Int): Bool =
  0 <= p && nths(arr(b), p, b.end, f, j) >= 0 && dpos(arr(b), nths(arr(b), p, b.end, f, j), b.end) == b.off && wtyp(arr(b), nths(arr(b), p, b.end, f, j)) == 2

// r is nil after the last record of the field, and otherwise starts with the data of the j-th one
def remaining(r: Any, b: Any, p: Int, f: Int, j: Int): Bool =
  let n = nths(arr(b), p, b.end, f, j);
  n < 0 ? r == nil : r != nil && r.base == b.base && r.off == dpos(arr(b), n, b.end) && r.end == b.end

// buf starts with the data of a record of the field and holds complete records after it
contract zeropb.FindNextField(buf, field)(rest, msg)
  tags C07 C10 C11 C13
  requires elements: buf != nil ==> dsz(arr(buf), buf.off, buf.end, 2) > 0 && wf(arr(buf), buf.off + dsz(arr(buf), buf.off, buf.end, 2), buf.end)
  entry { unfold dsz(arr(buf), buf.off, buf.end, 2)  forall q: Int :: { wf(arr(buf), q, buf.end) } { use wf_step(arr(buf), q, buf.end) }  forall q: Int :: { firsts(arr(buf), q, buf.end, field) } { use first_here(arr(buf), q, buf.end, field) }  reveal okrec  reveal rend  reveal dsz }
  loopinv [i: ModInt] ahead: 0 <= i && i <= buf.len && wf(arr(buf), buf.off + i, buf.end)
    using { let q = buf.off + head(i); unfold wf(arr(buf), q, buf.end)  use rec_range(arr(buf), q, buf.end)  unfold okrec(arr(buf), q, buf.end)  unfold rend(arr(buf), q, buf.end)
      unfold dsz(arr(buf), q + us(arr(buf), q, buf.end), buf.end, wtyp(arr(buf), q)) }
  loopinv [i: ModInt] none_yet: firsts(arr(buf), buf.off + dsz(arr(buf), buf.off, buf.end, 2), buf.end, field) == firsts(arr(buf), buf.off + i, buf.end, field)
    using { let q = buf.off + head(i); unfold wf(arr(buf), q, buf.end)  use rec_range(arr(buf), q, buf.end)  unfold okrec(arr(buf), q, buf.end)  unfold rend(arr(buf), q, buf.end)
      unfold dsz(arr(buf), q + us(arr(buf), q, buf.end), buf.end, wtyp(arr(buf), q))  unfold firsts(arr(buf), q, buf.end, field) }
  ensures end: buf == nil ==> rest == nil && msg == nil
  ensures element: buf != nil ==> msg != nil && content(msg, buf, buf.off)
  ensures no_spare_capacity: msg.cap == msg.len
  ensures next: buf != nil ==> (let n = firsts(arr(buf), buf.off + dsz(arr(buf), buf.off, buf.end, 2), buf.end, field);
     n < 0 ? rest == nil : rest != nil && rest.base == buf.base && rest.off == dpos(arr(buf), n, buf.end) && rest.end == buf.end)
  ensures [C07 C13] iteration: forall p: Int, j: Int :: { nths(arr(buf), p, buf.end, field, j) } buf != nil && element(buf, p, field, j) ==> remaining(rest, buf, p, field, j + 1)
    using { forall p: Int, j: Int :: { nths(arr(buf), p, buf.end, field, j) } { use nth_after(arr(buf), p, buf.end, field, j, 0)  use nth_loc(arr(buf), p, buf.end, field, j)  use first_nth(arr(buf), rend(arr(buf), nths(arr(buf), p, buf.end, field, j), buf.end), buf.end, field)  unfold okrec(arr(buf), nths(arr(buf), p, buf.end, field, j), buf.end)  unfold rend(arr(buf), nths(arr(buf), p, buf.end, field, j), buf.end) } }

// the elements of a repeated field, from the first one on, whatever lies between them
lemma iteration(A: Arr, p: Int, e: Int, f: Int, j: Int)
  tags C07
  requires 0 <= p && wf(A, p, e) && nths(A, p, e, f, j) >= 0 && wtyp(A, nths(A, p, e, f, j)) == 2
  ensures 0 <= j && j < cnt(A, p, e, f)
  ensures (let d = dpos(A, nths(A, p, e, f, j), e); dsz(A, d, e, 2) > 0 && wf(A, d + dsz(A, d, e, 2), e))
  ensures nths(A, p, e, f, j + 1) >= 0 <==> j + 1 < cnt(A, p, e, f)
  proof { use nth_loc(A, p, e, f, j)  use nth_loc(A, p, e, f, j + 1)  let r = nths(A, p, e, f, j);  unfold okrec(A, r, e)  unfold rend(A, r, e) }
