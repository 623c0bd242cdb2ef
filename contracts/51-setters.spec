// The setters and AppendBytes.

// the values the accessors read from the data at absolute position d
def vBool(A: Arr, d: Int): Bool = uval(A, d) != 0
def vInt32(A: Arr, d: Int): Int = s32(uval(A, d))
def vInt64(A: Arr, d: Int): Int = s64(uval(A, d))
def vUint32(A: Arr, d: Int): Int = u32(uval(A, d))
def vUint64(A: Arr, d: Int): Int = uval(A, d)
def vZigZagInt32(A: Arr, d: Int): Int = s32(unzz(uval(A, d)))
def vZigZagInt64(A: Arr, d: Int): Int = unzz(uval(A, d))
def vFixedUint32(A: Arr, d: Int): Int = le32(A, d)
def vFixedUint64(A: Arr, d: Int): Int = le64(A, d)
def vFixedInt32(A: Arr, d: Int): Int = s32(le32(A, d))
def vFixedInt64(A: Arr, d: Int): Int = s64(le64(A, d))
def vFloat32(A: Arr, d: Int): Int = le32(A, d)
def vFloat64(A: Arr, d: Int): Int = le64(A, d)

// the 64-bit pattern of a signed integer
def bits64(x: Int): Int = x >= 0 ? x : x + 18446744073709551616
def bits32(x: Int): Int = x >= 0 ? x : x + 4294967296

// b holds a message whose positions o has; f is a singular field
def settable(b: Any, o: Any, f: Int): Bool =
  repOK(o) && wf(arr(b), b.off, b.end) && indexed(arr(b), b.off, b.end, o, f) && idx(o, f) == wantS(arr(b), b.off, b.end, f)
// the same, f is a repeated field
def appendable(b: Any, o: Any, f: Int): Bool =
  repOK(o) && wf(arr(b), b.off, b.end) && indexed(arr(b), b.off, b.end, o, f) && idx(o, f) == wantR(arr(b), b.off, b.end, f)

// the value handed in is a slice of the message, or lies outside its buffer
def placed(x: Any, b: Any): Bool =
  x.base != b.base || x.len == 0 || x.end <= b.off || (x.off >= b.off && x.end <= b.end) || x.off >= b.off + b.cap

// the message of b0 (bytes A) has become that of b by replacing or adding the record of f and typ with dl bytes of data
def changed(b0: Any, A: Arr, b: Any, o: Any, f: Int, typ: Int, dl: Int): Bool =
  let p = b0.off; let e = b0.end; let s = lasts(A, p, e, f); let can = canon(A, s, e, f, typ);
  let s1 = can ? s : e; let t1 = can ? rend(A, s, e) : e; let tl = vlen(tagv(f, typ));
  edited(A, p, s1, t1, e, arr(b), b.off, b.end, b.off + idx(o, f) - tl, can && t1 - s1 == tl + dl) && b.len == b0.len - (t1 - s1) + tl + dl

contract zeropb.SetBool(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range((x ? 1 : 0))  unfold vlen((x ? 1 : 0))  reveal us }
  exit { unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0)  unfold us(arr(*buf), at(*buf, o, f), (*buf).end)  unfold us(arr(*buf), at(*buf, o, f), at(*buf, o, f) + 1)  unfold uval(arr(*buf), at(*buf, o, f)) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && (vBool(arr(*buf), at(*buf, o, f)) <==> x)
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), (x ? 1 : 0))
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen((x ? 1 : 0)))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen((x ? 1 : 0)) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen((x ? 1 : 0)) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetInt32(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(bits64(x))  unfold vlen(bits64(x)) }
  after binary.PutUvarint(b, y)(n) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use uv_move(V, vo, vo + vlen(bits64(x)), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(bits64(x)))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && vInt32(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), bits64(x))
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen(bits64(x)))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen(bits64(x)) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen(bits64(x)) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetInt64(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(bits64(x))  unfold vlen(bits64(x)) }
  after binary.PutUvarint(b, y)(n) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use uv_move(V, vo, vo + vlen(bits64(x)), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(bits64(x)))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && vInt64(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), bits64(x))
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen(bits64(x)))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen(bits64(x)) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen(bits64(x)) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetUint32(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x)  unfold vlen(x) }
  after binary.PutUvarint(b, y)(n) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use uv_move(V, vo, vo + vlen(x), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(x))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && vUint32(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), x)
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen(x))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen(x) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen(x) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetUint64(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x)  unfold vlen(x) }
  after binary.PutUvarint(b, y)(n) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use uv_move(V, vo, vo + vlen(x), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(x))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && vUint64(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), x)
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen(x))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen(x) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen(x) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetZigZagInt32(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(zz(x))  unfold vlen(zz(x)) }
  after binary.PutVarint(b, y)(n) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use uv_move(V, vo, vo + vlen(zz(x)), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(zz(x)))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && vZigZagInt32(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), zz(x))
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen(zz(x)))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen(zz(x)) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen(zz(x)) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetZigZagInt64(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(zz(x))  unfold vlen(zz(x)) }
  after binary.PutVarint(b, y)(n) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use uv_move(V, vo, vo + vlen(zz(x)), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(zz(x)))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 0) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 0) && vZigZagInt64(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 0)), tagv(f, 0)) && isvar(arr(*buf), at(*buf, o, f), zz(x))
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 0))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 0, vlen(zz(x)))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 0)) + vlen(zz(x)) <= b0.cap && b0.len + vlen(tagv(f, 0)) + vlen(zz(x)) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetFixedUint32(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x)  unfold vlen(x) }
  after "binary.littleEndian.PutUint32"(r, b, y) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use le_move(V, vo, arr(*buf), at(*buf, o, f))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 5) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 5) && vFixedUint32(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 5)), tagv(f, 5)) && le32(arr(*buf), at(*buf, o, f)) == x
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 5))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 5, 4)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 5)) + 4 <= b0.cap && b0.len + vlen(tagv(f, 5)) + 4 <= 65535 ==> allocs == old(allocs)

contract zeropb.SetFixedUint64(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x)  unfold vlen(x) }
  after "binary.littleEndian.PutUint64"(r, b, y) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use le_move(V, vo, arr(*buf), at(*buf, o, f))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 1) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 1) && vFixedUint64(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 1)), tagv(f, 1)) && le64(arr(*buf), at(*buf, o, f)) == x
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 1))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 1, 8)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 1)) + 8 <= b0.cap && b0.len + vlen(tagv(f, 1)) + 8 <= 65535 ==> allocs == old(allocs)

contract zeropb.SetFixedInt32(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(bits32(x))  unfold vlen(bits32(x)) }
  after "binary.littleEndian.PutUint32"(r, b, y) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use le_move(V, vo, arr(*buf), at(*buf, o, f))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 5) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 5) && vFixedInt32(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 5)), tagv(f, 5)) && le32(arr(*buf), at(*buf, o, f)) == bits32(x)
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 5))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 5, 4)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 5)) + 4 <= b0.cap && b0.len + vlen(tagv(f, 5)) + 4 <= 65535 ==> allocs == old(allocs)

contract zeropb.SetFixedInt64(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(bits64(x))  unfold vlen(bits64(x)) }
  after "binary.littleEndian.PutUint64"(r, b, y) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use le_move(V, vo, arr(*buf), at(*buf, o, f))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 1) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 1) && vFixedInt64(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 1)), tagv(f, 1)) && le64(arr(*buf), at(*buf, o, f)) == bits64(x)
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 1))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 1, 8)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 1)) + 8 <= b0.cap && b0.len + vlen(tagv(f, 1)) + 8 <= 65535 ==> allocs == old(allocs)

contract zeropb.SetFloat32(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x)  unfold vlen(x) }
  after "binary.littleEndian.PutUint32"(r, b, y) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use le_move(V, vo, arr(*buf), at(*buf, o, f))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 5) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 5) && vFloat32(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 5)), tagv(f, 5)) && le32(arr(*buf), at(*buf, o, f)) == x
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 5))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 5, 4)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 5)) + 4 <= b0.cap && b0.len + vlen(tagv(f, 5)) + 4 <= 65535 ==> allocs == old(allocs)

contract zeropb.SetFloat64(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x)  unfold vlen(x) }
  after "binary.littleEndian.PutUint64"(r, b, y) { ghost V: Arr = arr(b); ghost vo: Int = b.off; }
  exit { use le_move(V, vo, arr(*buf), at(*buf, o, f))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 1) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 1) && vFloat64(arr(*buf), at(*buf, o, f)) == x
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 1)), tagv(f, 1)) && le64(arr(*buf), at(*buf, o, f)) == x
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 1))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 1, 8)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 1)) + 8 <= b0.cap && b0.len + vlen(tagv(f, 1)) + 8 <= 65535 ==> allocs == old(allocs)

contract zeropb.SetString(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  let V = arr(x)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  requires value_placement: placed(x, *buf)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x.len)  unfold vlen(x.len) }
  after binary.PutUvarint(b, y)(n) { ghost L: Arr = arr(b); ghost lo: Int = b.off; }
  exit { use uv_move(L, lo, lo + vlen(x.len), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(x.len))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 2) }
  ensures [C03 C13] reads_back: present(o, f) && vok(*buf, o, f, 2) && uval(arr(*buf), at(*buf, o, f)) == x.len && eqb(V, x.off, arr(*buf), at(*buf, o, f) + us(arr(*buf), at(*buf, o, f), (*buf).end), x.len)
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 2)), tagv(f, 2)) && isvar(arr(*buf), at(*buf, o, f), x.len) && eqb(V, x.off, arr(*buf), at(*buf, o, f) + vlen(x.len), x.len)
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 2))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 2, (vlen(x.len) + x.len))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 2)) + (vlen(x.len) + x.len) <= b0.cap && b0.len + vlen(tagv(f, 2)) + (vlen(x.len) + x.len) <= 65535 ==> allocs == old(allocs)

contract zeropb.SetBytes(buf, o, f, x)
  tags C03 C04 C05 C06 C10 C11 C13 C16
  let b0 = *buf
  let A = arr(*buf)
  let V = arr(x)
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: settable(*buf, o, f)
  requires value_placement: placed(x, *buf)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x.len)  unfold vlen(x.len) }
  after binary.PutUvarint(b, y)(n) { ghost L: Arr = arr(b); ghost lo: Int = b.off; }
  exit { use uv_move(L, lo, lo + vlen(x.len), arr(*buf), at(*buf, o, f), (*buf).end)  use us_ext(arr(*buf), at(*buf, o, f), (*buf).end, at(*buf, o, f) + vlen(x.len))  unfold dsz(arr(*buf), at(*buf, o, f), (*buf).end, 2) }
  ensures [C03 C13 C16] reads_back: present(o, f) && vok(*buf, o, f, 2) && uval(arr(*buf), at(*buf, o, f)) == x.len && eqb(V, x.off, arr(*buf), at(*buf, o, f) + us(arr(*buf), at(*buf, o, f), (*buf).end), x.len)
  ensures [C03 C06 C13 C16] canonical: isvar(arr(*buf), at(*buf, o, f) - vlen(tagv(f, 2)), tagv(f, 2)) && isvar(arr(*buf), at(*buf, o, f), x.len) && eqb(V, x.off, arr(*buf), at(*buf, o, f) + vlen(x.len), x.len)
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - vlen(tagv(f, 2))
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C04 C06] edit: changed(b0, A, *buf, o, f, 2, (vlen(x.len) + x.len))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + vlen(tagv(f, 2)) + (vlen(x.len) + x.len) <= b0.cap && b0.len + vlen(tagv(f, 2)) + (vlen(x.len) + x.len) <= 65535 ==> allocs == old(allocs)

