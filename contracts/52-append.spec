// Appending to a repeated field.

contract zeropb.appendSingle(buf, o, f, typ, valLen, val)
  tags C04 C05 C06 C07 C10 C11
  let b0 = *buf
  let A = arr(*buf)
  let p = (*buf).off
  let e = (*buf).end
  let V = arr(val)
  let L = arr(valLen)
  let tl = vlen(tagv(f, typ))
  let dl = valLen.len + val.len
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires wire_type: 0 <= typ <= 5
  requires wire_type: typ == 0 || typ == 1 || typ == 2 || typ == 5
  requires message: appendable(*buf, o, f)
  requires data: encoded(valLen, val, typ)
  requires separate: valLen.base != (*buf).base || valLen.len == 0
  requires value_placement: placed(val, *buf)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use first_loc(A, p, e, f) }
  after binary.PutUvarint(b, x)(n) { ghost T: Arr = arr(b); ghost to: Int = b.off; }
  after append(d, v)(r) {
    assert value_kept: eqb(V, val.off, arr(val), val.off, val.len);
    assert message_kept: eqb(A, p, arr(r), r.off, e - p);
    assert outside: forall y: Int :: { arr(b0)[y] } y < p || y >= p + b0.cap ==> arr(b0)[y] == A[y];
    assert copied: v.base == val.base && v.off == val.off && v.len == val.len ==> eqb(V, val.off, arr(r), r.off + d.len, val.len);
  }
  exit {
    let B = arr(*buf);
    let q = (*buf).off;
    let z = (*buf).end;
    let n = q + (e - p);
    use nil_msg(A, e, f, 0)
    assert size: z == n + tl + dl;
    assert layout: spliced(A, p, e, e, e, B, q, z);
    assert tag: eqb(T, to, B, n, tl);
    use uv_move(T, to, to + tl, B, n, n + tl)
    assert record: written(B, n, z, f, typ, L, valLen.off, valLen.len, V, val.off, val.len);
    use written_rec(B, n, z, z, f, typ, L, valLen.off, valLen.len, V, val.off, val.len)
    use rec_range(B, n, z)
    use splice(A, p, e, e, e, B, q, z, f, f, 0)
    use first_want(A, p, e, B, q, z, f)
    forall i: Int :: { nths(B, q, z, f, i) } { use splice(A, p, e, e, e, B, q, z, f, f, i)  use nth_loc(A, p, e, f, i) }
    forall k: Int, i: Int :: { nths(B, q, z, k, i) } { use splice(A, p, e, e, e, B, q, z, f, k, i)  use splice_pos(A, p, e, e, e, B, q, z, f, k, i)  use prefix_rec(A, p, e, B, q, z, k, i) }
    forall k: Int :: { o.a[k] } { use splice_want(A, p, e, e, e, B, q, z, f, k) }
  }
  ensures consistent: repOK(o)
  ensures message: wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantR(arr(*buf), (*buf).off, (*buf).end, f)
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, p, e, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, p, e, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures written: written(arr(*buf), (*buf).off + (e - p), (*buf).end, f, typ, L, valLen.off, valLen.len, V, val.off, val.len)
  ensures edit: eqb(A, p, arr(*buf), (*buf).off, e - p) && (*buf).len == b0.len + tl + dl
  ensures [C04 C05 C07] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f || i < cnt(A, p, e, f) ==> samerec(A, p, e, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C05 C07] elements: cnt(arr(*buf), (*buf).off, (*buf).end, f) == cnt(A, p, e, f) + 1 &&
    (forall i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, f, i) } nths(arr(*buf), (*buf).off, (*buf).end, f, i) ==
      (i < cnt(A, p, e, f) ? (nths(A, p, e, f, i) < 0 ? 0-1 : nths(A, p, e, f, i) - p + (*buf).off) : i == cnt(A, p, e, f) ? (*buf).off + (e - p) : 0-1))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == p && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < p || y >= p + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: b0.len + tl + dl <= b0.cap && b0.len + tl + dl <= 65535 ==> allocs == old(allocs)

contract zeropb.AppendBytes(buf, o, f, x)
  tags C04 C05 C06 C07 C10 C11 C13
  let b0 = *buf
  let A = arr(*buf)
  let V = arr(x)
  let n = (*buf).len
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires message: appendable(*buf, o, f)
  requires value_placement: placed(x, *buf)
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use vlen_range(x.len)  unfold vlen(x.len) }
  after binary.PutUvarint(b, y)(n) { ghost L: Arr = arr(b); ghost lo: Int = b.off; }
  exit { let at = (*buf).off + n + vlen(tagv(f, 2)); use uv_move(L, lo, lo + vlen(x.len), arr(*buf), at, (*buf).end)  use us_ext(arr(*buf), at, (*buf).end, at + vlen(x.len))  unfold dsz(arr(*buf), at, (*buf).end, 2) }
  ensures message: repOK(o) && wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: present(o, f) && idx(o, f) == wantR(arr(*buf), (*buf).off, (*buf).end, f)
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, b0.off, b0.end, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, b0.off, b0.end, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures [C04 C06 C07] edit: eqb(A, b0.off, arr(*buf), (*buf).off, n) && (*buf).len == n + vlen(tagv(f, 2)) + vlen(x.len) + x.len
  ensures [C06 C07 C13] canonical: (let t = (*buf).off + n; let tl = vlen(tagv(f, 2)); let m = vlen(x.len); isvar(arr(*buf), t, tagv(f, 2)) && isvar(arr(*buf), t + tl, x.len) && eqb(V, x.off, arr(*buf), t + tl + m, x.len))
  ensures [C04 C05 C07] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f || i < cnt(A, b0.off, b0.end, f) ==> samerec(A, b0.off, b0.end, arr(*buf), (*buf).off, (*buf).end, k, i)
  ensures [C05 C07] elements: cnt(arr(*buf), (*buf).off, (*buf).end, f) == cnt(A, b0.off, b0.end, f) + 1 &&
    (forall i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, f, i) } nths(arr(*buf), (*buf).off, (*buf).end, f, i) ==
      (i < cnt(A, b0.off, b0.end, f) ? (nths(A, b0.off, b0.end, f, i) < 0 ? 0-1 : nths(A, b0.off, b0.end, f, i) - b0.off + (*buf).off) : i == cnt(A, b0.off, b0.end, f) ? (*buf).off + n : 0-1))
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == b0.off && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < b0.off || y >= b0.off + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: (let w = n + vlen(tagv(f, 2)) + vlen(x.len) + x.len; w <= b0.cap && w <= 65535 ==> allocs == old(allocs))
