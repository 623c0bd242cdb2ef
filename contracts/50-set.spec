// Setting and appending.

// the positions of all fields but f are where its last or first record has its data
def indexed(A: Arr, p: Int, e: Int, o: Any, f: Int): Bool =
  forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==> idx(o, k) == wantS(A, p, e, k) || idx(o, k) == wantR(A, p, e, k)

// the bytes valLen and val hold are valid data of wire type typ
def encoded(valLen: Any, val: Any, typ: Int): Bool =
  (typ == 0 ==> valLen.len == 0 && val.len > 0 && us(arr(val), val.off, val.end) == val.len) &&
  (typ == 5 ==> valLen.len == 0 && val.len == 4) &&
  (typ == 1 ==> valLen.len == 0 && val.len == 8) &&
  (typ == 2 ==> valLen.len == vlen(val.len) && isvar(arr(valLen), valLen.off, val.len))

// the record at n carries the minimal tag of f and typ, then these bytes, and ends at z
def written(B: Arr, n: Int, z: Int, f: Int, typ: Int, L: Arr, lo: Int, ll: Int, V: Arr, vo: Int, vl: Int): Bool =
  isvar(B, n, tagv(f, typ)) && eqb(L, lo, B, n + vlen(tagv(f, typ)), ll) && eqb(V, vo, B, n + vlen(tagv(f, typ)) + ll, vl) && z == n + vlen(tagv(f, typ)) + ll + vl

lemma written_rec(B: Arr, n: Int, z: Int, g: Int, f: Int, typ: Int, L: Arr, lo: Int, ll: Int, V: Arr, vo: Int, vl: Int)
  requires written(B, n, z, f, typ, L, lo, ll, V, vo, vl) && f >= 0 && 0 <= n && z <= g && 0 <= lo && 0 <= vo
  requires typ == 0 ==> ll == 0 && vl > 0 && us(V, vo, vo + vl) == vl
  requires typ == 5 ==> ll == 0 && vl == 4
  requires typ == 1 ==> ll == 0 && vl == 8
  requires typ == 2 ==> ll == vlen(vl) && isvar(L, lo, vl) && vl >= 0
  requires typ == 0 || typ == 1 || typ == 2 || typ == 5
  ensures okrec(B, n, g) && rend(B, n, g) == z && fid(B, n) == f && wtyp(B, n) == typ && dpos(B, n, g) == n + vlen(tagv(f, typ))
  proof {
    let d = n + vlen(tagv(f, typ));
    use us_ext(B, n, d, g)
    unfold okrec(B, n, g)  unfold rend(B, n, g)  unfold dsz(B, d, g, typ)
    if typ == 0 { use uv_move(V, vo, vo + vl, B, d, g) }
    if typ == 2 { use uv_move(L, lo, lo + ll, B, d, g)  use vlen_range(vl) }
  }

// the record at n of B[q:z) takes the place of [s,t) of A[p:e), or follows what is left without it
def edited(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, z: Int, n: Int, inplace: Bool): Bool =
  inplace ? n == q + (s - p) && z == q + (e - p) && replaced(A, p, s, t, e, B, q)
          : n == q + (s - p) + (e - t) && spliced(A, p, s, t, e, B, q, z)

contract zeropb.setSingle(buf, o, f, typ, valLen, val)
  tags C03 C04 C05 C06 C10 C11 C16
  let b0 = *buf
  let A = arr(*buf)
  let p = (*buf).off
  let e = (*buf).end
  let s = lasts(arr(*buf), (*buf).off, (*buf).end, f)
  let can = canon(A, s, e, f, typ)
  let s1 = can ? s : e
  let t1 = can ? rend(A, s, e) : e
  let V = arr(val)
  let L = arr(valLen)
  let tl = vlen(tagv(f, typ))
  let dl = valLen.len + val.len
  let inplace = can && t1 - s1 == tl + dl
  requires buffer: buf != nil
  requires in_range: 1 <= f <= 536870911 && f < o.a.len
  requires wire_type: 0 <= typ <= 5
  requires wire_type: typ == 0 || typ == 1 || typ == 2 || typ == 5
  requires consistent: repOK(o)
  requires message: wf(arr(*buf), (*buf).off, (*buf).end)
  requires positions: indexed(arr(*buf), (*buf).off, (*buf).end, o, f)
  requires own_position: idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f)
  requires data: encoded(valLen, val, typ)
  requires separate: valLen.base != (*buf).base || valLen.len == 0
  requires value_placement: val.base != (*buf).base || val.len == 0 || val.end <= (*buf).off || (val.off >= (*buf).off && val.end <= (*buf).end) || val.off >= (*buf).off + (*buf).cap
  modifies *buf, elems(*buf), elems(o.a), *o.m, mapof(*o.m), fresh
  entry { use last_loc(A, p, e, f)  use rec_range(A, s, e)  unfold okrec(A, s, e)  unfold rend(A, s, e)  unfold dsz(A, s + us(A, s, e), e, typ) }
  after binary.PutUvarint(b, x)(n) { ghost T: Arr = arr(b); ghost to: Int = b.off; }
  after bytes.HasSuffix(x, y)(r) { use tag_match(A, p, s, e, arr(y), y.off, f, typ) }
  after append(d, v)(r) {
    assert value_kept: eqb(V, val.off, arr(val), val.off, val.len);
    assert message_kept: eqb(A, p, arr(r), r.off, e - p);
    assert outside: forall y: Int :: { arr(b0)[y] } y < p || y >= p + b0.cap ==> arr(b0)[y] == A[y];
    assert copied: v.base == val.base && v.off == val.off && v.len == val.len ==> eqb(V, val.off, arr(r), r.off + d.len, val.len);
  }
  loopinv [i: ModInt] array: forall k: Int :: { o.a[k] } 0 <= k < o.a.len ==> o.a[k] == (k < i && old(o.a[k]) != 65535 ? adj(old(o.a[k]), t1 - p, t1 - s1) : old(o.a[k]))
  loopinv [i: ModInt] array_down: forall k: Int :: { o.a[k] } 0 <= k < o.a.len ==> o.a[k] == (k > i && old(o.a[k]) != 65535 ? adj(old(o.a[k]), t1 - p, t1 - s1) : old(o.a[k]))
  loopinv map: forall k: Int :: { o.a[k] } 0 <= k < o.a.len ==> idx(o, k) == (old(o.a[k]) != 65535 || $visited[k] ? adj(old(idx(o, k)), t1 - p, t1 - s1) : old(idx(o, k)))
  loopinv unvisited: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && !$visited[k] ==> o.a[k] == atloop(o.a[k])
  loopinv consistent: repOK(o)
  loopinv array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  loopinv map_kept: *o.m == old(*o.m)
  loopinv small: old((*buf).len) <= 65535 ==> allocs == atloop(allocs)
    using { forall k: Int :: { o.a[k] } { use want_range(A, p, e, k) } }
  exit {
    let B = arr(*buf);
    let q = (*buf).off;
    let z = (*buf).end;
    if inplace {
      assert layout: replaced(A, p, s1, t1, e, B, q);
      use uv_move(A, s, e, B, q + (s1 - p), q + (s1 - p) + tl)
      assert record: written(B, q + (s1 - p), q + (t1 - p), f, typ, L, valLen.off, valLen.len, V, val.off, val.len);
      use written_rec(B, q + (s1 - p), q + (t1 - p), q + (e - p), f, typ, L, valLen.off, valLen.len, V, val.off, val.len)
      use last_loc(B, q, z, f)  use rec_range(B, q + (s1 - p), z)
      use replace(A, p, s1, t1, e, B, q, f, f, 0)
      forall k: Int :: { o.a[k] } { use replace_want(A, p, s1, t1, e, B, q, f, k) }
    } else {
      let n = q + (s1 - p) + (e - t1);
      assert size: z == n + tl + dl;
      use nil_msg(A, e, f, 0)
      assert layout: spliced(A, p, s1, t1, e, B, q, z);
      assert tag: eqb(T, to, B, n, tl);
      use uv_move(T, to, to + tl, B, n, n + tl)
      assert record: written(B, n, z, f, typ, L, valLen.off, valLen.len, V, val.off, val.len);
      use written_rec(B, n, z, z, f, typ, L, valLen.off, valLen.len, V, val.off, val.len)
      use last_loc(B, q, z, f)  use rec_range(B, n, z)
      use splice(A, p, s1, t1, e, B, q, z, f, f, 0)
      forall k: Int :: { o.a[k] } { use splice_want(A, p, s1, t1, e, B, q, z, f, k) }
    }
  }
  ensures [C11] no_allocation: b0.len + tl + dl <= b0.cap && b0.len + tl + dl <= 65535 ==> allocs == old(allocs)
  ensures consistent: repOK(o)
  ensures message: wf(arr(*buf), (*buf).off, (*buf).end)
  ensures own_position: idx(o, f) == wantS(arr(*buf), (*buf).off, (*buf).end, f) && lasts(arr(*buf), (*buf).off, (*buf).end, f) == (*buf).off + idx(o, f) - tl
  ensures readable: present(o, f) && vok(*buf, o, f, typ) && idx(o, f) + dl <= (*buf).len
  ensures other_positions: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != f ==>
    (old(idx(o, k)) == wantS(A, p, e, k) ==> idx(o, k) == wantS(arr(*buf), (*buf).off, (*buf).end, k)) &&
    (old(idx(o, k)) == wantR(A, p, e, k) ==> idx(o, k) == wantR(arr(*buf), (*buf).off, (*buf).end, k))
  ensures written: (let n = (*buf).off + idx(o, f) - tl;
    written(arr(*buf), n, inplace ? n + (t1 - s1) : (*buf).end, f, typ, L, valLen.off, valLen.len, V, val.off, val.len))
  ensures [C04 C05] other_records: forall k: Int, i: Int :: { nths(arr(*buf), (*buf).off, (*buf).end, k, i) } k != f ==> samerec(A, p, e, arr(*buf), (*buf).off, (*buf).end, k, i)
    using { let B = arr(*buf); let q = (*buf).off; let z = (*buf).end; let n = q + idx(o, f) - tl;
      assert shape: inplace ? n == q + (s1 - p) && z == q + (e - p) && replaced(A, p, s1, t1, e, B, q) : n == q + (s1 - p) + (e - t1) && spliced(A, p, s1, t1, e, B, q, z);
      assert at: okrec(B, n, z) && fid(B, n) == f && rend(B, n, z) == (inplace ? q + (t1 - p) : z);
      if inplace { forall k: Int, i: Int :: { nths(B, q, z, k, i) } { use replace_same(A, p, s1, t1, e, B, q, f, k, i) } }
      else { forall k: Int, i: Int :: { nths(B, q, z, k, i) } { use splice_same(A, p, s1, t1, e, B, q, z, f, k, i) } } }
  ensures [C04 C06] edit: edited(A, p, s1, t1, e, arr(*buf), (*buf).off, (*buf).end, (*buf).off + idx(o, f) - tl, inplace)
  ensures [C10] buffer: ((*buf).base == b0.base && (*buf).off == p && (*buf).cap == b0.cap) || (*buf).base >= old(next)
  ensures [C10] outside: forall y: Int :: { arr(b0)[y] } y < p || y >= p + b0.cap ==> arr(b0)[y] == A[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
