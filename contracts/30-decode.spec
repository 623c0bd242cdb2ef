// Decode and the accessors.

// absolute position of the data of the last and the first record of k (0: none)
def dlast(A: Arr, p: Int, e: Int, k: Int): Int = lasts(A, p, e, k) < 0 ? 0 : dpos(A, lasts(A, p, e, k), e)
def dfirst(A: Arr, p: Int, e: Int, k: Int): Int = firsts(A, p, e, k) < 0 ? 0 : dpos(A, firsts(A, p, e, k), e)
def isrep(R: Any, k: Int): Bool = R != nil && dom(R)[k]
// position the index holds for field k of the message A[p:e]
def want(A: Arr, p: Int, e: Int, R: Any, k: Int): Int =
  isrep(R, k) ? (firsts(A, p, e, k) < 0 ? 0 : dfirst(A, p, e, k) - p) : (lasts(A, p, e, k) < 0 ? 0 : dlast(A, p, e, k) - p)

contract zeropb.Decode(buf, o, R)(err)
  tags C01 C02 C05 C07 C09 C10 C11 C16
  requires map_cell: o.m != nil
  modifies elems(o.a), *o.m, mapof(*o.m), fresh
  loopinv [i: ModInt] wellformed: wf(arr(buf), buf.off, buf.end) <==> wf(arr(buf), buf.off + i, buf.end)
    using { let q = buf.off + head(i); unfold wf(arr(buf), q, buf.end)  unfold wf(arr(buf), buf.off + i, buf.end)  unfold okrec(arr(buf), q, buf.end)  unfold rend(arr(buf), q, buf.end)
      unfold dsz(arr(buf), q + us(arr(buf), q, buf.end), buf.end, wtyp(arr(buf), q)) }
  loopinv consistent: repOK(o)
  loopinv [i: ModInt] last: forall k: Int :: { o.a[k] } { lasts(arr(buf), buf.off, buf.end, k) } 0 <= k < o.a.len && !isrep(R, k) && i <= buf.len ==>
      dlast(arr(buf), buf.off, buf.end, k) == (lasts(arr(buf), buf.off + i, buf.end, k) >= 0 ? dlast(arr(buf), buf.off + i, buf.end, k) : idx(o, k) == 0 ? 0 : buf.off + idx(o, k))
    using { let q = buf.off + head(i); assert step: head(i) < i && i <= buf.len ==> okrec(arr(buf), q, buf.end) && buf.off + i == rend(arr(buf), q, buf.end)
        by { unfold okrec(arr(buf), q, buf.end)  unfold rend(arr(buf), q, buf.end)  unfold dsz(arr(buf), q + us(arr(buf), q, buf.end), buf.end, wtyp(arr(buf), q)) };
      unfold lasts(arr(buf), q, buf.end, k) }
  loopinv [i: ModInt] first: forall k: Int :: { o.a[k] } { firsts(arr(buf), buf.off, buf.end, k) } 0 <= k < o.a.len && isrep(R, k) && i <= buf.len ==>
      dfirst(arr(buf), buf.off, buf.end, k) == (idx(o, k) == 0 ? dfirst(arr(buf), buf.off + i, buf.end, k) : buf.off + idx(o, k))
    using { let q = buf.off + head(i); assert step: head(i) < i && i <= buf.len ==> okrec(arr(buf), q, buf.end) && buf.off + i == rend(arr(buf), q, buf.end)
        by { unfold okrec(arr(buf), q, buf.end)  unfold rend(arr(buf), q, buf.end)  unfold dsz(arr(buf), q + us(arr(buf), q, buf.end), buf.end, wtyp(arr(buf), q)) };
      unfold firsts(arr(buf), q, buf.end, k) }
  loopinv map_kept: *o.m == old(*o.m) || *o.m == nil || *o.m >= old(next)
  loopinv array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  loopinv small: buf.len <= 65535 ==> allocs == old(allocs) && (*o.m == old(*o.m) || *o.m == nil)
  ensures accepts_exactly_wellformed: err == nil <==> wf(arr(buf), buf.off, buf.end)
    using { forall q: Int :: { wf(arr(buf), q, buf.end) } { use wf_step(arr(buf), q, buf.end) }  reveal okrec  reveal dsz }
  ensures index: err == nil ==> (forall k: Int :: { o.a[k] } 0 <= k < o.a.len ==> idx(o, k) == want(arr(buf), buf.off, buf.end, R, k))
    using { forall k: Int :: { lasts(arr(buf), buf.off, buf.end, k) } { use nil_msg(arr(buf), buf.end, k, 0)  use last_loc(arr(buf), buf.off, buf.end, k) }  forall k: Int :: { firsts(arr(buf), buf.off, buf.end, k) } { use nil_msg(arr(buf), buf.end, k, 0)  use first_loc(arr(buf), buf.off, buf.end, k) } }
  ensures consistent: repOK(o)
  ensures map_kept: *o.m == old(*o.m) || *o.m == nil || *o.m >= old(next)
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures [C11] no_allocation: buf.len <= 65535 && err == nil ==> allocs == old(allocs)
