// The field index: offsets.go.

fieldalias "zeropb.Offsets" a "[]uint16"
fieldalias "zeropb.Offsets" m "*map[int]uint64"

// position recorded for field k (0: none)
def idx(o: Any, k: Int): Int = o.a[k] == 65535 ? mval(*o.m)[k] : o.a[k]

// the array marks a field exactly when the overflow map holds it
def repOK(o: Any): Bool =
  o.m != nil &&
  (forall k: Int :: { o.a[k] } { dom(*o.m)[k] } 0 <= k < o.a.len ==> (o.a[k] == 65535 <==> (*o.m != nil && dom(*o.m)[k]))) &&
  (forall k: Int :: { dom(*o.m)[k] } *o.m != nil && dom(*o.m)[k] ==> 0 <= k < o.a.len && mval(*o.m)[k] > 0)

contract zeropb.WrapOffsets(a, m)(r)
  tags C08 C09 C13
  ensures wraps_array: r.a == a
  ensures wraps_map: r.m == m

contract zeropb.Offsets.Get(o, fieldID)(off, ok)
  tags C01 C02 C03 C08 C10 C11 C13 C16
  requires in_range: 0 <= fieldID < o.a.len
  requires consistent: repOK(o)
  ensures position: off == idx(o, fieldID)
  ensures presence: ok <==> idx(o, fieldID) != 0

contract zeropb.Offsets.Set(o, fieldID, offset)
  tags C01 C02 C03 C04 C05 C08 C10 C11
  requires in_range: 0 <= fieldID < o.a.len
  requires consistent: repOK(o)
  modifies elems(o.a), *o.m, mapof(*o.m), fresh
  ensures consistent: repOK(o)
  ensures recorded: idx(o, fieldID) == offset
  ensures others_unchanged: forall k: Int :: { o.a[k] } 0 <= k < o.a.len && k != fieldID ==> idx(o, k) == old(idx(o, k))
  ensures only_this_slot: forall y: Int :: { arr(o.a)[y] } y != o.a.off + fieldID ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures map_kept: *o.m == old(*o.m) || (old(*o.m) == nil && *o.m >= old(next))
  ensures [C11] small_positions_allocate_nothing: offset < 65535 ==> allocs == old(allocs)
  ensures small_positions_keep_map: offset < 65535 ==> *o.m == old(*o.m)

contract zeropb.Offsets.Clear(o)
  tags C01 C08 C09 C10 C11
  requires map_cell: o.m != nil
  modifies elems(o.a), *o.m, mapof(*o.m)
  loopinv [i: ModInt] forall k: Int :: { o.a[k] } 0 <= k < i ==> o.a[k] == 0
  loopinv [i: ModInt] down: forall k: Int :: { o.a[k] } i < k < o.a.len ==> o.a[k] == 0
  loopinv forall k: Int :: { dom(*o.m)[k] } dom(*o.m)[k] ==> !$visited[k] && atloop(dom(*o.m)[k])
  loopinv arr_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures all_absent: forall k: Int :: { o.a[k] } 0 <= k < o.a.len ==> o.a[k] == 0
  ensures consistent: repOK(o)
  ensures map_empty: forall k: Int :: { dom(*o.m)[k] } *o.m != nil ==> !dom(*o.m)[k]
  ensures array_only: forall y: Int :: { arr(o.a)[y] } y < o.a.off || y >= o.a.end ==> arr(o.a)[y] == old(arr(o.a))[y]
  ensures map_kept: *o.m == old(*o.m) || *o.m == nil
