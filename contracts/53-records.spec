// What records with the same bytes have in common.

// then it carries the same tag, and data of the same size and value
lemma same_record(A: Arr, p: Int, e: Int, B: Arr, q: Int, z: Int, k: Int, i: Int)
  tags C04
  requires 0 <= p && 0 <= q && samerec(A, p, e, B, q, z, k, i) && nths(A, p, e, k, i) >= 0
  ensures (let a = nths(A, p, e, k, i); let b = nths(B, q, z, k, i); let u = dpos(A, a, e); let v = dpos(B, b, z); let w = wtyp(A, a);
    us(B, b, z) == us(A, a, e) && uval(B, b) == uval(A, a) && wtyp(B, b) == w &&
    dsz(B, v, z, w) == dsz(A, u, e, w) && dsz(A, u, e, w) > 0 && eqb(A, u, B, v, dsz(A, u, e, w)) &&
    (w == 0 || w == 2 ==> us(B, v, z) == us(A, u, e) && uval(B, v) == uval(A, u)) &&
    (w == 5 ==> le32(B, v) == le32(A, u)) && (w == 1 ==> le64(B, v) == le64(A, u)) &&
    (w == 2 ==> eqb(A, u + us(A, u, e), B, v + us(B, v, z), uval(A, u))))
  proof {
    let a = nths(A, p, e, k, i);
    let b = nths(B, q, z, k, i);
    let u = dpos(A, a, e);
    let v = dpos(B, b, z);
    use nth_loc(A, p, e, k, i)
    use rec_range(A, a, e)
    use rec_range(B, b, z)
    use rec_move(A, a, e, B, b, z)
    use dsz_move(A, u, e, wtyp(A, a), B, v, z)
    use le_move(A, u, B, v)
    unfold dsz(A, u, e, wtyp(A, a))
    assert eqb(A, u, B, v, dsz(A, u, e, wtyp(A, a)));
  }
