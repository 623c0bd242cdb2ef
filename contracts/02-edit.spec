// Editing messages: removing a record and adding one.

def tagv(f: Int, typ: Int): Int = 8 * f + typ

// the record at s carries exactly the minimal tag of field f and wire type typ
def canon(A: Arr, s: Int, e: Int, f: Int, typ: Int): Bool = s >= 0 && us(A, s, e) == vlen(tagv(f, typ)) && uval(A, s) == tagv(f, typ)

// the bytes before the data of a record end with the minimal tag of its field
// and of wire type typ exactly if they are its tag
lemma tag_match(A: Arr, p: Int, s: Int, e: Int, B: Arr, o: Int, f: Int, typ: Int)
  requires 0 <= p <= s && us(A, s, e) > 0 && fid(A, s) == f && f >= 1 && 0 <= typ < 8
  requires isvar(B, o, tagv(f, typ))
  requires forall y: Int :: { A[y] } 0 <= A[y] < 256
  requires forall y: Int :: { B[y] } 0 <= B[y] < 256
  ensures canon(A, s, e, f, typ) <==> (s + us(A, s, e) - p >= vlen(tagv(f, typ)) && eqb(A, s + us(A, s, e) - vlen(tagv(f, typ)), B, o, vlen(tagv(f, typ))))
  proof {
    let n = us(A, s, e);
    let m = vlen(tagv(f, typ));
    let d = s + n;
    use vlen_range(tagv(f, typ))
    if n > m {
      use uv_tail(A, s, e, m)
      if eqb(A, d - m, B, o, m) {
        use uv_move(B, o, o + m, A, d - m, e)
        assert false;
      }
    } else if n < m {
      use uv_tail(B, o, o + m, n)
      if eqb(A, d - m, B, o, m) && d - m >= 0 {
        assert eqb(B, o + m - n, A, s, n);
        use us_range(B, o + m - n, o + m)
        use uv_move(B, o + m - n, o + m, A, s, e)
        assert false;
      }
    } else {
      if eqb(A, s, B, o, m) { use uv_move(B, o, o + m, A, s, e) }
      if uval(A, s) == tagv(f, typ) { use uv_unique(A, s, e, B, o, o + m) }
    }
  }

// B[q:z) is A[p:e) without [s,t), followed by one record
def spliced(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, z: Int): Bool =
  q + (s - p) + (e - t) < z && eqb(A, p, B, q, s - p) && eqb(A, t, B, q + (s - p), e - t)
// B[q:..) is A[p:e) with [s,t) overwritten
def replaced(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int): Bool =
  eqb(A, p, B, q, s - p) && eqb(A, t, B, q + (t - p), e - t)

// the record [s,t) of field f, or nothing
def cut(A: Arr, p: Int, s: Int, t: Int, e: Int, f: Int): Bool =
  0 <= p <= s && s <= t && t <= e && wf(A, p, e) && wf(A, p, s) && wf(A, t, e) && (s == t || (okrec(A, s, e) && rend(A, s, e) == t && fid(A, s) == f))

def moved(x: Int, s: Int, d: Int, g: Int): Int = x < 0 ? 0-1 : x < s ? x + d : x + d - g

// what is where once [s,t) is gone
lemma parts(A: Arr, p: Int, s: Int, t: Int, e: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f)
  ensures k != f ==> cnt(A, p, e, k) == cnt(A, p, s, k) + cnt(A, t, e, k)
  ensures k != f ==> nths(A, p, e, k, i) == (i < cnt(A, p, s, k) ? nths(A, p, s, k, i) : nths(A, t, e, k, i - cnt(A, p, s, k)))
  ensures k != f ==> lasts(A, p, e, k) == (lasts(A, t, e, k) >= 0 ? lasts(A, t, e, k) : lasts(A, p, s, k))
  ensures k != f ==> firsts(A, p, e, k) == (firsts(A, p, s, k) >= 0 ? firsts(A, p, s, k) : firsts(A, t, e, k))
  ensures lasts(A, p, s, k) < s && firsts(A, p, s, k) < s && nths(A, p, s, k, i) < s
  ensures lasts(A, t, e, k) < 0 || lasts(A, t, e, k) >= t
  ensures firsts(A, t, e, k) < 0 || firsts(A, t, e, k) >= t
  ensures nths(A, t, e, k, i) < 0 || nths(A, t, e, k, i) >= t
  proof {
    use nth_loc(A, p, s, k, i)  use last_loc(A, p, s, k)  use first_loc(A, p, s, k)
    use nth_loc(A, t, e, k, i)  use last_loc(A, t, e, k)  use first_loc(A, t, e, k)
    use cat(A, p, s, e, k, i)
    use nth_neg(A, t, e, k, i - cnt(A, p, s, k))
    if s < t {
      use rec_range(A, s, e)
      unfold cnt(A, s, e, k)  unfold nths(A, s, e, k, i - cnt(A, p, s, k))  unfold lasts(A, s, e, k)  unfold firsts(A, s, e, k)
    }
  }

lemma splice(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, z: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && 0 <= q && spliced(A, p, s, t, e, B, q, z)
  requires okrec(B, q + (s - p) + (e - t), z) && rend(B, q + (s - p) + (e - t), z) == z && fid(B, q + (s - p) + (e - t)) == f
  ensures wf(B, q, z)
  ensures lasts(B, q, z, f) == q + (s - p) + (e - t)
  ensures k != f ==> lasts(B, q, z, k) == moved(lasts(A, p, e, k), s, q - p, t - s)
  ensures k != f ==> firsts(B, q, z, k) == moved(firsts(A, p, e, k), s, q - p, t - s)
  ensures k != f ==> nths(B, q, z, k, i) == moved(nths(A, p, e, k, i), s, q - p, t - s)
  ensures k != f ==> cnt(B, q, z, k) == cnt(A, p, e, k)
  ensures s == t ==> cnt(B, q, z, f) == cnt(A, p, e, f) + 1
  ensures s == t ==> nths(B, q, z, f, i) == (i < cnt(A, p, e, f) ? (nths(A, p, e, f, i) < 0 ? 0-1 : nths(A, p, e, f, i) - p + q) : i == cnt(A, p, e, f) ? q + (e - p) : 0-1)
  ensures s == t ==> firsts(B, q, z, f) == (firsts(A, p, e, f) >= 0 ? firsts(A, p, e, f) - p + q : q + (e - p))
  proof {
    let n1 = q + (s - p);
    let n2 = n1 + (e - t);
    use parts(A, p, s, t, e, f, k, i)
    use mov(A, p, s, B, q, k, i)
    use mov(A, t, e, B, n1, k, i - cnt(A, p, s, k))
    use nth_loc(A, p, s, k, i)  use nth_loc(A, t, e, k, i - cnt(A, p, s, k))
    use nth_neg(A, t, e, k, i - cnt(A, p, s, k))
    use first_loc(A, p, s, k)  use first_loc(A, t, e, k)  use first_loc(A, p, s, f)  use first_loc(A, t, e, f)
    use one(B, n2, z, k, i - cnt(B, q, n2, k))
    use cat(B, q, n1, n2, k, i)
    use cat(B, q, n2, z, k, i)
    use one(B, n2, z, f, i - cnt(B, q, n2, f))
    use mov(A, p, s, B, q, f, i)
    use mov(A, t, e, B, n1, f, i - cnt(A, p, s, f))
    use cat(A, p, s, e, f, i)
    use cat(B, q, n1, n2, f, i)
    use cat(B, q, n2, z, f, i)
    use nth_loc(A, p, e, f, i)
    use nth_neg(B, q, n2, f, i)
  }

lemma replace(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && s < t && 0 <= q && replaced(A, p, s, t, e, B, q) && lasts(A, p, e, f) == s
  requires okrec(B, q + (s - p), q + (e - p)) && rend(B, q + (s - p), q + (e - p)) == q + (t - p) && fid(B, q + (s - p)) == f
  ensures wf(B, q, q + (e - p))
  ensures lasts(B, q, q + (e - p), f) == q + (s - p)
  ensures k != f ==> lasts(B, q, q + (e - p), k) == moved(lasts(A, p, e, k), s, q - p, 0)
  ensures k != f ==> firsts(B, q, q + (e - p), k) == moved(firsts(A, p, e, k), s, q - p, 0)
  ensures k != f ==> nths(B, q, q + (e - p), k, i) == moved(nths(A, p, e, k, i), s, q - p, 0)
  ensures k != f ==> cnt(B, q, q + (e - p), k) == cnt(A, p, e, k)
  proof {
    let n1 = q + (s - p);
    let n2 = q + (t - p);
    let z = q + (e - p);
    use parts(A, p, s, t, e, f, k, i)
    use mov(A, p, s, B, q, k, i)
    use mov(A, t, e, B, n2, k, i - cnt(A, p, s, k))
    use mov(A, p, s, B, q, f, 0)
    use mov(A, t, e, B, n2, f, 0)
    use nth_loc(A, p, s, k, i)  use nth_loc(A, t, e, k, i - cnt(A, p, s, k))
    use first_loc(A, p, s, k)  use first_loc(A, t, e, k)
    use rec_range(A, s, e)
    use rec_range(B, n1, z)
    use cat(B, q, n1, z, k, i)
    use cat(B, q, n1, z, f, 0)
    use cat(A, p, s, e, f, 0)
    unfold wf(B, n1, z)  unfold cnt(B, n1, z, k)  unfold nths(B, n1, z, k, i - cnt(B, q, n1, k))  unfold lasts(B, n1, z, k)  unfold firsts(B, n1, z, k)
    unfold lasts(B, n1, z, f)
    unfold lasts(A, s, e, f)
    use last_loc(A, t, e, f)
  }

// ---- positions, relative to the start of the message ----

// the position of the data of the last and of the first record of k, 0 if there is none
def wantS(A: Arr, p: Int, e: Int, k: Int): Int = lasts(A, p, e, k) < 0 ? 0 : dpos(A, lasts(A, p, e, k), e) - p
def wantR(A: Arr, p: Int, e: Int, k: Int): Int = firsts(A, p, e, k) < 0 ? 0 : dpos(A, firsts(A, p, e, k), e) - p
lemma want_range(A: Arr, p: Int, e: Int, k: Int)
  requires 0 <= p <= e
  ensures 0 <= wantS(A, p, e, k) && (wantS(A, p, e, k) == 0 || wantS(A, p, e, k) < e - p)
  ensures 0 <= wantR(A, p, e, k) && (wantR(A, p, e, k) == 0 || wantR(A, p, e, k) < e - p)
  ensures wantS(A, p, e, k) == 0 <==> lasts(A, p, e, k) < 0
  ensures wantR(A, p, e, k) == 0 <==> firsts(A, p, e, k) < 0
  proof {
    use last_loc(A, p, e, k)  use first_loc(A, p, e, k)
    use rec_range(A, lasts(A, p, e, k), e)  use rec_range(A, firsts(A, p, e, k), e)
  }
// position x after the g bytes before fe have gone
def adj(x: Int, fe: Int, g: Int): Int = x > fe ? x - g : x

// records other than the one cut lie before or after it
lemma other_rec(A: Arr, p: Int, s: Int, t: Int, e: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && k != f && nths(A, p, e, k, i) >= 0
  ensures okrec(A, nths(A, p, e, k, i), e) && nths(A, p, e, k, i) >= p && rend(A, nths(A, p, e, k, i), e) <= e
  ensures dpos(A, nths(A, p, e, k, i), e) < rend(A, nths(A, p, e, k, i), e)
  ensures rend(A, nths(A, p, e, k, i), e) <= s || nths(A, p, e, k, i) >= t
  ensures nths(A, p, e, k, i) < s <==> rend(A, nths(A, p, e, k, i), e) <= s
  proof {
    use parts(A, p, s, t, e, f, k, i)
    use nth_loc(A, p, e, k, i)
    use nth_loc(A, p, s, k, i)
    use nth_loc(A, t, e, k, i - cnt(A, p, s, k))
    use rec_ext(A, nths(A, p, e, k, i), s, e)
    use rec_range(A, nths(A, p, e, k, i), e)
  }

lemma splice_pos(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, z: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && 0 <= q && spliced(A, p, s, t, e, B, q, z) && k != f
  requires okrec(B, q + (s - p) + (e - t), z) && rend(B, q + (s - p) + (e - t), z) == z && fid(B, q + (s - p) + (e - t)) == f
  ensures nths(A, p, e, k, i) >= 0 ==> eqb(A, nths(A, p, e, k, i), B, nths(B, q, z, k, i), rend(A, nths(A, p, e, k, i), e) - nths(A, p, e, k, i))
  ensures nths(A, p, e, k, i) >= 0 ==> okrec(B, nths(B, q, z, k, i), z) && rend(B, nths(B, q, z, k, i), z) == nths(B, q, z, k, i) + (rend(A, nths(A, p, e, k, i), e) - nths(A, p, e, k, i))
  ensures nths(A, p, e, k, i) >= 0 ==> dpos(B, nths(B, q, z, k, i), z) - q == adj(dpos(A, nths(A, p, e, k, i), e) - p, t - p, t - s)
  proof {
    let r = nths(A, p, e, k, i);
    use splice(A, p, s, t, e, B, q, z, f, k, i)
    use other_rec(A, p, s, t, e, f, k, i)
    let r2 = nths(B, q, z, k, i);
    if r >= 0 {
      assert eqb(A, r, B, r2, rend(A, r, e) - r);
      use rec_move(A, r, e, B, r2, z)
      unfold okrec(A, r, e)
      use uv_move(A, r, e, B, r2, z)
      use rec_range(A, r, e)
    }
  }

lemma splice_want(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, z: Int, f: Int, k: Int)
  requires cut(A, p, s, t, e, f) && 0 <= q && spliced(A, p, s, t, e, B, q, z) && k != f
  requires okrec(B, q + (s - p) + (e - t), z) && rend(B, q + (s - p) + (e - t), z) == z && fid(B, q + (s - p) + (e - t)) == f
  ensures wantS(B, q, z, k) == adj(wantS(A, p, e, k), t - p, t - s)
  ensures wantR(B, q, z, k) == adj(wantR(A, p, e, k), t - p, t - s)
  proof {
    let c = cnt(A, p, e, k) - 1;
    use splice(A, p, s, t, e, B, q, z, f, k, c)
    use last_nth(A, p, e, k)  use last_nth(B, q, z, k)
    use first_nth(A, p, e, k)  use first_nth(B, q, z, k)
    use nth_loc(A, p, e, k, c)  use nth_loc(A, p, e, k, 0)
    use nth_loc(B, q, z, k, c)  use nth_loc(B, q, z, k, 0)
    use splice_pos(A, p, s, t, e, B, q, z, f, k, c)
    use splice_pos(A, p, s, t, e, B, q, z, f, k, 0)
  }

lemma replace_pos(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && s < t && 0 <= q && replaced(A, p, s, t, e, B, q) && k != f && lasts(A, p, e, f) == s
  requires okrec(B, q + (s - p), q + (e - p)) && rend(B, q + (s - p), q + (e - p)) == q + (t - p) && fid(B, q + (s - p)) == f
  ensures nths(A, p, e, k, i) >= 0 ==> eqb(A, nths(A, p, e, k, i), B, nths(B, q, q + (e - p), k, i), rend(A, nths(A, p, e, k, i), e) - nths(A, p, e, k, i))
  ensures nths(A, p, e, k, i) >= 0 ==> okrec(B, nths(B, q, q + (e - p), k, i), q + (e - p)) && rend(B, nths(B, q, q + (e - p), k, i), q + (e - p)) == nths(B, q, q + (e - p), k, i) + (rend(A, nths(A, p, e, k, i), e) - nths(A, p, e, k, i))
  ensures nths(A, p, e, k, i) >= 0 ==> dpos(B, nths(B, q, q + (e - p), k, i), q + (e - p)) - q == dpos(A, nths(A, p, e, k, i), e) - p
  proof {
    let z = q + (e - p);
    let r = nths(A, p, e, k, i);
    use replace(A, p, s, t, e, B, q, f, k, i)
    use other_rec(A, p, s, t, e, f, k, i)
    let r2 = nths(B, q, z, k, i);
    if r >= 0 {
      assert eqb(A, r, B, r2, rend(A, r, e) - r);
      use rec_move(A, r, e, B, r2, z)
      unfold okrec(A, r, e)
      use uv_move(A, r, e, B, r2, z)
      use rec_range(A, r, e)
    }
  }

lemma replace_want(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, f: Int, k: Int)
  requires cut(A, p, s, t, e, f) && s < t && 0 <= q && replaced(A, p, s, t, e, B, q) && k != f && lasts(A, p, e, f) == s
  requires okrec(B, q + (s - p), q + (e - p)) && rend(B, q + (s - p), q + (e - p)) == q + (t - p) && fid(B, q + (s - p)) == f
  ensures wantS(B, q, q + (e - p), k) == wantS(A, p, e, k)
  ensures wantR(B, q, q + (e - p), k) == wantR(A, p, e, k)
  proof {
    let z = q + (e - p);
    let c = cnt(A, p, e, k) - 1;
    use replace(A, p, s, t, e, B, q, f, k, c)
    use last_nth(A, p, e, k)  use last_nth(B, q, z, k)
    use first_nth(A, p, e, k)  use first_nth(B, q, z, k)
    use nth_loc(A, p, e, k, c)  use nth_loc(A, p, e, k, 0)
    use nth_loc(B, q, z, k, c)  use nth_loc(B, q, z, k, 0)
    use replace_pos(A, p, s, t, e, B, q, f, k, c)
    use replace_pos(A, p, s, t, e, B, q, f, k, 0)
  }

// appending a record of f: the first one is the old first one, or the new one
lemma first_want(A: Arr, p: Int, e: Int, B: Arr, q: Int, z: Int, f: Int)
  requires 0 <= p <= e && wf(A, p, e) && 0 <= q && eqb(A, p, B, q, e - p) && q + (e - p) < z
  requires okrec(B, q + (e - p), z) && rend(B, q + (e - p), z) == z && fid(B, q + (e - p)) == f
  ensures wantR(B, q, z, f) == (firsts(A, p, e, f) >= 0 ? wantR(A, p, e, f) : dpos(B, q + (e - p), z) - q)
  ensures firsts(B, q, z, f) >= 0
  proof {
    use nil_msg(A, e, f, 0)
    use splice(A, p, e, e, e, B, q, z, f, f, 0)
    use first_loc(A, p, e, f)
    let s = firsts(A, p, e, f);
    if s >= 0 {
      assert eqb(A, s, B, s - p + q, rend(A, s, e) - s);
      use rec_range(A, s, e)
      use rec_move(A, s, e, B, s - p + q, z)
    }
  }

// ---- the records of a field, before and after ----

// the i-th record of k is there exactly if it was, with the same bytes
def samerec(A: Arr, p: Int, e: Int, B: Arr, q: Int, z: Int, k: Int, i: Int): Bool =
  let a = nths(A, p, e, k, i); let b = nths(B, q, z, k, i);
  a < 0 ? b < 0 : b >= 0 && okrec(B, b, z) && rend(B, b, z) - b == rend(A, a, e) - a && eqb(A, a, B, b, rend(A, a, e) - a)

// the field has as many records, and its last and first ones are the same
lemma same_field(A: Arr, p: Int, e: Int, B: Arr, q: Int, z: Int, k: Int)
  tags C04
  requires 0 <= p && 0 <= q
  requires forall i: Int :: { nths(B, q, z, k, i) } samerec(A, p, e, B, q, z, k, i)
  ensures cnt(B, q, z, k) == cnt(A, p, e, k)
  ensures lasts(B, q, z, k) == nths(B, q, z, k, cnt(A, p, e, k) - 1) && lasts(A, p, e, k) == nths(A, p, e, k, cnt(A, p, e, k) - 1)
  ensures firsts(B, q, z, k) == nths(B, q, z, k, 0) && firsts(A, p, e, k) == nths(A, p, e, k, 0)
  proof {
    use nth_loc(A, p, e, k, cnt(B, q, z, k))  use nth_loc(B, q, z, k, cnt(B, q, z, k))
    use nth_loc(A, p, e, k, cnt(A, p, e, k))  use nth_loc(B, q, z, k, cnt(A, p, e, k))
    use last_nth(A, p, e, k)  use last_nth(B, q, z, k)  use first_nth(A, p, e, k)  use first_nth(B, q, z, k)
  }

// a message that starts with another one starts with its records
lemma prefix_rec(A: Arr, p: Int, e: Int, B: Arr, q: Int, z: Int, k: Int, i: Int)
  requires 0 <= p <= e && 0 <= q && wf(A, p, e) && eqb(A, p, B, q, e - p) && q + (e - p) <= z
  requires nths(A, p, e, k, i) >= 0
  ensures nths(B, q, z, k, i) == nths(A, p, e, k, i) - p + q
  ensures samerec(A, p, e, B, q, z, k, i)
  proof {
    use mov(A, p, e, B, q, k, i)
    use cat(B, q, q + (e - p), z, k, i)
    use nth_loc(A, p, e, k, i)
    use nth_loc(B, q, q + (e - p), k, i)
    let a = nths(A, p, e, k, i);
    use rec_range(A, a, e)
    assert eqb(A, a, B, a - p + q, rend(A, a, e) - a);
    use rec_move(A, a, e, B, a - p + q, z)
  }

lemma splice_same(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, z: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && 0 <= q && spliced(A, p, s, t, e, B, q, z) && k != f
  requires okrec(B, q + (s - p) + (e - t), z) && rend(B, q + (s - p) + (e - t), z) == z && fid(B, q + (s - p) + (e - t)) == f
  ensures samerec(A, p, e, B, q, z, k, i)
  proof {
    use splice(A, p, s, t, e, B, q, z, f, k, i)
    use splice_pos(A, p, s, t, e, B, q, z, f, k, i)
    use nth_loc(A, p, e, k, i)
    use other_rec(A, p, s, t, e, f, k, i)
  }

lemma replace_same(A: Arr, p: Int, s: Int, t: Int, e: Int, B: Arr, q: Int, f: Int, k: Int, i: Int)
  requires cut(A, p, s, t, e, f) && s < t && 0 <= q && replaced(A, p, s, t, e, B, q) && k != f && lasts(A, p, e, f) == s
  requires okrec(B, q + (s - p), q + (e - p)) && rend(B, q + (s - p), q + (e - p)) == q + (t - p) && fid(B, q + (s - p)) == f
  ensures samerec(A, p, e, B, q, q + (e - p), k, i)
  proof {
    use replace(A, p, s, t, e, B, q, f, k, i)
    use replace_pos(A, p, s, t, e, B, q, f, k, i)
    use nth_loc(A, p, e, k, i)
    use other_rec(A, p, s, t, e, f, k, i)
  }
