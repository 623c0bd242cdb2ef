// Varints, records and messages over byte arrays. A is the contents of a memory
// object, o and p are absolute positions in it, e is the end of the message.

// size of the varint at o (0: cut off, negative: more than 64 bits)
opaque def us(A: Arr, o: Int, e: Int): Int =
  e <= o ? 0 : A[o] < 128 ? 1 : e <= o+1 ? 0 : A[o+1] < 128 ? 2 : e <= o+2 ? 0 : A[o+2] < 128 ? 3 : e <= o+3 ? 0 : A[o+3] < 128 ? 4 : e <= o+4 ? 0 : A[o+4] < 128 ? 5 : e <= o+5 ? 0 : A[o+5] < 128 ? 6 : e <= o+6 ? 0 : A[o+6] < 128 ? 7 : e <= o+7 ? 0 : A[o+7] < 128 ? 8 : e <= o+8 ? 0 : A[o+8] < 128 ? 9 : e <= o+9 ? 0 : A[o+9] < 128 ? (A[o+9] % 128 <= 1 ? 10 : 0-10) : e <= o+10 ? 0 : 0-11

// value of the varint at o
opaque def uval(A: Arr, o: Int): Int =
  A[o] % 128 + (A[o] < 128 ? 0 : 128 * (A[o+1] % 128 + (A[o+1] < 128 ? 0 : 128 * (A[o+2] % 128 + (A[o+2] < 128 ? 0 : 128 * (A[o+3] % 128 + (A[o+3] < 128 ? 0 : 128 * (A[o+4] % 128 + (A[o+4] < 128 ? 0 : 128 * (A[o+5] % 128 + (A[o+5] < 128 ? 0 : 128 * (A[o+6] % 128 + (A[o+6] < 128 ? 0 : 128 * (A[o+7] % 128 + (A[o+7] < 128 ? 0 : 128 * (A[o+8] % 128 + (A[o+8] < 128 ? 0 : 128 * (A[o+9] % 128))))))))))))))))))

// length of the minimal varint of v
opaque def vlen(v: Int): Int = v < 128 ? 1 : v < 16384 ? 2 : v < 2097152 ? 3 : v < 268435456 ? 4 : v < 34359738368 ? 5 : v < 4398046511104 ? 6 : v < 562949953421312 ? 7 : v < 72057594037927936 ? 8 : v < 9223372036854775808 ? 9 : 10

// the bytes at o are the minimal varint of v
def isvar(A: Arr, o: Int, v: Int): Bool = us(A, o, o + vlen(v)) == vlen(v) && uval(A, o) == v

lemma us_range(A: Arr, o: Int, e: Int)
  ensures us(A, o, e) <= 10
  ensures e <= o ==> us(A, o, e) == 0
  ensures e > o ==> us(A, o, e) <= e - o
  ensures uval(A, o) >= 0
  ensures us(A, o, e) > 0 ==> uval(A, o) < 18446744073709551616
  auto { us(A, o, e) }
  proof { unfold us(A, o, e)  unfold uval(A, o) }

lemma vlen_range(v: Int)
  ensures 1 <= vlen(v) <= 10
  ensures v < 128 ==> vlen(v) == 1
  auto { vlen(v) }
  proof { unfold vlen(v) }

// a whole varint does not depend on what follows it
lemma us_ext(A: Arr, o: Int, e: Int, f: Int)
  requires us(A, o, e) > 0 && f >= o + us(A, o, e)
  ensures us(A, o, f) == us(A, o, e)
  proof { unfold us(A, o, e)  unfold us(A, o, f) }

// nor on where it lies
lemma uv_move(A: Arr, o: Int, e: Int, B: Arr, q: Int, f: Int)
  requires us(A, o, e) > 0 && eqb(A, o, B, q, us(A, o, e)) && f >= q + us(A, o, e)
  ensures us(B, q, f) == us(A, o, e)
  ensures uval(B, q) == uval(A, o)
  proof {
    unfold us(A, o, e)  unfold us(B, q, f)  unfold uval(A, o)  unfold uval(B, q)
    assert us(A, o, e) > 0 ==> A[o+0] == B[q+0]; assert us(A, o, e) > 1 ==> A[o+1] == B[q+1]; assert us(A, o, e) > 2 ==> A[o+2] == B[q+2]; assert us(A, o, e) > 3 ==> A[o+3] == B[q+3]; assert us(A, o, e) > 4 ==> A[o+4] == B[q+4]; assert us(A, o, e) > 5 ==> A[o+5] == B[q+5]; assert us(A, o, e) > 6 ==> A[o+6] == B[q+6]; assert us(A, o, e) > 7 ==> A[o+7] == B[q+7]; assert us(A, o, e) > 8 ==> A[o+8] == B[q+8]; assert us(A, o, e) > 9 ==> A[o+9] == B[q+9];
  }

lemma us_shift(A: Arr, o: Int, e: Int)
  requires us(A, o, e) > 1
  ensures us(A, o+1, e) == us(A, o, e) - 1
  ensures uval(A, o) == A[o] % 128 + 128 * uval(A, o+1)
  proof { unfold us(A, o, e)  unfold us(A, o+1, e)  unfold uval(A, o)  unfold uval(A, o+1) }

// the last m bytes of a varint are a varint of a much smaller value
lemma uv_tail(A: Arr, o: Int, e: Int, m: Int)
  requires us(A, o, e) > m && m >= 1
  ensures us(A, o + us(A, o, e) - m, e) == m
  ensures uval(A, o) >= 128 * uval(A, o + us(A, o, e) - m)
  decreases us(A, o, e)
  proof {
    use us_shift(A, o, e)
    use us_range(A, o+1, e)
    use us_range(A, o + us(A, o, e) - m, e)
    if us(A, o, e) - 1 > m { use uv_tail(A, o+1, e, m) }
  }

// two varints of the same length and value have the same bytes
lemma uv_unique(A: Arr, o: Int, e: Int, B: Arr, q: Int, f: Int)
  requires us(A, o, e) > 0 && us(A, o, e) == us(B, q, f) && uval(A, o) == uval(B, q)
  requires forall y: Int :: { A[y] } 0 <= A[y] < 256
  requires forall y: Int :: { B[y] } 0 <= B[y] < 256
  ensures eqb(A, o, B, q, us(A, o, e))
  decreases us(A, o, e)
  proof {
    if us(A, o, e) == 1 {
      assert A[o] == B[q] by { unfold us(A, o, e)  unfold us(B, q, f)  unfold uval(A, o)  unfold uval(B, q) };
    } else {
      use us_shift(A, o, e)
      use us_shift(B, q, f)
      assert A[o] >= 128 && B[q] >= 128 by { unfold us(A, o, e)  unfold us(B, q, f) };
      assert A[o] == B[q] && uval(A, o+1) == uval(B, q+1);
      use uv_unique(A, o+1, e, B, q+1, f)
    }
  }

// ---- records ----

def tagOf(A: Arr, p: Int): Int = uval(A, p)
def fid(A: Arr, p: Int): Int = uval(A, p) / 8
def wtyp(A: Arr, p: Int): Int = uval(A, p) % 8

// size of the data of wire type w at o, 0 if it is not valid
opaque def dsz(A: Arr, o: Int, e: Int, w: Int): Int =
  w == 0 ? (us(A, o, e) > 0 ? us(A, o, e) : 0) :
  w == 5 ? (o + 4 <= e ? 4 : 0) :
  w == 1 ? (o + 8 <= e ? 8 : 0) :
  w == 2 ? (us(A, o, e) > 0 && uval(A, o) <= e - o - us(A, o, e) ? us(A, o, e) + uval(A, o) : 0) : 0

opaque def okrec(A: Arr, p: Int, e: Int): Bool = us(A, p, e) > 0 && dsz(A, p + us(A, p, e), e, wtyp(A, p)) > 0
opaque def rend(A: Arr, p: Int, e: Int): Int = p + us(A, p, e) + dsz(A, p + us(A, p, e), e, wtyp(A, p))
// where the data of the record at p starts
def dpos(A: Arr, p: Int, e: Int): Int = p + us(A, p, e)

lemma dsz_range(A: Arr, o: Int, e: Int, w: Int)
  ensures dsz(A, o, e, w) >= 0
  ensures dsz(A, o, e, w) > 0 ==> o + dsz(A, o, e, w) <= e
  auto { dsz(A, o, e, w) }
  proof { unfold dsz(A, o, e, w) }

lemma rec_range(A: Arr, p: Int, e: Int)
  requires okrec(A, p, e)
  ensures p + 1 < rend(A, p, e) <= e
  ensures us(A, p, e) >= 1 && dpos(A, p, e) < rend(A, p, e)
  ensures dsz(A, dpos(A, p, e), e, wtyp(A, p)) > 0 && rend(A, p, e) == dpos(A, p, e) + dsz(A, dpos(A, p, e), e, wtyp(A, p))
  proof { unfold okrec(A, p, e)  unfold rend(A, p, e) }

lemma dsz_ext(A: Arr, o: Int, e: Int, w: Int, f: Int)
  requires dsz(A, o, e, w) > 0 && o + dsz(A, o, e, w) <= f
  ensures dsz(A, o, f, w) == dsz(A, o, e, w)
  proof { unfold dsz(A, o, e, w)  unfold dsz(A, o, f, w)  use us_ext(A, o, e, f) }

lemma dsz_move(A: Arr, o: Int, e: Int, w: Int, B: Arr, q: Int, f: Int)
  requires dsz(A, o, e, w) > 0 && eqb(A, o, B, q, dsz(A, o, e, w)) && q + dsz(A, o, e, w) <= f
  ensures dsz(B, q, f, w) == dsz(A, o, e, w)
  ensures w == 0 || w == 2 ==> us(B, q, f) == us(A, o, e) && uval(B, q) == uval(A, o)
  proof {
    unfold dsz(A, o, e, w)  unfold dsz(B, q, f, w)
    if w == 0 || w == 2 {
      assert us(A, o, e) <= dsz(A, o, e, w);
      assert eqb(A, o, B, q, us(A, o, e));
      use uv_move(A, o, e, B, q, f)
    }
  }

lemma rec_ext(A: Arr, p: Int, e: Int, f: Int)
  requires okrec(A, p, e) && rend(A, p, e) <= f
  ensures okrec(A, p, f) && rend(A, p, f) == rend(A, p, e) && us(A, p, f) == us(A, p, e)
  proof {
    unfold okrec(A, p, e)  unfold rend(A, p, e)  unfold okrec(A, p, f)  unfold rend(A, p, f)
    use us_ext(A, p, e, f)
    use dsz_ext(A, p + us(A, p, e), e, wtyp(A, p), f)
  }

lemma rec_move(A: Arr, p: Int, e: Int, B: Arr, q: Int, f: Int)
  requires okrec(A, p, e) && eqb(A, p, B, q, rend(A, p, e) - p) && q + (rend(A, p, e) - p) <= f
  ensures okrec(B, q, f) && rend(B, q, f) == q + (rend(A, p, e) - p)
  ensures us(B, q, f) == us(A, p, e) && uval(B, q) == uval(A, p)
  proof {
    unfold okrec(A, p, e)  unfold rend(A, p, e)  unfold okrec(B, q, f)  unfold rend(B, q, f)
    assert eqb(A, p, B, q, us(A, p, e));
    use uv_move(A, p, e, B, q, f)
    assert eqb(A, p + us(A, p, e), B, q + us(A, p, e), dsz(A, p + us(A, p, e), e, wtyp(A, p)));
    use dsz_move(A, p + us(A, p, e), e, wtyp(A, p), B, q + us(A, p, e), f)
  }

