// Messages: sequences of records.

// [p, e) is a sequence of complete records
rec wf(A: Arr, p: Int, e: Int): Bool decreases e - p =
  p == e || (p < e && okrec(A, p, e) && rend(A, p, e) > p && wf(A, rend(A, p, e), e))

// start of the i-th record of field f, counting from 0 (-1: none)
rec nths(A: Arr, p: Int, e: Int, f: Int, i: Int): Int decreases e - p =
  p < e && okrec(A, p, e) && rend(A, p, e) > p
    ? (fid(A, p) == f && i == 0 ? p : nths(A, rend(A, p, e), e, f, fid(A, p) == f ? i - 1 : i)) : 0-1

// number of records of field f
rec cnt(A: Arr, p: Int, e: Int, f: Int): Int decreases e - p =
  p < e && okrec(A, p, e) && rend(A, p, e) > p
    ? (fid(A, p) == f ? 1 : 0) + cnt(A, rend(A, p, e), e, f) : 0

// start of the last and of the first record of field f (-1: none)
rec lasts(A: Arr, p: Int, e: Int, f: Int): Int decreases e - p =
  p < e && okrec(A, p, e) && rend(A, p, e) > p
    ? (lasts(A, rend(A, p, e), e, f) >= 0 ? lasts(A, rend(A, p, e), e, f) : fid(A, p) == f ? p : 0-1) : 0-1
rec firsts(A: Arr, p: Int, e: Int, f: Int): Int decreases e - p =
  p < e && okrec(A, p, e) && rend(A, p, e) > p
    ? (fid(A, p) == f ? p : firsts(A, rend(A, p, e), e, f)) : 0-1

lemma wf_step(A: Arr, p: Int, e: Int)
  ensures wf(A, p, e) && p != e ==> p < e && okrec(A, p, e)
  ensures wf(A, e, e)
  proof { unfold wf(A, p, e)  unfold wf(A, e, e) }

lemma first_here(A: Arr, p: Int, e: Int, f: Int)
  requires 0 <= p
  ensures firsts(A, e, e, f) == 0-1
  ensures p < e && okrec(A, p, e) && fid(A, p) == f ==> firsts(A, p, e, f) == p
  proof { unfold firsts(A, p, e, f)  unfold firsts(A, e, e, f)  if okrec(A, p, e) { use rec_range(A, p, e) } }

lemma cnt_range(A: Arr, p: Int, e: Int, f: Int)
  ensures cnt(A, p, e, f) >= 0
  auto { cnt(A, p, e, f) }
  decreases e - p
  proof { unfold cnt(A, p, e, f)  if p < e && okrec(A, p, e) && rend(A, p, e) > p { use cnt_range(A, rend(A, p, e), e, f) } }

// negative numbers name no record
lemma nth_neg(A: Arr, p: Int, e: Int, f: Int, i: Int)
  requires i < 0
  ensures nths(A, p, e, f, i) == 0-1
  decreases e - p
  proof {
    unfold nths(A, p, e, f, i)
    if p < e && okrec(A, p, e) && rend(A, p, e) > p { use nth_neg(A, rend(A, p, e), e, f, fid(A, p) == f ? i - 1 : i) }
  }

// what the i-th record of a field is
lemma nth_loc(A: Arr, p: Int, e: Int, f: Int, i: Int)
  requires 0 <= p
  ensures nths(A, p, e, f, i) == 0-1 || p <= nths(A, p, e, f, i) < e
  ensures nths(A, p, e, f, i) >= 0 ==> okrec(A, nths(A, p, e, f, i), e) && fid(A, nths(A, p, e, f, i)) == f && rend(A, nths(A, p, e, f, i), e) <= e
  ensures nths(A, p, e, f, i) >= 0 ==> wf(A, p, nths(A, p, e, f, i))
  ensures nths(A, p, e, f, i) >= 0 && wf(A, p, e) ==> wf(A, nths(A, p, e, f, i), e) && wf(A, rend(A, nths(A, p, e, f, i), e), e)
  ensures nths(A, p, e, f, i) >= 0 <==> 0 <= i < cnt(A, p, e, f)
  decreases e - p
  proof {
    unfold nths(A, p, e, f, i)  unfold cnt(A, p, e, f)
    if p < e && okrec(A, p, e) && rend(A, p, e) > p {
      use rec_range(A, p, e)
      unfold wf(A, p, e)
      let j = fid(A, p) == f ? i - 1 : i;
      use nth_loc(A, rend(A, p, e), e, f, j)
      use nth_neg(A, rend(A, p, e), e, f, j)
      let s = nths(A, p, e, f, i);
      if s >= 0 {
        unfold wf(A, p, s)
        if s > p { use rec_ext(A, p, e, s) }
      }
    }
  }

// the records after the i-th one
lemma nth_after(A: Arr, p: Int, e: Int, f: Int, i: Int, j: Int)
  requires 0 <= p && nths(A, p, e, f, i) >= 0 && j >= 0
  ensures nths(A, rend(A, nths(A, p, e, f, i), e), e, f, j) == nths(A, p, e, f, i + 1 + j)
  ensures cnt(A, rend(A, nths(A, p, e, f, i), e), e, f) == cnt(A, p, e, f) - i - 1
  decreases e - p
  proof {
    unfold nths(A, p, e, f, i)  unfold cnt(A, p, e, f)  unfold nths(A, p, e, f, i + 1 + j)
    use nth_loc(A, p, e, f, i)
    use rec_range(A, p, e)
    if !(fid(A, p) == f && i == 0) { use nth_after(A, rend(A, p, e), e, f, fid(A, p) == f ? i - 1 : i, j) }
  }

lemma last_nth(A: Arr, p: Int, e: Int, f: Int)
  requires 0 <= p
  ensures lasts(A, p, e, f) == nths(A, p, e, f, cnt(A, p, e, f) - 1)
  decreases e - p
  proof {
    unfold lasts(A, p, e, f)  unfold cnt(A, p, e, f)  unfold nths(A, p, e, f, cnt(A, p, e, f) - 1)
    if p < e && okrec(A, p, e) && rend(A, p, e) > p {
      use rec_range(A, p, e)
      use last_nth(A, rend(A, p, e), e, f)
      use nth_loc(A, rend(A, p, e), e, f, cnt(A, rend(A, p, e), e, f) - 1)
      use nth_neg(A, rend(A, p, e), e, f, 0-1)
    }
  }

lemma first_nth(A: Arr, p: Int, e: Int, f: Int)
  requires 0 <= p
  ensures firsts(A, p, e, f) == nths(A, p, e, f, 0)
  decreases e - p
  proof {
    unfold firsts(A, p, e, f)  unfold nths(A, p, e, f, 0)
    if p < e && okrec(A, p, e) && rend(A, p, e) > p { use rec_range(A, p, e)  use first_nth(A, rend(A, p, e), e, f) }
  }

// where the last and the first record of a field are
lemma last_loc(A: Arr, p: Int, e: Int, f: Int)
  requires 0 <= p
  ensures lasts(A, p, e, f) == 0-1 || p <= lasts(A, p, e, f) < e
  ensures lasts(A, p, e, f) >= 0 ==> okrec(A, lasts(A, p, e, f), e) && fid(A, lasts(A, p, e, f)) == f && rend(A, lasts(A, p, e, f), e) <= e && us(A, lasts(A, p, e, f), e) > 0
  ensures lasts(A, p, e, f) >= 0 ==> wf(A, p, lasts(A, p, e, f))
  ensures lasts(A, p, e, f) >= 0 && wf(A, p, e) ==> wf(A, lasts(A, p, e, f), e) && wf(A, rend(A, lasts(A, p, e, f), e), e)
  proof { use last_nth(A, p, e, f)  use nth_loc(A, p, e, f, cnt(A, p, e, f) - 1)  unfold okrec(A, lasts(A, p, e, f), e) }

lemma first_loc(A: Arr, p: Int, e: Int, f: Int)
  requires 0 <= p
  ensures firsts(A, p, e, f) == 0-1 || p <= firsts(A, p, e, f) < e
  ensures firsts(A, p, e, f) >= 0 ==> okrec(A, firsts(A, p, e, f), e) && fid(A, firsts(A, p, e, f)) == f && rend(A, firsts(A, p, e, f), e) <= e && us(A, firsts(A, p, e, f), e) > 0
  ensures firsts(A, p, e, f) >= 0 ==> wf(A, p, firsts(A, p, e, f))
  ensures firsts(A, p, e, f) >= 0 && wf(A, p, e) ==> wf(A, firsts(A, p, e, f), e) && wf(A, rend(A, firsts(A, p, e, f), e), e)
  proof { use first_nth(A, p, e, f)  use nth_loc(A, p, e, f, 0)  unfold okrec(A, firsts(A, p, e, f), e) }

// splitting at a record boundary
lemma cat(A: Arr, p: Int, q: Int, e: Int, f: Int, i: Int)
  requires 0 <= p <= q <= e && wf(A, p, q)
  ensures wf(A, p, e) <==> wf(A, q, e)
  ensures cnt(A, p, e, f) == cnt(A, p, q, f) + cnt(A, q, e, f)
  ensures nths(A, p, e, f, i) == (i < cnt(A, p, q, f) ? nths(A, p, q, f, i) : nths(A, q, e, f, i - cnt(A, p, q, f)))
  ensures lasts(A, p, e, f) == (lasts(A, q, e, f) >= 0 ? lasts(A, q, e, f) : lasts(A, p, q, f))
  ensures firsts(A, p, e, f) == (firsts(A, p, q, f) >= 0 ? firsts(A, p, q, f) : firsts(A, q, e, f))
  decreases q - p
  proof {
    use nth_neg(A, q, e, f, i)
    use last_nth(A, q, e, f)
    use nth_loc(A, q, e, f, cnt(A, q, e, f) - 1)
    unfold wf(A, p, q)  unfold cnt(A, p, q, f)  unfold nths(A, p, q, f, i)  unfold lasts(A, p, q, f)  unfold firsts(A, p, q, f)
    if p < q {
      use rec_range(A, p, q)
      use rec_ext(A, p, q, e)
      unfold wf(A, p, e)  unfold cnt(A, p, e, f)  unfold nths(A, p, e, f, i)  unfold lasts(A, p, e, f)  unfold firsts(A, p, e, f)
      use cat(A, rend(A, p, q), q, e, f, fid(A, p) == f ? i - 1 : i)
    }
  }

// moving a message
lemma mov(A: Arr, p: Int, e: Int, B: Arr, q: Int, f: Int, i: Int)
  requires 0 <= p <= e && 0 <= q && wf(A, p, e) && eqb(A, p, B, q, e - p)
  ensures wf(B, q, q + (e - p))
  ensures cnt(B, q, q + (e - p), f) == cnt(A, p, e, f)
  ensures nths(B, q, q + (e - p), f, i) == (nths(A, p, e, f, i) < 0 ? 0-1 : nths(A, p, e, f, i) - p + q)
  ensures lasts(B, q, q + (e - p), f) == (lasts(A, p, e, f) < 0 ? 0-1 : lasts(A, p, e, f) - p + q)
  ensures firsts(B, q, q + (e - p), f) == (firsts(A, p, e, f) < 0 ? 0-1 : firsts(A, p, e, f) - p + q)
  decreases e - p
  proof {
    unfold wf(A, p, e)  unfold cnt(A, p, e, f)  unfold nths(A, p, e, f, i)  unfold lasts(A, p, e, f)  unfold firsts(A, p, e, f)
    unfold wf(B, q, q + (e - p))  unfold cnt(B, q, q + (e - p), f)  unfold nths(B, q, q + (e - p), f, i)  unfold lasts(B, q, q + (e - p), f)  unfold firsts(B, q, q + (e - p), f)
    if p < e {
      use rec_range(A, p, e)
      assert eqb(A, p, B, q, rend(A, p, e) - p);
      use rec_move(A, p, e, B, q, q + (e - p))
      assert eqb(A, rend(A, p, e), B, q + (rend(A, p, e) - p), e - rend(A, p, e));
      use mov(A, rend(A, p, e), e, B, q + (rend(A, p, e) - p), f, fid(A, p) == f ? i - 1 : i)
      use last_nth(A, rend(A, p, e), e, f)
      use nth_loc(A, rend(A, p, e), e, f, cnt(A, rend(A, p, e), e, f) - 1)
    }
  }

// a message of one record
lemma one(A: Arr, p: Int, e: Int, f: Int, i: Int)
  requires 0 <= p && okrec(A, p, e) && rend(A, p, e) == e
  ensures wf(A, p, e)
  ensures cnt(A, p, e, f) == (fid(A, p) == f ? 1 : 0)
  ensures nths(A, p, e, f, i) == (fid(A, p) == f && i == 0 ? p : 0-1)
  ensures lasts(A, p, e, f) == (fid(A, p) == f ? p : 0-1)
  ensures firsts(A, p, e, f) == (fid(A, p) == f ? p : 0-1)
  proof {
    use rec_range(A, p, e)
    unfold wf(A, p, e)  unfold cnt(A, p, e, f)  unfold nths(A, p, e, f, i)  unfold lasts(A, p, e, f)  unfold firsts(A, p, e, f)
    unfold wf(A, e, e)  unfold cnt(A, e, e, f)  unfold nths(A, e, e, f, i)  unfold nths(A, e, e, f, i - 1)  unfold lasts(A, e, e, f)  unfold firsts(A, e, e, f)
  }

lemma nil_msg(A: Arr, p: Int, f: Int, i: Int)
  ensures wf(A, p, p) && cnt(A, p, p, f) == 0 && nths(A, p, p, f, i) == 0-1 && lasts(A, p, p, f) == 0-1 && firsts(A, p, p, f) == 0-1
  proof { unfold wf(A, p, p)  unfold cnt(A, p, p, f)  unfold nths(A, p, p, f, i)  unfold lasts(A, p, p, f)  unfold firsts(A, p, p, f) }
