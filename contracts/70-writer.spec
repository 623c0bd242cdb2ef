// The text writer (property C15). Strings are SMT strings here; ghost(out)[w]
// is everything passed to the writer w so far.

// the string made of M[b][o:o+n)
def bytestr(A: Arr, o: Int, n: Int): Str = n == 0 ? "" : strof(A, o, n)
uninterp itoa_(n: Int): Str
uninterp stringer(h: Int): Str
rec repeat(s: Str, n: Int): Str decreases n = n <= 0 ? "" : repeat(s, n - 1) + s

extern strconv.Itoa(n)(s)
  note "strconv.Itoa(n) is the decimal text of n"
  strings on
  ensures s == itoa_(n)

extern strconv.FormatInt(n, base)(s)
  note "strconv.FormatInt(n, 10) is the decimal text of n"
  strings on
  requires base == 10
  ensures s == itoa_(n)

extern strings.Repeat(s, n)(r)
  note "strings.Repeat(s, n) is n copies of s; it panics only if n is negative or the length overflows"
  requires count: n >= 0 && strlen(s) * n <= 1125899906842624
  modifies fresh
  ensures r == repeat(s, n)

extern fmt.Stringer.String(x)(s)
  note "String is a function of the value and changes nothing"
  ensures s == stringer(x)

extern fmt.Sprintf(format, args)(s)
  note "returns some string and changes nothing"
  modifies fresh

// What a writer does with the bytes, and whether it fails, is arbitrary.
extern io.Writer.Write(w, p)(n, err)
  note "an io.Writer does not modify the bytes, does not touch the text writer, and a *strings.Builder or *bytes.Buffer never fails"
  modifies ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures passed: ghost(out) == store(old(ghost(out)), w, old(ghost(out))[w] + bytestr(arr(p), p.off, p.len))
  ensures errors: ghost(nfail) == store(old(ghost(nfail)), w, old(ghost(nfail))[w] + (err == nil ? 0 : 1))
  ensures last_error: err != nil ==> ghost(lasterr)[w] == err && ghost(lastout)[w] == ghost(out)[w]
  ensures no_error: err == nil ==> ghost(lasterr) == old(ghost(lasterr)) && ghost(lastout) == old(ghost(lastout))
  ensures builder: reliable(w) ==> err == nil

extern io.WriteString(w, p)(n, err)
  note "io.WriteString passes the string to the writer once"
  modifies ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures passed: ghost(out) == store(old(ghost(out)), w, old(ghost(out))[w] + p)
  ensures errors: ghost(nfail) == store(old(ghost(nfail)), w, old(ghost(nfail))[w] + (err == nil ? 0 : 1))
  ensures last_error: err != nil ==> ghost(lasterr)[w] == err && ghost(lastout)[w] == ghost(out)[w]
  ensures no_error: err == nil ==> ghost(lasterr) == old(ghost(lasterr)) && ghost(lastout) == old(ghost(lastout))
  ensures builder: reliable(w) ==> err == nil

// supported argument h; its text, for the indent string s and byte memory M
def isindent(h: Int): Bool = typeof(h) == tcode("generate.StringTreeIndent")
def isbytes(h: Int): Bool = typeof(h) == tcode("[]byte")
def isstr(h: Int): Bool = typeof(h) == tcode("string")
def isnum(h: Int): Bool = typeof(h) == tcode("int32")
def argok(h: Int, s: Str, n: Int): Bool = h > 0 && argok2(h, s, n)
def argok2(h: Int, s: Str, n: Int): Bool =
  isindent(h) ? unboxas(h, "generate.StringTreeIndent") >= 0 && strlen(s) * unboxas(h, "generate.StringTreeIndent") <= 1125899906842624 :
  isbytes(h) ? (let b = unboxas(h, "[]byte"); b.base < n) : isstr(h) || isnum(h)
def text(h: Int, s: Str, M: H): Str =
  isindent(h) ? repeat(s, unboxas(h, "generate.StringTreeIndent")) :
  isbytes(h) ? (let b = unboxas(h, "[]byte"); bytestr(M[b.base], b.off, b.len)) :
  isstr(h) ? unboxas(h, "string") : itoa_(unboxas(h, "int32"))
// the arguments A[p:e)
rec texts(A: Arr, p: Int, e: Int, s: Str, M: H): Str decreases e - p = e <= p ? "" : texts(A, p, e - 1, s, M) + text(A[e-1], s, M)
// the arguments A[q:e) extend those of A[p:q)
lemma texts_prefix(A: Arr, p: Int, q: Int, e: Int, s: Str, M: H)
  tags C15
  requires p <= q && q <= e
  ensures prefixof(texts(A, p, q, s, M), texts(A, p, e, s, M))
  decreases e - q
  proof { unfold texts(A, p, e, s, M)  if q < e { use texts_prefix(A, p, q, e - 1, s, M) } }

fieldalias "generate.StringTree" w "io.Writer"
fieldalias "generate.StringTree" indent "string"
fieldalias "generate.StringTree" err "error"

contract "generate.NewStringTree"(w, indent)(st)
  tags C15
  strings on
  modifies fresh
  ensures made: st != nil && st >= old(next) && st.w == w && st.indent == indent
  ensures no_error_yet: st.err == nil

contract "generate.StringTreeIndent.Next"(i)(r)
  tags C15
  strings on
  requires room: i < 1125899906842624
  ensures one_more: r == i + 1

contract "generate.StringTree.Error"(st)(r)
  tags C15
  strings on
  requires tree: st != nil
  ensures first_error: r == st.err

contract "generate.StringTree.Write"(st, args)
  tags C15
  strings on
  let w = st.w
  let s = st.indent
  let o0 = ghost(out)[w]
  let A = arr(args)
  let M = mem8()
  requires tree: st != nil
  requires supported: forall k: Int :: { arr(args)[k] } args.off <= k < args.end ==> argok(arr(args)[k], st.indent, next)
  modifies st.err, ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  loopinv [i: ModInt] written: old(st.err) == nil ==> ghost(out)[w] == o0 + texts(A, args.off, args.off + i, s, M)
    using { unfold texts(A, args.off, args.off + i, s, M) }
  loopinv [i: ModInt] progress: 0 <= i && i <= args.len
  loopinv one_writer: ghost(out) == store(old(ghost(out)), w, ghost(out)[w])
  loopinv no_failure: st.err == nil ==> ghost(nfail)[w] == old(ghost(nfail))[w]
  loopinv running: old(st.err) == nil ==> st.err == nil
  loopinv failure: old(st.err) == nil && st.err != nil ==> ghost(nfail)[w] == old(ghost(nfail))[w] + 1 && ghost(lasterr)[w] == st.err && ghost(lastout)[w] == ghost(out)[w]
  loopinv stuck: old(st.err) != nil ==> st.err == old(st.err) && ghost(out) == old(ghost(out)) && ghost(nfail) == old(ghost(nfail))
  loopinv builder: reliable(w) && old(st.err) == nil ==> st.err == nil
  ensures written: reliable(w) && old(st.err) == nil ==> st.err == nil && ghost(out) == store(old(ghost(out)), w, o0 + texts(A, args.off, args.end, s, M))
  ensures all_in_order: old(st.err) == nil && st.err == nil ==> ghost(out)[w] == o0 + texts(A, args.off, args.end, s, M) && ghost(nfail)[w] == old(ghost(nfail))[w]
  ensures stops_at_error: old(st.err) == nil && st.err != nil ==> prefixof(ghost(out)[w], o0 + texts(A, args.off, args.end, s, M)) && ghost(lastout)[w] == ghost(out)[w]
    using { forall q: Int :: { texts(A, args.off, q, s, M) } { use texts_prefix(A, args.off, q, args.end, s, M) }
      forall q: Int :: { texts(A, args.off, q, s, M), A[q] } { unfold texts(A, args.off, q + 1, s, M) } }
  ensures reports_it: old(st.err) == nil && st.err != nil ==> ghost(nfail)[w] == old(ghost(nfail))[w] + 1 && ghost(lasterr)[w] == st.err
  ensures nothing_after_error: old(st.err) != nil ==> st.err == old(st.err) && ghost(out) == old(ghost(out)) && ghost(nfail) == old(ghost(nfail))
  ensures only_this_writer: ghost(out) == store(old(ghost(out)), w, ghost(out)[w])
  ensures builder: reliable(w) && old(st.err) == nil ==> st.err == nil
