// encoding/binary and bytes, verified from the source in GOROOT.

def wfarr(A: Arr): Bool = forall y: Int :: { A[y] } 0 <= A[y] < 256

// zig-zag
def zz(x: Int): Int = x >= 0 ? 2 * x : 0 - 2 * x - 1
def unzz(u: Int): Int = u % 2 == 0 ? u / 2 : 0 - u / 2 - 1
// little-endian integers
opaque def le32(A: Arr, o: Int): Int = A[o] + 256 * A[o+1] + 65536 * A[o+2] + 16777216 * A[o+3]
opaque def le64(A: Arr, o: Int): Int = A[o] + 256 * A[o+1] + 65536 * A[o+2] + 16777216 * A[o+3] + 4294967296 * A[o+4] + 1099511627776 * A[o+5] + 281474976710656 * A[o+6] + 72057594037927936 * A[o+7]

lemma le_move(A: Arr, o: Int, B: Arr, q: Int)
  ensures eqb(A, o, B, q, 4) ==> le32(B, q) == le32(A, o)
  ensures eqb(A, o, B, q, 8) ==> le64(B, q) == le64(A, o)
  proof { unfold le32(A, o)  unfold le32(B, q)  unfold le64(A, o)  unfold le64(B, q)
    if eqb(A, o, B, q, 4) { assert A[o] == B[q] && A[o+1] == B[q+1] && A[o+2] == B[q+2] && A[o+3] == B[q+3]; }
    if eqb(A, o, B, q, 8) { assert A[o] == B[q] && A[o+1] == B[q+1] && A[o+2] == B[q+2] && A[o+3] == B[q+3] && A[o+4] == B[q+4] && A[o+5] == B[q+5] && A[o+6] == B[q+6] && A[o+7] == B[q+7]; }
  }

contract binary.Uvarint(buf)(v, n)
  tags C01 C02 C07
  unroll 11
  ensures size: n == us(arr(buf), buf.off, buf.end)
  ensures value: n > 0 ==> v == uval(arr(buf), buf.off)
  ensures bad: n <= 0 ==> v == 0
  exit { unfold us(arr(buf), buf.off, buf.end)  unfold uval(arr(buf), buf.off) }

contract binary.Varint(buf)(v, n)
  tags C02
  ensures size: n == us(arr(buf), buf.off, buf.end)
  ensures value: n > 0 ==> v == unzz(uval(arr(buf), buf.off))

contract binary.PutUvarint(buf, x)(n)
  tags C03 C04 C05 C06
  unroll 10
  requires room: vlen(x) <= buf.len
  modifies elems(buf)
  ensures minimal: n == vlen(x) && isvar(arr(buf), buf.off, x)
  ensures rest: forall y: Int :: { arr(buf)[y] } y < buf.off || y >= buf.off + n ==> arr(buf)[y] == old(arr(buf))[y]
  entry { unfold vlen(x) }
  exit { unfold vlen(x)  unfold us(arr(buf), buf.off, buf.off + vlen(x))  unfold uval(arr(buf), buf.off) }

contract binary.PutVarint(buf, x)(n)
  tags C03 C04 C05 C06
  requires room: vlen(zz(x)) <= buf.len
  modifies elems(buf)
  ensures minimal: n == vlen(zz(x)) && isvar(arr(buf), buf.off, zz(x))
  ensures rest: forall y: Int :: { arr(buf)[y] } y < buf.off || y >= buf.off + n ==> arr(buf)[y] == old(arr(buf))[y]

contract "binary.littleEndian.Uint32"(e, b)(v)
  tags C02
  requires size: b.len >= 4
  ensures value: v == le32(arr(b), b.off)
  exit { unfold le32(arr(b), b.off) }

contract "binary.littleEndian.Uint64"(e, b)(v)
  tags C02
  requires size: b.len >= 8
  ensures value: v == le64(arr(b), b.off)
  exit { unfold le64(arr(b), b.off) }

contract "binary.littleEndian.PutUint32"(e, b, v)
  tags C03 C04 C05 C06
  requires size: b.len >= 4
  modifies elems(b)
  ensures value: le32(arr(b), b.off) == v
  ensures rest: forall y: Int :: { arr(b)[y] } y < b.off || y >= b.off + 4 ==> arr(b)[y] == old(arr(b))[y]
  exit { unfold le32(arr(b), b.off) }

contract "binary.littleEndian.PutUint64"(e, b, v)
  tags C03 C04 C05 C06
  requires size: b.len >= 8
  modifies elems(b)
  ensures value: le64(arr(b), b.off) == v
  ensures rest: forall y: Int :: { arr(b)[y] } y < b.off || y >= b.off + 8 ==> arr(b)[y] == old(arr(b))[y]
  exit { unfold le64(arr(b), b.off) }

contract bytes.Equal(a, b)(r)
  tags C04 C05 C06
  ensures r <==> (a.len == b.len && eqb(arr(a), a.off, arr(b), b.off, a.len))

contract bytes.HasSuffix(s, t)(r)
  tags C04 C05 C06
  ensures r <==> (s.len >= t.len && eqb(arr(s), s.end - t.len, arr(t), t.off, t.len))

extern errors.Errorf(format, args)(err)
  note "github.com/pkg/errors: returns a non-nil error, writes no memory the caller can see"
  modifies fresh
  ensures err != nil
