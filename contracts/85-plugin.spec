// The plugin commands (property C14): what they read, write and exit with.
// ghost(bad) is nonzero once the input could not be read or parsed;
// ghost(parsed) is the text that was parsed, into the request at ghost(parsedto);
// ghost(encoded) is the encoding of the response at ghost(encodedof).
// ghost(out)[f] is everything written to f.

uninterp stdin(): Str
def stderr(): Int = box(global("os.Stderr"), "*os.File")

extern ioutil.ReadAll(r)(b, err)
  note "ReadAll(os.Stdin) gives the whole standard input, or an error"
  modifies ghost(bad), fresh
  ensures bytes: err == nil ==> b.base < next && (r == box(global("os.Stdin"), "*os.File") ==> bytestr(arr(b), b.off, b.len) == stdin()) && ghost(bad) == old(ghost(bad))
  ensures failed: err != nil ==> ghost(bad) != 0

extern io.ReadAll(r)(b, err)
  note "ReadAll(os.Stdin) gives the whole standard input, or an error"
  modifies ghost(bad), fresh
  ensures bytes: err == nil ==> b.base < next && (r == box(global("os.Stdin"), "*os.File") ==> bytestr(arr(b), b.off, b.len) == stdin()) && ghost(bad) == old(ghost(bad))
  ensures failed: err != nil ==> ghost(bad) != 0

extern proto.Unmarshal(b, m)(err)
  note "proto.Unmarshal fills in the request or reports an error; the schema of a parsed request is supported by the generator"
  strings on
  requires request: typeof(m) == tcode("*generate.CodeGeneratorRequest") && unboxas(m, "*generate.CodeGeneratorRequest") != nil
  requires once: ghost(parsedto) == 0
  modifies *unboxas(m, "*generate.CodeGeneratorRequest"), ghost(bad), ghost(parsed), ghost(parsedto), ghost(top), fresh
  ensures parsed: err == nil ==> ghost(bad) == old(ghost(bad)) && ghost(parsed) == bytestr(arr(b), b.off, b.len) && ghost(parsedto) == unboxas(m, "*generate.CodeGeneratorRequest")
  ensures schema: err == nil ==> ghost(top) <= next && wellformed(unboxas(m, "*generate.CodeGeneratorRequest"), ghost(top)) && newbuilders(next)
  ensures failed: err != nil ==> ghost(bad) != 0

extern proto.Marshal(m)(b, err)
  note "proto.Marshal encodes the response or reports an error"
  modifies ghost(encoded), ghost(encodedof), fresh
  ensures bytes: err == nil ==> b.base < next && bytestr(arr(b), b.off, b.len) == ghost(encoded) && ghost(encodedof) == unboxas(m, "*generate.CodeGeneratorResponse") && typeof(m) == tcode("*generate.CodeGeneratorResponse")

extern proto.MarshalText(w, m)(err)
  note "proto.MarshalText writes to w only"
  modifies ghost(out), fresh
  ensures only_w: ghost(out) == store(old(ghost(out)), w, ghost(out)[w])

extern os.File.Write(f, b)(n, err)
  note "a write to a file that reports no error wrote all the bytes; it writes to that file only"
  modifies ghost(out)
  ensures only_f: ghost(out) == store(old(ghost(out)), box(f, "*os.File"), ghost(out)[box(f, "*os.File")])
  ensures all: err == nil ==> ghost(out)[box(f, "*os.File")] == old(ghost(out))[box(f, "*os.File")] + bytestr(arr(b), b.off, b.len)

extern fmt.Fprintf(w, format, args)(n, err)
  note "fmt.Fprintf writes to w only"
  modifies ghost(out), fresh
  ensures only_w: ghost(out) == store(old(ghost(out)), w, ghost(out)[w])

extern fmt.Fprintln(w, args)(n, err)
  note "fmt.Fprintln writes to w only"
  modifies ghost(out), fresh
  ensures only_w: ghost(out) == store(old(ghost(out)), w, ghost(out)[w])

extern fmt.Fprint(w, args)(n, err)
  note "fmt.Fprint writes to w only"
  modifies ghost(out), fresh
  ensures only_w: ghost(out) == store(old(ghost(out)), w, ghost(out)[w])

// the response to the standard input is on the standard output, and nothing else
def answeredreq(q: Int, f: Int): Bool =
  let req = ptr(q, "generate.CodeGeneratorRequest");
  let res = ptr(f, "generate.CodeGeneratorResponse");
  let S = reqset(arr(req.FileToGenerate), req.FileToGenerate.off, req.FileToGenerate.end);
  let A = arr(req.ProtoFile);
  let lo = req.ProtoFile.off;
  let hi = req.ProtoFile.end;
  res != nil && res.File.len == nsel(S, A, lo, hi) &&
  (forall k: Int :: { A[k] } lo <= k < hi && selected(S, A[k]) ==> answers(arr(res.File)[res.File.off + nsel(S, A, lo, k)], A[k]))
def responded(): Bool = ghost(bad) == 0 && ghost(parsedto) != 0 && ghost(parsed) == stdin() && ghost(out)[stdout()] == ghost(encoded) && answeredreq(ghost(parsedto), ghost(encodedof))
def silent(): Bool = ghost(out)[stdout()] == ""

extern os.Exit(code)
  note "os.Exit ends the process"
  strings on
  requires failure_status: ghost(bad) != 0 ==> code != 0 && silent()
  ensures false

def fresh_process(): Bool = ghost(bad) == 0 && ghost(parsedto) == 0 && silent() && global("os.Stdout") != nil && global("os.Stderr") != nil && global("os.Stdout") != global("os.Stderr")

contract "protoc-gen-zeropb.run"()(err)
  tags C14
  strings on
  requires process: fresh_process()
  modifies ghost(bad), ghost(parsed), ghost(parsedto), ghost(encoded), ghost(encodedof), ghost(top), ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures bad_input: ghost(bad) != 0 ==> err != nil && silent()
  ensures response: err == nil ==> responded()

contract "protoc-gen-zeropb.main"()
  tags C14
  strings on
  requires process: fresh_process()
  modifies ghost(bad), ghost(parsed), ghost(parsedto), ghost(encoded), ghost(encodedof), ghost(top), ghost(out), ghost(nfail), ghost(lasterr), ghost(lastout), fresh
  ensures response: responded()

contract "protoc-gen-text.run"()(err)
  tags C14
  strings on
  requires process: fresh_process()
  modifies ghost(bad), ghost(parsed), ghost(parsedto), ghost(top), ghost(out), fresh
  ensures bad_input: ghost(bad) != 0 ==> err != nil
  ensures no_response: silent()

contract "protoc-gen-text.main"()
  tags C14
  strings on
  requires process: fresh_process()
  modifies ghost(bad), ghost(parsed), ghost(parsedto), ghost(top), ghost(out), fresh
  ensures good_input: ghost(bad) == 0
