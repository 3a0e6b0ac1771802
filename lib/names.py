"""Generator of files whose imports and scopes vary, for checks of name resolution."""
# path -> (natural name, harmless use of a member, {function: arguments})
R = {
 "crypto/md5": ("md5", "var _ = %sBlockSize", {"New": "", "Sum": "nil"}),
 "crypto/sha1": ("sha1", "var _ = %sBlockSize", {"New": "", "Sum": "nil"}),
 "crypto/des": ("des", "var _ = %sBlockSize", {"NewCipher": "nil", "NewTripleDESCipher": "nil"}),
 "crypto/rc4": ("rc4", "var _ %sKeySizeError", {"NewCipher": "nil"}),
 "golang.org/x/crypto/md4": ("md4", "var _ = %sBlockSize", {"New": ""}),
 "golang.org/x/crypto/ripemd160": ("ripemd160", "var _ = %sBlockSize", {"New": ""}),
 "math/rand": ("rand", "var _ %sSource", {"New": "nil", "Read": "nil", "Float32": "", "Float64": "", "Int": "", "Int31": "", "Int31n": "3", "Int63": "", "Int63n": "3", "Intn": "3", "NormFloat64": "", "Uint32": "", "Uint64": ""}),
 "math/rand/v2": ("rand", "var _ %sSource", {"New": "nil", "Float32": "", "Float64": "", "Int": "", "Int32": "", "Int32N": "3", "Int64": "", "Int64N": "3", "IntN": "3", "N": "3", "NormFloat64": "", "Uint32": "", "Uint32N": "3", "Uint64": "", "Uint64N": "3", "UintN": "3"}),
 "unsafe": ("unsafe", "var _ %sPointer", {"Pointer": "new(int)", "String": "zb, 0", "StringData": '"x"', "Slice": "zb, 1", "SliceData": "[]byte{1}"}),
 "golang.org/x/crypto/ssh": ("ssh", "var _ %sSigner", {"InsecureIgnoreHostKey": ""}),
 "net/http": ("http", "var _ %sHeader", {"ListenAndServe": '":1", nil', "ListenAndServeTLS": '":1", "a", "b", nil', "Serve": "nil, nil", "ServeTLS": 'nil, nil, "a", "b"'}),
}
# packages which merely share a name or a function
OTHER = {
 "crypto/sha256": ("sha256", "var _ = %sBlockSize", {"New": ""}),
 "crypto/rand": ("rand", "var _ = %sReader", {"Read": "nil"}),
 "net/http/cgi": ("cgi", "var _ %sHandler", {}),
 "net/http/pprof": ("pprof", "var _ = %sIndex", {}),
 "fmt": ("fmt", "var _ %sStringer", {}),
 "hash": ("hash", "var _ %sHash", {}),
 "net/rpc": ("rpc", "var _ %sCall", {}),
}
ALLFN = sorted({f for v in R.values() for f in v[2]} | {"Server"})
FNS = [f for f in ALLFN if f != "Server"]

def decoy(mod, kind, nat):
    """(import path, package name, file text) of a look-alike"""
    path, name = {0: ("d0/" + nat, nat), 1: ("d1/%s2" % nat, nat), 2: ("d2/" + nat, "zz" + nat),
                  3: ("d3/%s/v2" % nat, nat), 4: ("d4/%s/conv2" % nat, "conv2"), 5: ("d5/crypto/" + nat, nat)}[kind]
    src = "package %s\n\nconst BlockSize = 1\n\ntype (\n\tSource any\n\tKeySizeError int\n\tSigner any\n\tHeader map[string]string\n\tServer struct{ Addr string; ReadHeaderTimeout, ReadTimeout int }\n)\n\n" % name
    fns = [f for f in FNS if not (nat == "unsafe" and f == "Pointer")]
    if nat == "unsafe":
        src += "type Pointer any\n\n"
    src += "".join("func %s(a ...any) int { return 0 }\n" % f for f in fns)
    return "%s/%s" % (mod, path), name, path, src

HELP = """package %s

type zloc struct{}
type zint int
type zif interface {
%s}

var (
	zb  *byte
	zch chan int
	zx  struct{ f int }
	zarr [4]int
)

func zuse(a ...any) int { return 0 }
func zmk() zloc { return zloc{} }
func zid[T any](x T) T { return x }
func zvar(f any, a ...any) int { return 0 }
""" 
def helper(pkg):
    t = HELP % (pkg, "".join("\t%s(a ...any) int\n" % f for f in FNS))
    t += "".join("func (zloc) %s(a ...any) int { return 0 }\nfunc (zint) %s(a ...any) int { return 0 }\n" % (f, f) for f in FNS)
    return t

# places an expression U of type int can stand in
POS = ["_ = U", "if U > 0 { _ = 1 }", "for zi := U; zi < 0; zi++ { }", "for zarr[0] < U { break }", "switch U { default: }", "switch { case U == 1: }",
       "switch zarr[0] { case 1, U: }", "_ = []int{1, U}", "_ = map[int]int{1: U}", "_ = map[int]int{U: 1}", "_ = struct{ a int }{a: U}", "_ = zarr[U&0]", "zarr[U&0]++", "_ = zarr[U&1:]",
       "func() { _ = U }()", "defer func(x int) {}(U)", "go func(x int) {}(U)", "select { case zch <- U: default: }", "{ var zv = U; _ = zv }", "zx.f = U", "_ = -U + 1", "_ = 1 + (U)",
       "_ = any(U).(int)", "_ = func() int { return U }", "for range []int{U} { }", "_, _ = 1, U", "_ = 1 << (U & 3)", "if zi := U; zi > 0 { _ = zi }", "if zarr[0] > 0 { } else if U > 0 { }",
       "zarr[0] += U", "zch = make(chan int, U)", "_ = zarr[0] > 0 && U > 0", "{ _ = U }", "switch zi := any(U).(type) { default: _ = zi }", "_ = zid(U)", "_ = zid[int](U)", "_ = [...]int{2: U}",
       "_ = &[]int{U}", "_ = float64(U)", "_ = func(x ...int) int { return 0 }([]int{U}...)", "for _, zi := range []int{U} { _ = zi }", "if !(U == 1) { }", "_ = *zid(&[]int{U})", "func() { defer func() { _ = U }() }()"]
