"""One small file per rule, each with at least one finding of that rule."""
FILES = {}
def f(rule, imports, body, top=""):
    imp = "".join('import %s\n' % (i if i.startswith(("_", ".")) or " " in i else '"%s"' % i) for i in imports)
    FILES[rule] = "package all\n\n%s\n%s\nfunc %s() {\n%s\n}\n" % (imp, top, "F" + rule, body)

f("G101", ["fmt"], 'password := "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"\nfmt.Println(password)')
f("G102", ["net"], 'l, err := net.Listen("tcp", "0.0.0.0:2000")\n_, _ = l, err')
f("G103", ["unsafe"], 'var x int\n_ = unsafe.Pointer(&x)')
f("G104", ["os"], 'os.Remove("x")')
f("G106", ["golang.org/x/crypto/ssh"], '_ = ssh.InsecureIgnoreHostKey()')
f("G107", ["net/http", "os"], 'url := os.Getenv("U")\nr, err := http.Get(url)\n_, _ = r, err')
f("G108", ["_ \"net/http/pprof\""], '')
f("G109", ["strconv"], 'v, err := strconv.Atoi("2147483648")\n_, _ = int32(v), err')
f("G110", ["compress/gzip", "io", "os"], 'r, err := gzip.NewReader(os.Stdin)\n_, err = io.Copy(os.Stdout, r)\n_ = err')
f("G111", ["net/http"], 'http.Handle("/x", http.FileServer(http.Dir("/")))')
f("G112", ["net/http"], 's := &http.Server{Addr: ":1"}\n_ = s')
f("G114", ["net/http"], 'err := http.ListenAndServe(":1", nil)\n_ = err')
f("G115", ["os"], 'n := len(os.Args)\n_ = int8(n)')
f("G201", ["database/sql", "fmt", "os"], 'var db *sql.DB\nq := fmt.Sprintf("SELECT * FROM foo where name = \'%s\'", os.Args[1])\nr, err := db.Query(q)\n_, _ = r, err')
f("G202", ["database/sql", "os"], 'var db *sql.DB\nr, err := db.Query("SELECT * FROM foo WHERE name = " + os.Args[1])\n_, _ = r, err')
f("G203", ["html/template", "os"], '_ = template.HTML(os.Args[1])')
f("G204", ["os", "os/exec"], '_ = exec.Command(os.Args[1])')
f("G301", ["os"], 'err := os.Mkdir("/tmp/mydir", 0777)\n_ = err')
f("G302", ["os"], 'err := os.Chmod("/tmp/somefile", 0777)\n_ = err')
f("G303", ["os"], 'err := os.WriteFile("/tmp/demo2", nil, 0600)\n_ = err')
f("G304", ["os"], 'p := os.Getenv("P")\nb, err := os.ReadFile(p)\n_, _ = b, err')
f("G305", ["archive/zip", "path/filepath"], 'var f *zip.File\np := filepath.Join("x", f.Name)\n_ = p')
f("G306", ["os"], 'err := os.WriteFile("x", nil, 0644)\n_ = err')
f("G307", ["os"], 'h, err := os.Create("x")\n_, _ = h, err')
f("G401", ["crypto/md5"], '_ = md5.New()')
f("G402", ["crypto/tls"], '_ = &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS13}')
f("G403", ["crypto/rand", "crypto/rsa"], 'k, err := rsa.GenerateKey(rand.Reader, 1024)\n_, _ = k, err')
f("G404", ["math/rand"], '_ = rand.Int()')
f("G405", ["crypto/des"], 'c, err := des.NewCipher(nil)\n_, _ = c, err')
f("G406", ["golang.org/x/crypto/md4"], '_ = md4.New()')
f("G407", ["crypto/cipher"], 'var a cipher.AEAD\n_ = a.Seal(nil, []byte("ILoveMyNonce"), []byte("x"), nil)')
f("G501", ["crypto/md5"], '_ = md5.Size')
f("G502", ["crypto/des"], '_ = des.BlockSize')
f("G503", ["crypto/rc4"], 'c, err := rc4.NewCipher(nil)\n_, _ = c, err')
f("G504", ["net/http/cgi"], '_ = cgi.Serve')
f("G505", ["crypto/sha1"], '_ = sha1.Size')
f("G506", ["golang.org/x/crypto/md4"], '_ = md4.Size')
f("G507", ["golang.org/x/crypto/ripemd160"], '_ = ripemd160.Size')
f("G601", [], 'var ps []*int\nfor _, v := range []int{1, 2} {\nps = append(ps, &v)\n}\n_ = ps')
f("G602", [], 's := make([]byte, 4)\n_ = s[:5]')
RULES = sorted(FILES)
REQUIRES = ("golang.org/x/crypto v0.37.0",)
CONF = {"G307": "0o600"}
ENV = {"GOSECGOVERSION": "go1.21.0"}

def files(prefix=""):
    return {prefix + r.lower() + ".go": t for r, t in FILES.items()}
