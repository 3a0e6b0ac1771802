------------------------------- MODULE Robust -------------------------------
(* No source text makes the scanner crash or hang (C23): the course of a     *)
(* scan over a tree of packages some of whose files are faulty.              *)
(* A tree is a sequence of packages, a package a sequence of file kinds:     *)
(*   none    compiles                                                        *)
(*   odd     parses, but holds unusual code which may not type-check         *)
(*   type    parses, but does not type-check                                 *)
(*   missing imports a package which does not exist                          *)
(*   syntax  does not parse beyond its imports                               *)
(*   head    has no readable package clause or imports                       *)
(*   clash   belongs to another package than its neighbours                  *)
(* Each file holds a finding (its canary); each package one which needs the  *)
(* whole package to be compiled.                                             *)
EXTENDS Util, Integers
CONSTANTS Crashes,   \* unusual code can make a rule fail for good
          GivesUp,   \* a package that cannot be loaded ends the scan
          Forgets    \* a file that does not parse takes the findings of the others with it
FileKinds == {"none", "odd", "type", "missing", "syntax", "head", "clash"}
Packages == { <<a>> : a \in FileKinds \ {"clash"} } \cup (FileKinds \ {"clash"}) \X FileKinds
Trees == { <<p, q>> : p \in Packages, q \in {<<"none">>, <<"none", "none">>, <<"odd", "none">>} }
         \cup { <<q, p>> : p \in Packages, q \in {<<"none">>} }
Has(p, ks) == \E i \in DOMAIN p : p[i] \in ks
\* go/build refuses such packages as a whole
Loadable(p) == ~Has(p, {"head", "clash"})
Faulty(p) == Has(p, FileKinds \ {"none", "odd"})
\* files whose canary has to be reported; for a file that does not parse it may be
Must(t) == { <<i, j>> \in (DOMAIN t) \X (1..2) : j \in DOMAIN t[i] /\ Loadable(t[i]) /\ t[i][j] # "syntax" }
\* packages whose second canary has to be reported
MustWhole(t) == { i \in DOMAIN t : ~Has(t[i], FileKinds \ {"none"}) }

VARIABLES tree, at, phase, file, ast, whole, errs
vars == <<tree, at, phase, file, ast, whole, errs>>
Init == /\ tree \in Trees /\ at = 1 /\ phase = "load" /\ file = 1
        /\ ast = {} /\ whole = {} /\ errs = {}
Next_package == IF at = Len(tree) THEN phase' = "report" /\ UNCHANGED <<at, file>>
                ELSE at' = at + 1 /\ phase' = "load" /\ file' = 1
Load == /\ phase = "load"
        /\ errs' = IF Faulty(tree[at]) THEN errs \cup {at} ELSE errs
        /\ IF Loadable(tree[at]) THEN phase' = "files" /\ UNCHANGED <<at, file>>
           ELSE IF GivesUp THEN phase' = "report" /\ UNCHANGED <<at, file>>
           ELSE Next_package
        /\ UNCHANGED <<tree, ast, whole>>
CheckFile == /\ phase = "files" /\ file <= Len(tree[at])
             /\ LET k == tree[at][file] IN
                \/ k = "odd" /\ Crashes /\ phase' = "crashed" /\ UNCHANGED <<ast, file>>
                \/ k # "syntax" /\ ast' = ast \cup {<<at, file>>} /\ file' = file + 1 /\ UNCHANGED phase
                \/ k = "syntax" /\ ast' \in {ast, ast \cup {<<at, file>>}} /\ file' = (IF Forgets THEN 3 ELSE file + 1) /\ UNCHANGED phase
             /\ UNCHANGED <<tree, at, whole, errs>>
Analyze == /\ phase = "files" /\ file > Len(tree[at])
           /\ whole' \in (IF Has(tree[at], FileKinds \ {"none"}) THEN {whole, whole \cup {at}} ELSE {whole \cup {at}})
           /\ Next_package
           /\ UNCHANGED <<tree, ast, errs>>
Report == phase = "report" /\ phase' = "over" /\ UNCHANGED <<tree, at, file, ast, whole, errs>>
Next == Load \/ CheckFile \/ Analyze \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase = "over")
Confined == phase = "over" => /\ Must(tree) \subseteq ast
                              /\ MustWhole(tree) \subseteq whole
                              /\ errs = { i \in DOMAIN tree : Faulty(tree[i]) }

\* unusual calls: what is called, with what, and where the call stands
Sinks == {"os/exec.Command", "os/exec.CommandContext", "syscall.Exec", "syscall.ForkExec", "syscall.StartProcess", "os.Create", "os.Open", "os.OpenFile", "os.ReadFile", "os.WriteFile", "os.Mkdir", "os.MkdirAll", "os.Chmod", "os.Unsetenv",
          "io/ioutil.ReadFile", "io/ioutil.WriteFile", "path.Join", "path/filepath.Join", "path/filepath.Clean", "path/filepath.Rel", "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "net/http.Dir", "net/http.ListenAndServe", "net/http.ListenAndServeTLS", "net/http.Serve",
          "net.Listen", "crypto/tls.Listen", "crypto/rsa.GenerateKey", "compress/gzip.NewReader", "compress/zlib.NewReader", "compress/zlib.NewReaderDict", "compress/lzw.NewReader", "archive/zip.NewReader", "io.Copy", "io.CopyBuffer", "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint",
          "fmt.Sprintf", "fmt.Sprint", "fmt.Fprintf", "fmt.Println", "html/template.HTML", "html/template.JS", "html/template.URL", "math/rand.Int", "math/rand.New", "math/rand/v2.IntN", "crypto/cipher.NewCTR", "crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewGCM", "crypto/md5.New", "crypto/sha1.Sum", "crypto/des.NewCipher", "crypto/rc4.NewCipher",
          "os.TempDir", "unsafe.Pointer", "unsafe.String", "unsafe.Slice", "golang.org/x/crypto/ssh.InsecureIgnoreHostKey",
          "db.Query", "db.Exec", "db.QueryRowContext", "tx.Prepare", "tx.ExecContext", "aead.Seal", "zf.Open", "buf.Write", "cl.Do", "cl.Get",
          "int8", "uint32", "int64", "string", "new", "append", "make", "len", "copy", "panic"}
Arguments == {"none", "local", "literal", "param", "package", "other", "undefined", "several", "spread", "spreadlit", "nil", "closure", "composite", "concat", "concat3", "badsel", "index", "deref", "paren", "type", "typeexpr", "builtin", "blank", "huge", "negative", "convert", "pkgname", "generic",
              "methodvalue", "join", "joinjoin", "tempdir", "sprintf", "address", "receive", "assert", "many", "ctx", "ctxseveral", "ctxparam", "pair", "argsindex", "getenv", "select", "struct", "recursive", "rune", "float", "imaginary", "raw", "unicode"}
Forms == {"stmt", "assign", "assign2", "assign3", "blank", "blank2", "argument", "go", "defer", "closure", "package", "paren", "sel", "index", "call", "lhs", "range", "switch", "cond", "complit", "key", "star", "neg", "bin", "send", "convert", "opassign", "multi", "valuespec", "const", "credentials", "credentials2", "credcompare", "generic",
          "exec", "create", "query", "copy", "narrow", "cipher", "make", "flowexec", "flowopen", "flowquery", "flowcopy", "flownarrow", "flowcipher", "flowget", "flowslice", "labelled", "method", "iife", "paramdefault"}
Styles == {"plain", "alias", "dot", "shadow"}
\* code which compiles: what is called (with values of the right types), how one of the values is come by, and where the call stands
TypedSinks == {"os/exec.Command", "os/exec.CommandContext", "syscall.Exec", "syscall.ForkExec", "syscall.StartProcess", "os.StartProcess", "os.Create", "os.Open", "os.OpenFile", "os.ReadFile", "os.WriteFile", "os.Mkdir", "os.MkdirAll", "os.Chmod", "os.CreateTemp", "io/ioutil.ReadFile", "io/ioutil.WriteFile", "io/ioutil.TempFile",
               "path/filepath.Join", "path/filepath.Clean", "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.NewRequest", "net/http.Dir", "net/http.ListenAndServe", "net/http.Serve", "net.Listen", "crypto/tls.Listen", "crypto/rsa.GenerateKey", "compress/gzip.NewReader", "compress/zlib.NewReaderDict", "archive/zip.NewReader",
               "io.Copy", "io.CopyBuffer", "io.CopyN", "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "fmt.Sprintf", "fmt.Fprintf", "html/template.HTML", "html/template.URL", "crypto/cipher.NewCTR", "crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewOFB", "crypto/rand.Read", "io.ReadFull", "math/big.NewInt", "unsafe.String", "unsafe.Slice",
               "db.Query", "db.ExecContext", "tx.Prepare", "tx.QueryRow", "aead.Seal", "zf.Open", "zr.Open", "cl.Do", "cl.Get", "sb.WriteString", "big.SetString", "rat.SetString", "os.Remove", "tlsconf", "server", "index", "slice", "slice3", "subslice", "makeslice", "makecap", "int8", "int16", "uint8", "uint32", "int32", "uint64", "byteloop", "len", "append", "copy", "nonceparam", "sliceparam", "compare", "secret", "address", "sizes"}
TypedBases == {"global", "pointer", "local", "param", "result", "new", "literal", "embedded", "captured", "element", "map", "generic"}
TypedAccesses == {"field", "deref", "elem", "elemn", "mapelem", "receive", "call", "assert", "interface", "method", "array", "arrayn", "gid", "gidx", "struct", "slicelit", "arraylit", "maplit", "closure", "closureparam", "convert", "paren", "methodexpr", "methodvalue", "zero", "named", "twice", "minmax", "defer",
                  "phi", "loopphi", "okmap", "multi", "rangevalue", "select", "typeswitch", "modified", "addressed", "insideclosure", "shadow", "swap", "arraycopy", "labelled", "constant", "nilvalue", "reassigned", "structvar", "copyvar", "recursive", "goroutine", "sliced", "ownfunction"}
TypedPlaces == {"function", "method", "pointermethod", "go", "defer", "closure", "deferclosure", "package", "init", "generic", "genericmethod", "switch", "case", "select", "loop", "range", "if", "else", "label", "nested", "return", "arguments", "composite", "rangefunc"}
\* declarations: form, number of names, number of values, which name looks like that of a credential (0: none), what the values are
Declared == { <<f, n, m, k, v>> : f \in {"package", "packagetyped", "local", "localtyped", "const", "localconst", "define", "assign", "assignother", "opassign", "range", "ifinit", "switchinit", "forinit", "selectrecv", "params", "results", "return", "structtype", "call", "group", "receive"},
                                  n \in 1..4, m \in 0..4, k \in 0..4, v \in {"text", "one", "two", "three", "none", "composite", "mixed"} }
Declarations == { d \in Declared : d[4] <= d[2] }
ASSUME Emit(IF "DECLARED" \in DOMAIN IOEnv THEN Declarations ELSE IF "TYPED" \in DOMAIN IOEnv THEN TypedSinks \X TypedAccesses \X TypedPlaces ELSE IF "TYPEDBASES" \in DOMAIN IOEnv THEN TypedBases ELSE IF "SHAPES" \in DOMAIN IOEnv THEN Sinks \X Arguments \X Forms ELSE IF "EMIT" \in DOMAIN IOEnv THEN Trees ELSE {})
=============================================================================
