"""Mutations of Go source text, from slips of the pen to unusual but legal code."""
import re
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|`[^`]*`|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])+'|[A-Za-z_]\w*|0[xXbBoO][0-9a-fA-F_]+|\d[\d_.]*|<<=|>>=|&\^=|\.\.\.|&&|\|\||<-|\+\+|--|==|!=|<=|>=|:=|[-+*/%&|^]=|<<|>>|&\^|\s+|.''', re.S)
LITS = ['0', '1', '""', '"x"', 'nil', '-1', '0xFFFFFFFFFFFFFFFFFF', '1e400', "'\\x00'", '1i', '[]byte("x")', 'true', '"%s %d"', '0777', '"SELECT * FROM x WHERE y = "', '"password"', '"é世"', '1 << 70', '[...]int{5: 1}', 'struct{}{}',
        'func() {}', 'map[string]int{}', 'interface{}(nil)', '(*int)(nil)', 'func() (int, error) { return 0, nil }()', 'make([]byte, 4)[:2]', 'make([]int, 0)[0:0:0]', 'new(string)', '[0]int{}']

def toks(t):
    return TOK.findall(t)

def code(ts):
    return [i for i, x in enumerate(ts) if x and not x.isspace() and not x.startswith("//") and not x.startswith("/*")]

def close(ts, i):
    """index of the bracket that closes the one at i, or None"""
    d = 0
    for k in range(i, len(ts)):
        if ts[k] in "([{" and len(ts[k]) == 1:
            d += 1
        elif ts[k] in ")]}" and len(ts[k]) == 1:
            d -= 1
            if d == 0:
                return k
    return None

def args(ts, i, j):
    """argument texts between the brackets at i and j"""
    out, cur, d = [], [], 0
    for k in range(i + 1, j):
        if ts[k] in ("(", "[", "{"):
            d += 1
        elif ts[k] in (")", "]", "}"):
            d -= 1
        if ts[k] == "," and d == 0:
            out.append("".join(cur)); cur = []
        else:
            cur.append(ts[k])
    if "".join(cur).strip():
        out.append("".join(cur))
    return out

def is_ident(t):
    return re.fullmatch(r"[A-Za-z_]\w*", t) is not None
KW = set("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var".split())

def mutate(r, text):
    ts = toks(text)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        c = code(ts)
        if len(c) < 8:
            break
        w = r.random()
        i = r.choice(c)
        if w < .40:
            # argument lists
            ps = [k for k in c if ts[k] == "(" and k > 0 and (is_ident(ts[k - 1]) or ts[k - 1] == ")") and ts[k - 1] not in KW]
            if not ps:
                continue
            k = r.choice(ps)
            e = close(ts, k)
            if e is None:
                continue
            a = args(ts, k, e)
            m = r.choice(["none", "first", "drop", "more", "spread", "multi", "swap", "lit", "paren", "call", "same", "index", "conv", "sel"])
            if m == "none":
                a = []
            elif m == "first":
                a = a[:1]
            elif m == "drop" and a:
                del a[r.randrange(len(a))]
            elif m == "more":
                a.insert(r.randint(0, len(a)), r.choice(LITS))
            elif m == "spread" and a:
                a[-1] += "..."
            elif m == "multi":
                a = ["func() (%s) { panic(0) }()" % ", ".join(r.choice(["int", "string", "error", "[]byte", "any"]) for _ in range(r.randint(0, 3)))]
            elif m == "swap" and len(a) > 1:
                r.shuffle(a)
            elif m == "lit" and a:
                a[r.randrange(len(a))] = r.choice(LITS)
            elif m == "paren" and a:
                x = r.randrange(len(a)); a[x] = "(" * 3 + a[x] + ")" * 3
            elif m == "call" and a:
                x = r.randrange(len(a)); a[x] = "func() any { return %s }()" % a[x]
            elif m == "same" and a:
                a = [a[0]] * r.randint(1, 5)
            elif m == "index" and a:
                x = r.randrange(len(a)); a[x] = "[]any{%s}[0]" % a[x]
            elif m == "conv" and a:
                x = r.randrange(len(a)); a[x] = "%s(%s)" % (r.choice(["string", "[]byte", "int", "any", "interface{ Read([]byte) (int, error) }", "func()"]), a[x])
            elif m == "sel" and a:
                x = r.randrange(len(a)); a[x] += r.choice([".X", ".(string)", "[0]", "[:]", "()", ".X.Y()", "{}"])
            ts[k + 1:e] = [", ".join(a)]
        elif w < .46:
            del ts[i]
        elif w < .50:
            ts.insert(i, ts[i])
        elif w < .58:
            ids = [k for k in c if is_ident(ts[k]) and ts[k] not in KW]
            if len(ids) > 1:
                ts[r.choice(ids)] = ts[r.choice(ids)]
        elif w < .66:
            ls = [k for k in c if ts[k][0] in "\"'`0123456789"]
            if ls:
                ts[r.choice(ls)] = r.choice(LITS)
        elif w < .70:
            ls = [k for k in c if ts[k] in (":=", "=")]
            if ls:
                ts[r.choice(ls)] = r.choice([":=", "=", "+=", "==", "<-", "&^="])
        elif w < .74:
            ts = ts[:i]
        elif w < .80:
            lines = "".join(ts).split("\n")
            k = r.randrange(len(lines))
            if r.random() < .5:
                del lines[k]
            else:
                lines.insert(r.randrange(len(lines)), lines[k])
            ts = toks("\n".join(lines))
        elif w < .85:
            # another name or form for an import
            t = "".join(ts)
            m = list(re.finditer(r'(?m)^\s*(import )?"([\w./]+)"', t))
            if m:
                g = r.choice(m)
                alias = r.choice(["_", ".", "zz", "os", "exec", "rand", "http", "tls", "sql", "init", "main"])
                t = t[:g.start(2) - 1] + alias + " " + t[g.start(2) - 1:]
            ts = toks(t)
        elif w < .89:
            ts[i] = r.choice(["(", ")", "{", "}", "[", "]", ",", ";", ".", "...", "*", "&", "<-", "func", "type", "struct", "interface", "go", "defer", "chan", "map", "_", "\x00", "\ufeff", "\u2028", "`", "\"", "'", "/*", "\\", "$", "#", "é", "for", "range", "goto L", "L:", "~", "|", "any", "comparable"])
        elif w < .93:
            ids = [k for k in c if is_ident(ts[k]) and ts[k] not in KW]
            if ids:
                k = r.choice(ids)
                ts[k] = r.choice(["(%s)", "((%s))", "%s[0]", "%s()", "*%s", "&%s", "%s.X", "%s.(type)", "%s{}", "-%s", "%s[int]", "%s[:]", "<-%s", "func() any { return %s }()", "[]any{%s}", "struct{ x any }{%s}.x"]) % ts[k]
        elif w < .96:
            ls = [k for k in c if ts[k][0] in "\"0123456789"]
            if ls:
                n = r.choice([50, 300, 1500])
                k = r.choice(ls)
                ts[k] = r.choice(["(" * n + ts[k] + ")" * n, " + ".join([ts[k]] * n), "[]any{" * n + ts[k] + "}" * n, "f(" * n + ts[k] + ")" * n, "func() any { return " * min(n, 300) + ts[k] + " }()" * min(n, 300), "-" * 1 + "(-" * n + ts[k] + ")" * n])
        else:
            ls = [k for k in c if ts[k] == "{"]
            if ls:
                k = r.choice(ls)
                ts.insert(k + 1, r.choice(["\nif true { }\n", "\nfor range 3 { break }\n", "\nL: for { break L }\n", "\nselect { }\n", "\ndefer func() { recover() }()\n", "\ngoto L\nL:\n", "\ntype T[P any] struct{ x P; y []T[P] }\n", "\nvar _ = func(yield func(int) bool) { }\n", "\nconst c = iota\n", "\nswitch x := any(1).(type) { case int: _ = x }\n", "\nvar a [3]int; for i := range a { _ = a[i] }\n", "\n_ = [...]string{2: \"x\"}[1:2]\n", "\nvar err error; _ = err\n", "\nx, y := 1, 2; x, y = y, x\n"]))
    return "".join(ts)
