"""Independent readers of gosec's report formats.

Every reader turns a document into (wellformed, records, extra): records are
dicts with the members the format carries (strings still as text).
"""
import csv, html.parser, io, json, os, re, subprocess, urllib.parse
import xml.etree.ElementTree as ET
import yaml

SEV = {"LOW": 0, "MEDIUM": 1, "HIGH": 2}
SONAR = {"MINOR": 0, "MAJOR": 1, "BLOCKER": 2}
HERE = os.path.dirname(os.path.abspath(__file__))

def dec(b):
    return b.decode("utf-8", "replace")

def xmlsafe(s):
    return "".join(c if c in "\t\n\r" or " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000" else "\ufffd" for c in s)

def norm(fmt, b):
    """What a format can carry of the bytes b."""
    s = dec(b)
    return xmlsafe(s) if fmt == "junit-xml" else s

def rng(line):
    a = line.split("-")
    return {"start": int(a[0]), "end": int(a[-1])}

def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate member " + k)
        d[k] = v
    return d

def loads(text):
    return json.loads(text, object_pairs_hook=nodup)

def read_json(doc, findings):
    d = loads(doc.decode("utf-8"))
    out = []
    for i in d["Issues"] or []:
        r = {"rule": i["rule_id"], "file": i["file"], "col": int(i["column"]), "sev": SEV[i["severity"]], "conf": SEV[i["confidence"]], "what": i["details"],
             "code": i["code"], "cwe": i["cwe"]["id"] if i["cwe"] else "", "nosec": i["nosec"], "fix": i.get("autofix", ""),
             "supp": [[s["kind"], s["justification"]] for s in i["suppressions"] or []]}
        r.update(rng(i["line"]))
        out.append(r)
    return out, d

def ystr(v):
    return dec(v) if isinstance(v, bytes) else v

class Yaml(getattr(yaml, "CSafeLoader", yaml.SafeLoader)):
    """as values, << and = are texts"""
for _t in ("merge", "value"):
    Yaml.add_constructor("tag:yaml.org,2002:" + _t, lambda l, n: l.construct_scalar(n))

def read_yaml(doc, findings):
    d = yaml.load(doc.decode("utf-8"), Loader=Yaml)
    out = []
    for i in d["issues"] or []:
        r = {"rule": ystr(i["ruleid"]), "file": ystr(i["file"]), "col": int(i["col"]), "sev": i["severity"], "conf": i["confidence"], "what": ystr(i["what"]),
             "code": ystr(i["code"]), "cwe": ystr(i["cwe"]["id"]) if i["cwe"] else "", "nosec": i["nosec"], "fix": ystr(i["autofix"])}
        r.update(rng(i["line"]))
        out.append(r)
    return out, d

def cweid(s):
    return "" if s in ("CWE-0000", "CWE") else re.fullmatch(r"CWE-(.*)", s, re.S).group(1)

def read_csv(doc, findings):
    out = []
    for row in csv.reader(io.StringIO(dec(doc), newline=""), strict=True):
        f, line, what, sev, conf, code, cwe = row
        r = {"file": f, "sev": SEV[sev], "conf": SEV[conf], "what": what, "code": code, "cwe": cweid(cwe)}
        r.update(rng(line))
        out.append(r)
    return out, None

def read_junit(doc, findings):
    root = ET.fromstring(doc)
    if root.tag != "testsuites":
        raise ValueError("root element")
    out = []
    for ts in root:
        cases = list(ts)
        if ts.tag != "testsuite" or int(ts.get("tests")) != len(cases):
            raise ValueError("number of tests")
        for c in cases:
            fl = list(c)
            if c.tag != "testcase" or len(fl) != 1 or fl[0].tag != "failure" or len(fl[0]):
                raise ValueError("test case")
            name, what = c.get("name"), ts.get("name")
            if not (fl[0].get("message") or "").strip():
                raise ValueError("failure without message")
            t = fl[0].text
            m = re.fullmatch(r"Results:\n\[" + re.escape(name) + r":(\d+(?:-\d+)?)\] - " + re.escape(what) +
                             r" \(Confidence: (\d), Severity: (\d), CWE: ([^)]*)\)\n> (.*)\n Autofix: (.*)", t, re.S)
            if not m:
                raise ValueError("failure text " + repr(t))
            # the text has no marker between code and suggestion other than " Autofix: ", which either may hold
            code, fix = m.group(5), m.group(6)
            for f in findings:
                if f["code"] + "\n Autofix: " + f["fix"] == code + "\n Autofix: " + fix:
                    code, fix = f["code"], f["fix"]
                    break
            r = {"file": name, "what": what, "conf": int(m.group(2)), "sev": int(m.group(3)), "cwe": "" if m.group(4) == "CWE" else m.group(4), "code": code, "fix": fix}
            r.update(rng(m.group(1)))
            out.append(r)
    return out, None

class Tags(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.scripts, self.text, self.inscript = [], [], [], None
    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag == "script":
            self.inscript = ""
    def handle_endtag(self, tag):
        self.tags.append("/" + tag)
        if tag == "script":
            self.scripts.append(self.inscript or "")
            self.inscript = None
    def handle_data(self, data):
        if self.inscript is not None:
            self.inscript += data
        elif data.strip():
            self.text.append(data.strip())

SHAPE = None

def read_html(doc, findings):
    """The page's own data; what the page shows is read by show_html."""
    p = Tags()
    p.feed(doc.decode("utf-8"))
    p.close()
    m = [re.fullmatch(r"\s*var data = (.*?);?\s*", s, re.S) for s in p.scripts]
    m = [x for x in m if x]
    if len(m) != 1:
        raise ValueError("page data")
    for t in ("html", "head", "body", "div"):
        if p.tags.count(t) != p.tags.count("/" + t):
            raise ValueError("unbalanced <%s>" % t)
    d = loads(m[0].group(1))
    return None, {"data": d, "script": [s for s in p.scripts if "ReactDOM.render" in s]}

def show_html(pages):
    """Runs the pages' scripts on a stand-in for React and returns, per page, the cards it shows."""
    req = json.dumps([{"data": p["data"], "script": p["script"][0]} for p in pages])
    r = subprocess.run(["node", os.path.join(HERE, "page.js")], input=req, capture_output=True, text=True, timeout=240)
    if r.returncode != 0:
        raise RuntimeError("page runner: " + r.stderr[-2000:])
    return json.loads(r.stdout)

def html_cards(shown):
    if "error" in shown:
        raise ValueError("page script: " + shown["error"])
    out = []
    for c in shown["cards"]:
        m = re.fullmatch(r"(.*) \(line (\d+(?:-\d+)?)\)", c["strong"], re.S)
        n = re.match(r"(\S+) \((CWE(?:-[^)]*)?)\): ", c["p"])
        r = {"file": m.group(1), "rule": n.group(1), "cwe": cweid(n.group(2)), "what": c["p"][n.end():], "sev": SEV[c["tags"]["Severity"]], "conf": SEV[c["tags"]["Confidence"]],
             "nosec": "NoSec" in c["tags"], "code": c["code"]}
        r.update(rng(m.group(2)))
        out.append(r)
    return out

ANSI = re.compile(r"\x1b\[[0-9;]*m")

def read_text(doc, findings, color=False):
    t = dec(doc)
    if color:
        t = ANSI.sub("", t)
    lines = t.split("\n")
    if lines[0] != "Results:":
        raise ValueError("title")
    out, cur = [], None
    head = re.compile(r"\[(.*):(\d+(?:-\d+)?)\] - (\S+?)( \(NoSec\))? \((CWE(?:-[^)]*)?)\): (.*) \(Confidence: (\w+), Severity: (\w+)\)")
    for ln in lines[1:]:
        m = head.fullmatch(ln)
        if m:
            cur = {"file": m.group(1), "rule": m.group(3), "nosec": bool(m.group(4)), "cwe": cweid(m.group(5)), "what": m.group(6), "conf": SEV[m.group(7)], "sev": SEV[m.group(8)],
                   "code": "", "fix": None, "marked": []}
            cur.update(rng(m.group(2)))
            out.append(cur)
        elif ln == "Summary:":
            cur = None
        elif cur is not None and cur["fix"] is None:
            if ln.startswith("  > ") or ln.startswith("    "):
                cur["code"] += ln[4:] + "\n"
                if ln.startswith("  > "):
                    cur["marked"].append(ln[4:])
            elif ln.startswith("Autofix: "):
                cur["fix"] = ln[9:]
    return out, t

def read_golint(doc, findings):
    out = []
    t = dec(doc)
    if t and not t.endswith("\n"):
        raise ValueError("last line")
    for ln in t.split("\n")[:-1]:
        m = re.fullmatch(r"(.*?):(\d+):(\d+): (?:\[(CWE-\w+)\] )?(.*) \(Rule:(\S+), Severity:(\w+), Confidence:(\w+)\)", ln)
        out.append({"file": m.group(1), "start": int(m.group(2)), "col": int(m.group(3)), "cwe": cweid(m.group(4)) if m.group(4) else "", "what": m.group(5),
                    "rule": m.group(6), "sev": SEV[m.group(7)], "conf": SEV[m.group(8)]})
    return out, None

def read_sonar(doc, findings):
    d = loads(doc.decode("utf-8"))
    out = []
    for i in d["issues"]:
        p = i["primaryLocation"]
        if not i["engineId"] or i["type"] not in ("BUG", "VULNERABILITY", "CODE_SMELL"):
            raise ValueError("issue")
        out.append({"rule": i["ruleId"], "file": p["filePath"], "start": p["textRange"]["startLine"], "end": p["textRange"]["endLine"], "sev": SONAR[i["severity"]], "what": p["message"]})
    return out, d

URI = re.compile(r"(?:[A-Za-z0-9._~!$&'()*+,;=:@/-]|%[0-9A-Fa-f]{2})*")

KIND = {"runs": "run", "tool": "tool", "driver": "component", "taxonomies": "component", "rules": "descriptor", "taxa": "descriptor", "results": "result",
        "locations": "location", "physicalLocation": "physicalLocation", "artifactLocation": "artifactLocation", "region": "region", "deletedRegion": "deletedRegion",
        "suppressions": "suppression", "relationships": "relationship", "fixes": "fix", "artifactChanges": "artifactChange", "replacements": "replacement",
        "defaultConfiguration": "configuration", "supportedTaxonomies": "componentReference", "toolComponent": "componentReference", "target": "descriptorReference",
        "message": "message", "description": "message", "help": "multiformat", "shortDescription": "multiformat", "fullDescription": "multiformat", "snippet": "content"}

def read_sarif(doc, findings):
    d = loads(doc.decode("utf-8"))
    objects, st = set(), {"nulls": 0, "bad": 0}
    def walk(kind, v):
        if isinstance(v, dict):
            if kind in KIND or kind == "document":
                objects.add((KIND.get(kind, "document"), tuple(sorted(k for k in v if v[k] is not None))))
            for k, x in v.items():
                if k != "properties":
                    walk(k, x)
                if k in ("startLine", "endLine", "startColumn", "endColumn") and not (isinstance(x, int) and x >= 1):
                    st["bad"] += 1
                if k == "level" and x not in ("none", "note", "warning", "error"):
                    st["bad"] += 1
                if k == "guid" and not re.fullmatch(r"[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89abAB0-9a-f][0-9a-f]{3}-[0-9a-f]{12}", x):
                    st["bad"] += 1
            if kind in ("region", "deletedRegion") and v.get("endLine", v["startLine"]) < v["startLine"]:
                st["bad"] += 1
        elif isinstance(v, list):
            for x in v:
                walk(kind, x)
        elif v is None:
            st["nulls"] += 1
    walk("document", d)
    if d["version"] != "2.1.0" or len(d["runs"]) != 1:
        raise ValueError("version")
    run = d["runs"][0]
    rules = run["tool"]["driver"].get("rules") or []
    taxa = [t for tx in run.get("taxonomies") or [] for t in tx.get("taxa") or []]
    out, idx, baduri = [], [], 0
    for r in run["results"] or []:
        loc = r["locations"]
        if len(loc) != 1:
            raise ValueError("locations")
        pl = loc[0]["physicalLocation"]
        uri = pl["artifactLocation"].get("uri", "")
        path = urllib.parse.unquote(uri)
        if path.startswith("./"):
            path = path[2:]
        if not URI.fullmatch(uri) or uri == "" or re.match(r"[A-Za-z][A-Za-z0-9+.-]*:", uri) and not uri.startswith("file:"):
            baduri += 1
        reg = pl["region"]
        fix = r.get("fixes") or []
        ft = ""
        if fix:
            ft = fix[0]["description"].get("markdown", fix[0]["description"].get("text"))
        out.append({"rule": r["ruleId"], "file": path, "start": reg["startLine"], "end": reg.get("endLine", reg["startLine"]), "col": reg["startColumn"], "level": r["level"],
                    "what": r["message"]["text"], "supp": [[s["kind"], s.get("justification", "")] for s in r.get("suppressions") or []], "fix": ft, "snip": reg.get("snippet", {}).get("text", ""), "ruleIndex": r.get("ruleIndex", 0)})
    rel = []
    for x in rules:
        rs = x.get("relationships") or []
        rel.append([y["target"]["id"] if y else "" for y in rs])
    tax = run.get("taxonomies") or []
    known = {n for t in tax for n in [t["name"]]}
    by = {(t["name"], y["id"]): y.get("guid") for t in tax for y in t.get("taxa") or []}
    loose = 0
    for x in rules:
        for y in x.get("relationships") or []:
            g = y["target"]
            c = (g.get("toolComponent") or {}).get("name")
            # the reference designates a weakness of a taxonomy of this run, by name and by GUID
            if (c, g["id"]) not in by or "guid" in g and by[c, g["id"]] != g["guid"]:
                loose += 1
    guids = [y.get("guid") for t in tax for y in t.get("taxa") or []]
    names = lambda l: sorted(str(c.get("name")) for c in l)
    return out, {"loose": loose, "sameGuids": len(guids) - len(set(guids)), "supported": names(run["tool"]["driver"].get("supportedTaxonomies") or []) == names(tax) and len(known) == len(tax),
                 "described": [[(x.get("shortDescription") or {}).get("text", ""), (x.get("fullDescription") or {}).get("text", "")] for x in rules],
                 "rules": [x["id"] for x in rules], "taxa": [t["id"] for t in taxa], "relations": rel, "nulls": st["nulls"], "badUris": baduri, "badValues": st["bad"],
                 "objects": sorted(objects), "doc": d,
                 "ruleLevels": [x.get("defaultConfiguration", {}).get("level") for x in rules]}

READERS = {"json": read_json, "yaml": read_yaml, "csv": read_csv, "junit-xml": read_junit, "html": read_html, "text": read_text, "golint": read_golint,
           "sonarqube": read_sonar, "sarif": read_sarif}

class Interner:
    """Texts become numbers, so that the specification compares only identities."""
    def __init__(self):
        self.ids = {}
    def __call__(self, s):
        if not isinstance(s, str):
            s = repr(s)
        return self.ids.setdefault(s, len(self.ids) + 1)

def path_ids(T, p):
    return [T("/" + c) for c in p.split("/")]
