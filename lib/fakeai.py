"""A stand-in for the service that suggests fixes: one server, many runs told apart by the path prefix."""
import http.server, json, re, threading

def ok(text, **more):
    return {"candidates": [dict({"content": {"role": "model", "parts": [{"text": text}]}, "finishReason": 1}, **more)]}
FORMS = {
    "answer": ["plain", "markdown", "unicode", "percent", "markup", "json", "long", "two candidates", "whitespace", "usage", "pause"],
    "error": ["400", "401", "403", "404", "409", "429", "500", "501", "302", "204", "nothing", "empty object", "no candidates", "no content", "no parts", "empty part", "empty text",
              "null candidate", "null content", "not json", "cut json", "cut body", "list", "string", "blocked", "blocked prompt", "recited", "function response", "wrong types", "html", "null"],
    "again": ["503"],
    "late": ["hang", "trickle"],
}

class Server:
    def __init__(self):
        self.runs, self.lock, self.stop = {}, threading.Lock(), threading.Event()
        outer = self
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            def log_message(self, *a):
                pass
            def do_POST(self):
                try:
                    outer.serve(self)
                except (BrokenPipeError, ConnectionResetError):
                    self.close_connection = True
            do_GET = do_PUT = do_POST
        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 256
            def handle_error(self, *a):
                pass
        self.srv = S(("127.0.0.1", 0), H)
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def close(self):
        self.stop.set()
        self.srv.shutdown()
        self.srv.server_close()

    def add(self, run, texts, plan):
        """plan: the outcomes of the requests, in their order, as (outcome, form); the last one repeats."""
        self.runs[run] = {"texts": texts, "plan": plan, "asks": []}
        return "http://127.0.0.1:%d/%s" % (self.srv.server_address[1], run)

    def answer(self, run, n, form):
        """The text of the n-th answer of a run."""
        t = "Fix %s-%d." % (run, n)
        return {"markdown": "## %s\n\n```go\nx := `a` // \"b\" \\n\n```\n* %s\n" % (t, t), "unicode": t + " \u00e9\u4e16\U0001f512 \u2028", "percent": t + " %s %d %!v 100%",
                "markup": t + " <script>&amp;</script> ]]> <!--", "json": json.dumps({"candidates": [t]}), "long": t + " word" * 30000,
                "whitespace": "\n  " + t + " \t\n"}.get(form, t)

    def serve(self, h):
        m = re.match(r"/([^/]+)/", h.path)
        run = self.runs.get(m.group(1)) if m else None
        body = h.rfile.read(int(h.headers.get("content-length") or 0)).decode("utf-8", "replace")
        if run is None:
            h.send_error(404)
            return
        k = re.search(r"[?&]key=([^&]*)", h.path)
        key = k.group(1) if k else h.headers.get("X-Goog-Api-Key") or ""
        try:
            prompt = "\n".join(p.get("text", "") for c in json.loads(body)["contents"] for p in c["parts"])
        except (ValueError, KeyError, TypeError):
            prompt = ""
        flat = prompt.replace("\\", "")
        best = None
        for t in run["texts"]:
            if t.replace("\\", "") in flat and (best is None or len(t) > len(best)):
                best = t
        with self.lock:
            n = len(run["asks"])
            outcome, form = run["plan"][min(n, len(run["plan"]) - 1)]
            run["asks"].append({"text": best, "outcome": outcome, "form": form, "key": key, "path": h.path.split("?")[0]})
        self.reply(h, m.group(1), n + 1, outcome, form)

    def reply(self, h, run, n, outcome, form):
        def send(status, data, ctype="application/json; charset=UTF-8", claim=0):
            h.send_response(status)
            h.send_header("content-type", ctype)
            if status != 204:
                h.send_header("content-length", str(len(data) + claim))
            if claim:
                h.send_header("connection", "close")
            h.end_headers()
            h.wfile.write(data)
            if claim:
                h.close_connection = True
        t = self.answer(run, n, form)
        good = json.dumps(ok(t)).encode()
        if outcome == "answer":
            a = ok(t)
            if form == "two candidates":
                a["candidates"] += ok("another " + t)["candidates"]
            if form == "usage":
                a["usageMetadata"] = {"promptTokenCount": 3, "totalTokenCount": 9}
                a["unknownField"] = {"x": [1]}
                a["candidates"][0]["safetyRatings"] = [{"category": 7, "probability": 1}]
            if form == "pause":
                self.stop.wait(.3)
            send(200, json.dumps(a).encode())
        elif outcome == "late":
            if form == "trickle":
                h.send_response(200)
                h.send_header("content-length", str(len(good) + 100000))
                h.end_headers()
                for c in good[:-1]:
                    h.wfile.write(bytes([c]))
                    h.wfile.flush()
                    if self.stop.wait(1):
                        break
            self.stop.wait(300)
            h.close_connection = True
        elif form.isdigit():
            send(int(form), b"" if form == "204" else json.dumps({"error": {"code": int(form), "message": "no " + t, "status": "X"}}).encode())
        elif form == "nothing":
            send(200, b"")
        elif form == "cut json":
            send(200, good[:-7])
        elif form == "cut body":
            send(200, good[:-20], claim=20)
        elif form == "html":
            send(200, b"<html>%s</html>" % good, "text/html")
        elif form == "not json":
            send(200, b"nope")
        else:
            part = lambda p: {"candidates": [{"content": {"parts": [p]}}]}
            send(200, json.dumps({
                "empty object": {}, "no candidates": {"candidates": []}, "no content": {"candidates": [{}]}, "no parts": {"candidates": [{"content": {}}]}, "empty part": part({}),
                "empty text": part({"text": ""}), "null candidate": {"candidates": [None]}, "null content": {"candidates": [{"content": None}]}, "list": [ok(t)], "string": t,
                "blocked": {"candidates": [dict(ok(t)["candidates"][0], finishReason=3)]}, "blocked prompt": {"promptFeedback": {"blockReason": 1}},
                "recited": {"candidates": [{"finishReason": 4}]}, "function response": part({"functionResponse": {"name": "f", "response": {"a": 1}}}),
                "wrong types": {"candidates": {"content": 3}}, "null": None}[form]).encode())
