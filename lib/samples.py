"""The code samples which come with the repository, as lists of files."""
import glob, os, re

def load(repo):
    out = []
    for p in sorted(glob.glob(os.path.join(repo, "testutils", "*_samples.go"))):
        t = open(p, encoding="utf-8").read()
        # samples are composite literals {[]string{`...`, `...`}, n, config}
        for m in re.finditer(r"\[\]string\{\s*((?:`[^`]*`\s*,?\s*)+)\}", t):
            out.append({"name": os.path.basename(p).split("_")[0], "files": re.findall(r"`([^`]*)`", m.group(1))})
    return out
