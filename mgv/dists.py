"""Random installed distributions (dist-info directories) as data."""
import csv
import io
import os

from .world import EXT

NAMES = ["Foo", "foo", "foo-bar", "foo_bar", "Foo.Bar", "zope.interface", "a", "x1", "PyYAML", "six", "G\u00fct", "long-name-with-many-parts", "foo2"]
VERSIONS = ["1.0", "0.1a2", "2024.1.post3+local.1", "1!2.0", "3"]


class Dist:
    def __init__(self, name, version, rows=(), dirname=None):
        self.name, self.version, self.rows = name, version, list(rows)   # rows: relative paths as recorded
        self.dirname = dirname or "%s-%s.dist-info" % (name.replace("-", "_"), version)
        self.metadata = True
        self.record = True
        self.style = "wheel"

    def files(self, entry):
        return {os.path.normpath(os.path.join(os.path.abspath(entry), p)) for p in self.rows}

    def import_names(self):
        res = set()
        for p in self.rows:
            n = import_name(p)
            if n:
                res.add(n)
        return res

    def write(self, entry, r):
        d = os.path.join(entry, self.dirname)
        os.makedirs(d, exist_ok=True)
        if self.metadata is True:
            with open(os.path.join(d, "METADATA"), "wb") as fp:
                fp.write(self.metadata_text(r))
        elif self.metadata == "dir":
            os.makedirs(os.path.join(d, "METADATA"), exist_ok=True)
        if self.record is True:
            with open(os.path.join(d, "RECORD"), "wb") as fp:
                fp.write(self.record_text(r))
        elif self.record == "dir":
            os.makedirs(os.path.join(d, "RECORD"), exist_ok=True)

    def metadata_text(self, r):
        h = ["Metadata-Version: 2.1", "Name: " + self.name, "Version: " + self.version]
        more = ["Summary: Name: not this", "License: MIT\n        Version: 9", "Author: J\u00f6rg", "Requires-Dist: foo (>=1)", "Classifier: a :: b", "Description: x\n        Name: foo"]
        h[1:1] = r.sample(more, r.randrange(3))
        h += r.sample(more, r.randrange(3))
        text = "\n".join(h) + "\n"
        if r.random() < 0.5:
            text += "\nName: body\nVersion: 99\n\nText \u20ac\n"
        if r.random() < 0.1:
            text = text.replace("\n", "\r\n")
        return text.encode()

    def record_text(self, r):
        out = []
        for p in self.rows:
            h = r.choice(["", "sha256=abc-DEF_123", "sha256=x="])
            size = r.choice(["", "123"]) if h else ""
            if self.style == "csv":
                b = io.StringIO()
                csv.writer(b, lineterminator="\n", quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL if not h else csv.QUOTE_MINIMAL])).writerow([p, h, size])
                ln = b.getvalue()
                if ln.startswith('"') and h == "" and ln.endswith('"\n'):
                    ln = ln.replace(',"",""', ",,")
            else:
                ln = "%s,%s,%s\n" % (p, h, size)
            out.append(ln)
        text = "".join(out)
        if r.random() < 0.1 and text:
            text = text.rstrip("\n")
        if r.random() < 0.1:
            text = text.replace("\n", "\r\n")
        return text.encode()


def import_name(p):
    """The module that a recorded file is, or None."""
    parts = p.split("/")
    if p.startswith("/") or ".." in parts or "__pycache__" in parts[:-1]:
        return None
    for s in sorted([".py", ".pyc"] + EXT, key=len, reverse=True):
        if parts[-1].endswith(s):
            parts[-1] = parts[-1][: -len(s)]
            break
    else:
        return None
    if parts[-1] == "__init__" and len(parts) > 1:
        parts.pop()
    if any(not x or "." in x for x in parts):
        return None
    return ".".join(parts)


def random_rows(r, name, dirname):
    pk = r.choice(["pk", "pack", "p\u00e4ck", "ns", "_pk", "pk2"]) + r.choice(["", "", "1", "2"])
    pool = ["m1.py", "m2.py", "m2.pyc", "_x" + EXT[0], "_y.abi3.so", "_z.so", "w.cpython-311-x86_64-linux-gnu.so", "win.cp312-win_amd64.pyd",
            pk + "/__init__.py", pk + "/__init__.pyc", pk + "/__init__" + EXT[0], pk + "/sub/__init__.py", pk + "/sub/mod.py", pk + "/sub/deep/er/x.py", pk + "/_c" + EXT[0],
            pk + "/__pycache__/__init__.cpython-312.pyc", "__pycache__/m1.cpython-312.pyc", pk + "/sub/__pycache__/mod.cpython-312.opt-1.pyc",
            pk + "/data.txt", pk + "/data,with,comma.txt", pk + "/mod,x.py.txt", pk + '/quo"te.txt', pk + "/py.typed", pk + "/stub.pyi", pk + "/sub.py/data", "top level.txt",
            "\u00fcnicode.py", pk + "/\u65e5\u672c.py", pk + "/\u65e5\u672c.txt", "../../../bin/script", "../../share/x.py", "../other/y.py", "/abs/path/z.py", "/abs/data.txt",
            "a.b.py", pk + "/a.b.py", pk + "/x.y/z.py", ".hidden.py", ".py", pk + "/.py", pk + "/.hidden/x.py", "pyc", "py", "so", "x.pyo", "x.pyx", "x.PY",
            dirname + "/METADATA", dirname + "/RECORD", dirname + "/WHEEL", dirname + "/tool.py", dirname + "/licenses/LICENSE", name + "-9.data/purelib/q.py",
            pk + "/__main__.py", pk + "/tests/test_a.py", pk + "/tests/data/__init__.py", "m1/__init__.py", "ns/one.py", "ns/two/three.py", pk + "/__pycache__.py", "__pycache__x/y.py",
            pk + "/__init__x.py", pk + "/x__init__.py", pk + "/y/x__init__.pyc", "in.out/__init__.py", pk + "//dd.py"[1:]]
    rows = r.sample(pool, r.randint(0, min(14, len(pool))))
    if rows and r.random() < 0.1:
        rows.append(rows[0])
    return rows


def random_dist(r, name=None):
    name = name or r.choice(NAMES)
    d = Dist(name, r.choice(VERSIONS))
    d.rows = random_rows(r, name, d.dirname)
    d.style = r.choice(["wheel", "csv"])
    if d.style == "wheel":
        # the wheel tool did not quote anything; names that start and end with quotes are not representable
        d.rows = [p for p in d.rows if not p.startswith('"')]
    return d
