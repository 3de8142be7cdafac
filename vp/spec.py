"""Sidecar contract files (/verif/specs/*.vs)."""
import glob, os, re
from .source import VERIF

SPECDIR = os.path.join(VERIF, "specs")


class FnSpec:
    def __init__(self, key, file, line):
        self.key, self.file, self.line = key, file, line
        self.props = []
        self.sig = ""
        self.ret = "res"
        self.loops = {}      # k -> {inv, top, bot, pre, post}
        self.top = ""
        self.end = ""
        self.calls = []      # (before|after, name, n, text)
        self.closures = {}
        self.subs = []
        self.attrs = ""
        self.rlimit = None
        self.index = set()
        self.mapiter = set()
        self.items = []
        self.uses = []
        self.variant = ""
        self.fnkey = key
        self.generic = {}
        self.extra = ""
        self.withtext = ""   # ghost items that come along wherever the function or its contract does
        self.novac = False
        self.rename = None
        self.implhead = None
        self.trusted = None
        self.safe = False
        self.maps = {}
        self.free = None
        self.selfty = None
        self.panics = False

    def loop(self, k):
        return self.loops.setdefault(k, {"inv": "", "top": "", "bot": "", "pre": "", "post": ""})


def parse(files=None):
    out = {}
    for path in files or sorted(glob.glob(os.path.join(SPECDIR, "*.vs"))):
        cur, sink = None, None
        for n, line in enumerate(open(path), 1):
            if line.startswith("@"):
                w = line[1:].split()
                d, a = w[0], w[1:]
                sink = None
                if d == "fn":
                    key = line[1:].split(None, 1)[1].strip()
                    cur = FnSpec(key, path, n)
                    if "##" in key:
                        cur.fnkey, cur.variant = key.split("##")
                    assert key not in out, "duplicate contract " + key
                    out[key] = cur
                elif d == "props":
                    cur.props += a
                elif d == "ret":
                    cur.ret = a[0]
                elif d == "sig":
                    sink = ("sig",)
                elif d == "loop":
                    sink = ("loop", int(a[0]), "inv")
                elif d in ("pre", "post", "top", "bot") and a:
                    sink = ("loop", int(a[0]), d)
                elif d == "top":
                    sink = ("top",)
                elif d == "end":
                    sink = ("end",)
                elif d in ("extra", "with"):
                    sink = (d,)
                elif d in ("before", "after"):
                    cur.calls.append([d, a[0], int(a[1]) if len(a) > 1 else 0, ""])
                    sink = ("call",)
                elif d == "closure":
                    cur.closures[int(a[0])] = ""
                    sink = ("closure", int(a[0]))
                elif d == "map":
                    a2 = line.split(None, 2)[2].split(";")
                    cur.maps[int(a[0])] = [a2[0].strip(), a2[1].strip(), ""]
                    sink = ("map", int(a[0]))
                elif d == "free":
                    cur.free = line.split(None, 2)[1:]
                    cur.free = [cur.free[0], cur.free[1].strip()]
                elif d == "selfty":
                    cur.selfty = line.split(None, 1)[1].strip()
                elif d == "panics":
                    cur.panics = True
                elif d == "sub":
                    m = re.match(r"@sub (.*?) ==> (.*)$", line.rstrip("\n"))
                    cur.subs.append((m.group(1), m.group(2)))
                elif d == "attr":
                    cur.attrs += line.split(None, 1)[1]
                elif d == "rlimit":
                    cur.rlimit = float(a[0])
                elif d == "index":
                    cur.index |= {int(x) for x in a}
                elif d == "mapiter":
                    cur.mapiter |= {int(x) for x in a}
                elif d == "items":
                    cur.items += a
                elif d == "uses":
                    cur.uses += line.split(None, 1)[1].split(" ; ")
                elif d == "implhead":
                    cur.implhead = line.split(None, 1)[1].strip()
                elif d == "trusted":
                    cur.trusted = line.split(None, 1)[1].strip()
                else:
                    raise Exception("%s:%d unknown directive %s" % (path, n, d))
            elif sink:
                if sink[0] == "sig":
                    cur.sig += line
                elif sink[0] == "loop":
                    cur.loop(sink[1])[sink[2]] += line
                elif sink[0] == "top":
                    cur.top += line
                elif sink[0] == "end":
                    cur.end += line
                elif sink[0] == "extra":
                    cur.extra += line
                elif sink[0] == "with":
                    cur.withtext += line
                elif sink[0] == "call":
                    cur.calls[-1][3] += line
                elif sink[0] == "map":
                    cur.maps[sink[1]][2] += line
                elif sink[0] == "closure":
                    cur.closures[sink[1]] += line
    for s in out.values():
        s.uses = [u.strip() for u in s.uses]
    return out
