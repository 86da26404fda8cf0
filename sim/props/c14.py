"""C14 - a download is complete and exact or fails, and overwrites nothing."""
import gzip
import json
import os
import random
import zlib

from ..ctx import cli, violation

BUDGET = {"quick": (700, 80), "thorough": (20000, 800)}
RULE = ("A case is a seeded 4TU data set (catalog, listing, files of various sizes, transfer and content encodings) downloaded "
        "once or twice at the same time under a seeded schedule, into a new or an existing target, with seeded faults on its "
        "requests (error status, truncated or reset body, corrupt encoding, refused or timed-out connection) or on the local "
        "disk, or killed; afterwards the command runs again. Non-trivial: a fault was injected, the target existed, or two "
        "downloads met; distinct by the order of all gated operations.")
REAL = ["wam2layers command line and download", "requests, urllib3 response handling, http.client, threddsclient, "
        "BeautifulSoup, click", "the file system below the scratch folder"]
STUB = ["the data server and the TCP connection: raw HTTP responses handed to http.client by a replaced requests adapter",
        "process scheduling, clocks, sleeping, randomness, directory order (simulator)"]
MUST_REACH = ["complete", "http error", "truncated", "reset", "connection", "corrupt encoding", "disk fault", "killed",
              "existing target", "two at once", "two cases at once", "again refused", "gzip", "chunked", "redirect",
              "short write"]
CASES = {"example-input-volta": "bbe10a2a-39dc-4098-a69f-0f677d06ecdd",
         "example-input-eiffel": "f9572240-f179-4338-9e1b-82c5598529e2"}


def gen(r, tier, i):
    names = sorted(CASES)
    which = r.choice(names)
    p = {"case": which, "data": r.randrange(1 << 20), "files": r.choice([0, 1, 2, 3, 4, 6]), "extra": r.choice([0, 1, 1, 2, 3]),
         "nested": r.random() < 0.4, "redirect": r.random() < 0.2, "target": None, "second": None, "faults": [], "disk": None,
         "schedule": r.choice([{"mode": "random", "sticky": 0.0}, {"mode": "random", "sticky": 0.6},
                               {"mode": "pct", "change": 0.1}, {"mode": "meet", "sticky": 0.5}])}
    if p["files"] + p["extra"] == 0:
        p["files"] = 1
    q = r.random()
    if q < 0.12:
        p["target"] = r.choice(["folder", "folder", "empty folder", "file", "link", "broken link"])
    elif q < 0.35:
        p["second"] = r.choice([which, which, [n for n in names if n != which][0]])
    if r.random() < 0.6:
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.choice(["status", "status", "status", "cut", "cut", "reset", "refused", "timeout", "corrupt", "head"])
            f = {"pos": round(r.random(), 4), "kind": k, "node": r.choice([None, None, 0]), "times": r.choice([1, 1, 1, 3, 100])}
            if k == "status":
                f["status"] = r.choice([404, 404, 500, 503, 403, 429, 502, 401, 410])
                f["page"] = r.choice([0, 1, 300, 70000])
            elif k in ("cut", "reset"):
                f["frac"] = r.choice([0.0, round(r.random(), 3), round(r.random(), 3), 0.999])
            p["faults"].append(f)
    elif r.random() < 0.6:
        d = {"kind": r.choice(["write", "write", "creat", "mkdir", "close"]), "act": "err",
             "arg": r.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS"]), "pos": round(r.random(), 4)}
        if r.random() < 0.3:
            d = {"kind": "mut", "act": "kill", "pos": round(r.random(), 4)}
        elif r.random() < 0.3:
            d = {"kind": "write", "act": "short", "frac": round(r.random(), 3), "pos": round(r.random(), 4), "sticky": True,
                 "times": r.choice([1, 5, 100])}
        p["disk"] = d
    return p


def nontrivial(p, r):
    return bool(p["faults"] or p["disk"] or p["target"] or p["second"])


class Server:
    """What the data server holds, and how it answers."""

    def __init__(self, plan):
        self.plan = plan
        self.urls = {}
        self.sets = {}
        self.enc = {}
        for name, uuid in sorted(CASES.items()):
            self._dataset(name, uuid)

    def _dataset(self, name, uuid):
        p = self.plan
        r = random.Random(f"{p['data']}/{uuid}")
        files = {}
        sizes = [0, 1, 500, 8191, 8192, 65536, 65537, 70000, 150000]
        items = []
        for k in range(p["files"]):
            n = f"{2021 + k // 12}-{k % 12 + 1:02d}-{r.randint(1, 28):02d}_fluxes_storages.nc"
            body = r.randbytes(r.choice(sizes))
            if r.random() < 0.3:
                body = (b"CDF " * (len(body) // 4 + 1))[:len(body)]
            files[n] = body
            u = f"https://opendap.4tu.nl/thredds/fileServer/data2/djht/{uuid}/{n}"
            items.append((n, f"data2/djht/{uuid}/{n}"))
            self._serve(r, u, body)
        xml = ['<?xml version="1.0" encoding="UTF-8"?>',
               '<catalog xmlns="http://www.unidata.ucar.edu/namespaces/thredds/InvCatalog/v1.0" '
               'xmlns:xlink="http://www.w3.org/1999/xlink" version="1.2">',
               '<service name="all" serviceType="Compound" base="">'
               '<service name="odap" serviceType="OPENDAP" base="/thredds/dodsC/" />'
               '<service name="http" serviceType="HTTPServer" base="/thredds/fileServer/" /></service>',
               f'<dataset name="{uuid}" ID="data2/djht/{uuid}"><metadata inherited="true"><serviceName>all</serviceName>'
               '<dataType>GRID</dataType></metadata>']
        half = len(items) // 2 if p["nested"] else 0
        ds = [f'<dataset name="{n}" ID="{u}" urlPath="{u}"><dataSize units="Kbytes">1.0</dataSize>'
              f'<serviceName>all</serviceName></dataset>' for n, u in items]
        if half:
            ds = ['<dataset name="part"><metadata inherited="true"><serviceName>all</serviceName></metadata>'
                  + "".join(ds[:half]) + "</dataset>"] + ds[half:]
        xml += ds + ["</dataset></catalog>"]
        cat = f"https://opendap.4tu.nl/thredds/catalog/data2/djht/{uuid}/catalog"
        self._serve(r, cat + ".xml", "\n".join(xml).encode())
        self._serve(r, cat + ".html", b"<html><body>catalog</body></html>")
        listing = []
        for k in range(p["extra"]):
            n = r.choice(["config-%d.yaml", "README %d.md", "region_%d.nc"]) % k
            body = r.randbytes(r.choice(sizes[:6]))
            files[n] = body
            u = f"https://data.4tu.nl/file/{uuid}/{r.getrandbits(64):016x}"
            if p["redirect"]:
                v = f"https://mirror.4tu.nl/{r.getrandbits(64):016x}"
                self.urls[u] = ("redirect", v)
                u2 = v
            else:
                u2 = u
            self._serve(r, u2, body)
            listing.append({"id": k, "name": n, "size": len(body), "download_url": u, "is_link_only": False})
        fields = [{"name": "Organizations", "value": ["TU"]}, {"name": "Data Link", "value": [cat + ".html"]},
                  {"name": "Format", "value": ["netCDF"]}]
        r.shuffle(fields)
        self._serve(r, f"https://data.4tu.nl/v2/articles/{uuid}",
                    json.dumps({"id": 1, "title": name, "custom_fields": fields, "files": listing}).encode())
        self.sets[name] = files

    def _serve(self, r, url, body):
        self.urls[url] = ("body", body)
        self.enc[url] = (r.choice([None, None, "gzip", "deflate"]), r.choice(["length", "length", "chunked"]), r.choice([1, 7, 4096]))

    def respond(self, url, headers, arg):
        kind, body = self.urls.get(url, ("missing", None))
        f = self.plan["faults"][arg - 1] if arg > 0 else None
        k = f["kind"] if f else None
        if k in ("refused", "timeout"):
            return {"error": k}
        if k == "status":
            page = (b"<html><body>The server is not available</body></html>" * (f["page"] // 40 + 1))[:f["page"]]
            return {"bytes": head(f["status"], {"Content-Length": len(page), "Content-Type": "text/html"}) + page}
        if kind == "missing":
            page = b"not found"
            return {"bytes": head(404, {"Content-Length": len(page)}) + page}
        if kind == "redirect":
            return {"bytes": head(302, {"Location": body, "Content-Length": 0})}
        enc, trans, chunk = self.enc[url]
        h = {"Content-Type": "application/octet-stream"}
        acc = headers.get("Accept-Encoding") or ""
        raw = body
        if enc and enc in acc:
            h["Content-Encoding"] = enc
            raw = gzip.compress(body, mtime=0) if enc == "gzip" else zlib.compress(body)
        if k == "corrupt":
            if "Content-Encoding" not in h:
                h["Content-Encoding"] = "gzip"
                raw = gzip.compress(body, mtime=0)
            raw = bytes(b ^ 0x5A for b in raw)       # not such a stream at all
        if trans == "chunked":
            h["Transfer-Encoding"] = "chunked"
            wire = b"".join(b"%x\r\n%s\r\n" % (len(raw[i:i + 4096 * chunk]), raw[i:i + 4096 * chunk])
                            for i in range(0, len(raw), 4096 * chunk)) + b"0\r\n\r\n"
        else:
            h["Content-Length"] = len(raw)
            wire = raw
        hd = head(200, h)
        spec = {"bytes": hd + wire}
        if k == "head":
            spec["cut"] = 5 if f["times"] > 1 else 0     # http.client takes a header cut later for a complete one
        elif k in ("cut", "reset"):
            spec["cut"] = len(hd) + int(f["frac"] * max(0, len(wire) - 6))
            spec["reset"] = k == "reset"
        return spec

    def effective(self, url, f):
        """Can the fault be noticed at all (an empty body cannot be truncated)?"""
        kind, body = self.urls.get(url, ("missing", None))
        if f["kind"] in ("cut", "reset", "corrupt") and (kind == "redirect" or (f["kind"] != "corrupt" and not body
                                                                              and self.enc[url][1] == "length")):
            return False
        return True


def head(status, h):
    return (f"HTTP/1.1 {status} X\r\n" + "".join(f"{k}: {v}\r\n" for k, v in h.items()) + "\r\n").encode()


def download(name):
    return cli("download", name)


class Link:
    def __init__(self, plan, server, totals):
        self.plan, self.server, self.totals = plan, server, totals
        self.n = {}
        self.hits = []
        self.requests = []
        self.left = [f["times"] for f in plan["faults"]]

    def __call__(self, node, what, a, b):
        if not what.startswith("http:"):
            return None
        url = what[5:]
        k = self.n.get(node.id, 0)
        self.n[node.id] = k + 1
        self.requests.append((node.id, url))
        for i, f in enumerate(self.plan["faults"]):
            if f["node"] is not None and f["node"] != node.id:
                continue
            at = min(int(f["pos"] * self.totals), self.totals - 1)
            if k < at or self.left[i] <= 0 or not self.server.effective(url, f):
                continue
            self.left[i] -= 1
            self.hits.append((node.id, f["kind"], url))
            node.world.count({"status": f"HTTP status {f.get('status')}", "cut": "truncated body", "reset": "connection reset",
                              "corrupt": "corrupt content encoding", "head": "connection closed before the header"}.get(f["kind"], "connection " + f["kind"]))
            return "ok", i + 1
        return "ok", 0


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d) + "/"] = None
        for x in files:
            q = os.path.join(base, x)
            if os.path.islink(q) and not os.path.exists(q):
                out[os.path.relpath(q, d)] = "link"
                continue
            with open(q, "rb") as f:
                out[os.path.relpath(q, d)] = f.read()
    return out


def existing(plan, root):
    t = f"{root}/{plan['case']}"
    k = plan["target"]
    if k in ("folder", "empty folder"):
        os.mkdir(t)
        if k == "folder":
            open(t + "/mine.txt", "w").write("mine")
            os.mkdir(t + "/sub")
            open(t + "/sub/2021-07-01_fluxes_storages.nc", "w").write("old")
            names = list(Server(plan).sets[plan["case"]])
            if names:
                open(f"{t}/{names[0]}", "w").write("my own version")
    elif k == "file":
        open(t, "w").write("a file")
    elif k == "link":
        os.mkdir(root + "/elsewhere")
        open(root + "/elsewhere/x", "w").write("x")
        os.symlink("elsewhere", t)
    elif k == "broken link":
        os.symlink("nowhere", t)


def execute(plan, c):
    server = Server(plan)
    name = plan["case"]
    want = server.sets[name]
    # fault-free
    ref = c.world()
    link0 = Link(dict(plan, faults=[]), server, 1)
    ref.remote, ref.http_server = link0, server
    n = ref.spawn(download, name, name="get", cwd=ref.root)
    ref.run()
    if not n.ok:
        return violation("download-failed", f"undisturbed download: {n.describe()}")
    v = exact(want, ref.root, name, "undisturbed download")
    if v:
        return v
    total = len(link0.requests)
    for u in {u for _, u in link0.requests}:
        if u in server.enc:
            if server.enc[u][0]:
                c.probe("gzip")
            if server.enc[u][1] == "chunked":
                c.probe("chunked")
        else:
            c.probe("redirect")

    w = c.world(schedule=dict(plan["schedule"]))
    link = Link(plan, server, total)
    w.remote, w.http_server = link, server
    existing(plan, w.root)
    before = listing(w.root)
    if plan["disk"]:
        from . import c09
        d = plan["disk"]
        w.faults = [dict(d, node=0, count=0, fired=0, at=int(d["pos"] * c09.matching(ref, d)))]
    nodes = [w.spawn(download, name, name="get", cwd=w.root)]
    if plan["second"]:
        nodes.append(w.spawn(download, plan["second"], name="get2", cwd=w.root))
        c.probe("two at once" if plan["second"] == name else "two cases at once")
    w.run()
    disk = plan["disk"] and w.faults[0]["fired"]
    w.faults = []
    for n in nodes:
        if n.stopped:
            c.probe("killed")
    if disk and not nodes[0].stopped:
        c.probe("short write" if plan["disk"]["act"] == "short" else "disk fault")
    hits = "; ".join(f"{k} on {u.split('/')[-1][-30:]}" for _, k, u in link.hits) or (f"{plan['disk']['act']} on disk" if disk else
                                                                                 "no fault")
    for _, k, _ in link.hits:
        c.probe({"status": "http error", "cut": "truncated", "reset": "reset", "corrupt": "corrupt encoding"}.get(k, "connection"))
    if plan["target"]:
        c.probe("existing target")
        if nodes[0].ok and not nodes[0].stopped:
            return violation("target-not-refused", f"existing target ({plan['target']}): exit status 0")
        d = changed(before, listing(w.root))
        if d:
            return violation("target-changed", f"existing target ({plan['target']}): {d}")
        return None
    hard = disk and plan["disk"]["act"] in ("err",)
    same = plan["second"] == name
    oks = [n for n in nodes if n.ok]
    if same and len(oks) > 1:
        return violation("target-not-refused", "two downloads into the same folder both ended with status 0")
    for k, n in enumerate(nodes):
        which = name if k == 0 else plan["second"]
        hit = any(i == n.id for i, _, _ in link.hits) or (k == 0 and hard)
        if n.ok:
            v = exact(server.sets[which], w.root, which, hits)
            if v:
                return v
            c.probe("complete")
        elif not hit and not n.stopped and not (same and len(nodes) > 1 and refused(n)):
            return violation("download-failed", f"{hits}: download {k} of {len(nodes)}: {n.describe()}")
    if same and len(nodes) > 1 and not link.hits and not disk and not oks:
        return violation("download-failed", "two downloads at once: neither succeeded: "
                         + "; ".join(n.describe() for n in nodes))
    # ------------------------------------------------- the command once more
    link.left = [0] * len(plan["faults"])
    before = listing(w.root)
    there = os.path.lexists(f"{w.root}/{name}")
    n = w.spawn(download, name, name="again", cwd=w.root)
    w.run()
    if there:
        if n.ok:
            return violation("target-not-refused", f"after {hits}: the command again, over the folder, ended with status 0")
        d = changed(before, listing(w.root))
        if d:
            return violation("target-changed", f"after {hits}: the command again: {d}")
        c.probe("again refused")
    elif not n.ok:
        return violation("download-failed", f"after {hits}: the command again: {n.describe()}")
    else:
        return exact(want, w.root, name, f"after {hits}: the command again")
    return None


def refused(n):
    return n.exit and n.exit.get("type") == "FileExistsError"


def changed(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return f"{k} is gone"
        if k not in a:
            return f"{k} was added"
        if a[k] != b[k]:
            return f"{k} was changed"
    return None


def exact(want, root, name, what):
    got = listing(f"{root}/{name}")
    for k in sorted(want):
        if k not in got:
            return violation("missing-file", f"{what}: exit status 0, but {k} is missing")
        if got[k] != want[k]:
            return violation("wrong-content", f"{what}: exit status 0, but {k} has {len(got[k] or b'')} bytes "
                                              f"{(got[k] or b'')[:30]!r} instead of {len(want[k])} bytes {want[k][:30]!r}")
    return None


def shrink(plan):
    for k, v in (("redirect", False), ("nested", False), ("second", None), ("target", None), ("disk", None)):
        if plan[k]:
            yield dict(plan, **{k: v})
    for i in range(len(plan["faults"])):
        yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    for k in ("files", "extra"):
        if plan[k] > 0 and plan["files"] + plan["extra"] > 1:
            yield dict(plan, **{k: plan[k] - 1})
    for i, f in enumerate(plan["faults"]):
        if f["times"] > 1:
            yield dict(plan, faults=plan["faults"][:i] + [dict(f, times=1)] + plan["faults"][i + 1:])
