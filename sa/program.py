"""Extraction of /repo's current source into a typed, resolved program model."""
import hashlib, json, os, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


def source_files():
    out = []
    for root in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("test", "tests", "resources", "benchmarks"))
            for f in sorted(fs):
                if f.endswith(".cpp"):
                    out.append(os.path.join(d, f))
    return out


def _digest():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "stubs"),
                 os.path.join(VERIF, "tu"), os.path.join(VERIF, "extractor")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("test", "tests"))
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".hxx", ".inl", ".ipp")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def _resource_dir():
    return subprocess.run(["clang-18", "-print-resource-dir"], capture_output=True, text=True, check=True).stdout.strip()


def clang_args():
    return ["-std=c++17", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "stubs"),
            "-resource-dir", _resource_dir(), "-w", "-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR"]


def build_extractor():
    r = subprocess.run(["bash", os.path.join(VERIF, "extractor", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor does not build: " + r.stderr[-2000:])


def extract(verbose=False):
    """Run the extractor over every TU (cached on the digest of all analysed sources); return the list of JSON files."""
    build_extractor()
    dg = _digest()
    cdir = os.path.join(BUILD, "ast", dg)
    tus = source_files() + sorted(glob.glob(os.path.join(VERIF, "tu", "*.cpp")))
    outs = [os.path.join(cdir, "%03d.json" % i) for i in range(len(tus))]
    if os.path.exists(os.path.join(cdir, "done")):
        return tus, outs
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ast.", dir=BUILD)
    args = clang_args()
    ext = os.path.join(BUILD, "extract")

    def one(i):
        o = os.path.join(tmp, "%03d.json" % i)
        r = subprocess.run([ext, REPO, os.path.join(VERIF, "tu"), o, tus[i], "--"] + args, capture_output=True, text=True)
        return r.returncode, r.stderr, o

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # big ones first
        order = sorted(range(len(tus)), key=lambda i: -os.path.getsize(tus[i]))
        res = dict(zip(order, ex.map(one, order)))
    for i in range(len(tus)):
        rc, err, o = res[i]
        if rc != 0 or not os.path.exists(o):
            if tus[i].startswith(VERIF):
                # an instantiation helper that no longer matches the headers: analyse what the library itself instantiates
                sys.stderr.write("note: %s does not parse against the current headers\n" % tus[i])
                with open(o, "w") as fh:
                    fh.write('{"types":[],"fdecls":{},"recs":[],"enums":[],"globs":[],"funs":[]}')
                continue
            shutil.rmtree(tmp, ignore_errors=True)
            raise AnalysisError("cannot parse %s:\n%s" % (tus[i], err[-3000:]))
    open(os.path.join(tmp, "done"), "w").close()
    os.makedirs(os.path.join(BUILD, "ast"), exist_ok=True)
    # keep only a handful of cached digests
    olds = sorted((os.path.getmtime(os.path.join(BUILD, "ast", d)), d) for d in os.listdir(os.path.join(BUILD, "ast")))
    for _, d in olds[:-6]:
        shutil.rmtree(os.path.join(BUILD, "ast", d), ignore_errors=True)
    if os.path.exists(cdir):
        shutil.rmtree(cdir, ignore_errors=True)
    try:
        os.rename(tmp, cdir)
    except OSError:
        if not os.path.exists(os.path.join(cdir, "done")):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return tus, outs


class Program:
    """Merged program model.  Types are re-indexed into one table."""

    def __init__(self):
        self.types = []       # type dicts
        self._tkey = {}
        self.fdecls = {}      # id -> decl
        self.funs = {}        # id -> function with body
        self.recs = {}        # id -> record
        self.enums = {}       # qualified name -> enum
        self.globs = {}       # id -> variable
        self.tus = []

    # -- loading ---------------------------------------------------------------------------------
    @staticmethod
    def load():
        tus, outs = extract()
        p = Program()
        p.tus = tus
        with ThreadPoolExecutor(max_workers=4) as ex:
            for d in ex.map(lambda f: json.load(open(f)), outs):
                p._merge(d)
        p._index()
        return p

    def _merge(self, d):
        base = len(self.types)
        local = d["types"]
        mp = {}
        for i, t in enumerate(local):
            key = t["s"] + "|" + t.get("rec", "") + "|" + t["k"]
            if key in self._tkey:
                mp[i] = self._tkey[key]
                have = self.types[mp[i]]
                if "sz" in t and "sz" not in have:
                    have.update({k: v for k, v in t.items() if k not in ("to", "ta")})
            else:
                mp[i] = len(self.types)
                self._tkey[key] = mp[i]
                self.types.append(t)
                t["_new"] = 1
        for i, t in enumerate(local):
            if t.pop("_new", None):
                if "to" in t:
                    t["to"] = mp[t["to"]]
                if "ta" in t:
                    for a in t["ta"]:
                        if a and "t" in a:
                            a["t"] = mp[a["t"]]

        def m(x):
            return mp.get(x, -1)

        def fix(n):
            st = [n]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    for k in ("t", "ft", "vt", "at", "ct", "clt", "base"):
                        v = x.get(k)
                        if isinstance(v, int) and not isinstance(v, bool):
                            x[k] = m(v)
                    cv = x.get("cv")
                    if isinstance(cv, str):
                        x["cv"] = int(cv[1:])
                    st.extend(v for v in x.values() if isinstance(v, (dict, list)))
                else:
                    st.extend(v for v in x if isinstance(v, (dict, list)))

        for k, f in d["fdecls"].items():
            if k not in self.fdecls:
                f["p"] = [m(x) for x in f["p"]]
                f["r"] = m(f["r"])
                if "ta" in f:
                    for a in f["ta"]:
                        if a and "t" in a:
                            a["t"] = m(a["t"])
                f["id"] = k
                self.fdecls[k] = f
            else:
                have = self.fdecls[k]
                for kk in ("nodiscard", "repo"):
                    if kk in f:
                        have[kk] = f[kk]
        for r in d["recs"]:
            if r["id"] not in self.recs or ("f" in r and "f" not in self.recs[r["id"]]):
                fix(r.get("f", []))
                r["b"] = [m(x) for x in r.get("b", [])]
                self.recs[r["id"]] = r
            elif "m" in r:
                have = self.recs[r["id"]]
                for x in r["m"]:
                    if x not in have["m"]:
                        have["m"].append(x)
        for e in d["enums"]:
            self.enums.setdefault(e["q"], e)
        for g in d["globs"]:
            if g["id"] not in self.globs or ("init" in g and "init" not in self.globs[g["id"]]):
                fix(g)
                self.globs[g["id"]] = g
        for f in d["funs"]:
            if f["id"] not in self.funs:
                fix(f)
                self.funs[f["id"]] = f

    def _index(self):
        self.by_q = {}
        for i, f in self.funs.items():
            d = self.fdecls[i]
            f["decl"] = d
            f["q"] = d["q"]
            self.by_q.setdefault(d["q"], []).append(f)
        self.overriders = {}
        for i, d in self.fdecls.items():
            for o in d.get("ov", []):
                self.overriders.setdefault(o, []).append(i)

    # -- queries ---------------------------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def fns(self, qname):
        return self.by_q.get(qname, [])

    def rec_of_type(self, t):
        t = self.types[t] if isinstance(t, int) else t
        while t["k"] in ("ref", "ptr"):
            t = self.types[t["to"]]
        return self.recs.get(t.get("rec")) if t["k"] == "rec" else None

    def rec_by_q(self, q):
        return [r for r in self.recs.values() if r["q"] == q]

    def all_overriders(self, fid):
        out, st = [], [fid]
        while st:
            x = st.pop()
            for y in self.overriders.get(x, []):
                if y not in out:
                    out.append(y)
                    st.append(y)
        return out


def walk(n):
    """Pre-order over all AST dicts."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))
