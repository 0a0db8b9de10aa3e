"""Offline incremental build of SMASH (/repo/src, working tree) plus harnesses.

Object cache keyed by content: an object is reused when the translation unit's
flags and the contents of every /repo or /verif file it includes are unchanged,
or when its preprocessed text (comments and line markers dropped) is unchanged.
Nothing is written outside /verif/build.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GEN = os.path.join(BUILD, "gen")
JOBS = os.cpu_count() or 8
CXX = "g++"
EXCLUDE = {"rootoutput", "hepmcoutput", "hepmcinterface", "rivetoutput", "tsc"}

_STD = ["-D_GLIBCXX_ASSERTIONS", "-include",
        os.path.join(VERIF, "lib", "asserts.h")]
VARIANTS = {
    "dbg": ["-O1"] + _STD,
    "san": ["-O1"] + _STD + ["-fno-omit-frame-pointer",
            "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined"],
}


class BuildError(Exception):
    pass


_hash_memo = {}


def fhash(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _hash_memo:
        with open(path, "rb") as f:
            _hash_memo[k] = hashlib.sha256(f.read()).hexdigest()
    return _hash_memo[k]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def generate_headers():
    """What cmake's configure step and copy_file_contents_to_string.cmake do."""
    for name in ("particles.txt", "decaymodes.txt"):
        with open(os.path.join(REPO, "input", name)) as f:
            text = f.read()
        write_if_changed(os.path.join(GEN, name + ".h"),
                         'const char data[] = R"SMASHDATA(' + text +
                         ')SMASHDATA";\n')
    with open(os.path.join(REPO, "src/include/smash/config.h.in")) as f:
        text = f.read()
    vals = {"SMASH_VERSION_VERBOSE": "SMASH-verif", "CMAKE_SYSTEM": "Linux",
            "CMAKE_CXX_COMPILER_ID": "GNU", "CMAKE_BUILD_TYPE": "Verif",
            "CMAKE_CXX_COMPILER_VERSION": "13", "SMASH_VERSION": "SMASH-verif"}
    text = text.replace("#cmakedefine", "#define")
    text = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "none"), text)
    text = re.sub(r"\$\{(\w+)\}", lambda m: vals.get(m.group(1), "none"), text)
    write_if_changed(os.path.join(GEN, "smash/config.h"), text)


def base_flags():
    tp = os.path.join(REPO, "3rdparty")
    return ["-DGCC_COMPILER", "-DLITTLE_ENDIAN_ARCHITECTURE", "-DPYTHIA_FOUND",
            '-DPYTHIA_XML_DIR="none"', "-I" + os.path.join(VERIF, "stub"),
            "-I" + os.path.join(REPO, "src/include"), "-I" + GEN,
            "-isystem", tp + "/Cuba-4.2.2", "-isystem", tp + "/einhard",
            "-isystem", tp + "/yaml-cpp-0.8.0/include",
            "-isystem", "/usr/include/eigen3", "-std=c++17", "-fno-math-errno",
            "-w"]


def sources():
    """name -> (path, compiler, flags-without-variant)"""
    res = {}
    for p in sorted(glob.glob(os.path.join(REPO, "src/*.cc"))):
        n = os.path.splitext(os.path.basename(p))[0]
        if n not in EXCLUDE:
            res[n] = (p, CXX, base_flags())
    res["verif_kit"] = (os.path.join(VERIF, "lib/smashkit.cc"), CXX,
                        base_flags() + ["-I" + os.path.join(VERIF, "lib")])
    tp = os.path.join(REPO, "3rdparty")
    for p in sorted(glob.glob(tp + "/yaml-cpp-0.8.0/src/*.cpp")):
        n = "yaml_" + os.path.splitext(os.path.basename(p))[0]
        res[n] = (p, CXX, ["-I" + tp + "/yaml-cpp-0.8.0/include", "-w",
                           "-std=c++17", "-DYAML_CPP_STATIC_DEFINE"])
    res["einhard"] = (tp + "/einhard/einhard.cpp", CXX,
                      ["-I" + tp + "/einhard", "-w", "-std=c++17"])
    cuba = tp + "/Cuba-4.2.2"
    cf = ["-DHAVE_ALLOCA_H", "-DHAVE_GETLOADAVG", "-DHAVE_SHMGET",
          "-DNOUNDERSCORE", "-DREALSIZE=8", "-I" + cuba,
          "-I" + cuba + "/src/common", "-w"]
    for d, f in (("cuhre", "Cuhre"), ("suave", "Suave"),
                 ("divonne", "Divonne"), ("vegas", "Vegas"),
                 ("common", "Data"), ("common", "Global")):
        res["cuba_" + f] = ("%s/src/%s/%s.c" % (cuba, d, f), "gcc",
                            ["-I%s/src/%s" % (cuba, d)] + cf)
    return res


def tracked(path):
    return path.startswith(REPO + "/") or path.startswith(VERIF + "/") or \
        path.startswith(GEN)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="replace", **kw)


class Builder:
    def __init__(self, variant, quiet=False):
        self.variant = variant
        self.vflags = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        self.quiet = quiet
        for d in ("obj", "manifest", "exe", "closure"):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        generate_headers()
        self.src = sources()
        self.fresh = {}
        self.compiled = 0
        self.reused_pp = 0

    # -- one translation unit -------------------------------------------------
    def _man_path(self, name):
        return os.path.join(self.dir, "manifest", name + ".json")

    def _load_man(self, name):
        try:
            with open(self._man_path(name)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return []

    def _save_man(self, name, man):
        tmp = self._man_path(name) + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(man[:6], f)
        os.replace(tmp, self._man_path(name))
        keep = {e["obj"] for e in man[:6]}
        for e in man[6:]:
            if e["obj"] not in keep:
                try:
                    os.unlink(os.path.join(self.dir, "obj", e["obj"]))
                except OSError:
                    pass

    def _match(self, e, fl):
        if e["flags"] != fl:
            return False
        try:
            for p, h in e["deps"].items():
                if fhash(p) != h:
                    return False
        except OSError:
            return False
        return os.path.exists(os.path.join(self.dir, "obj", e["obj"]))

    def _pp(self, path, cc, flags):
        r = sh([cc] + flags + ["-E", "-P", path])
        if r.returncode:
            raise BuildError("preprocessing %s failed:\n%s" %
                             (path, r.stderr[-4000:]))
        return hashlib.sha256(r.stdout.encode()).hexdigest()

    def tu(self, name, path=None, cc=None, flags=None):
        """returns the object path of an up-to-date object"""
        if name in self.fresh:
            return self.fresh[name]
        if path is None:
            path, cc, flags = self.src[name]
        flags = flags + (["-O2", "-D_GLIBCXX_ASSERTIONS"] if name.startswith(
            ("yaml_", "einhard", "cuba_")) else self.vflags)
        fl = hashlib.sha256(json.dumps([cc] + flags + [path]).encode()
                            ).hexdigest()
        man = self._load_man(name)
        for i, e in enumerate(man):
            if self._match(e, fl):
                if i:
                    man.insert(0, man.pop(i))
                    self._save_man(name, man)
                self.fresh[name] = os.path.join(self.dir, "obj", e["obj"])
                return self.fresh[name]
        pp = None
        if any(e["flags"] == fl for e in man):
            pp = self._pp(path, cc, flags)
            for e in man:
                o = os.path.join(self.dir, "obj", e["obj"])
                if e["flags"] == fl and e.get("pp") == pp and \
                        os.path.exists(o):
                    deps = {}
                    for p in e["deps"]:
                        try:
                            deps[p] = fhash(p)
                        except OSError:
                            pass
                    man.insert(0, dict(e, deps=deps))
                    self._save_man(name, man)
                    self.reused_pp += 1
                    self.fresh[name] = o
                    return o
        tmp = os.path.join(self.dir, "obj", "%s.%d.tmp" % (name, os.getpid()))
        r = sh([cc] + flags + ["-MD", "-MF", tmp + ".d", "-c", path, "-o",
                               tmp + ".o"])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" %
                             (path, r.stderr[-6000:]))
        with open(tmp + ".d") as f:
            d = f.read()
        os.unlink(tmp + ".d")
        d = d.split(":", 1)[1].replace("\\\n", " ").split()
        deps = {os.path.abspath(p): None for p in d if
                tracked(os.path.abspath(p))}
        deps = {p: fhash(p) for p in deps}
        if pp is None:
            pp = self._pp(path, cc, flags)
        obj = "%s.%s.o" % (name, hashlib.sha256((fl + pp).encode()
                                               ).hexdigest()[:16])
        final = os.path.join(self.dir, "obj", obj)
        os.replace(tmp + ".o", final)
        man.insert(0, {"flags": fl, "deps": deps, "pp": pp, "obj": obj})
        self._save_man(name, man)
        self.compiled += 1
        self.fresh[name] = final
        return final

    def tus(self, names):
        names = [n for n in names if n not in self.fresh]
        # largest first
        names.sort(key=lambda n: -os.path.getsize(self.src[n][0]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(self.tu, n) for n in names]:
                f.result()

    def lib_names(self):
        return [n for n in self.src if n != "smash"]

    # -- a harness ------------------------------------------------------------
    def stale_obj(self, name):
        if name in self.fresh:
            return self.fresh[name]
        man = self._load_man(name)
        for e in man:
            o = os.path.join(self.dir, "obj", e["obj"])
            if os.path.exists(o):
                return o
        return None

    def exe(self, ident, extra_flags=(), main_tu=None):
        """builds checks/<ident>.cc (or the TU main_tu of SMASH) -> path"""
        cl_path = os.path.join(self.dir, "closure", ident + ".json")
        try:
            with open(cl_path) as f:
                closure = json.load(f)
            closure = [n for n in closure if n in self.src]
        except (OSError, ValueError):
            closure = None
        hname = "check_" + ident
        hflags = base_flags() + ["-I" + os.path.join(VERIF, "lib")] + \
            list(extra_flags)
        with cf.ThreadPoolExecutor(1) as ex:
            if main_tu:
                fut = ex.submit(self.tu, main_tu)
            else:
                fut = ex.submit(self.tu, hname, os.path.join(
                    VERIF, "checks", ident + ".cc"), CXX, hflags)
            self.tus(closure if closure is not None else self.lib_names())
            hobj = fut.result()
        for _ in range(6):
            objs = {}
            for n in self.lib_names():
                o = self.stale_obj(n)
                if o:
                    objs[n] = o
            key = hashlib.sha256(json.dumps(
                [hobj, sorted((n, objs.get(n)) for n in
                              (closure if closure is not None else objs))]
            ).encode()).hexdigest()[:16]
            out = os.path.join(self.dir, "exe", "%s.%s" % (ident, key))
            if closure is not None and os.path.exists(out):
                return out
            arch = out + ".%d.a" % os.getpid()
            r = sh(["ar", "rcsT", arch] + sorted(objs.values()))
            if r.returncode:
                raise BuildError("ar failed: " + r.stderr)
            r = sh([CXX] + self.vflags + ["-o", out + ".tmp", hobj, "-lstdc++", "-lm", arch,
                                          "-lgsl", "-lgslcblas", "-ldl",
                                          "-lpthread", "-Wl,--trace"])
            os.unlink(arch)
            if r.returncode:
                if len(self.fresh) < len(self.lib_names()):
                    self.tus(self.lib_names())
                    closure = None
                    continue
                raise BuildError("linking %s failed:\n%s" %
                                 (ident, r.stderr[-5000:]))
            inv = {os.path.basename(o): n for n, o in objs.items()}
            used = set()
            for m in re.finditer(r"([\w.\-]+\.o)\b", r.stdout):
                if m.group(1) in inv:
                    used.add(inv[m.group(1)])
            stale = [n for n in used if n not in self.fresh]
            if stale:
                before = {n: objs[n] for n in stale}
                self.tus(stale)
                closure = sorted(used | set(closure or []))
                if any(self.fresh[n] != before[n] for n in stale):
                    continue
            new_closure = sorted(used)
            if closure != new_closure:
                with open(cl_path, "w") as f:
                    json.dump(new_closure, f)
                closure = new_closure
                key = hashlib.sha256(json.dumps(
                    [hobj, sorted((n, objs.get(n)) for n in closure)]
                ).encode()).hexdigest()[:16]
                final = os.path.join(self.dir, "exe", "%s.%s" % (ident, key))
            else:
                final = out
            os.replace(out + ".tmp", final)
            for old in glob.glob(os.path.join(self.dir, "exe", ident + ".*")):
                if old != final:
                    try:
                        os.unlink(old)
                    except OSError:
                        pass
            return final
        raise BuildError("link closure did not converge")


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()
