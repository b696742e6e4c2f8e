#!/usr/bin/env python3
"""Cached builds of /repo's current working tree plus the /verif harnesses.

Object files are cached under /verif/build/obj, keyed by the compile command and
the contents of every (non-system) file the compile read, so a check only
recompiles what differs from the tree the cache was made from, and a stale
object can never be used.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
CXX = "g++-14"
BASE = ["-std=c++23", "-I" + os.path.join(VERIF, "shim"), "-I" + REPO, "-I" + VERIF]
PROFILES = {
    # plain: library assertions on, so that an out-of-bounds access is seen
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-w", "-ffunction-sections"],
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-w", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
LINK = {"plain": ["-Wl,--gc-sections"], "asan": ["-fsanitize=address,undefined"]}
NCPU = os.cpu_count() or 4

_sha = {}
_lock = threading.Lock()


def sha(path):
    with _lock:
        if path in _sha:
            return _sha[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = None
    with _lock:
        _sha[path] = h
    return h


def library_sources():
    """The library's own source list, read from its build file at run time."""
    with open(os.path.join(REPO, "gcs/CMakeLists.txt")) as f:
        text = f.read()
    m = re.search(r"add_library\(glasgow_constraint_solver\s+(.*?)\)", text, re.S)
    if not m:
        raise SystemExit("cannot find the library's source list")
    return [os.path.join(REPO, "gcs", s) for s in m.group(1).split() if s.endswith(".cc")]


class CompileError(Exception):
    pass


def compile_one(src, profile, extra=()):
    """Returns the path of an up to date object file for src."""
    flags = BASE + PROFILES[profile] + list(extra)
    ident = hashlib.sha256(json.dumps([CXX, flags, src]).encode()).hexdigest()[:24]
    os.makedirs(OBJ, exist_ok=True)
    man = os.path.join(OBJ, ident + ".json")
    entries = []
    try:
        with open(man) as f:
            entries = json.load(f)
    except (OSError, ValueError):
        pass
    for e in entries:
        if all(sha(p) == h for p, h in e["deps"].items()) and os.path.exists(os.path.join(OBJ, e["obj"])):
            return os.path.join(OBJ, e["obj"]), False
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=OBJ)
    os.close(fd)
    dep = tmp + ".d"
    # the files differ, but perhaps only in comments and layout
    p = subprocess.run([CXX] + flags + ["-E", "-P", "-MMD", "-MF", dep, src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    text = ident + "-" + hashlib.sha256(p.stdout).hexdigest()[:40] if p.returncode == 0 else None
    for e in entries:
        if text and e.get("text") == text and os.path.exists(os.path.join(OBJ, e["obj"])):
            os.unlink(tmp)
            os.unlink(dep)
            return os.path.join(OBJ, e["obj"]), False
    p = subprocess.run([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        for x in (tmp, dep):
            if os.path.exists(x):
                os.unlink(x)
        raise CompileError(f"{src}:\n{p.stdout[-4000:]}")
    with open(dep) as f:
        words = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    deps = {w: sha(w) for w in words}
    key = hashlib.sha256(json.dumps([ident, sorted(deps.items())]).encode()).hexdigest()[:24]
    os.rename(tmp, os.path.join(OBJ, key + ".o"))
    entries.insert(0, {"obj": key + ".o", "deps": deps, "text": text})
    with open(man + ".tmp%d" % threading.get_ident(), "w") as f:
        json.dump(entries[:6], f)
    os.rename(man + ".tmp%d" % threading.get_ident(), man)
    return os.path.join(OBJ, key + ".o"), True


def manifest_of(src, profile):
    return os.path.join(OBJ, hashlib.sha256(json.dumps([CXX, BASE + PROFILES[profile], src]).encode()).hexdigest()[:24] + ".json")


def units(srcs, profile):
    """What to compile: several sources at a time if little of it has been
    compiled before, since much of the time is the same headers again."""
    if len(srcs) < 60 or sum(os.path.exists(manifest_of(s, profile)) for s in srcs) * 2 > len(srcs):
        if os.environ.get("VERIF_UNITY") != "1" or len(srcs) < 60:
            return [[s] for s in srcs]
    try:
        with open(os.path.join(VERIF, "tools/unity.json")) as f:
            groups = json.load(f)
    except (OSError, ValueError):
        return [[s] for s in srcs]
    out, seen = [], set()
    for g in groups:
        members = [os.path.join({"repo": REPO, "verif": VERIF}[x.split(":")[0]], x.split(":")[1]) for x in g]
        members = [m for m in members if m in srcs and m not in seen]
        seen.update(members)
        if members:
            out.append(members)
    return [[s] for s in srcs if s not in seen] + out


def compile_unit(unit, profile):
    if len(unit) == 1:
        o, b = compile_one(unit[0], profile)
        return [o], int(b)
    os.makedirs(os.path.join(BUILD, "unity"), exist_ok=True)
    path = os.path.join(BUILD, "unity", hashlib.sha256(json.dumps(unit).encode()).hexdigest()[:16] + ".cc")
    text = "".join(f'#include "{s}"\n' for s in unit)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    try:
        o, b = compile_one(path, profile)
        return [o], int(b)
    except CompileError:
        # two of them use the same name for different things
        done = [compile_one(s, profile) for s in unit]
        return [o for o, _ in done], sum(b for _, b in done)


def compile_all(srcs, profile):
    todo = units(srcs, profile)
    if len(todo) < len(srcs):
        objs, errs, built = [], [], 0
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for f in concurrent.futures.as_completed([ex.submit(compile_unit, u, profile) for u in todo]):
                try:
                    o, b = f.result()
                    objs += o
                    built += b
                except CompileError as e:
                    errs.append(str(e))
        if errs:
            raise CompileError("\n".join(errs))
        return sorted(objs), built
    objs, errs, built = [None] * len(srcs), [], 0
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_one, s, profile): i for i, s in enumerate(srcs)}
        for f in concurrent.futures.as_completed(futs):
            try:
                objs[futs[f]], b = f.result()
                built += b
            except CompileError as e:
                errs.append(str(e))
    if errs:
        raise CompileError("\n".join(errs))
    return objs, built


def build(name, srcs, profile="plain", link=()):
    """Builds an executable from the given absolute source paths."""
    t = time.time()
    # longest first: the harness itself, then the library
    objs, built = compile_all(srcs, profile)
    out = os.path.join(BUILD, "bin", profile, name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    key = hashlib.sha256(json.dumps([objs, profile, list(link)]).encode()).hexdigest()
    try:
        with open(out + ".key") as f:
            if f.read() == key and os.path.exists(out):
                return out, built, time.time() - t
    except OSError:
        pass
    p = subprocess.run([CXX] + LINK[profile] + objs + ["-o", out + ".new", "-lstdc++exp", "-lpthread"] + list(link),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CompileError("link: " + p.stdout[-4000:])
    os.rename(out + ".new", out)
    with open(out + ".key", "w") as f:
        f.write(key)
    return out, built, time.time() - t


if __name__ == "__main__":
    print("\n".join(library_sources()))
