"""Content-synchronised build of /repo's working tree, plus the harnesses."""
import fcntl, os, re, shutil, subprocess, hashlib, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
COPY = os.path.join(BUILD, "repo")
BIN = os.path.join(BUILD, "b")
BINP = os.path.join(BUILD, "p")
CLASSES = os.path.join(BUILD, "classes")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
GENERATED = {"src/git_SHA1.cpp", "src/util/force_inline.hpp"}
ENV = {k: v for k, v in os.environ.items()
       if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CMAKE_GENERATOR", "Blitz", "HDF5_DIR")}
ENV["LC_ALL"] = "C"


class BuildError(Exception):
    pass


def _sh(cmd, log, timeout=1500):
    with open(log, "w") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
    if r.returncode:
        with open(log) as f:
            tail = f.read()[-3000:]
        raise BuildError("%s failed:\n%s" % (" ".join(cmd[:3]), tail))


def sync():
    """Make COPY equal to REPO (contents), touching only files that differ."""
    want = {}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        rel = "" if rel == "." else rel
        if rel == "":
            dirs[:] = [d for d in dirs if d not in (".git", "_build", "doc")]
        dirs[:] = [d for d in dirs if d != ".git"]
        for f in files:
            p = os.path.join(rel, f) if rel else f
            full = os.path.join(root, f)
            if p in GENERATED or not os.path.isfile(full):
                continue
            want[p] = full
    changed = False
    for p, src in want.items():
        dst = os.path.join(COPY, p)
        with open(src, "rb") as f:
            data = f.read()
        try:
            with open(dst, "rb") as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as f:
            f.write(data)
    for root, dirs, files in os.walk(COPY):
        rel = os.path.relpath(root, COPY)
        rel = "" if rel == "." else rel
        for f in files:
            p = os.path.join(rel, f) if rel else f
            if p not in want and p not in GENERATED:
                os.remove(os.path.join(root, f))
    h = hashlib.sha1()
    for p in sorted(want):
        h.update(p.encode() + b"\n")
        if os.path.basename(p) == "CMakeLists.txt" or p.startswith("cmake/"):
            with open(want[p], "rb") as f:
                h.update(f.read())
    hd = os.path.join(VERIF, "harness")
    for p in sorted(os.listdir(hd)):
        h.update(p.encode() + b"\n")
        if p.endswith(("CMakeLists.txt", ".cmake")):
            with open(os.path.join(hd, p), "rb") as f:
                h.update(f.read())
    return h.hexdigest()


# state that the harnesses set up or see and that has no interface: the member
# of that type, whatever its name
MEMBERS = [("MOC_BOUNDARY", "src/sweepers/moc/moc_sweeper.hpp", r"std::vector<BoundaryCondition>\s+(\w+)\s*;", "boundary_"),
           ("MOC_RAYS", "src/sweepers/moc/moc_sweeper.hpp", r"RayData\s+(\w+)\s*;", "rays_"),
           ("MOC_XSTR", "src/sweepers/moc/moc_sweeper.hpp", r"ExpandedXS\s+(\w+)\s*;", "xstr_"),
           ("MOC_SPLIT", "src/sweepers/moc/moc_sweeper.hpp", r"ArrayB1\s+(\w*split\w*)\s*;", "split_"),
           ("SN_INCOMING", "src/sweepers/sn/sn_sweeper.hpp", r"BoundaryCondition\s+(\w+)\s*;", "bc_in_")]


def members():
    text = ""
    for name, header, pattern, usual in MEMBERS:
        try:
            with open(os.path.join(REPO, header)) as f:
                src = f.read()
        except OSError:
            src = ""
        found = re.findall(pattern, src)
        text += "#define %s %s\n" % (name, usual if usual in found or not found else found[0])
    out = os.path.join(BUILD, "gen/members.hpp")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out).read() != text:
        with open(out, "w") as f:
            f.write(text)


def java():
    src = os.path.join(VERIF, "java/tlc2/module/F64.java")
    out = os.path.join(CLASSES, "tlc2/module/F64.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    _sh(["javac", "-cp", TLAJAR, "-d", CLASSES, src], os.path.join(BUILD, "javac.log"))


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(targets):
    """Build the named targets from the current working tree of REPO."""
    with lock():
        java()
        os.makedirs(COPY, exist_ok=True)
        key = sync()
        members()
        for inst in (False, True):
            some = [t for t in targets if t.startswith("p_") == inst]
            if some or not (targets or inst):
                _tree(BINP if inst else BIN, key, some, inst)


def _tree(out, key, targets, inst):
    """One build tree; inst: every memory access calls the recorder of harness/par"""
    stamp = os.path.join(out, "configured")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    name = os.path.basename(out)
    if old != key:
        os.makedirs(out, exist_ok=True)
        _sh(["cmake", "-S", COPY, "-B", out, "-G", "Ninja", "-Wno-dev",
             "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
             "-DCMAKE_BUILD_TYPE=", "-DBUILD_TESTS=false",
             "-DVERIF_HARNESS=" + os.path.join(VERIF, "harness"),
             "-DVERIF_INST=" + ("ON" if inst else "OFF"),
             "-DCMAKE_PROJECT_MOCC_INCLUDE=" + os.path.join(VERIF, "harness/inject.cmake"),
             "-DCMAKE_CXX_FLAGS=-O2 -g1 " + ("-fsanitize=thread " if inst else "") +
             "-isystem /usr/include/eigen3 -isystem "
             "/usr/include/hdf5/serial -include /opt/vp/cmake/compat.hpp"] +
            (["-DCMAKE_EXE_LINKER_FLAGS=-fno-sanitize=all -pthread"] if inst else []),
            os.path.join(BUILD, name + "-cmake.log"))
        with open(stamp, "w") as f:
            f.write(key)
    if targets:
        _sh(["ninja", "-C", out, "-j8"] + list(targets), os.path.join(BUILD, name + "-ninja.log"))


def exe(name):
    if name == "mocc":
        return os.path.join(BIN, "src/mocc")
    if name.startswith("p_"):
        return os.path.join(BINP, "harness", name)
    return os.path.join(BIN, "harness", name)
