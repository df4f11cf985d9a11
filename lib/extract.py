"""Builds the extractor and runs it over translation units of /repo (parse only, nothing of /repo is executed)."""
import glob
import hashlib
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESX_REPO", "/repo")
SIM = os.path.join(REPO, "EnvironmentSimulator")
CACHE = os.environ.get("ESX_CACHE", os.path.join(VERIF, ".cache"))


class Broken(Exception):
    """The analysis cannot give an answer (anchor vanished, source does not parse, ...): exit 2."""


MODS = ["CommonMini", "RoadManager", "ScenarioEngine/OSCTypeDefs", "ScenarioEngine/SourceFiles", "Controllers",
        "ViewerBase", "PlayerBase"]


def flags():
    f = ["-std=c++17", "-w", "-DOSG_LIBRARY_STATIC", "-D_USE_OSG", "-D_USE_GTEST", "-DNDEBUG", "-DFMT_SHARED", "-ferror-limit=5"]
    for m in MODS:
        f.append("-I" + os.path.join(SIM, "Modules", m))
    for d in ("Applications/replayer", "Libraries/esminiLib", "Libraries/esminiRMLib"):
        f.append("-I" + os.path.join(SIM, d))
    f += ["-I" + os.path.join(REPO, "externals/yaml"), "-isystem", os.path.join(REPO, "externals/pugixml"),
          "-isystem", os.path.join(REPO, "externals/expr"), "-isystem", os.path.join(REPO, "externals/fmt/include")]
    return f


# sources that the pinned build configuration (no OSI, no SUMO, no ImPlot) leaves out
NOT_BUILT = {"ControllerSumo.cpp", "OSIReporter.cpp", "OSITrafficCommand.cpp", "OSISensorView.cpp", "Plot.cpp",
             "osi_receiver.cpp"}


def _sha(b):
    return hashlib.sha256(b).hexdigest()


def build_tool():
    src = os.path.join(VERIF, "tool", "esx.cpp")
    key = _sha(open(src, "rb").read())[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "esx-" + key)
    if os.path.exists(exe):
        return exe, key
    tmp = tempfile.mktemp(prefix="esx-", dir=CACHE)
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("cannot build the extractor: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe, key


_hdr = None


def header_hash():
    """Hash of every header of the tree (any of them may reach a translation unit)."""
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        fs = []
        for root in (SIM, os.path.join(REPO, "externals/pugixml"), os.path.join(REPO, "externals/yaml"),
                     os.path.join(REPO, "externals/expr")):
            for dp, dn, fn in os.walk(root):
                dn[:] = [d for d in dn if d not in ("Unittest", "code-examples", ".git")]
                for f in fn:
                    if f.endswith((".hpp", ".h", ".hh", ".inl", ".ipp")):
                        fs.append(os.path.join(dp, f))
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(f, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def tus(*groups):
    """groups: directory relative to EnvironmentSimulator (all its built .cpp files) or a single file."""
    res = []
    for g in groups:
        p = os.path.join(SIM, g)
        if os.path.isdir(p):
            for f in sorted(glob.glob(os.path.join(p, "*.cpp"))):
                if os.path.basename(f) not in NOT_BUILT:
                    res.append(f)
        elif os.path.exists(p):
            res.append(p)
        else:
            raise Broken("source file of the analysis is missing: " + g)
    out = []
    for f in res:
        if f not in out and os.path.basename(f) != "version.cpp":
            out.append(f)
    return out


ENGINE = ["Modules/CommonMini", "Modules/RoadManager", "Modules/ScenarioEngine/OSCTypeDefs",
          "Modules/ScenarioEngine/SourceFiles", "Modules/Controllers"]
ALL = ENGINE + ["Modules/PlayerBase", "Modules/ViewerBase", "Libraries/esminiLib", "Libraries/esminiRMLib",
                "Applications/esmini", "Applications/replayer", "Applications/odrviewer", "Applications/odrplot",
                "Applications/esmini-dyn"]


def extract(files):
    exe, key = build_tool()
    fl = flags()
    outdir = os.path.join(CACHE, "tu")
    os.makedirs(outdir, exist_ok=True)
    hh = header_hash()

    def one(f):
        k = _sha((key + hh + " ".join(fl) + f + REPO).encode() + open(f, "rb").read())[:32]
        out = os.path.join(outdir, os.path.basename(f) + "." + k + ".json")
        if os.path.exists(out):
            return f, out
        tmp = tempfile.mktemp(prefix="t-", dir=outdir)
        r = subprocess.run([exe, REPO, tmp, f, "--"] + fl, capture_output=True, text=True, cwd=outdir)
        if r.returncode != 0 or not os.path.exists(tmp):
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise Broken("cannot parse %s: %s" % (f, r.stderr[-1500:]))
        for old in glob.glob(os.path.join(outdir, os.path.basename(f) + ".*.json")):
            if os.path.getmtime(old) < os.path.getmtime(tmp) - 6 * 3600:
                try:
                    os.unlink(old)
                except OSError:
                    pass
        os.replace(tmp, out)
        return f, out

    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(one, files))


if __name__ == "__main__":
    build_tool()
    n = extract(tus(*ALL))
    print("extracted", len(n), "translation units")
