"""Builds the GUI of /repo's working tree with sanitizers, and its driver, into /verif/build."""
import os, re
import build
from build import REPO, VERIF, BUILD, read, run, link, header_hash, Variant, core_sources, SAN, LIBS

QT = "/usr/include/x86_64-linux-gnu/qt5"
MODS = ["Core", "Gui", "Widgets", "Svg", "OpenGL", "PrintSupport", "Concurrent", "Test"]


def put(p, data):
    if not os.path.exists(p) or read(p) != data:
        with open(p, "wb") as f:
            f.write(data)


def build_gui():
    core = build.build_core("asan")
    lk = build.lock()
    cv = Variant("asan", SAN)
    hh = header_hash(["src"])
    core_objs = [cv.compile(os.path.join(REPO, "src", s), hh=hh) for s in core_sources()]
    cv.flush()
    v = Variant("asan_gui", SAN)
    gen = os.path.join(v.dir, "gen")
    os.makedirs(gen, exist_ok=True)
    gui = os.path.join(REPO, "gui")
    for f in sorted(os.listdir(gui)):
        if f.endswith(".ui"):
            put(os.path.join(gen, "ui_" + f[:-3] + ".h"), run(["uic", os.path.join(gui, f)]))
    m = re.search(r"set\(SCRAM_GUI_SRC(.*?)\)", read(os.path.join(gui, "CMakeLists.txt")).decode(), re.S)
    srcs = [os.path.join(gui, s) for s in m.group(1).split() if s.endswith(".cpp")]
    mocs = []
    for f in sorted(os.listdir(gui)):
        if f.endswith((".h", ".cpp")) and b"Q_OBJECT" in read(os.path.join(gui, f)):
            if f.endswith(".cpp"):
                put(os.path.join(gen, f[:-4] + ".moc"), run(["moc", "-I" + gui, os.path.join(gui, f)]))
            else:
                out = os.path.join(gen, "moc_" + f[:-2] + ".cpp")
                put(out, run(["moc", "-p", gui, "-I" + gui, "-I" + REPO, os.path.join(gui, f)]))
                mocs.append(out)
    os.makedirs(os.path.join(gen, "src"), exist_ok=True)  # gui/main.cpp includes src/version.h
    put(os.path.join(gen, "src", "version.h"), read(os.path.join(v.gen, "version.h")))
    res = os.path.join(gen, "qrc_res.cpp")
    put(res, run(["rcc", "--name", "res", os.path.join(gui, "res.qrc")]))
    harness = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if re.match(r"gui_.*\.cc$", f)]
    h = hashed(gui, gen) + header_hash(["src", "gui"])
    h2 = h + "".join(read(os.path.join(VERIF, "harness", f)).decode() for f in ("gui_harness.h", "gui_diagram.h"))
    h2 += read(os.path.join(gui, "main.cpp")).decode()
    extra = ["-fPIC", "-O0", "-DQT_NO_DEBUG"]
    incs = ["-I" + gen, "-I" + gui, "-isystem", QT] + sum((["-isystem", QT + "/Qt" + x] for x in MODS), [])
    objs = [v.compile(s, extra, h, incs) for s in srcs + mocs] + [v.compile(res, extra, "", incs)]
    objs += [v.compile(s, extra, h2, incs) for s in harness]
    n = v.flush()
    b = os.path.join(v.dir, "bin")
    link(core_objs + objs, os.path.join(b, "gui_driver"), v.flags + ["-rdynamic"], LIBS + ["-lQt5" + x for x in MODS] + ["-lGL"])
    build.install_share(v.dir)
    install_translations(gui, v.dir)
    v.prune()
    lk.close()
    core["gui"] = os.path.join(b, "gui_driver")
    core["compiled"] += n
    return core


def install_translations(gui, dst):
    out = os.path.join(dst, "share", "scram", "translations")
    os.makedirs(out, exist_ok=True)
    names = re.findall(r"^\s*(scramgui_\w+)\.ts\s*$", read(os.path.join(gui, "translations", "CMakeLists.txt")).decode(), re.M)
    for n in names:
        src, qm, mark = os.path.join(gui, "translations", n + ".ts"), os.path.join(out, n + ".qm"), os.path.join(out, n + ".src")
        data = read(src)
        if not os.path.exists(qm) or not os.path.exists(mark) or read(mark) != data:
            run(["lrelease", "-silent", src, "-qm", qm])
            with open(mark, "wb") as f:
                f.write(data)
    for f in sorted(os.listdir(out)):
        if f.rsplit(".", 1)[0] not in names:
            os.remove(os.path.join(out, f))


def hashed(gui, gen):
    import hashlib
    h = hashlib.sha256()
    for d in (gui, gen):
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".ui", ".moc")):
                h.update(f.encode() + b"\0" + read(os.path.join(d, f)))
    return h.hexdigest()
