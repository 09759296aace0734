"""Compiles a small program against the built GUI library and runs it without a display."""
import os, subprocess
from demo_lib import TMP

BUILD = "/repo/_build"
QT = "/usr/include/x86_64-linux-gnu/qt5"
MODS = ["Core", "Gui", "Widgets", "Svg", "OpenGL", "PrintSupport", "Concurrent", "Test"]
BOOST = ["program_options", "filesystem", "atomic", "system", "random"]


def compile_cpp(source, gui=True, name="prog"):
    src, exe = os.path.join(TMP, name + ".cc"), os.path.join(TMP, name)
    with open(src, "w") as f:
        f.write(source)
    cmd = ["g++", "-std=c++17", "-O1", "-w", "-fPIC", "-fno-new-ttp-matching", "-include", "boost/current_function.hpp",
           "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION", "-DPROJECT_SOURCE_DIR=\"/repo\"", "-I/repo", "-I" + BUILD, "-I/repo/gui", "-I/repo/src", "-isystem", "/usr/include/libxml2"]
    if gui:
        cmd += ["-I" + BUILD + "/gui/scram-gui_autogen/include", "-DQT_NO_DEBUG", "-isystem", QT] + sum((["-isystem", QT + "/Qt" + m] for m in MODS), [])
    cmd += [src, "-o", exe, "-Wl,-rpath," + BUILD + "/lib/scram"]
    if gui:
        cmd += [BUILD + "/lib/scram/libscram-gui.a"]
    cmd += [BUILD + "/lib/scram/libscram.so", "-lxml2"] + ["-lboost_" + b for b in BOOST] + ["-ldl"]
    if gui:
        cmd += ["-lQt5" + m for m in MODS]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()[-2000:])
        raise SystemExit("cannot compile the demonstration")
    return exe


def run_cpp(exe, *args, timeout=120):
    """-> (exit status, output)"""
    env = dict(os.environ, QT_QPA_PLATFORM="offscreen", HOME=TMP, XDG_CONFIG_HOME=TMP, XDG_RUNTIME_DIR=TMP)
    # The program lies outside of the installation; the schemas are found relative to the executable.
    bindir = os.path.join(TMP, "inst", "bin")
    os.makedirs(bindir, exist_ok=True)
    if not os.path.exists(os.path.join(TMP, "inst", "share")):
        os.makedirs(os.path.join(TMP, "inst", "share"))
        os.symlink("/repo/_install/share/scram", os.path.join(TMP, "inst", "share", "scram"))
    dst = os.path.join(bindir, os.path.basename(exe))
    if os.path.exists(dst):
        os.unlink(dst)
    os.link(exe, dst)
    r = subprocess.run([dst] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=TMP)
    return r.returncode, r.stdout.decode(errors="replace")
