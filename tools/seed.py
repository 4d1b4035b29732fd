#!/usr/bin/env python3
"""Development tool: makes and confirms planted bugs.

usage: seed.py SPEC.py [id ...]
SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new[, count])], demo (C++), needs,
what_it_breaks, optional srcs ('core' or 'ssl'), flags.  For each one it edits a scratch copy of /repo, builds it, runs the
existing tests and the demonstration with and without the change, and writes /verif/seeded/<id>/ if all is as it has
to be.  (A planted bug that is no longer confirmed is reported, nothing is deleted.)"""
import json, os, shutil, subprocess, sys, runpy

SCRATCH = "/tmp/seed/r"
OUT = "/verif/seeded"
CORE = "Base64 Http HttpRequest HttpResponse Sha1 Socket SocketSelector TcpListener TcpSocket URL WebFrame"
U = r'''#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <string>
#include <thread>
#include <chrono>
#include <memory>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#define CHECK(c) do { if(!(c)) { printf("FAILED (line %d): %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while(0)
inline void make_pair_of_sockets(int fd[2]) { CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0); }
inline void write_all(int fd, const std::string &s) { size_t o = 0; while(o < s.size()) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); if(n <= 0) return; o += n; } }
inline std::string read_n(int fd, size_t n) { std::string r; char b[65536]; while(r.size() < n) { ssize_t k = ::read(fd, b, std::min(sizeof b, n - r.size())); if(k <= 0) break; r.append(b, k); } return r; }
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
inline bool is_open(int fd) { return fcntl(fd, F_GETFD) != -1; }
'''
def demo_sh(seed):
    srcs = " ".join("src/%s.cpp" % s for s in CORE.split())
    libs = "-lpthread"
    flags = seed.get("flags", "")
    if seed.get("srcs") == "ssl":
        srcs += " src/SSLSocket.cpp src/SSLListener.cpp"
        flags += " -DUSE_SSL"
        libs = "-lmbedtls -lmbedx509 -lmbedcrypto -lpthread"
    flags += " -DRECV_CHUNK_SIZE=4096 -DMAX_HTTP_HEADER_SIZE=0xC800 -DMAX_HTTP_BODY_SIZE=0xA00000 -DLISTEN_QUEUE_SIZE=100"
    return f'''#!/bin/bash
# Run in the repository's top directory: exits with 0 if the demonstrated property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
[ -n "$d" ] || exit 99
trap 'rm -r -- "$d"' EXIT
for f in "$here/demo.cpp" {srcs}; do
    g++ -std=c++14 -O1 -g -w {flags} -Iinclude -I"$here" -c "$f" -o "$d/$(basename "$f").o" &
    pids="$pids $!"
done
for p in $pids; do wait $p || exit 98; done
g++ {flags} "$d"/*.o -o "$d/demo" {libs} || exit 98
cd "$d" && DEMO_DIR="$here" timeout 120 "$d/demo"
'''

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

CMAKE = ["cmake", "-S", ".", "-B", "_build", "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
         "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DUSE_SSL=ON", "-DBUILD_WEBSOCK=ON",
         "-DBUILD_EXAMPLES=ON", "-DBUILD_TESTS=ON", "-DCMAKE_MODULE_PATH=/opt/vp/cmake"]

def prepare():
    if os.path.isdir("/tmp/seed/r"):
        shutil.rmtree("/tmp/seed/r")
    run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", SCRATCH])
    # generated files which git ignores
    run(["cp", "-n", "/repo/include/frnetlib/version.h", SCRATCH + "/include/frnetlib/version.h"])

def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("passed") or base.get("tests") or base
    if isinstance(names, dict): names = sum((v for v in names.values() if isinstance(v, list)), [])
    r = run(["bash", "-c", "cmake_out=$(%s 2>&1) && ninja -C _build" % " ".join(CMAKE)], cwd=SCRATCH)
    if r.returncode: return "build failed:\n" + r.stdout[-600:]
    r = run(["timeout", "120", "./_test"], cwd=SCRATCH + "/_build/tests")
    failed = [l for l in r.stdout.splitlines() if "FAILED  ]" in l]
    if r.returncode: return "tests failed: %s\n%s" % (r.returncode, "\n".join(failed) or r.stdout[-800:])
    return None

def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    prepare()
    bad = 0
    for s in seeds:
        if want and s["id"] not in want: continue
        subprocess.check_call(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
        tmp = "/tmp/seed/demo_" + s["id"]
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/u.hpp", "w").write(U)
        open(tmp + "/demo.cpp", "w").write('#include "u.hpp"\n' + s["demo"].lstrip())
        open(tmp + "/demo.sh", "w").write(demo_sh(s))
        os.chmod(tmp + "/demo.sh", 0o755)
        for extra in s.get("files", []):
            shutil.copy(extra, tmp)
        r0 = run(["bash", tmp + "/demo.sh"], cwd=SCRATCH)
        if r0.returncode:
            print(s["id"], "DEMO FAILS ON UNCHANGED TREE", r0.returncode, r0.stdout[-400:]); bad += 1; continue
        ok = True
        for e in s["edits"]:
            p = SCRATCH + "/" + e[0]
            t = open(p).read()
            if t.count(e[1]) != (e[3] if len(e) > 3 else 1):
                print(s["id"], "EDIT DOES NOT APPLY (%d)" % t.count(e[1]), e[0], repr(e[1])); ok = False; break
            open(p, "w").write(t.replace(e[1], e[2]))
        if not ok: bad += 1; continue
        patch = subprocess.run(["git", "-C", SCRATCH, "diff"], stdout=subprocess.PIPE, text=True).stdout
        r1 = run(["bash", tmp + "/demo.sh"], cwd=SCRATCH)
        if r1.returncode in (0, 98, 99):
            print(s["id"], "DEMO DOES NOT DETECT", r1.returncode, r1.stdout[-300:]); bad += 1; continue
        err = tests()
        if err:
            print(s["id"], "TESTS:", err); bad += 1; continue
        d = OUT + "/" + s["id"]
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(tmp): shutil.copy(tmp + "/" + f, d)
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "ok:", (r1.stdout.strip().splitlines() or ["rc %d" % r1.returncode])[-1][:150])
    shutil.rmtree("/tmp/seed/r")
    return bad

sys.exit(main())
