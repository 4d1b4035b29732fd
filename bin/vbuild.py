"""Builds a check's program from /repo's working tree.  Everything is keyed by content, so that an unchanged
tree is not compiled twice; nothing is written outside /verif/build."""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

WRAPS = ("recv recvfrom recvmsg read readv __read_chk __recv_chk send sendto sendmsg write writev poll ppoll __poll_chk select pselect "
         "connect socket bind listen accept accept4 close shutdown fcntl fcntl64 ioctl setsockopt getsockopt getaddrinfo "
         "freeaddrinfo getnameinfo getpeername getsockname clock_gettime gettimeofday nanosleep clock_nanosleep usleep sleep "
         "_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv").split()

DEFS = ["-DUSE_SSL", "-DNOMINMAX", "-Dhtonf", "-Dhtonll", "-Dntohll", "-Dhtond", "-Dntodh", "-DLISTEN_QUEUE_SIZE=64", "-DFRNETLIB_STATIC"]
LIMITS_DEFAULT = ["-DMAX_HTTP_HEADER_SIZE=0xC800", "-DMAX_HTTP_BODY_SIZE=0xA00000"]
BASE = ["-O1", "-g1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-Wno-attributes", "-w"]
ASAN = ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def headers(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith((".h", ".hpp", ".in", ".inc"))]
    return out

class Failed(Exception):
    pass

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Failed(" ".join(cmd) + "\n" + p.stdout[-6000:])

def obj(src, flags, hdrs_hash):
    key = hashlib.sha256((" ".join(flags) + src + hdrs_hash).encode() + open(src, "rb").read()).hexdigest()[:24]
    o = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        cc = "g++" if src.endswith((".cpp", ".cc")) else "gcc"
        run([cc, "-c", src, "-o", tmp] + flags)
        os.rename(tmp, o)
    else:
        os.utime(o)
    return o

def prune():
    """keep the cache small"""
    d = os.path.join(BUILD, "obj")
    fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d) if not f.endswith(".tmp")]
    b = os.path.join(BUILD, "bin")
    fs += [(os.path.getmtime(os.path.join(b, f)), os.path.join(b, f)) for f in os.listdir(b) if not f.endswith(".tmp")]
    fs.sort()
    total = sum(os.path.getsize(f) for _, f in fs)
    for _, f in fs:
        if total < 1500 << 20:
            break
        total -= os.path.getsize(f)
        os.unlink(f)

def build(name, harness, lib_flags=None, limits=None, san=ASAN, std="c++17", mc=True, simk=True, extra_src=(), libs=("ssl",),
          lib_std="c++14", harness_flags=(), link=(), lib_sources=None, opt=(), extra_wraps=(), rt_src=()):
    """returns the path of the program"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_SH)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "lib")]
    lim = limits or LIMITS_DEFAULT
    rh = tree_hash(headers(os.path.join(REPO, "include"), os.path.join(REPO, "src")))
    vh = tree_hash(headers(os.path.join(VERIF, "lib"), os.path.join(VERIF, "harness")))
    common = BASE + list(opt) + list(san)
    jobs = []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        if lib_sources is None or os.path.basename(s) in lib_sources:
            jobs.append((s, common + ["-std=" + lib_std] + DEFS + lim + inc + list(lib_flags or []), rh))
    hf = common + ["-std=" + std] + DEFS + lim + inc + ["-include", os.path.join(VERIF, "lib", "std.hpp")] + list(harness_flags)
    jobs.append((os.path.join(VERIF, "harness", harness), hf, rh + vh))
    for s in extra_src:
        jobs.append((os.path.join(VERIF, s), hf, rh + vh))
    for s in rt_src:
        jobs.append((os.path.join(VERIF, s), BASE + ["-O2", "-std=c++17"] + inc, vh))
    if mc:
        jobs.append((os.path.join(VERIF, "lib", "mc.cpp"), BASE + ["-O2"] + list(san) + ["-std=c++17"] + inc, vh))
    if simk:
        jobs.append((os.path.join(VERIF, "lib", "simk.cpp"), common + ["-std=c++17"] + inc, vh))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    lf = list(san) + ["-g1"] + list(link)
    if simk:
        lf += ["-Wl,--wrap=" + w for w in WRAPS]
    lf += ["-Wl,--wrap=" + w for w in extra_wraps]
    if "ssl" in libs:
        lf += ["-Wl,-Bstatic", "-lmbedtls", "-lmbedx509", "-lmbedcrypto", "-Wl,-Bdynamic"]
    lf += ["-lpthread"]
    key = hashlib.sha256((" ".join(objs) + " ".join(lf)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", name + "." + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run(["g++", "-o", tmp] + objs + lf)
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    lock.close()
    return exe
