"""Builds the code under test (CUT) from /repo's working tree for the explorer, into a scratch directory."""
import glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC = "clang"

REDEF = """malloc free calloc realloc reallocarray aligned_alloc strdup strndup strlen strnlen strcpy strncpy strcat
strcmp strncmp memcpy memmove memset memcmp memchr printf fprintf puts putchar abort exit __assert_fail
__errno_location
mtx_init mtx_destroy mtx_lock mtx_unlock mtx_trylock mtx_timedlock cnd_init cnd_destroy cnd_wait cnd_timedwait
cnd_signal cnd_broadcast thrd_create thrd_join thrd_detach thrd_current thrd_equal thrd_yield thrd_sleep thrd_exit
usleep sleep nanosleep sched_yield call_once
pthread_create pthread_join pthread_detach pthread_self pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_unlock pthread_mutex_trylock pthread_cond_init pthread_cond_destroy pthread_cond_wait
pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_destroy
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
socket bind listen connect accept accept4 send sendto sendmsg write writev recv recvfrom recvmsg read readv close
shutdown fcntl ioctl setsockopt getsockopt getsockname getpeername unlink signal sigaction
epoll_create1 epoll_create epoll_ctl epoll_wait poll""".split()

CUTFLAGS = ("-std=gnu11 -O1 -g -fno-pic -fno-builtin -fno-zero-initialized-in-bss -femulated-tls -fsanitize=thread "
            "-mllvm -tsan-instrument-func-entry-exit=0 -fstack-protector-all -fno-omit-frame-pointer -w -Wno-implicit-function-declaration -Wno-int-conversion -Wno-incompatible-function-pointer-types -Wno-implicit-int -DGRACHT_BUILD").split()
HFLAGS = "-std=gnu11 -O2 -g -fno-pic -fno-builtin-malloc -Wall -Wno-unused-function".split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def runtime_sources():
    src = sorted(glob.glob(REPO + "/runtime/*.c")) + sorted(glob.glob(REPO + "/runtime/link/socket/*.c"))
    return [s for s in src if os.path.basename(s) not in ("dispatch_vali.c",)]


class Build:
    def __init__(self, scratch):
        self.d = scratch
        os.makedirs(scratch, exist_ok=True)
        with open(scratch + "/config.h", "w") as f:
            f.write("#ifndef VS_CONFIG_H\n#define VS_CONFIG_H\n#define HAVE_C11_THREADS\n#define HAVE_PTHREAD\n#endif\n")
        with open(scratch + "/syms", "w") as f:
            for s in REDEF:
                f.write("%s vs_%s\n" % (s, s))
            f.write("__emutls_get_address vs_emutls_get_address\n__stack_chk_fail vs_stack_chk_fail\n")
        with open(scratch + "/syms_arena", "w") as f:
            f.write("gracht_arena_allocate vs_arena_allocate\ngracht_arena_free vs_arena_free\n")
        self.inc = ["-I", REPO + "/include", "-I", scratch, "-I", REPO + "/runtime/link/socket",
                    "-I", VERIF + "/harness"]
        self.pool = ThreadPoolExecutor(8)
        self.jobs = {}

    def _cut(self, src, tag, extra):
        o = "%s/%s_%s.o" % (self.d, tag, os.path.relpath(src, "/").replace("/", "_"))
        run([CC] + CUTFLAGS + self.inc + extra + ["-c", src, "-o", o])
        sy = ["--redefine-syms=" + self.d + "/syms"]
        if not src.endswith("runtime/arena.c"):
            sy += ["--redefine-syms=" + self.d + "/syms_arena"]
        run(["objcopy"] + sy + ["--rename-section", ".data=vsdata,alloc,load,data,contents", o])
        return o

    def cut(self, srcs, tag="cut", extra=()):
        return [self.pool.submit(self._cut, s, tag, list(extra)) for s in srcs]

    def runtime(self):
        if "rt" not in self.jobs:
            self.jobs["rt"] = self.cut(runtime_sources(), "rt")
        return self.jobs["rt"]

    def _h(self, src, tag, extra):
        o = "%s/%s_%s.o" % (self.d, tag, os.path.basename(src))
        run([CC] + HFLAGS + self.inc + ["-I", VERIF + "/engine", "-I", VERIF + "/harness"] + extra + ["-c", src, "-o", o])
        return o

    def engine(self):
        if "en" not in self.jobs:
            self.jobs["en"] = [self.pool.submit(self._h, VERIF + "/engine/" + s, "en", []) for s in ("vs.c", "sim.c")]
        return self.jobs["en"]

    def stubs(self, gr):
        """what the repository's generator makes of a protocol file"""
        d = self.d + "/" + os.path.basename(gr) + ".out"
        os.makedirs(d, exist_ok=True)
        run(["python3", "-B", REPO + "/generator/parser.py", "--service", gr, "--out", d, "--lang-c", "--server", "--client"])
        self.inc += ["-I", d]
        return sorted(glob.glob(d + "/*.c"))

    def harness(self, src, tag="h", extra=()):
        return self.pool.submit(self._h, src, tag, list(extra))

    def link(self, out, futs):
        objs = [f.result() if hasattr(f, "result") else f for f in futs]
        out = self.d + "/" + out
        run([CC, "-no-pie", "-o", out] + objs + ["-lm", "-lpthread"])
        return out
