#!/usr/bin/env python3
"""Builds one check binary from /repo's current working tree and the harness. Nothing is written to /repo.
usage: build.py CHECK [asan|plain|trace]  -> prints the path of the binary"""
import os, sys, subprocess, hashlib, fcntl, concurrent.futures as cf, glob, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO_DIR", "/repo")
SRC = os.path.join(REPO, "preload-src")
B = os.path.join(V, "build")

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), p.stdout)); sys.exit(2)
    return p.stdout

def makevars():
    mk = "include Makefile\nvp_print:\n\t@echo SRCS=$(SRCS)\n\t@echo 'CFLAGS=$(CFLAGS)'\n\t@echo CC=$(CC)\n\t@echo 'LDFLAGS=$(LDFLAGS)'\n"
    p = subprocess.run(["make", "-s", "-f", "-", "vp_print"], cwd=SRC, input=mk, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: sys.stderr.write(p.stderr); sys.exit(2)
    return dict(l.split("=", 1) for l in p.stdout.splitlines() if "=" in l)

def sha(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

CXX = ["g++", "-std=c++17", "-g", "-O2", "-U_FORTIFY_SOURCE", "-w", "-fno-omit-frame-pointer"]

def build(check, variant):
    import shlex
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mv = makevars()
        cfl = shlex.split(mv["CFLAGS"]); srcs = mv["SRCS"].split()
        glibc = shlex.split(subprocess.check_output(["pkg-config", "--cflags", "glib-2.0"], text=True))
        allsrc = [f for f in glob.glob(os.path.join(SRC, "src/**/*.[ch]"), recursive=True) if "/tests/" not in f]
        harness = glob.glob(os.path.join(V, "mc/*")) + [os.path.join(V, "tools/build.py")]
        dkey = sha(allsrc + [os.path.join(SRC, "Makefile"), os.path.join(V, "tools/build.py")], variant)
        hkey = sha(harness, variant)
        cfile = os.path.join(V, "checks", check + ".cpp")
        ckey = sha([cfile] + harness, variant)
        ddir = os.path.join(B, "daemon-%s-%s" % (variant, dkey)); hdir = os.path.join(B, "harness-%s-%s" % (variant, hkey))
        cobj = os.path.join(B, "check-%s-%s-%s.o" % (check, variant, ckey))
        out = os.path.join(B, "%s-%s" % (check, variant)); stamp = out + ".key"; key = " ".join([dkey, hkey, ckey])
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return out
        jobs = []
        san = ["-fsanitize=address"] if variant == "asan" else []
        def stale(prefix, keep):
            for f in glob.glob(os.path.join(B, prefix + "*")):
                if f != keep: shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
        with cf.ThreadPoolExecutor(8) as ex:
            if not os.path.exists(os.path.join(ddir, "ok")):
                stale("daemon-%s-" % variant, ddir); os.makedirs(ddir, exist_ok=True)
                for s in srcs:
                    o = os.path.join(ddir, s.replace("/", "_")[:-2] + ".o")
                    jobs.append(ex.submit(run, ["gcc"] + cfl + san + ["-g", "-O0", "-fno-pie", "-fno-common", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w", "-Dmain=preload_daemon_main", "-c", s, "-o", o], SRC))
            if not os.path.exists(os.path.join(hdir, "ok")):
                stale("harness-%s-" % variant, hdir); os.makedirs(hdir, exist_ok=True)
                for s in glob.glob(os.path.join(V, "mc/*.cpp")):
                    o = os.path.join(hdir, os.path.basename(s)[:-4] + ".o")
                    d = ["-DVOS_MALLOC"] if variant == "trace" else []
                    d += ["-DVOS_ASAN"] if variant == "asan" else []
                    jobs.append(ex.submit(run, CXX + ["-fno-pie"] + d + glibc + ["-I" + os.path.join(V, "mc"), "-c", s, "-o", o]))
            if not os.path.exists(cobj):
                stale("check-%s-%s-" % (check, variant), cobj)
                jobs.append(ex.submit(run, CXX + ["-fno-pie"] + cfl_includes(cfl) + glibc + ["-I" + os.path.join(V, "mc"), "-c", cfile, "-o", cobj]))
            for j in jobs: j.result()
        if not os.path.exists(os.path.join(ddir, "ok")):
            # the daemon's writable data in sections of its own, so that a restart can reset them
            for s in srcs:
                o = os.path.join(ddir, s.replace("/", "_")[:-2] + ".o")
                run(["objcopy", "--rename-section", ".data=dmn_data", "--rename-section", ".bss=dmn_bss,alloc", o])
            if variant == "trace": trace_calls(ddir, [os.path.join(ddir, s.replace("/", "_")[:-2] + ".o") for s in srcs])
            open(os.path.join(ddir, "ok"), "w").close()
        open(os.path.join(hdir, "ok"), "w").close()
        libs = shlex.split(mv["LDFLAGS"]) + ["-ldl", "-lpthread"]
        run(["g++"] + san + ["-no-pie", "-rdynamic", "-Wl,-z,now", "-o", out, cobj] + glob.glob(hdir + "/*.o") + glob.glob(ddir + "/*.o") + libs)
        open(stamp, "w").write(key)
        return out

def cfl_includes(cfl):
    r = []
    for c in cfl:
        if c.startswith("-I") and not os.path.isabs(c[2:]): r.append("-I" + os.path.join(SRC, c[2:]))
        elif c.startswith("-D"): r.append(c)
    return r

def trace_calls(ddir, objs):
    """Redirect every call the daemon makes to a shared library through a stub that announces it first."""
    und, dfn = set(), set()
    for o in objs:
        for l in run(["nm", o]).splitlines():
            t = l.split()
            if len(t) == 2 and t[0] == "U": und.add(t[1])
            elif len(t) == 3 and t[1] in "TDBRVWC": dfn.add(t[2])
    data = set()
    for so in ("libc.so.6", "libm.so.6", "libglib-2.0.so.0"):
        p = run(["gcc", "-print-file-name=" + so]).strip()
        if not os.path.isabs(p): sys.stderr.write("cannot find %s\n" % so); sys.exit(2)
        for l in run(["nm", "-D", p]).splitlines():
            t = l.split()
            if len(t) == 3 and t[1] in "BDRVG": data.add(t[2].split("@")[0])
    skip = {"__errno_location", "__stack_chk_fail", "_GLOBAL_OFFSET_TABLE_", "setjmp", "_setjmp"}
    f = sorted(s for s in und - dfn - data - skip if not s.startswith("__start_") and not s.startswith("__stop_"))
    for o in objs:
        run(["objcopy"] + sum([["--redefine-sym", "%s=mct_%s" % (s, s)] for s in f], []) + [o])
    a = ".section .rodata\n" + "".join("n_%d: .asciz \"%s\"\n" % (i, s) for i, s in enumerate(f)) + ".text\n"
    for i, s in enumerate(f):
        a += ".globl mct_%s\n.type mct_%s,@function\nmct_%s:\n  cmpb $0, vos_trace_on(%%rip)\n  je 1f\n  push $n_%d\n  call vos_trace_stub\n  add $8,%%rsp\n1: jmp *%s@GOTPCREL(%%rip)\n" % (s, s, s, i, s)
    a += """.globl vos_trace_stub
vos_trace_stub:
  push %rbp
  mov %rsp,%rbp
  push %rax
  push %rdi
  push %rsi
  push %rdx
  push %rcx
  push %r8
  push %r9
  push %r10
  push %r11
  and $-16,%rsp
  sub $128,%rsp
  movups %xmm0,(%rsp)
  movups %xmm1,16(%rsp)
  movups %xmm2,32(%rsp)
  movups %xmm3,48(%rsp)
  movups %xmm4,64(%rsp)
  movups %xmm5,80(%rsp)
  movups %xmm6,96(%rsp)
  movups %xmm7,112(%rsp)
  mov 16(%rbp),%rdi
  call vos_trace_call
  movups (%rsp),%xmm0
  movups 16(%rsp),%xmm1
  movups 32(%rsp),%xmm2
  movups 48(%rsp),%xmm3
  movups 64(%rsp),%xmm4
  movups 80(%rsp),%xmm5
  movups 96(%rsp),%xmm6
  movups 112(%rsp),%xmm7
  lea -72(%rbp),%rsp
  pop %r11
  pop %r10
  pop %r9
  pop %r8
  pop %rcx
  pop %rdx
  pop %rsi
  pop %rdi
  pop %rax
  pop %rbp
  ret
.section .note.GNU-stack,"",@progbits
"""
    p = os.path.join(ddir, "trace.s"); open(p, "w").write(a)
    run(["gcc", "-c", p, "-o", os.path.join(ddir, "trace.o")])

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "plain"))
