"""Writes the build overlay of the fault checks: every file-system call can be refused, shortened or be the
last one that happens, locks can be slowed down, and maps are walked in a fixed order so that a saved case
replays.

usage: fs.py GOROOT DIR
"""
import json, os, re, sys

goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
replace = {}


def put(path, text):
    to = os.path.join(out, path.replace("/", "_"))
    open(to, "w").write(text)
    replace[os.path.join(src, path)] = to


# name -> (file descriptor, buffer)
CALLS = {
    "faccessat": (), "faccessat2": (), "fchmodat": (), "fchmodat2": (), "linkat": (), "openat": (), "readlinkat": (),
    "symlinkat": (), "unlinkat": (), "utimensat": (), "Close": ("fd",), "Dup": ("oldfd",), "Dup3": ("oldfd",), "Fallocate": ("fd",),
    "Fchmod": ("fd",), "Fchownat": (), "Fdatasync": ("fd",), "Flock": ("fd",), "Fsync": ("fd",), "Getdents": ("fd",), "Mkdirat": (),
    "Mknodat": (), "read": ("fd", "p"), "write": ("fd", "p"), "Fchown": ("fd",), "Fstat": ("fd",), "Fstatfs": ("fd",), "Ftruncate": ("fd",),
    "pread": ("fd", "p"), "pwrite": ("fd", "p"), "Renameat": (), "Statfs": (), "SyncFileRange": ("fd",), "Truncate": (), "fstatat": (),
    "sendfile": ("outfd",), "Splice": ("rfd",),
}
path = "syscall/zsyscall_linux_amd64.go"
text = open(os.path.join(src, path)).read()
for name, args in CALLS.items():
    fd = args[0] if args else "-1"
    buf = args[1] if len(args) > 1 else None
    hook = "\tif SimFS != nil {\n\t\tmost, e := SimFS(%s, %s, %s)\n\t\tif e != 0 {\n\t\t\terr = e\n\t\t\treturn\n\t\t}\n" % (
        '"%s"' % name.lower(), "int(%s)" % fd, "len(%s)" % buf if buf else "0")
    if buf:
        hook += "\t\tif most < len(%s) {\n\t\t\t%s = %s[:most]\n\t\t}\n" % (buf, buf, buf)
    else:
        hook += "\t\t_ = most\n"
    hook += "\t}\n"
    text, n = re.subn(r"(\nfunc %s\([^\n]*\{\n)" % name, lambda m: m.group(1) + hook, text, count=1)
    if n != 1:
        sys.exit("overlay: %s has no %s" % (path, name))
put(path, text)
put("syscall/sim_overlay.go", '''package syscall

// SimFS is asked before every file-system call. It may refuse it, shorten it, or never return.
var SimFS func(call string, fd, n int) (most int, e Errno)
''')

path = "internal/runtime/maps/table.go"
text = open(os.path.join(src, path)).read()
for f in ("entryOffset", "dirOffset"):
    text, n = re.subn(r"it\.%s = rand\(\)" % f, "it.%s = 0" % f, text)
    if n != 1:
        sys.exit("overlay: %s has no %s" % (path, f))
put(path, text)
path = "os/proc.go"
text = open(os.path.join(src, path)).read()
text, n = re.subn(r"func Exit\(code int\) \{\n", "// SimExit is told before the process ends.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n", text, count=1)
if n != 1:
    sys.exit("overlay: os.Exit")
put(path, text)

def hook(path, func, to):
    text = open(os.path.join(src, path)).read()
    if text.count(func) != 1:
        sys.exit("overlay: %s has no %s" % (path, func))
    put(path, text.replace(func, to))


# a catalogue is opened by another process at another time
hook("os/exec.go", "func Getpid() int { return syscall.Getpid() }", """// SimPid says which process this is.
var SimPid func() int

func Getpid() int {
	if SimPid != nil {
		return SimPid()
	}
	return syscall.Getpid()
}
""")
hook("time/time.go", "func Now() Time {\n", """// SimNow says how much later it is.
var SimNow func() Duration

func Now() Time {
	if SimNow != nil {
		if d := SimNow(); d != 0 {
			return simNow().Add(d)
		}
	}
	return simNow()
}

func simNow() Time {
""")
for path, names in (("sync/mutex.go", ("Mutex",)), ("sync/rwmutex.go", ("RWMutex",))):
    text = open(os.path.join(src, path)).read()
    for t in names:
        for f in ("Lock", "Unlock") + (("RLock", "RUnlock") if t == "RWMutex" else ()):
            hook = "\tif SimLock != nil {\n\t\t%sSimLock(%s)\n\t}\n" % ("defer " if "Unlock" in f else "", "false" if "Unlock" in f else "true")
            text, n = re.subn(r"(\nfunc \(\w+ \*%s\) %s\(\) \{\n)" % (t, f), lambda m: m.group(1) + hook, text, count=1)
            if n != 1:
                sys.exit("overlay: %s has no %s.%s" % (path, t, f))
    put(path, text)
put("sync/sim_overlay.go", "package sync\n\n// SimLock is told before a lock is taken and after it was released.\nvar SimLock func(before bool)\n")
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"))
