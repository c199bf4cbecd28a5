// Package simk is the simulated kernel the program under test runs on: a
// descriptor table over simfs, with faults injected at numbered system calls.
package simk

import (
	"encoding/base64"
	"encoding/json"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"midisim/simfs"
	"midisim/spec"
)

var (
	Active bool
	Spec   spec.Spec

	fs       *simfs.FS
	cwd      int
	fds      map[int]*desc
	free     int64
	nth      = map[string]int{}
	ended    = map[int]int64{} // inode -> premature end
	umask    uint32
	logging  bool
	anyCount int
	randS    uint64
)

type desc struct {
	n       *simfs.Inode
	path    string
	flags   int
	off     int64
	std     int // 1, 2: standard streams
	wrote   bool
	low     int64
	entries []string
}

const vfdBase = 100

func init() {
	if os.Getenv("MIDISIM") == "" {
		return
	}
	os.Unsetenv("MIDISIM")
	os.Unsetenv("MIDISIM_SEED")
	os.Unsetenv("GOGC")
	os.Unsetenv("GOMAXPROCS")
	b := []byte{}
	buf := make([]byte, 65536)
	for {
		n, _, e := syscall.RawSyscall(syscall.SYS_READ, 3, uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			die("cannot read the run description: " + e.Error())
		}
		if n == 0 {
			break
		}
		b = append(b, buf[:n]...)
	}
	if err := json.Unmarshal(b, &Spec); err != nil {
		die("bad run description: " + err.Error())
	}
	boot()
}

func boot() {
	s := &Spec
	fs = Populate(s.Files, s.Clock)
	fds = map[int]*desc{}
	stdin = &desc{n: &simfs.Inode{Ino: -1, Kind: simfs.File, Mode: 0o600, Data: s.Stdin}, path: "stdin"}
	fds[0] = stdin
	fds[1] = &desc{std: 1, path: "stdout"}
	fds[2] = &desc{std: 2, path: "stderr"}
	free = s.Free
	umask = s.Umask
	cwd = simfs.Root
	randS = s.Rand
	if s.Cwd != "" {
		if n := fs.Must(s.Cwd); n != nil {
			cwd = n.Ino
		}
	}
	if s.Args != nil {
		os.Args = append([]string(nil), s.Args...)
	}
	syscall.SimPid = s.Pid
	syscall.SimUid = s.Uid
	syscall.SimEnv = s.EnvAny
	Active = true
	runtime.SimStart(&runtime.SimConfig{
		SchedSeed: s.Sched.Seed, YieldSeed: s.Sched.YieldSeed, YieldMean: s.Sched.YieldMean,
		Policy: s.Sched.Policy, Budget: s.Budget, MaxAlloc: s.MaxAlloc, MaxTotal: s.MaxTotal,
		Clock: s.Clock, NCPU: int32(s.NCPU),
		Explicit: s.Sched.Explicit, Picks: s.Sched.Picks, Yields: s.Sched.Yields, Trace: s.Sched.Trace,
	})
	syscall.SimHook = hook
}

// Populate builds the initial disk.
func Populate(files []spec.File, clock int64) *simfs.FS {
	f := simfs.New()
	f.Now = clock
	for _, x := range files {
		dir, name, n, e := f.Walk(simfs.Root, x.Path, 0, false)
		if e != "" {
			die("bad initial file " + x.Path + ": " + e)
		}
		if n != nil {
			if x.Kind == "d" {
				n.Mode, n.Uid = x.Mode, x.Uid
				continue
			}
			die("duplicate initial file " + x.Path)
		}
		if x.Kind == "h" {
			f.Apply(simfs.Effect{Op: "link", Dir: dir.Ino, Name: name, Ino: f.Must(x.To).Ino})
			continue
		}
		data := x.Data
		if x.Kind == "l" {
			data = []byte(x.To)
		}
		k := f.Apply(simfs.Effect{Op: "create", Dir: dir.Ino, Name: name, Kind: x.Kind[0], Mode: x.Mode, Uid: x.Uid, Data: data})
		f.Inodes[k].Mtime = clock - 3600e9
		if x.Mtime != 0 {
			f.Inodes[k].Mtime = x.Mtime
		}
	}
	f.Now = clock
	return f
}

func die(s string) {
	Log("! " + s)
	runtime.SimCrash(96)
}

// Log writes one line to the run's event log. It draws no randomness and
// reads no clock.
func Log(s string) {
	b := append([]byte(s), '\n')
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, 4, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 95, 0, 0)
		}
		b = b[n:]
	}
}

func effect(e simfs.Effect) int {
	r := fs.Apply(e)
	b, _ := json.Marshal(e)
	Log("E " + string(b))
	return r
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT, "EPIPE": syscall.EPIPE,
	"ENOTDIR": syscall.ENOTDIR, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG,
	"EFBIG": syscall.EFBIG, "EROFS": syscall.EROFS, "ESTALE": syscall.ESTALE, "EAGAIN": syscall.EAGAIN,
	"EISDIR": syscall.EISDIR, "ENFILE": syscall.ENFILE, "EBADF": syscall.EBADF, "ENOMEM": syscall.ENOMEM,
}

func no(e string) syscall.Errno {
	if x, ok := errnos[e]; ok {
		return x
	}
	die("unknown errno " + e)
	return 0
}

// fault returns the fault to inject at this system call, if any.
func fault(cls string) *spec.Fault {
	for len(Spec.Others) > 0 && Spec.Others[0].At <= anyCount {
		for _, x := range Spec.Others[0].Effects {
			fs.Apply(x)
			b, _ := json.Marshal(x)
			Log("I " + string(b))
		}
		Spec.Others = Spec.Others[1:]
	}
	k := nth[cls]
	nth[cls]++
	a := anyCount
	anyCount++
	for i := range Spec.Faults {
		f := &Spec.Faults[i]
		if (f.Cls == cls && (f.Nth == k || f.Nth == -1)) || (f.Cls == "any" && f.Nth == a) {
			Log("F " + strconv.Itoa(i) + " " + cls + " " + f.Kind)
			if f.Kind == "pause" {
				crash()
			}
			return f
		}
	}
	return nil
}

func op(cls, path string, r int, e syscall.Errno) {
	s := "O " + cls + " " + strconv.Quote(path) + " " + strconv.Itoa(r)
	if e != 0 {
		s += " " + e.Error()
	}
	Log(s)
}

func crash() { runtime.SimCrash(99) }

func cstr(p uintptr) string {
	var b []byte
	for i := uintptr(0); ; i++ {
		c := *(*byte)(unsafe.Pointer(p + i))
		if c == 0 {
			return string(b)
		}
		b = append(b, c)
	}
}

func mem(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

const enoent = syscall.ENOENT

var rnd runtime.SimRand

var calls int

// stall has the calling goroutine wait for a slow device.
func stall() {
	k := calls
	calls++
	for i := range Spec.Stalls {
		if x := &Spec.Stalls[i]; x.At == k || x.At == -1 {
			Log("T stall")
			var r runtime.SimRand // another thread, with randomness of its own, may go on
			r.Save()
			time.Sleep(time.Duration(x.For))
			r.Restore()
		}
	}
}

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno, handled bool) {
	runtime.SimPoint()
	stall()
	rnd.Save() // the kernel's own maps must not draw from the program's
	r, e := call(trap, a1, a2, a3, a4, a5, a6)
	rnd.Restore()
	if e != 0 {
		return ^uintptr(0), 0, e, true
	}
	return uintptr(r), 0, 0, true
}

func base(dirfd uintptr) (int, syscall.Errno) {
	if int32(dirfd) == -100 {
		return cwd, 0
	}
	d := fds[int(int32(dirfd))]
	if d == nil {
		return 0, syscall.EBADF
	}
	if d.n == nil || d.n.Kind != simfs.Dir {
		return 0, syscall.ENOTDIR
	}
	return d.n.Ino, 0
}

const atFDCWD = ^uintptr(99)

func call(trap, a1, a2, a3, a4, a5, a6 uintptr) (int, syscall.Errno) {
	switch trap {
	case syscall.SYS_READ:
		return read(int(int32(a1)), mem(a2, a3), -1)
	case syscall.SYS_PREAD64:
		return read(int(int32(a1)), mem(a2, a3), int64(a4))
	case syscall.SYS_WRITE:
		return write(int(int32(a1)), mem(a2, a3), -1)
	case syscall.SYS_PWRITE64:
		return write(int(int32(a1)), mem(a2, a3), int64(a4))
	case syscall.SYS_READV, syscall.SYS_WRITEV:
		total := 0
		for i := uintptr(0); i < a3; i++ {
			iov := (*syscall.Iovec)(unsafe.Pointer(a2 + i*unsafe.Sizeof(syscall.Iovec{})))
			b := mem(uintptr(unsafe.Pointer(iov.Base)), uintptr(iov.Len))
			var k int
			var e syscall.Errno
			if trap == syscall.SYS_READV {
				k, e = read(int(int32(a1)), b, -1)
			} else {
				k, e = write(int(int32(a1)), b, -1)
			}
			if e != 0 {
				if total > 0 {
					return total, 0
				}
				return 0, e
			}
			total += k
			if k < len(b) {
				break
			}
		}
		return total, 0
	case syscall.SYS_OPEN:
		return open(atFDCWD, cstr(a1), int(a2), uint32(a3))
	case syscall.SYS_OPENAT:
		return open(a1, cstr(a2), int(a3), uint32(a4))
	case syscall.SYS_CREAT:
		return open(atFDCWD, cstr(a1), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a2))
	case syscall.SYS_CLOSE:
		return closefd(int(int32(a1)))
	case syscall.SYS_FSTAT:
		return fstat(int(int32(a1)), a2)
	case syscall.SYS_STAT:
		return stat(atFDCWD, cstr(a1), a2, 0)
	case syscall.SYS_LSTAT:
		return stat(atFDCWD, cstr(a1), a2, 0x100)
	case syscall.SYS_NEWFSTATAT:
		return stat(a1, cstr(a2), a3, int(a4))
	case syscall.SYS_LSEEK:
		return lseek(int(int32(a1)), int64(a2), int(a3))
	case syscall.SYS_MKDIR:
		return mkdir(atFDCWD, cstr(a1), uint32(a2))
	case syscall.SYS_MKDIRAT:
		return mkdir(a1, cstr(a2), uint32(a3))
	case syscall.SYS_UNLINK:
		return unlink(atFDCWD, cstr(a1), 0)
	case syscall.SYS_RMDIR:
		return unlink(atFDCWD, cstr(a1), 0x200)
	case syscall.SYS_UNLINKAT:
		return unlink(a1, cstr(a2), int(a3))
	case syscall.SYS_RENAME:
		return rename(atFDCWD, cstr(a1), atFDCWD, cstr(a2), 0)
	case syscall.SYS_RENAMEAT:
		return rename(a1, cstr(a2), a3, cstr(a4), 0)
	case 316: // renameat2
		return rename(a1, cstr(a2), a3, cstr(a4), int(a5))
	case syscall.SYS_LINK:
		return link(atFDCWD, cstr(a1), atFDCWD, cstr(a2))
	case syscall.SYS_LINKAT:
		return link(a1, cstr(a2), a3, cstr(a4))
	case syscall.SYS_SYMLINK:
		return symlink(cstr(a1), atFDCWD, cstr(a2))
	case syscall.SYS_SYMLINKAT:
		return symlink(cstr(a1), a2, cstr(a3))
	case syscall.SYS_READLINK:
		return readlink(atFDCWD, cstr(a1), mem(a2, a3))
	case syscall.SYS_READLINKAT:
		return readlink(a1, cstr(a2), mem(a3, a4))
	case syscall.SYS_TRUNCATE:
		return truncate(nil, cstr(a1), int64(a2))
	case syscall.SYS_FTRUNCATE:
		d := fds[int(int32(a1))]
		if d == nil {
			return 0, syscall.EBADF
		}
		return truncate(d, "", int64(a2))
	case syscall.SYS_FALLOCATE:
		return 0, syscall.EOPNOTSUPP
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, 277:
		d := fds[int(int32(a1))]
		if d == nil {
			return 0, syscall.EBADF
		}
		if f := fault("sync"); f != nil {
			if f.Kind == "crash" {
				crash()
			}
			op("sync", d.path, -1, no(f.Kind))
			return 0, no(f.Kind)
		}
		if d.n != nil {
			Log("D " + strconv.Itoa(d.n.Ino))
		}
		op("sync", d.path, 0, 0)
		return 0, 0
	case syscall.SYS_SYNC, 306:
		Log("D *")
		return 0, 0
	case syscall.SYS_FLOCK, syscall.SYS_FADVISE64, syscall.SYS_READAHEAD:
		return 0, 0
	case syscall.SYS_UTIMENSAT:
		ns := int64(0)
		const utimeNow, utimeOmit = 1<<30 - 1, 1<<30 - 2
		ts := (*[2]syscall.Timespec)(unsafe.Pointer(a3))
		switch {
		case a3 == 0 || ts[1].Nsec == utimeNow:
			ns = fs.Now
		case ts[1].Nsec == utimeOmit:
			return 0, 0
		default:
			ns = ts[1].Nano()
		}
		if a2 == 0 {
			d := fds[int(int32(a1))]
			if d == nil {
				return 0, syscall.EBADF
			}
			return meta(d, 0, "", simfs.Effect{Op: "utime", Off: ns})
		}
		return meta(nil, a1, cstr(a2), simfs.Effect{Op: "utime", Off: ns})
	case syscall.SYS_UTIMES:
		ns := fs.Now
		if a2 != 0 {
			ns = (*[2]syscall.Timeval)(unsafe.Pointer(a2))[1].Nano()
		}
		return meta(nil, atFDCWD, cstr(a1), simfs.Effect{Op: "utime", Off: ns})
	case syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
		return meta(nil, atFDCWD, cstr(a1), simfs.Effect{Op: "chown", Uid: int(int32(a2))})
	case syscall.SYS_FCHOWNAT:
		return meta(nil, a1, cstr(a2), simfs.Effect{Op: "chown", Uid: int(int32(a3))})
	case syscall.SYS_FCHOWN:
		d := fds[int(int32(a1))]
		if d == nil {
			return 0, syscall.EBADF
		}
		return meta(d, 0, "", simfs.Effect{Op: "chown", Uid: int(int32(a2))})
	case syscall.SYS_STATFS, syscall.SYS_FSTATFS:
		st := (*syscall.Statfs_t)(unsafe.Pointer(a2))
		*st = syscall.Statfs_t{Type: 0xef53, Bsize: 1, Blocks: 1 << 40, Namelen: 255}
		st.Bfree = 1 << 39
		if free >= 0 {
			st.Bfree = uint64(free)
		}
		st.Bavail = st.Bfree
		return 0, 0
	case syscall.SYS_SYSINFO:
		si := (*syscall.Sysinfo_t)(unsafe.Pointer(a1))
		*si = syscall.Sysinfo_t{Uptime: int64(Spec.Rand % 100000), Totalram: 8 << 30, Freeram: 1<<30 + Spec.Rand%(1<<30), Procs: uint16(50 + Spec.Rand%200), Unit: 1}
		return 0, 0
	case syscall.SYS_CHMOD:
		return meta(nil, atFDCWD, cstr(a1), simfs.Effect{Op: "chmod", Mode: uint32(a2) & 0o777})
	case syscall.SYS_FCHMODAT, 452:
		return meta(nil, a1, cstr(a2), simfs.Effect{Op: "chmod", Mode: uint32(a3) & 0o777})
	case syscall.SYS_FCHMOD:
		d := fds[int(int32(a1))]
		if d == nil {
			return 0, syscall.EBADF
		}
		return meta(d, 0, "", simfs.Effect{Op: "chmod", Mode: uint32(a2) & 0o777})
	case syscall.SYS_ACCESS:
		return access(atFDCWD, cstr(a1), uint32(a2))
	case syscall.SYS_FACCESSAT, 439:
		return access(a1, cstr(a2), uint32(a3))
	case syscall.SYS_GETDENTS64:
		return getdents(int(int32(a1)), mem(a2, a3))
	case syscall.SYS_GETCWD:
		p := pathOf(cwd) + "\x00"
		b := mem(a1, a2)
		if len(b) < len(p) {
			return 0, syscall.ERANGE
		}
		copy(b, p)
		return len(p), 0
	case syscall.SYS_CHDIR:
		_, _, n, e := fs.Walk(cwd, cstr(a1), Spec.Uid, true)
		if e != "" {
			return 0, no(e)
		}
		if n == nil {
			return 0, enoent
		}
		if n.Kind != simfs.Dir {
			return 0, syscall.ENOTDIR
		}
		cwd = n.Ino
		return 0, 0
	case syscall.SYS_UMASK:
		o := umask
		umask = uint32(a1) & 0o777
		return int(o), 0
	case syscall.SYS_FCNTL:
		d := fds[int(int32(a1))]
		if d == nil {
			return 0, syscall.EBADF
		}
		switch a2 {
		case 0, 1030: // F_DUPFD
			return newfd(d, int(a3)), 0
		case 3:
			return d.flags, 0
		}
		return 0, 0
	case syscall.SYS_DUP:
		d := fds[int(int32(a1))]
		if d == nil {
			return 0, syscall.EBADF
		}
		return newfd(d, vfdBase), 0
	case syscall.SYS_IOCTL:
		if d := fds[int(int32(a1))]; d != nil && (d.n == nil || d == stdin) && stdKind(int(int32(a1))) == 't' {
			switch a2 {
			case syscall.TCGETS:
				*(*syscall.Termios)(unsafe.Pointer(a3)) = syscall.Termios{}
				return 0, 0
			case syscall.TIOCGWINSZ:
				*(*[4]uint16)(unsafe.Pointer(a3)) = [4]uint16{25, 40, 0, 0}
				return 0, 0
			}
		}
		return 0, syscall.ENOTTY
	case syscall.SYS_UNAME:
		u := (*syscall.Utsname)(unsafe.Pointer(a1))
		*u = syscall.Utsname{}
		host := "simhost"
		if Spec.Host != "" {
			host = Spec.Host
		}
		for i, c := range host {
			u.Nodename[i] = int8(c)
		}
		return 0, 0
	case 318: // getrandom
		b := mem(a1, a2)
		for i := range b {
			randS = randS*6364136223846793005 + 1442695040888963407
			b[i] = byte(randS >> 40)
		}
		return len(b), 0
	case 326, 40, 275: // copy_file_range, sendfile, splice: callers fall back
		return 0, syscall.ENOSYS
	case 332, 437: // statx, openat2: callers fall back
		return 0, syscall.ENOSYS
	case syscall.SYS_MADVISE, syscall.SYS_MPROTECT:
		return 0, 0
	}
	Log("! unsupported system call " + strconv.Itoa(int(trap)))
	runtime.SimCrash(96)
	return 0, syscall.ENOSYS
}

func pathOf(ino int) string {
	for _, p := range fs.Paths() {
		if n := fs.Must(p); n != nil && n.Ino == ino {
			return p
		}
	}
	return "/"
}

func newfd(d *desc, min int) int {
	if min < vfdBase {
		min = vfdBase
	}
	for i := min; ; i++ {
		if fds[i] == nil {
			fds[i] = d
			return i
		}
	}
}

func open(dirfd uintptr, path string, flags int, mode uint32) (int, syscall.Errno) {
	fail := func(e syscall.Errno) (int, syscall.Errno) {
		op("open", path, -1, e)
		return 0, e
	}
	if f := fault("open"); f != nil {
		if f.Kind == "crash" {
			crash()
		}
		return fail(no(f.Kind))
	}
	b, e := base(dirfd)
	if e != 0 {
		return fail(e)
	}
	if strings.HasPrefix(path, "/dev/tty") || strings.HasPrefix(path, "/proc/") || strings.HasPrefix(path, "/sys/") {
		return fail(enoent)
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
	dir, name, n, es := fs.Walk(b, path, Spec.Uid, follow)
	if es != "" {
		return fail(no(es))
	}
	acc := flags & 3
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return fail(enoent)
		}
		if strings.HasSuffix(path, "/") {
			return fail(syscall.EISDIR)
		}
		if !dir.Perm(Spec.Uid, 3) {
			return fail(syscall.EACCES)
		}
		ino := effect(simfs.Effect{Op: "create", Dir: dir.Ino, Name: name, Kind: simfs.File, Mode: mode &^ umask & 0o777, Uid: Spec.Uid})
		n = fs.Inodes[ino]
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return fail(syscall.EEXIST)
		}
		if n.Kind == simfs.Link {
			return fail(syscall.ELOOP)
		}
		want := uint32(0)
		if acc == syscall.O_RDONLY || acc == syscall.O_RDWR {
			want |= 4
		}
		if acc != syscall.O_RDONLY {
			want |= 2
		}
		if n.Kind == simfs.Dir && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return fail(syscall.EISDIR)
		}
		if n.Kind != simfs.Dir && flags&syscall.O_DIRECTORY != 0 {
			return fail(syscall.ENOTDIR)
		}
		if !n.Perm(Spec.Uid, want) {
			return fail(syscall.EACCES)
		}
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && n.Kind == simfs.File {
			if free >= 0 {
				free += int64(len(n.Data))
			}
			effect(simfs.Effect{Op: "trunc", Ino: n.Ino})
		}
	}
	fd := newfd(&desc{n: n, path: path, flags: flags, low: 1 << 62}, vfdBase)
	op("open", path, fd, 0)
	return fd, 0
}

func read(fd int, b []byte, at int64) (int, syscall.Errno) {
	d := fds[fd]
	if d == nil || d.std != 0 || (fd != 0 && d.flags&3 == syscall.O_WRONLY) {
		return 0, syscall.EBADF
	}
	off := d.off
	if at >= 0 {
		off = at
	}
	max := len(b)
	if f := fault("read"); f != nil {
		switch f.Kind {
		case "crash":
			crash()
		case "short":
			if int(f.Arg) > 0 && int(f.Arg) < max {
				max = int(f.Arg)
			}
		case "eof":
			if d.n.Kind == simfs.File {
				ended[d.n.Ino] = off
			}
		case "flip":
			if d.n.Kind == simfs.File && len(d.n.Data) > 0 {
				i := int(f.Arg>>3) % len(d.n.Data)
				d.n.Data[i] ^= 1 << (f.Arg & 7)
			}
		default:
			op("read", d.path, -1, no(f.Kind))
			return 0, no(f.Kind)
		}
	}
	if d.n.Kind == simfs.Dir {
		op("read", d.path, -1, syscall.EISDIR)
		return 0, syscall.EISDIR
	}
	if d.n.Kind == simfs.Null {
		op("read", d.path, 0, 0)
		return 0, 0
	}
	data := d.n.Data
	if e, ok := ended[d.n.Ino]; ok && e < int64(len(data)) {
		data = data[:e]
	}
	n := 0
	if off < int64(len(data)) {
		n = copy(b[:max], data[off:])
	}
	if at < 0 {
		d.off += int64(n)
	}
	op("read", d.path, n, 0)
	return n, 0
}

func write(fd int, b []byte, at int64) (int, syscall.Errno) {
	d := fds[fd]
	if d == nil || (d.std == 0 && d.flags&3 == syscall.O_RDONLY) {
		return 0, syscall.EBADF
	}
	cls := "write"
	if d.std != 0 {
		cls = "stdout"
		if d.std == 2 {
			cls = "stderr"
		}
	}
	max := len(b)
	torn := false
	dead := false
	if f := fault(cls); f != nil {
		switch f.Kind {
		case "crash":
			dead = true
			max = int(f.Arg)
		case "short":
			if int(f.Arg) > 0 && int(f.Arg) < max {
				max = int(f.Arg)
			}
		case "torn":
			torn = true
			max = int(f.Arg)
		default:
			op(cls, d.path, -1, no(f.Kind))
			return 0, no(f.Kind)
		}
		if max > len(b) {
			max = len(b)
		}
	}
	b = b[:max]
	if d.std != 0 {
		if len(b) > 0 {
			Log("S " + strconv.Itoa(d.std) + " " + base64.StdEncoding.EncodeToString(b))
		}
		if dead {
			crash()
		}
		if torn {
			op(cls, d.path, -1, syscall.EIO)
			return 0, syscall.EIO
		}
		op(cls, d.path, len(b), 0)
		return len(b), 0
	}
	switch d.n.Kind {
	case simfs.Null:
		op(cls, d.path, len(b), 0)
		return len(b), 0
	case simfs.Full:
		op(cls, d.path, -1, syscall.ENOSPC)
		return 0, syscall.ENOSPC
	}
	off := d.off
	if at >= 0 {
		off = at
	}
	if d.flags&syscall.O_APPEND != 0 {
		off = int64(len(d.n.Data))
	}
	if free >= 0 {
		grow := off + int64(len(b)) - int64(len(d.n.Data))
		if grow > free {
			k := int64(len(b)) - (grow - free)
			if k <= 0 && len(b) > 0 {
				Log("F -1 write ENOSPC")
				op(cls, d.path, -1, syscall.ENOSPC)
				return 0, syscall.ENOSPC
			}
			b = b[:k]
			grow = free
		}
		if grow > 0 {
			free -= grow
		}
	}
	if len(b) > 0 {
		effect(simfs.Effect{Op: "write", Ino: d.n.Ino, Off: off, Data: b})
		d.wrote = true
		if off < d.low {
			d.low = off
		}
	}
	if dead {
		crash()
	}
	if at < 0 {
		d.off = off + int64(len(b))
	}
	if torn {
		op(cls, d.path, -1, syscall.EIO)
		return 0, syscall.EIO
	}
	op(cls, d.path, len(b), 0)
	return len(b), 0
}

func closefd(fd int) (int, syscall.Errno) {
	d := fds[fd]
	if d == nil {
		return 0, syscall.EBADF
	}
	shared := 0
	for _, x := range fds {
		if x == d {
			shared++
		}
	}
	f := fault("close")
	if f != nil && f.Kind == "crash" {
		crash()
	}
	delete(fds, fd)
	if f != nil {
		e := syscall.EIO
		if f.Kind == "lost" {
			if d.wrote && shared == 1 && d.n.Kind == simfs.File {
				to := d.low + f.Arg
				if to < int64(len(d.n.Data)) {
					effect(simfs.Effect{Op: "trunc", Ino: d.n.Ino, Off: to})
				}
			}
		} else {
			e = no(f.Kind)
		}
		op("close", d.path, -1, e)
		return 0, e
	}
	op("close", d.path, 0, 0)
	return 0, 0
}

func fill(p uintptr, n *simfs.Inode) {
	st := (*syscall.Stat_t)(unsafe.Pointer(p))
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = uint64(n.Ino)
	st.Nlink = uint64(n.Links)
	st.Uid = uint32(n.Uid)
	st.Gid = uint32(n.Uid)
	st.Mode = n.Mode
	switch n.Kind {
	case simfs.Dir:
		st.Mode |= syscall.S_IFDIR
	case simfs.Link:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.To))
	case simfs.File:
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(n.Data))
	default:
		st.Mode |= syscall.S_IFCHR
		st.Rdev = 259
	}
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(n.Mtime)
	st.Atim = st.Mtim
	st.Ctim = st.Mtim
}

func statfault(path string) (syscall.Errno, bool) {
	if f := fault("stat"); f != nil {
		if f.Kind == "crash" {
			crash()
		}
		op("stat", path, -1, no(f.Kind))
		return no(f.Kind), true
	}
	return 0, false
}

var stdin *desc

// stdKind is what a standard stream is connected to: t a terminal, p a pipe, f
// a file, otherwise the null device.
func stdKind(fd int) byte {
	if fd >= 0 && fd < len(Spec.Std) {
		return Spec.Std[fd]
	}
	return 'n'
}

func fstat(fd int, p uintptr) (int, syscall.Errno) {
	d := fds[fd]
	if d == nil {
		return 0, syscall.EBADF
	}
	if e, ok := statfault(d.path); ok {
		return 0, e
	}
	if d.n == nil || d == stdin {
		fill(p, &simfs.Inode{Ino: 90 + d.std, Kind: simfs.Null, Mode: 0o666})
		st := (*syscall.Stat_t)(unsafe.Pointer(p))
		switch stdKind(fd) {
		case 'p':
			st.Mode = st.Mode&^syscall.S_IFMT | syscall.S_IFIFO
		case 'f':
			st.Mode = st.Mode&^syscall.S_IFMT | syscall.S_IFREG
		case 't':
			st.Rdev = 136 << 8
		}
		op("stat", d.path, 0, 0)
		return 0, 0
	}
	fill(p, d.n)
	op("stat", d.path, 0, 0)
	return 0, 0
}

func stat(dirfd uintptr, path string, p uintptr, flags int) (int, syscall.Errno) {
	if path == "" && flags&0x1000 != 0 {
		return fstat(int(int32(dirfd)), p)
	}
	if e, ok := statfault(path); ok {
		return 0, e
	}
	b, e := base(dirfd)
	if e != 0 {
		op("stat", path, -1, e)
		return 0, e
	}
	_, _, n, es := fs.Walk(b, path, Spec.Uid, flags&0x100 == 0)
	if es == "" && n == nil {
		es = "ENOENT"
	}
	if es != "" {
		op("stat", path, -1, no(es))
		return 0, no(es)
	}
	fill(p, n)
	op("stat", path, 0, 0)
	return 0, 0
}

func lseek(fd int, off int64, whence int) (int, syscall.Errno) {
	d := fds[fd]
	if d == nil {
		return 0, syscall.EBADF
	}
	if d.n == nil || (d.n.Kind != simfs.File && d.n.Kind != simfs.Dir) {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 0:
	case 1:
		off += d.off
	case 2:
		off += int64(len(d.n.Data))
	default:
		return 0, syscall.EINVAL
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	d.off = off
	d.entries = nil
	return int(off), 0
}

func metafault(cls, path string) (syscall.Errno, bool) {
	if f := fault(cls); f != nil {
		if f.Kind == "crash" {
			crash()
		}
		return no(f.Kind), true
	}
	return 0, false
}

func mkdir(dirfd uintptr, path string, mode uint32) (int, syscall.Errno) {
	r, e := domkdir(dirfd, path, mode)
	op("mkdir", path, r, e)
	return r, e
}

func domkdir(dirfd uintptr, path string, mode uint32) (int, syscall.Errno) {
	if e, ok := metafault("mkdir", path); ok {
		return 0, e
	}
	b, e := base(dirfd)
	if e != 0 {
		return 0, e
	}
	dir, name, n, es := fs.Walk(b, strings.TrimRight(path, "/"), Spec.Uid, false)
	if es != "" {
		return 0, no(es)
	}
	if n != nil {
		return 0, syscall.EEXIST
	}
	if !dir.Perm(Spec.Uid, 3) {
		return 0, syscall.EACCES
	}
	effect(simfs.Effect{Op: "create", Dir: dir.Ino, Name: name, Kind: simfs.Dir, Mode: mode &^ umask & 0o777, Uid: Spec.Uid})
	return 0, 0
}

func unlink(dirfd uintptr, path string, flags int) (int, syscall.Errno) {
	r, e := dounlink(dirfd, path, flags)
	op("meta", path, r, e)
	return r, e
}

func dounlink(dirfd uintptr, path string, flags int) (int, syscall.Errno) {
	if e, ok := metafault("meta", path); ok {
		return 0, e
	}
	b, e := base(dirfd)
	if e != 0 {
		return 0, e
	}
	dir, name, n, es := fs.Walk(b, strings.TrimRight(path, "/"), Spec.Uid, false)
	if es == "" && n == nil {
		es = "ENOENT"
	}
	if es != "" {
		return 0, no(es)
	}
	if flags&0x200 != 0 {
		if n.Kind != simfs.Dir {
			return 0, syscall.ENOTDIR
		}
		if len(n.Kids) > 0 {
			return 0, syscall.ENOTEMPTY
		}
	} else if n.Kind == simfs.Dir {
		return 0, syscall.EISDIR
	}
	if !dir.Perm(Spec.Uid, 3) {
		return 0, syscall.EACCES
	}
	effect(simfs.Effect{Op: "unlink", Dir: dir.Ino, Name: name})
	return 0, 0
}

func rename(d1 uintptr, p1 string, d2 uintptr, p2 string, flags int) (int, syscall.Errno) {
	r, e := dorename(d1, p1, d2, p2, flags)
	op("meta", p1+" -> "+p2, r, e)
	return r, e
}

func dorename(d1 uintptr, p1 string, d2 uintptr, p2 string, flags int) (int, syscall.Errno) {
	if e, ok := metafault("meta", p1); ok {
		return 0, e
	}
	b1, e := base(d1)
	if e != 0 {
		return 0, e
	}
	b2, e := base(d2)
	if e != 0 {
		return 0, e
	}
	dir1, n1, x, es := fs.Walk(b1, p1, Spec.Uid, false)
	if es == "" && x == nil {
		es = "ENOENT"
	}
	if es != "" {
		return 0, no(es)
	}
	dir2, n2, y, es := fs.Walk(b2, p2, Spec.Uid, false)
	if es != "" {
		return 0, no(es)
	}
	if !dir1.Perm(Spec.Uid, 3) || !dir2.Perm(Spec.Uid, 3) {
		return 0, syscall.EACCES
	}
	if x == y {
		return 0, 0
	}
	if flags&1 != 0 && y != nil {
		return 0, syscall.EEXIST
	}
	if y != nil {
		if y.Kind == simfs.Dir && x.Kind != simfs.Dir {
			return 0, syscall.EISDIR
		}
		if y.Kind != simfs.Dir && x.Kind == simfs.Dir {
			return 0, syscall.ENOTDIR
		}
		if y.Kind == simfs.Dir && len(y.Kids) > 0 {
			return 0, syscall.ENOTEMPTY
		}
	}
	effect(simfs.Effect{Op: "rename", Ino: dir1.Ino, Name: n1, Dir: dir2.Ino, Data: []byte(n2)})
	return 0, 0
}

func link(d1 uintptr, p1 string, d2 uintptr, p2 string) (int, syscall.Errno) {
	r, e := dolink(d1, p1, d2, p2)
	op("meta", p1+" -> "+p2, r, e)
	return r, e
}

func dolink(d1 uintptr, p1 string, d2 uintptr, p2 string) (int, syscall.Errno) {
	if e, ok := metafault("meta", p1); ok {
		return 0, e
	}
	b1, e := base(d1)
	if e != 0 {
		return 0, e
	}
	b2, e := base(d2)
	if e != 0 {
		return 0, e
	}
	_, _, x, es := fs.Walk(b1, p1, Spec.Uid, false)
	if es == "" && x == nil {
		es = "ENOENT"
	}
	if es != "" {
		return 0, no(es)
	}
	dir2, n2, y, es := fs.Walk(b2, p2, Spec.Uid, false)
	if es != "" {
		return 0, no(es)
	}
	if y != nil {
		return 0, syscall.EEXIST
	}
	if x.Kind == simfs.Dir {
		return 0, syscall.EPERM
	}
	if !dir2.Perm(Spec.Uid, 3) {
		return 0, syscall.EACCES
	}
	effect(simfs.Effect{Op: "link", Dir: dir2.Ino, Name: n2, Ino: x.Ino})
	return 0, 0
}

func symlink(to string, d uintptr, path string) (int, syscall.Errno) {
	r, e := dosymlink(to, d, path)
	op("meta", path, r, e)
	return r, e
}

func dosymlink(to string, d uintptr, path string) (int, syscall.Errno) {
	if e, ok := metafault("meta", path); ok {
		return 0, e
	}
	b, e := base(d)
	if e != 0 {
		return 0, e
	}
	dir, name, n, es := fs.Walk(b, path, Spec.Uid, false)
	if es != "" {
		return 0, no(es)
	}
	if n != nil {
		return 0, syscall.EEXIST
	}
	if !dir.Perm(Spec.Uid, 3) {
		return 0, syscall.EACCES
	}
	effect(simfs.Effect{Op: "create", Dir: dir.Ino, Name: name, Kind: simfs.Link, Mode: 0o777, Uid: Spec.Uid, Data: []byte(to)})
	return 0, 0
}

func readlink(d uintptr, path string, b []byte) (int, syscall.Errno) {
	bs, e := base(d)
	if e != 0 {
		return 0, e
	}
	_, _, n, es := fs.Walk(bs, path, Spec.Uid, false)
	if es == "" && n == nil {
		es = "ENOENT"
	}
	if es != "" {
		return 0, no(es)
	}
	if n.Kind != simfs.Link {
		return 0, syscall.EINVAL
	}
	return copy(b, n.To), 0
}

func truncate(d *desc, path string, to int64) (int, syscall.Errno) {
	if d != nil {
		path = d.path
	}
	r, e := dotruncate(d, path, to)
	op("meta", path, r, e)
	return r, e
}

func dotruncate(d *desc, path string, to int64) (int, syscall.Errno) {
	if d != nil {
		path = d.path
	}
	if e, ok := metafault("meta", path); ok {
		return 0, e
	}
	var n *simfs.Inode
	if d != nil {
		n = d.n
		if d.flags&3 == syscall.O_RDONLY {
			return 0, syscall.EINVAL
		}
	} else {
		var es string
		_, _, n, es = fs.Walk(cwd, path, Spec.Uid, true)
		if es == "" && n == nil {
			es = "ENOENT"
		}
		if es != "" {
			return 0, no(es)
		}
		if !n.Perm(Spec.Uid, 2) {
			return 0, syscall.EACCES
		}
	}
	if n == nil || n.Kind != simfs.File {
		return 0, syscall.EINVAL
	}
	effect(simfs.Effect{Op: "trunc", Ino: n.Ino, Off: to})
	return 0, 0
}

// meta changes the mode, owner or times of a file.
func meta(d *desc, dirfd uintptr, path string, x simfs.Effect) (int, syscall.Errno) {
	if d != nil {
		path = d.path
	}
	r, e := dometa(d, dirfd, path, x)
	op("meta", path, r, e)
	return r, e
}

func dometa(d *desc, dirfd uintptr, path string, x simfs.Effect) (int, syscall.Errno) {
	if e, ok := metafault("meta", path); ok {
		return 0, e
	}
	var n *simfs.Inode
	if d != nil {
		n = d.n
	} else {
		b, e := base(dirfd)
		if e != 0 {
			return 0, e
		}
		var es string
		_, _, n, es = fs.Walk(b, path, Spec.Uid, true)
		if es == "" && n == nil {
			es = "ENOENT"
		}
		if es != "" {
			return 0, no(es)
		}
	}
	if n == nil {
		return 0, syscall.EINVAL
	}
	if Spec.Uid != 0 && n.Uid != Spec.Uid {
		return 0, syscall.EPERM
	}
	if x.Op == "chown" {
		if x.Uid == -1 {
			return 0, 0
		}
		if Spec.Uid != 0 && x.Uid != n.Uid {
			return 0, syscall.EPERM
		}
	}
	x.Ino = n.Ino
	effect(x)
	return 0, 0
}

func access(dirfd uintptr, path string, mode uint32) (int, syscall.Errno) {
	b, e := base(dirfd)
	if e != 0 {
		return 0, e
	}
	_, _, n, es := fs.Walk(b, path, Spec.Uid, true)
	if es == "" && n == nil {
		es = "ENOENT"
	}
	if es != "" {
		return 0, no(es)
	}
	if !n.Perm(Spec.Uid, mode&7) {
		return 0, syscall.EACCES
	}
	return 0, 0
}

func getdents(fd int, b []byte) (int, syscall.Errno) {
	d := fds[fd]
	if d == nil {
		return 0, syscall.EBADF
	}
	if d.n == nil || d.n.Kind != simfs.Dir {
		return 0, syscall.ENOTDIR
	}
	if d.off == 0 {
		d.entries = nil
		for k := range d.n.Kids {
			d.entries = append(d.entries, k)
		}
		sort.Strings(d.entries)
	}
	n := 0
	for int(d.off) < len(d.entries) {
		name := d.entries[d.off]
		k := fs.Inodes[d.n.Kids[name]]
		l := (19 + len(name) + 1 + 7) &^ 7
		if n+l > len(b) {
			break
		}
		e := (*syscall.Dirent)(unsafe.Pointer(&b[n]))
		ino := uint64(9999)
		typ := byte(8)
		if k != nil {
			ino = uint64(k.Ino)
			switch k.Kind {
			case simfs.Dir:
				typ = 4
			case simfs.Link:
				typ = 10
			case simfs.Null, simfs.Full:
				typ = 2
			}
		}
		e.Ino = ino
		e.Off = d.off + 1
		e.Reclen = uint16(l)
		b[n+18] = typ
		copy(b[n+19:], name)
		b[n+19+len(name)] = 0
		n += l
		d.off++
	}
	return n, 0
}
