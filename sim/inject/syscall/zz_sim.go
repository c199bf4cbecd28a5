// Simulated system-call seam, injected into package syscall by -overlay.
package syscall

import _ "unsafe" // go:linkname

// SimHook, when set, sees every system call made through this package. It
// returns handled=false to let the call through to the real kernel.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, handled bool)

// SimPid is the process id the simulation reports.
var SimPid int

// SimUid is the user the simulation reports.
var SimUid int

// SimEnv, when set, is the value of every variable that is not in the
// environment, but for those that steer the Go runtime and libraries.
var SimEnv string

func simEnv(key string) (string, bool) {
	if SimEnv == "" || len(key) >= 2 && key[:2] == "GO" {
		return "", false
	}
	switch key {
	case "TZ", "ZONEINFO", "TMPDIR", "PWD", "HOME", "USER", "PATH", "LANG", "LC_ALL":
		return "", false
	}
	return SimEnv, true
}

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if r1, r2, err, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, err
		}
	}
	return simSyscall(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if r1, r2, err, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
	return simSyscall6(trap, a1, a2, a3, a4, a5, a6)
}
