// Package spec is the description of one simulated run: everything that
// decides it. A run is a pure function of its Spec and the code.
package spec

import (
	"encoding/json"

	"midisim/simfs"
)

type Spec struct {
	Sched    Sched           `json:"sched"`
	Budget   uint64          `json:"budget,omitempty"`    // statements
	MaxAlloc uint64          `json:"max_alloc,omitempty"` // bytes, one allocation
	MaxTotal uint64          `json:"max_total,omitempty"` // bytes, all allocations
	Rand     uint64          `json:"rand"`                // hash seeds, map iteration, select order
	Clock    int64           `json:"clock"`
	NCPU     int             `json:"ncpu"`
	Pid      int             `json:"pid"`
	Uid      int             `json:"uid"`
	Umask    uint32          `json:"umask"`
	Cwd      string          `json:"cwd"`
	Host     string          `json:"host,omitempty"`
	EnvAny   string          `json:"env_any,omitempty"` // what a variable that is not in Env gives when it is asked for; empty: unset
	Env      []string        `json:"env,omitempty"`
	Args     []string        `json:"args,omitempty"` // command line; empty: library run
	Files    []File          `json:"files,omitempty"`
	Stdin    []byte          `json:"stdin,omitempty"`
	Std      string          `json:"std,omitempty"` // what standard input, output and error are: t terminal, p pipe, f file, n null device
	Free     int64           `json:"free"`          // free space on the disk, bytes; <0: unlimited
	Faults   []Fault         `json:"faults,omitempty"`
	Lib      json.RawMessage `json:"lib,omitempty"`
	Others   []Other         `json:"others,omitempty"`
	Stalls   []Stall         `json:"stalls,omitempty"`
}

// Stall is how long (simulated nanoseconds) system call number At takes, or
// every one (-1); the others take no time.
type Stall struct {
	At  int   `json:"at"`
	For int64 `json:"for"`
}

// Other is what other processes do to the disk just before system call number
// At of this one.
type Other struct {
	At      int            `json:"at"`
	Effects []simfs.Effect `json:"effects"`
}

type Sched struct {
	Seed      uint64   `json:"seed"`
	YieldSeed uint64   `json:"yield_seed"`
	YieldMean uint64   `json:"yield_mean"`
	Policy    int      `json:"policy"`
	Explicit  bool     `json:"explicit,omitempty"`
	Picks     []uint64 `json:"picks,omitempty"`
	Yields    []uint64 `json:"yields,omitempty"`
	Trace     bool     `json:"trace,omitempty"`
}

type File struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // f d l n u; h: hard link to To
	Mode uint32 `json:"mode"`
	Uid  int    `json:"uid"`
	Data []byte `json:"data,omitempty"`
	To   string `json:"to,omitempty"`
	// Mtime is when it was last changed, in ns since 1970; 0: an hour before the run
	Mtime int64 `json:"mtime,omitempty"`
}

// Fault is one injected fault: what happens at the Nth system call of a class.
//
//	open  errno
//	read  errno, short (Arg bytes), eof (the file ends here from now on), flip (Arg: byte offset, bit)
//	write errno, short (Arg bytes), torn (Arg bytes reach the disk, then EIO)
//	close errno, lost (EIO and what this descriptor wrote is gone from byte Arg on)
//	mkdir, stat, sync, meta: errno
//	(Nth -1: every call of the class)
//	any   pause (the process is set aside here, for another to run), crash (the process dies; for a write Arg bytes reach the disk first)
type Fault struct {
	Cls  string `json:"cls"`
	Nth  int    `json:"nth"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
}
