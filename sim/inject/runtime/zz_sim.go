// Deterministic simulation support, injected into package runtime by
// -overlay. Everything here is inert until SimStart is called.
package runtime

import (
	"internal/chacha8rand"
	"unsafe"
)

// SimConfig configures the simulated scheduler.
type SimConfig struct {
	SchedSeed uint64 // which goroutine runs next
	YieldSeed uint64 // at which statements a running goroutine is preempted
	YieldMean uint64 // mean statements between preemptions (0: never)
	Policy    int    // 0 uniform, 1 priorities with change points, 2 fifo, 3 lifo
	Budget    uint64 // statement budget (0: none)
	MaxAlloc  uint64 // largest single allocation
	MaxTotal  uint64 // cumulative allocation
	Clock     int64  // initial simulated time, ns
	NCPU      int32
	Explicit  bool     // take Picks/Yields instead of the seeds
	Picks     []uint64 // (decision, choice) pairs, ascending
	Yields    []uint64 // statement numbers, ascending
	Trace     bool     // log every decision on fd 4
}

var (
	simOn          bool
	simCfg         SimConfig
	simS           uint64 // scheduler stream
	simYS          uint64 // yield stream
	simDecisions   uint64 // scheduling points with more than one candidate
	simHash        uint64
	simSteps       uint64
	simNext        uint64
	simYields      uint64
	simPickPos     int
	simYieldPos    int
	simTotal       uint64
	simLargest     uint64
	simPrioEpoch   uint64
	simClock0      int64
	simBuf         [256]byte
	simMaxRunnable uint64
)

//go:nosplit
func simMix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func SimStart(c *SimConfig) {
	simCfg = *c
	simS = simMix(c.SchedSeed)
	simYS = simMix(c.YieldSeed ^ 0x5bd1e995)
	simHash = 14695981039346656037
	if c.Clock != 0 {
		faketime = c.Clock
	}
	simClock0 = faketime
	if c.NCPU > 0 {
		numCPUStartup = c.NCPU
	}
	simReseed()
	simOn = true
	simScheduleYield()
}

// simReseed makes the program's randomness independent of what the harness
// has drawn while it was setting up.
func simReseed() {
	mp := getg().m
	x := simMix(simSeed() ^ 0x6a09e667f3bcc909)
	mp.chacha8.Init64([4]uint64{x, simMix(x), simMix(x + 1), simMix(x + 2)})
	mp.cheaprand = uint32(simMix(x + 3))
	mp.cheaprand64 = simMix(x + 4)
}

// SimRand holds the state of the randomness while the simulated kernel works.
type SimRand struct {
	c       chacha8rand.State
	cheap   uint32
	cheap64 uint64
}

func (r *SimRand) Save() {
	mp := getg().m
	r.c, r.cheap, r.cheap64 = mp.chacha8, mp.cheaprand, mp.cheaprand64
}

func (r *SimRand) Restore() {
	mp := getg().m
	mp.chacha8, mp.cheaprand, mp.cheaprand64 = r.c, r.cheap, r.cheap64
}

func simScheduleYield() {
	simNext = 0
	if simCfg.Explicit {
		if simYieldPos < len(simCfg.Yields) {
			simNext = simCfg.Yields[simYieldPos]
			simYieldPos++
		}
		return
	}
	if simCfg.YieldMean == 0 {
		return
	}
	simYS += 0x9e3779b97f4a7c15
	simNext = simSteps + 1 + simMix(simYS)%(2*simCfg.YieldMean)
}

// SimY is called before every statement of the program under test.
func SimY() {
	if !simOn {
		return
	}
	simSteps++
	if simCfg.Budget != 0 && simSteps > simCfg.Budget {
		simDie("HANG", 97)
	}
	if simSteps == simNext {
		simYields++
		if simCfg.Trace {
			simTrace('Y', simSteps, 0)
		}
		simScheduleYield()
		Gosched()
	}
}

// SimPoint is a forced scheduling point (a simulated system call).
func SimPoint() {
	if simOn {
		Gosched()
	}
}

func SimStats() (steps, decisions, hash, yields uint64, now int64) {
	return simSteps, simDecisions, simHash, simYields, faketime - simClock0
}

func simPick(pp *p, h, n uint32) uint32 {
	d := simDecisions
	simDecisions++
	if uint64(n) > simMaxRunnable {
		simMaxRunnable = uint64(n)
	}
	var k uint32
	if simCfg.Explicit {
		for simPickPos+1 < len(simCfg.Picks) && simCfg.Picks[simPickPos] < d {
			simPickPos += 2
		}
		if simPickPos+1 < len(simCfg.Picks) && simCfg.Picks[simPickPos] == d {
			k = uint32(simCfg.Picks[simPickPos+1]) % n
		}
	} else {
		simS += 0x9e3779b97f4a7c15
		r := simMix(simS)
		switch simCfg.Policy {
		case 1:
			if r%8 == 0 {
				simPrioEpoch++
			}
			var best uint64
			for i := uint32(0); i < n; i++ {
				gp := pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
				// a change point re-rolls one goroutine's priority at a time
				e := simPrioEpoch
				if gp.goid%3 != simPrioEpoch%3 {
					e = simPrioEpoch / 3
				}
				if v := simMix(simCfg.SchedSeed ^ gp.goid*0x9e3779b97f4a7c15 ^ e<<32); v >= best {
					best = v
					k = i
				}
			}
		case 2:
			k = 0
		case 3:
			k = n - 1
		default:
			k = uint32(r % uint64(n))
		}
	}
	simHash = (simHash ^ uint64(k) ^ uint64(n)<<8) * 1099511628211
	if simCfg.Trace {
		simTrace('P', d, uint64(k))
	}
	return k
}

// simRunqget replaces runqget: one global pool of runnable goroutines, the
// simulator picks which one runs.
func simRunqget(pp *p) *g {
	if sched.runq.size != 0 {
		lock(&sched.lock)
		for sched.runq.size != 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq))-1 {
			gp := sched.runq.pop()
			pp.runq[pp.runqtail%uint32(len(pp.runq))].set(gp)
			pp.runqtail++
		}
		unlock(&sched.lock)
	}
	if next := pp.runnext; next != 0 {
		pp.runnext = 0
		if pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
			pp.runq[pp.runqtail%uint32(len(pp.runq))] = next
			pp.runqtail++
		} else {
			return next.ptr()
		}
	}
	h, t := pp.runqhead, pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	k := uint32(0)
	if n > 1 {
		k = simPick(pp, h, n)
	}
	L := uint32(len(pp.runq))
	gp := pp.runq[(h+k)%L]
	for i := k; i > 0; i-- {
		pp.runq[(h+i)%L] = pp.runq[(h+i-1)%L]
	}
	pp.runqhead = h + 1
	return gp.ptr()
}

// simSeed returns the value of MIDISIM_SEED in the raw environment (used
// before the environment is parsed), or 1.
func simSeed() uint64 {
	const key = "MIDISIM_SEED="
	for i := int32(0); ; i++ {
		p := argv_index(argv, argc+1+i)
		if p == nil {
			return 1
		}
		s := gostringnocopy(p)
		if len(s) > len(key) && s[:len(key)] == key {
			var v uint64
			for _, c := range []byte(s[len(key):]) {
				v = v*10 + uint64(c-'0')
			}
			return v
		}
	}
}

//go:nosplit
func simPut(i int, s string) int {
	for j := 0; j < len(s); j++ {
		simBuf[i] = s[j]
		i++
	}
	return i
}

//go:nosplit
func simPutN(i int, v uint64) int {
	simBuf[i] = ' '
	i++
	n := 1
	for x := v; x >= 10; x /= 10 {
		n++
	}
	for j := n - 1; j >= 0; j-- {
		simBuf[i+j] = byte('0' + v%10)
		v /= 10
	}
	return i + n
}

//go:nosplit
func simFlush(i int) {
	simBuf[i] = '\n'
	write1(4, unsafe.Pointer(&simBuf[0]), int32(i+1))
}

func simTrace(c byte, a, b uint64) {
	simBuf[0] = c
	i := simPutN(1, a)
	i = simPutN(i, b)
	simFlush(i)
}

//go:nosplit
func simAtExit(code int32) {
	if !simOn {
		return
	}
	i := simPut(0, "X")
	i = simPutN(i, uint64(code))
	i = simPutN(i, simSteps)
	i = simPutN(i, simDecisions)
	i = simPutN(i, simHash)
	i = simPutN(i, simYields)
	i = simPutN(i, uint64(faketime-simClock0))
	i = simPutN(i, simTotal)
	i = simPutN(i, simLargest)
	i = simPutN(i, simMaxRunnable)
	simFlush(i)
	simOn = false
}

//go:nosplit
func simDie(why string, code int32) {
	simFlush(simPut(0, why))
	simAtExit(code)
	exit(code)
}

// SimCrash ends the process on the spot, as SIGKILL would.
func SimCrash(code int) { simDie("CRASH", int32(code)) }

func simAlloc(n uintptr) {
	if !simOn {
		return
	}
	simTotal += uint64(n)
	if uint64(n) > simLargest {
		simLargest = uint64(n)
	}
	if (simCfg.MaxAlloc != 0 && uint64(n) > simCfg.MaxAlloc) || (simCfg.MaxTotal != 0 && simTotal > simCfg.MaxTotal) {
		simDie("OOM", 98)
	}
}
