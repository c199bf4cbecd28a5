package prop

import (
	"bytes"
	"encoding/binary"
	"sort"
	"time"

	"midisim/gen"
	"midisim/spec"
)

// Minimise looks for a simpler case with the same violation.
func Minimise(e *Env, p *Prop, c *Case, v *Violation, until time.Time) (*Case, *Violation, int) {
	m := &shrinker{e: e, p: p, best: c, v: v, until: until}
	m.trace()
	for round := 0; round < 6 && !m.done(); round++ {
		before := m.kept
		m.runs()
		m.faults()
		m.ops()
		m.worlds()
		m.inputs()
		m.song()
		m.picks()
		if m.kept == before {
			break
		}
	}
	return m.best, m.v, m.tried
}

type shrinker struct {
	e     *Env
	p     *Prop
	best  *Case
	v     *Violation
	until time.Time
	tried int
	kept  int
}

func (m *shrinker) done() bool { return time.Now().After(m.until) || m.tried > 4000 }

func (m *shrinker) try(f func(c *Case) bool) (ok bool) {
	if m.done() {
		return false
	}
	c := m.best.Clone()
	if !f(c) {
		return false
	}
	m.tried++
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	v, err := m.p.Check(m.e, c)
	if err != nil || v == nil || v.Sig != m.v.Sig {
		return false
	}
	m.best, m.v = c, v
	m.kept++
	return true
}

// trace turns seeded schedules into the list of decisions they made.
func (m *shrinker) trace() {
	for i := range m.best.Runs {
		if m.best.Runs[i].Spec.Sched.Explicit {
			continue
		}
		r := m.best.Runs[i]
		if r.Keep || m.p.ID == "C17" || (r.Lib != nil && len(r.Lib.Inputs) == 0) {
			// what it runs on is made by Check; try the plain schedule
			m.try(func(c *Case) bool {
				c.Runs[i].Spec.Sched = spec.Sched{Explicit: true}
				return true
			})
			continue
		}
		r.Spec.Sched.Trace = true
		res, err := m.e.Exec(&r)
		if err != nil {
			continue
		}
		m.try(func(c *Case) bool {
			c.Runs[i].Spec.Sched = spec.Sched{Explicit: true, Picks: res.Picks, Yields: res.YieldAt}
			return true
		})
	}
}

func (m *shrinker) runs() {
	for i := len(m.best.Runs) - 1; i >= 0; i-- {
		if m.p.ID == "C17" || len(m.best.Runs) < 2 || (i == 0 && m.p.ID != "C12" && m.p.ID != "C15" && m.p.ID != "C03" && m.p.ID != "C06" && m.p.ID != "C07") {
			continue
		}
		m.try(func(c *Case) bool {
			if i == 0 && c.Runs[1].Keep {
				c.Runs[1].Spec.Files = c.Runs[0].Spec.Files
				c.Runs[1].Keep = false
			}
			c.Runs = append(c.Runs[:i:i], c.Runs[i+1:]...)
			return true
		})
	}
}

func (m *shrinker) faults() {
	for i := range m.best.Runs {
		m.try(func(c *Case) bool {
			had := c.Runs[i].Edit != nil
			c.Runs[i].Edit = nil
			return had
		})
		for n := len(m.best.Runs[i].Spec.Faults); n > 0; {
			n /= 2
			step := max(1, n)
			for k := 0; k < len(m.best.Runs[i].Spec.Faults); {
				if !m.try(func(c *Case) bool {
					f := c.Runs[i].Spec.Faults
					c.Runs[i].Spec.Faults = append(f[:k:k], f[min(len(f), k+step):]...)
					return true
				}) {
					k += step
				}
			}
		}
		m.try(func(c *Case) bool {
			if c.Runs[i].Spec.Free < 0 {
				return false
			}
			c.Runs[i].Spec.Free = -1
			return true
		})
		m.try(func(c *Case) bool {
			if c.Runs[i].Cut == nil {
				return false
			}
			c.Runs[i].Cut = nil
			return true
		})
	}
	for k := len(m.best.Plan) - 1; k >= 0; k-- {
		m.try(func(c *Case) bool {
			c.Plan = append(c.Plan[:k:k], c.Plan[k+1:]...)
			return true
		})
	}
	// files no run needs, and earlier files of one run
	paths := map[string]bool{}
	for i := range m.best.Runs {
		for _, f := range m.best.Runs[i].Spec.Files {
			paths[f.Path] = true
		}
	}
	var list []string
	for p := range paths {
		list = append(list, p)
	}
	sort.Strings(list)
	drop := func(c *Case, i int, p string, all bool) bool {
		for k, f := range c.Runs[i].Spec.Files {
			if f.Path == p {
				if !all && (f.Kind == "d" || c.Runs[i].Cmd != nil && isInput(c.Runs[i].Cmd, c.Runs[i].Spec.Cwd, p)) {
					return false // a different world, not a smaller case
				}
				x := c.Runs[i].Spec.Files
				c.Runs[i].Spec.Files = append(x[:k:k], x[k+1:]...)
				return true
			}
		}
		return false
	}
	for _, p := range list {
		if m.try(func(c *Case) bool {
			ok := false
			for i := range c.Runs {
				ok = drop(c, i, p, true) || ok
			}
			return ok
		}) {
			continue
		}
		for i := range m.best.Runs {
			if c := m.best.Runs[i].Cmd; c != nil && len(m.best.Runs) > 1 && !isInput(c, m.best.Runs[i].Spec.Cwd, p) {
				m.try(func(c *Case) bool { return drop(c, i, p, false) })
			}
		}
	}
}

func (m *shrinker) ops() {
	m.try(func(c *Case) bool {
		was := false
		for i := range c.Runs {
			if l := c.Runs[i].Lib; l != nil && l.C4 {
				l.C4, was = false, true
			}
		}
		return was
	})
	m.try(func(c *Case) bool {
		was := false
		for i := range c.Runs {
			if l := c.Runs[i].Lib; l != nil && l.Log > 0 {
				l.Log, was = 0, true
			}
		}
		return was
	})
	for i := range m.best.Runs {
		if m.best.Runs[i].Lib == nil {
			continue
		}
		for t := len(m.best.Runs[i].Lib.Threads) - 1; t >= 0; t-- {
			m.try(func(c *Case) bool {
				x := c.Runs[i].Lib.Threads
				c.Runs[i].Lib.Threads = append(x[:t:t], x[t+1:]...)
				return len(x) > 1
			})
		}
		for t := range m.best.Runs[i].Lib.Threads {
			for k := len(m.best.Runs[i].Lib.Threads[t]) - 1; k >= 0; k-- {
				m.try(func(c *Case) bool {
					x := c.Runs[i].Lib.Threads[t]
					c.Runs[i].Lib.Threads[t] = append(x[:k:k], x[k+1:]...)
					return true
				})
			}
		}
		switch m.p.ID {
		case "C03", "C04", "C09", "C10", "C11", "C14":
			for k := len(m.best.Runs[i].Lib.Setup) - 1; k >= 0; k-- {
				m.try(func(c *Case) bool {
					if m.p.ID == "C14" {
						if uint64(k) == c.Salt {
							return false
						}
						if uint64(k) < c.Salt {
							c.Salt--
						}
					}
					x := c.Runs[i].Lib.Setup
					c.Runs[i].Lib.Setup = append(x[:k:k], x[k+1:]...)
					return true
				})
			}
		}
		each := func(f func(o *spec.Op) bool) {
			for k := range m.best.Runs[i].Lib.Setup {
				m.try(func(c *Case) bool { return f(&c.Runs[i].Lib.Setup[k]) })
			}
			for t := range m.best.Runs[i].Lib.Threads {
				for k := range m.best.Runs[i].Lib.Threads[t] {
					m.try(func(c *Case) bool { return f(&c.Runs[i].Lib.Threads[t][k]) })
				}
			}
		}
		each(func(o *spec.Op) bool { ok := o.W != nil; o.W = nil; return ok })
		each(func(o *spec.Op) bool { ok := o.R != nil && m.p.ID != "C02"; o.R = nil; return ok })
		each(func(o *spec.Op) bool { ok := o.Obj != 0; o.Obj = 0; return ok })
		for _, s := range []func(s *spec.Stream) bool{
			func(s *spec.Stream) bool { ok := s.Yield; s.Yield = false; return ok },
			func(s *spec.Stream) bool { ok := s.Block; s.Block, s.Pace = false, 0; return ok },
			func(s *spec.Stream) bool { ok := s.Pace > 0; s.Pace = 0; return ok },
			func(s *spec.Stream) bool { ok := s.WithEOF; s.WithEOF = false; return ok },
			func(s *spec.Stream) bool { ok := s.With; s.With = false; return ok },
			func(s *spec.Stream) bool { ok := s.Once; s.Once = false; return ok },
			func(s *spec.Stream) bool { ok := len(s.Frags) > 0; s.Frags = nil; return ok },
			func(s *spec.Stream) bool { ok := len(s.Frags) > 1; s.Frags = []int{1}; return ok },
		} {
			each(func(o *spec.Op) bool {
				ok := false
				if o.R != nil {
					ok = s(o.R)
				}
				if o.W != nil {
					ok = s(o.W) || ok
				}
				return ok
			})
		}
	}
}

func (m *shrinker) worlds() {
	p := Plain()
	for i := range m.best.Runs {
		set := func(f func(s *spec.Spec) bool) {
			m.try(func(c *Case) bool { return f(&c.Runs[i].Spec) })
		}
		set(func(s *spec.Spec) bool { ok := len(s.Env) > 0; s.Env = nil; return ok })
		set(func(s *spec.Spec) bool { ok := s.Rand != p.Rand; s.Rand = p.Rand; return ok })
		set(func(s *spec.Spec) bool { ok := s.Clock != p.Clock; s.Clock = p.Clock; return ok })
		set(func(s *spec.Spec) bool { ok := s.NCPU != p.NCPU; s.NCPU = p.NCPU; return ok })
		set(func(s *spec.Spec) bool { ok := s.Pid != p.Pid; s.Pid = p.Pid; return ok })
		set(func(s *spec.Spec) bool { ok := s.Std != ""; s.Std = ""; return ok })
		set(func(s *spec.Spec) bool { ok := s.EnvAny != ""; s.EnvAny = ""; return ok })
		set(func(s *spec.Spec) bool { ok := s.Host != ""; s.Host = ""; return ok })
		set(func(s *spec.Spec) bool { ok := len(s.Stalls) > 0; s.Stalls = nil; return ok })
		for k := len(m.best.Runs[i].Spec.Stalls) - 1; k >= 0; k-- {
			set(func(s *spec.Spec) bool {
				s.Stalls = append(s.Stalls[:k:k], s.Stalls[k+1:]...)
				return true
			})
		}
		set(func(s *spec.Spec) bool {
			ok := !s.Sched.Explicit || len(s.Sched.Picks)+len(s.Sched.Yields) > 0
			s.Sched = spec.Sched{Explicit: true}
			return ok
		})
	}
	// what a run is told to do, and what it is fed, is part of what its
	// counterparts are compared with: only for all of them together
	m.try(func(c *Case) bool {
		ok := false
		for i := range c.Runs {
			ok = ok || c.Runs[i].Spec.Umask != p.Umask
			c.Runs[i].Spec.Umask = p.Umask
		}
		return ok
	})
	m.try(func(c *Case) bool {
		ok := false
		for i := range c.Runs {
			ok = ok || c.Runs[i].Spec.Stdin != nil
			c.Runs[i].Spec.Stdin = nil
		}
		return ok
	})
	m.try(func(c *Case) bool {
		ok := false
		for i := range c.Runs {
			if x := c.Runs[i].Cmd; x != nil && len(x.Flags) > 0 {
				x.Flags, ok = nil, true
			}
		}
		return ok
	})
}

// picks removes scheduling decisions that do not matter.
func (m *shrinker) picks() {
	for i := range m.best.Runs {
		if !m.best.Runs[i].Spec.Sched.Explicit {
			continue
		}
		for _, unit := range []int{2, 1} { // picks are pairs, yields single
			get := func(c *Case) *[]uint64 {
				if unit == 2 {
					return &c.Runs[i].Spec.Sched.Picks
				}
				return &c.Runs[i].Spec.Sched.Yields
			}
			for n := len(*get(m.best)) / unit; n > 0; n /= 2 {
				for k := 0; k < len(*get(m.best))/unit; {
					if m.done() {
						return
					}
					if !m.try(func(c *Case) bool {
						l := get(c)
						a, b := k*unit, min(len(*l), (k+n)*unit)
						*l = append((*l)[:a:a], (*l)[b:]...)
						return true
					}) {
						k += n
					}
				}
			}
		}
	}
}

// blobs lists the distinct inputs of a case; replace changes one everywhere.
func blobs(c *Case) [][]byte {
	var out [][]byte
	add := func(b []byte) {
		for _, x := range out {
			if bytes.Equal(x, b) {
				return
			}
		}
		if len(b) > 0 {
			out = append(out, b)
		}
	}
	for i := range c.Runs {
		for _, f := range c.Runs[i].Spec.Files {
			add(f.Data)
		}
		if c.Runs[i].Lib != nil {
			for _, b := range c.Runs[i].Lib.Inputs {
				add(b)
			}
		}
	}
	return out
}

func replace(c *Case, old, new []byte) bool {
	ok := false
	for i := range c.Runs {
		for k := range c.Runs[i].Spec.Files {
			if bytes.Equal(c.Runs[i].Spec.Files[k].Data, old) {
				c.Runs[i].Spec.Files[k].Data = new
				ok = true
			}
		}
		if c.Runs[i].Lib != nil {
			for k := range c.Runs[i].Lib.Inputs {
				if bytes.Equal(c.Runs[i].Lib.Inputs[k], old) {
					c.Runs[i].Lib.Inputs[k] = new
					ok = true
				}
			}
		}
	}
	return ok
}

func (m *shrinker) inputs() {
	list := blobs(m.best)
	for _, b := range list {
		if m.done() {
			return
		}
		cur := b
		step := func(next []byte) bool {
			if bytes.Equal(next, cur) {
				return false
			}
			if m.try(func(c *Case) bool { return replace(c, cur, next) }) {
				cur = next
				return true
			}
			return false
		}
		if step([]byte{}) {
			continue
		}
		if s := parse(cur); s != nil {
			for t := len(s) - 1; t >= 0 && len(s) > 1; t-- {
				x := append(append([][]gen.RefEvent{}, s[:t]...), s[t+1:]...)
				if step(encode(cur, x)) {
					s = x
				}
			}
			for t := range s {
				for n := len(s[t]); n > 0; n /= 2 {
					for k := 0; k < len(s[t]); {
						if m.done() {
							return
						}
						x := append([][]gen.RefEvent{}, s...)
						x[t] = append(append([]gen.RefEvent{}, s[t][:k]...), s[t][min(len(s[t]), k+n):]...)
						if step(encode(cur, x)) {
							s = x
						} else {
							k += n
						}
					}
				}
			}
			continue
		}
		parts := bytes.SplitAfter(cur, []byte("\n"))
		if len(parts) < 3 {
			parts = nil
			for _, x := range cur {
				parts = append(parts, []byte{x})
			}
		}
		for n := len(parts) / 2; n > 0; n /= 2 {
			for k := 0; k < len(parts); {
				if m.done() {
					return
				}
				x := append(append([][]byte{}, parts[:k]...), parts[min(len(parts), k+n):]...)
				if step(bytes.Join(x, nil)) {
					parts = x
				} else {
					k += n
				}
			}
		}
	}
}

func parse(b []byte) [][]gen.RefEvent {
	_, _, t, err := gen.ReadSMF(b)
	if err != nil || len(t) == 0 {
		return nil
	}
	if !bytes.Equal(encode(b, t), b) && len(encode(b, t)) < 14 {
		return nil
	}
	return t
}

func encode(old []byte, tracks [][]gen.RefEvent) []byte {
	out := append([]byte{}, old[:14]...)
	binary.BigEndian.PutUint16(out[10:], uint16(len(tracks)))
	for _, t := range tracks {
		var b []byte
		for _, e := range t {
			b = append(b, gen.VLQ(e.Delta)...)
			b = append(b, e.Bytes...)
		}
		out = append(out, "MTrk"...)
		out = binary.BigEndian.AppendUint32(out, uint32(len(b)))
		out = append(out, b...)
	}
	return out
}

func (m *shrinker) song() {
	if m.best.Song == nil {
		return
	}
	for t := len(m.best.Song.Tracks) - 1; t >= 0; t-- {
		m.try(func(c *Case) bool {
			x := c.Song.Tracks
			c.Song.Tracks = append(x[:t:t], x[t+1:]...)
			return len(x) > 1
		})
	}
	for t := range m.best.Song.Tracks {
		for n := len(m.best.Song.Tracks[t].Evs); n > 0; n /= 2 {
			for k := 0; k < len(m.best.Song.Tracks[t].Evs)-1; {
				if !m.try(func(c *Case) bool {
					x := c.Song.Tracks[t].Evs
					hi := min(len(x)-1, k+n)
					c.Song.Tracks[t].Evs = append(x[:k:k], x[hi:]...)
					return hi > k
				}) {
					k += n
				}
			}
		}
	}
}
