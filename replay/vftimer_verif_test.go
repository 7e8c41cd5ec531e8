package mint

import (
	"errors"
	"fmt"
	"testing"
	"time"
)

type vfTimer struct {
	t     *timer
	label string
	at    time.Time
	live  bool
	fired int
}

// vfTimers is the reference: every timer ever started, in start order
type vfTimers struct {
	all []*vfTimer
}

// next: the live timer with the earliest deadline (ties: the one started first)
func (m *vfTimers) next() (r *vfTimer) {
	for _, x := range m.all {
		if x.live && (r == nil || x.at.Before(r.at)) {
			r = x
		}
	}
	return
}

func TestVfC22(t *testing.T) {
	v := vfStart(t, "random histories of up to 40 operations (start, cancel, check, getTimer, remaining) over up to 5 labels, delays of 0 to 50 s with ties, check times before, between, at and after the deadlines, callbacks that fail, start or cancel timers or look them up")
	for i := 0; i < v.n(3000) && !v.over(); i++ {
		ts, m := newTimerSet(), &vfTimers{}
		hist := ""
		labels := []string{"a", "b", "c", "d", "e"}[:1+v.rng.Intn(5)]
		var firing []string
		var start func(depth int)
		start = func(depth int) {
			x := &vfTimer{label: labels[v.rng.Intn(len(labels))], live: true}
			delay := uint32(v.rng.Intn(6)) * 10000
			if v.rng.Intn(8) == 0 {
				delay = uint32(v.rng.Intn(1 << 31))
			}
			kind := v.rng.Intn(6)
			cb := func() error {
				x.fired++
				firing = append(firing, x.label)
				if !x.live {
					v.viol("dead", "a cancelled or already fired timer %q runs (%s)", x.label, hist)
				}
				if n := m.next(); x.live && n != nil && n.at.Before(x.at) {
					v.viol("order", "timer %q runs before the earlier %q (%s)", x.label, n.label, hist)
				}
				x.live = false
				if ts.getTimer(x.label) == x.t {
					v.viol("running", "a timer whose callback runs is still found (%s)", hist)
				}
				switch {
				case kind == 0:
					return errors.New("callback fails")
				case kind == 1 && depth < 3:
					start(depth + 1)
				case kind == 2:
					l := labels[v.rng.Intn(len(labels))]
					hist += " [cancel " + l + "]"
					ts.cancel(l)
					for _, y := range m.all {
						if y.label == l {
							y.live = false
						}
					}
				}
				return nil
			}
			hist += fmt.Sprintf(" start %s+%d", x.label, delay)
			before := time.Now()
			x.t = ts.start(x.label, cb, delay)
			after := time.Now()
			x.at = x.t.deadline
			d := time.Duration(delay) * time.Millisecond
			if x.at.Before(before.Add(d)) || x.at.After(after.Add(d)) || x.t.label != x.label || x.t.duration != delay {
				v.viol("deadline", "timer %q with delay %d ms is due %v after its start (%s)", x.label, delay, x.at.Sub(before), hist)
			}
			m.all = append(m.all, x)
		}
		v.run(fmt.Sprintf("labels=%d", len(labels)), func() {
			base := time.Now()
			for n := 1 + v.rng.Intn(40); n > 0 && v.viols == 0; n-- {
				switch v.rng.Intn(7) {
				case 6: // time passes: everything is due sooner
					d := time.Duration(v.rng.Intn(30)) * time.Second
					hist += fmt.Sprintf(" pass %v", d)
					for _, y := range m.all {
						y.t.deadline = y.t.deadline.Add(-d)
						y.at = y.t.deadline
					}
				case 0, 1:
					start(0)
				case 2:
					l := labels[v.rng.Intn(len(labels))]
					hist += " cancel " + l
					ts.cancel(l)
					for _, y := range m.all {
						if y.label == l {
							y.live = false
						}
					}
				case 3:
					l := labels[v.rng.Intn(len(labels))]
					g := ts.getTimer(l)
					var ok, some bool
					for _, y := range m.all {
						if y.live && y.label == l {
							some = true
							ok = ok || y.t == g
						}
					}
					if some != (g != nil) || some && !ok {
						v.viol("get", "getTimer(%q) = %v, a live one exists: %v (%s)", l, g, some, hist)
					}
				case 4:
					ok, d := ts.remaining()
					x := m.next()
					if ok != (x != nil) {
						v.viol("remaining", "remaining reports %v, a live timer exists: %v (%s)", ok, x != nil, hist)
					} else if ok {
						if w := time.Until(x.at); d < w-time.Second || d > w+time.Second {
							v.viol("remaining", "remaining reports %v, the earliest live timer is due in %v (%s)", d, w, hist)
						}
					}
				case 5:
					now := base.Add(time.Duration(v.rng.Intn(7))*10*time.Second - time.Duration(v.rng.Intn(2))*5*time.Second)
					if len(m.all) > 0 && v.rng.Intn(3) == 0 {
						now = m.all[v.rng.Intn(len(m.all))].at
					}
					hist += fmt.Sprintf(" check +%v", now.Sub(base).Round(time.Millisecond))
					firing = nil
					counts := map[*vfTimer]int{}
					for _, y := range m.all {
						counts[y] = y.fired
					}
					err := ts.check(now)
					for _, y := range m.all {
						if y.fired > 1 || y.fired > counts[y] && !now.After(y.at) {
							v.viol("early", "timer %q ran %d times, due %v before the check time (%s)", y.label, y.fired, now.Sub(y.at), hist)
						}
						if err == nil && y.live && now.After(y.at) {
							v.viol("missed", "live timer %q due %v before the check time did not run (%s)", y.label, now.Sub(y.at), hist)
						}
					}
				}
				for i := 1; i < len(ts.ts); i++ {
					if ts.ts[i].deadline.Before(ts.ts[i-1].deadline) {
						v.viol("sorted", "timers out of order (%s)", hist)
					}
				}
				for _, y := range m.all {
					k := 0
					for _, z := range ts.ts {
						if z == y.t {
							k++
						}
					}
					if y.live && k != 1 || k > 1 {
						v.viol("kept", "live timer %q is %d times in the set (%s)", y.label, k, hist)
					}
					if y.live && (y.t.cb == nil || y.t.label != y.label || !y.t.deadline.Equal(y.at)) {
						v.viol("others", "live timer %q altered (%s)", y.label, hist)
					}
				}
			}
		})
	}
	v.done()
}
