# ---- timers (C22) ----
spec sorted(s) = forall(i, 0, len(s), forall(j, 0, i, s[j].deadline <= s[i].deadline))

func (*timerSet).start(ts, label, cb, delayMs) (t)
opt split=cat
pre sorted(ts.ts)
ensures [C22] new-timer: t != nil && t.label == label && t.cb == cb && t.duration == delayMs
ensures [C22] deadline: t.deadline == event("now", 0, 0) + 1000000*delayMs
ensures [C22] one-more: len(ts.ts) == old(len(ts.ts)) + 1
ensures [C22] sorted: sorted(ts.ts)
let n = old(len(ts.ts))
ensures [C22] earlier-stay: forall(j, 0, n, imp(old(ts.ts[j].deadline) <= t.deadline, ts.ts[j] == old(ts.ts[j])))
ensures [C22] later-shift: forall(j, 0, n, imp(old(ts.ts[j].deadline) > t.deadline, ts.ts[j+1] == old(ts.ts[j])))
ensures [C22] inserted: forall(k, 0, n+1, imp((k == 0 || old(ts.ts[k-1].deadline) <= t.deadline) && (k == n || old(ts.ts[k].deadline) > t.deadline), ts.ts[k] == t))

func (*timer).cancel(t) ()
ensures [C22] dead: isnil(t.cb) && len(t.label) == 0
ensures [C22] rest: t.deadline == old(t.deadline) && t.duration == old(t.duration)

# callbacks are assumed not to touch the set (histories in which they do: bounded driver)
func (*timerSet).check(ts, now) (err)
opt heap=timer
pre sorted(ts.ts)
pre forall(i, 0, len(ts.ts), ts.ts[i] != nil)
let n = old(len(ts.ts))
inv len(ts.ts) == n - it && it <= n && forall(j, 0, len(ts.ts), ts.ts[j] == old(ts.ts[j + it]))
inv forall(j, 0, it, old(ts.ts[j].deadline) < now)
inv forall(j, 0, it, isnil(old(ts.ts)[j].cb))
ensures [C22] rest: len(ts.ts) <= n && forall(j, 0, len(ts.ts), ts.ts[j] == old(ts.ts)[j + n - len(ts.ts)])
ensures [C22] all-due-taken: err == nil ==> forall(j, 0, len(ts.ts), ts.ts[j].deadline >= now)
ensures [C22] only-due-taken: forall(j, 0, n - len(ts.ts), old(ts.ts[j].deadline) < now)
ensures [C22] spent: forall(j, 0, n - len(ts.ts), isnil(old(ts.ts)[j].cb))

func (*timerSet).getTimer(ts, label) (t)
pre forall(i, 0, len(ts.ts), ts.ts[i] != nil)
ensures [C22] found: t != nil ==> t.label == label && !isnil(t.cb) && exists(i, 0, len(ts.ts), ts.ts[i] == t)
ensures [C22] not-found: t == nil ==> forall(i, 0, len(ts.ts), ts.ts[i].label != label || isnil(ts.ts[i].cb))

func (*timerSet).remaining(ts) (ok, d)
pre forall(i, 0, len(ts.ts), ts.ts[i] != nil)
ensures [C22] earliest: ok ==> exists(i, 0, len(ts.ts), !isnil(ts.ts[i].cb) && forall(j, 0, i, isnil(ts.ts[j].cb)) && d == ts.ts[i].deadline - event("now", 0, 0))
ensures [C22] none: !ok ==> forall(i, 0, len(ts.ts), isnil(ts.ts[i].cb)) && d == 0


func (*timerSet).cancel(ts, label) ()
opt heap=timer
pre forall(i, 0, len(ts.ts), ts.ts[i] != nil)
let n = old(len(ts.ts))
inv forall(i, 0, n, imp(old(ts.ts[i].label) != label, ts.ts[i].cb == old(ts.ts[i].cb) && ts.ts[i].label == old(ts.ts[i].label)))
inv forall(i, 0, n, ts.ts[i].label == old(ts.ts[i].label) || isnil(ts.ts[i].cb))
inv forall(i, 0, it, imp(old(ts.ts[i].label) == label, isnil(ts.ts[i].cb)))
ensures [C22] kept: len(ts.ts) == n && forall(i, 0, n, ts.ts[i] == old(ts.ts[i]))
ensures [C22] cancelled: forall(i, 0, n, imp(old(ts.ts[i].label) == label, isnil(ts.ts[i].cb)))
ensures [C22] others: forall(i, 0, n, imp(old(ts.ts[i].label) != label, ts.ts[i].cb == old(ts.ts[i].cb) && ts.ts[i].label == old(ts.ts[i].label)))
ensures [C22] deadlines: forall(i, 0, n, ts.ts[i].deadline == old(ts.ts[i].deadline))
