package main

import (
	"sort"
	"strings"
)

// ---- C38, C39: locks ----

var lockPats = []string{"lock:*", "rlock:*", "unlock:*", "runlock:*"}

// locksHeld: the locks a path holds at the end of its log, and whether it
// locks one twice or releases one it does not hold.
func locksHeld(log []Ev) (held map[*Term]string, twice, notHeld *Effect) {
	held = map[*Term]string{}
	for _, f := range log {
		switch f.kind {
		case "lock", "rlock":
			if held[f.addr] != "" {
				twice = f.Effect
			}
			held[f.addr] = f.kind
		case "unlock", "runlock":
			if held[f.addr] != strings.TrimPrefix(f.kind, "un") && held[f.addr] != "r"+strings.TrimPrefix(f.kind, "run") {
				notHeld = f.Effect
			}
			delete(held, f.addr)
		}
	}
	return
}

// lockName: the mutex without the moment it is looked at.
func lockName(t *Term) string { return spelt(t) }

// ruleC38: every lock that is taken is given back, no path takes a lock it
// holds, and neither the notifications nor the listeners of other components
// take a lock that is held while those are called, nor is there any waiting
// under a lock.
func ruleC38(c *Ctx) {
	outside := []string{"invoke:TableManagerBackend.*", "invoke:Regulator.*", "invoke:Blind.*", "ext:sync.WaitGroup.Wait", "ext:time.Sleep", "recv:*", "select:*"}
	isOut := func(f *Effect) bool {
		return f.kind == "invoke" && !strings.HasPrefix(f.name, "Actions.") || f.kind == "recv" || f.kind == "select" || f.kind == "ext"
	}
	waits := func(f *Effect) bool { return f.kind != "invoke" }
	type heldAt struct {
		f  *Effect
		op string
	}
	heldOut := map[string]heldAt{}
	type taken struct {
		f     *Effect
		where string
	}
	inListener := map[string][]taken{}
	notes := map[string]bool{"UpdateTable": true, "UpdateReserveTablePlayerState": true, "ReadyFirstTableGame": true, "AutoGameOpenEnd": true}
	locks := 0
	check := func(name string, r *Run) {
		e := r.e
		for _, s := range e.sites {
			f := s.eff
			held, _, _ := locksHeld(s.before())
			switch {
			case f.kind == "lock" || f.kind == "rlock":
				locks++
				c.count("obligations", 1)
				if held[f.addr] != "" {
					c.fail("lock:twice", f.pos, stackStr(f), "the path already holds %s", lockName(f.addr))
				}
				_, isNote := notes[name]
				listener := s.entry != r.name && !strings.Contains(s.entry, "timebank.")
				if isNote && s.entry == r.name || listener {
					n := lockName(f.addr)
					inListener[n] = append(inListener[n], taken{f, s.entry})
				}
			case f.kind == "unlock" || f.kind == "runlock":
				c.count("obligations", 1)
				if k := held[f.addr]; k == "" || (k == "rlock") != (f.kind == "runlock") {
					c.fail("lock:release", f.pos, stackStr(f), "%s is released but not held like that", lockName(f.addr))
				}
			case isOut(f) && len(held) > 0:
				c.count("obligations", 1)
				for t := range held {
					if waits(f) {
						c.fail("lock:wait", f.pos, stackStr(f), "something is waited for while %s is held", lockName(t))
					}
					heldOut[lockName(t)] = heldAt{f, s.entry}
				}
			}
		}
		ends := append([]*Outcome{}, r.outs...)
		for _, a := range e.asyncs {
			ends = append(ends, a.outcomes...)
		}
		for _, o := range ends {
			c.count("obligations", 1)
			held, _, _ := locksHeld(flat(o.st.log))
			for t := range held {
				c.fail("lock:kept", r.fn.Pos(), r.name, "%s is still held at the end of a path", lockName(t))
			}
		}
	}
	for _, m := range allOps {
		cfg := siteCfg(nil, append(append([]string{}, lockPats...), outside...)...)
		if r := c.op(cfg, m, nil); r != nil {
			check(m, r)
		}
	}
	// the players' side
	if t := c.implOf(c.w.actor, "Actor"); c.need(t != nil, "the actor") {
		for n := range ifaceMethods(c.w.namedType(c.w.actor, "Actor")) {
			if c.w.method(t, n) == nil {
				continue
			}
			if r := c.run(c.newEngine(siteCfg(nil, lockPats...)), t, n, nil); r != nil {
				check("actor."+n, r)
			}
		}
	}
	if t := c.implOf(c.w.root, "Manager"); c.need(t != nil, "the manager") {
		for n := range ifaceMethods(c.w.namedType(c.w.root, "Manager")) {
			if r := c.run(c.newEngine(siteCfg(nil, lockPats...)), t, n, nil); r != nil {
				check("manager."+n, r)
			}
		}
	}
	var names []string
	for n := range heldOut {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, l := range inListener[n] {
			h := heldOut[n]
			c.fail("lock:reenter", l.f.pos, stackStr(l.f), "%s takes %s, which %s holds while it calls %s (%s)", l.where, n, h.op, h.f.name, c.w.pos(h.f.pos))
		}
	}
	c.need(locks >= 4, "locks taken")
	c.count("locks", locks)
}

// stepOps: the player operations that check and apply in one step, and the
// rules about what each of them checks and does.
var stepOps = []struct {
	op    string
	rules []string
}{
	{"PlayerBuyIn", []string{"C01", "C02", "C03", "C04"}},
	{"PlayerAddon", []string{"C06", "C07"}},
	{"PlayerRefund", []string{"C08"}},
	{"PlayerQuit", []string{"C42"}},
	{"PlayerCashOut", []string{"C41"}},
}

// ruleC39: buying in, adding on, refunding and quitting are one step each.
func ruleC39(c *Ctx) {
	var lock string
	for _, s := range stepOps {
		// one lock, taken once, held at everything that happens
		cfg := siteCfg(nil, append([]string{"store:*", "mapput:*", "mapdel:*", "mapclear:*", "invoke:*", "callback:*", "copy:*", "sort:*"}, lockPats...)...)
		cfg.NoAsync = true
		r := c.op(cfg, s.op, nil)
		if r == nil {
			continue
		}
		n := 0
		for _, x := range r.e.sites {
			f := x.eff
			switch f.kind {
			case "lock", "rlock", "unlock", "runlock":
				continue
			}
			n++
			c.count("obligations", 1)
			log := x.before()
			held, _, _ := locksHeld(log)
			times := 0
			for _, g := range log {
				if g.kind == "lock" {
					times++
				}
			}
			if len(held) != 1 || times != 1 {
				c.fail("step:"+s.op, f.pos, stackStr(f), "%s happens outside the one step of %s", f.name, s.op)
				continue
			}
			for t, k := range held {
				if k != "lock" {
					c.fail("step:read:"+s.op, f.pos, stackStr(f), "%s happens under a lock others can hold too", f.name)
				}
				if lock == "" {
					lock = lockName(t)
				} else if lock != lockName(t) {
					c.fail("step:other:"+s.op, f.pos, stackStr(f), "%s takes %s, other operations %s", s.op, lockName(t), lock)
				}
			}
		}
		c.need(n > 3, "what %s does", s.op)
		// what is checked and applied is the state found under the lock
		for _, id := range s.rules {
			late := c.subRule(id, map[string]bool{s.op: true})
			for _, k := range sortedKeys(late) {
				v := late[k]
				c.failAt("stale:"+id+":"+v.Key, v.Pos, v.Fn, "does not follow from the state found under the lock: %s", v.Msg)
			}
		}
	}
	c.need(lock != "", "the lock of the player operations")
}

func (v *Viol) id() string { return v.Key + "|" + v.Fn }

// subRule runs a rule of another property.
func (c *Ctx) subRule(id string, atomic map[string]bool) map[string]*Viol {
	s := &Ctx{w: c.w, prop: id, tier: c.tier, seen: map[string]bool{}, cov: c.cov, fns: c.fns, atomic: atomic}
	guard(s, rules[id])
	c.engs = append(c.engs, s.engs...)
	m := map[string]*Viol{}
	for i := range s.viols {
		m[s.viols[i].id()] = &s.viols[i]
	}
	return m
}
