package main

import (
	"strings"
)

// ---- C19: the statistics follow the players ----

var statCounters = [][2]string{
	{"PlayingPlayerCount", "CompetitionPlayerStatus_Playing"},
	{"WaitingTableBalancingPlayerCount", "CompetitionPlayerStatus_WaitingTableBalancing"},
	{"KnockoutPlayerCount", "CompetitionPlayerStatus_Knockout"},
	{"ReBuyWaitingPlayerCount", "CompetitionPlayerStatus_ReBuyWaiting"},
}

func ruleC19(c *Ctx) {
	pats := []string{"store:CompetitionPlayer.Status", "store:CompetitionState.Players", "store:Statistic.*PlayerCount"}
	for _, x := range statCounters {
		pats = append(pats, "store:Statistic."+x[0])
	}
	type key struct {
		v, cur *Term
		k      string
	}
	memo := map[key]bool{}
	is := func(r *Run, v, cur *Term, k string) bool {
		id := key{v, cur, k}
		if b, ok := memo[id]; ok {
			return b
		}
		seq, cs, ok := r.e.countOf(v)
		ok = ok && (r.e.pathOf(seq) == pPlayers || seq == cur) && exactly(cs, func(p passCase) int { return p.q.termIn(p.f(r.e, "Status"), k) })
		memo[id] = ok
		return ok
	}
	n, asyncs := 0, 0
	check := func(r *Run, same map[*Effect]bool, where string, l []Ev) {
		var cur *Term
		c.count("obligations", 1)
		for i, f := range l {
			if strings.HasPrefix(f.name, "Statistic.") {
				for _, x := range statCounters {
					if f.name == "Statistic."+x[0] && !is(r, f.val, cur, c.k(x[1])) {
						c.fail("stats:value:"+x[0], f.pos, stackStr(f.Effect), "%s is not set to the number of players with that status: %s", x[0], f.val)
					}
				}
				continue
			}
			if f.name == "CompetitionState.Players" {
				cur = f.val
			}
			n++
			if same[f.Effect] {
				continue
			}
			for _, x := range statCounters {
				ok := false
				for _, g := range l[i+1:] {
					if g.name == "Statistic."+x[0] && (g.cont == nil || g.cont == f.cont) {
						ok = true
					}
				}
				if !ok {
					c.fail("stats:stale:"+x[0], f.pos, where+": "+stackStr(f.Effect), "%s changes but %s is not counted again afterwards", f.name, x[0])
				}
			}
		}
	}
	for _, m := range allOps {
		cfg := siteCfg([]string{"CompetitionState.Status", "CompetitionMeta.Mode"}, pats...)
		r := c.op(cfg, m, nil)
		if r == nil {
			continue
		}
		same := r.sameStores("CompetitionPlayer.Status")
		for _, o := range r.outs {
			check(r, same, r.name, flat(o.st.log))
		}
		for _, a := range r.e.asyncs {
			asyncs++
			for _, o := range a.outcomes {
				check(r, same, a.label, flat(o.st.log))
			}
		}
	}
	c.need(n > 0 && asyncs > 0, "changes of players' statuses")
	c.count("status changes", n)
}

// sameStores: the stores that are known, wherever they happen, to write the
// value the place already has.
func (r *Run) sameStores(name string) map[*Effect]bool {
	m := map[*Effect]bool{}
	for _, s := range r.e.sites {
		f := s.eff
		if f.kind != "store" || f.name != name || f.val == nil || f.addr == nil {
			continue
		}
		q := &FQ{e: r.e, f: s.facts}
		same := f.old != nil && (f.old == f.val || q.same(f.old, f.val))
		if v, ok := m[f]; ok {
			same = same && v
		}
		m[f] = same
	}
	return m
}
