package main

import (
	"strings"
)

// ---- C33: the serial number of a competition ----

// ruleC33: every report of the competition carries a serial number one above
// the last one and the time of the report, and nothing else changes the number.
func ruleC33(c *Ctx) {
	reports, asyncs := 0, 0
	// making a competition is analysed twice: the stores to the new, still
	// private, competition, and what its timers and listeners do later
	runs := append([]string{"new:CreateCompetition"}, allOps...)
	for _, m := range runs {
		fresh := strings.HasPrefix(m, "new:")
		m = strings.TrimPrefix(m, "new:")
		cfg := siteCfg([]string{"CompetitionState.Status", "CompetitionMeta.Mode"}, "store:Competition.UpdateSerial", "store:Competition.UpdateAt", "callback:OnCompetitionUpdated")
		cfg.LocalStores, cfg.NoAsync = fresh, fresh
		r := c.op(cfg, m, nil)
		if r == nil {
			continue
		}
		e := r.e
		asyncs += len(e.asyncs)
		// the numbers of a new competition start at zero
		// (a loop entry, which has no position, only renames the number it finds)
		initial := func(f *Effect) bool {
			return fresh && root(f.addr).op == OAlloc && (f.val == e.tt.Int(0) || !f.pos.IsValid())
		}
		type span struct{ serial, at *Effect }
		last := func(l *LogNode) (s span, dup bool) {
			for _, f := range flat(l) {
				if len(f.loops) > 0 && f.kind != "callback" {
					dup = true // numbers given out in a pass and not used there
					continue
				}
				switch f.name {
				case "OnCompetitionUpdated":
					s, dup = span{}, false
				case "Competition.UpdateSerial":
					if initial(f.Effect) {
						continue
					}
					dup = dup || s.serial != nil
					s.serial = f.Effect
				case "Competition.UpdateAt":
					s.at = f.Effect
				}
			}
			return
		}
		for _, s := range e.sites {
			if m == "CreateCompetition" && !fresh && s.entry == r.name {
				continue
			}
			f := s.eff
			c.count("obligations", 1)
			switch f.name {
			case "Competition.UpdateSerial":
				if initial(f) {
					continue
				}
				if f.old == nil || f.val != e.tt.Add(f.old, e.tt.Int(1)) {
					c.fail("serial:step", f.pos, stackStr(f), "the serial number is set to %s", f.val)
				}
			case "OnCompetitionUpdated":
				reports++
				sp, dup := last(s.log)
				switch {
				case sp.serial == nil:
					c.fail("serial:same", f.pos, stackStr(f), "%s: the competition is reported without a new serial number", s.entry)
				case dup:
					c.fail("serial:gap", f.pos, stackStr(f), "a serial number is skipped before the competition is reported")
				case sp.at == nil || !isNow(sp.at.val):
					c.fail("serial:time", f.pos, stackStr(f), "the competition is reported without the time of the report")
				}
				if f.args[0] != r.theComp(r.st0) && m != "CreateCompetition" && !strings.HasPrefix(s.entry, "CreateCompetition") {
					if e.pathOf(f.args[0]) != e.pathOf(r.theComp(r.st0)) {
						c.fail("serial:other", f.pos, stackStr(f), "another competition is reported (%s)", f.args[0])
					}
				}
			}
		}
		var ends []*Outcome
		if m != "CreateCompetition" || fresh {
			ends = append(ends, r.outs...)
		}
		for _, a := range e.asyncs {
			ends = append(ends, a.outcomes...)
		}
		for _, o := range ends {
			c.count("obligations", 1)
			if sp, dup := last(o.st.log); sp.serial != nil || dup {
				c.fail("serial:unused", r.fn.Pos(), r.name, "a serial number is given out but the competition is not reported")
			}
		}
	}
	c.need(reports > 0 && asyncs > 0, "reports of the competition")
	c.count("reports", reports)
}
