package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// later analyses a stored function value as if it were called some time after
// st: shared memory may have changed, its arguments are unknown.
func (e *Engine) later(st *State, clos *Term, label string) (params []*Term, outs []*Outcome) {
	if clos == nil || clos.op != OClosure || !e.W.inRepo(clos.fn) || len(clos.fn.Blocks) == 0 {
		return nil, nil
	}
	s := st.clone()
	s.envs, s.env, s.ret, s.defers, s.log = nil, map[ssa.Value]*Term{}, nil, nil, nil
	e.havocShared(s)
	for i, p := range clos.fn.Params {
		params = append(params, e.tt.Sym(label+fmt.Sprintf(".a%d", i+1), p.Type()))
	}
	saved, entry := e.stack, e.entry
	e.stack, e.entry = []*frame{{clos.fn, label}}, label
	for _, o := range e.callFn(s, clos.fn, params, clos.args, clos.fn, nil) {
		outs = append(outs, &Outcome{entry: label, st: o, ret: o.ret, args: params})
	}
	e.stack, e.entry = saved, entry
	return
}

// ---- C34, C46: the manager ----

// registry tells how a value was looked up in a registry held by the receiver.
// found: 1 the key is registered, -1 not, 0 unknown.
type lookup struct {
	key   *Term
	field *types.Var
}

func registryField(a *Term) *types.Var {
	for a != nil && (a.op == OInit || a.op == OMapC) {
		a = a.args[0]
	}
	if a != nil && a.op == OField && a.args[0].op == OSym && a.args[0].name == "recv" {
		return a.fv
	}
	return nil
}

// lookups are the registry reads of an outcome with their results.
func (r *Run) lookups(o *Outcome) (out []struct {
	lookup
	val, ok *Term
}) {
	for _, f := range flat(o.st.log) {
		if f.kind == "ext" && (f.name == "sync.Map.Load" || f.name == "sync.Map.LoadAndDelete") && f.res != nil && len(f.res.args) == 2 {
			if fv := registryField(f.args[0]); fv != nil {
				out = append(out, struct {
					lookup
					val, ok *Term
				}{lookup{f.args[1], fv}, f.res.args[0], f.res.args[1]})
			}
		}
	}
	return
}

// registered decides whether the outcome saw an engine under the key.
func (r *Run) registered(o *Outcome, key *Term) (val *Term, found int) {
	q := r.e.q(o.st.facts)
	for _, l := range r.lookups(o) {
		if q.same(l.key, key) {
			switch {
			case q.holds(l.ok):
				return l.val, 1
			case q.fails(l.ok):
				found = -1
			}
		}
	}
	for t, b := range o.st.facts.atoms {
		if t.op == OCall && t.name == "maphas" && registryField(t.args[0]) != nil && q.same(t.args[1], key) {
			if b {
				return t, 1
			}
			found = -1
		}
	}
	for t, set := range o.st.facts.set { // a plain map read without the ok
		if t.op == OCall && t.name == "mapget" && registryField(t.args[0]) != nil && q.same(t.args[1], key) {
			if q.isErr(t) {
				return t, 1
			}
			if q.isNil(t) {
				found = -1
			}
			_ = set
		}
	}
	return nil, found
}

// fromLookup: the value is what was found under the key.
func (r *Run) fromLookup(o *Outcome, v, key *Term) bool {
	q := r.e.q(o.st.facts)
	for _, l := range r.lookups(o) {
		if l.val == v {
			return q.same(l.key, key)
		}
	}
	return v.op == OCall && v.name == "mapget" && registryField(v.args[0]) != nil && q.same(v.args[1], key)
}

// removals are the removals of a key from the registry.
func (o *Outcome) removals() (out []Ev) {
	for _, f := range flat(o.st.log) {
		if f.kind == "ext" && (f.name == "sync.Map.Delete" || f.name == "sync.Map.LoadAndDelete") && registryField(f.args[0]) != nil {
			out = append(out, f)
		}
		if f.kind == "mapdel" && registryField(f.addr) != nil {
			out = append(out, f)
		}
	}
	return
}

func (f *Effect) removedKey() *Term {
	if f.kind == "mapdel" {
		return f.args[0]
	}
	return f.args[1]
}

// registrations are the additions to the registry.
func (o *Outcome) registrations() (out []Ev) {
	for _, f := range flat(o.st.log) {
		if f.kind == "ext" && (f.name == "sync.Map.Store" || f.name == "sync.Map.LoadOrStore" || f.name == "sync.Map.Swap" || f.name == "sync.Map.CompareAndSwap") && registryField(f.args[0]) != nil {
			out = append(out, f)
		}
		if f.kind == "mapput" && registryField(f.addr) != nil {
			out = append(out, f)
		}
	}
	return
}

func (f *Effect) registration() (key, val *Term) {
	if f.kind == "mapput" {
		return f.args[0], f.args[1]
	}
	return f.args[1], f.args[2]
}

// outward: effects other than reads of the registry and locking.
func outward(l *LogNode) (out []Ev) {
	for _, f := range flat(l) {
		switch {
		case f.kind == "lock" || f.kind == "unlock" || f.kind == "rlock" || f.kind == "runlock":
		case f.kind == "ext" && (f.name == "sync.Map.Load" || f.name == "sync.Map.Range" || f.name == "json.Unmarshal"):
		case f.kind == "loop":
		default:
			out = append(out, f)
		}
	}
	return
}

func ifaceMethods(n *types.Named) map[string]*types.Signature {
	out := map[string]*types.Signature{}
	if n == nil {
		return out
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return out
	}
	for i := 0; i < it.NumMethods(); i++ {
		out[it.Method(i).Name()] = it.Method(i).Type().(*types.Signature)
	}
	return out
}

func ruleC34(c *Ctx) {
	mt := c.implOf(c.w.root, "Manager")
	mm := ifaceMethods(c.w.namedType(c.w.root, "Manager"))
	ce := ifaceMethods(c.w.namedType(c.w.root, "CompetitionEngine"))
	if !c.need(mt != nil && len(mm) > 0 && len(ce) > 0, "the manager and its engines") {
		return
	}
	n := 0
	for _, name := range sortedKeys(mm) {
		sig := mm[name]
		if sig.Params().Len() == 0 || !isStringType(sig.Params().At(0).Type()) {
			continue
		}
		target, routed := ce[name]
		if routed && target.Params().Len() != sig.Params().Len()-1 {
			routed = false
		}
		if !routed && name != "GetCompetitionEngine" {
			continue
		}
		r := c.run(c.newEngine(&Config{TrackAll: true, NoAsync: true, NoGC: true}), mt, name, nil)
		if r == nil {
			continue
		}
		n++
		hit := false
		for _, o := range r.outs {
			_, found := r.registered(o, r.args[0])
			c.count("obligations", 1)
			var last *Term
			if len(o.ret) > 0 {
				last = o.ret[len(o.ret)-1]
			}
			eff := outward(o.st.log)
			q := r.e.q(o.st.facts)
			switch found {
			case 0:
				c.fail("lookup:"+name, r.fn.Pos(), r.name, "the operation returns without looking its competition up: %s", r.describe(o))
			case -1:
				if len(eff) > 0 {
					c.fail("unknown:"+name, eff[0].pos, r.name, "an unknown competition id still has an effect: %s %s", eff[0].kind, eff[0].name)
				}
				if want := r.errTerm("ErrManagerCompetitionNotFound"); want == nil || last == nil || !q.same(last, want) {
					c.fail("unknown:"+name, r.fn.Pos(), r.name, "an unknown competition id is not answered with ErrManagerCompetitionNotFound")
				}
			case 1:
				if !routed {
					if len(eff) > 0 || len(o.ret) != 2 || !r.fromLookup(o, o.ret[0], r.args[0]) || o.ret[1].op != ONil {
						c.fail("get", r.fn.Pos(), r.name, "the engine registered under the id is not what is returned")
					} else {
						hit = true
					}
					continue
				}
				calls := 0
				for _, f := range eff {
					if f.kind == "invoke" {
						calls++
						if f.name != "CompetitionEngine."+name {
							c.fail("call:"+name, f.pos, r.name, "the operation is carried out as %s", f.name)
							continue
						}
						if f.recv == nil || !r.fromLookup(o, f.recv, r.args[0]) {
							c.fail("target:"+name, f.pos, r.name, "the operation goes to an engine other than the one registered under the id")
						}
						for i, a := range f.args {
							if a != r.args[i+1] && !q.same(a, r.args[i+1]) {
								c.fail("args:"+name, f.pos, r.name, "argument %d of the operation is not passed on", i+2)
							}
						}
						want := []*Term{}
						switch {
						case f.res == nil:
						case f.res.op == OTuple:
							want = f.res.args
						default:
							want = []*Term{f.res}
						}
						ok := len(o.ret) >= len(want)
						for i, w := range want {
							if ok && o.ret[i] != w && !q.same(o.ret[i], w) {
								ok = false
							}
						}
						if ok && len(want) == 0 {
							for _, x := range o.ret {
								ok = ok && x.op == ONil
							}
						}
						if !ok {
							c.fail("result:"+name, f.pos, r.name, "the result of the operation is not returned: %s", r.describe(o))
						}
						hit = true
					} else if name != "CloseCompetition" { // see C46
						c.fail("extra:"+name, f.pos, r.name, "the operation has an effect of its own: %s %s", f.kind, f.name)
					}
				}
				if calls != 1 {
					c.fail("once:"+name, r.fn.Pos(), r.name, "the operation reaches its engine %d times", calls)
				}
			}
		}
		if !hit {
			c.fail("never:"+name, r.fn.Pos(), r.name, "the operation never reaches the engine")
		}
	}
	c.need(n >= 10, "the operations routed by the manager (%d)", n)
	c.count("operations", n)
}

// slotField is the field of a struct type whose function is reported under the
// given exported name.
func (w *World) slotField(t *types.Named, slot string) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if w.slots[s.Field(i)] == slot {
			return s.Field(i)
		}
	}
	return nil
}

func ruleC46(c *Ctx) {
	mt := c.implOf(c.w.root, "Manager")
	et := c.engineType()
	if !c.need(mt != nil && et != nil, "the manager and its engines") {
		return
	}
	full := func() *Config { return &Config{TrackAll: true, NoAsync: true, NoGC: true} }
	// close: forgotten once closed, kept when closing failed
	if r := c.run(c.newEngine(full()), mt, "CloseCompetition", nil); r != nil {
		closed := 0
		for _, o := range r.outs {
			l := flat(o.st.log)
			rm := o.removals()
			for _, f := range rm {
				if !r.e.q(o.st.facts).same(f.removedKey(), r.args[0]) {
					c.fail("close:other", f.pos, r.name, "closing a competition forgets another one")
				}
			}
			calls := evs(o.st.log, "invoke:CompetitionEngine.CloseCompetition")
			ok := len(calls) == 1 && r.succeeded(o)
			switch {
			case ok && len(rm) == 0:
				c.fail("close:kept", r.fn.Pos(), r.name, "a closed competition stays registered")
			case !ok && len(rm) > 0:
				c.fail("close:lost", rm[0].pos, r.name, "a competition that could not be closed is forgotten")
			case ok:
				closed++
				ci, ri := 0, 0
				for i, f := range l {
					if f.Effect == calls[0].Effect {
						ci = i
					}
					if f.Effect == rm[0].Effect {
						ri = i
					}
				}
				if ri < ci && rm[0].name != "sync.Map.LoadAndDelete" {
					c.fail("close:early", rm[0].pos, r.name, "the competition is forgotten before it is closed")
				}
			}
			for _, f := range o.registrations() {
				c.fail("close:adds", f.pos, r.name, "closing registers a competition")
			}
			c.count("obligations", 1)
		}
		c.need(closed > 0, "a successful close in the manager")
	}
	// release: only that competition
	if r := c.run(c.newEngine(full()), mt, "ReleaseCompetition", nil); r != nil {
		for _, o := range r.outs {
			rm := o.removals()
			if _, found := r.registered(o, r.args[0]); found == -1 {
				continue
			}
			if len(rm) != 1 || !r.e.q(o.st.facts).same(rm[0].removedKey(), r.args[0]) || len(outward(o.st.log)) != 1 {
				c.fail("release", r.fn.Pos(), r.name, "releasing does not forget exactly the named competition")
			}
			c.count("obligations", 1)
		}
	}
	// reset: every engine closed, none registered
	e := c.newEngine(&Config{TrackAll: true})
	if r := c.run(e, mt, "Reset", nil); r != nil {
		every := 0
		closeAll := func(outs []*Outcome, val *Term) {
			for _, o := range outs {
				if len(o.ret) == 1 && isBoolType(o.ret[0].typ) && !e.q(o.st.facts).holds(o.ret[0]) {
					c.fail("reset:stops", r.fn.Pos(), r.name, "resetting stops before every competition is closed")
				}
				skip := false
				for t, b := range o.st.facts.atoms {
					if !b && strings.HasPrefix(t.name, "isType:") {
						skip = true // not an engine
					}
				}
				calls := evs(o.st.log, "invoke:CompetitionEngine.CloseCompetition")
				if len(calls) == 0 && skip {
					continue
				}
				if len(calls) != 1 || val != nil && calls[0].recv != val || !e.q(o.st.facts).sameStr(calls[0].args[0], c.k("CompetitionStateStatus_ForceEnd")) {
					c.fail("reset:close", r.fn.Pos(), r.name, "an engine is not force-closed exactly once on reset")
				} else {
					every++
				}
				c.count("obligations", 1)
			}
		}
		closers := map[*Term]bool{}
		for _, a := range e.asyncs {
			if a.name == "sync.Map.Range" && len(a.params) == 2 {
				closes := false
				for _, o := range a.outcomes {
					closes = closes || len(evs(o.st.log, "invoke:CompetitionEngine.CloseCompetition")) > 0
				}
				if closes {
					closers[a.closure] = true
					closeAll(a.outcomes, a.params[1])
				}
			}
		}
		for _, o := range r.outs {
			emptied, early := 0, false
			for _, f := range flat(o.st.log) {
				if f.kind == "store" && f.addr.op == OField && f.addr.args[0] == r.recv || f.kind == "ext" && f.name == "sync.Map.Clear" || f.kind == "mapclear" {
					emptied++
				}
				if f.kind == "ext" && f.name == "sync.Map.Range" && len(f.args) == 2 && closers[f.args[1]] {
					early = early || emptied > 0
				}
			}
			if early {
				c.fail("reset:early", r.fn.Pos(), r.name, "competitions are forgotten before they are closed")
			}
			for _, f := range o.st.log.effects() {
				if f.kind == "loop" && f.loop.mapSeq && registryField(f.loop.seq) != nil {
					for _, ct := range f.loop.conts {
						closeAll([]*Outcome{{st: ct.st}}, nil)
					}
				}
			}
			for _, a := range e.asyncs {
				if a.name == "sync.Map.Range" && len(a.params) == 2 {
					all := len(a.outcomes) > 0
					for _, ao := range a.outcomes {
						rm := ao.removals()
						all = all && len(rm) == 1 && rm[0].removedKey() == a.params[0]
					}
					if all {
						emptied++
					}
				}
			}
			if emptied == 0 {
				c.fail("reset:kept", r.fn.Pos(), r.name, "competitions stay registered after a reset")
			}
		}
		c.need(every > 0, "the engines closed by a reset")
	}
	// create
	r := c.run(c.newEngine(full()), mt, "CreateCompetition", nil)
	if r == nil {
		return
	}
	opts := c.w.namedType(c.w.root, "CompetitionEngineOptions")
	ot, _ := opts.Underlying().(*types.Struct)
	made, wired := 0, map[string]bool{}
	for _, o := range r.outs {
		reg := o.registrations()
		q := r.e.q(o.st.facts)
		c.count("obligations", 1)
		for _, f := range o.removals() {
			c.fail("create:removes", f.pos, r.name, "creating forgets a competition")
		}
		if !r.succeeded(o) {
			if len(reg) > 0 {
				c.fail("create:failed", reg[0].pos, r.name, "a competition that could not be created is registered")
			}
			continue
		}
		made++
		if len(reg) != 1 {
			c.fail("create:unregistered", r.fn.Pos(), r.name, "a created competition is registered %d times", len(reg))
			continue
		}
		key, val := reg[0].registration()
		if !q.same(key, r.e.at(o.st, o.ret[0], r.fn.Signature.Results().At(0).Type(), "ID")) {
			c.fail("create:key", reg[0].pos, r.name, "the engine is not registered under the id of its competition")
		}
		if val.op != OAlloc || !types.Identical(val.typ, et) {
			c.fail("create:engine", reg[0].pos, r.name, "what is registered is not the new engine")
			continue
		}
		for i := 0; i < ot.NumFields(); i++ {
			name := ot.Field(i).Name()
			fv := c.w.slotField(et, name)
			if fv == nil {
				c.need(false, "the engine's listener %s", name)
				continue
			}
			got := r.e.load(o.st, r.e.tt.Field(val, fv), fv.Type())
			want := r.e.at(o.st, r.args[1], r.fn.Signature.Params().At(1).Type(), name)
			if got != want && !wraps(got, want) {
				c.fail("create:listener:"+name, r.fn.Pos(), r.name, "the listener %s of the options is not given to the engine", name)
			}
			wired[name] = true
		}
		// what the manager was built with
		ctor := 0
		mst := mt.Underlying().(*types.Struct)
		est := et.Underlying().(*types.Struct)
		for i := 0; i < mst.NumFields(); i++ {
			mf := mst.Field(i)
			if fieldName(mf) == "" || registryLike(mf.Type()) {
				continue
			}
			var ef *types.Var
			same := 0
			for k := 0; k < est.NumFields(); k++ {
				if types.Identical(est.Field(k).Type(), mf.Type()) {
					ef = est.Field(k)
					same++
				}
			}
			if same != 1 {
				continue
			}
			ctor++
			if r.e.load(o.st, r.e.tt.Field(val, ef), ef.Type()) != r.e.load(r.st0, r.e.tt.Field(r.recv, mf), mf.Type()) {
				c.fail("create:"+mf.Name(), r.fn.Pos(), r.name, "the engine does not get the manager's %s", typeName(mf.Type()))
			}
		}
		if ctor < 2 {
			c.need(false, "the table backend and table options of the manager")
		}
	}
	c.need(made > 0 && len(wired) >= 5, "successful creations by the manager")
	// not answering for a competition created under the same manager: options
	for _, m := range []string{"SetTableEngineOptions", "GetTableEngineOptions"} {
		if r := c.run(c.newEngine(full()), mt, m, nil); r != nil {
			for _, o := range r.outs {
				c.count("obligations", 1)
				l := outward(o.st.log)
				if m == "SetTableEngineOptions" {
					if len(l) != 1 || l[0].kind != "store" || l[0].val != r.args[0] {
						c.fail("options:set", r.fn.Pos(), r.name, "the table options are not kept")
					}
				} else if len(l) != 0 || len(o.ret) != 1 || o.ret[0].op != OInit || registryField(o.ret[0]) == nil {
					c.fail("options:get", r.fn.Pos(), r.name, "the table options kept are not returned")
				}
			}
		}
	}
}

func registryLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Pointer:
		return registryLike(u.Elem()) && !typeIs(t, "pokertable", "TableEngineOptions", true)
	}
	return typeIs(t, "sync", "Map", false) || typeIs(t, "sync", "Mutex", false) || typeIs(t, "sync", "RWMutex", false)
}

// wraps: a closure that holds the function.
func wraps(f, g *Term) bool {
	if f.op != OClosure {
		return false
	}
	for _, a := range f.args {
		if a == g {
			return true
		}
	}
	return false
}

// ---- C35: the native table manager backend ----

func ruleC35(c *Ctx) {
	iface := c.w.namedType(c.w.root, "TableManagerBackend")
	bt := c.implOf(c.w.root, "TableManagerBackend")
	bm := ifaceMethods(iface)
	if !c.need(bt != nil && len(bm) > 0, "the native table manager backend") {
		return
	}
	full := func() *Config { return &Config{TrackAll: true, NoAsync: true, NoGC: true} }
	// the listeners: a function-typed parameter that is kept
	slots := map[string]*types.Var{}
	for _, name := range sortedKeys(bm) {
		sig := bm[name]
		if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			continue
		}
		if _, ok := sig.Params().At(0).Type().Underlying().(*types.Signature); !ok {
			continue
		}
		r := c.run(c.newEngine(full()), bt, name, nil)
		if r == nil {
			continue
		}
		for _, o := range r.outs {
			c.count("obligations", 1)
			l := outward(o.st.log)
			if len(l) != 1 || l[0].kind != "store" || l[0].val != r.args[0] || l[0].addr.op != OField || l[0].addr.args[0] != r.recv {
				c.fail("listener:"+name, r.fn.Pos(), r.name, "the listener is not kept")
				continue
			}
			slots[name] = l[0].addr.fv
		}
	}
	seen := map[*types.Var]string{}
	for _, n := range sortedKeys(slots) {
		if p, ok := seen[slots[n]]; ok {
			c.fail("listener:shared", slots[n].Pos(), bt.Obj().Name(), "%s and %s keep their listener in the same place", p, n)
		}
		seen[slots[n]] = n
	}
	if !c.need(len(slots) >= 3, "the three listeners of the backend") {
		return
	}
	n := 0
	for _, name := range sortedKeys(bm) {
		if _, ok := slots[name]; ok {
			continue
		}
		r := c.run(c.newEngine(full()), bt, name, nil)
		if r == nil {
			continue
		}
		n++
		for _, o := range r.outs {
			c.count("obligations", 1)
			q := r.e.q(o.st.facts)
			var out []Ev
			for _, f := range outward(o.st.log) {
				if f.kind != "store" || !strings.HasPrefix(f.name, "pokertable.") && !strings.HasPrefix(f.name, "TableEngineCallbacks.") {
					if f.kind == "ext" && strings.HasPrefix(f.name, "pokertable.New") {
						continue
					}
					out = append(out, f)
				}
			}
			if name == "UpdateTable" {
				fv := slots["OnTableUpdated"]
				if len(out) != 1 || out[0].kind != "callback" || !r.isListener(out[0].recv, fv) || len(out[0].args) != 1 || out[0].args[0] != r.args[0] {
					c.fail("update", r.fn.Pos(), r.name, "the table is not reported to the table listener exactly once")
				}
				continue
			}
			if len(out) != 1 || out[0].kind != "invoke" || out[0].name != "Manager."+name || !r.ofRecv(out[0].recv) {
				what := "nothing"
				if len(out) > 0 {
					what = out[0].kind + " " + out[0].name
				}
				c.fail("call:"+name, r.fn.Pos(), r.name, "the call is not passed on to the table manager exactly once as %s (%s)", name, what)
				continue
			}
			f := out[0]
			want := []*Term{f.res}
			if f.res != nil && f.res.op == OTuple {
				want = f.res.args
			}
			args := append([]*Term{}, r.args...)
			if name == "CreateTable" {
				// options, callbacks, setting
				if len(f.args) != 3 {
					c.fail("args:"+name, f.pos, r.name, "unexpected arguments")
					continue
				}
				cbt := o.cbType(f.Effect)
				c.tableCallbacks(r, o, f.Effect, cbt, slots)
				args = []*Term{r.args[0], f.args[1], r.args[1]}
			}
			for i, a := range f.args {
				if i < len(args) && a != args[i] && !q.same(a, args[i]) {
					c.fail("args:"+name, f.pos, r.name, "argument %d is not passed on", i+1)
				}
			}
			okRet := len(o.ret) == len(want)
			for i := range want {
				if !okRet {
					break
				}
				if o.ret[i] == want[i] || q.same(o.ret[i], want[i]) {
					continue
				}
				// nil instead of a value next to an error
				if i == 0 && len(want) == 2 && o.ret[0].op == ONil && q.isErr(want[1]) {
					continue
				}
				if i == len(want)-1 && o.ret[i].op == ONil && q.isNil(want[i]) {
					continue
				}
				okRet = false
			}
			if !okRet {
				c.fail("result:"+name, f.pos, r.name, "the result of the table manager is not returned: %s", r.describe(o))
			}
		}
	}
	c.need(n >= 10, "the forwarded operations")
	c.count("operations", n)
}

func (q *FQ) isNil(t *Term) bool { return t.op == ONil || q.holds(q.e.tt.Eq(t, q.e.tt.Nil(), nil)) }
func (q *FQ) isErr(t *Term) bool { return q.fails(q.e.tt.Eq(t, q.e.tt.Nil(), nil)) }

func (o *Outcome) cbType(f *Effect) types.Type {
	call, ok := f.inst.(ssa.CallInstruction)
	if !ok || len(call.Common().Args) != 3 {
		return nil
	}
	return call.Common().Args[1].Type()
}

// ofRecv: a field of the receiver.
func (r *Run) ofRecv(t *Term) bool {
	return t != nil && t.op == OInit && t.args[0].op == OField && t.args[0].args[0] == r.recv
}

// isListener: the function kept in the field of the receiver.
func (r *Run) isListener(t *Term, fv *types.Var) bool {
	for t != nil && (t.op == OInit || t.op == OField) {
		if t.op == OField {
			return t.fv == fv && t.args[0] == r.recv
		}
		t = t.args[0]
	}
	return false
}

// tableCallbacks: what the table manager reports reaches the listeners, as
// separate copies.
func (c *Ctx) tableCallbacks(r *Run, o *Outcome, f *Effect, cbt types.Type, slots map[string]*types.Var) {
	if cbt == nil {
		c.need(false, "the callbacks given to the table manager")
		return
	}
	e := r.e
	for _, s := range []struct{ cb, slot string }{{"OnTableUpdated", "OnTableUpdated"}, {"OnTablePlayerReserved", "OnTablePlayerReserved"}, {"OnReadyOpenFirstTableGame", "OnReadyOpenFirstTableGame"}} {
		clos := e.at(o.st, f.args[1], cbt, s.cb)
		params, outs := e.later(o.st, clos, r.name+"."+s.cb)
		if !c.need(len(outs) > 0, "the function given to the table manager for %s", s.cb) {
			continue
		}
		pos := clos.fn.Pos()
		told := false
		for _, oo := range outs {
			c.count("obligations", 1)
			q := e.q(oo.st.facts)
			l := outward(oo.st.log)
			failed := false
			for t := range oo.st.facts.set {
				if strings.HasPrefix(t.name, "json.") && q.isErr(t) {
					failed = true
				}
			}
			if len(l) == 0 && failed {
				continue
			}
			if len(l) != 1 || l[0].kind != "callback" || !r.isListener(l[0].recv, slots[s.slot]) {
				c.fail("cb:"+s.cb, pos, r.name, "%s of a table does not reach its listener exactly once", s.cb)
				continue
			}
			told = true
			// the listener's arguments are the last ones of the report
			n := len(l[0].args)
			for i, a := range l[0].args {
				p := params[len(params)-n+i]
				pt := clos.fn.Params[len(params)-n+i].Type()
				switch pt.Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map:
					if !e.copyOf(oo.st, a, p, pt) {
						c.fail("copy:"+s.cb, l[0].pos, r.name, "%s: argument %d is not a separate copy of what was reported", s.cb, i+1)
					}
				default:
					if !q.same(a, p) {
						c.fail("value:"+s.cb, l[0].pos, r.name, "%s: argument %d is not what was reported", s.cb, i+1)
					}
				}
			}
		}
		if !told {
			c.fail("cb:"+s.cb, pos, r.name, "%s never reaches its listener", s.cb)
		}
	}
}

// copyOf: a holds a deep copy of what p holds.
func (e *Engine) copyOf(st *State, a, p *Term, pt types.Type) bool {
	if a == p {
		return false
	}
	v, w := a, p
	if ptr, ok := pt.Underlying().(*types.Pointer); ok {
		if a.op != OAlloc {
			return false
		}
		v, w = e.load(st, a, ptr.Elem()), e.load(st, p, ptr.Elem())
	}
	return e.cloned(v, w)
}

func (e *Engine) cloned(v, w *Term) bool {
	if v.op == OClone {
		return v.args[0] == w
	}
	if v.op == OStruct && w.op != OStruct {
		w = e.explode(w, v.typ)
	}
	if v.op == OStruct && w.op == OStruct && len(v.args) == len(w.args) {
		for i := range v.args {
			if !e.cloned(v.args[i], w.args[i]) {
				return false
			}
		}
		return true
	}
	if v == w {
		return !pointerish(v.typ)
	}
	return false
}

func pointerish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	}
	return false
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
