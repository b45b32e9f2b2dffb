package pokercompetition

import (
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/weedbox/pokertable"
)

// vBackend is a recording stand-in for the table manager.
type vBackend struct {
	mu       sync.Mutex
	calls    []string
	fail     map[string]error  // method -> error
	on       map[string]func() // method -> hook run inside the call
	onUpdate func(*pokertable.Table)
	onRes    func(string, *pokertable.TablePlayerState)
	onFirst  func(string, int, []*pokertable.TablePlayerState)
	tables   map[string]*pokertable.Table
	setups   []map[string]int
	redeem   []pokertable.JoinPlayer
	reserve  []pokertable.JoinPlayer
	leaves   [][]string
	blinds   [][6]int64
	joins    []pokertable.JoinPlayer
	n        int
}

func newVBackend() *vBackend {
	return &vBackend{fail: map[string]error{}, on: map[string]func(){}, tables: map[string]*pokertable.Table{}}
}
func (b *vBackend) rec(m, s string) error {
	b.mu.Lock()
	b.calls = append(b.calls, m+" "+s)
	f := b.on[m]
	e := b.fail[m]
	b.mu.Unlock()
	if f != nil {
		f()
	}
	return e
}
func (b *vBackend) count(m string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, c := range b.calls {
		if len(c) > len(m) && c[:len(m)+1] == m+" " {
			n++
		}
	}
	return n
}
func (b *vBackend) OnTableUpdated(fn func(*pokertable.Table)) { b.onUpdate = fn }
func (b *vBackend) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
	b.onRes = fn
}
func (b *vBackend) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	b.onFirst = fn
}
func (b *vBackend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	if err := b.rec("CreateTable", s.TableID); err != nil {
		return nil, err
	}
	t := vTable(s.TableID, s.Meta)
	bl := s.Blind
	t.State.BlindState = &bl
	b.joins = append(b.joins, s.JoinPlayers...)
	b.tables[s.TableID] = t
	return t, nil
}
func (b *vBackend) PauseTable(id string) error     { return b.rec("PauseTable", id) }
func (b *vBackend) CloseTable(id string) error     { return b.rec("CloseTable", id) }
func (b *vBackend) StartTableGame(id string) error { return b.rec("StartTableGame", id) }
func (b *vBackend) SetUpTableGame(id string, g int, p map[string]int) error {
	b.setups = append(b.setups, p)
	return b.rec("SetUpTableGame", fmt.Sprintf("%s %d", id, g))
}
func (b *vBackend) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	b.blinds = append(b.blinds, [6]int64{int64(level), ante, dealer, sb, bb})
	return b.rec("UpdateBlind", id)
}
func (b *vBackend) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	b.joins = append(b.joins, j...)
	m := map[string]int{}
	for i, p := range j {
		m[p.PlayerID] = i
	}
	if err := b.rec("UpdateTablePlayers", id); err != nil {
		return nil, err
	}
	return m, nil
}
func (b *vBackend) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	b.reserve = append(b.reserve, j)
	return b.rec("PlayerReserve", id+" "+j.PlayerID)
}
func (b *vBackend) PlayerJoin(id, p string) error { return b.rec("PlayerJoin", id) }
func (b *vBackend) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	b.redeem = append(b.redeem, j)
	return b.rec("PlayerRedeemChips", id+" "+j.PlayerID)
}
func (b *vBackend) PlayersLeave(id string, p []string) error {
	b.leaves = append(b.leaves, append([]string{}, p...))
	return b.rec("PlayersLeave", fmt.Sprintf("%s %v", id, p))
}
func (b *vBackend) UpdateTable(t *pokertable.Table) { b.onUpdate(t) }
func (b *vBackend) ReleaseTable(id string) error    { return b.rec("ReleaseTable", id) }

func vTable(id string, meta pokertable.TableMeta) *pokertable.Table {
	t := &pokertable.Table{}
	raw, _ := json.Marshal(map[string]any{"id": id, "meta": meta, "state": map[string]any{}})
	if err := json.Unmarshal(raw, t); err != nil {
		panic(err)
	}
	t.ID = id
	t.Meta = meta
	if t.State == nil {
		t.State = &pokertable.TableState{}
	}
	t.State.Status = pokertable.TableStateStatus_TableCreated
	return t
}

var errV = errors.New("injected")

type vOpt struct {
	mode     CompetitionMode
	min      int
	final    int
	levels   []BlindLevel
	initial  int
	rebuys   int
	addons   int
	wait     int
	maxSeat  int
	advance  AdvanceSetting
	maxDur   int
	tables   int
	tableMin int
	startAt  int64
}

type vEnv struct {
	t    *testing.T
	b    *vBackend
	ce   *competitionEngine
	errs []error
	rank map[string]int
	cash []string
	evs  []string
	pl   []CompetitionPlayer
}

func vNew(t *testing.T, o vOpt) *vEnv {
	if o.levels == nil {
		o.levels = []BlindLevel{{Level: 1, SB: 10, BB: 20, Duration: 1000, AllowAddon: true}, {Level: 2, SB: 20, BB: 40, Duration: 1000}}
	}
	if o.initial == 0 {
		o.initial = 1
	}
	if o.maxSeat == 0 {
		o.maxSeat = 9
	}
	if o.min == 0 {
		o.min = 2
	}
	if o.tableMin == 0 {
		o.tableMin = 2
	}
	if o.maxDur == 0 {
		o.maxDur = 100000
	}
	if o.startAt == 0 {
		o.startAt = UnsetValue
	}
	b := newVBackend()
	ce := NewCompetitionEngine(WithTableManagerBackend(b), WithTableOptions(pokertable.NewTableEngineOptions())).(*competitionEngine)
	e := &vEnv{t: t, b: b, ce: ce, rank: map[string]int{}}
	ce.OnCompetitionErrorUpdated(func(c *Competition, err error) { e.errs = append(e.errs, err) })
	ce.OnCompetitionFinalPlayerRankUpdated(func(c, p string, r int) { e.rank[p] = r })
	ce.OnCompetitionPlayerCashOut(func(c string, p *CompetitionPlayer) { e.cash = append(e.cash, p.PlayerID) })
	ce.OnCompetitionStateUpdated(func(ev string, c *Competition) { e.evs = append(e.evs, ev) })
	ce.OnCompetitionPlayerUpdated(func(c string, p *CompetitionPlayer) { e.pl = append(e.pl, *p) })
	s := CompetitionSetting{
		CompetitionID: "c1", StartAt: o.startAt, DisableAt: time.Now().Unix() + 100000,
		Meta: CompetitionMeta{
			Blind:       Blind{ID: "b", InitialLevel: o.initial, FinalBuyInLevelIndex: o.final, Levels: o.levels},
			MaxDuration: o.maxDur, MinPlayerCount: o.min, MaxPlayerCount: 100, TableMaxSeatCount: o.maxSeat,
			TableMinPlayerCount: o.tableMin, RegulatorMinInitialPlayerCount: 2, Rule: CompetitionRule_Default, Mode: o.mode,
			ReBuySetting: ReBuySetting{MaxTime: o.rebuys, WaitingTime: o.wait}, AddonSetting: AddonSetting{MaxTime: o.addons},
			AdvanceSetting: o.advance, ActionTime: 10, MinChipUnit: 1,
		},
	}
	if o.mode != CompetitionMode_MTT {
		for i := 0; i < o.tables || i == 0; i++ {
			s.TableSettings = append(s.TableSettings, TableSetting{TableID: fmt.Sprintf("t%d", i+1)})
		}
	}
	if _, err := ce.CreateCompetition(s); err != nil {
		t.Fatal("create", err)
	}
	return e
}

func (e *vEnv) buy(id string, chips int64) error {
	return e.ce.PlayerBuyIn(JoinPlayer{PlayerID: id, RedeemChips: chips, Unit: 1})
}

func (e *vEnv) player(id string) *CompetitionPlayer {
	for _, p := range e.ce.competition.State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

type vSeat struct {
	id    string
	chips int64
}

// table builds an update of the table with the given seats.
func (e *vEnv) table(id string, st pokertable.TableStateStatus, game int, seats ...vSeat) *pokertable.Table {
	var meta pokertable.TableMeta
	for _, t := range e.ce.competition.State.Tables {
		if t.ID == id {
			meta = t.Meta
		}
	}
	raw := map[string]any{"id": id, "state": map[string]any{"game_state": map[string]any{"result": map[string]any{}}}}
	data, _ := json.Marshal(raw)
	t := &pokertable.Table{}
	_ = json.Unmarshal(data, t)
	t.ID, t.Meta = id, meta
	t.State.Status, t.State.GameCount = st, game
	t.State.StartAt = time.Now().Unix()
	for i, s := range seats {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: s.id, Seat: i, Bankroll: s.chips, IsIn: true, IsParticipated: true})
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
	}
	return t
}

// start brings a CT/Cash competition into play through its created table.
func (e *vEnv) start(id string, seats ...vSeat) {
	e.ce.UpdateTable(e.table(id, pokertable.TableStateStatus_TableCreated, 0, seats...))
}

func vWithin(t *testing.T, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s did not return within %v", what, d)
	}
}
