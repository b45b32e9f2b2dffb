package pokercompetition

import (
	"sync"
	"testing"
	"time"

	"github.com/google/uuid"
	pokerblind "github.com/weedbox/pokercompetition/blind"
	"github.com/weedbox/pokerface/regulator"
	"github.com/weedbox/pokertable"
)

// F1: a table emits its settled state again while an add-on is redeemed.
func TestFixDeadlockOnSettledUpdateDuringAddon(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, addons: 1})
	e.buy("a", 100)
	e.buy("b", 100)
	e.start("t1", vSeat{"a", 100}, vSeat{"b", 100})
	e.b.on["PlayerRedeemChips"] = func() {
		e.b.onUpdate(e.table("t1", pokertable.TableStateStatus_TableGameSettled, 1, vSeat{"a", 150}, vSeat{"b", 100}))
	}
	vWithin(t, 5*time.Second, "PlayerAddon", func() { e.ce.PlayerAddon("t1", JoinPlayer{PlayerID: "a", RedeemChips: 50}) })
}

// F2: concurrent buy-ins of one player.
func TestFixConcurrentBuyIn(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, min: 100, maxSeat: 9})
	e.ce.mu.Lock()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); e.buy("a", 100) }()
	}
	time.Sleep(200 * time.Millisecond)
	e.ce.mu.Unlock()
	wg.Wait()
	if n := len(e.ce.competition.State.Players); n != 1 {
		t.Fatalf("player registered %d times", n)
	}
}

func TestFixConcurrentAddon(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, addons: 1})
	e.buy("a", 100)
	e.buy("b", 100)
	e.start("t1", vSeat{"a", 100}, vSeat{"b", 100})
	e.ce.mu.Lock()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); e.ce.PlayerAddon("t1", JoinPlayer{PlayerID: "a", RedeemChips: 50}) }()
	}
	time.Sleep(200 * time.Millisecond)
	e.ce.mu.Unlock()
	wg.Wait()
	if n := e.player("a").AddonTimes; n != 1 {
		t.Fatalf("add-ons taken: %d of 1", n)
	}
}

func TestFixConcurrentRefund(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, min: 100})
	e.buy("a", 100)
	e.buy("b", 100)
	e.ce.mu.Lock()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); e.ce.PlayerRefund("a") }()
	}
	time.Sleep(200 * time.Millisecond)
	e.ce.mu.Unlock()
	wg.Wait()
	if e.player("b") == nil {
		t.Fatal("refunding a twice removed b")
	}
}

// F3: the MTT buy-in that reaches the minimum.
func TestFixTriggeringBuyInReachesRegulator(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_MTT, final: 1, min: 2})
	e.buy("a", 100)
	e.ce.StartCompetition()
	e.buy("b", 100)
	if n := e.ce.regulator.GetPlayerCount(); n != 2 {
		t.Fatalf("regulator knows %d of 2 players", n)
	}
}

// F4: the native backend and the first game of a table.
func TestFixNativeBackendFirstGame(t *testing.T) {
	m := pokertable.NewManager()
	b := NewNativeTableManagerBackend(m)
	got := make(chan int, 1)
	b.OnReadyOpenFirstTableGame(func(id string, game int, ps []*pokertable.TablePlayerState) {
		select {
		case got <- len(ps):
		default:
		}
	})
	tb, err := b.CreateTable(pokertable.NewTableEngineOptions(), pokertable.TableSetting{
		TableID: uuid.New().String(),
		Meta:    pokertable.TableMeta{CompetitionID: "c", Rule: "default", Mode: "ct", MaxDuration: 100, TableMaxSeatCount: 9, TableMinPlayerCount: 2, MinChipUnit: 1, ActionTime: 10},
		Blind:   pokertable.TableBlindState{Level: 1, SB: 10, BB: 20},
	})
	if err != nil {
		t.Fatal(err)
	}
	for _, id := range []string{"a", "b"} {
		if err := b.PlayerReserve(tb.ID, pokertable.JoinPlayer{PlayerID: id, RedeemChips: 1000, Seat: -1}); err != nil {
			t.Fatal(err)
		}
		if err := b.PlayerJoin(tb.ID, id); err != nil {
			t.Fatal(err)
		}
	}
	b.StartTableGame(tb.ID)
	select {
	case <-got:
	case <-time.After(8 * time.Second):
		t.Fatal("the first game of the table was never announced")
	}
}

// F5: statistics after the list or a status changed.
func TestFixStatistics(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, min: 100})
	e.buy("a", 100)
	e.buy("b", 100)
	e.ce.PlayerRefund("a")
	if n := e.ce.competition.State.Statistic.PlayingPlayerCount; n != 1 {
		t.Errorf("after refund: playing = %d, want 1", n)
	}
	e = vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, min: 100})
	e.buy("a", 100)
	e.buy("b", 100)
	e.ce.PlayerQuit("t1", "a")
	if s := e.ce.competition.State.Statistic; s.PlayingPlayerCount != 1 || s.ReBuyWaitingPlayerCount != 1 {
		t.Errorf("after quit: %+v", *s)
	}
	e = vNew(t, vOpt{mode: CompetitionMode_Cash, final: NoStopBuyInIndex, min: 100})
	e.buy("a", 100)
	e.buy("b", 100)
	e.ce.PlayerCashOut("t1", "a")
	if s := e.ce.competition.State.Statistic; s.PlayingPlayerCount != 1 {
		t.Errorf("after cash-out: %+v", *s)
	}
	e = vNew(t, vOpt{mode: CompetitionMode_MTT, final: 1, min: 100})
	e.buy("a", 100)
	e.ce.UpdateReserveTablePlayerState("t1", &pokertable.TablePlayerState{PlayerID: "a", Seat: 3})
	if s := e.ce.competition.State.Statistic; s.PlayingPlayerCount != 1 || s.WaitingTableBalancingPlayerCount != 0 {
		t.Errorf("after seating: %+v", *s)
	}
}

// F6: starting a competition that was closed.
func TestFixStartAfterClose(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_MTT, final: 1, min: 2})
	e.buy("a", 100)
	e.buy("b", 100)
	e.ce.CloseCompetition(CompetitionStateStatus_ForceEnd)
	_, err := e.ce.StartCompetition()
	if err == nil || e.ce.competition.State.Status != CompetitionStateStatus_ForceEnd {
		t.Fatalf("closed competition started again: %v %v", err, e.ce.competition.State.Status)
	}
}

// F8: the blind clock.
func TestFixBlindStartWithoutOptions(t *testing.T) {
	b := pokerblind.NewBlind()
	if _, err := b.Start(); err != pokerblind.ErrBlindNoOptions {
		t.Fatalf("got %v", err)
	}
}

func TestFixBlindUnknownInitialLevel(t *testing.T) {
	b := pokerblind.NewBlind()
	b.ApplyOptions(&pokerblind.BlindOptions{InitialLevel: 7, Levels: []pokerblind.BlindLevel{{Level: 1, Duration: 10}}})
	if _, err := b.Start(); err == nil || b.IsStarted() {
		t.Fatalf("got %v started %v", err, b.IsStarted())
	}
}

// F9: backend errors.
func TestFixErrorsSurface(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1})
	e.buy("a", 100)
	e.buy("b", 100)
	e.start("t1", vSeat{"a", 100}, vSeat{"b", 100})
	e.b.fail["SetUpTableGame"] = errV
	e.ce.UpdateTable(e.table("t1", pokertable.TableStateStatus_TablePausing, 1, vSeat{"a", 100}, vSeat{"b", 100}))
	if e.b.count("SetUpTableGame") != 1 || len(e.errs) != 1 {
		t.Errorf("reopen: calls %d errors %d", e.b.count("SetUpTableGame"), len(e.errs))
	}
	e = vNew(t, vOpt{mode: CompetitionMode_CT, final: 1, min: 100})
	e.buy("a", 100)
	e.b.fail["PlayersLeave"] = errV
	if err := e.ce.PlayerQuit("t1", "a"); err == nil && len(e.errs) == 0 {
		t.Error("quit: the error was dropped")
	}
	e = vNew(t, vOpt{mode: CompetitionMode_MTT, final: 1, min: 2})
	e.buy("a", 100)
	e.buy("b", 100)
	e.ce.StartCompetition()
	n := len(e.errs)
	e.ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
	e.buy("c", 100)
	if len(e.errs) == n {
		t.Error("late MTT buy-in: the regulator's error was dropped")
	}
}

// F10: MTT tables never get more players than they have seats.
func TestFixMTTSeatCount(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_MTT, final: 1, min: 2, maxSeat: 6})
	for _, p := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i"} {
		e.buy(p, 100)
	}
	e.ce.StartCompetition()
	if e.b.count("CreateTable") != 2 {
		t.Fatalf("9 players, 6 seats per table: %d tables were requested", e.b.count("CreateTable"))
	}
}

// F12: a break followed by another break.
func TestFixConsecutiveBreaks(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_Cash, final: NoStopBuyInIndex, levels: []BlindLevel{
		{Level: 1, SB: 10, BB: 20, Duration: 1}, {Level: -1, Duration: 2}, {Level: -1, Duration: 4}, {Level: 2, SB: 20, BB: 40, Duration: 1000}}})
	e.buy("a", 100)
	e.buy("b", 100)
	seats := []vSeat{{"a", 100}, {"b", 100}}
	e.start("t1", seats...)
	e.ce.UpdateTable(e.table("t1", pokertable.TableStateStatus_TableGamePlaying, 3, seats...))
	open := map[bool]int{}
	e.b.mu.Lock()
	e.b.on["SetUpTableGame"] = func() { open[e.ce.competition.IsBreaking()]++ }
	e.b.mu.Unlock()
	time.Sleep(9500 * time.Millisecond)
	if open[true] != 0 || open[false] != 1 {
		t.Errorf("table set up %d times during the breaks and %d times after them", open[true], open[false])
	}
}

// F15: a CT that cannot be started at its start time says so.
func TestFixAutoStartErrorSurfaces(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, min: 2, maxDur: -10, startAt: time.Now().Unix() + 2})
	time.Sleep(3 * time.Second)
	if len(e.errs) == 0 {
		t.Fatal("the failed start was not reported")
	}
}

// F16: two simultaneous cash-outs of one player.
func TestFixConcurrentCashOut(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_Cash})
	e.buy("a", 100)
	e.buy("b", 100)
	var n int32
	var mu sync.Mutex
	e.ce.OnCompetitionPlayerCashOut(func(id string, p *CompetitionPlayer) {
		mu.Lock()
		n++
		mu.Unlock()
	})
	e.b.on["PlayersLeave"] = func() { time.Sleep(300 * time.Millisecond) }
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); e.ce.PlayerCashOut("t1", "a") }()
	}
	wg.Wait()
	if n != 1 || len(e.ce.competition.State.Players) != 1 {
		t.Fatalf("paid %d times, %d players left", n, len(e.ce.competition.State.Players))
	}
}

// F17: showdowns are counted.
func TestFixShowdownStatistics(t *testing.T) {
	e := vNew(t, vOpt{mode: CompetitionMode_CT, final: 1})
	e.buy("a", 100)
	e.buy("b", 100)
	e.start("t1", vSeat{"a", 100}, vSeat{"b", 100})
	u := e.table("t1", pokertable.TableStateStatus_TableGameSettled, 1, vSeat{"a", 150}, vSeat{"b", 50})
	for i, p := range u.State.PlayerStates {
		p.GameStatistics.ShowdownWinningChance = true
		p.GameStatistics.IsShowdownWinning = i == 0
	}
	e.ce.UpdateTable(u)
	a, b := e.player("a"), e.player("b")
	if a.TotalShowdownWinningChances != 1 || a.TotalShowdownWinningTimes != 1 || b.TotalShowdownWinningChances != 1 || b.TotalShowdownWinningTimes != 0 {
		t.Fatalf("showdowns counted: %d/%d and %d/%d", a.TotalShowdownWinningTimes, a.TotalShowdownWinningChances, b.TotalShowdownWinningTimes, b.TotalShowdownWinningChances)
	}
}
