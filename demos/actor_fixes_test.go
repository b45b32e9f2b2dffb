package actor

// Demonstrations of repaired defects of the players' side.

import (
	"testing"

	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
)

func vTable(status pokertable.TableStateStatus, event string) *pokertable.Table {
	return &pokertable.Table{ID: "t", Meta: pokertable.TableMeta{CompetitionID: "c"}, State: &pokertable.TableState{
		Status:            status,
		PlayerStates:      []*pokertable.TablePlayerState{{PlayerID: "a", IsIn: true}, {PlayerID: "b", IsIn: true}},
		GamePlayerIndexes: []int{0, 1},
		GameState: &pokerface.GameState{GameID: "g", UpdatedAt: 7, Meta: pokerface.Meta{Deck: []string{"D1"}},
			Status: pokerface.Status{CurrentEvent: event, Burned: []string{"B1"}, MiniBet: 100},
			Players: []*pokerface.PlayerState{
				{Idx: 0, HoleCards: []string{"A1", "A2"}, InitialStackSize: 50},
				{Idx: 1, HoleCards: []string{"X1", "X2"}, Fold: true},
			}},
	}}
}

// F13: a paused or closed table still carries its hand, and a player was shown
// everybody's cards with it.
func TestFixViewOfClosedTable(t *testing.T) {
	for _, s := range []pokertable.TableStateStatus{pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TablePausing} {
		pr := NewPlayerRunner("a")
		var seen *pokertable.Table
		pr.OnTableStateUpdated(func(x *pokertable.Table) { seen = x })
		pr.UpdateTableState(vTable(s, "GameClosed"))
		if seen == nil {
			t.Fatal("nothing shown")
		}
		gs := seen.State.GameState
		if len(gs.Meta.Deck) > 0 || len(gs.Status.Burned) > 0 || len(gs.Players[1].HoleCards) > 0 {
			t.Errorf("%s: shown deck %v, burned %v, folded cards %v", s, gs.Meta.Deck, gs.Status.Burned, gs.Players[1].HoleCards)
		}
		if len(gs.Players[0].HoleCards) != 2 {
			t.Error("own cards hidden")
		}
	}
}

type vAdapter struct {
	Adapter
	bets []int64
}

func (a *vAdapter) SetActor(Actor)                    {}
func (a *vAdapter) Bet(id string, chips int64) error { a.bets = append(a.bets, chips); return nil }

// F14: a bot that bet its whole stack did not report the bet.
func TestFixBotReportsShortBet(t *testing.T) {
	br := NewBotRunner("a")
	ad := &vAdapter{}
	ac := NewActor()
	ac.SetAdapter(ad)
	ac.SetRunner(br)
	var told []int64
	br.OnTableGameWagerActionUpdated(func(_, _ string, _ int, _, action string, chips int64) {
		if action == "bet" {
			told = append(told, chips)
		}
	})
	tb := vTable(pokertable.TableStateStatus_TableGamePlaying, "RoundStarted")
	tb.State.GameState.Players[0].AllowedActions = []string{"bet"}
	if err := br.UpdateTableState(tb); err != nil {
		t.Fatal(err)
	}
	if len(ad.bets) != 1 || ad.bets[0] != 50 || len(told) != 1 || told[0] != 50 {
		t.Errorf("bets %v, reported %v", ad.bets, told)
	}
}
