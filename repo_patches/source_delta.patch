From da9d8030b94d09af2e0fd7732485b79428e613cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 01/16] fix: settle a table without the player operation mutex

PlayerBuyIn, PlayerAddon and PlayerRefund hold the mutex while they call the
table manager, which emits table updates synchronously: a settled table made
them wait for themselves.
---
 competition_engine_internal.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf1d2f8..64265c5 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,13 +223,9 @@ settleCompetitionTable 桌次結算
 */
 func (ce *competitionEngine) settleCompetitionTable(table pokertable.Table, tableIdx int) {
 	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)
-	ce.mu.Lock()
-	if isGameSettled, ok := ce.gameSettledRecords.Load(gameSettledRecordID); ok && isGameSettled.(bool) {
-		ce.mu.Unlock()
+	if _, isGameSettled := ce.gameSettledRecords.LoadOrStore(gameSettledRecordID, true); isGameSettled {
 		return
 	}
-	ce.gameSettledRecords.Store(gameSettledRecordID, true)
-	ce.mu.Unlock()
 
 	// 更新玩家相關賽事數據
 	ce.updatePlayerCompetitionTableRecords(table)
-- 
2.43.0


From 67a4217a62f03937d8936980659ee0534fb0699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 02/16] fix: check and apply player operations under one lock

The conditions of buy-in, add-on, refund and quit were checked before the lock
was taken: concurrent calls for one player were both accepted, and a refund
could delete the wrong player.
---
 competition_engine.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..5b90f60 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -397,6 +397,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -463,7 +466,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	var competitionPlayer *CompetitionPlayer
 
 	// do logic
-	ce.mu.Lock()
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
@@ -498,7 +500,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
-	defer ce.mu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
@@ -544,6 +545,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -566,7 +570,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
-	ce.mu.Lock()
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -575,7 +578,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit
 	}
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
@@ -596,6 +598,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 }
 
 func (ce *competitionEngine) PlayerRefund(playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate refund conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -618,13 +623,11 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 
 	// refund logic
-	ce.mu.Lock()
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
@@ -688,6 +691,9 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate quit conditions
 	// CT Only
 	if ce.competition.Meta.Mode != CompetitionMode_CT {
@@ -717,13 +723,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
 		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
 	} else {
-		ce.mu.Lock()
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = CompetitionPlayerStatus_ReBuyWaiting
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
-		ce.mu.Unlock()
 
 		ce.emitPlayerEvent("quit knockout", cp)
 		ce.emitEvent("Player Quit", "")
-- 
2.43.0


From 6f679e9225ba7f856d83e28294c5b75b0d7de3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 03/16] fix: hand the MTT player that starts the regulator to
 it as well

---
 competition_engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5b90f60..0d18785 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -527,11 +527,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From 1e88a015f2a52e0fb7ac1802dede180b5b228fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 04/16] fix: native backend forwards the ready event of the
 first table game

---
 native_table_manager_backend.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..2c519c5 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -91,6 +91,20 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
 
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
-- 
2.43.0


From 13e69c676b55acba8d5a08fa047753a902db116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 05/16] fix: refresh the player statistics after refund, quit,
 cash-out and seating

---
 competition_engine.go          | 4 ++++
 competition_engine_internal.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 0d18785..44651fa 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -627,6 +627,7 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
@@ -667,6 +668,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
 
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
@@ -727,6 +729,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
+		ce.refreshPlayerStatusStatistics()
 
 		ce.emitPlayerEvent("quit knockout", cp)
 		ce.emitEvent("Player Quit", "")
@@ -747,6 +750,7 @@ func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playe
 	cp.CurrentSeat = playerState.Seat
 	cp.CurrentTableID = tableID
 	cp.Status = CompetitionPlayerStatus_Playing
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("[UpdateReserveTablePlayerState] player table seat updated", cp)
 	ce.emitEvent(fmt.Sprintf("[UpdateReserveTablePlayerState] player (%s) is reserved to table (%s) at seat (%d)", cp.PlayerID, cp.CurrentTableID, cp.CurrentSeat), cp.PlayerID)
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 64265c5..f15ed5b 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -541,6 +541,7 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 		}
 	}
 	ce.competition.State.Players = newPlayers
+	ce.refreshPlayerStatusStatistics()
 
 	// Emit Event
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
-- 
2.43.0


From 32a9839fff222c1b171b3201cab18588df01a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 06/16] fix: reject starting a competition that has ended

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 44651fa..186ac5c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -331,7 +331,7 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if ce.isStarted || ce.isEndStatus() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
-- 
2.43.0


From 9fe41e4b92a89d23cf8d271b14d8a3055fb6fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 07/16] fix: starting the blind at an unknown level is an
 error, not a panic

---
 blind/blind.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index 9d3eb2c..2cd4271 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -10,9 +10,10 @@ import (
 )
 
 var (
-	ErrBlindNoOptions      = errors.New("blind: options not available")
-	ErrBlindNoState        = errors.New("blind: state not available")
-	ErrBlindAlreadyStarted = errors.New("blind: already started")
+	ErrBlindNoOptions            = errors.New("blind: options not available")
+	ErrBlindNoState              = errors.New("blind: state not available")
+	ErrBlindAlreadyStarted       = errors.New("blind: already started")
+	ErrBlindInitialLevelNotFound = errors.New("blind: initial level not found")
 )
 
 type Blind interface {
@@ -113,15 +114,20 @@ func (b *blind) Start() (*BlindState, error) {
 		return nil, ErrBlindNoOptions
 	}
 
-	startAt := time.Now()
-	b.bs.StartedAt = startAt.Unix()
-	b.isEnd = false
-
+	initialLevelIdx := UnsetValue
 	for idx, bl := range b.bs.Meta.Levels {
 		if bl.Level == b.bs.Meta.InitialLevel {
-			b.bs.Status.CurrentLevelIndex = idx
+			initialLevelIdx = idx
 		}
 	}
+	if initialLevelIdx == UnsetValue {
+		return nil, ErrBlindInitialLevelNotFound
+	}
+
+	startAt := time.Now()
+	b.bs.StartedAt = startAt.Unix()
+	b.bs.Status.CurrentLevelIndex = initialLevelIdx
+	b.isEnd = false
 
 	for i := (b.bs.Status.CurrentLevelIndex); i < len(b.bs.Meta.Levels); i++ {
 		if i == b.bs.Status.CurrentLevelIndex {
-- 
2.43.0


From f7fc86b171be7a9b18d096644829e9c734e3028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 08/16] fix: a blind without options is not started

---
 blind/blind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blind/blind.go b/blind/blind.go
index 2cd4271..7adc24a 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -159,7 +159,7 @@ func (b *blind) End() {
 }
 
 func (b *blind) IsStarted() bool {
-	return b.bs.IsActive()
+	return b.bs != nil && b.bs.IsActive()
 }
 
 func (b *blind) updateLevel(endAt int64) {
-- 
2.43.0


From 9093f3a601469af8bccfb0ecdebece91ec13b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 09/16] fix: report the errors of the table manager and the
 regulator

---
 competition_engine.go          | 9 +++++++--
 competition_engine_internal.go | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 186ac5c..06b183b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -137,7 +137,9 @@ func WithTableManagerBackend(tmb TableManagerBackend) CompetitionEngineOpt {
 			ce.UpdateReserveTablePlayerState(tableID, playerState)
 		})
 		ce.tableManagerBackend.OnReadyOpenFirstTableGame(func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
-			ce.ReadyFirstTableGame(tableID, gameCount, playerStates)
+			if err := ce.ReadyFirstTableGame(tableID, gameCount, playerStates); err != nil {
+				ce.emitErrorEvent("ReadyFirstTableGame -> SetUpTableGame", "", err)
+			}
 		})
 	}
 }
@@ -525,7 +527,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		// 更新拆併桌監管器狀態
 		if ce.isRegulatorStarted {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
-			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
+			if err := ce.regulatorAddPlayers([]string{joinPlayer.PlayerID}); err != nil {
+				ce.emitErrorEvent("PlayerBuyIn -> MTT Regulator Add Players", joinPlayer.PlayerID, err)
+			}
 		} else {
 			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
 			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
@@ -723,6 +727,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, []string{playerID}); err != nil {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
 		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
+		return err
 	} else {
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = CompetitionPlayerStatus_ReBuyWaiting
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f15ed5b..6b399e9 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -138,7 +138,9 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 	// re-open game
 	if shouldReOpenGame && !ce.competition.IsBreaking() {
 		nextGameCount := table.State.GameCount + 1
-		ce.tableManagerBackend.SetUpTableGame(table.ID, nextGameCount, aliveParticipants)
+		if err := ce.tableManagerBackend.SetUpTableGame(table.ID, nextGameCount, aliveParticipants); err != nil {
+			ce.emitErrorEvent("reopen game -> SetUpTableGame", "", err)
+		}
 		ce.emitEvent("Game Reopen:", "")
 	}
 }
@@ -603,7 +605,9 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			if t.State.GameCount > 0 {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
+				if err := ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants); err != nil {
+					ce.emitErrorEvent("resume game from breaking -> SetUpTableGame", "", err)
+				}
 				ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] = true
 			} else if t.State.GameCount == 0 {
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
-- 
2.43.0


From e6cf9d120fb64068a696ec47c43866bea2810848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 10/16] fix: tell the MTT regulator how many seats a table has

---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index 06b183b..ae29825 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -254,6 +254,7 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 		if ce.regulator == nil {
 			ce.regulator = regulator.NewRegulator(
 				regulator.MinInitialPlayers(competitionSetting.Meta.RegulatorMinInitialPlayerCount),
+				regulator.MaxPlayersPerTable(competitionSetting.Meta.TableMaxSeatCount),
 				regulator.WithRequestTableFn(func(playerIDs []string) (string, error) {
 					return ce.regulatorCreateAndDistributePlayers(playerIDs)
 				}),
-- 
2.43.0


From 128f800ce7502c471f6869a1b8d434cb56b01be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 11/16] fix: do not resume a table while the next blind level
 is a break too

---
 competition_engine_internal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 6b399e9..ec50ad6 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -573,7 +573,8 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 	}
 
 	// reopen table game
-	endAt := ce.competition.State.BlindState.EndAts[ce.competition.State.BlindState.CurrentLevelIndex] + 1
+	breakingLevelIdx := ce.competition.State.BlindState.CurrentLevelIndex
+	endAt := ce.competition.State.BlindState.EndAts[breakingLevelIdx] + 1
 	if err := timebank.NewTimeBank().NewTaskWithDeadline(time.Unix(endAt, 0), func(isCancelled bool) {
 		if isCancelled {
 			fmt.Println("[DEBUG#handleBreaking] timer is canceled. TableID:", tableID)
@@ -585,6 +586,12 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
+		// the next level is a break as well: its own timer resumes the table
+		if ce.competition.IsBreaking() && ce.competition.State.BlindState.CurrentLevelIndex != breakingLevelIdx {
+			fmt.Println("[DEBUG#handleBreaking] not reopen since another break has begun. TableID:", tableID)
+			return
+		}
+
 		if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
 			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
 			return
-- 
2.43.0


From 17487f579fecf2a8df522f34a5e5f884f9d79796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:57 +0000
Subject: [PATCH 12/16] fix: never show a player the others' cards of a paused
 or closed table

---
 actor/player_runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 66a6bb9..d3d9e39 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -75,8 +75,8 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	} else {
 		cloneTable = *table
 	}
-	// hide certain game state fields for player when table game is playing
-	if cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled {
+	// hide certain game state fields for player whenever there is a game, a table can be paused or closed with one
+	if cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
-- 
2.43.0


From 3c2717b68302cd535a718e4f0172bb35111179ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:57 +0000
Subject: [PATCH 13/16] fix: report the bet of a bot that bets its whole stack

---
 actor/bot_runner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9dbff43..2f3ee27 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -295,7 +295,13 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minBet := gs.Status.MiniBet
 
 		if player.InitialStackSize <= minBet {
-			return br.actions.Bet(player.InitialStackSize)
+			err := br.actions.Bet(player.InitialStackSize)
+			if err != nil {
+				return err
+			}
+
+			br.updateWagerAction(pokertable.WagerAction_Bet, player.InitialStackSize)
+			return nil
 		}
 
 		chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
-- 
2.43.0


From 1c65a438ed24f0f93004855f214604748179d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:47 +0000
Subject: [PATCH 14/16] fix: report that a competition could not be started at
 its start time

---
 competition_engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index ae29825..66163f8 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -275,7 +275,9 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 			}
 
 			if ce.competition.State.Status == CompetitionStateStatus_Registering {
-				ce.StartCompetition()
+				if _, err := ce.StartCompetition(); err != nil && err != ErrCompetitionStartRejected {
+					ce.emitErrorEvent("Auto StartCompetition", "", err)
+				}
 			}
 		}); err != nil {
 			return nil, err
-- 
2.43.0


From 2de1d4c96bd63c2918f009cb64e7e0854df206e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:11 +0000
Subject: [PATCH 15/16] fix: check and apply a cash-out under the lock

Two cash-outs of one player at the same time both found the player and
both paid the player out.
---
 competition_engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 66163f8..01a5a45 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -660,6 +660,9 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate leave conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
-- 
2.43.0


From 6fd83167f4f32597053312bdc47f43d891ec3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:50 +0000
Subject: [PATCH 16/16] fix: accumulate the showdown statistics of the players

The table reports ShowdownWinningChance and IsShowdownWinning of every hand
but TotalShowdownWinningChances and TotalShowdownWinningTimes stayed 0.
---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index ec50ad6..07c7740 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -868,6 +868,12 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		if player.GameStatistics.IsFtCB {
 			cp.TotalFtCBTimes++
 		}
+		if player.GameStatistics.ShowdownWinningChance {
+			cp.TotalShowdownWinningChances++
+		}
+		if player.GameStatistics.IsShowdownWinning {
+			cp.TotalShowdownWinningTimes++
+		}
 	}
 
 	// 更新贏家統計數據
-- 
2.43.0

