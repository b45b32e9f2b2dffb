WHY_IN = "The tests drive a few scripted competitions with fixed player counts and never enumerate statuses, modes, limits and error returns in combination."
OPS = ["CompetitionEngine operations (return value, competition state afterwards, calls to the table manager backend)"]

P("C01", "A buy-in is accepted only with chips and while registration is open",
  "For every competition state and request, PlayerBuyIn changes nothing and calls no other component unless the requested chips are positive and the competition is registering or in delayed buy-in. A request that is refused returns one of the documented errors, and each of them only for its documented reason: ErrCompetitionNoRedeemChips for non-positive chips, ErrCompetitionBuyInRejected for a new player when registration is closed or the CT table is full, ErrCompetitionTableNotFound for a new CT player when there is no table, ErrCompetitionReBuyRejected/ErrCompetitionExceedReBuyLimit for a known player only.",
  ["inputs", "histories"], "all requests in all reachable (and unreachable) competition states, all modes", WHY_IN,
  [E], [("PlayerBuyIn", "competition_engine.go: PlayerBuyIn"), ("validatePlayerBuyIn logic", "competition_engine.go: PlayerBuyIn guards")],
  "path-sensitive gate analysis: dominating facts of every effect site and reason of every refusing path", observe=OPS)
P("C02", "A re-buy needs a waiting, chipless player below the re-buy limit",
  "In CT and MTT, PlayerBuyIn for a player who is already registered has an effect only if that player is waiting for a re-buy, has no chips left and has re-bought fewer times than the configured maximum. It returns ErrCompetitionReBuyRejected only if registration is closed or (CT, MTT) the player is not waiting or still has chips, and ErrCompetitionExceedReBuyLimit only if (CT, MTT) the limit is reached.",
  ["inputs", "histories"], "all re-buy requests in all competition states", WHY_IN,
  [E], [("PlayerBuyIn re-buy branch", "competition_engine.go: PlayerBuyIn")],
  "path-sensitive gate analysis", observe=OPS)
P("C03", "A CT buy-in never exceeds the table's seats",
  "In CT a new player's buy-in has an effect only if there is a table and the number of playing players plus players waiting for a re-buy is below the table's maximum seat count; it is refused with ErrCompetitionBuyInRejected only if the competition is closed for registration or that capacity is reached, and with ErrCompetitionTableNotFound only if there is no table.",
  ["inputs", "histories"], "all CT buy-ins in all competition states", WHY_IN,
  [E], [("seat capacity guard", "competition_engine.go: PlayerBuyIn")],
  "path-sensitive gate analysis with relational facts", observe=OPS)
P("C04", "Buy-in and re-buy bookkeeping is exact",
  "An accepted buy-in appends exactly one player record with the requested id, chips, total redeemed chips and buy-in units, no re-buys and add-ons, no seat, not re-buying, not knocked out, joined now, at the (first) table in CT/Cash and at none in MTT; an accepted re-buy sets the chips to the requested amount, adds it to the redeemed total, adds one re-buy and (CT, MTT) the units, clears the re-buy waiting fields, and in MTT clears table and seat. The player's status becomes waiting_table_balancing in MTT and playing otherwise, the competition's total of bought-in units grows by the request's units in CT and MTT only, and no other player's money, status or seat changes.",
  ["inputs", "histories"], "all accepted buy-ins and re-buys, all modes", WHY_IN,
  [E, I], [("newDefaultCompetitionPlayerData", "competition_engine_internal.go"), ("PlayerBuyIn", "competition_engine.go")],
  "symbolic value of every bookkeeping field on every accepting path compared with the specified term", observe=OPS)
P("C05", "Every accepted buy-in is handed over exactly once",
  "An accepted buy-in or re-buy in CT and Cash reserves exactly one seat at the (first) table for that player with the requested chips and any seat, and never reaches the regulator; in MTT it reserves no seat and the player is handed over exactly once: to the regulator when it runs (or starts to run by this buy-in), otherwise to the queue of players waiting for it.",
  ["inputs", "histories"], "all accepted buy-ins, all modes, regulator running or not", WHY_IN + " The hand-over at the moment the regulator starts was wrong for years (see the fix commit).",
  [E, R], [("PlayerReserve call", "competition_engine.go: PlayerBuyIn"), ("activateRegulator, regulatorAddPlayers", "regulator.go")],
  "counting analysis of hand-over effects on every accepting path with argument terms", observe=OPS)
P("C06", "An add-on needs permission of the level and add-ons left",
  "PlayerAddon changes nothing and calls no other component unless the chips are positive, the player is registered, the current blind level allows add-ons, the competition is in a break if add-ons are restricted to breaks, and the player has fewer add-ons than the maximum. Its refusals are ErrCompetitionNoRedeemChips, ErrCompetitionAddonRejected and ErrCompetitionExceedAddonLimit, each only for its documented reason.",
  ["inputs", "histories"], "all add-on requests in all states", WHY_IN,
  [E, G], [("PlayerAddon", "competition_engine.go"), ("CurrentBlindLevel/IsBreaking", "competition.go")],
  "path-sensitive gate analysis", observe=OPS)
P("C07", "Add-on bookkeeping and forwarding are exact",
  "An accepted add-on adds the chips to the player's chips and redeemed total, adds one add-on, records the table, adds the units to the competition's add-on total in CT and MTT only, changes no other player's money, and redeems the same chips for that player at that table exactly once. PlayerAddon returns the table's error if the table refuses.",
  ["inputs", "fault_sequences"], "all accepted add-ons, table accepting or refusing", WHY_IN,
  [E], [("PlayerAddon", "competition_engine.go")],
  "symbolic value comparison on every accepting path", observe=OPS)
P("C08", "A refund is possible only before the blinds start and undoes the buy-in",
  "PlayerRefund has an effect only for a registered player and only while the blind clock has not started (otherwise ErrCompetitionRefundRejected). An accepted refund removes exactly that player from the players and from the queue waiting for the regulator, takes that player's units off the bought-in total in CT and MTT, makes a CT player seated at a table leave exactly that table, and touches no other player's money or seat.",
  ["inputs", "histories"], "all refunds in all states", WHY_IN,
  [E, I], [("PlayerRefund", "competition_engine.go"), ("deletePlayer", "competition_engine_internal.go")],
  "gate analysis plus list-removal and value comparison on every accepting path", observe=OPS)
P("C09", "A refused operation leaves the competition untouched",
  "When buy-in, add-on, refund, cash-out, quit, start, create, initial-level update or manual game opening returns an error of the competition's own, it has changed no state, emitted nothing and called no other component. The initial blind level is passed on only while registering, exactly once, and is otherwise refused with ErrCompetitionUpdateBlindInitialLevelRejected.",
  ["inputs", "histories"], "all refusing paths of all operations", WHY_IN,
  [E], [("operation guards", "competition_engine.go")],
  "effect analysis of every refusing path", observe=OPS)
P("C10", "An ended competition stays ended",
  "Once the status is end, auto_end or force_end, starting, closing, table updates, manual game opening, buy-ins and initial-level updates have no effect at all; and no other operation, timer or blind/regulator listener changes the status, the start and end times or the final rankings, opens a game on a table, updates a table's blind or starts the blind clock.",
  ["histories", "schedules"], "all operations, timers and listeners after an ended status", "Tests stop when a competition ends; late timers, listeners and calls are never driven afterwards.",
  [E, I, R], [("isEndStatus guards", "competition_engine.go, competition_engine_internal.go"), ("initBlind listener", "competition_engine_internal.go")],
  "effect reachability under an assumed ended status, for operations, timers and listeners", observe=OPS)

P("C11", "A competition starts once, with exact times and end timer",
  "StartCompetition acts only if the competition was never started and has not ended, and otherwise returns ErrCompetitionStartRejected with no effect; an accepted start sets the start time to now and marks the competition started for good. In CT the end time is the start time plus the maximum duration and one timer at that time closes the table, exactly when the competition has not ended and its table is not in a hand or closed; in MTT the end time stays unset; the start time is returned.",
  ["histories", "inputs"], "all starts in all states and modes", WHY_IN + " The end timer runs for hours.",
  [E, I], [("StartCompetition", "competition_engine.go"), ("end timer", "competition_engine.go: StartCompetition")],
  "gate analysis, value comparison and timer (deadline and body) analysis", observe=OPS)
P("C12", "A competition starts by itself exactly when it may",
  "A table-created update starts a CT or Cash competition exactly if it is registering, the players at its tables who are in and have chips reach the minimum and (CT) the start time is unset or reached; the start then turns on the blind clock, updates the blind of that table and opens that table's first game, each once and in this order. CreateCompetition sets a timer at the start time (if any) that starts a competition still registering and one at the disable time that ends a competition still registering with too few players, and they do nothing else.",
  ["inputs", "schedules", "histories"], "all table-created updates, all numbers of ready players, start times and timer firings", WHY_IN,
  [I, E], [("handleCompetitionTableCreated", "competition_engine_internal.go"), ("canStartCT, canStartCash", "competition_engine_internal.go"), ("start and disable timers", "competition_engine.go: CreateCompetition")],
  "path classification with a recognised full count of ready players; effect-sequence comparison including timers", observe=OPS)
P("C13", "A hand is settled exactly once",
  "For every table and hand number, the first settled update of that hand updates the players' chips and the statistics and every further one changes nothing, emits nothing and calls no other component. The memory of settled hands tells any two tables and hands apart, is checked and marked atomically and is not cleared before the competition ends.",
  ["inputs", "schedules", "histories"], "all sequences and interleavings of settled updates", "Duplicated and concurrent settlement updates of the same hand are never driven by the tests.",
  [I, E], [("settleCompetitionTable", "competition_engine_internal.go"), ("UpdateTable", "competition_engine.go")],
  "dominating-fact analysis on the atomic check-and-mark plus injectivity of its key", observe=OPS)
P("C14", "A knockout is recorded and announced completely",
  "Every knockout, at a settlement or when the buy-in ends, leaves the player with status knockout, knocked out now and without a seat (and not re-buying when the buy-in ended), appends exactly one entry with that player and no chips to the rankings, emits exactly one player event carrying the final record, and announces exactly one final rank for that player: the number of players with chips plus the losers of this round not announced yet. When several players lose at once, those who joined last are recorded first.",
  ["inputs", "histories"], "all settlements and ends of buy-in with any number of losers", WHY_IN,
  [I, G], [("handleTableKnockoutPlayers", "competition_engine_internal.go"), ("stop buy-in knockouts", "competition_engine_internal.go: initBlind")],
  "per-iteration effect and value analysis of the knockout passes", observe=["OnCompetitionPlayerUpdated", "OnCompetitionFinalPlayerRankUpdated", "competition state: players, rankings"])
P("C15", "Exactly the right players are knocked out",
  "A settled hand knocks out exactly the players of that table who have no chips left, are not knocked out already and cannot re-buy (buy-in over or re-buys used up); the end of buy-in knocks out exactly the players without chips who were waiting for a re-buy. Nobody who qualifies is passed over.",
  ["inputs", "histories"], "all settlements and ends of buy-in, all player lists", WHY_IN,
  [K, I], [("GetSortedTableSettlementKnockoutPlayerRankings, GetSortedStopBuyInKnockoutPlayerRankings", "rank.go"), ("handleTableKnockoutPlayers", "competition_engine_internal.go")],
  "list-provenance analysis: the knocked-out list is traced to a full pass whose filter is compared with the predicate", observe=["competition state: players' status after an update", "OnCompetitionPlayerUpdated"])
P("C30", "MTT players reach the regulator once enough have registered",
  "In MTT the table regulator is activated exactly once, by the start or by the buy-in that makes the number of registered players reach the minimum after the start, and never before; activation starts the blind clock, hands over exactly the players waiting (including the one who just bought in), empties the queue and puts the regulator to normal operation. The regulator is created with the configured seats per table and minimum number of players.",
  ["inputs", "histories"], "all starts and buy-ins in MTT", WHY_IN,
  [R, E], [("activateRegulator, shouldActivateRegulator", "regulator.go"), ("CreateCompetition", "competition_engine.go")],
  "path classification of start and buy-in, effect-sequence comparison, configuration of the created regulator", observe=["regulator calls", "competition state"])
P("C16", "A broke player gets a re-buy window exactly when allowed",
  "When a hand settles, exactly those players of the table who have no chips, are not re-buying already, have re-buys left and whose competition has not stopped buy-ins are set waiting for a re-buy from now on; in CT and Cash their window ends at the current time plus the configured waiting time, in MTT they lose their seat at once and there is no deadline. In CT and Cash one timer looks at the end of the window and only then makes those leave the table who still have not re-bought, and no one else.",
  ["inputs", "schedules"], "all settlements, all player lists, re-buy counts and times", WHY_IN + " Windows last seconds to minutes, so the tests never let one run out.",
  [I], [("handleReBuy", "competition_engine_internal.go")],
  "per-iteration predicate and value analysis of the pass over the table's players, deadline and body analysis of the timer", observe=["competition state: players' status, IsReBuying, ReBuyEndAt", "PlayersLeave calls"])
P("C17", "The buy-in ends once, completely, at the configured level",
  "A level change stops the buy-in exactly when it passes the final buy-in level of a competition that has not ended and had not stopped it; then the regulator (MTT) is told once that registration is over and, in CT and Cash, the players knocked out by it who still hold a seat leave their table. In CT and MTT the competition closes with status end, exactly when no table is left or the only table has fewer than two players with chips; otherwise it goes on.",
  ["histories", "schedules", "inputs"], "all level changes in all modes and statuses", "Tests use long levels; no test reaches the end of the buy-in with the interesting player and table configurations.",
  [I], [("initBlind, OnBlindStateUpdated listener", "competition_engine_internal.go")],
  "path classification of the blind listener against the specified stop and close conditions", observe=["competition status", "regulator and table manager calls"])
P("C18", "The derived readings agree with the stored state",
  "For every state, a competition reads as in a break exactly when its current level is a break level (-1), as past the buy-in exactly when the current level lies beyond the final buy-in level, its current blind level and blind data are those of the current index (all zero before the blinds run), the mode tests and player counts count exactly what they name, and the table and player look-ups and index map return an index exactly of an element that satisfies the condition.",
  ["inputs"], "all competition states", "Tests never check the readings on unusual states (unset level, empty lists, last levels).",
  [G], [("Competition and BlindState readings", "competition.go")],
  "symbolic result of every path of every reading compared with a three-valued predicate", observe=["return values of Competition and BlindState methods"])
P("C19", "The player statistics always match the players",
  "Whenever an operation, a table update, a timer or a blind change has changed a player's status or the list of players, the playing, waiting, knocked-out and re-buy-waiting counters are counted again afterwards, and each counter is set to exactly the number of players with its status.",
  ["histories", "inputs"], "all operations, updates and timers", WHY_IN + " Five operations left the counters stale before the fix.",
  [E, I], [("refreshPlayerStatusStatistics", "competition_engine_internal.go")],
  "must-follow analysis on every path of every operation and timer, with the counters recognised as full counts", observe=["competition state: statistic"])
P("C20", "Live ranks are complete, ordered and announced",
  "After a settled hand, the end of the buy-in, an accepted buy-in and an accepted add-on, as long as the competition is open, all players are ranked without gaps or ties: those with chips by chips (more first, earlier joined first), then those waiting for a re-buy (later broke first), then those knocked out (later first), each rank being given to the player it belongs to. The new ranks are announced afterwards.",
  ["inputs", "histories"], "all player lists and rankings", "Tests check no rank at all.",
  [I, G], [("refreshPlayerCompetitionRanks", "competition_engine_internal.go")],
  "list-provenance, comparator and counter analysis of the ranking passes; must-follow analysis of the triggers", observe=["OnCompetitionStateUpdated (PlayerRankUpdated)", "competition state: CompetitionRank"])
P("C24", "A blind change reaches the competition and all its tables",
  "When the blind clock moves, the competition's current level index becomes that of the clock and, unless it has ended, every table's blind is updated exactly once with the values of that level: level, ante, small and big blind and the dealer's blind derived from the ante; a level without blinds reads as all zero. When the blinds are activated the end times and the final buy-in level index are taken over from the clock.",
  ["inputs", "histories"], "all blind states, levels and numbers of tables", WHY_IN,
  [I, G], [("initBlind listener, updateTableBlind, activateBlind", "competition_engine_internal.go")],
  "value and effect-count analysis of the blind listener and activation", observe=["UpdateBlind calls", "competition state: blind state"])
P("C21", "The final ranking is complete, correct and announced once",
  "When a competition in delayed or stopped buy-in closes, its final ranking lists the players still having chips, most chips first (among equal chips the one who joined first), followed by the knocked out in reverse order of their knockouts, each exactly once. The final rank of each listed player is the position in that list, and the rank of every player still having chips is announced exactly once.",
  ["inputs", "histories"], "all closes with any number of players with chips and of knocked-out players", WHY_IN,
  [I, G], [("updatePlayerFinalRankings", "competition_engine_internal.go")],
  "symbolic execution of the ranking passes with the list value tracked as ordered segments (selection, order, direction, reversal)", observe=["OnCompetitionFinalPlayerRankUpdated", "competition state: rankings"])
P("C34", "The manager routes every call to its competition",
  "Every manager operation that names a competition returns ErrManagerCompetitionNotFound without any effect if that competition is not registered, and otherwise makes exactly one call: the same operation of that competition's engine, with the same arguments, returning its result unchanged.",
  ["inputs", "histories"], "all manager operations, all registered competitions, all results", "The tests route a few operations for one or two competitions and never an error.",
  [M], [("manager operations", "manager.go")],
  "path classification of every interface method by the look-up result; comparison of receiver, arguments and results", observe=["Manager operations (return value)", "CompetitionEngine calls"])
P("C35", "The native backend forwards faithfully and shares no data",
  "Every table operation of the native backend makes exactly one call of the same operation of its table manager, with the same arguments, and returns its result unchanged. Table, reservation and ready notifications reach the registered listener exactly once, with the values of the notification as a deep copy that shares nothing with the table manager's own data; nothing is delivered if the copy fails.",
  ["inputs"], "all operations and notifications", "The tests use one backend on the happy path and never look for shared data.",
  [N], [("nativeTableManagerBackend operations", "native_table_manager_backend.go"), ("CreateTable callbacks", "native_table_manager_backend.go")],
  "path classification of every interface method plus symbolic execution of the callbacks handed out; copy provenance", observe=["pokertable.Manager calls", "OnTableUpdated, OnTablePlayerReserved, OnReadyOpenFirstTableGame"])
P("C46", "The manager knows exactly the open competitions it created",
  "A successfully created competition is registered under its own id and wired to the listeners of its options, the manager's backend and the manager's table options; a failed creation registers nothing. Closing closes the competition with the requested status and forgets exactly it, unless closing failed; releasing forgets exactly it; resetting force-ends every registered competition and forgets all of them. A look-up returns what was registered, or ErrManagerCompetitionNotFound.",
  ["inputs", "histories"], "all sequences of manager operations", "The tests create one competition per manager and check neither failure nor reset.",
  [M, E], [("CreateCompetition, CloseCompetition, ReleaseCompetition, Reset", "manager.go")],
  "path-wise registry-effect and wiring analysis", observe=["Manager operations", "CompetitionEngine calls"])
P("C47", "A competition closes once, completely and in order",
  "Closing an ended competition has no effect. Closing an open one sets the requested status exactly once, sets the end time to now in MTT and leaves it alone in CT and Cash, stops the blind clock once, announces the settlement once and only after the status is set, and then releases every table of the competition exactly once.",
  ["inputs", "histories"], "all closes in all states and modes with any number of tables", WHY_IN,
  [I, E], [("CloseCompetition, ReleaseTables", "competition_engine.go"), ("settleCompetition", "competition_engine_internal.go")],
  "path-wise effect-sequence analysis", observe=OPS + ["OnCompetitionStateUpdated (Settled)", "ReleaseTable calls"])
P("C48", "A settled hand ends the competition exactly when it is over",
  "After a settled hand one close is scheduled 3 seconds later exactly when the competition is over: in Cash when the time since the table's start exceeds the maximum duration; in CT also when the buy-in has ended and fewer players with chips than the table minimum are left in the hand; in MTT when the advancement has just completed or, without one, when the buy-in has ended and a single player with chips is left at the only table. That task ends the competition regularly unless it was cancelled, and no hand closes the competition at once.",
  ["inputs", "schedules", "histories"], "all settled hands in all modes, statuses, levels and table counts", WHY_IN + " Durations last hours and the interesting combinations of buy-in, tables and players never occur.",
  [I], [("settleCompetitionTable, shouldCloseCTCompetition, shouldCloseCashCompetition, handleMTTTableSettlement", "competition_engine_internal.go")],
  "path classification of the settlement against a three-valued ending condition; analysis of the delayed task", observe=["competition status", "OnCompetitionStateUpdated (Settled)"])
P("C22", "A closed table is removed, and the last one ends the competition",
  "When a table update reports a table closed, exactly that table is removed from the competition's tables, and the change is announced once, after the removal. Outside MTT-specific handling the other tables are not touched and no operation of the table manager is called. The competition ends (with status end) exactly when no table is left, and stays open otherwise.",
  ["inputs", "histories"], "all closed-table updates, any number of tables, all modes", WHY_IN,
  [E, I], [("handleCompetitionTableClosed", "competition_engine_internal.go"), ("UpdateTable", "competition_engine.go")],
  "path-wise value analysis of the table list and of the closing call", observe=["Competition state: tables, status", "OnCompetitionStateUpdated (TableUpdated)"])
P("C23", "The blind clock runs the configured levels on time",
  "Starting the blinds sets, for the levels from the initial one on, end times that add up the levels' durations from the start time, up to the first level of unlimited duration, and sets one timer per timed level at its end that moves the clock to the next level and announces it; the clock is refused without a state, with an unknown initial level, or once started. Stopping it stops the level changes; reading an unconfigured clock is harmless.",
  ["inputs", "schedules"], "all configured level lists, start times and initial levels; all timers", "The levels last minutes to hours: no test waits for a chain of timers or starts at another initial level.",
  [B, BS], [("Start, startBlind, activate", "blind/blind.go"), ("CurrentBlindLevel", "blind/state.go")],
  "loop-summary analysis of the pass over the levels; symbolic execution of every timer body", observe=["Blind operations (return value, state)", "OnBlindStateUpdated"])
P("C25", "After a break every table plays on",
  "When a hand is settled, a level changes or a table is created while the competition is in a break, each such table gets at most one timer per break level, at that level's end plus at most a minute. When the timer fires and the competition has not ended, the level is no break, and the table is there and pausing with enough players having chips, play goes on: the next hand is set up with exactly the ready players, or the table's first game is started; otherwise nothing is opened. Failures are reported.",
  ["schedules", "histories"], "all tables, breaks (also consecutive ones) and orders of hands, level changes and timers", "Breaks last minutes and the tests have none after which a table must go on.",
  [I, E], [("handleBreaking", "competition_engine_internal.go"), ("initBlind listener", "competition_engine_internal.go")],
  "analysis of every timer: deadline, key, guard against doubles, and path-wise comparison of its body with the resume condition", observe=["SetUpTableGame / StartTableGame calls", "OnCompetitionErrorUpdated"])
P("C26", "A paused table is opened again exactly when it may",
  "When a table update reports a table pausing, its next hand is set up exactly when enough of its players are in and have chips, the competition is not in a break and, in CT, only while it is in delayed buy-in; the hand is set up once, for that table, with exactly the ready players and their positions. A failure to set it up is examined and reported.",
  ["inputs", "histories"], "all paused-table updates, all modes and player lists", WHY_IN,
  [E, I], [("handleCompetitionTablePausing logic", "competition_engine.go: UpdateTable"), ("shouldReopen", "competition_engine_internal.go")],
  "three-valued comparison of the reopening condition on every path; the players set up traced to a full pass over the table", observe=["SetUpTableGame calls"])
P("C32", "A table update replaces exactly the named table",
  "An update for a known table of a competition that has not ended replaces exactly that table's data with a private deep copy of what was reported, before anything else reads it. An update for an unknown table, a failed copy or an ended competition has no effect, and an update in a phase of the table other than paused, closed or settled has no further effect.",
  ["inputs", "histories"], "all table updates in all states", WHY_IN + " Sharing shows only when the reporter changes its data later.",
  [E], [("UpdateTable", "competition_engine.go"), ("cloneTable", "competition_engine_internal.go")],
  "path-wise effect analysis with copy provenance", observe=["Competition state: tables"])
P("C45", "A created competition is what was configured",
  "Creating a competition is refused with ErrCompetitionInvalidCreateSetting, and without effect, exactly when its start or disable time has passed or a listed table has more players than seats. Otherwise the competition has exactly the setting's id, meta data and times, the status registering and no players, and a blind clock with exactly the setting's levels. CT and Cash create one table per listed setting, as listed and without blinds yet, and stop at the first failure, which is returned.",
  ["inputs", "configurations", "fault_sequences"], "all settings, table manager failures", "The tests create a few well-formed competitions and check hardly any field.",
  [E, "competition_settings.go"], [("CreateCompetition", "competition_engine.go"), ("initBlind", "competition_engine_internal.go")],
  "path classification by refusal; symbolic comparison of every created field with the setting", observe=["CreateCompetition (return value, state)", "CreateTable calls"])
P("C50", "First hands, reserved seats and the end of automatic hands",
  "Readiness for a first game sets up exactly the named hand of exactly that table with exactly those of the given players who are in and have chips, once, and returns the result. A seat reservation of a known player gives exactly that player that table and seat and the status playing and is announced once afterwards; for an unknown player nothing changes. When a table stops opening hands by itself, the competition is ended exactly if it is a CT whose buy-in has stopped, and ErrCompetitionTableNotFound is returned for an unknown table only.",
  ["inputs", "histories"], "all notifications and queries in all states", WHY_IN,
  [E], [("ReadyFirstTableGame, UpdateReserveTablePlayerState, AutoGameOpenEnd", "competition_engine.go")],
  "path-wise effect, argument and result comparison", observe=OPS)

P("C27", "Tables the regulator asks for get exactly its players",
  "When the regulator requests a table for some players, one table is created for exactly the registered ones, each with that player's own chips and any seat, with the current blinds and a new id; it is added to the competition's tables, announced once, and its id returned. When the regulator assigns players to a table, exactly they are seated there by one call, with their own chips, and nobody leaves. A player without chips (when assigning: or unknown) or a failure of the table manager is answered with an error and changes nothing.",
  ["inputs", "fault_sequences"], "all requests of the regulator in all states, table manager failing or not", WHY_IN + " The tests use the real regulator, which asks for a few shapes only.",
  [R, I], [("regulatorCreateAndDistributePlayers, regulatorDistributePlayers", "regulator.go")],
  "path-wise effect and argument comparison of the callbacks; join lists read back as selections", observe=["CreateTable / UpdateTablePlayers calls", "Competition state: tables"])
P("C28", "A settled MTT table is balanced exactly as the regulator says",
  "When a settled MTT table goes on, the regulator is told once how many of its players have no chips left. One call then removes from that table those players and the first players next in line, as many as the regulator wants moved (or all in line), and seats the registered players with chips it assigned, each with their own chips. Nothing moves if the regulator fails, no call is made only if nobody has to move, and the table is closed exactly when nobody is left at it.",
  ["inputs", "histories", "fault_sequences"], "all settled hands of MTT tables with at least one player, all answers of the regulator and the table manager", WHY_IN + " The regulator's answers depend on many tables and are never enumerated.",
  [I], [("handleMTTTableSettlement, handleMTTTableSettlementNextStep", "competition_engine_internal.go")],
  "path-wise comparison of the calls; lists moved read back as ordered segments and selections from the hand, the line and the regulator's answer", observe=["UpdateTablePlayers / CloseTable calls", "Regulator calls"])
P("C29", "Players moved between tables are recorded where they are",
  "When the table manager has moved the players of a settled MTT table, every player who left for another table has no table and seat, waits for table balancing and is announced once, and the regulator is told exactly who left, once. Every assigned player the table seated plays there, at the seat the table gave, and is announced once afterwards. No other player's table, seat or status changes, and if the table manager fails nothing changes and the failure is reported.",
  ["inputs", "fault_sequences"], "all settled hands of MTT tables with at least one player, all answers of the regulator and the table manager", WHY_IN,
  [I], [("handleMTTTableSettlementNextStep", "competition_engine_internal.go")],
  "coverage analysis of the passes over the players moved; value comparison of each record", observe=["Competition state: players", "OnCompetitionPlayerUpdated", "ReleasePlayers calls"])
P("C31", "The advancement stops tables and ends exactly by its rule",
  "When an MTT's buy-in ends, its advancement starts exactly if a rule is set and it has not started, with the current number of tables and, under the player-count rule, the count answered to one request naming the total number of buy-ins. While it runs, a table whose hand is settled is stopped exactly when the level has reached the set one, or fewer players with chips than the set count are left, and is counted and listed once if the stop succeeded; otherwise it is rebalanced. The advancement ends exactly when all tables are stopped.",
  ["inputs", "histories"], "all ends of buy-in and all settled hands, both rules, all counts", WHY_IN + " Advancing takes many tables and hours.",
  [I], [("initAdvancement, handleMTTTableSettlement", "competition_engine_internal.go")],
  "path classification against the three-valued advancement condition; value comparison of its counters", observe=["Competition state: advance_state", "PauseTable calls", "OnAdvancePlayerCountUpdated"])
P("C41", "Cashing out removes exactly the leavers, paid once each",
  "A cash-out is accepted only in Cash and for a registered player, who is then leaving with chips untouched; otherwise it returns ErrCompetitionLeaveRejected without effect. The player leaves at once exactly while registering or while the first table pauses in delayed buy-in, and otherwise together with all other leaving players when the table's next hand is settled. Leaving means: one call makes exactly these players leave the table, each is reported as cashed out once and removed, nobody else is, and the cash-out is announced once afterwards.",
  ["inputs", "histories", "fault_sequences"], "all cash-outs and settled Cash hands, table manager failing or not", WHY_IN,
  [E, I], [("PlayerCashOut", "competition_engine.go"), ("handleCashOut logic", "competition_engine_internal.go")],
  "gate analysis, path-wise value comparison and coverage analysis of the passes over the leavers", observe=["CompetitionEngine operations", "OnCompetitionPlayerCashOut", "PlayersLeave calls"])
P("C42", "Quitting a CT gives up the seat, and nothing else",
  "PlayerQuit has an effect only in CT, for a registered player and a known table, while the buy-in has not stopped, and otherwise returns ErrCompetitionQuitRejected. The player leaves that table by one call; if the table refuses, its error is returned and nothing changes. Otherwise the player waits for a re-buy, not re-buying and without a seat, keeps all chips and counts, and is announced once; no other player changes.",
  ["inputs", "histories", "fault_sequences"], "all quits in all states, table accepting or refusing", WHY_IN,
  [E], [("PlayerQuit", "competition_engine.go")],
  "gate analysis and path-wise value comparison", observe=OPS)

P("C33", "Reports of the competition are numbered without gaps",
  "Every report of the competition to its listener carries a serial number exactly one above the last one, starting with 1 after creation, and the time of the report. No number is given out without a report, nothing else changes the number, and it is the competition of the operation that is reported.",
  ["inputs", "histories"], "all operations, listeners and timers, each run to completion, in all states", WHY_IN + " A consumer relies on the numbers to order and to miss nothing; the tests never look at them.",
  [E, I, "event.go"], [("emitEvent", "event.go"), ("UpdateSerial, UpdateAt", "competition.go")],
  "effect analysis over all paths of every entry point: pairing of the store to the number with the report that follows", observe=["OnCompetitionUpdated (update_serial, update_at)"])
P("C36", "A player is only ever shown a masked copy of a table",
  "A subscribed player is shown every table update exactly once, before anything is done for the player; an unsubscribed one never. What is shown is a full separate copy of the reported table that shares no memory with it, and if there is a hand, in any phase of the table, it is masked as that very player may see it. This holds for all tables that can be encoded.",
  ["inputs", "histories"], "all table updates in all phases of the table, all players", "The tests log what a player sees, and check none of it.",
  ["actor/player_runner.go"], [("UpdateTableState", "actor/player_runner.go")],
  "path-wise effect analysis with copy provenance: the masking call that dominates every showing", observe=["OnTableStateUpdated of a player runner"])
P("C37", "Actions taken for a player are due, in time and counted",
  "For each new update of a played hand in which a player is asked to act, exactly one thing happens, and otherwise nothing: pass, pay the due ante or blind, get ready/check/fold at once if suspended, or the same after the table's action time unless the player acted. A missed turn makes the player idle and counts; consecutive ones reaching the threshold suspend the player, which is reported once. Suspending and resuming by hand take effect, are reported, and resuming resets the count.",
  ["inputs", "schedules", "histories"], "all updates of a table with a hand, player states and timer outcomes", "The action time is seconds and the tests' players always act; no test reaches an idle player.",
  ["actor/player_runner.go"], [("UpdateTableState, requestMove, automate", "actor/player_runner.go")],
  "path-wise comparison of every automatic action with its three-valued condition, also in the timer's body", observe=["Actions calls", "OnAutoModeUpdated"])
P("C44", "A player's action reaches the table once, as it was made",
  "Every action of a player is taken at the player's table exactly once, under its own name, for that player and with the same amount, and the table's answer is returned. An accepted action ends the player's waiting time, and a wager is reported exactly once with its name and chips (before the action: a call what is missing, an all-in the stack). A refused action is not reported and ends nothing.",
  ["inputs", "fault_sequences"], "all actions, amounts and answers of the table, through all layers", "The tests have bots play at random and check no pair of action and report.",
  ["actor/player_runner.go", "actor/actions.go", "actor/table_engine_adapter.go"], [("Pass … Pay", "actor/player_runner.go"), ("actions", "actor/actions.go"), ("tableEngineAdapter", "actor/table_engine_adapter.go")],
  "path-wise comparison of call, argument and result terms in each layer for each action of the interface", observe=["Table engine calls", "OnTableGameWagerActionUpdated"])
P("C49", "A bot acts only when asked, as allowed, and tells it once",
  "A bot does something exactly for a new update of a played hand in which it is asked: it gets ready, passes, pays the due ante or blind, or makes one wager it is allowed to make, whose amount lies between the minimum bet or raise and its stack; a humanized one thinks a random part of the action time first and does nothing if that is cancelled. An accepted wager is reported exactly once with its name and chips, any other never, and the table's answer is returned. A bot that waits at a table asks to join it.",
  ["inputs", "schedules"], "all table updates, random choices and timer outcomes", "The tests' random games rarely reach the edge amounts, and check no report.",
  ["actor/bot_runner.go"], [("UpdateTableState, requestMove, requestAI", "actor/bot_runner.go")],
  "path-wise comparison of every action with its three-valued condition; interval reading of the random amounts", observe=["Actions calls", "OnTableGameWagerActionUpdated", "OnTableAutoJoinActionRequested"])
P("C43", "The statistics of every hand are counted exactly",
  "For every hand settled for the first time, each participant known to the competition counts one more hand, one more of every chance and action the table reports for that player, and one more fold in the round of the fold; each winner known to the competition counts one more win, a walk when it won as an untouched big blind after everybody else folded before the flop, and keeps the largest pot and the strongest hand won so far. A hand reported again, other players, and every other operation leave the statistics as they are, and a new player's start at zero.",
  ["inputs", "histories"], "all settled hands with all statistics and results, all player lists", "The tests check no statistic, and a hand that sets each of the thirty counters, alone and with unknown players at the table, is not in reach of a sample.",
  [I], [("updatePlayerCompetitionTableRecords", "competition_engine_internal.go"), ("newDefaultCompetitionPlayerData", "competition_engine_internal.go")],
  "per-iteration value analysis of the passes over the table's players and the winners, one counter at a time, and a who-writes analysis of all other operations", observe=["competition state: players' Total… and BestWinning… values"])
P("C51", "Chips and table ranks follow every settled hand",
  "After a hand settled, every player of that table known to the competition holds the chips the table says and, if in the hand, ranks by these chips and then by who joined first, 1 for the best; players of the table not in the hand have no rank. Each of them gets exactly one player event carrying the new values.",
  ["inputs", "histories"], "all settled hands, all table and player lists", "The tests settle hands of a few fixed tables; ties, players not in the hand and players unknown to the competition are not among them.",
  [I, K], [("GetParticipatedPlayerTableRankingData", "rank.go"), ("updatePlayerCompetitionTableRecords", "competition_engine_internal.go")],
  "list provenance and comparator analysis of the ranking, value analysis of the pass that applies it", observe=["competition state: players' chips, rank and table rank", "OnCompetitionPlayerUpdated"])
P("C40", "No failure of another component is lost",
  "Whenever the table manager, the MTT regulator, the blind clock or the setting of a timer fails during an operation, a notification or a timer, that failure is returned by the operation or reported to the error listener, on every path; only releasing the tables of an ended competition is best effort. What is reported is always a failure, of that competition.",
  ["fault_sequences"], "all calls of other components, each failing or not, in all operations, listeners and timers", "The tests' components never fail.",
  [E, I, R, B, N], [("emitErrorEvent", "event.go"), ("calls of tableManagerBackend, regulator, blind and timebank", "competition_engine.go, competition_engine_internal.go, regulator.go, blind/blind.go")],
  "interprocedural typestate analysis of error values over the SSA form, to return or listener; symbolic check of the values reported", observe=["Operations (error result)", "OnCompetitionErrorUpdated"])
P("C38", "Locks are given back and never waited for by their holder",
  "On every path of every operation, notification, timer and actor method, a lock that is taken is given back, none is taken twice or released by someone who does not hold it, and nothing is waited for while one is held. No notification of a table, regulator or blind clock takes a lock that an operation holds while it calls the table manager, the regulator or the blind clock, so a component that notifies from within a call cannot block the competition.",
  ["schedules", "histories", "fault_sequences"], "all paths of all operations, notifications, timers, manager and actor methods", "A deadlock needs a component that calls back at the wrong moment or one rare path that keeps a lock; the tests' hands rarely do either.",
  [E, I, M, "actor/actor.go"], [("mu of the engine", "competition_engine.go"), ("mutex of the actor", "actor/actor.go")],
  "lockset analysis along all paths; lock-order comparison between operations and notifications", observe=["All operations return"])
P("C39", "Buy-in, add-on, refund, quit and cash-out are one step each",
  "However many callers run them at once, everything these operations change, announce and ask of other components happens within one exclusive section shared by all of them. What they check and apply follows from the state found in that section, not from anything read before it.",
  ["schedules", "histories"], "all interleavings of calls of the five operations, all states found", "The tests call these one after the other, and two simultaneous ones almost never meet.",
  [E], [("PlayerBuyIn, PlayerAddon, PlayerRefund, PlayerQuit, PlayerCashOut", "competition_engine.go")],
  "lockset analysis of every effect; the operations' rules decided again with all earlier reads forgotten at the lock", observe=OPS)
P("C52", "The settings a competition was created with stay as they are",
  "After a competition is created, no operation, notification or timer changes its id, its opening and disabling times or any of its settings: mode, rule, durations, seats, blind levels, re-buy, add-on, action time and advancement. The one exception is the number of players to advance of an MTT, which becomes the operator's answer when the buy-in ends and before the advancement starts.",
  ["inputs", "histories"], "all paths of all operations, notifications and timers after creation", "The tests compare no setting after creation, and a setting overwritten by one rare operation shows only in later decisions.",
  [E, I, R], [("Meta", "competition.go"), ("initAdvancement", "competition_engine_internal.go")],
  "who-writes analysis of every store to a setting, through aliases, over all entry points; value comparison at the one exception", observe=["Competition returned by GetCompetition and OnCompetitionUpdated"])
P("C53", "Money and counts change only for a buy-in, add-on, refund or hand",
  "A player's chips change only by that player's own buy-in or add-on and by the settled hands of the table; redeemed chips, re-buys and add-ons only by that player's own buy-in or add-on. The competition's bought-in units and count change only by buy-ins and refunds, its add-on count only by add-ons, and the time a player joined never.",
  ["inputs", "histories"], "all paths of all operations, notifications and timers", "A sum wrong after a rare operation - a quit, a knock-out, a break - is noticed by no test, and there are too many operations and states to sample.",
  [E, I, R], [("Players[].Chips and TotalRedeemChips", "competition.go"), ("Statistic", "competition.go")],
  "who-writes (frame) analysis of every store to these values, through aliases, with the player it is for", observe=["competition state: players and statistic"])
P("C54", "Every player has exactly one record, until leaving for good",
  "A player is recorded by the first buy-in, and then never recorded a second time, replaced or renamed, by any operation, notification or timer. A record is removed only by the player's refund or cash-out or, in Cash, when the player has left with a settled hand or an expired re-buy, and no other player's record is removed with it.",
  ["inputs", "histories"], "all paths of all operations, notifications and timers, all player lists", "Tests look at their own few players; a record lost or doubled by a rare operation shows only in the later sums and ranks.",
  [E, I], [("PlayerBuyIn", "competition_engine.go"), ("deletePlayer", "competition_engine_internal.go")],
  "who-writes analysis of the list of players with list provenance (append, removal) on every path", observe=["competition state: players"])
P("C55", "What was accepted, and every settled hand, is announced in its final state",
  "When a creation, start, buy-in, add-on, refund or table reservation has been accepted, the competition is announced in its final state, the player it concerns exactly once, and the start or the new statistics by exactly one event. A settled hand is announced by exactly one event, after all its consequences, and never a second time.",
  ["inputs", "histories"], "all accepted paths of these operations, all hand notifications", "Tests wait for an update, not for the last one: an announcement that comes before the last change, twice or not at all leaves every listener with a stale view.",
  [E, I], [("operations", "competition_engine.go"), ("handleCompetitionTableSettled", "competition_engine_internal.go")],
  "path analysis counting announcements against the last change of observed state, aliases included", observe=["competition updates", "player updates", "state events"])
