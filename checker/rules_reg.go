package main

func init() {
	reg("C01", "every state change or call to another component reachable in PlayerBuyIn is checked for the dominating gate facts (positive chips, open registration); every refusing path for its documented reason", ruleC01)
	reg("C02", "every effect of PlayerBuyIn on a returning player is checked for the re-buy gate facts; every refusing path for its documented reason", ruleC02)
	reg("C03", "every effect of a CT buy-in is checked for the capacity comparison; every capacity refusal for the opposite comparison", ruleC03)
	reg("C04", "the symbolic value of every bookkeeping field on every accepting path of PlayerBuyIn is compared with its specified term", ruleC04)
	reg("C05", "every accepting path of PlayerBuyIn is checked for exactly one hand-over to the table, the regulator or the waiting queue, with the specified arguments", ruleC05)
	reg("C06", "every effect of PlayerAddon is checked for the add-on gate facts; every refusing path for its documented reason", ruleC06)
	reg("C07", "the symbolic value of every bookkeeping field on every accepting path of PlayerAddon, and the forwarded call, are compared with their specified terms", ruleC07)
	reg("C08", "every effect of PlayerRefund is checked for its gate facts; list removal, totals, queue removal and table leave on every accepting path are compared with their specification", ruleC08)
	reg("C09", "no state change or call to another component occurs on a path of an operation that returns one of its own refusal errors", ruleC09)
	reg("C10", "with the status assumed ended at the start, no core effect site is reachable in any operation, timer or listener", ruleC10)
	reg("C11", "every effect of StartCompetition is checked for the never-started, not-ended gate; start and end times, the returned time and the end timer (deadline and body) are compared with their specification; no code lowers the started flag", ruleC11)
	reg("C12", "every path of a table-created update is classified by status, number of ready players (a recognised full count) and start time, and its start sequence compared with the specified one; the bodies and deadlines of the start and disable timers likewise", ruleC12)
	reg("C30", "every path of StartCompetition and PlayerBuyIn is classified by mode, started flag, running flag and the final number of players against the minimum; the activation sequence (blind start, list handed over, queue, status) and the configuration of a created regulator are compared with their specification", ruleC30)
	reg("C13", "every effect of a table-settled update is checked for the dominating fact that the atomic record (keyed injectively by table and hand) did not contain the hand; every path that records a hand settles it; the record is only reset after the end status is stored", ruleC13)
	reg("C14", "every pass that knocks players out (settlement and end of buy-in) is checked per iteration for the record's final values, one ranking entry, one player event after the record is final and one rank announcement whose value is a recognised count; the order of several losers is the one the comparator of their list really sorts by", ruleC14)
	reg("C16", "every kind of iteration of the pass over the settled table's players is compared with the re-buy predicate and, where a window is opened, with the specified values; the timer's deadline and the conditions under which its body makes players leave are compared with the specified ones", ruleC16)
	reg("C17", "every path of the blind listener is classified by mode, status, level index and remaining players, and its status changes, regulator call, table leaves and closing are compared with the specified ones", ruleC17)
	reg("C20", "every refresh of the ranks (at the place it is announced) is checked for its passes: the lists' selection predicates, their sort order, the running number and the record written; every triggering path is checked for the refresh", ruleC20)
	reg("C19", "every status or player-list change on every path of every operation, timer and listener is followed by a store of each counter whose value is a recognised full count of that status", ruleC19)
	reg("C18", "the result of every path of every exported reading of a competition is compared with a three-valued predicate over the stored state", ruleC18)
	reg("C24", "every path of the blind listener and of the blind activation is checked for the stored indexes and end times, the announcements and one blind update per table with the level's values", ruleC24)
	reg("C15", "the list a knockout pass runs over is followed back through its selections to the table's or the competition's players; every kind of iteration is compared with the eligibility predicate, and no member may be skipped", ruleC15)
	reg("C34", "every path of every manager operation is classified by whether its competition is registered: the single call it makes, its receiver, arguments and results are compared with the operation", ruleC34)
	reg("C46", "every path of the manager's create, close, release and reset is checked for its changes of the registry and for what the created engine is given", ruleC46)
	reg("C35", "every path of every operation of the native backend, and of the functions it hands to the table manager, is checked for one call with the same arguments and results, or one separate copy to the right listener", ruleC35)
	reg("C21", "the ranking list is followed through every path of a close as ordered segments (selection, sort order, pass direction, additions, reversal); the ranks announced and given are compared with positions", ruleC21)
	reg("C47", "every path of a close is checked for the status, end time, blind stop, announcement and one release per table, in order; paths on an ended competition for the absence of effects", ruleC47)
	reg("C48", "every path of a settled hand, per mode, is compared with the three-valued ending condition of the mode; the delayed closing task is analysed for its effect", ruleC48)
	reg("C23", "every path of starting the blind clock, of its pass over the levels, of its timers and of its other operations is compared with the clock of the configured levels", ruleC23)
	reg("C25", "every timer for a break is analysed for its deadline, its guard against doubles and, on every path of its body, the resume condition, the hand and the players", ruleC25)
	reg("C22", "every path of a closed-table update is compared with the removal of exactly that table, the announcement and the three-valued ending condition", ruleC22)
	reg("C32", "every path of a table update is checked for one replacement of the named table by a private copy; paths of other updates for the absence of effects", ruleC32)
	reg("C50", "every path of the first-game, reserved-seat and end-of-automatic-hands notifications is compared with the call, fields, event and result required", ruleC50)
	reg("C26", "every path of a table-paused update, per mode, is compared with the three-valued reopening condition; the players set up are traced to a full pass over the table", ruleC26)
	reg("C45", "every path of the creation is compared with the documented refusals; the created state, blind clock options and table settings are compared field by field with the setting", ruleC45)
	reg("C42", "every path of quitting is compared with the documented refusals, the one call that makes the player leave, the fields of the record and the announcement", ruleC42)
	reg("C41", "every path of cashing out and every pass over the leavers of a settled Cash hand is compared with the refusals, payments, removals and calls required", ruleC41)
	reg("C31", "every path of a settled MTT hand and of the blind listener is compared with the three-valued condition of the advancement and its counters", ruleC31)
	reg("C27", "every path of the callbacks given to the regulator is checked for the one table call, the players selected, their chips and seats, and the result", ruleC27)
	reg("C28", "every path of a settled MTT hand up to the statistics is checked: the count told to the regulator, and the lists of players moved, read back as selections from the regulator's answer and the table's players", ruleC28)
	reg("C33", "every report of the competition, on every path of every operation, timer and listener, is checked for one increment of the serial number and the time since the last report; all other stores to the number are violations", ruleC33)
	reg("C29", "every pass over the players moved, on every path of a settled MTT hand, is checked for its coverage, the record written and the announcement", ruleC29)
	reg("C36", "every path of a player runner's update is checked for the one view handed out: a full separate copy, masked for the runner's own seat whenever it holds a hand", ruleC36)
	reg("C37", "every automatic action, on every path of a player runner's update and of its action timer, is checked against the documented conditions, order, amounts and idle accounting", ruleC37)
	reg("C44", "every path of every action, through the runner, the actions and the adapter, is checked for one call with the same values, its result, the report and the end of the waiting", ruleC44)
	reg("C49", "every action of a bot, on every path of its update and of its thinking timer, is checked for being asked for and allowed, for its amounts, and for its one report", ruleC49)
	reg("C40", "the error of every call to the table manager, the regulator or a timer is followed along all paths, through callees, callers and captured variables, to a return of the operation or the error listener; every report is checked to carry a failure", ruleC40)
	reg("C38", "the locks held are followed along every path of every operation, listener, timer and actor method: balance, double taking, taking in a notification what is held while calling out, and waiting", ruleC38)
	reg("C43", "for every counter, every first settlement of a hand is shown to pass once over all participants and to add exactly what the table reports for the same player; the pass over the winners is compared with its documented gains; no other operation stores to the counters and every new player record starts at zero", ruleC43)
	reg("C51", "the map of rank data is traced to a full pass over the players in the hand, in the order its comparator really sorts by, and one over everybody else; the pass that applies it is checked per iteration for chips, rank, player and one event after the stores", ruleC51)
	reg("C52", "every store to a setting, on every path of every operation, timer and listener, is a violation, except the advancement's number of players, which must be the operator's answer at the end of an MTT's buy-in", ruleC52)
	reg("C53", "every store to a player's money, units and counts, and to the competition's totals, is checked for the operation it happens in, the player it is for and, for tables, the settled hand", ruleC53)
	reg("C54", "every store to the list of players is classified as one addition of an unknown player or a removal; stores to its elements and to a record's id are violations", ruleC54)
	reg("C55", "on every accepted path of the operations the competition update, player update and named event are counted and compared with the last change made; for settled hands the delayed announcement and its body", ruleC55)
	reg("C39", "every effect of the five player operations is checked for the one lock held, and the rules of these operations are decided again with nothing known of the state from before the lock", ruleC39)
}
