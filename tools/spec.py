"""The properties, and how each is decided. gen.py writes properties.jsonl and MANIFEST.json from here."""
PROPS = []
NA = {}

def prop(id, title, statement, over, quant, why, files, mech, tech, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note))

B = 'x/bank/internal/keeper/'

prop('M01', 'Total supply always equals the sum of balances',
 'Whatever sequence of transactions, scheduled tasks and blocks is executed, the recorded total supply of every denomination changes by exactly as much as all account balances together change: transfers leave it alone, burning and minting change both by the amount burnt or minted. Nothing outside the bank writes balances or the supply, and no transaction, block or scheduled task can reach the minting of coins.',
 ['inputs', 'histories'], 'every execution path of every operation that writes balances or the supply, and every caller of such operations',
 'Tests compare a handful of balances after fixed scenarios; an imbalance on one error branch or one rarely used operation goes unnoticed.',
 [B+'keeper.go', B+'send.go', 'x/delegating/keeper/keeper.go'],
 [('coin ledger operations', B+'send.go'), ('mint and burn', B+'keeper.go')],
 'path-sensitive interprocedural dataflow over SSA with a symbolic balance ledger; who-may-write and call-graph reachability')
prop('M02', 'No account can spend more than it has',
 'Coins are taken from an account only if it holds at least that amount of every denomination; otherwise the operation fails and neither balance changes. A balance with a negative or malformed amount is never stored.',
 ['inputs', 'histories'], 'every amount, balance and path of the operations that take coins or store a balance',
 'Tests overspend once or twice through one operation; all paths that store a balance matter.',
 [B+'send.go'], [('checked subtraction', B+'send.go'), ('balance validation', B+'send.go')],
 'path-sensitive dataflow: guard obligations under hypothesis; who-may-call confinement')
prop('M03', 'Observers hear of every balance change',
 'Every stored change of an account balance is reported to the registered observers before the operation that made it succeeds, a failure of an observer or of the balance write fails that operation, and the running application registers the referral network totals as an observer.',
 ['inputs', 'histories'], 'every path of every operation that stores a balance',
 'Tests see the totals agree after a few transfers; a path which skips the notification leaves them off by an amount nobody compares.',
 [B+'send.go', 'app/app.go'], [('hooks on balance change', B+'send.go'), ('hook registration', 'app/app.go')],
 'path-sensitive dataflow: must-event on every success path; error propagation; registration lookup in the application constructor')
prop('M04', 'Transfers move exactly the amount, and only when allowed',
 'A successful transfer takes the amount and the fee from the sender, gives exactly the amount to the recipient and the fee to the fee collector, and changes no other balance; burning takes exactly the amount from the account and the supply. A transfer is refused, with nothing moved, when the recipient has no account or may not receive, the sender is blocked, a coin is not of the main denomination, the amount is below the minimum, or an address is malformed. Minting and burning report success only when done.',
 ['inputs'], 'every transfer and burn message, every parameter setting and every state of the accounts',
 'Tests send a few fixed amounts between a few accounts; each refusal has to hold on every path.',
 [B+'msg_server.go', B+'keeper.go', B+'send.go'], [('transfer message handler', B+'msg_server.go')],
 'path-sensitive dataflow with a symbolic balance ledger; guard-unreachability under hypothesis')
prop('M05', 'Transaction fees are charged, collected and distributed in full',
 'Whenever a fee is due the payer loses, and the fee collector receives, exactly the fee calculated from the current fee parameters (the rate times the amount without what is after the point, at most the maximum if there is one, rounded down to what the shares divide into whole coins), before the paid operation moves coins, and the operation does not succeed without it. What the collector has gathered is handed on completely: the proposer and the company receive their configured shares, the rest is burnt, and what cannot be split is not lost.',
 ['inputs', 'configurations', 'histories'], 'every amount, fee parameter setting and path of charging and distributing fees',
 'Tests compute the fee for a few amounts with one parameter set and one distribution.',
 [B+'fee.go', B+'msg_server.go', 'x/noding/keeper/keeper.go', 'util/fee.go'], [('fee charging', B+'fee.go'), ('proposer reward', 'x/noding/keeper/keeper.go')],
 'path-sensitive dataflow with a symbolic balance ledger and linear elimination; argument wiring of the fee functions',
 'The arithmetic inside the fee calculation and splitting functions is not verified, only what is passed to them and what happens to the results.')

S = 'x/schedule/keeper/keeper.go'
prop('S01', 'Every scheduled task has its own registered handler',
 'Every task any module can schedule bears a name for which the running application registers exactly one handler, that handler is the one belonging to the module and purpose the task was scheduled for, and no two handlers share a name.',
 ['histories', 'configurations'], 'every call site that schedules or removes a task and every handler registration',
 'A task whose handler is missing or swapped only shows when it falls due, hours or months of chain time later.',
 ['app/app.go', S], [('handler registration', 'app/app.go'), ('task names', 'x/*/keeper')],
 'whole-program call-site analysis: constant propagation of task names against the registration table')
prop('S02', 'The schedule loses, duplicates and mixes up nothing',
 'Scheduling a task stores it under its time with its name and data and keeps all tasks already stored there; removing a task removes those that match its time, name and data and leaves all others. Nobody but the scheduler writes the schedule.',
 ['inputs', 'histories'], 'every time, name, data and content of the schedule',
 'Tests rarely have two tasks at one instant, and never many with equal names or data.',
 [S], [('schedule store', S)],
 'path-sensitive dataflow: per-path write obligations under hypotheses about the stored tasks; who-may-write confinement')
prop('S03', 'Due tasks run once, with their own data, whatever other tasks do',
 'At the beginning of every block all tasks due up to the block time, and only they, are run by the handler of their name with their own data and time, and removed. A task that panics stops neither the block nor its removal, and tasks which are scheduled while others run are not lost.',
 ['histories', 'fault_sequences', 'schedules'], 'every content of the schedule, every failure of a handler, every task scheduled from a handler',
 'Tests run one task at a time; a handler that reschedules into an entry being performed, or panics, needs particular timing.',
 [S, 'x/schedule/abci.go'], [('block start', 'x/schedule/abci.go'), ('schedule execution', S)],
 'path-sensitive dataflow with exceptional paths: event order and must-event obligations on every path')

VK = 'x/voting/keeper/'
vtech = 'path-sensitive interprocedural dataflow over SSA: guard-unreachability under hypothesis, exact event tables per path'

prop('V01', 'Only the government proposes and votes, one vote each, one proposal at a time',
 'A proposal is accepted only from a member of the government and only while no other proposal is open; a vote is accepted only from a member of the government, only on an open proposal and only if the member has voted neither for nor against it. A vote is added to the list of its side, with the voter who signed it, and nothing else changes; a new proposal is stored together with its author\'s vote for it, and its end is scheduled for the end time stored with it.',
 ['inputs', 'histories'], 'every proposal and vote, every content of the government and vote lists, every path of the handlers',
 'Tests vote with a few accounts in a fixed order; each refusal and each recorded effect has to hold on every path.',
 [VK+'keeper.go', VK+'msg_server.go'], [('proposing and voting', VK+'msg_server.go')], vtech)
prop('V02', 'Decisions follow the two-thirds rule on the complete vote',
 'Before the voting period is over, a proposal is decided exactly when every member of the government has voted; it is accepted exactly if at least two thirds of the current members of the government voted for it, whether decided by the last vote or by the end of the voting period. Nothing but the last vote, a proposal by the only member of the government, or the scheduled end of the voting period decides a proposal.',
 ['inputs', 'histories'], 'every size of the government and of the lists of votes',
 'Tests use one to three members; the rule is a relation between three counts.',
 [VK+'keeper.go', VK+'msg_server.go'], [('tally', VK+'keeper.go')], vtech + '; integer linear forms of the deciding comparisons')
prop('V03', 'An accepted proposal has exactly the effect it names, a rejected one has none',
 'For every type of proposal, its acceptance carries out the change the type names, with the arguments of the proposal, and changes no other parameter or record: a price, fee, ratio, limit or amount is stored in its own parameter and the other parameters keep their values; accounts are added to or removed from the list named; upgrades are scheduled or cleared. A rejected proposal changes nothing but the records of the voting. A proposal whose arguments are of another kind than its type needs does not pass validation.',
 ['inputs', 'configurations'], 'every type of proposal, both outcomes, every value of the arguments and current parameters',
 'Tests carry out some of the thirty types of proposals with one value each and seldom compare the parameters which should stay the same.',
 [VK+'keeper.go', 'x/voting/types/types.go'], [('carrying out decisions', VK+'keeper.go')], vtech + '; exhaustiveness over the enumeration of proposal types')
prop('V04', 'Parameters, government and staff change only by decision of the government',
 'No transaction, scheduled task or block changes the parameters of any module, the government, the staff, the signers\' lists or the upgrade plan except by carrying out an accepted proposal; the one exception is the token rate, which its signers set, and setting it changes no other parameter.',
 ['inputs', 'histories'], 'every path of the call graph from any transaction, task or block to any write of these records',
 'An additional route to a parameter is invisible to tests of the intended one.',
 [VK+'keeper.go', 'x/profile/keeper/msg_server.go'], [('parameter writes', VK+'keeper.go')],
 'call-graph reachability that avoids the deciding function; who-may-write; path-sensitive dataflow of the exception')
prop('V05', 'Every proposal ends once and leaves its history and nothing else',
 'When a proposal ends, its record with the votes for, the votes against, the members of the government and the outcome is stored in the history, the open proposal and both vote lists are deleted and, if it ended before its time, the scheduled end is removed; when the scheduled end comes and the proposal is open, the proposal ends. Only operations of the voting module write its records.',
 ['histories'], 'every path by which a proposal ends',
 'Tests look at the history after one or two votes; a leftover vote list or task acts on the next proposal.',
 [VK+'keeper.go'], [('end of a proposal', VK+'keeper.go')], vtech + '; who-may-write')
prop('V06', 'Polls admit each qualified account once and decide by their quorum',
 'Only a member of the government starts a poll, and only while none is open; an answer is accepted only while a poll is open, once from each account, and only from an account that meets the requirements of the poll (able to validate, or of the minimal status or above). An answer adds one to the count of its side and changes nothing else. A poll with a quorum is decided positive exactly if somebody answered yes and the yes answers are at least that fraction of all answers, and negative otherwise; a poll without a quorum stays undecided; at its end the result is stored in the history and its counts and answers are deleted.',
 ['inputs', 'histories'], 'every answer, every requirement and quorum, every number of answers',
 'Tests answer a few polls with a few accounts; requirement, duplicate and counter logic must hold for every respondent.',
 [VK+'keeper.go', VK+'msg_server.go'], [('polls', VK+'keeper.go')], vtech + '; integer and fraction linear forms')

prop('V07', 'A proposal that could not be carried out is refused before it opens',
 'A proposal is refused when it is proposed if it has no name, its author is not an account, its kind is unknown, it has no arguments where its kind needs some, or its arguments are ones its decision could not put into effect: an account that is not one; a price, number of validators or of missed blocks, smallest delegation or period that must be positive and is not; a negative limit; an upgrade without a name or a time, or by height; a share that is negative, missing, or too large, shares that add up to too much or, for voting power, not to one; a status that does not exist; a total stake below the own one; a table that is empty, whose rows do not have five shares, do not ascend or do not begin with zero. Values at the bound that are allowed are accepted.',
 ['inputs'], 'every kind of decision, with values at, just within and just beyond every bound, all else unknown',
 'Tests propose a few valid things; a bound that is missing shows only when the last vote fails, or the wrong value is decided and used.',
 ['x/voting/types/types.go', 'x/voting/types/args.go', 'x/delegating/types/types.go', 'x/noding/types/types.go', 'x/referral/types/types.go'], [('check of proposals', 'x/voting/types/types.go')],
 'abstract interpretation of the check of proposals over partially known arguments: no path to success may be left for a value out of bounds, one must be left for a value within')

DK = 'x/delegating/keeper/'
dtech = 'path-sensitive interprocedural dataflow over SSA with symbolic coin movements per denomination and record fields'

prop('D01', 'Delegated coins leave only through revocation, at the rates the parameters set',
 'A successful delegation takes the amount from the account\'s main coins, pays the fee of exactly that amount once and gives exactly the rest as delegated coins; it is refused below the minimal delegation. A revocation is refused if more is asked for than is delegated; else it takes exactly the amount from the delegated coins and gives as revoking coins the amount less the part to be burnt set for the kind of revocation (ordinary or express); revoked coins turn into as many main coins of the same account when they are paid. Main coins are given to a delegator on these occasions only for interest due. Nothing else makes or removes delegated or revoking coins. The whole delegation of a banished account is revoked.',
 ['inputs', 'histories'], 'every amount, balance, parameter setting and path of the delegation operations, and every route to operations on the delegated denominations',
 'Tests delegate and revoke a few fixed amounts; a leak on one branch needs an accrual, a dust amount or an express revocation to show.',
 [DK+'keeper.go', DK+'hooks.go'], [('delegation ledger', DK+'keeper.go')], dtech + '; who-may-use of the denominations over the call graph')
prop('D02', 'Every revocation is recorded and paid exactly once when it is due',
 'A successful revocation of a non-zero amount appends to the account\'s requests, keeping the earlier ones, one request of exactly the revoking coins given, and schedules one payment of the account at the time recorded in the request, which is a revocation period of its kind after the block. A scheduled payment pays every recorded request that is due, once and in full, and no other; it removes exactly the paid requests from the record and keeps the others and the time of the next accrual. Only operations of delegating change its records.',
 ['inputs', 'histories', 'schedules'], 'every number and order of requests (two requests, either due or not, in either order), every kind of revocation and every path',
 'Tests revoke once or twice in order; requests with different periods become due out of order only when express and ordinary revocations or changed parameters mix.',
 [DK+'keeper.go', DK+'hooks.go'], [('payment of revocations', DK+'hooks.go')], dtech + '; bounded case analysis of two requests; who-may-write')
prop('D03', 'The next accrual on record and the scheduled task always agree',
 'After every operation on a delegation, the time of the next accrual on record is exactly the time of one scheduled accrual of the account: a task which the record no longer names is removed, a new time is a day ahead and is scheduled once, and where no interest is due any more (the delegation left does not exceed the dust limit) there is neither a time nor a task. A task whose time is not the one on record pays nothing.',
 ['histories', 'schedules'], 'every path of delegating, revoking and accruing with any record',
 'A stale or missing task shows only a day later, after a particular order of delegations and revocations.',
 [DK+'keeper.go', DK+'hooks.go'], [('accrual tasks', DK+'keeper.go')], dtech)
prop('D04', 'Interest counts each stretch of delegation once, before it changes',
 'Interest is paid to the delegator on its own delegation, from the range of the accrual table which the delegation is in, as the sum of the base rate and of the bonus of each activity which the account has at that time and of no other: active validator, active subscription, VPN and storage service, in this order in the table. What is paid for a day is a thirtieth of that share of the delegation, less the part of the day that was missed; what is paid when the delegation changes is in proportion to the part of the day that has passed. The transaction fee is taken from it. The beneficiaries of active validators above get their ratio of a thirtieth of the delegation for the same time. Delegating or revoking first pays the interest for the time until then, on the delegation before the change, and once.',
 ['inputs', 'configurations'], 'all sixteen combinations of activities, both sides of a range boundary, all three operations that pay interest, a part of the day missed or not, beneficiaries or none',
 'Tests compute the interest for a few combinations of activities.',
 [DK+'keeper.go', DK+'hooks.go'], [('interest', DK+'keeper.go')], dtech + '; exhaustive case analysis over activities and ranges; amounts compared as normal forms (Laurent polynomials, roundings apart)')

RK = 'x/referral/keeper/'
rtech = 'path-sensitive interprocedural dataflow over SSA with symbolic referral records (reads and writes of an account\'s record along each path)'

prop('R01', 'Network totals of ten levels follow every movement of coins and accounts',
 'An account\'s record keeps, per level 0 to 10, the coins and the delegated coins of its referral network and the number of active referrals. Whenever the coins of an account change, an account is added, becomes active or inactive, is compressed, moves to another referrer, is banished or comes back, the records of the ten accounts above (of both the old and the new line when it moves) change at each level by exactly what entered or left their networks, no other record changes its totals, the changed records are stored, their status is reconsidered where the operation does so, and every account whose delegated network changed gets exactly the announcement of it (StakeChanged). A changed balance counts with all the account has (main, delegated and revoking coins).',
 ['inputs', 'histories'], 'every path of the seven operations, ancestor lines of every length up to beyond ten levels, all levels and both denominations',
 'Tests use a small tree of fixed balances; an error at one level of one operation shows only in deeper trees.',
 [RK+'keeper.go', RK+'bunch_updater.go', RK+'hooks.go'], [('operations on the referral structure', RK+'keeper.go')], rtech + '; linear forms; loops unrolled 12 times, beyond the ten levels that count')
prop('R02', 'Referrers and referrals always name each other',
 'After every operation an account is in the list of referrals of exactly its referrer and of nobody else, is among the active referrals of its referrer exactly if it is active, and a top level or banished account has no referrer. When an account is compressed, banished or moved its referrals go with it or go to its referrer, as the operation says, with both sides updated; a banished account that comes back is linked to the nearest ancestor it may be linked to. Only the operations of the referral keeper write these links, and totals.',
 ['inputs', 'histories'], 'every path of the operations over small neighbourhoods (an account, its referrer, and up to three others as referrals) with and without active referrals',
 'Tests check parents or children after single operations, rarely both sides after a sequence.',
 [RK+'keeper.go'], [('links of the referral structure', RK+'keeper.go')], rtech + '; bounded case analysis of neighbourhoods; who-may-write')
prop('R03', 'A transition is moved only as requested, paid for and affirmed',
 'A request to move under another referrer is refused if the account or the destination is unknown or is the same account, if a request is pending, the destination is its referrer already, is closed for registration or is in the account\'s own network (first to third line are analysed); affirming checks all that again. A successful request pays the price set in the parameters exactly once, from the account, is recorded without touching anything else of the record as it is after the payment, and schedules its timeout one day later; without the payment nothing is requested. Only the current referrer of the account resolves a request: approved, it is carried out; declined or timed out, the account stays where it is. A resolved request is pending no longer and its timeout is removed.',
 ['inputs', 'histories', 'schedules'], 'every path of requesting, cancelling, affirming, resolving and timing out, under each refusing condition',
 'Tests try one or two refusals and the good case.',
 [RK+'keeper.go', RK+'msg_server.go', RK+'hooks.go'], [('transitions', RK+'keeper.go')], rtech + '; unreachability under each refusing hypothesis; who-may-write')
prop('R04', 'Compression and banishment deadlines on record and their tasks always agree',
 'A deadline of an account on record (compression, two months after it became inactive or was created; banishment, one month after its compression left it with no more delegated than the dust limit) always has exactly one scheduled task of the account at that time, set when the record is set; a deadline taken off the record because the account delegates again takes its task away; becoming active clears the deadlines, becoming inactive sets one unless the account is a top level one, and an operation that changes nothing changes neither. A task that comes when the record no longer names its deadline, or the account is active again, does nothing; one that is due compresses or banishes. An account is banished only if it is no top level account, not active, not banished yet and has no more delegated than the dust limit; then its deadlines are cleared and it is announced once. Registration is closed exactly with a referrer who has been inactive for a month or more, or is banished.',
 ['inputs', 'histories', 'schedules'], 'every path of the operations that make accounts active, inactive, compressed, banished or back, and of the changes of balances, under every combination of activity, status and deadlines on record',
 'Deadlines are months ahead: a stale or missing task shows after a particular history that no test waits for.',
 [RK+'keeper.go', RK+'hooks.go', 'x/profile/keeper/keeper.go'], [('deadlines', RK+'keeper.go')], rtech + '; symbolic schedule of tasks; case analysis of conditions')
prop('R05', 'A status is what the requirements met give it, and is lost one step at a time',
 'After any change of its network an account\'s status is reconsidered on the changed record: it rises to the highest status of which all requirements, and all those of the statuses below, are met (the deprecated one is skipped), each change is stored, announced once and reflected in the index of statuses; if the requirements of the present status are no longer met a downgrade is scheduled once, two days ahead, and is cancelled if they are met again; a downgrade that is due lowers the status by one step. The events of changes of status tell the status before and after, and those of a downgrade ahead (or off) its time. A status requires the limits that are reported with it: coins, active referrals and teams of referrals counted by their own networks, limits which grow with the status; the coins of lines above the greatest allowed share do not count below the status from which they do; a banished account deserves none.',
 ['inputs', 'configurations'], 'every status, every pair of old and new status, every combination of met and missed requirements over up to four active referrals',
 'Tests check a few statuses with fixed trees; the table of requirements, the index and the downgrade timer must agree for each.',
 [RK+'keeper.go', RK+'bunch_updater.go', 'x/referral/types/types.go'], [('statuses', RK+'keeper.go')], rtech + '; exhaustiveness tables over the statuses; monotonicity of constants')
prop('R06', 'A batch of referral changes is stored completely before it is announced',
 'The collector that operations on the referral structure use gives each reader the last record written in the same batch (or the stored one), stores every changed record exactly as last written, and only then announces every event collected, to every hook registered for it, in order and none twice in a row; a failing hook makes the operation fail. The operations on one stored record read it, change exactly it and store it. The list helpers the structure is built on (adding, removing and looking up names) keep order, lose nothing and add nothing twice.',
 ['inputs', 'histories'], 'every batch of up to three records and events in every order of repetition; lists of up to four names; every path',
 'A lost update needs two changes of the same record in one operation, or an event whose hook reads a record changed in the same batch.',
 [RK+'bunch_updater.go', RK+'keeper.go', 'util/lists.go'], [('collector', RK+'bunch_updater.go')], rtech + '; bounded case analysis of lists and batches')
prop('R07', 'The part of delegation interest for validators above follows level and status',
 'Of the interest for delegation, an active validator among the twenty ancestors of the delegator gets the part of the highest line of the table it qualifies for (0.1% from Master to level 4, 0.2% from Champion to level 6, 0.3% from Businessman to level 10, 0.4% from Professional to level 12, 0.5% from Top Leader to level 14, 0.6% from Absolute Champion to level 20), less what validators between it and the delegator get. Nobody else gets anything, and the parts never exceed 0.6% together.',
 ['inputs', 'configurations'], 'every status at each of 22 levels, and all pairs of statuses at all pairs of levels where parts change',
 'Tests check one tree; who gets what depends on all combinations of levels and statuses.',
 [RK+'keeper.go'], [('validators\' parts', RK+'keeper.go')], 'path-sensitive constant propagation over SSA, exhaustive over levels and statuses')

NK = 'x/noding/keeper/'
ntech = 'path-sensitive interprocedural dataflow over SSA with symbolic validator records and index (reads give what was last written along each path)'

prop('R08', 'What is told of a network is what is on record of it',
 'The status, the referrer and the referrals told of an account are those on its record. The coins, and the delegated coins, told of its network are the sum of its own and of those at the levels its status opens, no deeper than asked (asked for depth 0: without limit). The first status opens four lines, the second six, the third eight, every other ten.',
 ['inputs', 'histories'], 'every status, every depth asked, every amount at every level',
 'Tests look at one account or two; validators are qualified by these sums, so a level too many or too few admits or bars them.',
 ['x/referral/keeper/keeper.go', 'x/referral/types/types.go'], [('getters', 'x/referral/keeper/keeper.go'), ('levels', 'x/referral/types/types.go')],
 'path-sensitive dataflow over SSA with linear forms of the totals, for every status and depth')

prop('N01', 'Only qualified accounts validate, each with a key of its own',
 'An account can be switched on only if it is not banned, not on already, qualified, and no other account that is switched on (jailed or not) has the key; its key, its score and the operator of the key are recorded. Qualified is staff, or an account whose status, own delegation and delegation in its network of ten levels all reach the limits set. An active validator that is no longer qualified when its status or stake changes or it leaves the staff is switched off and this is announced, one still qualified is not; an unjailed account goes on validating only if qualified. A changed stake changes the score. Each field of a record changes only in the operations it belongs to, no operation changes another account\'s record, and only the operations of noding write records. Whether an account validates, is banned or is listed as active follows its record: it is active exactly if it is on, not jailed and not banned.',
 ['inputs', 'histories'], 'every path of every operation of the keeper that writes records, with every combination of on, jailed, banned, staff, qualified, queued and once byzantine',
 'Tests switch a few accounts on and off; the combination of jail, staff, key and qualification that breaks the rule is rare.',
 [NK+'keeper.go', 'x/noding/types/types.go'], [('switching on and off', NK+'keeper.go')], ntech + '; who-may-write')
prop('N02', 'Jail and ban follow the blocks missed and the evidence, and are not escaped',
 'At the beginning of each block every vote counts exactly once for the operator of the node, as signed or missed, every piece of evidence is recorded once, and the proposer is rewarded once; a failure in one of these steps does not keep the others from being done. A signed block ends a row of missed ones and adds to the row of signed ones; a missed one adds a stroke, ends the row of signed ones and, when the row of missed ones reaches the limit, jails the account, with the end of the jail recorded, counted and announced; a jailed account collects no strokes. The second piece of evidence bans for life and switches off. A ban is never lifted, and a jail ends only by unjailing at or after the block recorded. The score is the logarithm of the stake less the strokes plus one for each hundred blocks in row, through every operation; an amnesty forgives strokes.',
 ['inputs', 'histories', 'crash points'], 'every path of every operation of the keeper that writes records, with every combination of on, jailed, banned, staff, qualified, queued and once byzantine; blocks with two votes and two pieces of evidence',
 'Tests jail one validator with small limits; limits, rows and repeated evidence combine in ways they do not sample.',
 [NK+'keeper.go', 'x/noding/abci.go'], [('strokes, jail and ban', NK+'keeper.go')], ntech + '; linear forms')
prop('N03', 'The lottery queue and the numbers on the records agree',
 'After every operation an account with a number on record has exactly that entry of the queue, one without has none, and an account that does not validate any more (off, jailed or banned) has none; entries of others stay. A validator in the queue that proposes a block, misses one or is byzantine once goes to the end of the queue; every other operation leaves it its place while it is active.',
 ['inputs', 'histories'], 'every path of every operation of the keeper that writes records, with every combination of on, jailed, banned, staff, qualified, queued and once byzantine, with others before and behind in the queue',
 'A stale entry of the queue shows only when another account draws the number, blocks later.',
 [NK+'keeper.go', NK+'lottery.go'], [('lottery queue', NK+'lottery.go')], ntech + '; effect analysis of the index')
prop('N04', 'The consensus is told exactly who validates, and with which power',
 'At the end of a block the validators are the first by score (by blocks in row if equal) up to the limit set, and of the other active accounts the first in the lottery queue up to theirs. The updates returned turn the previous set of keys and powers into exactly the set of the chosen accounts\' keys with their powers: no key twice, no removal of a key that was not in it, also where keys changed or went from one account to another; the records keep what was told. Accounts not chosen by score wait in the queue, those chosen leave it. Powers by score are those of the slices of the distribution in force, in order, equal for equal scores; those chosen by lot get the power set for them.',
 ['inputs', 'configurations', 'histories'], 'all sets of up to three accounts in every state (off, new, unchanged, changed power, changed key; queued or not) with one or two places by score and by lot, exchanged and inherited keys; distributions of up to three slices over up to six validators, every grouping of equal scores up to four',
 'Tests follow a few switch-ons; a double or missing update stops the consensus engine, in constellations of keys and powers that no test has.',
 [NK+'keeper.go', NK+'vp_generator.go', NK+'lottery.go'], [('validator updates', NK+'keeper.go')], ntech + '; exhaustive bounded case analysis by constant propagation')

PK = 'x/profile/keeper/'
ptech = 'path-sensitive interprocedural dataflow over SSA with symbolic profile records, indexes and times'

prop('P01', 'Nicknames and card numbers name one account each, and lead to it',
 'After every operation the index of nicknames has exactly the nickname on each profile touched (trimmed, without regard to case) leading to its account, a former nickname leads nowhere, and other accounts\' entries are as before; the same goes for the index of card numbers. A nickname another account has, or one beginning with the reserved prefix, is refused and nothing changes; setting a new nickname costs 1 ARTR from the account, an unchanged one costs nothing. A card number once given stays unless another one is given; one is given with every account created. Importing saved profiles builds the same indexes.',
 ['inputs', 'histories'], 'every path of every operation of the keeper that writes profiles, with old and new nicknames equal, different, empty, taken, differing in case or in blanks',
 'Tests rename one profile; a stale or shared entry of an index shows only when another account takes or looks up the name.',
 [PK+'keeper.go', PK+'genesis.go'], [('profile and index writes', PK+'keeper.go')], ptech + '; effect analysis of the indexes')
prop('P02', 'What is bought is paid for in full and granted exactly',
 'Buying storage, VPN traffic or IM storage, prolonging IM storage, and giving storage up: the price is the price set per unit times the token rate times the amount and the share of the month left; the whole is paid by the account, split between fee and the company\'s accounts as the parameters say; exactly the amount asked for is added to the limit and nothing else in the profile changes. Only an active account buys; a purchase that would cost nothing or is not paid for is refused and changes nothing. Storage is given up only down to what is used and never below the basic amount, and costs nothing.',
 ['inputs'], 'every path of every purchase and of giving up, with symbolic amounts, prices, rates and times; prices as Laurent polynomials in these',
 'Tests buy with one price and rate; prices are products and shares of times where an error needs the right ratio to show.',
 [PK+'subscription.go'], [('prices and grants', PK+'subscription.go')], ptech + '; polynomial normal forms of amounts')
prop('P03', 'A subscription lasts exactly as long as it was paid for',
 'Paying the tariff charges the subscription price times the rate, and the price of storage beyond the basic amount, in full, and moves the end one month further, from the present end if active and from now if not; the storage paid for is granted, the VPN allowance renewed, and a task renews the subscription when the month ends, exactly one for each month paid. Paying for a banished account brings it back. At renewal a subscription paid in advance has its limits reset; else it is paid automatically if and only if the profile asks for it; if that fails nothing is charged, and the account is inactive.',
 ['inputs', 'histories'], 'every path of the payment and the renewal, active, expired and never subscribed, with and without automatic payment and storage',
 'Tests pay a few tariffs in the ordinary order; a lost task or a month too many shows months later.',
 [PK+'subscription.go'], [('payment and renewal', PK+'subscription.go')], ptech + '; polynomial normal forms of amounts and times')
prop('P04', 'Extra IM storage ends when its time is over unless prolonged',
 'An account has extra IM storage with an end on record exactly if one task at that end is scheduled. Buying it for the first time sets the end one month ahead, buying more leaves the end; prolonging moves it one month further. When the end comes, it is prolonged automatically if and only if the profile asks for it and the payment succeeds; else the extra storage is gone, nothing is charged, and there is no end any more. No task is left for storage given up in full.',
 ['inputs', 'histories'], 'every path of the operations on extra IM storage and of the task, with all combinations of extra storage, end and automatic prolongation',
 'Tests prolong once; a partial payment or a second task needs a failure halfway or a rare order of operations.',
 [PK+'subscription.go'], [('extra IM storage', PK+'subscription.go')], ptech + '; effect analysis of tasks')
prop('P05', 'Profile data are changed only by those entitled, and only as named',
 'The token rate and the measured storage and VPN traffic are set only by the signers listed for each of them, to exactly the value given; others change nothing. An update of a profile changes exactly the fields it names. An account is created only if it does not exist, for the price set unless the creator is on the list of free creators, paid by the creator, and its profile has nothing that has to be paid for. Limits, use, ends and flags of a profile are each changed only by the operations meant for them, and no operation changes another account\'s profile.',
 ['inputs'], 'every message handler and operation of the module, signers first, second and not on the list, every kind of update',
 'Tests use the one signer and a few updates; an authorization error needs the wrong sender or the wrong list.',
 [PK+'msg_server.go', PK+'keeper.go'], [('message handlers', PK+'msg_server.go')], ptech)
prop('P06', 'The referral network hears of every change of activity',
 'An account is active exactly until the end of its subscription on record. Whenever an operation on profiles makes an active account inactive or an inactive one active, the referral module is told so exactly once, with the right value; when it changes nothing, the module is told nothing. When a subscription ends and is not paid again, the referral module is told that the account is inactive.',
 ['inputs', 'histories'], 'every path of every operation on profiles, with no end, one in the past and one in the future before and after',
 'Tests set a few profiles; the network\'s counts drift apart from the profiles silently.',
 [PK+'keeper.go', PK+'subscription.go'], [('activity reports', PK+'keeper.go')], ptech)

prop('A01', 'Every message acts only for the account that signed it',
 'For every message of every module, the one signer demanded is the account whose money, stake, profile, vote or authority the handler uses, the signature covers every field of the message, and the handler calls the operation the message names with the fields of the message in their places and with nothing else.',
 ['inputs'], 'every message type of every module registered with the application, its signers, its sign bytes and its handler',
 'Tests call handlers and keepers directly, below the check of signatures; a wrong signer or an unsigned field changes nothing they see.',
 ['x/profile/types/msgs.go', 'x/bank/types/msgs.go', 'x/referral/types/msgs.go'], [('signers and sign bytes', 'x/profile/types/msgs.go'), ('handlers', 'x/delegating/keeper/msg_server.go')],
 'interprocedural value-flow analysis over SSA from message fields to signers, sign bytes and arguments of operations')
prop('A02', 'Malformed messages are refused before they are executed',
 'The stateless check of every message refuses: an account that is not one, in any field an account is taken from; amounts that must be positive and are zero or negative; lists that must not be empty; fields the sender must leave unset; coins that are not valid and positive; an update of a profile whose value is not of the kind the field has; a new nickname of one or two characters, one with a character not allowed in nicknames, and one beginning with the prefix of card numbers.',
 ['inputs'], 'every message type and every field concerned, all other fields arbitrary',
 'Tests send a few wrong messages for a few types; one missing case goes unnoticed until somebody sends it.',
 ['x/profile/types/msgs.go', 'x/bank/types/msgs.go', 'x/delegating/types/msgs.go'], [('stateless checks', 'x/profile/types/msgs.go')],
 'path-sensitive dataflow over SSA: no success exit is reachable under the hypothesis that the field is malformed')
prop('A03', 'Every message reaches its own handler and a failure is reported',
 'The handler of every module gives each of its messages to the server method of that message, in the context and with the message it got, and fails exactly if that method fails; it refuses messages it does not know. No two modules share a route and no two messages of a module share a type; every message is registered for decoding under a name of its own; every module registers its message and query servers.',
 ['inputs'], 'every module of the application and every message of its service',
 'Tests call the server methods or keepers directly; routes, types and registrations matter only when transactions are decoded.',
 ['x/profile/handler.go', 'x/bank/handler.go', 'x/delegating/types/msgs.go', 'x/delegating/types/codec.go'], [('handlers and routes', 'x/profile/handler.go')],
 'path-sensitive dataflow over SSA with dynamic type of the message fixed; uniqueness over constants that flow into registrations')
prop('A04', 'What fails inside an operation fails the operation',
 'No failure is passed over: when anything an operation relies on fails (a payment, a write, a lookup, a check, a conversion, another module), the operation fails too and reports it, so that a transaction is reverted as a whole; tasks of the schedule and the code of a block which have nobody to answer to stop with a panic. There are only these exceptions, each of which is told in an event or in the error log: a monthly payment that the account cannot afford (it becomes inactive instead), a voting decision that cannot be carried out, and what a block starts with; and an account which is not in the referral or is no validator is passed over where its stake or balance changes. The same goes for import of genesis, and for queries, which answer with the error.',
 ['inputs', 'faults'], 'every call that can fail in every function reachable from messages, scheduled tasks and blocks, and every failure of it',
 'Tests provoke a few failures; most of the hundreds of calls that can fail never fail in a test.',
 ['x/bank/internal/keeper/send.go', 'x/profile/keeper/subscription.go', 'x/referral/keeper/keeper.go', 'x/noding/keeper/keeper.go', 'x/delegating/keeper/keeper.go'], [('errors', 'x/referral/keeper/keeper.go')],
 'path-sensitive dataflow over SSA: every call with an error result is given a failing outcome, and the exits after it are classified')
prop('E01', 'Earner marks are set only by signers and last two days',
 'Only an account on the list of signers can set the marks of VPN and storage earners; others change nothing. A message stores for every earner in it exactly the marks (times) it gives, removes the record when it gives none, and touches no other account. An account is reported an active earner of a kind if and only if the mark of that kind is less than two days old (the mark and two days are after the time of the block); looking drops an expired mark, keeps the other one, and removes a record with no mark left. Nothing else writes marks.',
 ['inputs', 'histories'], 'every message handler of the module with signers listed and not, all combinations of marks, and marks absent, fresh, exactly two days old and older',
 'Tests set a few marks and look once; the boundary of two days and the clean-up of one of two marks need the right times.',
 ['x/earning/keeper/keeper.go', 'x/earning/keeper/msg_server.go'], [('marks', 'x/earning/keeper/keeper.go')],
 'path-sensitive interprocedural dataflow over SSA, linear forms of times, effect analysis of the store')
prop('G02', 'A genesis carries the whole state of each module out and in',
 'Exporting a genesis fills every field of it (for referral: for accounts of every level of the tree) from the state of the module, and importing a genesis uses every field of it: nothing is left out. What is exported from a place of the state (a key, or a field of a record) comes back to that place on import. Exceptions are what is made anew on import (card numbers) or the same for all (the jail mark of active validators).',
 ['inputs', 'histories'], 'every field of the genesis of all eight modules, for a state with something everywhere',
 'Tests of genesis sample states that have few of the records (no requests for transition, no votes against, no infractions, one level of accounts).',
 ['x/referral/keeper/genesis.go', 'x/noding/types/genesis.go', 'x/voting/genesis.go', 'x/delegating/keeper/keeper.go', 'x/bank/internal/keeper/genesis.go'], [('genesis', 'x/referral/keeper/genesis.go')],
 'path-sensitive dataflow over SSA: each leaf of the genesis type is followed from state to export and from import to writes; places compared')
prop('A05', 'What is announced is what was done',
 'Events tell what happened. A transfer is announced with its sender, recipient and amount. Each delegation, freezing of delegated coins, paying out and accrual is announced once for the account, with the number of coins (and the fee) that are moved, and none is announced if nothing is. A proposal made, a vote, the end of a voting and of a poll are announced once with the name, the author, the voter, the choice, the counts and the decision that are recorded. Purchases, giving up and prolongation of storage, traffic and subscriptions are announced once with the limits, the use and the end that are saved in the profile and the price that is paid; the beginning and the end of activity with whether the account is active then. Requests, refusals and execution of a transition tell the referrer before and after and why it was refused; compression tells the referrer and the referrals passed on. Evidence against a validator is announced with all evidence on record and whether it is banned.',
 ['inputs', 'histories'], 'every path of the operations that announce, for every amount and every record',
 'Wallets and indexers follow events, not state; tests look at the state and nearly never at an event, so one with the value before instead of after goes unseen.',
 ['x/bank/internal/keeper/send.go', 'x/delegating/keeper/keeper.go', 'x/voting/keeper/keeper.go', 'x/profile/keeper/subscription.go', 'x/referral/keeper/keeper.go', 'x/noding/keeper/keeper.go'], [('events', 'x/profile/keeper/subscription.go'), ('events of delegations', 'x/delegating/keeper/keeper.go'), ('events of votings', 'x/voting/keeper/keeper.go')],
 'path-sensitive interprocedural dataflow over SSA: the fields of each event emitted on a path against what the path stores, moves or was asked, in normal form')
prop('Q01', 'A query is answered with what the state holds of what was asked',
 'Every query server method asks the state about the very account, time or page of the request (not another, not a fixed one) and answers with what it got: each field of the answer is made of that and nothing is left empty. A failure of the state becomes a failure of the query, what does not exist is not found, a panic is an error. Lists are gone through from the first entry of the page to its last, each entry once, none of another kind and none beyond the size of the page. Several accounts asked for at once get an answer each, in order and of their own. A transition is told to be possible exactly if requesting it would not be refused, the state of a validator is the one its record means.',
 ['inputs', 'histories'], 'all query methods of all modules, every request, every page of lists with up to five entries',
 'Tests ask a few questions on small states; another field of the request, a page boundary or an account without data is not asked.',
 ['x/referral/keeper/query_server.go', 'x/voting/keeper/query_server.go', 'x/earning/keeper/query_server.go', 'x/noding/keeper/query_server.go', 'x/profile/keeper/query_server.go', 'x/schedule/keeper/query_server.go'], [('queries', 'x/referral/keeper/query_server.go'), ('lists', 'x/voting/keeper/keeper.go')],
 'path-sensitive interprocedural dataflow over SSA with a table query -> getter; iteration of store prefixes with symbolic entries')
prop('G03', 'The application runs all its modules, each with its own state',
 'Every module is managed once, known for encoding and default genesis, set up from genesis if it has state, and called at the start and the end of blocks if it has work there; upgrades come first. The application passes the genesis, the start and the end of each block on to the modules. Every keeper has stores and a parameter space no other keeper has, all mounted. Every event tasks are scheduled for has exactly one handler, not shared with another event; what the referral module and the bank announce is heard exactly once. Keepers are complete before modules are built from them.',
 ['configurations'], 'the construction of the application on every path, all modules, keepers, stores and events',
 'Tests build the application but do not run it over genesis, blocks and tasks of all kinds; a module left out or an event without handler only misses its effects.',
 ['app/app.go'], [('construction of the application', 'app/app.go')],
 'interprocedural dataflow over SSA of the constructor: must-call, order and uniqueness of the constants and keys that flow into registrations')
prop('G04', 'Parameters are stored apart, and out-of-bounds values are refused',
 'Every parameter of every module is stored under a key of its own and read back as the same parameter; it is checked as the type it has. A parameter out of its bounds (account that is not one, empty list where one is needed, zero or negative where a positive number is needed, share below zero or above one, shares that add up to more than one, length of a day not in the range allowed) is refused both when it is set and in genesis, and the values at the bound that are allowed are accepted.',
 ['configurations'], 'every parameter of every module, values beyond and at its bounds, all other parameters arbitrary',
 'Tests use the default parameters; a bad one gets in by vote of the government or with genesis and breaks arithmetic later.',
 ['x/bank/types/params.go', 'x/profile/types/params.go', 'x/noding/types/params.go', 'x/bank/types/genesis.go'], [('parameters', 'x/profile/types/params.go')],
 'path-sensitive dataflow over SSA: no success exit reachable under the hypothesis that the value is out of bounds; uniqueness of keys by constant propagation')

prop('G01', 'Nodes that process the same blocks do the same',
 'Nothing that a node runs to process genesis, transactions, scheduled tasks and the start and the end of blocks asks for the clock, random numbers, the environment, files or the network, starts threads, or lets the random order of maps show in what it writes, emits or returns. Everything that lasts from one transaction to the next is kept in the store, not in variables of the program, so that a node that was restarted goes on as one that was not.',
 ['schedules', 'histories', 'crash points'], 'every function of the repository reachable from message handlers, checks, hooks, scheduled tasks, begin and end blockers and genesis',
 'Tests run one node once; a difference between nodes needs two, and an order of a map or a restart that differs.',
 ['util/msg_server.go', 'x/bank/internal/keeper/send.go'], [('event attributes', 'util/msg_server.go'), ('hooks of the bank', 'x/bank/internal/keeper/send.go')],
 'call-graph reachability with an effect analysis: sources of nondeterminism, writes to memory that outlives the call, order-insensitivity of loops over maps on SSA')
prop('U01', 'Fractions and fees are calculated exactly',
 'Sum, difference, product, quotient, negation and reduction of fractions give exactly the number they name, whatever the signs and common divisors, and leave the value of their operands as it was, now and after later operations on the result. Comparisons tell the order of the numbers; a fraction becomes a whole number by dropping what is after the point. A fee is the rate times the amount without what is after the point, at most the maximum if there is one, less the remainder that the shares could not divide into whole coins; its parts are the shares as set, and the third part is all the rest.',
 ['inputs'], 'all numerators and denominators, as symbols, with all combinations of signs',
 'No test covers fractions on their own; wrong signs, common divisors and shared memory show only with particular numbers.',
 ['util/fraction.go', 'util/fee.go'], [('fractions', 'util/fraction.go'), ('fees', 'util/fee.go')],
 'abstract interpretation over SSA with numbers as Laurent polynomials in the operands (greatest common divisors as factors that divide), all sign combinations')

def na(id, title, statement, over, quant, why, files, reason):
    prop(id, title, statement, over, quant, why, files, [(title, files[0])], '')
    NA[id] = reason

na('Z01', 'Interest paid over any time is the table rate of the delegation, rounded down',
 'Over any sequence of delegations, revocations and accruals, the interest an account has been paid differs from the sum of rate times amount times time by less than one coin per accrual, and dividing a stretch of time among more accruals never pays more.',
 ['inputs', 'histories'], 'all amounts, rates and partitions of time',
 'Tests compare a few sums; rounding shows with particular amounts and times.', ['x/delegating/keeper/keeper.go'],
 'A statement about the numerical result of products and roundings over unbounded sums of runtime amounts and times; a static analysis without a solver can only show that each accrual uses the right terms (D04) and exact fractions (U01).')
na('Z02', 'A node that crashed and replays comes to the same state',
 'A node that stops at any point and starts again replays the block it was in and comes to the same application hash as nodes which did not stop.',
 ['crash points', 'histories'], 'every point of a crash within the processing of a block',
 'No test restarts a node within a block.', ['app/app.go'],
 'The commit and replay protocol is in cosmos-sdk (IAVL, rootmulti) and tendermint, outside the repository and of runtime and disk nature; what the repository contributes, that processing depends on nothing but state and block, is claimed as G01 and G03.')
na('Z03', 'The work of a block is bounded by what was paid for',
 'The time and memory that a transaction, a scheduled task or the start and the end of a block take is bounded by gas paid and by fixed limits, however large the network and the lists in its records grow.',
 ['inputs', 'histories'], 'all sizes of the referral network, the schedule and the sets of validators',
 'Tests use networks of some twenty accounts.', ['x/referral/keeper/keeper.go', 'x/noding/keeper/keeper.go'],
 'A bound on quantities that only exist at run time (lengths of lists in records, number of tasks due): the loops over them are unbounded in the source by design (for instance every validator is sorted at the end of a block), so there is no static bound to show.')
na('Z04', 'Every pending request is finally carried out',
 'Whatever happens in between, a pending revocation is finally paid, an open proposal or poll finally ends and an inactive account is finally compressed, as long as blocks are made.',
 ['schedules', 'histories'], 'all infinite histories of blocks',
 'Tests run a bounded number of blocks.', ['x/schedule/keeper/keeper.go'],
 'A liveness property of infinite histories which depends on block times and on tasks not failing at run time; the static part (each pending record has exactly its scheduled task, due tasks are run and handled) is claimed as S01-S03, D02, V05, V06 and R04.')
na('Z05', 'Amounts never overflow what holds them',
 'No amount, total, price or counter that history can bring about exceeds the range of the type holding it (64-bit integers and microcoins, 256-bit coins).',
 ['inputs', 'histories'], 'all amounts and totals reachable from genesis',
 'Tests use small amounts.', ['x/referral/types/types.go', 'x/profile/keeper/subscription.go'],
 'The bounds follow from the supply at genesis and from parameters, which are runtime quantities; without them an interval analysis reports every multiplication of parameters, on code that is right.')
