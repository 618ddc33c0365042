# How each property is decided, and the limits of that.
HOW={
'M01':('Ledger over all paths of every entry point that reaches the bank store: balance and supply setters are events with symbolic amounts; on each success path the formal sum of balance changes equals that of the supply per denomination. Who-may-write: only the setters touch the store keys; minting is unreachable from the roots. Setter and getter are checked against the store model (own key, own value, deletes only empty).','the invariant is inductive; that genesis starts with supply = sum is the genesis code of the bank (supply computed from balances).'),
'M02':('Guard: under "the account holds less than the amount in some denomination" / "the amount is not valid", no path of subtract/set reaches a write or a success exit; balances are written through these functions only (call graph).',''),
'M03':('Must-event: between every balance write and success all registered observers are called; the error of observer and write must reach the exit. The application\'s registration is found in `app.go`.','what the observer (referral) does is R01.'),
'M04':('Ledger with exact amounts for send, multi-send-like paths, burn, mint; a guard per reason of refusal.',''),
'M05':('Ledger on every function that charges a fee (found by the calls of the fee calculation), ordering (fee before coins), distribution at the block begin; the arithmetic of the fee with the number machine of U01.',''),
'S01':('Queries: all schedule calls and hook registrations in the program are collected with constant names, joined, and the handler\'s owner compared with the scheduling module (table by purpose).',''),
'S02':('Store model: the list stored under the time key after ScheduleTask/Delete compared with the one before, element by element, incl. same-time entries of others.','two other tasks at the same time stand for any number.'),
'S03':('PerformSchedule is run with an iterator over entries, handlers that panic, and tasks scheduled meanwhile; exact range of the iterator; removal on every path incl. recovered panics.','changes a panicking handler made before the panic stay (the code recovers without a cache context); noted, not claimed.'),
'V01':('Guards for every reason of refusal, exact store effect of a vote and a proposal.',''),
'V02':('The conditions on the paths to each decision are brought into linear form over the lengths of the lists (votes for, votes against, government) and compared with the form of "at least two thirds" and "everybody has voted", for the last vote and for the end of time.',''),
'V03':('For every constant of the proposal type: run of the carrying out with that type, effect compared with a table (which setter, which parameter field, which argument), frame: other fields as before; rejected: no effect.','the amount of numbers inside tables passed through as a whole is not examined.'),
'V04':('Call-graph who-may-write: parameter setters, government/staff/upgrade writers reachable from roots only through the carrying-out function (dominated by its acceptance).',''),
'V05':('Exact effects at the end of a voting (history record fields, deletions, removal of the task), and who-may-write.','the history key is the height of the block: two ends in one block would meet (a proposal cannot end twice in a block because a new one cannot be proposed and ended in it by the same votes except with a government of one; noted).'),
'V07':('ValidateBasic of the message is followed with proposals given in part (kind, one combination of values at a bound, the rest unknown); a table lists for every kind of decision the values out of bounds, for which no path to success may be left, and those within, for which one must be. Fractions are compared by the numbers they stand for, so the order and form of the checks do not matter.','Bounds are decided at the values next to them; checks of other modules\' parameters are G04.'),
'V06':('Guards, exact effects and comparison normal forms of the quorum as in V02.',''),
'D01':('Ledger on delegate/revoke/express revoke/payment, with shares (burn) as terms of the parameters; guards for minimal amount and over-revocation; denominations of delegation used nowhere else.',''),
'D02':('Record update compared with the one read: requests kept and one appended; the scheduled time equals the recorded one; payment loop over requests.','two requests stand for any number.'),
'D03':('On every path of every operation the pair (record\'s NextAccrue, schedule events) is compared: removed/kept/set a day ahead.',''),
'D04':('Interest terms: bases and bonuses per activity by hypotheses on each activity; order of accrual before change; the amount paid to the account, the fee and the beneficiaries\' shares as Laurent polynomials in rates, delegation, time left, day and missed part, compared with the formula.','roundings are left out of the comparison (where exactly integers are cut is not checked).'),
'R01':('Constant-bounded unrolling of the ten levels: every operation is run with a chain of twelve symbolic ancestors; per ancestor record the difference of each field is compared with what the operation must move (linear forms).','aliasing of ancestors is excluded by the tree shape (R02).'),
'R02':('Field-by-field comparison of the records of account, old and new referrer after each operation; nobody else writes links.','lists are compared as insert/remove of one element of sorted lists (whose implementation is an obligation of R06).'),
'R03':('Guards per reason of refusal; exact effects; payment before the record.','two known findings (timeouts left behind).'),
'R04':('Pairing of recorded deadlines and scheduled tasks on every path of all operations on records.',''),
'R05':('Requirement functions are decided as boolean combinations of comparisons of record fields for every status; the collector\'s update function is run with the statuses of requirements met/unmet.','coins thresholds are constants of the table in the code; monotone from status to status.'),
'R06':('The batch collector is run as a small abstract data type: sequences of set/get/update with equal and different keys, commit with two events and hooks.',''),
'R07':('All combinations of level (1–20), status class and two validators at once: the sum of shares and the level limits computed by constant propagation.','two validators above stand for any number (shares are differences of a running maximum).'),
'R08':('The getters are followed on a record whose totals are eleven unknowns each, for every status and every depth from 0 to 12; what they return, in linear normal form, must be the sum of exactly the unknowns of the open levels.',''),
'N01':('Guards, effect comparison of noding records and key index in all operations, staff/qualification as boolean form.','ties of `sort.Slice` are not a matter here.'),
'N02':('Counters as linear forms, ban/jail conditions as guards, BeginBlock loop order and failure independence.',''),
'N03':('Queue entries and numbers on records compared after each operation (store model with prefix).',''),
'N04':('Constant-size sets of up to three validators with all orders of scores: the update list is compared with the difference of the previous and the chosen set; power table by slices.','sizes 0–3 stand for all; the logarithm-like distribution in floating point is only required to be the same for equal scores and monotone.'),
'P01':('Index and record pairs compared on every path; refusals.',''),
'P02':('Prices as products (Laurent polynomials), split fee + company = price, grants exact.',''),
'P03':('As P02, plus times as linear forms (one month further) and tasks.',''),
'P04':('Pairing of recorded end and task, prolongation paths, failed payment has no effect.',''),
'P05':('Authorisation guards per signer list; frame of updates for each field constant.',''),
'P06':('Each path: activity before ≠ after ⇔ exactly one notification with the right value.',''),
'A01':('For every message type of every module: signer field is the field whose account is used by the server method (flow of the address), sign bytes contain every field, server method calls the operation with the message\'s fields.',''),
'A02':('For every message and field by its role (addresses found by flow into address parsing, amounts, lists): hypothesis "malformed" ⇒ no success exit of ValidateBasic. Nickname character classes are evaluated on constants.','the nickname classes tried are those the documentation lists.'),
'A03':('Tables: message → route → handler case → server method; error and result flow; amino/interface/servers registrations; uniqueness of names.',''),
'A04':('Every call with an error result in every function of the modules reachable from messages, tasks and blocks (and in keepers all functions that can answer with an error) gets a failing outcome, and so has every error made on the spot; each exit reached after it must be a failure, a panic, or one of the exceptions in the property (told in a log or event by the same error value).','closing iterators is not a failure to report; functions are looked at one by one (a failure is followed through calls by the obligation on each of them).'),
'E01':('Guards, exact stored value, boundary of two days as a linear comparison, four combinations of marks.',''),
'G01':('Reachability of non-deterministic sources from all consensus roots; loops over maps whose order can show in an ordered effect (taint of iteration order into writes, events, appended results not sorted after); sharing of keepers by value that would lose hooks.','floating point (noding\'s distribution) is deterministic on one architecture only; noted. `sort.Slice` with ties relies on the same library version.'),
'G02':('The leaves of every GenesisState are enumerated from the types; InitGenesis is run on a symbolic genesis and every leaf must reach a write, a parameter set or a call that does it (flags: a decision); ExportGenesis is run on a symbolic store and every leaf must be made of what was read. Per leaf, keys and record fields written on import and read on export must be the same.','values are compared by place, not bit by bit; records which have no field in the genesis (LotteryNo, MissedPart of delegations from before an upgrade) are outside.'),
'G03':('Tables over `app.go` and all modules (store keys, managers, orders, hooks, completeness of keepers before modules are built).',''),
'G04':('For each parameter of each module: key of its own, type check, bounds by hypothesis on the value (fractions compared as numbers with constants), both on setting and in genesis.','bounds are those that the code documents; table `paramBounds`.'),
'U01':('Functions on fractions interpreted with math/big numbers as Laurent polynomials over symbolic numerators and denominators; all sign combinations; memory of operands compared before/after.','gcd is a factor that divides both operands; its maximality is not needed.'),
'A05':('Operations are followed with the emission of events as an observed effect: on every successful path the number of events of a kind and each field in normal form are compared with the coins moved on the path, the record stored at its end, the item put into the history or the request. Profiles: three ages of subscription × three of IM storage; validators: all combinations of flags; referral: a chain with every account known; statuses (R05): all statuses and requirements met.','reasons in texts and the commission lists of events are not judged; what a wallet makes of the JSON neither.'),
'Q01':('A table gives for each of the 34 query methods the getter of the keeper, the fields of the request that must reach it and the fields of the answer that must be made of its result; each path is checked, also with the getter failing, finding nothing or panicking. Lists: the store iterator is modelled with five entries; page sizes and numbers are constants in a table. Earners: two accounts with and without marks.','very large page numbers overflow 32-bit products (known, of no consequence to the state).'),
}
