PROPS = []
NA = []

def P(id, title, statement, over, q, why, files, mech, observe, bounds):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files.split(),
                      mech=[tuple(m.split(' @ ')) for m in mech], observe=observe, bounds=bounds))

def N(id, title, statement, over, q, why, files, mech, observe, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files.split(),
                   mech=[tuple(m.split(' @ ')) for m in mech], observe=observe, reason=reason))

I, H = ['inputs'], ['inputs', 'histories']
SAMPLE = 'Tests try a handful of amounts and settings; '

P('F01', 'Fraction arithmetic is exact',
  'Adding, subtracting, multiplying, dividing and comparing fractions gives the exact rational result for all operands, and converting a fraction to an integer truncates toward zero. Operands are never changed by an operation.',
  I, 'all numerators in the int64 range, over a set of denominators including negative ones',
  SAMPLE + 'a rounding or sign slip shows only for particular operands.',
  'util/fraction.go', ['fraction arithmetic @ util/fraction.go'], ['results of the operations, operands afterwards'],
  'numerators any int64; denominators from a list of signs and sizes; one operation at a time.')
P('F02', 'Fractions survive every encoding',
  'A fraction written as text, JSON or protobuf reads back as the same number. Text that does not denote a number (such as one with a zero denominator) is rejected, and accepted text denotes exactly the number written in decimal notation.',
  I, 'all numerators and denominators of up to 18 digits, all short strings over the relevant characters',
  SAMPLE + 'leading zeros, zero denominators and percent forms are easily missed.',
  'util/fraction.go', ['text form @ util/fraction.go', 'protobuf form @ util/fraction.go'], ['parsed value, errors'],
  'numbers with a bounded number of digits, strings of bounded length.')
P('B01', 'The transaction fee is bounded and splits exactly',
  'The fee of a transfer is the largest amount that exceeds neither the configured share of the amount nor the configured limit and that splits among proposer, company and the rest without remainder. It is never negative and never more than the amount.',
  I + ['configurations'], 'all amounts and limits for several rates and split ratios',
  SAMPLE + 'remainders of the split depend on the amount and on the ratios together.',
  'util/fee.go x/bank/internal/keeper/keeper.go', ['fee calculation @ util/'], ['fee returned'],
  'amounts and limits up to 10^18; a list of rates and split ratios.')
P('B02', 'Transfers move exactly the amount and the fee',
  'A successful transfer takes the amount and its fee from the sender, gives the amount to the recipient and the fee to the collector; nobody else is affected and nobody goes below zero. A failed transfer changes nothing, and a funded one does not fail.',
  I + ['configurations'], 'all balances, amounts and fee limits; transfers between accounts, to oneself, between modules, with several parties',
  SAMPLE + 'boundary balances (exactly enough, one coin short) and self-transfers need all values.',
  'x/bank/internal/keeper/keeper.go x/bank/internal/keeper/send.go x/bank/handler.go', ['transfer with a fee @ x/bank/internal/keeper', 'handler @ x/bank/handler.go'], ['balances of all parties after the message'],
  'balances and amounts up to 10^15; up to 3 accounts; 4 fee configurations with any limit.')
P('B03', 'Only permitted transfers go through',
  'Coins are sent only in the main denomination, in at least the minimal amount, to an existing account, and never by an account on the list of blocked senders. The list holds exactly the accounts that have been added and not removed since.',
  H, 'all amounts and minimal amounts, denominations, recipients, and histories of list changes',
  SAMPLE + 'the conditions interact and the list has a history.',
  'x/bank/internal/keeper/keeper.go x/bank/handler.go x/bank/types/msgs.go', ['checks of the message @ x/bank', 'blocked senders @ x/bank/internal/keeper/keeper.go'], ['result of the message, list of blocked senders'],
  'amounts up to 10^15; 4 denominations, 4 recipients; 4 (quick) or 5 list changes over 3 accounts.')
P('B04', 'The recorded supply equals the sum of all balances',
  'For every denomination the recorded total supply equals the sum of all balances after transfers, burning, genesis import and fee collection. Burning destroys exactly the amount asked for, from the owner only.',
  I, 'all balances and amounts',
  SAMPLE + 'a missing supply update shows only in the sum over all accounts.',
  'x/bank/internal/keeper/keeper.go x/bank/internal/keeper/genesis.go', ['supply @ x/bank/internal/keeper'], ['supply and sum of balances'],
  'balances and amounts up to 10^15; up to 3 accounts; one operation from an arbitrary consistent state.')
P('S01', 'Every scheduled task runs exactly once, at its time, in order',
  'A task scheduled for a moment is performed exactly once, in the first block whose time is not earlier, in the order of time and then of scheduling, with the handler and data it was scheduled with. A task cancelled before its turn does not run, cancelling affects no other task, and tasks scheduled or cancelled by running tasks are treated the same.',
  ['schedules', 'histories'], 'all due times and block times within a span, all kinds and payloads of the cancelled task',
  'Tests schedule one or two tasks at convenient times; orders, coincidences and nested scheduling need all times.',
  'x/schedule/keeper/keeper.go x/schedule/abci.go', ['task store @ x/schedule/keeper/keeper.go', 'begin-block run @ x/schedule/abci.go'], ['log of performed tasks per block'],
  '3 (quick) or 4 tasks, times within 4..6 units of 1 ns or 1 s, 2 blocks plus a final one.')
P('S02', 'A failing scheduled task does not disturb the others',
  'When a scheduled task panics, fails or has no handler, all other tasks due in the block still run once and the failed one is not repeated. The day, week and month used for scheduling follow the configured length of the day.',
  ['schedules', 'fault_sequences'], 'all due times and positions of the failing tasks; all lengths of the day',
  'Tests do not mix failing and sound tasks at arbitrary times.',
  'x/schedule/keeper/keeper.go x/schedule/types/params.go', ['isolation of tasks @ x/schedule/keeper/keeper.go'], ['log of performed tasks, tasks left in the store'],
  '3 tasks within 4 moments, 4 kinds of failure; any day length accepted by validation.')
P('D01', 'Delegating exchanges coins one for one, less the fee',
  'Delegating an amount takes exactly this amount of spendable coins, collects the fee, and adds the rest to the delegation; the sum and the supply are preserved. It succeeds exactly when the amount is at least the minimum and is available, and interest starts in a day unless the delegation is dust.',
  I + ['configurations'], 'all balances, amounts, minimal amounts, dust limits, fee limits',
  SAMPLE + 'boundary amounts and fee rounding need all values.',
  'x/delegating/keeper/keeper.go x/delegating/keeper/msg_server.go', ['delegation @ x/delegating/keeper/keeper.go'], ['balances per denomination, collector, scheduled accrual'],
  'balances and amounts up to 10^15; 4 fee configurations with any limit.')
P('D02', 'Revoked coins return in full and on time',
  'Revoking an amount (not above the delegation) burns exactly the configured share and returns the rest after the configured period, in both the usual and the express mode. Every request is paid once, at its due time, whatever the order of requests; until then the pending requests add up to the frozen balance.',
  H + ['configurations'], 'all balances and amounts; sequences of usual and express requests; blocks at and around the due times',
  'Tests revoke once with a round amount; overlapping requests that come due out of order are not tried.',
  'x/delegating/keeper/keeper.go x/delegating/keeper/hooks.go', ['revocation @ x/delegating/keeper/keeper.go', 'payout @ x/delegating/keeper/hooks.go'], ['balances per denomination, pending requests'],
  'balances and amounts up to 10^15; 2 (quick) or 3 requests; 3 pairs of terms.')
P('D03', 'Interest is paid for exactly the time delegated',
  'A delegation above dust earns, every day, its amount times the monthly rate of its bracket and bonuses divided by thirty, rounded down; when the delegation changes within a day, the elapsed part of the day is paid and a new day begins. No stretch of time is paid twice or lost, also when blocks are late, and the supply grows by exactly the interest.',
  H + ['configurations', 'schedules'], 'all delegations, bracket boundaries, dust limits and fee limits; changes at several times of the day; late blocks',
  SAMPLE + 'partial days combined with changes of the delegation make many histories.',
  'x/delegating/keeper/keeper.go x/delegating/keeper/hooks.go', ['daily accrual @ x/delegating/keeper/hooks.go', 'partial accrual @ x/delegating/keeper/keeper.go'], ['balances, supply, scheduled accruals'],
  'amounts up to 10^15; 2 interest tables; 1 (quick) or 2 changes at 5 times of the day, then a daily accrual; up to 3 days of delay; fees on interest with 4 fee configurations.')
P('E01', 'Only listed signers report earners',
  'A report of service providers is accepted exactly when its sender is on the list of earning signers, and then it is recorded for every provider named. The list holds exactly the accounts added and not removed since.',
  ['histories', 'configurations'], 'all short histories of list changes, all senders',
  'Tests do not exercise who is allowed to report.',
  'x/earning/keeper/msg_server.go x/earning/keeper/params.go', ['report @ x/earning/keeper/msg_server.go', 'signer list @ x/earning/keeper/params.go'], ['result of the message, activity of the provider'],
  '3 (quick) or 4 list changes over 4 accounts, then one report.')
P('E02', 'A provider counts as active for two days after a report',
  'A provider counts as a VPN or storage earner exactly until two days after the last time reported for that kind, independently for both kinds and for every provider. Asking does not change the answer.',
  H, 'all report times and block times within a span',
  SAMPLE + 'the boundary moment and the removal of outdated records depend on exact times.',
  'x/earning/keeper/keeper.go', ['activity @ x/earning/keeper/keeper.go'], ['activity flags at block times'],
  'report times within 4 days around the start, two questions at any times within 16 days.')
RF = 'x/referral/keeper/keeper.go x/referral/keeper/bunch_updater.go x/referral/keeper/status_checks.go'
P('R01', 'The records of the referral tree agree with the tree',
  'At every time, the referrals listed by an account are exactly the accounts that name it as their referrer, and for each of its ten levels the recorded coins, delegated coins and active accounts are exactly those of the accounts at this level. This holds after registration, activation, changes of balances, compression, transition and banishing.',
  H, 'all balances, all places in a tree deeper than ten levels, all short histories of operations over a small tree',
  'Tests look at a few records of one tree; sums over ten levels go wrong only at particular depths and orders.',
  RF, ['sums per level @ x/referral/keeper/bunch_updater.go', 'changes of the tree @ x/referral/keeper/keeper.go'], ['records of all accounts against sums computed from the tree'],
  'chains of 13, a chain of 14 with a branch of 2, each with one operation; 2 (quick) or 3 operations in any order over 6 accounts; balances up to 10^15 per account.')
P('R02', 'A status is given when earned and taken two days after it is lost',
  'The status of an account is the highest one in a row whose published requirements its network meets, given at once. When the requirements stop being met, the status is lost one step at a time, two days after, and not at all when they are met again before that. The list of accounts by status always names an account under its status and nowhere else.',
  H + ['schedules'], 'all sizes of networks at all levels, delegated coins, and times of the checks',
  SAMPLE + 'requirements combine several thresholds, and the two days are a matter of exact times.',
  RF, ['requirements @ x/referral/keeper/status_checks.go', 'downgrade @ x/referral/keeper/keeper.go'], ['status, pending downgrade, list by status'],
  '3 (quick) or 4 active referrals with networks of up to 700 at each of 2 levels; two changes and a downgrade.')
P('R03', 'Accounts move within the tree by consent only',
  'A transition is requested by the account itself, to an existing account outside of its own network that is neither banished nor out of the referral, for the price, which is paid once to the fees. It takes place exactly when its current referrer approves it within a day; when declined or left without an answer for a day it is void. Nobody else is moved.',
  ['histories', 'schedules', 'inputs'], 'all pairs of accounts and destinations, balances and prices, signers, times of the answer',
  'Tests try single moves; loops, self-references, outdated and repeated requests need all combinations.',
  'x/referral/keeper/keeper.go x/referral/keeper/msg_server.go x/referral/types/msgs.go', ['transition @ x/referral/keeper/keeper.go'], ['referrers of all accounts, balances, pending requests'],
  'a tree of 7 with another of 2; one request and one answer, or two requests in a row, at any times within two days.')
P('R04', 'An account is compressed after two months of inactivity',
  'When an account has been inactive for two months, its referrals pass to its referrer and it loses its network and its status; before that, or when it becomes active in time, it keeps them. An account that was never activated is treated the same from its registration on, and can register others for a month only.',
  ['schedules', 'histories'], 'all times of activation and inactivity',
  'The deadline is a matter of exact times, and activity may change several times.',
  RF, ['compression @ x/referral/keeper/keeper.go'], ['referrals, status, announced time of compression'],
  '2 stretches of inactivity of any lengths up to 130 days, a tree of 6.')
P('R05', 'Compressed accounts that do not delegate are banished',
  'An account that is compressed again, not delegating more than dust and without referrals, is banished a month after; becoming active, delegating or getting a referral meanwhile averts it. A banished account is out of the tree and cannot register others. When it pays its tariff or delegates it comes back under the nearest former ancestor that accepts referrals.',
  ['schedules', 'histories'], 'all times, amounts delegated and kinds of changes meanwhile; all sets of ancestors banished',
  'Tests cover one such history; the moments and the amounts around the limit are not tried.',
  RF, ['banishing @ x/referral/keeper/keeper.go'], ['who is banished and when, referrers'],
  '1 (quick) or 2 changes between compression and banishing; up to 3 ancestors in any state.')
NO = 'x/noding/keeper/keeper.go x/noding/keeper/msg_server.go x/noding/abci.go'
P('N01', 'Only qualified accounts are validators',
  'An account can switch a validator on exactly when its status, its own delegation and the delegation of its network reach what is required, or it is on the staff list; not when banned for life. A validator that stops qualifying is switched off at once, whatever made it so. The staff list holds exactly the accounts added and not removed since.',
  H + ['configurations'], 'all stakes, requirements, statuses and kinds of events that change them',
  'Tests try one threshold; the ways to fall below a requirement are many.',
  NO + ' x/noding/types/data.go', ['qualification @ x/noding/keeper/keeper.go', 'stake and status callbacks @ x/noding/keeper/keeper.go'], ['records of validators, results of messages'],
  'stakes and requirements up to 10^15; one event of each kind (revocation, transition of or banishing within the network, downgrade, staff changes) after switching on.')
P('N02', 'Jailing follows the votes, and a second double signing bans for life',
  'A validator that misses the configured number of blocks in a row is jailed, which takes it out of the validator set for at least the configured number of blocks; then it can be released by its own request, and is a validator again if it qualifies still. Counters follow the votes exactly. The second proof of double signing bans the account for life.',
  H + ['configurations', 'fault_sequences'], 'all values of the counters and settings, all patterns of votes and proofs',
  'Tests follow one path through jail; counters and limits have many boundary values.',
  NO, ['votes @ x/noding/keeper/keeper.go', 'jail @ x/noding/keeper/keeper.go'], ['records of validators, updates of the validator set'],
  'one block from any state of the counters; 4 (quick) or 6 blocks signed or missed, then a release at any time; 3 (quick) or 4 proofs over 3 accounts.')
P('N03', 'The consensus engine is told of exactly the right validators',
  'After every block, the validator set kept by the consensus engine consists of the validators that are switched on and not jailed: the best ones up to the configured number, then the first ones of the lottery queue. Updates never repeat a key, never remove an unknown one, and powers are those recorded. No key ever serves two validators.',
  ['histories', 'schedules'], 'all scores and all short histories of switching on and off, changing keys, missing blocks, jail and release',
  'The set is the result of everything that happened before; coincidences within one block are not tried by tests.',
  NO, ['updates of the set @ x/noding/keeper/keeper.go', 'lottery @ x/noding/keeper/keeper.go'], ['validator updates folded as the engine does, records of validators'],
  '2 (quick) or 3 accounts and 2 keys with 2 blocks of changes; a lottery of up to 4 accounts over 2 (quick) or more blocks; all scores.')
P('N04', 'The proposer of a block gets its fees, once',
  'Collected fees go to the proposer of the block, in full; of the split fees, the proposer and the company each get the configured share and the rest is burned. Nothing stays with the collectors, nothing is paid twice, and the block is counted for its proposer only.',
  I + ['configurations'], 'all amounts of collected fees, balances and ratios of the list',
  SAMPLE + 'remainders and the case of the company being the proposer are not tried.',
  NO, ['reward @ x/noding/keeper/keeper.go'], ['balances, supply, counts of blocks'],
  'amounts up to 10^15; 4 split ratios; 2 blocks.')
VO = 'x/voting/keeper/keeper.go x/voting/keeper/government.go x/voting/keeper/msg_server.go'
P('V01', 'Proposals are decided by two thirds of the government',
  'Only governors propose and vote, one proposal at a time, nobody votes twice, and the author votes in favour. A proposal ends when all governors have voted or its time is over; it is accepted exactly when all have voted and at least two thirds agree. Nothing changes before the end. Every proposal leaves one record in the history, with its votes.',
  H + ['schedules'], 'all governments up to the bound, all votes, moments and lengths of the voting period',
  'Tests follow single votings; sizes around two thirds, endings by time and several votings in a block are not tried together.',
  VO, ['voting @ x/voting/keeper/keeper.go'], ['current proposal, parameter voted on, history, results of messages'],
  'governments of 1 to 4 (quick) or 6 members, every combination of votes and abstentions, any voting period, two proposals in a row within a block or not.')
P('V02', 'An accepted proposal changes exactly what it says',
  'When the last vote makes a proposal accepted, the parameter or list named by its type becomes what the proposal says, and no other setting changes. Lists hold exactly the accounts added and not removed since, without repetitions. A proposal whose value is inadmissible changes nothing, and the last vote can be cast all the same. A general amnesty clears missed blocks and jail counters and neither releases nor unbans anybody.',
  H + ['configurations'], 'all values of every kind of proposal, all short histories of list changes',
  'There are some thirty kinds of proposals, and tests apply few, none with values outside what the parameter admits.',
  VO + ' x/profile/keeper/params.go x/earning/keeper/params.go x/bank/internal/keeper/params.go x/noding/keeper/keeper.go', ['application @ x/voting/keeper/keeper.go', 'lists @ x/profile/keeper/params.go'], ['parameters of all modules, lists, planned upgrade, records of validators'],
  'one proposal of each kind with any value; 3 (quick) or 4 changes of each list over 4 accounts; 3 validators in any of 4 states for the amnesty.')
P('V03', 'Polls count the answers of those entitled, once each',
  'Only governors start polls, one at a time. While a poll lasts, exactly the accounts that meet its requirements (none, a minimal status, being qualified for a validator) can answer, once each. At its time it ends: the numbers of answers are recorded; with a quorum the decision is positive exactly when somebody agrees and the share of those who agree reaches the quorum. Nothing of a poll remains for the next one.',
  H + ['configurations', 'schedules'], 'all numbers of answers and quorums, all stakes, statuses and poll periods',
  'Tests use a few answers and one quorum; the boundary of the quorum and of the requirements depends on all numbers together.',
  VO, ['polls @ x/voting/keeper/keeper.go'], ['current poll, answers, counts, history, results of messages'],
  'counts up to 10^12 and quorums with denominators up to 100; 3 (quick) or 5 respondents with any stake and 3 statuses; 1 (quick) or 2 polls followed by another.')
PR = 'x/profile/keeper/keeper.go x/profile/keeper/subscription.go x/profile/keeper/msg_server.go x/profile/types/msgs.go x/profile/types/types.go'
P('P01', 'A nickname and a card number belong to one account each',
  'Exactly proper nicknames (at least 3 characters, none forbidden, not like a card number, in any case) that nobody else has in any case are accepted, on registration and on renaming. A nickname leads to its holder and to nobody else, at once after a change; names given up are free. A new name costs the rename fee. Card numbers are different and lead to their holders, whatever the creator asks for.',
  H, 'all nicknames over ASCII of the lengths of the bound, all requested card numbers',
  'Tests try a few names; case, blanks at the ends and traces of earlier names need all of them.',
  PR, ['nickname and card indexes @ x/profile/keeper/keeper.go', 'stateless checks @ x/profile/types/msgs.go'], ['results of messages, lookups by nickname and card number, balances'],
  '2 accounts; names: none, any 3 (thorough: 3 or 4) ASCII bytes, ARTR-x in any case; 2 renames; not outside ASCII.')
P('P02', 'A new account gets what its creator may give',
  'An account is registered exactly when the address is new, the referrer exists and the creator can pay the price (or is on the list of those who need not). The creator pays that price, once; the account is placed under its referrer with the flags asked for, inactive, with nothing that has to be paid for.',
  I + ['configurations'], 'all prices, balances and contents of the profile',
  'Tests do not send profiles with limits or dates that have not been paid for.',
  PR, ['registration @ x/profile/keeper/msg_server.go'], ['profile, referral record and balances after the message'],
  'price up to 10^12, balance up to 2*10^12; 4 referrers; one registration.')
P('P03', 'Activity lasts as long as it is paid for',
  'Paying the tariff costs the subscription and the extra storage at the current rate, counted for the month to come and the rest of the month paid for; it is refused, changing nothing, when it cannot be paid or the storage is less than used or included. It prolongs activity by exactly a month, from the end of activity or from now. With automatic payments the tariff is paid when activity ends, once a month, as long as there is money. Otherwise activity ends at that moment. Each month traffic is counted anew, and what was bought is kept until it is used.',
  H + ['configurations', 'schedules'], 'all amounts of storage, balances, fees and prices; histories of months',
  'Tests pay a few tariffs at default prices; overflows, boundaries of balances and sequences of months need all values.',
  PR, ['tariff @ x/profile/keeper/subscription.go', 'monthly hook @ x/profile/keeper/subscription.go'], ['profile, activity, balances after payments and months'],
  'rates 1, 1234567 and thousandths of them (thorough: any up to 10^6); subscription up to 2^32; storage price 10 and 2^32-1; 4 states and 3 remaining times; 4 months with up to 3 payments in advance.')
P('P04', 'Resources are granted exactly when paid for',
  'Storage, traffic and messaging space are bought at the current prices, in proportion to the time left; exactly what is paid for is granted, and a refused purchase takes and changes nothing. Storage in use or included in the tariff cannot be given up, and giving up is free. Messaging space lasts a month and is prolonged by request or automatically, paid once; when an automatic payment fails nothing is taken and the space ends.',
  H + ['configurations', 'schedules'], 'all amounts, limits, balances and fees; short histories of messaging space',
  'Tests buy a few amounts at default prices; boundaries, failed automatic payments and combinations over time need all values.',
  PR, ['purchases @ x/profile/keeper/subscription.go', 'messaging hook @ x/profile/keeper/subscription.go'], ['profile and balances after the messages and months'],
  'rates and prices as for P03; limits up to 2^62; 3 remaining times; 3 (quick) or 4 operations on messaging space.')
P('P05', 'Consumption and the rate are set by their signers only',
  'The reported use of storage and traffic and the token rate are changed exactly by messages of accounts on the list kept for each, to exactly the value reported; every other message is refused and changes nothing.',
  I + ['configurations'], 'all values, lists of up to 3 signers, senders and subjects',
  'Tests use one signer and one value.',
  PR, ['signers @ x/profile/keeper/msg_server.go'], ['profile and parameters after the message'],
  'values up to 2^63; rates with numerators up to 2^60 in absolute value and 3 denominators.')
P('G01', 'A chain restarted from its exported state goes on as before',
  'The state of a running chain can be exported at any time; the export is found valid, and a new chain started from it has the same data: balances, the network, scheduled tasks, delegation and revocation, profiles, proposals and polls with their votes, lists and parameters, and nodes with their history and keys. As many validators as before take part in the consensus (places in the queue of the validator lottery start over).',
  I + ['histories', 'configurations'], 'states with any values, built by short histories of operations of each module',
  'Tests export next to nothing; a field forgotten in an export, or a state an import refuses, shows only in the states that have it.',
  'app/export.go x/bank/types/genesis.go x/bank/internal/keeper/genesis.go x/delegating/genesis.go x/earning/genesis.go x/noding/genesis.go x/profile/genesis.go x/referral/genesis.go x/schedule/genesis.go x/voting/genesis.go x/noding/types/genesis.go x/voting/types/genesis.go',
  ['export and import @ x/*/genesis.go', 'validation @ x/*/types/genesis.go'], ['the stores of all modules, key by key; node records and validator updates'],
  'up to 6 accounts, one module at a time beyond the basic state: 3 tasks, 3 proposals, 2 polls, 2 requests to revoke, 4 months in a network of 5, 2 profiles, 3 nodes; JSON is modelled as faithful but for absent lists that read back as empty ones.')
P('R06', 'Active validators share in the interest of those below them',
  'Whenever interest is paid, the active validators among the 20 accounts above the delegator are paid a share of the delegation according to their status and distance (1 per mille a month from Master, 4 lines, to 6 per mille from Absolute champion, 20 lines), each less the largest share due to a validator between, in proportion to the time; nobody else gets anything and the delegator gets no less for it. A validator is active unless it is off, jailed, banned or was jailed lately.',
  I + ['configurations'], 'all statuses and times of jail, all delegations and parts of a day; pairs of validators at the boundary distances',
  'Tests use one or two validators; the boundaries of distance and status combine with the validators between.',
  'x/referral/keeper/keeper.go x/delegating/keeper/keeper.go x/delegating/keeper/hooks.go x/noding/keeper/keeper.go', ['shares of validators @ x/referral/keeper/keeper.go', 'payment @ x/delegating/keeper/keeper.go'], ['shares; balances and supply after an accrual'],
  '21 ancestors of which up to 2 (thorough: 3) are validators at 13 distances; payments with 6 ancestors, 4 statuses, delegations up to 10^12, days and 2 parts of a day.')
