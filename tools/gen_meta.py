#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOVC = "contracts/enterprise-governance-controller/src/contract.rs"
GOVV = "contracts/enterprise-governance-controller/src/validate.rs"
PE = "packages/poll-engine/src"
H = ["histories", "schedules", "inputs", "fault_sequences"]
HC = H + ["configurations"]
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

prop("G01", "The tally of a proposal is the sum of its current votes",
 "At every moment the result a proposal shows for each option is exactly the sum of the voting weights of the members whose latest vote is for that option. A member is counted at most once per proposal: voting again replaces the earlier vote entirely, and nothing but votes and changes of the voter's own weight moves the result.",
 H, "every history of votes, repeated votes, weight changes, executions and failed transactions, over any number of open proposals and voters",
 "Unit tests cast one or two votes on one poll; the sum must hold after any interleaving of re-votes and weight updates over several open polls.",
 [f"{PE}/execute.rs", f"{PE}/state.rs", GOVC],
 [("vote replaces the previous vote in the tally", f"{PE}/execute.rs cast_vote/update_votes"), ("weight updates of open polls", GOVC + " weights_changed")],
 [("votes", "vote of each voter per poll", f"{PE}/state.rs"), ("poll results", "accumulated result per option", f"{PE}/state.rs")],
 ["proposal query (results)", "proposal votes query"])
prop("G02", "A proposal's outcome follows from quorum, threshold and veto alone",
 "Once voting is over a proposal passes exactly when the votes cast reach the quorum share of the total voting weight at the end of voting, the veto share of non-abstaining votes stays below the veto threshold, the yes share reaches the threshold and yes outweighs no; otherwise it is rejected. The status shown, the result of executing it and whether its actions run all agree with that rule, using the rules in force when it was created.",
 HC, "every vote distribution, weight history, quorum, threshold and veto setting (or none), at every moment before, at and after the end of voting",
 "The tests evaluate a few fixed vote counts on a mock poll; the rule has to hold with totals taken from real weight histories and at the exact end instant.",
 [f"{PE}/execute.rs", "packages/poll-engine-api/src/api.rs", GOVC],
 [("outcome computation", f"{PE}/execute.rs end_poll, {PE}/state.rs"), ("total weight at the end of voting", GOVC + " total_available_votes")],
 [("poll", "quorum, threshold, veto threshold and results", f"{PE}/state.rs")],
 ["proposal query (status)", "execution of a proposal: which effects appear"])
prop("G03", "Votes count only inside the voting window and only from members",
 "A vote is accepted only for an existing proposal, from its creation until before its end time, which is fixed at creation as creation time plus the voting duration then in force. It is accepted only from accounts with voting weight greater than zero in the body that decides the proposal (the members, or the council for council proposals), and it weighs exactly that weight.",
 H, "every vote attempt at every instant around the end of voting, by members, former members, council members and strangers",
 "Tests vote once inside an open poll; the boundary instants, re-votes after the weight dropped to zero and votes across proposal kinds are not sampled.",
 [GOVC, f"{PE}/execute.rs"],
 [("member weight lookup before voting", GOVC + " cast_vote"), ("poll end check", f"{PE}/execute.rs")],
 [("poll.ends_at", "end of voting", f"{PE}/state.rs")],
 ["cast vote / cast council vote", "proposal query (expires, results)", "member vote query"])
prop("G04", "A proposal is executed at most once, and its actions happen all or not at all",
 "Every proposal can be executed at most once, also when the execution is repeated, duplicated, nested inside itself or was aborted before. If it passed, either all of its actions take effect in order, or, when any of them fails, none does while the proposal still counts as executed; if it did not pass, none of its actions takes effect. A transaction that fails leaves everything as it was.",
 H, "every history with repeated, reordered and re-entrant executions, and a failure or abort at any message of the execution",
 "Tests never execute proposals end to end and inject no failing message; atomicity must hold for a failure at every position.",
 [GOVC],
 [("execution state saved before actions run", GOVC + " execute_proposal/end_proposal"), ("actions run in one sub-message whose failure is caught", GOVC + " reply EXECUTE_PROPOSAL_ACTIONS_REPLY_ID")],
 [("proposal executed at", "whether and when a proposal was executed", "contracts/enterprise-governance-controller/src/state.rs")],
 ["execute proposal", "proposal query", "state of every component afterwards"])
prop("G05", "Early execution is only possible where allowed and after its delay",
 "Before its end a proposal can only be executed when early execution is allowed (always for council proposals), and only if it is already decided by quorum and threshold or veto. After every vote that makes the outcome of such a proposal change to a new decided outcome, execution is held back for the prescribed delay, counted from that vote; a held-back proposal cannot be executed earlier by anyone.",
 H, "every vote sequence that turns the outcome back and forth, with execution attempts at every instant around the delay's end",
 "Needs vote histories that flip the outcome plus clock positions around the delay; no test drives that.",
 [GOVC],
 [("earliest execution time recorded on outcome change", GOVC + " cast_vote"), ("check at execution", GOVC + " execute_proposal")],
 [("earliest execution", "per-proposal earliest execution time", "contracts/enterprise-governance-controller/src/state.rs")],
 ["execute proposal before the end of voting", "proposal query (status in_progress_can_execute_early)"])
prop("G06", "Proposal deposits are held and paid out exactly once, to the right party",
 "Where a minimum deposit is set, a proposal is only accepted with at least that deposit in the DAO's own asset, and the deposit then stays in the DAO's custody until the proposal is executed. On execution it goes exactly once and in full: to the treasury if the proposal failed for lack of quorum or was vetoed, otherwise back to the deposit's owner. No deposit is ever paid twice, to somebody else, or out of another proposal's deposit.",
 HC, "every history of proposals with coin, token and NFT deposits, with repeated and failing executions",
 "There is no test of deposits across several proposals and outcomes.",
 [GOVC, GOVV, "contracts/enterprise-governance-controller/src/proposals.rs"],
 [("deposit recorded with the proposal", GOVC + " create_proposal"), ("deposit returned at the end", GOVC + " end_proposal / return_proposal_deposit_submsgs")],
 [("proposal deposit", "depositor, asset and amount", "contracts/enterprise-governance-controller/src/state.rs"), ("total deposits", "sum of open deposits", "contracts/enterprise-governance-controller/src/state.rs")],
 ["balances of controller, treasury and deposit owner"])
prop("G07", "Only well-formed proposals from entitled proposers come into being",
 "A proposal is created only by an account with voting weight, or one that pays the minimum deposit where one is set; council proposals only by council members. Proposals with invalid content (too many actions, invalid addresses, conflicting whitelist edits, governance settings outside their limits, unparseable messages, actions that do not apply to this kind of DAO, upgrades backwards) are refused and leave no trace, and every accepted proposal gets the next number and keeps its type, proposer, actions and end time unchanged.",
 HC, "every proposer and every list of actions, valid or not, in every DAO kind",
 "Tests cover single validators; the quantifier is over all combinations of proposer standing, DAO kind and action lists.",
 [GOVC, GOVV],
 [("proposal validation", GOVV), ("proposer entitlement", GOVC + " create_proposal")],
 [("proposal infos", "type, actions and deposit of each proposal", "contracts/enterprise-governance-controller/src/state.rs")],
 ["create proposal / create council proposal", "proposal query"])
prop("C01", "The council decides only permitted council proposals, by its own votes",
 "Council proposals can only be made and voted on by current council members, each with one vote, may only contain the action types the council is permitted, and are decided by the council's own quorum and threshold. General members without a council seat cannot influence them, council seats give no weight in general proposals, and the council's composition and permissions change only through an executed general proposal.",
 HC, "every mix of council and general proposals with overlapping membership and council changes in between",
 "No test runs council and general proposals side by side.",
 [GOVC, GOVV, "packages/multisig-membership-impl/src/execute.rs"],
 [("allowed action types", GOVV + " validate_allowed_council_proposal_types"), ("separate council membership", GOVC + " create_council_proposal/cast_council_vote")],
 [("council gov config", "quorum, threshold, allowed types", "contracts/enterprise-governance-controller/src/state.rs"), ("council membership", "one seat per member", "council membership contract")],
 ["council proposal creation, votes and execution"])
prop("A01", "Privileged operations work only for the component or role entitled to them",
 "Every state-changing operation that is reserved to a component or role (the DAO's controller, the factory, the treasury's admin, the membership contract, the registry's admin, the contract itself) is refused for every other caller, whatever its arguments, and a refused call changes nothing. The entitled caller is not refused.",
 ["histories", "inputs", "configurations"], "every privileged message of every component, from users, council members, other components and unrelated contracts, at every stage of a DAO's life",
 "Tests check isolated calls with a mocked sender; the matrix of caller and operation in a wired DAO is not covered.",
 ["contracts/enterprise/src/contract.rs", "contracts/enterprise-treasury/src/contract.rs", "contracts/funds-distributor/src/contract.rs", "packages/membership-common/src/validate.rs", GOVC, "contracts/enterprise-governance/src/contract.rs", "contracts/enterprise-versioning/src/contract.rs", "contracts/enterprise-factory/src/contract.rs"],
 [("caller checks", "packages/membership-common/src/validate.rs enterprise_governance_controller_only; contracts/enterprise/src/validate.rs; contracts/enterprise-treasury/src/validate.rs")],
 [("component contracts", "who is who in a DAO", "contracts/enterprise/src/state.rs")],
 ["every execute entry point"])
prop("S01", "Staked and unstaking assets are always fully held by the staking contract",
 "At every moment the coins, tokens or NFTs held by a DAO's staking contract cover exactly what its members have staked plus what they have unstaked and not yet claimed (plus anything donated). Only the DAO's own asset is accepted as a stake, each stake is credited in full to the account named, and nobody can unstake more than, or NFTs other than, their own stake.",
 H, "every history of stakes (also on behalf of others and in bulk), partial unstakes, claims, foreign assets and failing transfers",
 "Conservation has to hold over every history; tests look at one stake or unstake at a time.",
 ["packages/token-staking-impl/src/execute.rs", "packages/denom-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs"],
 [("stake bookkeeping", "packages/*-staking-impl/src/execute.rs stake/unstake/claim")],
 [("member weights, claims, NFT stakes", "what is owed to members", "packages/membership-common/src, packages/*-staking-impl/src")],
 ["balances of the staking contract", "user weight, claims and NFT stake queries"])
prop("S02", "Unstaked assets are claimable once unlocked, exactly once, by their owner",
 "Unstaking creates a claim of exactly the unstaked amount or NFTs for the member, releasable when the unlocking period in force at that moment has passed, by time or by height, and not before. Claiming pays out all of the caller's releasable claims and nothing else, each exactly once; claims that are not yet releasable and other members' claims stay untouched.",
 H, "every history of unstakes and claims, changes of the unlocking period, and claim attempts at every instant and height around release",
 "Boundary instants and interleavings of several claims per user are not sampled by the tests.",
 ["packages/token-staking-impl/src/claims.rs", "packages/denom-staking-impl/src/claims.rs", "packages/nft-staking-impl/src/claims.rs"],
 [("release time computed at unstake", "packages/*-staking-impl/src/execute.rs unstake"), ("releasable claims filter and removal", "packages/*-staking-impl/src/claims.rs")],
 [("claims", "id, user, amount or NFTs, release moment", "packages/*-staking-impl/src/claims.rs")],
 ["claims and releasable claims queries", "balances"])
prop("M01", "The total voting weight is the sum of the members' weights, now and in the past",
 "The total weight a membership reports always equals the sum of the weights of its members, whatever stakes, unstakes, membership edits and replacements happened, and a member's weight is exactly what was staked or assigned. The total for a past height or time is the total that was in force then and is never altered afterwards.",
 H, "every history of weight changes, several per block or none, and every past height and time queried later",
 "Historical totals are sampled by a few tests on a single item; the guarantee is over all histories and all query points.",
 ["packages/membership-common/src/total_weight.rs", "packages/membership-common/src/member_weights.rs", "packages/multisig-membership-impl/src/execute.rs"],
 [("total weight snapshots by height and by second", "packages/membership-common/src/total_weight.rs"), ("increment/decrement of weights", "packages/membership-common/src/member_weights.rs")],
 [("total weight", "current and historical totals", "packages/membership-common/src/total_weight.rs")],
 ["total weight query (now, at height, at time)", "members and user weight queries"])
prop("M02", "Every weight change reaches open votes and the reward weights at once",
 "Whenever a member's weight changes, by staking, unstaking, or an edit or replacement of the membership, the amount of that member's votes on all open general proposals and the member's weight for rewards change to the new weight in the same transaction. Proposals whose voting is over and other members are unaffected.",
 H, "every order of votes, weight changes, distributions and proposal ends, including weights going to zero and members being removed",
 "Cross-contract propagation is not exercised by unit tests, which mock the other contracts.",
 ["packages/membership-common/src/weight_change_hooks.rs", GOVC, "contracts/funds-distributor/src/user_weights.rs", f"{PE}/execute.rs"],
 [("weight change hooks", "packages/membership-common/src/weight_change_hooks.rs"), ("controller forwards to polls and distributor", GOVC + " weights_changed")],
 [("votes", "amount per vote", f"{PE}/state.rs"), ("reward weights", "weight per user in the distributor", "contracts/funds-distributor/src/state.rs")],
 ["proposal votes query", "user rewards query after a distribution"])
prop("D01", "Rewards are split by weight, are always covered, and are paid exactly once",
 "Each distribution of an asset is split among the members in proportion to the weights they have at that moment, up to rounding down, and later weight changes, other distributions and claims by others never change what a member has already earned. A claim pays exactly the caller's unclaimed reward of the requested assets and leaves nothing to claim again, so the distributor always holds enough for all unclaimed rewards.",
 H, "every interleaving of distributions of several assets, weight changes and claims (repeated, partial, duplicated, failing)",
 "Fairness and solvency are sums over whole histories; the existing tests follow two users through one distribution.",
 ["contracts/funds-distributor/src/rewards.rs", "contracts/funds-distributor/src/claim.rs", "contracts/funds-distributor/src/distributing.rs", "contracts/funds-distributor/src/user_weights.rs"],
 [("global index per asset", "contracts/funds-distributor/src/distributing.rs"), ("user index and pending rewards", "contracts/funds-distributor/src/rewards.rs")],
 [("indices and pending rewards", "per asset and user", "contracts/funds-distributor/src/state.rs")],
 ["user rewards query", "balances after claims"])
prop("D02", "Members below the minimum weight earn nothing; changing it is not retroactive",
 "A member earns from a distribution exactly if their weight at that moment is at least the minimum then in force, and then with their whole weight; members below it earn nothing and dilute nobody. Changing the minimum affects only later distributions: rewards earned before stay claimable in full, and nothing is earned for the past.",
 H, "every sequence of minimum changes up and down, weight changes across the minimum, distributions and claims",
 "Needs members crossing the minimum in both ways between distributions of several assets.",
 ["contracts/funds-distributor/src/eligibility.rs", "contracts/funds-distributor/src/user_weights.rs"],
 [("effective weights", "contracts/funds-distributor/src/eligibility.rs"), ("settling rewards when the minimum changes", "contracts/funds-distributor/src/eligibility.rs")],
 [("minimum eligible weight, effective weights, effective total", "who earns with how much", "contracts/funds-distributor/src/state.rs")],
 ["user rewards query", "minimum weight query"])
prop("D03", "Only whitelisted assets can be distributed as rewards",
 "A distribution is accepted only if every asset in it is on the DAO's treasury whitelist or on the global whitelist at that moment; otherwise it is refused as a whole and the funds stay with the sender. What is accepted is credited in exactly the amount received.",
 H, "every list of coins and tokens (mixed, unknown, just removed or just added) and every whitelist history",
 "Depends on the whitelist of another contract at the moment of the call; tests use fixed whitelists.",
 ["contracts/funds-distributor/src/distributing.rs", "contracts/enterprise-treasury/src/asset_whitelist.rs", "contracts/enterprise-factory/src/contract.rs"],
 [("whitelist check", "contracts/funds-distributor/src/distributing.rs")],
 [("asset whitelist", "of the treasury, and the global one of the factory", "contracts/enterprise-treasury/src/asset_whitelist.rs")],
 ["distribute native / distribute cw20", "balances and rewards"])
prop("R01", "Where an attestation is required, those who did not sign cannot take part",
 "While a DAO requires an attestation, accounts that have not signed the one currently in force cannot be staked for, propose, vote, execute proposals or claim rewards; everyone who signed can. Replacing the attestation voids earlier signatures and removing it lifts the restriction; leaving (unstaking and claiming one's stake) is never restricted.",
 H, "every order of signing, setting, replacing and removing the attestation and of every participant operation",
 "Restriction is checked across contracts at call time; tests mock the answer.",
 ["contracts/enterprise/src/contract.rs", "contracts/attestation/src/contract.rs", "packages/membership-common/src/validate.rs", GOVC, "contracts/funds-distributor/src/claim.rs"],
 [("restricted user check", "contracts/enterprise/src/contract.rs query_is_restricted_user; validate_user_not_restricted")],
 [("signatures", "who signed", "contracts/attestation/src/state.rs"), ("attestation contract", "the one in force", "contracts/enterprise/src/state.rs")],
 ["every participant operation", "is restricted user query"])
prop("T01", "Nothing leaves the treasury except by an executed, passed proposal",
 "Coins, tokens and NFTs leave the DAO's treasury, and its whitelists and its controlling address change, only as effects of an executed proposal that passed and contains them, with exactly the amounts, assets and recipients of its actions. All other calls, by anyone and at any time, leave the treasury untouched, except that it can always receive.",
 H, "every history of proposals with treasury actions, failing ones included, and of direct calls by users and contracts",
 "The treasury's tests mock its admin; the path from votes to outflow is not tested.",
 ["contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise-treasury/src/validate.rs", GOVC],
 [("admin check", "contracts/enterprise-treasury/src/validate.rs admin_only"), ("treasury actions of proposals", GOVC + " spend_treasury/execute_treasury_msgs/distribute_funds")],
 [("admin", "who controls the treasury", "contracts/enterprise-treasury/src/state.rs"), ("asset and NFT whitelist", "what the treasury shows", "contracts/enterprise-treasury/src/asset_whitelist.rs")],
 ["balances of the treasury", "config and whitelist queries"])
prop("P01", "Governance settings change only by a passed proposal and within their limits",
 "A DAO's governance settings (quorum, threshold, veto threshold, voting duration, minimum deposit, early execution, unlocking period) change only as the effect of an executed proposal, exactly the named fields to exactly the named values, and running proposals keep the rules they started with. Settings outside their limits (shares not in (0,1], zero duration, an unlocking period newly set shorter than the voting duration, a deposit in a DAO without a stakeable asset) are never put in force.",
 HC, "every sequence of partial changes, also of several in one proposal, and every DAO kind",
 "Validation at creation, at proposal time and at execution time has to agree over sequences of partial edits.",
 [GOVC, GOVV],
 [("validation of changes", GOVV + " validate_gov_config / apply_gov_config_changes"), ("application", GOVC + " update_gov_config")],
 [("gov config", "current settings", "contracts/enterprise-governance-controller/src/state.rs")],
 ["gov config query", "unlocking period in the membership config", "proposals created before and after"])
prop("U01", "An upgrade applies every newer release in order, to all components or none",
 "An upgrade is only accepted to a version newer than the current one and then migrates through every registered release above the current version up to the target, in ascending order, each with its own migration message, so that afterwards all components run the code of the last release applied. If any step fails, the whole upgrade has no effect: components, code and the DAO's version stay as they were.",
 HC, "every registry content (gaps, out-of-order registration, patch and minor releases), every current version and target, and a failure at any step",
 "Needs several registered releases and a wired DAO; tests have neither.",
 ["contracts/enterprise/src/contract.rs", "contracts/enterprise-versioning/src/contract.rs", GOVC],
 [("upgrade", "contracts/enterprise/src/contract.rs upgrade_dao"), ("release listing between versions", "contracts/enterprise-versioning/src/contract.rs query_versions")],
 [("DAO version", "the version a DAO is at", "contracts/enterprise/src/state.rs"), ("contract code ids", "code each component runs", "chain")],
 ["DAO info query", "code id of each component"])
prop("U02", "The release registry is append-only, ordered, and complete in its listings",
 "Only the registry's admin can register a release; a version can be registered once and never be replaced, though its texts and code ids can be corrected by the admin. The latest version is the highest one registered, whatever the order of registration, and listing the versions, in pages of any size and from any start, gives each registered version exactly once in ascending order.",
 ["histories", "inputs"], "every order of registrations and corrections, duplicates included, and every page size and start",
 "Order and paging must hold for all version sets; tests register three.",
 ["contracts/enterprise-versioning/src/contract.rs"],
 [("duplicate check", "contracts/enterprise-versioning/src/contract.rs add_version"), ("ordering of version keys", "contracts/enterprise-versioning/src/state.rs")],
 [("versions", "version to release information", "contracts/enterprise-versioning/src/state.rs")],
 ["version, versions and latest version queries"])
prop("F01", "Creating a DAO yields a completely and correctly wired DAO, or nothing",
 "A successful creation yields a DAO whose components all know each other, run the code of the requested (or latest) release, are controlled by that DAO alone, and hold exactly the settings, members, whitelists, token balances, minter and attestation asked for; it appears exactly once in the list of DAOs. A creation with invalid settings, or one that fails at any step, leaves no DAO, no list entry and no moved funds, and the next creation works.",
 HC + ["crash_points"], "every combination of DAO kind, council, whitelists, deposit, attestation and version, and a failure at any message of the creation",
 "The creation spans a dozen contracts by replies; tests cover none of the failing positions.",
 ["contracts/enterprise-factory/src/contract.rs", "contracts/enterprise-factory/src/validate.rs", "contracts/enterprise-factory/src/multisig_membership.rs", "contracts/enterprise-factory/src/token_membership.rs", "contracts/enterprise-factory/src/nft_membership.rs"],
 [("reply chain", "contracts/enterprise-factory/src/contract.rs reply"), ("finalization", "contracts/enterprise-factory/src/contract.rs finalize_dao_creation, contracts/enterprise/src/contract.rs finalize_instantiation")],
 [("DAO being created", "progress of the creation", "contracts/enterprise-factory/src/state.rs"), ("DAO list", "created DAOs", "contracts/enterprise-factory/src/state.rs")],
 ["component contracts query", "configuration queries of each component", "all DAOs query"])
prop("I01", "NFTs arriving over the bridge are staked for the named user, and only those",
 "When the NFT bridge delivers NFTs with a staking instruction, exactly those NFTs are staked for the user named, once, and only if the delivery really comes through the bridge's callback and the collection is the one the DAO is based on; otherwise nothing is staked. They can later be unstaked and claimed like any other stake, and a DAO based on a collection that does not exist yet works once the bridge has created it.",
 H, "every order of collection creation, bridge deliveries, forged callbacks, direct stakes, unstakes and claims",
 "Three contracts and a bridge take part; tests have no bridge.",
 ["contracts/ics721-callback-proxy/src/contract.rs", "packages/nft-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/nft_staking.rs"],
 [("callback proxy", "contracts/ics721-callback-proxy/src/contract.rs"), ("collection lookup by class id", "packages/nft-staking-impl/src/execute.rs")],
 [("NFT stakes", "who staked which NFT", "packages/nft-staking-impl/src/nft_staking.rs")],
 ["NFT owner", "staked NFTs query", "user weight query"])
prop("X01", "Treasuries on other chains are set up once and obey only their DAO's proposals",
 "For each remote chain a DAO gets at most one proxy and one treasury, recorded only when the chain's proxy contract itself reports a creation the DAO asked for, under the number it was asked with, and once; forged, repeated or foreign reports change nothing. A remote treasury carries out exactly the commands of executed proposals of its own DAO, each at most once and unaltered, while commands for chains without a treasury fail. Lost and refused messages return the token they carried and leave the remote chain unchanged, and the DAO can ask again.",
 H, "every order of deployments, commands, deliveries, timeouts, refusals, forged reports and direct calls on up to two remote chains with skewed clocks",
 "Two chains and a relayer take part; the tests have neither, and the guarantees are about what happens when messages are late, lost or forged.",
 ["contracts/enterprise-outposts/src/contract.rs", "contracts/enterprise-outposts/src/ibc_hooks.rs", "contracts/enterprise-treasury/src/contract.rs", GOVC, GOVV],
 [("pending deployments by callback number", "contracts/enterprise-outposts/src/contract.rs deploy_cross_chain_treasury, execute_msg_reply_callback"), ("caller derived from channel and remote sender", "contracts/enterprise-outposts/src/ibc_hooks.rs derive_intermediate_sender"), ("proposal actions for remote treasuries", GOVC)],
 [("proxies, treasuries and pending callbacks", "per chain of a DAO", "contracts/enterprise-outposts/src/state.rs")],
 ["cross-chain treasuries, deployments and proxy queries", "IBC transfers leaving the chain", "state of the remote treasury"])
prop("V01", "The facade shows the DAO as it is and drafts messages that do what was asked",
 "Asked by the address of the enterprise contract or of its treasury, the facade answers every question about a DAO exactly as its components do at that moment (settings, components, members, stakes, claims, proposals, votes, whitelists, treasuries, voting power). The messages it drafts for an operation, sent by the user unchanged, have exactly the effect of performing the operation directly, including the fee for each command to another chain. It drafts nothing for operations a DAO of that type does not have, and knows no DAO where there is none.",
 HC, "every DAO type and version, every state a history can reach, every operation the facade offers with valid and invalid arguments, asked by either address",
 "The facade's answers come from nine other contracts whose state changes with every transaction; there are no tests of the facade, and a wrong draft shows only when it is carried out.",
 ["contracts/enterprise-facade-v2/src/facade_v2.rs", "contracts/enterprise-facade-v2/src/contract.rs", "contracts/enterprise-facade/src/facade.rs", "contracts/enterprise-facade/src/contract.rs"],
 [("choice of the facade and the DAO behind an address", "contracts/enterprise-facade/src/facade.rs"), ("adapters", "contracts/enterprise-facade-v2/src/facade_v2.rs adapt_*"), ("answers from the components", "contracts/enterprise-facade-v2/src/facade_v2.rs query_*")],
 [("facade addresses", "which contract answers for which generation of DAOs", "contracts/enterprise-facade/src/state.rs")],
 ["all queries of the facade", "effects of the drafted messages"])
prop("V02", "Old DAOs are shown as they are, and drafts for them do what was asked",
 "Asked about a DAO whose contract predates the rewrite, the facade answers with what that contract says (settings, members, stakes, claims, proposals, votes, whitelists), adding only what its votes and the time imply: a proposal whose voting is over is shown as passed or rejected by quorum, threshold and veto, an open one as executable early where that is allowed and already decided. What it drafts for such a DAO, sent unchanged, makes that contract do exactly what was asked (the same proposal actions in its own words, the same vote, the same stake, a move to the first rewritten release for every upgrade to it or beyond); what such a DAO cannot do, treasuries on other chains included, is refused and never turned into something else.",
 HC, "every type and configuration of old DAO, every history of proposals, votes, stakes and claims on it with failing transactions, every request the facade offers, at every instant around the end of voting",
 "There are no tests of this facade; its answers are derived from another contract's state, the clock and the release registry, and a wrong draft shows only when it is carried out.",
 ["contracts/enterprise-facade-v1/src/facade_v1.rs", "contracts/enterprise-facade-v1/src/contract.rs", "contracts/enterprise-facade/src/facade.rs", "contracts/enterprise-facade/src/contract.rs"],
 [("status of proposals from votes and time", "contracts/enterprise-facade-v1/src/facade_v1.rs fix_proposal_response, resolve_in_progress_proposal_status"), ("actions in the words of the old contract", "contracts/enterprise-facade-v1/src/facade_v1.rs map_proposal_action_to_v5"), ("adapters", "contracts/enterprise-facade-v1/src/facade_v1.rs adapt_*")],
 [("facade addresses", "which contract answers for which generation of DAOs", "contracts/enterprise-facade/src/state.rs")],
 ["all queries of the facade about an old DAO", "effects of the drafted messages on the old DAO"])
prop("Q01", "Listings are complete, in order and without repetition, page by page",
 "Reading any listing page by page (members, council, staked NFTs, whitelists, proposals and polls by status, votes, votes of a member, DAOs, releases) yields every entry exactly once and nothing else, in a fixed order, whatever the page size and wherever it starts: a page begins right after the cursor, holds at most the asked number, and is short only at the end. What a listing says of an entry agrees with what asking for the entry itself says.",
 HC, "every listing, state, cursor and page size, with fewer, as many and more entries than a page holds, in worlds of up to 110 members",
 "Tests list two or three entries on one page; wrong cursors, limits and filters show only with more entries than a page and after entries have changed or left.",
 [f"{PE}/query.rs", GOVC, "packages/nft-staking-impl/src/query.rs", "packages/token-staking-impl/src/query.rs", "packages/denom-staking-impl/src/query.rs", "packages/multisig-membership-impl/src/query.rs", "contracts/enterprise-treasury/src/asset_whitelist.rs", "contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise-factory/src/contract.rs", "contracts/enterprise-versioning/src/contract.rs"],
 [("range queries with exclusive cursors and limits", f"{PE}/query.rs query_polls, query_voter; */query.rs"), ("whitelists of three kinds of assets joined in one listing", "contracts/enterprise-treasury/src/asset_whitelist.rs")],
 [("poll status index", "polls by status", f"{PE}/state.rs"), ("staker index", "NFTs by staker", "packages/nft-staking-impl/src/nft_staking.rs")],
 ["members, staked_nfts, user_stake, asset_whitelist, nft_whitelist, proposals, polls, proposal_votes, voter, all_daos, versions queries"])
prop("L01", "Stakes left behind by the old contracts are moved in full, once, to their owners",
 "Anybody can advance the move of stakes and claims that DAOs from before the rewrite left in their treasury: each step moves at most about the asked number of them into the membership contract, with exactly the assets that belong to them, each stake and claim (with its release time) to its owner, once, and never touches the rest of the treasury. A step that fails changes nothing, repeating steps moves everything in the end, and then no further step is possible. At any moment the treasury reports truthfully whether something is left to move, whether the move is complete, and what weight a user had before it.",
 HC, "every mix of stakes, NFT stakes and claims left behind, every step size, steps interleaved with stakes, unstakes, claims, votes and treasury operations, and a failure at any message of a step",
 "The move runs in pieces over data only old contracts write; no test has such data, and a wrong piece shows only when entries and piece sizes do not divide.",
 ["contracts/enterprise-treasury/src/migration.rs", "contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise-treasury/src/nft_staking.rs", "contracts/enterprise-treasury/src/staking.rs", "contracts/enterprise-treasury/src/migration_stages.rs", "packages/token-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs"],
 [("pieces of stakes and claims", "contracts/enterprise-treasury/src/migration.rs migrate_and_clear_*"), ("stage of the move", "contracts/enterprise-treasury/src/migration.rs perform_next_migration_step")],
 [("stakes, NFT stakes and claims of old contracts", "what is left to move", "contracts/enterprise-treasury/src/staking.rs, nft_staking.rs, migration.rs"), ("migrated weights", "weight before the move", "contracts/enterprise-treasury/src/migration_copy_storage.rs")],
 ["has_incomplete_v2_migration, has_unmoved_stakes_or_claims and user_weight queries of the treasury", "stakes and claims in the membership contract", "token and NFT balances"])

prop("W01", "Whatever happened before, everybody can leave a DAO with all that is theirs",
 "After any history of stakes, votes, proposals, distributions, crashes and failures, once faults stop, ordinary transactions without anybody's permission bring everything out: proposals whose vote is over can be executed, their deposits come back as promised, every member can unstake all of it, claim it at its release and collect every reward of every asset, and gets exactly what is theirs. No order in which the members leave makes the last one short, and what nobody owns stays behind. Only the DAO's own decisions may stand in the way (an attestation to sign first, a weight listener it added that refuses, a proposal on which nobody had any weight when its vote ended).",
 HC, "every history of a DAO of every kind followed by its members leaving in every order, wholly or in parts",
 "Every small leak in custody, rewards or deposits stays hidden until the last user draws on a pot others have drawn on before, at the end of a long history.",
 ["packages/token-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs", "packages/membership-common/src/total_weight.rs", "contracts/funds-distributor/src/claim.rs", "contracts/enterprise-governance-controller/src/contract.rs"],
 [("unstaking and claims", "packages/token-staking-impl/src/execute.rs unstake, claim"), ("rewards", "contracts/funds-distributor/src/claim.rs"), ("return of deposits", "contracts/enterprise-governance-controller/src/contract.rs return_proposal_deposit_submsgs")],
 [("stakes and claims", "what is staked and on its way out", "packages/membership-common, packages/token-staking-impl, packages/nft-staking-impl"), ("rewards and reward index", "what members have earned", "contracts/funds-distributor/src/state.rs")],
 ["token, coin and NFT balances of everybody", "stakes, claims, rewards and proposal status at the end"])

NA = []
NOTE = ("Seeded search over simulated histories of the real contracts against an executable reference model: evidence, not proof. "
        "Trusted: the simulated chain (atomic transactions, depth-first dispatch, replies, bank, clock), the model, and the stubs named in the evidence. Bounds: up to 8 users (110 in some runs of F01, Q01 and L01), 1-3 DAOs, some 60-260 steps per run.")
man = dict(version=1, setup_cmd="bash ./build.sh",
  hooks=dict(guard="none: no hooks are needed, the entry points and storage the contracts already have are the seams", enable="nothing to enable", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd=f"bash ./check.sh {p['id']} quick", thorough_cmd=f"bash ./check.sh {p['id']} thorough",
      technique="deterministic simulation with fault injection (seeded schedules, faults and clock; reference-model refinement)",
      level="exploration", level_note=NOTE) for p in P if p["id"] not in [n["property"] for n in NA]],
  not_applicable=NA, notes="See DESIGN.md. Replay: bash ./replay.sh FILE")
if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f): print("missing", p["id"], f)
    open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
    open(V + "/MANIFEST.json", "w").write(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties")
