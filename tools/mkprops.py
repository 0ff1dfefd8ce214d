#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors stay easy to edit)."""
import json, os
C = 'src/core_nft/src/'; I = 'src/index_icrc7/src/'
SAMPLE = 'Unit tests exercise a handful of fixed calls in a fixed order; '
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=False):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=SAMPLE + why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook or None)))

p('C01', 'Every token has one owner and all ownership queries agree',
  'At every moment each existing token has exactly one owner account, and the total supply, the token list, the per-token owner, the per-account token lists and the per-account balances all describe that same assignment. The assignment is exactly the one produced by the mints, transfers and burns that reported success; no token is lost, duplicated, resurrected or still counted for a former owner. A default subaccount and an all-zero subaccount name the same account.',
  ['histories', 'inputs'], 'any sequence of mints, transfers, transfers on behalf and burns, over any accounts including subaccounts',
  'two separately maintained structures drift apart only after particular sequences (transfer then burn, transfer to a subaccount and back).',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'updates/management.rs', C + 'queries/icrc7.rs', C + 'state.rs'],
  [('transfer', C + 'updates/icrc7.rs'), ('transfer on behalf', C + 'updates/icrc37.rs'), ('mint and burn', C + 'updates/management.rs'), ('ownership queries', C + 'queries/icrc7.rs')],
  ['icrc7_owner_of', 'icrc7_balance_of', 'icrc7_tokens', 'icrc7_tokens_of', 'icrc7_total_supply'])
p('C02', 'Only the owner or an authorised spender can move or destroy a token',
  'A token changes hands only through a transfer made by the principal of its current owner account, or through a transfer on behalf that names the current owner account and is made by that account itself or by a spender account holding an unexpired token or collection approval given by that account; a token is destroyed only by the principal of its owner. A request that meets these conditions succeeds (rate limits and timing rules aside) and moves exactly the named token to exactly the named account; any other request is refused and leaves every owner unchanged. A token is never moved to the anonymous principal nor to the account that already owns it.',
  ['histories', 'inputs'], 'any caller, token, source, destination and prior approval history',
  'authorisation depends on the whole history of approvals, transfers and expiries before the call.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'updates/management.rs'],
  [('transfer_nft', C + 'updates/icrc7.rs'), ('transfer_from', C + 'updates/icrc37.rs'), ('burn_nft', C + 'updates/management.rs')],
  ['icrc7_transfer', 'icrc37_transfer_from', 'burn_nft', 'icrc7_owner_of'])
p('C03', 'Approvals end when the token changes hands or is burnt',
  'Once a token has changed owner, by either kind of transfer, or has been burnt, no token approval given before that moment authorises anyone to move it and its approval list is empty until the new owner grants one. Collection approvals given by an account keep working for the tokens that account still owns, and never authorise moving a token that the account no longer owns. When a transfer on behalf takes the last token of an account, that account\'s collection approvals end.',
  ['histories'], 'any interleaving of approvals, transfers of both kinds, burns and transfers back to an earlier owner',
  'a stale approval matters only in a later multi-step history involving three parties.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'updates/management.rs'],
  [('approval reset on transfer', C + 'updates/icrc7.rs'), ('approval reset on transfer on behalf', C + 'updates/icrc37.rs')],
  ['icrc37_get_token_approvals', 'icrc37_get_collection_approvals', 'icrc37_transfer_from'])
p('C04', 'Approvals are granted only by owners, bounded, and expire on time',
  'A token approval is accepted only from the current owner account of that token and a collection approval only from a principal owning at least one token, never for the anonymous account, and never beyond the configured number of approvals per token or per account. An accepted approval empowers exactly the named spender account, from the moment it is accepted until strictly before its expiry time, and it is listed with its spender, expiry, memo and the subaccount it was given from until it is replaced, revoked, used up by a change of owner, or dropped after expiring.',
  ['histories', 'inputs', 'configurations'], 'any approval request, spender account, expiry relative to the clock, limit configuration and prior history',
  'limits and expiry are decided at boundary instants and counts that fixed examples do not hit.',
  [C + 'updates/icrc37.rs', C + 'types/icrc37.rs', C + 'types/wrapped_types.rs'],
  [('approve_token, approve_collection', C + 'updates/icrc37.rs'), ('approval storage', C + 'types/wrapped_types.rs')],
  ['icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_get_token_approvals', 'icrc37_get_collection_approvals'])
p('C05', 'Revocation removes exactly the named approvals, at once',
  'Revoking a token or collection approval is possible only for the account that gave it; on success the named spender (or every spender, if none is named) loses that approval immediately, and no other approval of any token or account changes. At most the configured number of revocations in one call is processed, the rest are ignored. Revoking where nothing was ever approved is refused.',
  ['histories', 'inputs'], 'any set of outstanding approvals and any revocation batch',
  'collateral effects on other approvals need many coexisting approvals to be seen.',
  [C + 'updates/icrc37.rs'], [('revoke_token_approvals, revoke_collection_approvals', C + 'updates/icrc37.rs')],
  ['icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_get_token_approvals'])
p('C06', 'Approval queries tell the truth about what a spender can do',
  'The approval check answers yes for a spender and an existing token exactly when that spender is the owner account of the token or holds an unexpired token approval, or an unexpired collection approval from the owner of the token, and so agrees with whether a transfer on behalf by that spender would be authorised. The approval lists return every outstanding approval newest first, in an order that does not change between calls for approvals that do not change, and paging through them with any page size yields each approval exactly once. The advertised approval and revocation limits are the configured ones.',
  ['histories', 'inputs'], 'any state of approvals, any spender, token, cursor and page size',
  'agreement must hold in every reachable approval state.',
  [C + 'queries/icrc37.rs'], [('icrc37_is_approved', C + 'queries/icrc37.rs'), ('approval lists', C + 'queries/icrc37.rs')],
  ['icrc37_is_approved', 'icrc37_get_token_approvals', 'icrc37_get_collection_approvals', 'icrc37_transfer_from'])
p('L01', 'Each successful operation is logged exactly once, failed ones never',
  'Every mint, metadata update, transfer, burn, approval, revocation and transfer on behalf that reports success appends exactly one block per token or item to the transaction log, with the right type, token, accounts, memo, spender, expiry and time, and the number it returns identifies that block. An operation or batch item that reports an error, and every query, leaves the log unchanged.',
  ['histories', 'inputs'], 'any sequence of calls including batches with failing items',
  'a missing or phantom block shows only by comparing every outcome with the log.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'updates/management.rs'],
  [('icrc3_add_transaction call sites', C + 'updates/'), ('log queries', C + 'queries/icrc3.rs')], ['icrc3_get_blocks'])
p('L02', 'The transaction log is an append-only hash chain',
  'Blocks carry consecutive numbers from zero, a block once published never changes or disappears, timestamps never decrease, every block type is among the advertised ones, and every block names the hash of its predecessor (zeros for the first). A request for one or several ranges returns exactly the requested existing blocks in order, together with the total log length.',
  ['histories', 'inputs'], 'any history, any range request, across upgrades',
  'immutability is a property of every pair of observations of a block over a whole history.',
  [C + 'queries/icrc3.rs', C + 'lifecycle/init.rs', C + 'lifecycle/post_upgrade.rs'],
  [('log queries', C + 'queries/icrc3.rs'), ('log initialisation', C + 'lifecycle/init.rs')], ['icrc3_get_blocks', 'icrc3_supported_block_types'])
p('L03', 'Replaying the transaction log reproduces the ledger',
  'Starting from nothing and applying the blocks of the log in order reproduces the current owner of every token, the total supply, the metadata of every updated token and the outstanding token and collection approvals of existing tokens.',
  ['histories'], 'any history of operations, including failures and batches, at any point of it',
  'the log and the state are written separately; only a replay over long random histories compares them.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'updates/management.rs', C + 'types/transaction.rs'] if False else [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'updates/management.rs'],
  [('icrc3_add_transaction call sites', C + 'updates/')], ['icrc3_get_blocks', 'icrc7_owner_of', 'icrc37_get_token_approvals'])
p('L04', 'Archiving never loses, duplicates or alters a block',
  'When old blocks are moved to archive canisters, every block number below the log length stays retrievable exactly once, either locally or by following the returned archive reference, with unchanged content, and new operations continue the same numbering. This holds when archive creation or block transfer fails and is retried, and across upgrades. While nothing fails, blocks older than the retention period keep being moved by the regular job, also after an upgrade.',
  ['schedules', 'fault_sequences', 'histories'], 'any timing of the archiving job relative to operations, and any rejection of its calls',
  'archiving spans several messages, so partial progress and failures between them are not reachable by unit tests.',
  [C + 'state.rs', C + 'lifecycle/init.rs', C + 'lifecycle/post_upgrade.rs', C + 'queries/icrc3.rs'],
  [('archive job start', C + 'state.rs'), ('archive job after upgrade', C + 'lifecycle/post_upgrade.rs')], ['icrc3_get_blocks', 'icrc3_get_archives'])
p('D01', 'A remembered transaction is never executed twice',
  'Submitting again a transfer or transfer on behalf with the same arguments and creation time while the transaction window is still open does not move the token again and adds no block, whatever happened to the token in between.',
  ['histories', 'schedules'], 'any delay between the two submissions inside the transaction window and any operations in between',
  'the replay must come after the token has moved back, inside a time window.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'lifecycle/init.rs'], [('transfer_nft', C + 'updates/icrc7.rs'), ('log deduplication set-up', C + 'lifecycle/init.rs')], ['icrc7_transfer', 'icrc37_transfer_from', 'icrc3_get_blocks'])
p('D02', 'Creation times are accepted only inside the configured window',
  'A transfer, approval, revocation or transfer on behalf whose creation time lies further in the future than the permitted drift is refused as created in the future, reporting the ledger time, and one older than the transaction window (plus the drift, for direct transfers) is refused as too old; a creation time inside the window is never refused for its time. The window and drift are the configured values, or 10 seconds and 50 milliseconds by default, and are also the ones reported by the ledger.',
  ['inputs', 'configurations'], 'any creation time around both boundaries, any window and drift configured at start or later, up to the largest representable',
  'boundary instants, extreme values and configuration plumbing multiply beyond fixed cases.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'lifecycle/init.rs', C + 'state.rs'],
  [('transfer timing', C + 'updates/icrc7.rs'), ('verify_approval_timing', C + 'updates/icrc37.rs'), ('configuration at init', C + 'lifecycle/init.rs')], ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc7_tx_window', 'icrc7_permitted_drift'])
p('D03', 'Memo and batch limits are enforced exactly',
  'A direct transfer or mint with a memo longer than the configured maximum is refused and one at the maximum is accepted. A direct transfer batch processes exactly its first items up to the configured batch size and answers each in order; a mint of more items than the batch size mints nothing; an atomic-batch ledger refuses an oversized transfer batch entirely. Anonymous callers cannot transfer.',
  ['inputs', 'configurations'], 'any memo length, batch size and configured limit',
  'limits matter only at their exact boundary under each configuration.',
  [C + 'updates/icrc7.rs', C + 'updates/management.rs', C + 'utils.rs'], [('icrc7_transfer', C + 'updates/icrc7.rs'), ('check_memo', C + 'utils.rs'), ('mint', C + 'updates/management.rs')], ['icrc7_transfer', 'mint'])
p('D04', 'Per-token rate limits hold and never block other tokens',
  'At most five rate-limited calls (transfers, approvals, transfers on behalf, one per revocation batch) for the same token are let through in any 60 millisecond span, and further ones are refused with no effect; collection-level approvals and revocations share one such limit of their own. A call is never refused by this rule when fewer than five calls for that token were let through in the preceding 60 milliseconds, whatever happens to other tokens.',
  ['schedules', 'histories'], 'any arrival times of calls over any tokens',
  'sliding windows depend on the exact spacing of long call sequences.',
  [C + 'guards.rs', C + 'updates/icrc7.rs', C + 'updates/icrc37.rs'], [('guard_sliding_window', C + 'guards.rs')], ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_revoke_collection_approvals'])
p('M01', 'Minting gives fresh consecutive ids and respects the supply cap',
  'Token ids are handed out consecutively from 1 in request order, each mint reports its first id, and an id is never used again, even after a burn or an upgrade. The number of existing tokens never exceeds the supply cap through minting, and a mint that would fit is not refused for the cap.',
  ['histories', 'configurations'], 'any mix of batch mints, burns, cap changes and upgrades',
  'reuse and overshoot appear only after mixed histories near the cap.',
  [C + 'updates/management.rs', C + 'state.rs'], [('mint', C + 'updates/management.rs')], ['mint', 'icrc7_total_supply', 'icrc7_tokens'])
p('M02', 'Failed calls and failed batch items leave no trace',
  'A call or batch item that reports an error changes nothing observable: owners, supply, token metadata, approvals, the transaction log, settings and permissions stay as they were, and so do the other items of the batch. In particular a mint is all or nothing, and metadata never appears on a token through a mint or update that failed.',
  ['histories', 'inputs', 'fault_sequences'], 'any failing request, including failures to write the log after part of a batch was processed',
  'partial effects become visible only if the state is compared before and after every kind of failure.',
  [C + 'updates/management.rs', C + 'updates/icrc7.rs', C + 'updates/icrc37.rs'], [('mint, update_nft_metadata, burn_nft', C + 'updates/management.rs')], ['all queries'])
p('M03', 'Token metadata reads back exactly as written',
  'The metadata given when a token is minted, or by the latest successful update which replaces all of it, is what the ledger returns for that token: the same keys with the same values of every kind (natural, integer, text, blob, nested arrays and maps), for that token only, across transfers and upgrades, and the update is logged with the previous and the new metadata. Every value that the interface accepts is stored faithfully or the call fails without effect, which is allowed only for integers beyond 128 bits.',
  ['inputs', 'histories'], 'any metadata value, nesting and size, any interleaving of updates, transfers and upgrades',
  'values pass through a hand-written storage encoding whose corner cases are unbounded.',
  [C + 'types/metadata.rs', C + 'types/value_custom.rs', C + 'types/nft.rs', C + 'updates/management.rs'], [('metadata store', C + 'types/metadata.rs'), ('value encoding', C + 'types/value_custom.rs')], ['icrc7_token_metadata', 'update_nft_metadata', 'icrc3_get_blocks'])
p('M04', 'Collection settings are applied, reported and enforced consistently',
  'Every setting given at start is the one reported by its query and by the collection metadata and the one enforced; a collection update changes exactly the settings it names and they take effect from the next call. Settings not given use the documented defaults.',
  ['configurations', 'histories'], 'any combination of optional settings at start and any sequence of updates',
  'there are dozens of optional settings and each travels a separate path.',
  [C + 'lifecycle/init.rs', C + 'state.rs', C + 'updates/management.rs', C + 'queries/icrc7.rs'], [('init', C + 'lifecycle/init.rs'), ('update_collection_metadata', C + 'updates/management.rs')], ['icrc7_collection_metadata', 'icrc7_name', 'icrc7_supply_cap', 'icrc7_max_take_value'])
p('P01', 'Management calls require exactly their permission',
  'Each management call (minting, metadata update, collection update, permission management, upload writing, upload reading) takes effect only for a caller holding the permission of that call at that moment; for every other caller, including the anonymous one and holders of all other permissions, it is refused and nothing changes.',
  ['histories', 'inputs'], 'any caller, any set of granted permissions, any management call',
  'the full matrix of callers, permissions and calls, over grants and revocations, is far beyond sampled tests.',
  [C + 'guards.rs', C + 'updates/management.rs'], [('permission guards', C + 'guards.rs')], ['mint', 'update_nft_metadata', 'update_collection_metadata', 'grant_permission', 'init_upload', 'get_all_uploads'])
p('P02', 'Granting and revoking permissions have exactly the stated effect',
  'After a permission is granted to a principal that principal has it, after it is revoked it does not, however often it was granted before, and no other principal or permission changes; the permission queries report exactly the current set. Initial permissions are those given at start.',
  ['histories'], 'any sequence of grants and revocations',
  'duplicate grants and interleaved revocations are the interesting cases.',
  [C + 'types/permissions.rs', C + 'updates/management.rs'], [('grant_permission, revoke_permission', C + 'updates/management.rs')], ['get_user_permissions', 'has_permission'])
p('G01', 'Management calls exclude each other and the lock is always released',
  'While a management call is waiting for another canister, every further management call is refused as concurrent without effect, from whichever caller. When the pending call ends, for whatever reason including rejection of the calls it made, the next management call is admitted.',
  ['schedules', 'fault_sequences'], 'any interleaving of management calls and any outcome of the inter-canister calls they make',
  'needs control over message interleaving and failures, which unit tests do not have.',
  [C + 'guards.rs', C + 'updates/management.rs', C + 'types/sub_canister.rs'], [('GuardManagement', C + 'guards.rs')], ['init_upload', 'mint', 'burn_nft'])
p('U01', 'Uploads follow their life cycle',
  'An upload starts as initialised, becomes in progress once a chunk is stored and finalised once finalisation succeeds; storing to, finalising or cancelling an unknown upload, or one already finalised, is refused. A path already in use cannot be initialised again, finalising an incomplete or corrupted file is refused, a cancelled path becomes free, and the status and list queries always report the true state of every upload. The daily clean-up drops exactly the unfinished uploads that are older than a day.',
  ['histories', 'inputs'], 'any order of upload calls over several paths, chunk sizes and contents',
  'life-cycle errors need out-of-order and repeated calls across two canisters.',
  [C + 'updates/management.rs', C + 'types/sub_canister.rs', C + 'state.rs'], [('init_upload, store_chunk, finalize_upload, cancel_upload', C + 'updates/management.rs')], ['get_upload_status', 'get_all_uploads'])
p('U02', 'A finalised file is served, byte for byte, through the collection URL',
  'Once an upload is finalised, requesting its path from the collection answers with a temporary redirect to the storage canister holding it, and following the redirect yields exactly the uploaded bytes. This stays true for every finalised file while other files are uploaded, cancelled or finalised and after the collection is upgraded; no path is redirected for an upload that was never finalised. A path that a URL cannot carry as it is, or that one of the built-in pages uses, is refused when the upload is started.',
  ['histories', 'inputs'], 'any set of files, chunkings, order of uploads and upgrades in between',
  'involves two canisters, certification and upgrades.',
  [C + 'updates/management.rs', C + 'types/http.rs', C + 'queries/http_request.rs', C + 'lifecycle/post_upgrade.rs'], [('finalize_upload', C + 'updates/management.rs'), ('add_redirection', C + 'types/http.rs')], ['http_request'])
p('U03', 'Failures of the storage canisters leave uploads consistent',
  'If creating a storage canister or any call to it fails or its answer is lost, the upload call reports an error, other uploads and later calls are unaffected, no upload is reported finalised unless its file is served, and once the fault is gone the client can complete the upload: a retry succeeds when the storage canister never saw the failed call, and where it did, repeating the call or cancelling and starting over does.',
  ['fault_sequences', 'schedules'], 'a fault at any inter-canister call of any upload operation',
  'requires injecting failures at each inter-canister call.',
  [C + 'updates/management.rs', C + 'types/sub_canister.rs'], [('storage canister selection', C + 'types/sub_canister.rs')], ['init_upload', 'store_chunk', 'finalize_upload', 'get_upload_status'])
p('H01', 'HTTP answers are well formed and certified',
  'Every redirect and page answer carries a certificate whose tree hashes to the data the canister certified and covers exactly that path and answer; any other path, however malformed, is answered with an error status and never redirected; log, trace and metrics pages answer with valid JSON. This holds after any sequence of uploads and after an upgrade.',
  ['histories', 'inputs'], 'any request path and any prior history',
  'the certified hash depends on every change made so far.',
  [C + 'types/http.rs', C + 'queries/http_request.rs', C + 'lifecycle/post_upgrade.rs'], [('certification', C + 'types/http.rs'), ('http_request', C + 'queries/http_request.rs')], ['http_request'])
p('Q01', 'Paged queries return the whole set, in order, within limits',
  'Listing tokens, or the tokens of an account, page by page with any page size yields every matching token exactly once in increasing order, each page starting strictly after the cursor and holding at most the requested, default or maximum number. Batch queries answer each item in order, with nothing for items that do not exist, and refuse batches or page sizes above the configured maximum.',
  ['inputs', 'histories', 'configurations'], 'any token set, cursor, page size and configured limits',
  'cursor arithmetic must hold at every position for every limit.',
  [C + 'queries/icrc7.rs'], [('icrc7_tokens, icrc7_tokens_of', C + 'queries/icrc7.rs')], ['icrc7_tokens', 'icrc7_tokens_of', 'icrc7_owner_of', 'icrc7_balance_of', 'icrc7_token_metadata'])
p('X01', 'An upgrade preserves all state',
  'Upgrading the canister at any moment when no call is pending changes nothing observable: owners, supply, metadata, approvals, permissions, settings, log, uploads, redirects and rate-limit history are the same before and after, and later operations behave as if no upgrade had happened. The regular jobs (archiving, upload clean-up) run again after it.',
  ['crash_points', 'histories'], 'an upgrade inserted anywhere in any history, repeatedly',
  'each piece of state is saved by its own mechanism; one forgotten field shows only after an upgrade in a state that uses it.',
  [C + 'lifecycle/pre_upgrade.rs', C + 'lifecycle/post_upgrade.rs', C + 'memory.rs', C + 'state.rs'], [('pre_upgrade', C + 'lifecycle/pre_upgrade.rs'), ('post_upgrade', C + 'lifecycle/post_upgrade.rs')], ['all queries'])
p('X02', 'Every well-formed call gets an answer',
  'Every call whose arguments match the interface is answered with a result or a typed error in bounded time, for every value including empty lists, largest numbers, odd-length byte strings and unknown tokens or accounts; it never crashes the canister message. The only exceptions are the documented refusals: missing permission, queries over their configured limits, and start arguments that are refused as invalid; a mint larger than the log accepts at once is rejected as a whole.',
  ['inputs', 'histories'], 'any argument values for any public method in any state',
  'the input space is unbounded; crashes sit at values nobody writes into tests.',
  [C + 'updates/icrc37.rs', C + 'updates/icrc7.rs', C + 'updates/management.rs', C + 'queries/icrc21.rs', C + 'queries/icrc7.rs', C + 'types/value_custom.rs'], [('public methods', C + 'updates/')], ['all methods'])
p('X03', 'No arithmetic overflow or broken internal assumption',
  'Built with overflow and debug assertions, the canisters answer every workload exactly as the production build does: no arithmetic wraps around and no internal assertion fails, including for creation times, expiries, windows, drifts, ids and lengths at the ends of their ranges.',
  ['inputs', 'configurations'], 'any workload of the other properties, with extreme values',
  'production builds wrap silently, so tests cannot notice.',
  [C + 'updates/icrc7.rs', C + 'updates/icrc37.rs', C + 'guards.rs', I + 'update/get_blocks.rs', I + 'blocks.rs'], [('timing arithmetic', C + 'updates/icrc37.rs'), ('range arithmetic', I + 'update/get_blocks.rs')], ['all methods'])
p('X04', 'Consent messages describe the call and never fail on valid calls',
  'For every supported method and every well-formed argument the consent request returns a message naming that method and, for a batch of tokens, the number of items, echoing the requested language settings; for the approval of one spender for the collection it names that spender; for an unsupported method or an undecodable argument it returns the unsupported-call error.',
  ['inputs'], 'any method name and argument bytes', 'argument bytes are arbitrary.',
  [C + 'queries/icrc21.rs'], [('consent handlers', C + 'queries/icrc21.rs')], ['icrc21_canister_call_consent_message'])
p('I01', 'The index contains every ledger block exactly once',
  'Once it has caught up, the index knows every block of the ledger log: querying by an account (without subaccount, as blocks name principals only) returns exactly the blocks that name it as sender, receiver or spender, by token exactly the blocks about that token, by block type exactly the blocks of that type, each once, with the content the ledger has. A filtered answer is always a subset of that; nothing is invented.',
  ['histories'], 'any ledger history', 'completeness must hold for every kind of block and every participant.',
  [I + 'index.rs', I + 'blocks.rs', I + 'jobs.rs', I + 'cache.rs'], [('update_index', I + 'jobs.rs'), ('block classification', I + 'blocks.rs')], ['get_blocks', 'status'])
p('I02', 'Index queries combine filters, order and page correctly',
  'A query with filters returns exactly blocks matching all of them, in ascending block order, and successive pages of any length cover every match exactly once; descending order reverses the page. A query without filters returns the requested range of the log, or the most recent blocks first when descending order is asked. The reported total is the number of blocks indexed so far.',
  ['inputs', 'histories'], 'any filter combination, order, start and length', 'page arithmetic must hold for all positions and orders.',
  [I + 'update/get_blocks.rs', I + 'index.rs'], [('get_blocks', I + 'update/get_blocks.rs')], ['get_blocks'])
p('I03', 'Indexing survives faults, slow calls, archiving and upgrades',
  'If fetching from the ledger or its archives fails, is slow, or overlaps with the next scheduled run, or the index is upgraded, then no block is skipped or indexed twice and the index catches up once calls succeed again. The reported last block never runs ahead of what has been indexed.',
  ['schedules', 'fault_sequences', 'crash_points'], 'any schedule of timers and responses, any failing fetch, any upgrade point',
  'needs overlapping timer runs and failing inter-canister calls.',
  [I + 'jobs.rs', I + 'blocks.rs', I + 'lifecycle/post_upgrade.rs'], [('update_index', I + 'jobs.rs'), ('fetching', I + 'blocks.rs')], ['get_blocks', 'status'])
p('U04', 'Storage canisters and archives obey only the collection',
  'Every storage canister and archive the collection creates is controlled by the collection alone, runs the storage or archive module of the collection, and is told to obey only the collection and principals its operators trusted with managing authorities when it was installed. Calls by anybody else to start, store, finalise or cancel an upload on a storage canister, or to write blocks to an archive, are refused and change nothing: served files, sizes and archived blocks stay as they were. A call that the collection itself refuses never reaches a storage canister.',
  ['inputs', 'histories', 'configurations'], 'any caller, any method and arguments, any moment of any history of uploads, archiving and upgrades',
  'who may write depends on installation arguments and settings sent to other canisters, which no unit test of one canister sees.',
  [C + 'types/sub_canister.rs', C + 'updates/management.rs', C + 'lifecycle/init.rs', C + 'types/stored_icrc3.rs'], [('storage canister creation', C + 'types/sub_canister.rs'), ('installation arguments', C + 'lifecycle/init.rs')], ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload', 'insert_blocks'])
p('U05', 'Storage canisters are reused, remembered and kept funded',
  'A file goes to exactly one storage canister: one that exists and has room for it (the files of one canister total at most 500 GiB), and a new one is created only when none has; a file above 2 GiB or with an invalid chunk size creates none. Every later call about the file reaches that canister unchanged, and its address redirects there. Every storage canister that was created is listed, also when the upload that caused it failed and after upgrades, and one left without code is completed before another is created. A storage canister or archive holding less than 1 T cycles gets 2 T within two minutes while the collection can pay, one holding more gets nothing, before and after upgrades and once disturbances end.',
  ['histories', 'fault_sequences', 'crash_points'], 'any sizes reported by the storage canisters, any files, failures of inter-canister calls, balances and upgrades',
  'a second canister is created only when the first is full, and funding fails only long after an upgrade.',
  [C + 'types/sub_canister.rs', C + 'updates/management.rs', C + 'types/management.rs', C + 'types/stored_icrc3.rs', C + 'lifecycle/post_upgrade.rs'], [('init_upload', C + 'types/sub_canister.rs'), ('cancel_upload', C + 'updates/management.rs'), ('post_upgrade', C + 'lifecycle/post_upgrade.rs')], ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload', 'get_all_storage_subcanisters', 'http_request'])
p('Q02', 'The collection describes itself truthfully',
  'At every moment the metrics page reports the version and commit given at the last installation or upgrade, the mode it was installed with, the current time and cycle balance, and exactly the permissions in force. The log and trace pages hold entries in time order, from the installation on, and an entry disappears only when the list has reached its limit, never because of an upgrade. Every type of block in the log is listed as supported, once, and every listed standard has its methods, among them ICRC-3, ICRC-7, ICRC-10, ICRC-21 and ICRC-37.',
  ['histories', 'configurations', 'crash_points'], 'any configuration, any history of operations and permission changes, any number of upgrades',
  'what is reported must follow every change of state and survive upgrades.',
  [C + 'queries/http_request.rs', C + 'types/http.rs', C + 'state.rs', C + 'lifecycle/post_upgrade.rs', C + 'lifecycle/init.rs', C + 'queries/icrc3.rs', C + 'queries/icrc10.rs'], [('metrics', C + 'state.rs'), ('http_request', C + 'queries/http_request.rs'), ('supported block types', C + 'queries/icrc3.rs')], ['http_request', 'icrc10_supported_standards', 'icrc3_supported_block_types'])
K = 'cmdline/src/'
p('T01', 'The upload commands report success exactly when the file is served',
  'When an upload command of the command-line tool ends well, the address it prints and the destination path serve exactly the bytes of the local file, for any file size and any chunk size, including sizes that do not divide evenly. When anything goes wrong - a missing file, a missing permission, a refused or lost call at any step, a path already taken - the command ends with an error, says why, and does not report success; files uploaded before stay as they are. A valid file sent to a free ordinary path with the permission and without faults is uploaded. Metadata is uploaded only if it is valid, to a path named by the hash of its content.',
  ['inputs', 'fault_sequences', 'histories'], 'any file content and size, chunk size, destination path, prior uploads, and any transport or canister failure at any request of the command',
  'the last chunk, the error paths and lost answers depend on sizes and on which request of many fails.',
  [K + 'calls/uploads.rs', K + 'commands.rs', K + 'utils.rs', C + 'types/http.rs'], [('upload sequence', K + 'calls/uploads.rs'), ('upload commands', K + 'commands.rs')], ['upload-file', 'upload-metadata', 'http_request'])
p('T02', 'The mint and permissions commands do exactly what their options say',
  'A mint command that ends well has minted exactly one token, with the id it prints, owned by the account named by the owner and subaccount options, carrying the given memo and exactly the metadata entries given: keys and values whole, with whole numbers stored as numbers. A permissions command that ends well has granted or revoked exactly the named permission of the named principal, or prints the permissions the collection reports. A command with invalid options, or refused by the collection, ends with an error, changes nothing and never reports success; requests are signed by the given identity and sent to the given canister only, at most one changing call per command.',
  ['inputs', 'fault_sequences', 'histories'], 'any option values and prompts, any prior permissions and tokens, and any transport failure',
  'option parsing and error handling have many combinations, and the tool itself has no tests that run it against a collection.',
  [K + 'calls/mint.rs', K + 'calls/permissions.rs', K + 'commands.rs', K + 'prompts.rs', K + 'utils.rs'], [('mint', K + 'calls/mint.rs'), ('permissions', K + 'calls/permissions.rs'), ('metadata prompts', K + 'prompts.rs')], ['mint', 'permissions grant', 'permissions revoke', 'permissions list', 'permissions has'])
p('T03', 'Metadata files are created whole and validated exactly',
  'A metadata file is accepted, by validation and before an upload, exactly when it is a JSON object whose name, description, image and external address, where present, are texts and whose attributes, where present, are a list of objects each with a textual trait type, a value and, where present, a textual display type. A file created from options or from answers to prompts holds exactly what was given, with numbers as numbers, and validates; an incomplete or malformed option, or input that ends too early, ends the command in bounded time without a valid-looking but wrong file. Neither command contacts the collection.',
  ['inputs'], 'any JSON text, option values and prompt answers, including input cut at any point', 'JSON shapes and number texts are unbounded.',
  [K + 'metadata.rs', K + 'prompts.rs', K + 'commands.rs'], [('validation and creation', K + 'metadata.rs'), ('prompts', K + 'prompts.rs')], ['validate-metadata', 'create-metadata', 'upload-metadata'])
for x in props:
    assert len(x['title']) <= 80, x['title']
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in props: f.write(json.dumps(x) + '\n')
print(len(props))
