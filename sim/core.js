'use strict';
// Typed client for the core_nft canister (and the types its Candid interface uses).
const { T, encode, decode, register } = require('./candid');
register('InvalidSpender', 'Unauthorized', 'NonExistingTokenId', 'TooOld', 'CreatedInFuture', 'ledger_time', 'GenericError', 'GenericBatchError', 'error_code', 'message', 'InvalidRecipient', 'Duplicate', 'duplicate_of', 'ApprovalDoesNotExist', 'ConcurrentManagementCall', 'ExceedMaxAllowedSupplyCap', 'TokenAlreadyExists', 'InvalidMemo', 'StorageCanisterError', 'NotTokenOwner', 'TokenDoesNotExist', 'UploadNotFound', 'FileAlreadyExists', 'UploadNotInitialized', 'UploadAlreadyFinalized', 'UploadNotStarted', 'IncompleteUpload', 'DefaultError', 'UserNotFound', 'Init', 'InProgress', 'Finalized', 'status_code', 'headers', 'body', 'upgrade', 'streaming_strategy', 'consent_message', 'metadata', 'GenericDisplayMessage', 'LineDisplayMessage', 'pages', 'lines', 'language', 'utc_offset_minutes', 'UnsupportedCanisterCall', 'description', 'ConsentMessageUnavailable', 'InsufficientPayment', 'name', 'tx_window', 'max_transactions_in_window', 'max_memory_size_bytes', 'max_blocks_per_response', 'initial_cycles', 'reserved_cycles', 'secs', 'nanos', 'last_block_id', 'ledger_id', 'total', 'spender', 'from_subaccount', 'expires_at', 'memo', 'created_at_time', 'approval_info', 'token_id', 'mode', 'settings', 'wasm_module', 'arg', 'install', 'reinstall', 'controllers', 'sender_canister_version', 'canister_id', 'compute_allocation', 'memory_allocation', 'freezing_threshold', 'reserved_cycles_limit', 'log_visibility', 'wasm_memory_limit', 'wasm_memory_threshold', 'public', 'major', 'minor', 'patch', 'skip_pre_upgrade');
register('owner', 'subaccount', 'Ok', 'Err', 'transactions', 'log_length', 'blocks', 'archived_blocks', 'callback', 'args', 'id', 'block', 'hash_tree', 'certificate', 'block_type', 'url', 'canister_id', 'start', 'end', 'length');
const Account = T.record({ owner: T.principal, subaccount: T.opt(T.blob) });
const Version = T.record({ major: T.nat32, minor: T.nat32, patch: T.nat32 });
const Value = T.fix(() => T.variant({ Nat: T.nat, Int: T.int, Text: T.text, Blob: T.blob, Array: T.vec(Value), Map: T.vec(T.tuple(T.text, Value)) }));
const PERMS = ['Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads'];
const Permission = T.variant(Object.fromEntries(PERMS.map(p => [p, T.null])));
const Meta = T.vec(T.tuple(T.text, Value));
const InitArgs = T.record({
  test_mode: T.bool, version: Version, commit_hash: T.text,
  permissions: T.record({ user_permissions: T.vec(T.tuple(T.principal, T.vec(Permission))) }),
  description: T.opt(T.text), symbol: T.text, name: T.text, logo: T.opt(T.text),
  supply_cap: T.opt(T.nat), max_query_batch_size: T.opt(T.nat), max_update_batch_size: T.opt(T.nat), max_take_value: T.opt(T.nat), default_take_value: T.opt(T.nat), max_memo_size: T.opt(T.nat),
  atomic_batch_transfers: T.opt(T.bool), tx_window: T.opt(T.nat), permitted_drift: T.opt(T.nat), max_canister_storage_threshold: T.opt(T.nat),
  collection_metadata: Meta,
  approval_init: T.record({ max_approvals_per_token_or_collection: T.opt(T.nat), max_revoke_approvals: T.opt(T.nat) }),
});
const Args = T.variant({ Init: InitArgs, Upgrade: T.record({ version: Version, commit_hash: T.text }) });
const B32 = T.opt(T.blob), N64 = T.opt(T.nat64);
const TransferArg = T.record({ to: Account, token_id: T.nat, memo: T.opt(T.blob), from_subaccount: B32, created_at_time: N64 });
const ApprovalInfo = T.record({ spender: Account, from_subaccount: B32, expires_at: N64, memo: T.opt(T.blob), created_at_time: T.nat64 });
const types = {
  icrc7_transfer: [T.vec(TransferArg)],
  icrc7_balance_of: [T.vec(Account)], icrc7_owner_of: [T.vec(T.nat)], icrc7_token_metadata: [T.vec(T.nat)],
  icrc7_tokens: [T.opt(T.nat), T.opt(T.nat)], icrc7_tokens_of: [Account, T.opt(T.nat), T.opt(T.nat)],
  icrc37_approve_tokens: [T.vec(T.record({ token_id: T.nat, approval_info: ApprovalInfo }))],
  icrc37_approve_collection: [T.vec(T.record({ approval_info: ApprovalInfo }))],
  icrc37_revoke_token_approvals: [T.vec(T.record({ spender: T.opt(Account), from_subaccount: B32, token_id: T.nat, memo: T.opt(T.blob), created_at_time: N64 }))],
  icrc37_revoke_collection_approvals: [T.vec(T.record({ spender: T.opt(Account), from_subaccount: B32, memo: T.opt(T.blob), created_at_time: N64 }))],
  icrc37_transfer_from: [T.vec(T.record({ spender_subaccount: B32, from: Account, to: Account, token_id: T.nat, memo: T.opt(T.blob), created_at_time: N64 }))],
  icrc37_is_approved: [T.vec(T.record({ spender: Account, from_subaccount: B32, token_id: T.nat }))],
  icrc37_get_token_approvals: [T.nat, T.opt(T.record({ token_id: T.nat, approval_info: ApprovalInfo })), T.opt(T.nat)],
  icrc3_get_blocks: [T.vec(T.record({ start: T.nat, length: T.nat }))],
  icrc3_get_archives: [T.null],
  icrc37_get_collection_approvals: [Account, T.opt(T.record({ approval_info: ApprovalInfo })), T.opt(T.nat)],
  burn_nft: [T.nat], update_nft_metadata: [T.record({ token_id: T.nat, metadata: Meta })],
  update_collection_metadata: [T.record({ description: T.opt(T.text), symbol: T.opt(T.text), name: T.opt(T.text), logo: T.opt(T.text), supply_cap: T.opt(T.nat), max_query_batch_size: T.opt(T.nat), max_update_batch_size: T.opt(T.nat), max_take_value: T.opt(T.nat), default_take_value: T.opt(T.nat), max_memo_size: T.opt(T.nat), atomic_batch_transfers: T.opt(T.bool), tx_window: T.opt(T.nat), permitted_drift: T.opt(T.nat), max_canister_storage_threshold: T.opt(T.nat), collection_metadata: T.opt(Meta) })],
  init_upload: [T.record({ file_path: T.text, file_hash: T.text, file_size: T.nat64, chunk_size: T.opt(T.nat64) })],
  store_chunk: [T.record({ file_path: T.text, chunk_id: T.nat, chunk_data: T.blob })],
  finalize_upload: [T.record({ file_path: T.text })], cancel_upload: [T.record({ file_path: T.text })],
  get_upload_status: [T.text], get_all_uploads: [T.opt(T.nat), T.opt(T.nat)],
  grant_permission: [T.record({ principal: T.principal, permission: Permission })], revoke_permission: [T.record({ principal: T.principal, permission: Permission })],
  get_user_permissions: [T.record({ principal: T.principal })], has_permission: [T.record({ principal: T.principal, permission: Permission })],
  http_request: [T.record({ method: T.text, url: T.text, headers: T.vec(T.tuple(T.text, T.text)), body: T.blob, certificate_version: T.opt(T.nat16) })],
  icrc21_canister_call_consent_message: [T.record({ method: T.text, arg: T.blob, user_preferences: T.record({ metadata: T.record({ language: T.text, utc_offset_minutes: T.opt(T.int16) }), device_spec: T.opt(T.variant({ GenericDisplay: T.null, LineDisplay: T.record({ characters_per_line: T.nat16, lines_per_page: T.nat16 }) })) }) })],
  mint: [T.record({ mint_requests: T.vec(T.record({ token_owner: Account, metadata: Meta, memo: T.opt(T.blob) })) })],
};

function plain(v) { return JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x.toString() + 'n' : x && x.type === 'Buffer' ? '0x' + Buffer.from(x.data).toString('hex') : x); }
function initArgs(o = {}) {
  return Object.assign({ test_mode: true, version: { major: 0, minor: 0, patch: 1 }, commit_hash: 'h', permissions: { user_permissions: [] }, description: null, symbol: 'SYM', name: 'Name', logo: null, supply_cap: null, max_query_batch_size: null, max_update_batch_size: null, max_take_value: null, default_take_value: null, max_memo_size: null, atomic_batch_transfers: null, tx_window: null, permitted_drift: null, max_canister_storage_threshold: null, collection_metadata: [], approval_init: { max_approvals_per_token_or_collection: null, max_revoke_approvals: null } }, o);
}
// Client bound to one canister. Results: {ok: value} | {reject: [code, text]}.
class Core {
  constructor(world, id) { this.w = world; this.id = id; this.calls = 0; }
  static deploy(world, wasm, controller, init) {
    const id = world.createCanister([controller]);
    const r = world.install(id, wasm, encode([Args], [{ Init: initArgs(init) }]), controller);
    if (!r.ok) return { trap: r.trap };
    world.run();
    return new Core(world, id);
  }
  upgradeTo(wasm, controller, v = {}) { return this.w.upgrade(this.id, wasm, encode([Args], [{ Upgrade: { version: v.version || { major: 0, minor: 0, patch: 2 }, commit_hash: v.commit_hash === undefined ? 'h2' : v.commit_hash } }]), controller); }
  enc(m, args) { const t = types[m] || []; return encode(t, args); }
  dec(r) { if (r.reject) return { reject: r.reject, pending: r.pending, trap: r.trap }; const d = decode(r.reply); return { ok: d.length ? d[0] : undefined }; }
  u(caller, m, ...args) { this.calls++; return this.dec(this.w.update(this.id, m, this.enc(m, args), caller)); }
  q(caller, m, ...args) { this.calls++; return this.dec(this.w.query(this.id, m, this.enc(m, args), caller)); }
  send(caller, m, ...args) { this.calls++; return this.w.submit(this.id, m, this.enc(m, args), caller); }
}
module.exports = { T, encode, decode, Account, Version, Value, Permission, PERMS, Meta, InitArgs, Args, TransferArg, ApprovalInfo, types, plain, initArgs, Core };
