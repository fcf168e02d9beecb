#!/usr/bin/env python3
# Writes ../properties.jsonl (kept as a script so that the statements stay easy to edit).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H = "arwen/host/"; C = "arwen/contexts/"; E = "arwen/elrondapi/"
NOVM = "None of the reliably passing tests executes a contract (the WASM engine library is absent), and the repository's own VM tests sample a few hand-written contracts. "

prop("P01", "Gas is conserved across every contract execution",
 "For every contract call, deployment and upgrade that succeeds, the gas provided equals the gas remaining plus the gas attributed to the output accounts plus the gas forwarded with and locked for the outgoing transfers. The remaining gas never exceeds what was provided, and an execution that fails leaves no gas at all. Nested calls hand back to their caller exactly what they did not spend.",
 ["programs", "inputs", "histories"], "all contract programs, nested in any way (calls, deployments, upgrades, protocol functions, transfers, async calls), all gas amounts",
 NOVM + "Conservation must hold over every call tree, gas amount and failure point.",
 [C+"metering.go", C+"output.go", H+"execution.go", H+"asyncCall.go"],
 [("metering state stack with push/pop/merge and gas-used-by-account bookkeeping", C+"metering.go"), ("restoring unspent gas after nested calls", H+"execution.go")],
 observe=["VMOutput.GasRemaining", "OutputAccount.GasUsed", "OutputTransfer.GasLimit/GasLocked"])

prop("P02", "Every instruction and host call is paid for at the active gas prices",
 "Every executed instruction and every host call costs the price which the active gas schedule gives it, including its per-byte part, and the cost is charged to the contract which executes it. An execution whose cost would exceed its gas stops with an out-of-gas failure before the effect of the unpaid operation can be kept. The cost of a call is therefore a function of the program, its input and the active schedule alone.",
 ["programs", "inputs", "configurations"], "all instructions and host functions, all argument lengths, all gas schedules, all gas limits",
 NOVM + "A price must be charged for every host function, length and schedule; the samples use one or two schedules and few functions.",
 [C+"metering.go", E+"elrondei.go", E+"bigIntOps.go", E+"smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "wasmer/opcodes.go", "config/gasSchedule.go", "config/gasCost.go", C+"storage.go"],
 [("UseGas at the start of every API function", E+"elrondei.go"), ("opcode cost array handed to the engine", "config/gasCost.go"), ("initial gas deduction for compilation and code", C+"metering.go")],
 observe=["points used by the running instance around each host call", "VMOutput.GasRemaining"])

prop("P03", "Native value is conserved and never overdrawn",
 "Over every execution the balance changes reported for all accounts add up to exactly the value that arrived with the transaction, counting value that leaves with outgoing transfers once at its receiver. No account, and no nested call, can send more than it has at that moment, and no negative amount can be sent. Balances that contracts read during the execution already reflect all transfers made before.",
 ["programs", "inputs", "histories"], "all sequences of transfers by value, transfer-and-execute, nested calls, deployments and failures; all amounts",
 NOVM + "The sum and the bounds have to hold for every history of transfers and reverted calls.",
 [C+"output.go", C+"blockchain.go", H+"execution.go", H+"asyncCall.go", E+"elrondei.go"],
 [("TransferValueOnly balance and sign checks", C+"output.go"), ("balance computed from pre-state plus delta", C+"blockchain.go")],
 observe=["OutputAccount.BalanceDelta", "OutputTransfer.Value", "getExternalBalance results"])

prop("P04", "Token transfers move exactly the requested tokens or nothing",
 "A token transfer requested by a contract reaches the protocol's transfer function once with exactly the requested sender, receiver, token, nonce and amount, and its result is what the output and later reads show. A transfer that is refused, including one for more than is owned or a follow-up call that fails, moves nothing and reports failure to the contract. The called contract sees exactly the token payment that was made to it.",
 ["programs", "inputs", "histories"], "all token/NFT transfers from contracts, with and without a call, same-shard and cross-shard, with failing receivers",
 NOVM + "Token paths are covered by a handful of scenarios with successful transfers.",
 [H+"execution.go", C+"output.go", E+"elrondei.go"],
 [("ExecuteESDTTransfer and builtin output merging", H+"execution.go"), ("TransferESDT", C+"output.go"), ("transferESDTExecute / transferESDTNFTExecute", E+"elrondei.go")],
 observe=["protocol function invocations seen by the blockchain", "OutputTransfer data", "getESDT* results inside the callee"])

prop("P05", "A failed transaction leaves no effect",
 "When a call, deployment or upgrade ends with anything other than success, the result carries no state change: no account, balance, storage, code or transfer, no log entry, no refund, no remaining gas and no contract-produced data. This holds whatever made it fail: a contract signal, out of gas, a trap, a bad function or code, a failed nested operation or an internal fault.",
 ["programs", "fault_sequences", "inputs"], "all programs, every point at which they fail and every failure kind",
 NOVM + "Failure can strike after any prefix of effects; tests fail early and check the message.",
 [C+"output.go", H+"execution.go", H+"breakpoints.go"],
 [("CreateVMOutputInCaseOfError", C+"output.go"), ("breakpoint handling", H+"breakpoints.go")],
 observe=["VMOutput of failed executions"])

prop("P06", "Nested calls take effect completely or not at all",
 "When a contract calls, deploys or upgrades another contract and that operation fails, none of its balance, storage, code, log, return-data, refund or nonce effects remain, and the caller continues with its own state as it was. When it succeeds, all of its effects become visible to the caller and appear in the final result in order. Depth and earlier failures make no difference.",
 ["programs", "histories", "fault_sequences"], "all call trees mixing the kinds of nested calls with failures at any node",
 NOVM + "Every node of every call tree may fail; tests have depth two and one failing node.",
 [H+"execution.go", C+"output.go", C+"storage.go", C+"runtime.go", C+"bigint.go", C+"blockchain.go", C+"metering.go"],
 [("state stacks with PopSetActiveState / PopMergeActiveState / PopDiscard", C), ("finishExecuteOnDestContext / finishExecuteOnSameContext", H+"execution.go")],
 observe=["VMOutput", "values read back by contracts after nested calls"])

prop("P07", "Contract storage reads the last write and is reported exactly",
 "Within an execution a storage read returns the last value written to that key of that contract, or else the stored value, also across nested calls; an empty value means absent. A write reports unchanged, added, modified or deleted truthfully, touches only the running contract's storage, and the result carries the final value of every key written and changes no other. A query of a time lock reports the recorded time, and whether it is over.",
 ["programs", "inputs", "histories"], "all sequences of reads and writes of arbitrary keys and values over several contracts and nested calls",
 NOVM + "A map semantics over all histories and nestings is sampled by single write/read pairs.",
 [C+"storage.go", E+"elrondei.go", E+"bigIntOps.go", E+"smallIntOps.go"],
 [("storage updates cache per account", C+"storage.go"), ("storage lock keys", E+"elrondei.go")],
 observe=["storage API return values", "OutputAccount.StorageUpdates", "blockchain storage reads"])

prop("P08", "Contracts cannot change storage under the protected prefix",
 "No contract can write, clear or replace a storage entry whose key starts with the protocol's protected prefix, by any storage function, directly or through a nested or same-context call. The attempt is reported as a failure and leaves the entry as it was; every other key stays writable.",
 ["programs", "inputs", "configurations"], "all keys around the protected prefix, all storage-writing functions and call kinds",
 NOVM + "Keys and routes are unbounded; the unit test tries three keys on one function.",
 [C+"storage.go", C+"reservedFunctions.go", E+"elrondei.go"],
 [("protected prefix check in SetStorage", C+"storage.go")],
 observe=["StorageUpdates", "return values of storage functions"])

prop("P09", "Read-only execution changes nothing",
 "While a contract runs in read-only mode, nothing it or anything it calls does can change storage, move value or tokens, create or upgrade contracts, or emit log entries; such attempts are refused or have no effect. The mode lasts until the call that started it returns, and then the caller is back in the mode it was in.",
 ["programs", "histories"], "all programs started read-only, including nested calls of every kind, and what follows in the caller",
 NOVM + "Any function of any callee may try to write; tests try one.",
 [E+"elrondei.go", C+"runtime.go", C+"storage.go", C+"output.go", H+"execution.go"],
 [("readOnly flag in the runtime state", C+"runtime.go"), ("checks in SetStorage/WriteLog/CreateNewContract", C)],
 observe=["VMOutput after executions with read-only sections"])

prop("P10", "Host functions touch only the memory the contract names",
 "A host function reads and writes guest memory only inside the ranges its arguments describe, never outside the contract's memory, and writes exactly the data it returns. Ranges that do not fit are refused, or read as zeros beyond the end, without any access beyond the memory and without bringing down the node, whatever the offsets, lengths and counts.",
 ["inputs", "programs"], "all host functions, all offsets, lengths and counts including negative, overflowing and boundary ones, all memory sizes including growth",
 NOVM + "The unit tests check a few bounds on two memory helpers with a mock memory.",
 [C+"runtime.go", E+"elrondei.go", E+"bigIntOps.go", "arwen/cryptoapi/cryptoei.go", "wasmer/memory.go"],
 [("MemLoad/MemStore bounds checks", C+"runtime.go"), ("memory view from the engine", "wasmer/memory.go")],
 observe=["guest memory before and after each host call, guard pages around it"])

prop("P11", "No contract or input can break the VM or affect later executions",
 "Whatever bytes are deployed, whatever a contract does and whatever arguments arrive, the VM returns a result instead of crashing, hanging beyond its gas, or panicking out of its interface. All engine resources taken by an execution are released, and any number of failing executions leaves the VM able to run later ones with the same results as a fresh VM.",
 ["programs", "inputs", "histories"], "all code bytes, host-call sequences and arguments, and all histories of failing executions before a good one",
 NOVM + "Hostile inputs and histories are unbounded; tests run each contract once on a fresh VM.",
 [H+"arwen.go", H+"execution.go", C+"runtime.go", "wasmer/bridge.go", "wasmer/instance.go", E+"elrondei.go"],
 [("recover around executions", H+"arwen.go"), ("instance stack cleaning", C+"runtime.go"), ("running instances limit", C+"runtime.go")],
 observe=["process exit", "live engine instances and memories", "results of probe calls after hostile ones"])

prop("P12", "Execution is deterministic and independent of caching and history",
 "The same input on the same chain state yields the same result byte for byte: return code, message, data, gas, accounts, storage, transfers and logs in the same order. It makes no difference which executions the VM ran before, whether the code came from the compilation cache or was compiled anew, or in which process it runs.",
 ["programs", "histories", "configurations"], "all programs and inputs; all earlier histories on the same VM; cold and warm compilation cache",
 NOVM + "Consensus needs equality over all histories; no test compares runs.",
 [C+"runtime.go", H+"arwen.go", C+"output.go", H+"asyncCall.go"],
 [("InitState of all contexts per execution", H+"arwen.go"), ("compiled code cache keyed by code hash", C+"runtime.go")],
 observe=["canonical encoding of VMOutput over repeated runs"])

prop("P13", "Only well-formed code deploys and only its entry points can be called",
 "Deployment and upgrade accept only code that has a memory, exports only functions without parameters or results under legal names that are not reserved for the protocol, and imports only what the VM offers; anything else is refused as an invalid contract. A transaction can run exactly the functions the code exports: initialisation cannot be called as a function, and a transaction reaches the callback entry point only as a callback.",
 ["inputs", "programs"], "all modules with arbitrary exports, names and signatures; all requested function names and call types",
 NOVM + "Names, exports and call types combine without bound; unit tests check a few names on the validator.",
 [C+"validator.go", C+"reservedFunctions.go", C+"runtime.go", H+"execution.go"],
 [("VerifyContractCode", C+"runtime.go"), ("function name validation", C+"validator.go"), ("verifyAllowedFunctionCall", H+"execution.go")],
 observe=["return code and whether the contract body ran"])

prop("P14", "Contract code is created and replaced only as authorised",
 "A deployment puts exactly the given code and metadata, with the deployer recorded, at the address the chain assigns, runs its initialisation once with the deployment arguments, and happens only if that succeeds; each further deployment by the same contract gets a new address. A contract can be upgraded from another contract only if it is upgradeable and the requester owns it; otherwise its code stays.",
 ["programs", "histories", "inputs"], "all direct and indirect deployments and upgrades, with any metadata, owner, arguments and failing initialisation",
 NOVM + "Authorisation must hold for all owners/metadata/paths; tests try one owner.",
 [H+"execution.go", C+"output.go", C+"blockchain.go", C+"runtime.go", E+"elrondei.go"],
 [("checkUpgradePermission", H+"execution.go"), ("DeployCode", C+"output.go"), ("NewAddress / IncreaseNonce", C+"blockchain.go")],
 observe=["OutputAccount.Code/CodeMetadata/CodeDeployerAddress", "init invocations"])

prop("P15", "Asynchronous calls run once and are answered by exactly one callback",
 "An asynchronous call delivers exactly the named function, arguments and value to its destination once: in place when the destination is on the same shard, otherwise as one outgoing transfer carrying the call and the gas locked for its callback. The caller's callback runs exactly once, after the call, with its return code and data, and value sent with a failed call returns to the caller. The called side of a cross-shard call answers with exactly one callback transfer.",
 ["programs", "histories", "fault_sequences"], "all callers, callees, callbacks and gas amounts, same-shard and cross-shard, with failures in call or callback",
 NOVM + "Shard placement, failure and gas combine; tests cover a fixed pair of contracts.",
 [H+"asyncCall.go", H+"breakpoints.go", H+"execution.go", C+"runtime.go", C+"metering.go"],
 [("handleAsyncCallBreakpoint, executeSyncCall, executeSyncCallbackCall", H+"asyncCall.go"), ("gas locking", C+"metering.go")],
 observe=["calls received by contracts with their arguments", "OutputTransfers of type asynchronous call / callback"])

prop("P16", "Big integer operations are exact mathematics",
 "Every big integer host function computes the mathematically exact result (truncated division, bit operations on non-negative numbers, exact byte conversions in both directions) and stores it only in its destination handle. Undefined operations, such as division by zero, negative shifts or bit operations on negatives, are refused. Handles belong to one execution context: other contracts called with their own context cannot see or change the caller's numbers.",
 ["inputs", "programs"], "all operations, operand values of any sign and size, all aliasing of handles, all nestings",
 NOVM + "Aliasing and magnitude are unbounded; no passing test calls these functions.",
 [E+"bigIntOps.go", C+"bigint.go"],
 [("big.Int operations on handles", E+"bigIntOps.go"), ("handle map with state stack", C+"bigint.go")],
 observe=["all handles after every operation, compared with an independent evaluation"])

prop("P17", "Arguments and returned data pass unchanged between contracts",
 "A contract reads exactly the arguments it was called with: their number, order, bytes and their integer readings; an argument that does not exist or does not fit is refused. The data a contract returns arrives unchanged and in order at the caller of the execution and at a calling contract, with integers in their minimal encoding. Writing a small integer to an output or storage and reading it back yields the same number.",
 ["inputs", "programs", "histories"], "all argument lists (including empty and many), all integer widths and signs, all nested call kinds",
 NOVM + "Round trips must hold for all values; tests pass a few literals.",
 [E+"elrondei.go", E+"smallIntOps.go", E+"bigIntOps.go", C+"output.go", "arwen/helpers.go"],
 [("argument accessors", E+"elrondei.go"), ("Finish and return data", C+"output.go")],
 observe=["API return values and guest memory", "VMOutput.ReturnData"])

prop("P18", "Contracts see the true transaction and chain environment",
 "What a contract is told about its situation is what the chain and the transaction state: caller, own and owner address, value and token payment, transaction hashes, gas left, block and previous block time, nonce, round, epoch and random seed, state root, balances, shards, and whether an address is a contract. In nested calls these describe the nested call, and after it returns, the caller's own again.",
 ["inputs", "programs", "histories"], "all transactions, chain states and nestings",
 NOVM + "Two similar getters are easily confused; no passing test calls them.",
 [E+"elrondei.go", C+"blockchain.go", C+"runtime.go"],
 [("environment getters", E+"elrondei.go"), ("blockchain context getters", C+"blockchain.go")],
 observe=["API return values and guest memory"])

prop("P19", "Hashes and signature checks agree with the reference algorithms",
 "The hashes a contract computes equal the standard functions on exactly the given bytes. A signature check accepts exactly the valid signatures for the given key and message under BLS, Ed25519 and Secp256k1, and rejects every altered key, message or signature and every malformed encoding, without failing in any other way.",
 ["inputs"], "all messages, keys, signatures and encodings, including corrupted and truncated ones",
 "The passing tests check BLS and a few fixed vectors on the wrappers; nothing exercises the contract-facing functions or systematic corruption.",
 ["arwen/cryptoapi/cryptoei.go", "crypto/hashing/hasher.go", "crypto/signing/bls/bls.go", "crypto/signing/ed25519/ed25519.go", "crypto/signing/secp256k1/secp256k1.go"],
 [("hash and verify wrappers", "crypto/")],
 observe=["API return values and memory"])

prop("P20", "Gas schedule changes are atomic and exclude running executions",
 "A change of the gas schedule takes effect for all later executions as a whole, for instructions and host calls alike, and never during an execution, also when executions and changes arrive concurrently. A schedule which is incomplete or has a missing or zero price is refused and the previous prices remain in force.",
 ["schedules", "configurations", "inputs"], "all interleavings of executions and schedule changes; all schedules with any entry missing or zero",
 NOVM + "Interleavings and incomplete schedules are not sampled.",
 [H+"arwen.go", "config/gasSchedule.go", C+"metering.go", "wasmer/bridge.go"],
 [("execution mutex", H+"arwen.go"), ("CreateGasConfig validation", "config/gasSchedule.go")],
 observe=["gas used by concurrent executions, race detector"])

prop("P21", "Out-of-process execution gives the same results as in-process",
 "Running a contract in the separate VM process gives the node the same result as running it inside the node: every field of the inputs, of the blockchain queries and answers made during the execution, of errors and of the output crosses the process boundary unchanged. Every blockchain query the VM can make is served.",
 ["inputs", "programs", "histories"], "all inputs, outputs, queries and errors that can cross the boundary",
 "The passing tests round-trip a few messages through the marshalizers; no test compares both modes.",
 ["ipc/arwenpart/part.go", "ipc/nodepart/part.go", "ipc/nodepart/messenger.go", "ipc/arwenpart/blockchainGateway.go", "ipc/common/messagesContracts.go", "ipc/common/messagesBlockchain.go", "ipc/common/serializableVMOutput.go"],
 [("request/response messages and repliers", "ipc/"), ("serializable VMOutput", "ipc/common/serializableVMOutput.go")],
 observe=["results of both modes", "queries arriving at the node's blockchain"])

prop("P22", "Inter-process messages arrive whole, in order, and errors end the dialogue",
 "Every message sent between node and VM process arrives once, in order and byte for byte, whatever its size and however the transport splits it. A truncated, oversized, garbled or unexpected message, or a peer that disappears or is too slow, yields an error instead of a wrong message, a hang or a crash, and a question is only ever paired with its own answer.",
 ["schedules", "fault_sequences", "inputs"], "all message sequences, sizes, chunkings, delays and injected transport faults",
 "The tests send a few short messages over an ideal pipe.",
 ["ipc/common/messenger.go", "ipc/common/sender.go", "ipc/common/receiver.go", "ipc/nodepart/part.go", "ipc/arwenpart/part.go"],
 [("length-prefixed frames", "ipc/common/"), ("dialogue nonces and kinds", "ipc/nodepart/part.go")],
 observe=["messages received against messages sent"])

prop("P23", "Scenario values and files have one meaning and round-trip",
 "Every scenario value expression denotes exactly one byte string as documented (numbers, strings, hex, addresses, hashes, concatenations, typed widths), and any expression that does not is rejected. Writing a scenario back and reading it again gives an equal scenario, and reconstructing an expression from bytes as a number, an address or a string gives one that reads back as the same bytes. JSON key order is kept.",
 ["inputs"], "all expressions of the value grammar, all scenario files",
 "The passing tests hold literal examples; the grammar is infinite.",
 ["mandos-go/expression/interpreter/interpreter.go", "mandos-go/expression/reconstructor/reconstructor.go", "mandos-go/json/parse/", "mandos-go/json/write/", "mandos-go/orderedjson/"],
 [("expression interpreter", "mandos-go/expression/interpreter/"), ("JSON writer", "mandos-go/json/write/")],
 observe=["interpreted bytes against an independent evaluation; parse/write/parse"])

prop("P24", "Scenario execution applies steps faithfully and reports every mismatch",
 "The scenario runner applies successful transactions to its world exactly and failed ones not at all, apart from the sender's nonce and gas payment. A scenario passes if and only if every expectation it states about results, accounts, storage, balances and logs matches; changing any expected value so that it no longer matches makes it fail.",
 ["inputs", "histories", "programs"], "all scenarios: sequences of state settings, transactions and checks; all single mutations of expectations",
 NOVM + "A runner that misses mismatches makes every contract test vacuous; nothing tests the tester.",
 ["arwenmandos/", "mock/world/", "mandos-go/controller/"],
 [("checkTxResults, checkAccounts", "arwenmandos/"), ("UpdateWorldStateAfterTx", "mock/world/")],
 observe=["verdicts of the runner, world state after each step"])

prop("P25", "Gas and size arithmetic saturates and never wraps",
 "The arithmetic used for gas and sizes returns the exact result when it is representable and the nearest bound otherwise, reporting the overflow to callers that ask for it. No sequence of such operations can turn a huge cost into a small one.",
 ["inputs"], "all operand pairs of every width, in particular near the bounds",
 "The passing tests check some pairs.",
 ["math/overflow.go", "arwen/helpers.go"],
 [("saturating operations", "math/")],
 observe=["results against arbitrary-precision arithmetic"])

prop("P26", "Log entries and outgoing transfers report exactly what contracts did",
 "Every log entry a contract writes in a successful execution appears once, in order, with the contract's address, its identifier, topics and data unchanged. Every outgoing transfer appears once, in order, with its sender, receiver, value, data, gas and call type, and the data of a call read back by the protocol's parser gives the same function and arguments.",
 ["programs", "inputs", "histories"], "all sequences of log writes and transfers with arbitrary data over nested calls",
 NOVM + "Order and content over nested calls and arbitrary data are unsampled.",
 [C+"output.go", E+"elrondei.go", H+"asyncCall.go", H+"execution.go"],
 [("WriteLog, Transfer and merging of outputs", C+"output.go")],
 observe=["VMOutput.Logs", "OutputAccount.OutputTransfers"])

prop("P27", "The debug database persists every session step exactly",
 "The debugging tool's sessions behave like one continuous chain: after any sequence of account creations, deployments, upgrades, runs and queries, each issued by a new process, the stored world equals the one a single continuous world would have. Queries and failed transactions change nothing, and an existing world is never mixed with another.",
 ["histories", "inputs"], "all sequences of requests over one or several worlds, with reload between any two steps",
 "The repository's test runs one fixed sequence in one process and is not among the reliably passing ones.",
 ["arwendebug/facade.go", "arwendebug/database.go", "arwendebug/world.go", "arwendebug/worldInput.go", "mock/world/worldCallbacks.go"],
 [("JSON database of worlds", "arwendebug/database.go"), ("world data model conversion", "arwendebug/world.go")],
 observe=["database content and responses after every request"])

prop("P28", "Same-context execution runs foreign code as the caller",
 "Code executed on the caller's context reads and writes the storage of the calling contract, appends to its returned data and logs under the documented identity, is charged to the gas handed to it, and leaves the other contract's own storage untouched. When it returns, the caller's identity, arguments and memory are what they were, and if it fails the big integers too.",
 ["programs", "histories", "inputs"], "all programs executed on the same context, nested and mixed with other call kinds",
 NOVM + "Mixed nestings of both call kinds are unsampled.",
 [H+"execution.go", C+"runtime.go", C+"storage.go", E+"elrondei.go"],
 [("ExecuteOnSameContext", H+"execution.go")],
 observe=["storage updates, environment reads before and after"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
