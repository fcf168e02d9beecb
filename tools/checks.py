t("P25","property monitor with an exact big-integer oracle over boundary and random operation sequences")
NA={}
U="online comparison of random multi-contract histories on the real VM with a reference model (monitoring engine, gas/memory/result/state monitors); "
t("P01",U+"emphasis on gas hand-over")
t("P02",U+"emphasis on prices of all host calls and instructions")
t("P03",U+"emphasis on value transfers, conservation sums")
t("P04",U+"emphasis on token transfers, recorded calls to the protocol's functions")
t("P05",U+"emphasis on failures of every kind")
t("P06",U+"emphasis on nested failures")
t("P07",U+"emphasis on storage")
t("P08",U+"emphasis on protected keys")
t("P09",U+"emphasis on read-only execution")
t("P14",U+"emphasis on deployments and upgrades")
t("P15",U+"emphasis on asynchronous calls, callbacks and answers")
t("P16",U+"exact big-integer oracle")
t("P17",U+"emphasis on arguments and returned data")
t("P18",U+"emphasis on environment queries")
t("P26",U+"emphasis on logs and transfers")
t("P28",U+"emphasis on same-context execution")
t("P19","independent reference implementations against host functions and crypto objects, known answers, race detector")
t("P21","differential monitor: random values through every query and run message between the real parts, random contracts in-process against NodePart+ArwenPart and the driver with a child process, outputs and query logs compared")
t("P22","fault injection into the transport and hostile peers against the real messengers, parts and driver; exact-prefix oracle, hang, panic and memory watchdogs")
t("P23","round-trip and differential monitor: generated and damaged scenario expressions and files through the real interpreter, parser, writer and reconstructor against an independent evaluation of the value grammar")
t("P24","random scenarios (contracts, deployments, queries, token and value transfers, refused transactions) on the real runner with a reference world compared after every step; the scenario stating the outcome must pass and each changed expectation must fail")
t("P10","every host function with valid and hostile ranges, each transaction run twice with different bytes outside the described ranges; guest memory changes, arriving data, growth and survival under a memory limit judged against an independent range model")
t("P11","hostile histories on one VM (junk code, failing and panicking hooks, hostile host calls, hostile WASM bodies, hostile arguments, endless nesting) with monitors for a result, engine instances and memories alive, time, and a probe transaction after every one compared with a fresh VM")
t("P12","random transaction histories replayed on VMs with different pasts, with and without cached compiled code and in other processes; all outputs and chain states compared byte for byte")
t("P13","valid and defective modules offered through every deployment and upgrade route, deployed contracts called under exported, similar, missing and reserved names; acceptance and the functions which ran judged by construction")
t("P20","histories of gas schedule changes (valid, partial, malformed, refused, begun during executions and concurrent) on the host, through the VM parts and through the driver; each execution compared with a reference VM made with the schedule in force, all instruction prices compared, race detector")
t("P27","random histories of arwendebug requests through fresh facades, child processes and the real program on stored worlds, compared after each request with one world kept in memory; whole state read back by contract queries; unreadable and foreign world files")
