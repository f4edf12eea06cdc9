"""What each check runs: models, walk generators, drivers and the trace specification judging them."""

def mc(module, cfg, **kw):
    return {"module": module, "cfg": cfg, **kw}

OBJ_GEN = {"quick": [{"name": "obj", "module": "ObjectsGen", "cfg": "ObjectsGen.cfg"},
                     {"name": "objrich", "module": "ObjectsGen", "cfg": "ObjectsGenRich.cfg"}],
           "thorough": [{"name": "obj", "module": "ObjectsGen", "cfg": "ObjectsGenDeep.cfg"},
                        {"name": "objrich", "module": "ObjectsGen", "cfg": "ObjectsGenRich.cfg"}]}
T = "ObjectsTrace"
OBJ_WALKS = [{"test": "TestObjectsWalks", "walks": "obj", "spec": T}, {"test": "TestObjectsWalks", "walks": "objrich", "spec": T}]
OBJ_RANDOM = [{"test": "TestObjectsRandom", "spec": T}, {"test": "TestObjectsNear", "spec": T}]
OBJ_FAULTS = [{"test": "TestObjectsFaults", "spec": T}]
OBJ_TAMPER = [{"test": "TestObjectsTamper", "spec": T}]

CRYPTO_ASSUMPTION = "cryptographic primitives are idealised in the models (a ciphertext opens only under its key and associated data)"
STORE_ASSUMPTION = "the storage provider used by the drivers is an in-memory map that is correct except for the failures and edits injected on purpose"

CHECKS = {}
NOT_APPLICABLE = {}

NOTE = ("The design is checked exhaustively by TLC within small constants (%s); the code is bound to the "
        "specification by judging recorded executions with TLC (%s). Behaviour that no driver reaches is not covered; "
        "cryptography is idealised in the models.")

def obj_mc(*names):
    return {"quick": [mc("ObjectsMC", f"ObjectsMC_{n}.cfg", min=1000) for n in names],
            "thorough": [mc("ObjectsMC", f"ObjectsMC_{n}_deep.cfg", min=1000, timeout=800) for n in names]}

for p in ("C01", "C02", "C03", "C04"):
    CHECKS[p] = {"note": NOTE % ("2 objects, 2 IDs, 4-5 calls at storage-call granularity", "every transition of the bounded sequential model plus random histories"),
                 "mc": obj_mc("Seq"), "gen": OBJ_GEN, "drivers": OBJ_WALKS + OBJ_RANDOM,
                 "assumptions": [CRYPTO_ASSUMPTION, STORE_ASSUMPTION]}
CHECKS["C03"] = {**CHECKS["C03"], "drivers": CHECKS["C03"]["drivers"] + [{"test": "TestObjectsShapes", "spec": T}]}
CHECKS["C05"] = {"note": NOTE % ("1-2 objects, 4-5 calls, every position of up to 2 storage failures", "walks, random histories, every failing storage call in several states"),
                 "mc": obj_mc("Faults"), "gen": OBJ_GEN, "drivers": OBJ_WALKS + OBJ_RANDOM + OBJ_FAULTS,
                 "assumptions": [CRYPTO_ASSUMPTION, STORE_ASSUMPTION]}
CHECKS["C06"] = {"note": NOTE % ("1-2 objects, 4-5 calls, every position of up to 2 storage failures", "every storage call of every operation failing before or after taking effect, in several states, then further calls; random failures") + " One genuine defect (torn Update) is a known finding.",
                 "mc": obj_mc("Faults"), "drivers": OBJ_FAULTS, "assumptions": [CRYPTO_ASSUMPTION, STORE_ASSUMPTION]}
CHECKS["C07"] = {"note": NOTE % ("3-4 calls and 2 arbitrary edits by an adversary replaying any record or field ever stored", "all exchanges of records and fields between saved versions of two objects, every bit of every field, random edits"),
                 "mc": obj_mc("Edits"), "drivers": OBJ_TAMPER, "assumptions": [CRYPTO_ASSUMPTION, STORE_ASSUMPTION]}

TOK = "TokensTrace"
TOK_GEN = [{"name": "tok", "module": "TokensGen", "cfg": "TokensGen.cfg"}]
TOK_MC = {"quick": [mc("TokensGen", "TokensMC.cfg", min=1000)], "thorough": [mc("TokensGen", "TokensMC_deep.cfg", min=1000)]}
TOK_ASSUMPTION = "time is the simulated clock of Go's testing/synctest; instants are exact to the nanosecond; zones have whole-minute offsets"
CHECKS["C10"] = {"mc": TOK_MC, "gen": TOK_GEN,
                 "drivers": [{"test": "TestTokensWalks", "walks": "tok", "spec": TOK}, {"test": "TestTokensRandom", "spec": TOK}, {"test": "TestTokensShapes", "spec": TOK}],
                 "note": NOTE % ("2-3 tokens, 5 clock ticks, 2 keys, every combination of fields", "every transition of the bounded model at several clock scales and zones, random histories around the expiry, simulated clock"),
                 "assumptions": [CRYPTO_ASSUMPTION, TOK_ASSUMPTION]}
CHECKS["C11"] = {"mc": TOK_MC, "gen": TOK_GEN,
                 "drivers": [{"test": "TestTokensWalks", "walks": "tok", "spec": TOK}, {"test": "TestTokensRandom", "spec": TOK}, {"test": "TestTokensTamper", "spec": TOK}],
                 "note": NOTE % ("2-3 tokens, 5 clock ticks, 2 keys, every combination of fields", "every transition of the bounded model, every bit of every field and of the decoded string form, character edits, garbage"),
                 "assumptions": [CRYPTO_ASSUMPTION, TOK_ASSUMPTION]}

IX = "IndexTrace"
IDX_MC = {"quick": [mc("IndexMC", "IndexMC.cfg", min=1000)], "thorough": [mc("IndexMC", "IndexMC_deep.cfg", min=1000)]}
IDX_GEN = {"quick": [{"name": "idx", "module": "IndexGen", "cfg": "IndexGen.cfg"}, {"name": "idxlong", "module": "IndexGen", "cfg": "IndexGenLong.cfg"}],
           "thorough": [{"name": "idx", "module": "IndexGen", "cfg": "IndexGenDeep.cfg"}, {"name": "idxlong", "module": "IndexGen", "cfg": "IndexGenLongDeep.cfg"}]}
IDX_SEQ = [{"test": "TestIndexWalks", "walks": "idx", "spec": IX}, {"test": "TestIndexWalks", "walks": "idxlong", "spec": IX},
           {"test": "TestIndexRandom", "spec": IX}, {"test": "TestIndexNear", "spec": IX}, {"test": "TestIndexLong", "spec": IX}]
IDX_FAULTS = [{"test": "TestIndexFaults", "spec": IX}, {"test": "TestIndexOutages", "spec": IX}]
IDX_BOUND = "2 keywords, 2-3 identifiers, lists up to 4-5, chains of stored nodes with failures at every storage call"
IDX_ASSUME = [CRYPTO_ASSUMPTION, STORE_ASSUMPTION]
CHECKS["C12"] = {"mc": IDX_MC, "gen": IDX_GEN, "drivers": IDX_SEQ + [{"test": "TestIndexShapes", "spec": IX}], "assumptions": IDX_ASSUME,
                 "note": NOTE % (IDX_BOUND, "every transition of the bounded sequential model, random histories with awkward keywords and identifiers, lists of hundreds of entries, positions beyond 16384")}
CHECKS["C13"] = {"mc": IDX_MC, "gen": IDX_GEN, "drivers": IDX_SEQ + IDX_FAULTS, "assumptions": IDX_ASSUME,
                 "note": NOTE % (IDX_BOUND, "refused and permitted callers in every state of the bounded model and in random histories")}
CHECKS["C14"] = {"mc": IDX_MC, "drivers": IDX_FAULTS, "assumptions": IDX_ASSUME,
                 "note": NOTE % (IDX_BOUND, "every storage call of every operation on all lists of up to 4-5 entries failing before or after taking effect, followed by further operations and failures; random failures; outages of one kind of storage operation over several calls")}
CHECKS["C15"] = {"mc": IDX_MC, "drivers": [{"test": "TestIndexTamper", "spec": IX}], "assumptions": IDX_ASSUME,
                 "note": NOTE % (IDX_BOUND, "every copy and exchange of stored records, older records, mixtures, every bit of a record, records beyond the end of a list")}
CHECKS["C16"] = {"mc": IDX_MC, "drivers": [{"test": "TestLabels", "spec": "LabelsTrace"}], "assumptions": [CRYPTO_ASSUMPTION],
                 "note": NOTE % (IDX_BOUND, "labels and contents of entries under related keywords, hundreds of positions, several instances and keys differing in one bit")}

IP = "IdpTrace"
IDP_MC = {"quick": [mc("IdpMC", "IdpMC.cfg", min=1000)], "thorough": [mc("IdpMC", "IdpMC.cfg", min=1000), mc("IdpMC", "IdpMC_deep.cfg", min=1000, timeout=900)]}
IDP_EDITS = {"quick": [mc("IdpMC", "IdpMC_edits.cfg", min=1000)], "thorough": [mc("IdpMC", "IdpMC_edits.cfg", min=1000), mc("IdpMC", "IdpMC_edits_deep.cfg", min=1000, timeout=900)]}
IDP_GEN = {"quick": [{"name": "idp", "module": "IdpGen", "cfg": "IdpGen.cfg", "maxlen": 120}], "thorough": [{"name": "idp", "module": "IdpGen", "cfg": "IdpGenDeep.cfg", "maxlen": 150}]}
IDP_SEQ = [{"test": "TestIdpWalks", "walks": "idp", "spec": IP}, {"test": "TestIdpRandom", "spec": IP}, {"test": "TestIdpNear", "spec": IP}, {"test": "TestIdpMany", "spec": IP}]
IDP_ASSUME = [CRYPTO_ASSUMPTION, STORE_ASSUMPTION, "time is the simulated clock of Go's testing/synctest"]
IDP_BOUND = "2-3 users, 2 groups, 5-7 calls, failures before and after every write, edits replaying any record ever stored"
for p in ("C17", "C18"):
    CHECKS[p] = {"mc": IDP_MC, "gen": IDP_GEN, "drivers": IDP_SEQ, "assumptions": IDP_ASSUME,
                 "note": NOTE % (IDP_BOUND, "every transition of the bounded sequential model, random histories with wrong and old passwords, forged and expired tokens, a simulated clock")}
CHECKS["C19"] = {"mc": IDP_MC, "drivers": [{"test": "TestIdpFaults", "spec": IP}], "assumptions": IDP_ASSUME,
                 "note": NOTE % (IDP_BOUND, "every storage call of every operation failing before or after taking effect, once or from then on, followed by further calls and failures; random failures")}
CHECKS["C20"] = {"mc": IDP_EDITS, "drivers": [{"test": "TestIdpTamper", "spec": IP}], "assumptions": IDP_ASSUME,
                 "note": NOTE % (IDP_BOUND, "every copy, exchange and mixture of stored user and group records, older records, damaged fields, every bit of a record")}

KV = "KvTrace"
KV_GEN = {"quick": [{"name": "kv", "module": "KvGen", "cfg": "KvGen.cfg"}], "thorough": [{"name": "kv", "module": "KvGen", "cfg": "KvGenDeep.cfg"}]}
KV_MEM = {"quick": [mc("KvMC", "KvMC_mem.cfg", min=1000)], "thorough": [mc("KvMC", "KvMC_mem_deep.cfg", min=1000)]}
KV_BOLT = {"quick": [mc("KvMC", "KvMC_bolt.cfg", min=1000)], "thorough": [mc("KvMC", "KvMC_bolt_deep.cfg", min=1000)]}
KV_BOTH = {k: KV_MEM[k] + KV_BOLT[k] for k in KV_MEM}
CHECKS["C21"] = {"mc": KV_MEM, "gen": KV_GEN, "assumptions": ["the file system under Bolt works"],
                 "drivers": [{"test": "TestKvWalks", "walks": "kv", "spec": KV}, {"test": "TestKvRandom", "spec": KV}, {"test": "TestKvShapes", "spec": KV}],
                 "note": NOTE % ("2-3 callers, 4-5 calls on one item", "every transition of a map of 3-4 items on all providers, random histories with easily confused identifiers and types, buffers of the caller changed after every call")}
CHECKS["C22"] = {"mc": KV_BOTH, "assumptions": ["the goroutine schedules met during the run are a sample; recorded histories are judged exactly"],
                 "drivers": [{"test": "TestKvStress", "spec": KV}],
                 "note": NOTE % ("2-3 callers, 4-5 calls on one item, every interleaving of their steps", "histories of 2-4 goroutines racing on one item, searched for an explaining order")}
CHECKS["C23"] = {"mc": KV_BOLT, "assumptions": ["loss of power is simulated on the file of Bolt: sectors written since its last fdatasync survive or not by chance, synced ones survive; it happens after the file was first created, and to one caller at a time"],
                 "drivers": [{"test": "TestKvCrash", "spec": KV}, {"test": "TestKvPower", "spec": KV, "hooked": True, "may_be_empty": True}],
                 "note": NOTE % ("2-3 callers, 4 calls on one item, 1-2 kills or losses of power at any step of a transaction", "a process killed with SIGKILL at random instants while writing, reopened, and every item compared with what had been answered; the machine stopping at any sync of the file or between calls, with unsynced sectors lost; second opens")}

ENV = "EnvelopeTrace"
CHECKS["C24"] = {"mc": {"quick": [mc("EnvelopeMC", "EnvelopeMC.cfg", min=1000)], "thorough": [mc("EnvelopeMC", "EnvelopeMC_deep.cfg", min=1000)]},
                 "gen": {"quick": [{"name": "env", "module": "EnvelopeGen", "cfg": "EnvelopeGen.cfg", "maxlen": 300}],
                         "thorough": [{"name": "env", "module": "EnvelopeGen", "cfg": "EnvelopeGenDeep.cfg", "maxlen": 300}]},
                 "drivers": [{"test": "TestEnvelopeWalks", "walks": "env", "spec": ENV}, {"test": "TestEnvelopeRandom", "spec": ENV}],
                 "assumptions": [CRYPTO_ASSUMPTION],
                 "note": NOTE % ("4-5 sealed items, 2 keys, 2 associated data, every way of combining their parts", "every combination and class of alteration the model lists for several kinds of data, every bit of ciphertext and wrapped key, every cut, garbage of every length")}
CHECKS["C25"] = {"mc": {"quick": [mc("KwpMC", "KwpMC.cfg", min=1000)], "thorough": [mc("KwpMC", "KwpMC_deep.cfg", min=1000)]},
                 "gen": [{"name": "kwp", "module": "KwpGen", "cfg": "KwpGen.cfg"}],
                 "drivers": [{"test": "TestKwpCases", "walks": "kwp", "spec": "KwpTrace"}, {"test": "TestKwpRandom", "spec": "KwpTrace"}],
                 "assumptions": ["the permutation W is idealised in the model and implemented independently, from SP 800-38F, in the harness", "AES of the Go standard library"],
                 "note": NOTE % ("key lengths around block borders, every length field and every padding", "the strings listed by TLC, all key lengths, every bit of short wrapped keys, garbage of every length")}
KM_GEN = {"name": "kmac", "module": "KmacGen", "cfg": "KmacGen.cfg"}
CHECKS["C26"] = {"mc": {"quick": [mc("KmacMC", "KmacMC.cfg", min=1000)], "thorough": [mc("KmacMC", "KmacMC_deep.cfg", min=1000)]},
                 "gen": {"quick": [KM_GEN, {"name": "kmacseq", "module": "KmacSeqGen", "cfg": "KmacSeqGen.cfg", "maxlen": 300}],
                         "thorough": [KM_GEN, {"name": "kmacseq", "module": "KmacSeqGen", "cfg": "KmacSeqGenDeep.cfg", "maxlen": 300}]},
                 "drivers": [{"test": "TestKmacCases", "walks": "kmac", "spec": "KmacTrace"}, {"test": "TestKmacSeq", "walks": "kmacseq", "spec": "KmacTrace"},
                             {"test": "TestKmacTagger", "walks": "kmac", "spec": "KmacTrace"}],
                 "assumptions": ["Keccak is idealised in the model and implemented independently, from FIPS 202, in the harness"],
                 "note": NOTE % ("all strings of up to 3-6 bytes with a small rate, every alignment of the padding", "the frames computed by TLC from the definition for thousands of combinations of lengths, all short sequences of calls on one object, tags of many kinds of data") + " One defect of a dependency is a known finding."}
CHECKS["C27"] = {"mc": {"quick": [mc("PasswordMC", "PasswordMC.cfg", min=40)], "thorough": [mc("PasswordMC", "PasswordMC_deep.cfg", min=100)]},
                 "drivers": [{"test": "TestPassword", "spec": "PasswordTrace"}],
                 "assumptions": ["PBKDF2 is idealised (padded passwords excepted)", "fresh means read from crypto/rand in disjoint pieces"],
                 "note": NOTE % ("passwords of 4-6 characters, candidates up to 2 longer, 3 salts", "hundreds of generated passwords, hundreds of altered passwords, salts and hashes for each of several")}

SL = {"mc": {"quick": [mc("SealsMC", "SealsMC.cfg", min=1000)], "thorough": [mc("SealsMC", "SealsMC_deep.cfg", min=1000)]},
      "gen": {"quick": [{"name": "seals", "module": "SealsGen", "cfg": "SealsGen.cfg"}], "thorough": [{"name": "seals", "module": "SealsGen", "cfg": "SealsGenDeep.cfg"}]},
      "drivers": [{"test": "TestSeals", "walks": "seals", "spec": "SealsTrace"}]}
SL_BOUND = "4-5 calls of every kind, 1 restart, an observer keeping every term ever written, several sets of leaked master keys"
CHECKS["C08"] = {**SL, "assumptions": [CRYPTO_ASSUMPTION, "a leak shows at least 8 consecutive bytes of a secret, as they are or in a common encoding"],
                 "note": NOTE % (SL_BOUND, "every write of walks covering all small states and contents, searched for pieces of every secret in many encodings, compared with every other ciphertext, and compressed")}
CHECKS["C09"] = {**SL, "assumptions": ["unpredictable means read from crypto/rand in a piece of its own"],
                 "note": NOTE % (SL_BOUND, "every data key of walks, repetitions, concurrent callers and several processes unwrapped and traced back to the randomness it came from; records of all versions exchanged")}

KEYPARTS = ("obj", "idx", "tok", "idp")
CHECKS["C32"] = {"mc": {"quick": [mc("KeysMC", "KeysMC.cfg", min=1000)], "thorough": [mc("KeysMC", "KeysMC_deep.cfg", min=1000)]},
                 "gen": [{"name": "keys" + p, "module": "KeysGen", "cfg": f"KeysGen_{p}.cfg"} for p in KEYPARTS],
                 "drivers": [{"test": "TestKeysCreate", "spec": "KeysTrace"}, {"test": "TestKeysBits", "spec": "KeysTrace"}, {"test": "TestKeysRandom", "spec": "KeysTrace"}]
                            + [{"test": "TestKeysWalks", "walks": "keys" + p, "spec": "KeysTrace"} for p in KEYPARTS],
                 "assumptions": [CRYPTO_ASSUMPTION, STORE_ASSUMPTION],
                 "note": NOTE % ("4-6 calls of every kind by instances that differ from each other in one key, records as terms", "every transition of the bounded model with keys that differ in one bit, one byte, everything or purpose; every bit of every key; every key length up to 70 in every place")}

CHECKS["C31"] = {"mc": {"quick": [mc("LogMC", "LogMC.cfg", min=1000)], "thorough": [mc("LogMC", "LogMC_deep.cfg", min=1000, timeout=600)]},
                 "gen": [{"name": "log", "module": "LogGen", "cfg": "LogGen.cfg", "maxlen": 400}],
                 "drivers": [{"test": "TestLogCases", "walks": "log", "spec": "LogTrace"}, {"test": "TestLogConcurrent", "spec": "LogTrace"}, {"test": "TestLogSlow", "spec": "LogTrace"}, {"test": "TestLogStreams", "spec": "LogTrace"},
                             {"test": "TestLogConcurrent", "spec": "LogTrace", "race": True}],
                 "assumptions": ["the loggers are zerolog loggers, which the library is written for; lines are attributed to calls by the goroutine that wrote them and by a mark in the caller's logger"],
                 "note": NOTE % ("2-3 overlapping calls that share a parent logger, every interleaving of their steps", "every call in every outcome with loggers of every level and with and without one in the context, walks of the bounded model, providers that take seconds, overlapping callers, also under the race detector")}

LIN = "LinTrace"
LIN_MC = {"quick": [mc("LinMC", "LinMC_obj.cfg", min=1000), mc("LinMC", "LinMC_idp.cfg", min=1000), mc("LinMC", "LinMC_obj_seq.cfg", min=1000), mc("LinMC", "LinMC_idp_seq.cfg", min=1000)],
          "thorough": [mc("LinMC", "LinMC_obj_deep.cfg", min=1000, timeout=850), mc("LinMC", "LinMC_idp_deep.cfg", min=1000, timeout=850)]}
LIN_GEN = [{"name": "lin" + k, "module": "LinGen", "cfg": f"LinGen_{k}.cfg"} for k in ("obj", "idx", "idp", "obj3", "idx3", "idp3")]
LIN_DRIVERS = ([{"test": "TestLinPairs", "walks": "lin" + k, "spec": LIN} for k in ("obj", "idx", "idp", "obj3", "idx3", "idp3")]
               + [{"test": t, "walks": "lin" + k, "spec": LIN} for t in ("TestLinFine", "TestLinShare") for k in ("obj", "idx", "idp")]
               + [{"test": "TestLinStress", "spec": LIN}])
LIN_BOUND = "3-4 calls of which 2-3 overlap, on one object or on two users, every interleaving of their storage steps, an observer keeping every possible order"
LIN_WHAT = "every pair of calls of an alphabet from several states under all schedules of storage operations (a part of them where there are too many), triples and finer schedules sampled, free-running callers; the item read back through all further operations"
LIN_ASSUME = [CRYPTO_ASSUMPTION, STORE_ASSUMPTION, "storage operations are atomic (C22)"]
CHECKS["C29"] = {"mc": {"quick": obj_mc("Overlap")["quick"] + LIN_MC["quick"], "thorough": obj_mc("Overlap")["thorough"] + LIN_MC["thorough"]},
                 "gen": LIN_GEN, "drivers": LIN_DRIVERS, "assumptions": LIN_ASSUME, "note": NOTE % (LIN_BOUND, LIN_WHAT)}
CHECKS["C30"] = {"mc": LIN_MC, "gen": LIN_GEN, "drivers": LIN_DRIVERS, "assumptions": LIN_ASSUME,
                 "note": NOTE % (LIN_BOUND, LIN_WHAT) + " The library reads, changes and writes records without protection, so overlapping changes can undo each other; these are known findings, told apart from other violations by a second, step-by-step description that explains exactly them."}
CHECKS["C28"] = {"mc": {"quick": [mc("LinMC", "LinMC_obj_seq.cfg", min=1000), mc("LinMC", "LinMC_idp_seq.cfg", min=1000)], "thorough": [mc("LinMC", "LinMC_obj_seq.cfg", min=1000), mc("LinMC", "LinMC_idp_seq.cfg", min=1000)]},
                 "gen": [{"name": "linindep", "module": "LinGen", "cfg": "LinGen_indep.cfg"}],
                 "drivers": [{"test": "TestIndepPairs", "walks": "linindep", "spec": LIN}, {"test": "TestIndepRandom", "spec": LIN}, {"test": "TestIndepTight", "spec": LIN},
                             {"test": "TestIndepRandom", "spec": LIN, "race": True}],
                 "assumptions": [CRYPTO_ASSUMPTION, STORE_ASSUMPTION, "data races are those the race detector of Go sees in the schedules that occur"],
                 "note": NOTE % ("4 calls, none overlapping on one item", "every pair of calls of every part of the library on different items under sampled schedules that stop at storage operations, identity checks, log lines and uses of randomness; 12-24 free-running callers sharing instances, contexts, loggers and argument slices, also under the race detector; every caller's history judged on its own")}

CHECKS["C33"] = {"mc": {"quick": [mc("SystemMC", "SystemMC.cfg", min=1000)], "thorough": [mc("SystemMC", "SystemMC_deep.cfg", min=1000)]},
                 "gen": [{"name": "sys", "module": "SystemGen", "cfg": "SystemGen.cfg", "maxlen": 150}, {"name": "sysall", "module": "SystemGen", "cfg": "SystemGenAll.cfg", "maxlen": 150}],
                 "drivers": [{"test": "TestSystemWalks", "walks": "sys", "spec": "SystemTrace"}, {"test": "TestSystemWalks", "walks": "sysall", "spec": "SystemTrace"}, {"test": "TestSystemRandom", "spec": "SystemTrace"}],
                 "assumptions": [CRYPTO_ASSUMPTION, "a Bolt file is opened again as a copy made while no call is running, since the library has no way to close it"],
                 "note": NOTE % ("2-3 users, a group, an object, a list and 7-9 calls of all parts", "every transition of two bounded models of all parts together and random histories of more users, groups, objects and lists, on five kinds of storage, with several instances and reopened storage")}
CHECKS["C35"] = {"mc": {"quick": [mc("SystemMC", "SystemMC.cfg", min=1000)], "thorough": [mc("SystemMC", "SystemMC_deep.cfg", min=1000)]},
                 "gen": [], "drivers": [{"test": "TestSystemOld", "spec": "SystemTrace"}],
                 "assumptions": [CRYPTO_ASSUMPTION, "the histories in old/ were recorded with the library at the pinned commit (bin/record_old.sh) and leave out what its repaired defects affect"],
                 "note": NOTE % ("2-3 users, a group, an object, a list and 7-9 calls of all parts", "twelve recorded histories of the pinned commit with the storage they left (records, or a Bolt file), continued by the library at hand with complete observations and random calls, old and new part judged together as one history")}
CHECKS["C36"] = {"mc": {"quick": [mc("BlocksMC", "BlocksMC.cfg", min=1000)], "thorough": [mc("BlocksMC", "BlocksMC_deep.cfg", min=1000)]},
                 "gen": {"quick": [{"name": "blocks", "module": "BlocksGen", "cfg": "BlocksGen.cfg", "maxlen": 60}], "thorough": [{"name": "blocks", "module": "BlocksGen", "cfg": "BlocksGenDeep.cfg", "maxlen": 60}]},
                 "drivers": [{"test": "TestBlocksWalks", "walks": "blocks", "spec": "BlocksTrace"}] + [{"test": "TestBlocks" + x, "spec": "BlocksTrace"} for x in ("Random", "Labels", "Scopes")],
                 "assumptions": [CRYPTO_ASSUMPTION, "items of different types sealed by direct use under one cryptor and one ID are not told apart by the library and not exchanged here"],
                 "note": NOTE % ("2 accesses on a heap of maps, 2 groups, 4-5 calls, one sealed access; every combination of the parts of items under 2 cryptors and 2 IDs", "every transition of two accesses and a sealed one, random histories with groups in the hundreds and near-equal IDs, contents around block borders, parts of items exchanged and altered, labels of hundreds of counters up to 2^64-1, every set of scopes against every scope, random identities")}
CHECKS["C34"] = {"mc": {"quick": [mc("CallsMC", "CallsMC.cfg", min=1000)], "thorough": [mc("CallsMC", "CallsMC_deep.cfg", min=1000)]},
                 "gen": [{"name": "calls", "module": "CallsGen", "cfg": "CallsGen.cfg"}],
                 "drivers": [{"test": "TestCallsCases", "walks": "calls", "spec": "CallsTrace"}, {"test": "TestCallsRandom", "spec": "CallsTrace"}],
                 "assumptions": ["what is left running is seen when it asks a provider, or when it keeps the simulated clock's bubble from ending"],
                 "note": NOTE % ("3-4 overlapping calls of 4-6 requests, contexts ending and storage failing at any of them", "every operation of the library with a failure, an end of the context or a delay at every request it makes, with another call running meanwhile, and overlapping calls of random kinds, on recording providers")}
