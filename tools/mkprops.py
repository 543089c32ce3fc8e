#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from /verif)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,na=None,note=None,tech=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(p={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a},na=na,note=note,tech=tech))

CODEC=["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/search_range.go","agentx/varbind.go","agentx/pdu_tag.go"]
T="deterministic simulation with fault injection: "
prop("C01","PDUs sent over a reliable byte stream arrive intact, in order, exactly once",
 "A peer that writes the frames returned by EncodePdu to a reliable byte stream, and a peer that reads 20 header bytes, DecodePduHeader, then PayloadSize bytes, DecodePduPayload, exchange any sequence of well-formed PDUs (any type, allowed flags, either byte order, any identifiers, context, parameters, search ranges and varbinds) so that each arrives exactly once, in order and equal in every field that its type carries. The stream position always falls on a frame boundary, however the bytes are segmented, delayed or interleaved with other connections. After a connection reset what arrived is a prefix of what was sent.",
 ["inputs","schedules","fault_sequences"],"all sequences of well-formed PDUs, all segmentations, delays and resets of the stream, all interleavings of senders and receivers",
 "TestPduEncoding round-trips 30-odd hand-written PDUs, each alone, in one buffer and one goroutine; the demo sends three over a local socket. Boundary lengths, identifier compression, byte order changes inside a stream and framing across messages are not reached.",
 CODEC,[("payload size computed before and written into the header","agentx/pdu.go EncodePdu, countPayloadSize"),("length-prefixed, padded primitives and the prefix byte of object identifiers","agentx/encoding.go"),("per type table of parameters, ranges, varbinds","agentx/pdu_tag.go pduTable")],
 observe=["EncodePdu","DecodePduHeader","DecodePduPayload"],
 tech=T+"several peers exchange generated PDUs over simulated streams; the oracle compares every delivery with what was sent",
 note="Sampled, not exhaustive: seeded runs over generated PDU sequences and stream faults. Trusts the instrumenter, the simulated stream and the structural comparison of PDUs.")
prop("C02","Frames are exchanged correctly with an independent RFC 2741 peer",
 "Frames produced by EncodePdu are understood by any peer that follows RFC 2741 as exactly the PDU that was encoded, and conforming frames produced by such a peer, including encodings the library itself does not choose (uncompressed identifiers, either byte order), are accepted and read as exactly the PDU the peer meant. This holds for every PDU type over streams with any segmentation, delay and reset.",
 ["inputs","schedules","fault_sequences"],"all well-formed PDUs and conforming encodings of them, all segmentations and interleavings",
 "The tests compare a few frames with hand-written bytes and otherwise only check that the library agrees with itself: a mistake made alike in encoder and decoder is invisible.",
 CODEC,[("wire layout of each PDU type","agentx/payload_params.go, agentx/varbind.go, agentx/search_range.go"),("type, flag and value tag tables","agentx/pdu_tag.go, agentx/flags.go, asn/tag.go")],
 observe=["EncodePdu","DecodePduHeader","DecodePduPayload"],
 tech=T+"library and an independently written RFC 2741 peer on the two ends of simulated streams",
 note="Sampled. Trusts that the reference codec (sim/ref, written from RFC 2741 and sharing no code with the library) is right.")
prop("C03","Damaged frames are refused and never misread",
 "When bytes of a stream are flipped, overwritten, lost, doubled, cut, spliced or delivered out of order, every header and payload that is not well-formed per RFC 2741 (wrong version, unknown type, flags not allowed for the type, non-zero reserved or padding bytes, payload length negative, not a multiple of four or different from the data given, lengths beyond the data, unknown varbind types, object identifiers with a count of more than 128 sub-identifiers, trailing bytes) is reported as not ok. Everything that is reported as ok means exactly what an independent reading of those bytes says.",
 ["inputs","fault_sequences","schedules"],"all frames and all damage to them, all interleavings of receivers",
 "The tests decode no damaged frame at all; the demo damages one byte.",
 CODEC,[("reserved, padding and range checks in every parser","agentx/encoding.go, agentx/payload_params.go, agentx/varbind.go"),("header checks","agentx/pdu.go DecodePduHeader"),("refusal by panic and recover","agentx/pdu.go")],
 observe=["DecodePduHeader","DecodePduPayload"],
 tech=T+"frames are damaged in flight with faults aimed at each field role; every verdict and result is compared with a reference decoder",
 note="Sampled. Deviations RFC 2741 leaves open (non-canonical include field, unknown enumeration values) are tolerated either way. Trusts the reference decoder.")
prop("C04","Hostile input cannot crash, hang or exhaust a receiver",
 "Whatever bytes a peer sends and wherever the stream ends, DecodePduHeader and DecodePduPayload and their Dbg variants return normally: no panic escapes, and the time and memory they use stay proportional to the number of bytes they were given.",
 ["inputs","fault_sequences","schedules"],"all byte sequences, all truncation points, all interleavings of receivers",
 "No test feeds malformed input; cost is never measured.",
 CODEC+["agentx/encoding_dbg.go"],[("recover in every exported function","agentx/pdu.go"),("bounds checks before allocation","agentx/encoding.go")],
 observe=["DecodePduHeader","DecodePduPayload","DecodePduHeaderDbg","DecodePduPayloadDbg"],
 tech=T+"receivers fed with damaged frames, noise and cut streams; statements executed and bytes allocated are measured per call",
 note="Sampled. Cost bounds are generous (tens to hundreds of bytes and statements per input byte), so only disproportionate cost is reported.")
prop("C05","A refused frame leaves no trace: the conversation goes on",
 "After a payload was refused the PDU still holds its header fields (session, transaction, packet identifiers), the ParseError response built from it can be encoded and reaches the peer addressed to that request, and all later frames of the stream are judged and read exactly as if the refused one had not been there. This also holds when one Pdu variable is reused for every frame; the verdict on a frame does not depend on what was decoded before.",
 ["histories","fault_sequences","inputs","schedules"],"all sequences of valid and damaged requests, all reply interleavings, with and without reuse of the Pdu",
 "The demo makes one such exchange with one damaged byte and checks nothing; no test decodes twice into one Pdu.",
 ["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go"],[("header and payload decoded separately","agentx/pdu.go DecodePduHeader, DecodePduPayload"),("payload fields dropped before decoding","agentx/pdu.go DecodePduPayload")],
 observe=["DecodePduPayload","EncodePdu","Pdu"],
 tech=T+"master and subagent converse over simulated streams while payloads are damaged; replies and later frames are compared with a reference",
 note="Sampled. Frames whose header is destroyed end the connection, as the demo documents.")
prop("C06","Debug variants decide and produce exactly what the plain functions do",
 "For every PDU, header or payload, valid or not, EncodePduDbg, DecodePduHeaderDbg and DecodePduPayloadDbg return the same verdict and, when ok, the same bytes or the same PDU as the functions without Dbg, and they write to the log they were given. A slow log that lets other work happen in between, or a console whose output cannot be written, changes nothing.",
 ["inputs","fault_sequences","schedules"],"all inputs to either variant, all interleavings inside the log calls",
 "The tests call the Dbg variants on the same few valid PDUs; the two implementations share almost no code, and refused input is never compared.",
 ["agentx/pdu.go","agentx/encoding.go","agentx/encoding_dbg.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go","hex/dump.go"],[("parallel implementations","agentx/encoding.go and agentx/encoding_dbg.go")],
 observe=["EncodePduDbg","DecodePduHeaderDbg","DecodePduPayloadDbg","logger.Log"],
 tech=T+"each generated, damaged or misused input is given to both variants by concurrent tasks, with a logger that blocks",
 note="Sampled. The wording of the log is not judged, only that something is logged.")
prop("C07","Decoded PDUs and encoded frames own their memory",
 "A decoded PDU does not change when the receive buffer is reused or overwritten, an encoded frame does not change when the PDU it came from is changed, and changing one part of a decoded PDU changes no other part, no other PDU and no buffer; a copy of a decoded PDU also stays when its variable is decoded into again. Encoding and decoding never modify their inputs, nor anything beyond the slices they were given.",
 ["histories","inputs","schedules"],"all sequences of encodings and decodings with buffers and PDUs reused at any moment",
 "The tests use every buffer once and never look at a PDU after its buffer has changed.",
 CODEC,[("copying of strings, opaques and identifiers","agentx/encoding.go parse functions"),("fresh slice per frame","agentx/pdu.go EncodePdu")],
 observe=["EncodePdu","DecodePduPayload"],
 tech=T+"tasks keep every PDU and frame while buffers are recycled, overwritten and appended to, and compare all of them after every step",
 note="Sampled. Observed through the API by mutation; no pointer analysis.")
prop("C08","Concurrent use of the codec does not interfere",
 "Any number of goroutines may encode, decode (plain or Dbg) and print PDUs at the same time, also sharing PDUs and buffers they only read; each call gives the answer it gives when made alone, and there is no data race.",
 ["schedules","inputs"],"all interleavings of calls on shared and private inputs",
 "All tests are sequential and run without the race detector.",
 ["agentx/pdu.go","agentx/encoding.go","agentx/pdu_tag.go","agentx/varbind.go","internal/indent.go","internal/struct.go","oid/name.go"],[("no mutable package state","agentx, asn, oid, internal, hex"),("value semantics of encoder and decoder","agentx/encoding.go")],
 observe=["EncodePdu","DecodePduHeader","DecodePduPayload","Pdu.String"],
 tech=T+"tasks preempted between statements of the library; answers compared with serial ones; part of the runs with the race detector blind to the scheduler",
 note="Sampled. Preemption between statements; accesses inside a statement are covered by happens-before race detection on the sampled schedules.")
prop("C09","The encoder refuses what the wire cannot carry",
 "EncodePdu and EncodePduDbg report ok exactly for PDUs that the protocol can carry, and then the receiver gets a PDU equal in every field that its type and flags carry; a PDU with an unknown type, parameters of another type or none, flags its type does not allow, a value of another Go type than its varbind type needs, an unknown value type, an object identifier of more than 128 sub-identifiers after compression, negative GetBulk numbers or a payload of 2 GB or more is refused without a panic. A refused PDU in between never disturbs the frames around it.",
 ["inputs","histories","schedules"],"all PDUs, well-formed or not, at any place in a stream",
 "The tests encode only valid PDUs.",
 ["agentx/pdu.go","agentx/pdu_tag.go","agentx/payload_params.go","agentx/encoding.go","agentx/varbind.go"],[("applicability of parameters and flags","agentx/pdu_tag.go pduTable, agentx/pdu.go EncodePdu"),("type assertion of values","agentx/varbind.go vbtable")],
 observe=["EncodePdu","EncodePduDbg"],
 tech=T+"misused PDUs are mixed into simulated streams; accepted ones must arrive equal, inexpressible ones must be refused",
 note="Sampled. Payloads beyond 2 GB are not tried.")
prop("C10","The OID tree is linearizable under concurrent use",
 "Concurrent AddNode, GetNode, GetNextNode, RemoveNode, Clear and ForRangeLeaves on one tree behave as if executed one at a time in an order consistent with real time: additions report nil exactly if the node exists, lookups return the node that was added, removal takes the whole subtree, GetNextNode returns the smallest leaf in the requested range. Identifiers given as arguments are only read and stay the caller's: several goroutines may use the same ones, and they may be changed after the call. There is no data race.",
 ["schedules","histories"],"all interleavings of all sequences of operations",
 "TestForRangeLeaves and the other tree tests are sequential and cover two operations; node.go calls itself a draft that is not tested.",
 ["oid/tree.go","oid/node.go"],[("one RWMutex per tree, writers exclusive","oid/tree.go"),("sorted children and binary search","oid/node.go searchChild, addChild, removeChild")],
 state=[("root","the tree","oid/tree.go Tree.root")],observe=["Tree methods"],
 tech=T+"scripted tasks preempted between statements of the tree code; histories checked for linearizability against a sequential model; part of the runs with the race detector",
 note="Sampled; up to 4 tasks of 5 operations (more in the thorough tier). Trusts the model and the checker in sim/props/linear.go.")
prop("C11","A GetNext walk misses no standing leaf and never goes back, under churn",
 "Repeatedly asking GetNextNode for the successor of the last answer visits, while other goroutines add and remove nodes, every leaf of the range that stays in the tree during the walk, in strictly ascending order, within the bounds (lower bound included only on request, upper bound excluded), and ends. It never returns inner nodes, nodes nobody added, or nodes that were gone before the call began.",
 ["schedules","histories","inputs"],"all trees and bounds, all interleavings of walks with additions and removals",
 "getNextNode is called by one sequential test on one small tree.",
 ["oid/node.go","oid/tree.go"],[("ordered descent with both bounds","oid/node.go getNextNode"),("read lock per step","oid/tree.go GetNextNode")],
 observe=["Tree.GetNextNode"],
 tech=T+"walkers and churning tasks on one tree under a drawn schedule; visits checked against the recorded life of every node",
 note="Sampled.")
prop("C12","Tree operations always finish and never jam the tree",
 "Every tree operation returns once the operations it waits for have returned, for every mix of readers and writers, and none waits for ever because others keep coming; a visitor that is slow, panics or ends its goroutine delays others at most while it runs, and the tree stays fully usable afterwards. Trees have nothing to do with each other: a visitor of one may use any operation of another.",
 ["schedules","fault_sequences"],"all interleavings, visitors failing at any leaf",
 "No test runs two goroutines on a tree or lets a visitor fail.",
 ["oid/tree.go","oid/node.go"],[("deferred unlocking","oid/tree.go"),("no lock taken twice","oid/tree.go")],
 state=[("lock","held by running operations only","oid/tree.go Tree.lock")],observe=["Tree methods"],
 tech=T+"readers, writers and failing visitors on scheduler-controlled locks; deadlock is detected, a latecomer and a writer among readers that keep overlapping must get through",
 note="Sampled. Liveness is progress within a step bound after faults stop. Operations on the same tree called from inside its visitor are not covered (a documented limit of RWMutex).")
prop("C13","ForRangeLeaves shows one consistent ascending snapshot",
 "The leaves handed to the visitor are exactly those of the tree at one moment between call and return, in ascending order, each once, with its own full identifier and node, while other goroutines change the tree. The identifier belongs to the visitor: keeping, changing or appending to it affects neither the walk nor other identifiers.",
 ["schedules","histories"],"all interleavings of snapshots with changes, visitors that yield, sleep, panic, keep or change what they get",
 "TestForRangeLeaves walks one fixed tree alone.",
 ["oid/tree.go","oid/node.go","oid/oid.go"],[("read lock for the whole walk","oid/tree.go ForRangeLeaves"),("fresh identifier per node","oid/node.go forRangeLeaves, oid/oid.go Cat")],
 observe=["Tree.ForRangeLeaves"],
 tech=T+"snapshots among concurrent changes with visitors that block or misbehave; each snapshot must fit the linearized history, identifiers are compared at the end",
 note="Sampled.")
prop("C14","Node handles, their data and the tree structure stay sound",
 "As long as a node is in the tree, GetNode returns the same node that AddNode returned, with the data stored in it; adding again after removal gives a fresh node without data, and a removed node keeps its data for its holder. Changes elsewhere never move, lose or duplicate a node: at rest every child's parent link, the order of children and every lookup agree.",
 ["schedules","histories"],"all interleavings of owners adding, finding and removing their own nodes",
 "No test looks at node identity, data or parent links.",
 ["oid/node.go","oid/tree.go"],[("insertion into and removal from the sorted child slice","oid/node.go addChild, removeChild"),("writers exclusive","oid/tree.go")],
 state=[("Parent, Children","links of the tree","oid/node.go Node")],observe=["Tree.AddNode","Tree.GetNode","Node"],
 tech=T+"owner tasks with private nodes below a shared parent under a drawn schedule; identity, data and structure checked during and after the run",
 note="Sampled.")
prop("C15","Walks and sets of a master through a subagent survive network and crashes",
 "A master that repeats unanswered requests, and a subagent that decodes them, answers them from an oid.Tree while the application adds and removes other nodes, and encodes the responses, give the right service over a network that loses, doubles, noticeably damages, delays and segments frames and resets connections, and across crashes of the subagent: every GetNext or GetBulk walk ends, and shows every variable that stands during the walk exactly once, in ascending order, inside the requested range and with its value; a value whose TestSet, CommitSet and CleanupSet were acknowledged is what later requests read; a damaged request is answered with ParseError and, repeated, succeeds; every request is answered within a bounded number of attempts once the faults stop.",
 ["histories","fault_sequences","schedules","inputs"],"all MIBs, request sequences, fault sequences and crash points, all interleavings of request handlers, application and network",
 "No test connects the codec with the tree, and none has a second goroutine, a lost frame or a restart.",
 ["agentx/pdu.go","agentx/encoding.go","agentx/payload_params.go","agentx/search_range.go","agentx/varbind.go","oid/tree.go","oid/node.go"],[("codec between master and subagent","agentx/pdu.go"),("range search that answers GetNext and GetBulk","oid/node.go getNextNode"),("locking between request handlers and application","oid/tree.go")],
 observe=["EncodePdu","DecodePduHeader","DecodePduPayload","Tree methods"],
 tech=T+"master, network, subagent with its handlers and application in one simulation with loss, duplication, damage, delay, resets and crashes; answers are checked against the recorded state of every variable",
 note="Sampled; up to 25 faults of frames and 3 resets or crashes per run. The subagent's request loop around the library is the harness's own, written as the demo documents; damage is limited to what RFC 2741 lets a receiver notice.")
prop("C16","The log of a debug call belongs to that call",
 "Every call of EncodePduDbg, DecodePduHeaderDbg and DecodePduPayloadDbg writes its messages to the log it was given and to no other, all of them before it returns, and the same messages in the same order as when it is made alone, whatever other calls run at the same time and however slow the logs are. Calls that share a log add their own messages to it, none lost, doubled or mixed; the console log of package logger prints every message in one piece. When the verdict is not ok, the log says that the call failed.",
 ["schedules","inputs","fault_sequences"],"all mixes of concurrent debug calls on valid and damaged input, all interleavings inside and between log calls, own and shared logs",
 "The tests print debug logs of single calls to the console and look at none of them; no test makes two calls at a time.",
 ["agentx/encoding_dbg.go","agentx/pdu.go","agentx/payload_params.go","agentx/varbind.go","agentx/search_range.go","hex/dump.go","internal/struct.go","internal/indent.go","logger/logger.go"],[("the log travels with each encoderDbg and decoderDbg","agentx/encoding_dbg.go"),("failure message in the deferred functions","agentx/pdu.go"),("dumps and string forms built in local buffers","hex/dump.go, internal/struct.go")],
 observe=["logger.Log","logger.Console","EncodePduDbg","DecodePduHeaderDbg","DecodePduPayloadDbg"],
 tech=T+"concurrent debug calls with own, shared and slow logs under a drawn schedule; every log, and what the console log prints, is compared with that of the same calls alone",
 note="Sampled. The wording of messages is not judged, except that the last messages of a refused call must contain a word for failure.")
NA="pure function of its argument: no schedule, clock, fault or shared state for a simulation to control"
prop("C17","Nothing is kept: long use does not grow memory",
 "A process may use the library for ever: encoding, decoding and debug-logging any number of frames, accepted or refused, and adding, looking up and removing any number of nodes, with visitors that fail in between, leaves nothing behind once the calls have returned and the caller has let go of the results. Memory and goroutines in use do not grow with the number of calls, and removed nodes, single, as subtrees or by Clear, are released with their data (only room for child links may stay, at most what the largest number of children needed).",
 ["histories","fault_sequences"],"all long histories of calls with ever new content",
 "Tests make a handful of calls and do not look at what stays in memory.",
 ["oid/node.go","oid/tree.go","agentx/pdu.go","agentx/encoding.go"],[("the last slot is cleared when a child is removed","oid/node.go removeChild"),("no state outside PDUs, frames and trees","agentx")],
 state=[("spare room of Children","must not hold removed nodes","oid/node.go Node.Children")],observe=["memory in use after garbage collection","goroutines"],
 tech=T+"long histories of codec and tree calls with ever new content and faults; memory in use and goroutines are measured after each series, growth in every one of four series is a violation, and so is memory that stays after thousands of nodes were removed",
 note="Sampled. Thresholds: 32 KB plus 8 bytes per call and series (needs less than 7 KB in all today), 64 KB plus 24 bytes per removed node (needs less than 2 KB today). Calls are not preempted inside; tasks change between calls.")
prop("C20","OID comparison is a total order consistent with prefixes",
 "Compare orders all identifiers totally and lexicographically, and HasPrefix, Cat and Clone agree with it.",
 ["inputs"],"all identifiers","Table tests with a few identifiers.",["oid/oid.go"],[("Compare, HasPrefix","oid/oid.go")],na=NA)
prop("C21","OID text form and identifier convert into each other",
 "Parsing the string form of any identifier gives the identifier back, and malformed text is refused.",
 ["inputs"],"all identifiers and texts","Table tests.",["oid/oid.go"],[("Parse, String","oid/oid.go")],na=NA)
prop("C22","Hex dumps show every byte of the requested range",
 "Dump, DumpSub and DumpTail show exactly the bytes of the range they are asked for.",
 ["inputs"],"all byte slices and ranges","No test.",["hex/dump.go"],[("Dump","hex/dump.go")],na=NA+" (that dumping never fails inside the Dbg functions is part of C04 and C06)")
prop("C23","String forms of PDUs, values and errors name what they stand for",
 "String and Fprint of PDUs, parameters, varbinds, tags, flags and errors show every field with its value.",
 ["inputs"],"all values","Only printed by the demo.",["internal/struct.go","asn/value.go","agentx/flags.go","pduerror/error_string.go"],[("StructString","internal/struct.go")],na=NA+" (interference between concurrent calls is part of C08)")
prop("C24","Well-known names map to their registered identifiers",
 "oid.Name holds for each name the identifier registered in its MIB.",
 ["configurations"],"all names of the table","TestMibName checks a few.",["oid/name.go"],[("Name","oid/name.go")],na="a constant table: nothing to simulate")
import sys
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x['p'],ensure_ascii=False)+'\n')
M={"version":1,"setup_cmd":"bash bin/setup","checks":[],"not_applicable":[],
 "notes":"No hooks are committed in /repo: every check copies /repo's working tree into a scratch directory, inserts a preemption point before every statement and replaces package sync there (instr/), and builds the simulation against that copy. Defects found and repaired are listed in known_findings.txt."}
for x in P:
    i=x['p']['id']
    if x['na']: M['not_applicable'].append({"property":i,"reason":x['na']})
    else: M['checks'].append({"property":i,"quick_cmd":f"bash bin/check {i} quick","thorough_cmd":f"bash bin/check {i} thorough","evidence_file":f"evidence/{i}.json","technique":x['tech'],"level":"exploration","level_note":x['note']})
json.dump(M,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')
