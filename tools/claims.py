CLAIMS={
'P01':"Handlers are arbitrary functions (any effect on the heap, any result) logged in ghost state.",
'P03':"Messages carry a context with a work counter (built by the message builder); the mailbox's own queue is a ghost log of pushes.",
'P04':"The mailbox queues are ghost logs of pops (P02); the queue's elements are well-formed messages with a work counter, timers arrive non-nil, results' actions recover themselves (P07): assumed at the pops. A handler chain and a timer callback may do anything to the heap except replace the message's context.",
'P05':"Handler constructors are arbitrary functions logged in ghost state.",
'P06':"Continuations are arbitrary functions logged in ghost state; other goroutines interfere whenever the future's mutex is not held. That a started goroutine runs is the scheduler's.",
'P07':"context.Context and the node's Call are assumed contracts; what another actor changes inside the request's header while the call is out is not modelled (listed keeps clauses).",
'P08':"What IActor.Received does is an arbitrary function logged in ghost state (message, verdict); sync.WaitGroup.Wait and time.After are assumed contracts; what a goroutine learned passes on through close/receive of a channel (thread-local ghost state), and a receive from a channel made here runs the goroutines started so far.",
'P09':"The address book's look-ups are used by their contracts (P12, P14), the RPC client by P26's; the node's table is well-formed (no empty id, no nil actor); reads of it are taken one at a time (other goroutines' registrations between two reads are not modelled in Call/Send).",
'P10':"The node's Call is an assumed contract logged in ghost state.",
'P11':"The node's Call is an assumed contract logged in ghost state; msg.Builder is used by its contract.",
'P12':"Register, Unregister and every lookup of the address book are proved against a model of the store (hashes and sets, a pipeline staging its commands and applying them at once when it succeeds): what a success writes and removes, that nothing else changes, that refusals write nothing, that failures leave the local view alone. Assumed: the contracts of the go-redis commands (contracts/redis.gvc), no other client between a pipeline's creation and its execution, records are valid UTF-8, a pipeline reporting an error leaves the store unspecified.",
'P13':"Postconditions on Register and Unregister give the exact change of the node's total and per-type weight and that every other weight is as before; lookups are proved to leave the store unchanged. Same assumptions as P12.",
'P14':"Both selection functions are proved for every set of candidates and iteration order: loop invariants pair each command with the key it asks for (cmdkey), the kept minimum with the kept record. Assumed: contracts of the store's replies; for placement, node records name the node they are kept under (nodesOk, an invariant Register establishes).",
'P15':"The builder's getters are pure; constructors and Init are arbitrary functions logged in ghost state; address book by its contracts. The global limit is the count the store reported: two nodes may pass it together.",
'P16':"Exit is an arbitrary function logged in ghost state (it may change the node's table); one Unregister of an id at a time: two concurrent ones would both stop the actor.",
'P17':"Clear is proved twice: in general (lock taken for this node, released on every path, nothing executed without it, one atomic pipeline, view cleared only on success, no other key touched) and for a book whose records agree (bookOk): exactly the node's own id and type records disappear. Assumed: a node's weight hash holds only weight fields; the contracts of dismutex (proved under P27) and of the store's commands.",
'P18':"go-redis' XAdd is an assumed contract logged in ghost state; the store's assignment of ids is not modelled. A topic's first creation on this node may add and remove one initial entry before (P37).",
'P19':"A reply to a group read carries its entries in reading order with text fields msg and event (what Pub writes); what is taken off the channel's buffer is what its reader put there (the buffer's order and completeness are P20); the mailbox's push is P02's. Reader and handler goroutine are verified as sequential code over a heap other goroutines may change.",
'P20':"Channel operations under the mutex are exact; readers interfere before every operation of Put and Load.",
'P21':"encoding/json of map[string]any and msgpack are assumed contracts; a caller's map aliasing the message is not modelled.",
'P22':"encoding/json of map[string]any is an assumed contract; the generic getters are verified for every integer type, float32, float64, string and bool.",
'P23':"context.WithValue/Value are assumed contracts; the request id is not specified.",
'P24':"Signature, JSON and base64 behaviour of golang-jwt is an assumed contract (a validly signed token under the key carries the claims it was made for); the round trip is for identities that are valid UTF-8.",
'P25':"pkg/errors.Cause is assumed by contract.",
'P26':"grpc's Invoke, dialling, errgroup and sync.Map are assumed contracts; the number of slots is the channel's capacity (P35).",
'P27':"SETNX, crypto/rand and base64 are assumed contracts; the effect of the release script (Lua run by the store) is outside the verifier: a bounded check against miniredis stands in for it, labelled bounded in the evidence.",
'P28':"time.NewTicker/Stop/Reset and time.After are assumed contracts (a ticker is ghost state: running, period); the schedule inside Go's tickers is not modelled.",
'P29':"",
'P30':"go-redis' methods are assumed contracts logged in ghost state (name, reply); any other client method counts as an unknown command.",
'P31':"opentracing and grpc metadata are assumed contracts; the invoked operation is an arbitrary function (may panic) logged in ghost state.",
'P32':"lock discipline: every access to the tables happens under their lock (exclusive for writes), nothing returned aliases them, no lock is leaked",
'P33':"The os and ioutil calls are assumed by contract (open with O_TRUNC empties, Write appends, WriteFile replaces).",
'P34':"",
'P35':"",
'P36':"sync.WaitGroup and sync/atomic are assumed by contract; interference of other goroutines is allowed before every operation.",
'P37':"The store's replies are assumed contracts; EXPIRE's resolution is a second. Concurrent variants: under the lock with interference at its acquisition.",
'P39':"safety part: what must have happened before an actor reports closed and before the node returns; that the limits pass in time rests on time.After and context.WithTimeout",
}
NOT={}
for i in ['P%02d'%k for k in range(1,41)]:
    NOT[i]="no contract proved yet"
NOT['P38']="the unchanged code does not have this property (a consumer group's acknowledgement deletes the entry for every other group, see DESIGN.md) and deciding it needs the store's consumer-group history over many nodes, which no function contract in reach expresses"
NOT['P40']="needs the interleaving of several nodes' registrations against one store; the function contracts describe one node's Redis commands and the unchanged code overwrites a record held by another node (DESIGN.md)"
