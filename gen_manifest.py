"""writes MANIFEST.json; CLAIMED lists the properties with a check"""
import json
CLAIMED = {
 "C01": "Unbounded proof over all byte streams, read sizes, read errors and buffer contents, for an arbitrary record; bytes.Buffer, io.Pipe (FIFO), encoding/json (a function of the text) and the WebSocket library are assumed contracts. Other transports belong to C21; a reader that returns neither bytes nor an error for ever is not excluded.",
 "C02": "Unbounded proof over all byte streams, read sizes, read errors and buffer contents, for an arbitrary frame; bytes.Buffer, io.Pipe (FIFO), binary.Uvarint (a prefix-free code) and the WebSocket library are assumed contracts. What a frame means is C05.",
 "C03": "Unbounded proof over all limits, message sizes and fragmentations, for both protocols and the transports of this module; http.MaxBytesReader and the read limit of the WebSocket library are assumed contracts. One known finding (several messages in one POST).",
 "C04": "Unbounded proof over all messages of each kind and all records; encoding/json is an assumed contract (an object has the fields of the struct under the names of its tags, empty ones left out where the tag says so, and no raw control characters; decoding is a function of the text per field).",
 "C05": "Unbounded proof over all messages of each kind, all frames and all numbers of arguments and stream ids; the msgpack library is an assumed contract (decoding at a position is a function of the frame and the position, the encoder appends one value per call and only Encode of a caller's value can fail; messages below 2 GB).",
 "C06": "Unbounded proof over all invocations, method results and panics, goroutines run to completion at their start; reflection (Kind, Type, NumOut) is an uninterpreted model, stream pumps belong to C07, argument decoding to C20. One known finding (panicking methods).",
 "C07": "Unbounded proof over all channel contents, lengths and cancellation points, the goroutine started at any time; reflection is an uninterpreted model, a failed send is assumed to cancel the connection (proved as C22).",
 "C08": "Unbounded proof over all states of the streamer, with interference at every lock acquisition; the environment cancels through the streamer's own Stop whenever the stream receives or sends. One stream per id is running at a time.",
 "C09": "Proof for all completions and all interferences on the table of pending calls at every lock acquisition; receivers of the result channels are assumed to be the library's own. Decoding is an uninterpreted function.",
 "C10": "Unbounded proof over all message sequences, errors, ticks and cancellations of the loop and its forwarding goroutine; the party's callbacks and the handlers of the messages are assumed contracts here (C06-C09, C18 prove the handlers). Hub callbacks run in goroutines of the party and are not ordered.",
 "C11": "Unbounded proof over all counters and interferences at every atomic access, and that every call and pushed stream of a client uses an id of its own request once; assumes fmt.Sprint is injective on integers.",
 "C12": "Unbounded proof for an arbitrary connection, client id and group, with interference at every lock and table access; sync.Map.Range visits every key present throughout. Delivery by SendInvocation itself belongs to C09/C23.",
 "C13": "Unbounded proof over all clocks, intervals, messages and writes; time is a monotone clock, tickers fire at any time after their interval. How late a tick is served is not bounded.",
 "C14": "Unbounded proof over all bytes, pieces, read and write failures and the moments of giving up, for Serve and the client's run, both protocols; that readJSONFrames reads until it has a record is the contract proved for C01, encoding/json, contexts and timers are assumed contracts, the message loop belongs to C10.",
 "C15": "Unbounded proof for every request and the reaper, the table changed by other requests at every lock acquisition by the steps each of them is proved to make; 16 random bytes are assumed not to repeat, Server.Serve and the HTTP and WebSocket libraries are assumed contracts.",
 "C16": "Lockset and lock-balance proof for every path of every function that touches a guarded field, goroutines verified separately; no bound. Blocking inside a critical section is not excluded.",
 "C17": "Unbounded proof for an arbitrary connection among arbitrary others, with interference at every lock acquisition and callback goroutines running at any time; connect, invocations and disconnect of one connection follow each other on its message loop (C10), and the factory is assumed to return different hubs for different connections.",
 "C18": "Unbounded proof for all streams, items, completions and interferences on the stream table at every lock acquisition, the delivering goroutine running at any time; the channel operations of reflect and the decoding are assumed contracts, order follows from delivery under the lock plus FIFO channels.",
 "C19": "Unbounded proof over all messages, frames and handshakes of both protocols, answers to negotiations and all method signatures, with interference at every lock acquisition and goroutines run at once or late: no run-time panic leaves a goroutine, and the operations of reflect, of channels in the tables and of the libraries are used within their preconditions. encoding/json and the msgpack library are assumed not to panic themselves (except on maps with unhashable keys), memory and stack are unlimited, custom decoders and close-it-yourself hub methods of the application are excluded.",
 "C20": "Unbounded proof over all method tables, names, signatures and invocations; reflection (method tables, types, New, Elem, MakeChan) is an assumed contract, what a single argument decodes to belongs to C04/C05.",
 "C23": "Unbounded proof for all option values, option lists (without nil entries) and prior states of the party. Option functions of the caller are assumed to touch only the party; the go-kit loggers are trusted.",
 "C21": "Unbounded proof for all messages, posts, results, piece sizes and cancellation points; strings.Split (its pieces joined give the text), bufio.ReadLine (its lines are those of the text), io.Pipe (a FIFO), the HTTP library and ServeMux are assumed contracts; messages contain no carriage return, the last line feeds of a message are dropped (every record ends otherwise), and writes follow each other (the hub connection serializes them, C22).",
 "C22": "Unbounded proof for all messages, write results and cancellation points; a cancellation during a write leaves open whether the message was written. Bytes on the wire belong to C04/C05.",
}
NA = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run.py --build", checks=[], not_applicable=[], notes="every check: python3 run.py <id>; see DESIGN.md")
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i, evidence_file="evidence/%s.json" % i,
            technique="contract-based deductive verification of the Go code (govc: symbolic execution of go/ssa with contracts, inferred loop invariants, SMT)", level="proof", level_note=CLAIMED[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
