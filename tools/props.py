#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ transport
p("N01", "Point-to-point delivery: in order, exactly once, intact, to the right party",
  "On every transport, each message a party sends is received exactly once, byte for byte, by the party it was addressed to and by nobody else, and messages between the same two parties on the same network instance arrive in the order they were sent. "
  "Several networks opened between the same parties, and the two directions of one link, never mix their messages.",
  ["schedules", "inputs", "configurations"],
  "every number of parties, every pattern of sends and receives, every message length (including empty) and every interleaving of the parties and of the transport's helper threads",
  "The tests send one fixed short message per pair between three parties in one order; they never vary lengths, party counts, interleavings or the number of parallel networks.",
  ["mpc-net/src/local.rs", "mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
  [("per-peer send/receive queues and helper threads", "mpc-net/src/blocking.rs"), ("per-peer async channels", "mpc-net/src/async_net.rs"), ("in-process channels", "mpc-net/src/local.rs")],
  "return values of send/recv at every party")
p("N02", "Message boundaries survive every fragmentation of the byte stream",
  "Whatever way the byte stream of a connection is cut into reads and writes - short reads, short writes, interrupted calls, several messages in one read - the receiver obtains exactly the sequence of messages that was sent. "
  "If the stream ends in the middle of a message the receiver gets every complete message and then an error, never a partial, merged or invented message.",
  ["inputs", "schedules", "fault_sequences"],
  "every split of a stream of several messages into reads and writes, every truncation point, every placement of interrupted calls",
  "Loopback sockets deliver the tests' tiny messages in one piece, so no test ever sees a header or payload split over several reads or a truncated stream.",
  ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs"],
  [("length-prefixed framing, reader and writer loop", "mpc-net/src/blocking.rs"), ("codec-based framing", "mpc-net/src/async_net.rs")],
  "sequence of recv results for a scripted byte source and sink")
p("N03", "The configured maximum message size is enforced exactly, on both sides",
  "A message up to and including the configured maximum size is delivered; a larger one is refused with an error at the sender and never delivered. "
  "A length announced by a peer that exceeds the maximum, however large, makes receiving fail with an error without allocating or waiting for the announced amount, and never delivers data.",
  ["inputs", "configurations"],
  "every configured limit, every message or announced length around the limit, around integer-width boundaries and up to the largest encodable length",
  "No test sends a message near the limit or an announced length above it.",
  ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/config.rs"],
  [("frame length checks on send and receive", "mpc-net/src/blocking.rs"), ("codec max frame length", "mpc-net/src/async_net.rs")],
  "send/recv results")
p("N04", "Connection set-up gives every party the right peer, whatever the order",
  "However the parties are ordered in the configuration, in whatever order they start and in whatever order their connections are established, set-up succeeds when all parties take part, and each party then talks to exactly the peer with the id it names. "
  "Each party reports its own configured id, and addressing a party that does not exist or oneself is an error, not a crash or a hang.",
  ["configurations", "schedules"],
  "every permutation of the party list, every start order and relative delay of the parties, every number of parallel connections",
  "The tests use one sorted configuration and start all parties together.",
  ["mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/config.rs", "mpc-net/src/local.rs"],
  [("lower id dials, higher id accepts and reads the dialler's id", "mpc-net/src/tcp.rs"), ("two-stream TLS set-up", "mpc-net/src/tls.rs")],
  "ids and messages exchanged after set-up")
p("N05", "Sessions are paired correctly for every order of requests, arrivals and retries",
  "With session-based networks, two parties that both open the same session end up connected to each other through it, whether the request or the peer's connection comes first, with any number of other sessions being opened at the same time, and also when an earlier attempt to open that session was abandoned or timed out. "
  "Messages of one session are never seen by another session, connections that end or say nothing before announcing a session disturb nobody, and opening a session with an incomplete peer ends with an error after the configured time.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of opening, peer arrival, abandonment, time-out, retry and duplicate arrival over several sessions and parties",
  "The tests open a few sessions once each, never abandon or retry one, and never force a particular arrival order.",
  ["mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
  [("pairing of waiting requests with incoming connections by session and party", "mpc-net/src/tcp_session_blocking.rs"), ("the same, asynchronous", "mpc-net/src/tcp_session.rs")],
  "result of opening a session and the messages exchanged over it")
p("N06", "A failed or silent peer is reported, and nothing already delivered is lost",
  "When a peer closes its connection or dies, messages that had arrived before are still received, then every later receive from it returns an error; when a peer stays silent and a time-out is configured, receive returns an error after that time. "
  "With time-outs configured no call hangs on a peer that does not read, and set-up with an absent, closing, silent or nonsensical peer ends with an error; no failure of one peer makes a call panic or disturbs the exchange with the others.",
  ["fault_sequences", "schedules", "crash_points"],
  "every point of an exchange at which a peer closes, dies or falls silent, for every peer and direction",
  "No test ever closes a peer, lets one time out or looks at what is received after a failure.",
  ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/local.rs"],
  [("end of stream and errors passed through the receive queue", "mpc-net/src/blocking.rs"), ("receive time-outs", "mpc-net/src/local.rs")],
  "recv/send results after the failure")
p("N07", "Flushing or dropping a network delivers what was queued",
  "After a flush returns successfully, everything sent before has been handed to the transport; dropping a network right after sending still delivers all queued messages to a peer that keeps reading. "
  "Neither blocks forever when a peer has gone, nor, with a flush time-out configured, when a peer does not read.",
  ["schedules", "fault_sequences"],
  "every number of queued messages per peer, every interleaving of the writer with flush and drop, every slow, blocked or failed peer",
  "Tests keep the networks alive until everything has been received and never block a writer.",
  ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs"],
  [("flush markers and bounded shutdown of the writer", "mpc-net/src/blocking.rs"), ("async flush and shutdown", "mpc-net/src/async_net.rs")],
  "bytes seen by the peer after flush/drop returns")
p("N08", "Connection statistics count exactly the bytes sent and received",
  "For every peer the reported sent and received byte counts equal the total payload length of the messages successfully sent to and received from that peer, counters of other peers are not touched, and the difference of two snapshots is what was exchanged between them.",
  ["histories", "configurations"],
  "every sequence of successful and failed sends and receives and every pair of snapshots",
  "The statistics are not compared with the traffic by any test.",
  ["mpc-net/src/lib.rs", "mpc-net/src/local.rs", "mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs"],
  [("per-peer byte counters", "mpc-net/src/blocking.rs"), ("snapshot difference", "mpc-net/src/lib.rs")],
  "statistics snapshots")
p("N09", "Parallel sub-protocol runners keep order and run everything concurrently",
  "Running two to eight closures in parallel returns their results in the order of the closures, whatever order they finish in, each closure runs exactly once, and closures that wait for each other all make progress.",
  ["schedules"],
  "every finishing order and every dependency order between the closures",
  "No test fixes the finishing order or makes the closures depend on one another.",
  ["mpc-net/src/lib.rs"], [("parallel join helpers", "mpc-net/src/lib.rs")], "returned tuple")
p("N10", "Network addresses and configurations parse, print and load faithfully",
  "A network address accepts exactly host:port with a port from 0 to 65535, rejects everything else with an error, and printing or serialising an address and reading it back gives the same address. "
  "A loaded network configuration keeps every party's id, address and certificate and the chosen limits, in any order, and reports broken input as an error.",
  ["inputs", "configurations"],
  "every address string and every configuration over the alphabet of separators, digits, brackets and letters",
  "Tests parse a handful of well-formed addresses.",
  ["mpc-net/src/config.rs"], [("address parser, printer and serde", "mpc-net/src/config.rs")], "parsed values")
# ------------------------------------------------------------------ Shamir
p("S01", "Any t+1 Shamir shares reconstruct the secret exactly",
  "For every number of parties n, threshold t, secret and randomness, the secret (single value, vector, or curve point) shared into n shares is reconstructed exactly from the shares of any t+1 or more parties given with their ids in any order. "
  "Asking to combine too few shares, or numbers of shares and ids that do not match, or vectors of different lengths, gives an error instead of a wrong value.",
  ["inputs", "configurations"],
  "every n, t, secret, sharing randomness, subset and order of parties",
  "Tests reconstruct random secrets from one subset (the first parties) for few (n, t).",
  ["mpc-core/src/protocols/shamir.rs"],
  [("sharing, Lagrange coefficients and reconstruction", "mpc-core/src/protocols/shamir.rs"), ("interpolation with prescribed zeros", "mpc-core/src/protocols/shamir.rs")],
  "combined values")
p("S02", "Up to t Shamir shares reveal nothing about the secret",
  "For every number of parties, threshold and set of at most t parties, the joint distribution of their shares over the sharing randomness is the same for every secret, and is uniform.",
  ["inputs", "configurations"],
  "every n, t, secret and coalition of t parties, over all sharing randomness",
  "A distribution cannot be observed by a test that shares a random value once; the tests only check that reconstruction works.",
  ["mpc-core/src/protocols/shamir.rs"],
  [("random polynomial of degree t", "mpc-core/src/protocols/shamir.rs")], "share vectors over all randomness")
p("S03", "Shamir arithmetic computes the plain field operation",
  "For all inputs, thresholds and party counts, every operation on shares (addition, subtraction, negation, public and shared multiplication, inversion, division, opening, products opened at once, and their vector forms) opens to the result of the same operation on the plain values, at every party. "
  "Inverting or dividing by zero gives an error at every party and vectors of any length, including empty, are handled.",
  ["inputs", "configurations"],
  "every pair of field elements including zero, every vector length, every n and t with 2t < n",
  "Tests use a few random elements of one large field and three parties, where zero, wrap-around and other party counts never occur.",
  ["mpc-core/src/protocols/shamir/arithmetic.rs", "mpc-core/src/protocols/shamir/arithmetic/ops.rs", "mpc-core/src/protocols/shamir/network.rs", "mpc-core/src/protocols/shamir.rs"],
  [("local and interactive share arithmetic", "mpc-core/src/protocols/shamir/arithmetic.rs"), ("degree reduction through one party", "mpc-core/src/protocols/shamir/network.rs")],
  "opened values")
p("S04", "The view of t Shamir parties is independent of the other parties' secrets",
  "In an honest run of sharing, multiplication, and opening, the joint view of any coalition of at most t parties (its inputs, its randomness and every message it receives) has a distribution that depends only on its own inputs and on the opened results, not on the other parties' secret values.",
  ["inputs", "schedules"],
  "every secret input, every coalition, over all protocol randomness",
  "No test looks at messages, let alone at their distribution.",
  ["mpc-core/src/protocols/shamir/arithmetic.rs", "mpc-core/src/protocols/shamir/network.rs", "mpc-core/src/protocols/shamir/rngs.rs"],
  [("masking with double sharings before degree reduction", "mpc-core/src/protocols/shamir/network.rs"), ("opening of products", "mpc-core/src/protocols/shamir/arithmetic.rs")],
  "messages received by the coalition over all randomness")
p("S05", "Preprocessed Shamir randomness is consistent, sufficient and never reused",
  "Every preprocessed pair consists of a degree-t and a degree-2t sharing of the same value for all parties, in the same order at every party; a request for m pairs yields at least m, further ones are generated on demand, and forked states hand out disjoint pairs and independent randomness. "
  "Asking for impossible parameters (too large a threshold, more pairs than are left to fork) is an error at every party.",
  ["histories", "configurations"],
  "every n, t, requested number of pairs, and every sequence of drawing, buffering and forking",
  "Tests only consume a few pairs indirectly through multiplications; two uses of the same pair would still give right results.",
  ["mpc-core/src/protocols/shamir/rngs.rs", "mpc-core/src/protocols/shamir.rs"],
  [("batched double sharings", "mpc-core/src/protocols/shamir/rngs.rs"), ("state fork and pair stock", "mpc-core/src/protocols/shamir.rs")],
  "drawn pairs of all parties")
p("S06", "Shamir protocols finish with the same result under every schedule",
  "With honest parties every Shamir protocol terminates, whatever the relative speed of the parties and of message delivery and however few messages (two or more) a link can buffer, and every party obtains the same result in every schedule.",
  ["schedules"],
  "every interleaving of the parties' network operations (to a bound), every link capacity, every n and t",
  "Threads in the tests run under whatever schedule the machine happens to give and with roomy buffers.",
  ["mpc-core/src/protocols/shamir/network.rs", "mpc-core/src/protocols/shamir.rs", "mpc-core/src/protocols/shamir/rngs.rs"],
  [("broadcasts, king-based degree reduction, seed exchange", "mpc-core/src/protocols/shamir/network.rs")],
  "termination and results")
p("S07", "Malformed or missing protocol messages end in an error, not a crash or a hang",
  "If any single message of a protocol run is lost with its sender, truncated, emptied, not a valid encoding, or carries another number of elements than expected, the party receiving it returns an error; it does not panic, does not hang once the link is closed, and does not silently go on with a value that was never sent; a party whose own send fails returns an error.",
  ["fault_sequences", "inputs"],
  "every message position of every protocol and every kind of damage at that position",
  "Tests only run honest parties on perfect links.",
  ["mpc-core/src/protocols/shamir/network.rs", "mpc-core/src/protocols/shamir/rngs.rs", "mpc-core/src/protocols/shamir/arithmetic.rs", "mpc-core/src/protocols/shamir/pointshare.rs"],
  [("length and encoding checks on received messages", "mpc-core/src/protocols/shamir/network.rs")],
  "per-party results under one damaged message")
p("S08", "Operations on shared curve points compute the plain group operation",
  "For every point (including the identity), scalar (including zero) and party count, every operation on point shares - addition, subtraction, public and shared scalar multiplication, multi-scalar multiplication, opening single points, vectors, half-products and point/field pairs - opens to the result of the plain group operation.",
  ["inputs", "configurations"],
  "every pair of points and scalars of a small cyclic group, every vector length, every n and t with 2t < n",
  "Tests use one random point per operation on one large curve with three parties, never the identity or zero.",
  ["mpc-core/src/protocols/shamir/pointshare.rs", "mpc-core/src/protocols/shamir/pointshare/ops.rs", "mpc-core/src/protocols/shamir/network.rs"],
  [("point share arithmetic and openings", "mpc-core/src/protocols/shamir/pointshare.rs")], "opened points")
p("S09", "Evaluating a shared polynomial agrees with plain evaluation",
  "Evaluating a polynomial with shared coefficients at a public point gives a share of the plain value, for every length (including zero, one, and above the parallel threshold), point and number of worker threads.",
  ["inputs", "configurations"],
  "every coefficient vector length, point and thread count",
  "Tests evaluate random polynomials of one length.",
  ["mpc-core/src/protocols/shamir/poly.rs", "mpc-core/src/protocols/shamir.rs"],
  [("chunked parallel Horner", "mpc-core/src/protocols/shamir/poly.rs")], "combined value")
# ------------------------------------------------------------------ Rep3
p("R01", "Replicated shares: local operations commute with opening",
  "For every ring or field value, every way of splitting it into replicated shares, and every local operation on shares (addition, subtraction, negation, multiplication by a public value, bitwise operations, shifts, point addition and scalar multiplication, and the local part of a shared multiplication), combining the parties' results gives the plain result. "
  "The in-place, by-reference and by-value forms agree.",
  ["inputs"],
  "every plain value and every splitting randomness in a small domain, every operator form",
  "Tests use one random sharing per operation of a large field; by-reference and in-place forms are hardly used.",
  ["mpc-core/src/protocols/rep3/arithmetic/ops.rs", "mpc-core/src/protocols/rep3/arithmetic/types.rs", "mpc-core/src/protocols/rep3/binary/ops.rs", "mpc-core/src/protocols/rep3/binary/types.rs", "mpc-core/src/protocols/rep3/pointshare/ops.rs"],
  [("share operators", "mpc-core/src/protocols/rep3/arithmetic/ops.rs"), ("binary share operators", "mpc-core/src/protocols/rep3/binary/ops.rs")], "combined values")
p("R02", "Replicated-sharing network primitives move each value to the right party",
  "Party ids form a cycle of three in which next and previous are inverse, and every other id is rejected. "
  "Sending to the next party, resharing, broadcasting and their vector forms deliver to each party exactly the value its previous or other party passed in, under every schedule and link capacity; an undecodable message, or one with the wrong number of elements where a single element is expected, gives an error.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the three parties to a bound, every link capacity, every damaged message, every value and vector length",
  "Tests run these primitives only inside larger protocols on perfect links under one schedule.",
  ["mpc-core/src/protocols/rep3/network.rs", "mpc-core/src/protocols/rep3/id.rs"],
  [("reshare/broadcast primitives", "mpc-core/src/protocols/rep3/network.rs"), ("party id cycle", "mpc-core/src/protocols/rep3/id.rs")], "values received")
p("R03", "Replicated field arithmetic computes the plain field operation",
  "For all inputs and for all sharing randomness, every interactive operation on replicated field shares (multiplication, inversion, division, square root, comparison, equality, selection, openings and vector forms) opens to the plain result at all three parties.",
  ["inputs", "schedules"],
  "every pair of elements of small fields, every vector length, every schedule to a bound",
  "Tests use random elements of one large field; edge values (zero, one, the largest element, non-squares) hardly occur.",
  ["mpc-core/src/protocols/rep3/arithmetic.rs", "mpc-core/src/protocols/rep3/detail.rs", "mpc-core/src/protocols/rep3.rs", "mpc-core/src/protocols/rep3/rngs.rs"],
  [("replicated multiplication and comparisons", "mpc-core/src/protocols/rep3/arithmetic.rs"), ("correlated randomness", "mpc-core/src/protocols/rep3/rngs.rs")], "opened values")
p("R04", "One replicated party's view is independent of the secrets",
  "Sharing hides: each single party's pair of shares is uniform and independent of the secret, and the messages it receives in multiplications and resharings are distributed independently of the secret inputs. "
  "Correlated randomness of the three parties sums to zero in every round and forks never repeat it.",
  ["inputs", "histories"],
  "every secret, every party, over all randomness of the others, and every sequence of draws and forks",
  "No test inspects distributions or compares randomness between forks.",
  ["mpc-core/src/protocols/rep3.rs", "mpc-core/src/protocols/rep3/rngs.rs", "mpc-core/src/protocols/rep3/arithmetic.rs"],
  [("sharing and zero masks", "mpc-core/src/protocols/rep3/rngs.rs")], "shares and received messages")
p("R05", "Replicated bitwise shares: operations and conversions keep the plain value",
  "For all inputs and sharing randomness, every operation on bitwise-shared field values (AND, XOR, OR, NOT, shifts, selection, zero test, OR trees, openings, forms with public operands) opens to the plain bitwise result, and every conversion between arithmetic, bitwise and garbled sharings, in every order and through every selector, keeps the plain field value; conversions between shared curve points and shared coordinates keep the point.",
  ["inputs"],
  "every value of small fields, every operator form, and every conversion chain, each over many sharings",
  "Tests convert a random element of one large field.",
  ["mpc-core/src/protocols/rep3/binary.rs", "mpc-core/src/protocols/rep3/conversion.rs", "mpc-core/src/protocols/rep3/detail.rs", "mpc-core/src/protocols/rep3/yao.rs", "mpc-core/src/protocols/rep3/yao/circuits.rs", "mpc-core/src/protocols/rep3/pointshare.rs"],
  [("bitwise operations", "mpc-core/src/protocols/rep3/binary.rs"), ("conversions", "mpc-core/src/protocols/rep3/conversion.rs")], "opened values")
p("R06", "Replicated ring shares compute the plain integer operation",
  "For every ring width, all inputs and all sharing randomness, the operations on shares of integers modulo 2^k (arithmetic, bitwise, shifts, comparisons, equality, selection, openings, forms with public operands), the conversions between their arithmetic, bitwise and garbled sharings, and the casts between rings of different widths and between rings and fields give the plain result.",
  ["inputs"],
  "every value of the narrow rings and boundary values of the wide ones, every operator form and pair of widths, each over many sharings",
  "Tests use a few random values of each width.",
  ["mpc-core/src/protocols/rep3_ring/arithmetic.rs", "mpc-core/src/protocols/rep3_ring/binary.rs", "mpc-core/src/protocols/rep3_ring/conversion.rs", "mpc-core/src/protocols/rep3_ring/casts.rs", "mpc-core/src/protocols/rep3_ring/detail.rs", "mpc-core/src/protocols/rep3_ring/yao.rs"],
  [("ring arithmetic", "mpc-core/src/protocols/rep3_ring/arithmetic.rs"), ("casts", "mpc-core/src/protocols/rep3_ring/casts.rs")], "opened values")
p("R07", "Oblivious sorting and lookup tables behave like sorting and indexing",
  "The oblivious sorts return the inputs, truncated to the requested number of bits where documented, in ascending order (stable, and permuting accompanying vectors the same way); one-hot vectors have exactly the entry at the shared index set; reading a public or secret table at a shared index gives that entry (zero past the end of a table that is implicitly padded), and writing replaces that entry alone, for every table length of at least two.",
  ["inputs", "histories"],
  "every small vector of small values with every key width, every index of every small table length, and write-then-read histories",
  "Tests use one table length and one random vector.",
  ["mpc-core/src/protocols/rep3_ring/gadgets/sort.rs", "mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs", "mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs", "mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs", "mpc-core/src/protocols/rep3_ring/lut_field.rs", "mpc-core/src/protocols/rep3_ring/lut_curve.rs", "mpc-core/src/protocols/rep3/gadgets/sort.rs"],
  [("oblivious sorts", "mpc-core/src/protocols/rep3_ring/gadgets/sort.rs"), ("lookup tables", "mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs")], "opened values")
p("R09", "Poseidon2 and Merkle trees on replicated shares equal their plain definition",
  "For every input state and all sharing randomness, each way of evaluating the Poseidon2 permutation on replicated shares (directly, in place, with precomputed values one after the other or packed, in any mix of the two, round by round, and over additive shares) opens to the permutation defined by its parameters, uses up precomputed values in step, and the shared Merkle roots equal the plain roots.",
  ["inputs", "histories"],
  "every state over small values, every evaluation form and sequence of uses of one precomputation, every tree depth and arity",
  "Tests evaluate one random state per form of one large field.",
  ["mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs", "mpc-core/src/gadgets/poseidon2/rep3.rs", "mpc-core/src/gadgets/merkle_tree/rep3.rs"],
  [("replicated permutation and precomputation", "mpc-core/src/gadgets/poseidon2/rep3.rs")], "opened states and roots")
p("R10", "Poseidon2 circuit traces: every shared form yields the trace of the plain form",
  "The trace of intermediate values that a Circom circuit of the Poseidon2 permutation needs is the same (after opening) whether computed in plain, on replicated shares or on Shamir shares, for one permutation or a batch, with any split of the precomputation; it contains only values that occur when the permutation's definition is followed, and its final state is the permutation of the input.",
  ["inputs", "histories"],
  "every state over small values, every width with a trace, every batch size and order of use of one precomputation",
  "Tests compare the forms for one random state of one large field.",
  ["mpc-core/src/gadgets/poseidon2/poseidon2_circom_accelerator.rs", "mpc-core/src/gadgets/poseidon2/poseidon2_shamir_circom_accelerator.rs"],
  [("trace generation", "mpc-core/src/gadgets/poseidon2/poseidon2_circom_accelerator.rs")], "opened traces")
# ------------------------------------------------------------------ integers, tables
p("U01", "Ring elements behave as integers modulo 2^k",
  "For each ring width (1, 8, 16, 32, 64, 128 bits) every arithmetic, bitwise, shift, comparison, bit-access (at indices below the width) and conversion operation on ring elements agrees with integer arithmetic modulo 2^k, in every operator form, and serialised elements are read back unchanged while encodings of wrong length are rejected.",
  ["inputs"],
  "all pairs of 1- and 8-bit elements, all shift amounts, and boundary values of the wider rings",
  "Tests sample random elements through share protocols; carries, shifts at the width, and single-bit behaviour are not covered.",
  ["mpc-core/src/protocols/rep3_ring/ring/bit.rs", "mpc-core/src/protocols/rep3_ring/ring/int_ring.rs", "mpc-core/src/protocols/rep3_ring/ring/ring_impl.rs"],
  [("bit and integer rings", "mpc-core/src/protocols/rep3_ring/ring/ring_impl.rs"), ("single-bit ring", "mpc-core/src/protocols/rep3_ring/ring/bit.rs")], "operation results")
p("U02", "Fixed-width unsigned integers agree with exact integers",
  "Every operation of the fixed-width unsigned integer types (bitwise, shifts, addition, comparison, bit access, conversion to and from field elements, decimal and hexadecimal text, bytes and serialised form) agrees with exact integer arithmetic at the type's width, and the conversions between field elements and integers are inverse on canonical values.",
  ["inputs"],
  "all values over a limb-boundary alphabet (zero, one, all-ones, single bits, limb edges) and all shift amounts, for every supported width and field",
  "Tests exercise a few conversions of random field elements.",
  ["mpc-core/src/uint/mod.rs", "mpc-core/src/uint/ruint_wrapper.rs", "mpc-core/src/uint/field_uint.rs"],
  [("integer wrapper", "mpc-core/src/uint/ruint_wrapper.rs"), ("field/integer conversion", "mpc-core/src/uint/field_uint.rs")], "operation results")
p("L01", "A lookup table reads back the last value written to each index",
  "For every sequence of public reads and writes a lookup table behaves as an array initialised with its input: a read returns the last value written to that index or the initial one, other entries are unaffected, and an index outside the table never yields a value and never changes an entry.",
  ["histories", "inputs"],
  "every operation sequence to a depth over tables of length one to four",
  "No test covers the plain tables' write-then-read histories.",
  ["mpc-core/src/lut.rs"], [("plain field and curve tables", "mpc-core/src/lut.rs")], "read values")
# ------------------------------------------------------------------ gadgets
p("G01", "Poseidon2 on shares equals plain Poseidon2, which follows its definition",
  "For every input state, for all supported widths and parameters, the plain permutation equals the round-by-round definition with the given constants and matrices, and the secret-shared permutation in all its forms (single, with precomputed randomness, packed over many states) opens to the plain permutation of the opened input.",
  ["inputs", "configurations"],
  "every state over a small field with small round numbers, boundary states for the deployed parameters, every number of packed states, every n and t",
  "Tests compare one or two known answers and a few random shared runs with three parties and full-size parameters.",
  ["mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs", "mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/gadgets/poseidon2/poseidon2_params.rs"],
  [("plain permutation", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs"), ("shared permutation with masked S-box", "mpc-core/src/gadgets/poseidon2/shamir.rs")], "output states")
p("G02", "Merkle trees: root, paths and verification agree for every leaf",
  "For every admissible number and value of leaves, in both hashing modes and for each arity, the root equals the bottom-up definition, the path returned for any leaf verifies against the root with that leaf and position and fails with a different leaf, position, path element or root; the root computed on shares opens to the plain root.",
  ["inputs", "configurations"],
  "every number of leaves to a bound, every leaf index, every single alteration of a path",
  "Tests check one tree size and one index per mode and never a failing path.",
  ["mpc-core/src/gadgets/merkle_tree/plain.rs", "mpc-core/src/gadgets/merkle_tree/shamir.rs"],
  [("plain trees, paths and verification", "mpc-core/src/gadgets/merkle_tree/plain.rs"), ("shared trees", "mpc-core/src/gadgets/merkle_tree/shamir.rs")], "roots and verification results")
p("B01", "Bristol circuits evaluate as written, and malformed ones are rejected",
  "A well-formed Bristol-fashion circuit evaluates, on every input assignment, to what evaluating its gates in order gives, both gate by gate and level by level; text that is not a well-formed circuit is rejected with an error and never causes a crash.",
  ["inputs", "programs"],
  "every circuit up to a few gates and wires, every input assignment, and every small corruption of the text",
  "Tests evaluate two fixed adder-like circuits on a few inputs.",
  ["mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs", "mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs", "mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs"],
  [("parser, verification, levelling and evaluation", "mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs")], "circuit outputs or errors")
p("Z01", "Shares and field data survive serialisation; damaged encodings are rejected",
  "Every share type, share vector and shared-witness structure that is serialised (binary, text) is read back as an equal value, and an encoding that is truncated or contains a non-canonical field element or an invalid curve point is rejected with an error rather than accepted or causing a crash.",
  ["inputs"],
  "every value of a small-field share, every truncation length and every single-byte corruption of an encoding",
  "Tests never deserialise damaged data and do not cover all share types.",
  ["mpc-core/src/serde_compat.rs", "mpc-core/src/protocols/shamir/arithmetic/types.rs", "mpc-core/src/protocols/shamir/pointshare/types.rs", "mpc-core/src/protocols/rep3/arithmetic/types.rs", "co-circom/co-circom-types/src/lib.rs"],
  [("serde bridge for field and curve data", "mpc-core/src/serde_compat.rs")], "decoded values or errors")
# ------------------------------------------------------------------ co-circom
p("K01", "Splitting circom inputs into shares preserves every input value",
  "Splitting an input file into shares keeps public inputs in the clear and shares all others, so that recombining the shares gives exactly the field element each written value denotes (decimal of any size, negative, hexadecimal, booleans, nested arrays flattened by position, omitted entries); ill-formed values are errors.",
  ["inputs"],
  "every input file over a bounded alphabet of values, nestings and public-name sets, for every n and t",
  "Tests split a few well-formed input files with one (n, t).",
  ["co-circom/co-circom-types/src/lib.rs"],
  [("input parsing and sharing", "co-circom/co-circom-types/src/lib.rs")], "recombined inputs")
p("K02", "Sharing a witness keeps the public part and hides, but preserves, the rest",
  "Sharing a witness with a given number of public inputs gives every party the same public values (the constant one followed by the public inputs) and shares of the remaining values that recombine to the original in the same order; the values handed to verification are exactly the public inputs without the leading constant, and batching and unbatching keep order and length.",
  ["inputs", "configurations"],
  "every witness length and number of public inputs, every n and t",
  "Tests use the fixed witnesses of two circuits.",
  ["co-circom/co-circom-types/src/lib.rs"],
  [("witness sharing and batching", "co-circom/co-circom-types/src/lib.rs")], "shared witness contents")
p("K03", "Collaborative Groth16 proofs verify, agree between parties, resist alteration",
  "For every satisfied constraint system and every witness sharing, all parties obtain the same proof and it verifies with the public inputs, like the single-party prover's; a proof for an unsatisfied witness does not verify, and verification fails for any changed public input, proof element or number of public inputs. "
  "Inputs of inconsistent sizes are rejected with an error, and the two blinding values in a proof are fresh, independent random values that no t parties know.",
  ["inputs", "programs", "schedules"],
  "every small constraint system and witness over a bounded alphabet, every n and t, every single alteration of proof, inputs or sizes",
  "Tests prove two fixed circuits once and check acceptance only.",
  ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/mpc/shamir.rs", "co-circom/co-groth16/src/mpc/plain.rs", "co-circom/co-groth16/src/verifier.rs", "co-circom/co-groth16/src/lib.rs"],
  [("collaborative prover", "co-circom/co-groth16/src/groth16.rs"), ("share back end", "co-circom/co-groth16/src/mpc/shamir.rs"), ("verifier", "co-circom/co-groth16/src/verifier.rs")], "proofs and verification results")
p("K04", "Collaborative Plonk proofs verify, agree between parties, resist alteration",
  "For every satisfied Plonk circuit and witness sharing, all parties obtain the same proof and it verifies with the public inputs, like the single-party prover's; verification fails for a proof of an unsatisfied witness and for any changed public input, proof element or number of public inputs. "
  "The eleven blinding values in a proof are fresh random values that no t parties know. Inputs of inconsistent sizes are rejected with an error.",
  ["inputs", "programs", "schedules"],
  "every small Plonk circuit and witness over a bounded alphabet, every n and t, every single alteration of proof or inputs",
  "Tests prove two fixed circuits once and check acceptance only.",
  ["co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/plonk.rs", "co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round4.rs", "co-circom/co-plonk/src/round5.rs", "co-circom/co-plonk/src/mpc/shamir.rs", "co-circom/co-plonk/src/mpc/plain.rs"],
  [("five prover rounds", "co-circom/co-plonk/src/round3.rs"), ("verifier", "co-circom/co-plonk/src/plonk.rs")], "proofs and verification results")
p("K05", "Constraint system to polynomial reductions give the exact quotient",
  "For every constraint system and assignment, both supported reductions (circom and libsnark style) return the coefficients or evaluations that the definition of the quotient of the three constraint polynomials by the vanishing polynomial prescribes, for plain values and, opened, for shared ones; the domain size rule is respected for every number of constraints and inputs.",
  ["inputs", "programs"],
  "every small constraint system and assignment, every number of constraints around powers of two",
  "Tests compare against nothing but final proof acceptance of two circuits of fixed size.",
  ["co-circom/co-groth16/src/groth16/reduction.rs"],
  [("witness map of both reductions", "co-circom/co-groth16/src/groth16/reduction.rs")], "witness map output")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
# ------------------------------------------------------------------ witness extension
p("V01", "Witness extension: operations on shared values give the plain witness",
  "For every operation of the circuit virtual machine, every operand value and every choice of which operands are shared and which are public, the multi-party witness extension (replicated with either comparison strategy, batched, and Shamir, for the operations a driver supports) opens to the value that the plain witness extension and the circuit language define, or ends with an error where the operation is undefined or unsupported; accelerated components and functions give what the unaccelerated ones give.",
  ["inputs", "configurations"],
  "every operation, every pair of elements of small fields, every assignment of shared and public operands, every driver, each over several sharings",
  "Tests run a few whole circuits on one input each, with all inputs shared, in one large field.",
  ["co-circom/circom-mpc-vm/src/mpc_vm.rs", "co-circom/circom-mpc-vm/src/mpc/plain.rs", "co-circom/circom-mpc-vm/src/mpc/rep3.rs", "co-circom/circom-mpc-vm/src/mpc/shamir.rs", "co-circom/circom-mpc-vm/src/mpc/batched_plain.rs", "co-circom/circom-mpc-vm/src/mpc/batched_rep3.rs", "co-circom/circom-mpc-vm/src/accelerator.rs"],
  [("drivers of the virtual machine", "co-circom/circom-mpc-vm/src/mpc/rep3.rs"), ("accelerators", "co-circom/circom-mpc-vm/src/accelerator.rs")], "opened witness")
p("V02", "Witness extension: shared control flow follows the plain program",
  "For every program of branches, loops, function calls, early returns and assignments, and for every input and every choice of which inputs are shared, running it on shares opens to the witness of the plain run: only the effects of the statements that the plain run executes are visible, assertions and divisions that it does not reach never fail, and assertions that it reaches and that are violated make the run fail.",
  ["programs", "inputs", "configurations"],
  "every program of a small grammar up to a size, every input from a small set, every assignment of shared and public inputs",
  "Tests contain a few circuits whose branches are shallow, and each is run on one input.",
  ["co-circom/circom-mpc-vm/src/mpc_vm.rs", "co-circom/circom-mpc-vm/src/op_codes.rs", "co-circom/circom-mpc-vm/src/stack.rs"],
  [("stack of shared conditions and shared returns", "co-circom/circom-mpc-vm/src/mpc_vm.rs")], "opened witness")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
