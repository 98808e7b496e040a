CLAIMS = {
 'A01': ('path-sensitive typestate and byte-provenance dataflow over LLVM IR',
         'Abstracts the peer as an unknown byte stream; the slot request must be dominated by the whole login sequence.'),
 'A02': ('path-sensitive typestate dataflow forking every matcher outcome', 'PCRE2 itself is outside; what it is given and how its answer is used is decided.'),
 'A03': ('path-sensitive failure-propagation dataflow over LLVM IR', 'The check of the placeholder is decided on the value stored, after the whole file was read.'),
 'A04': ('provenance dataflow: ghost position, per-byte transformation decided for all 256 values', 'Passwords up to 2 GiB; MD5 itself is K01.'),
 'R03': ('failure-propagation dataflow: every fallible step forked', 'The table of steps whose failure an operation may tolerate is part of the specification (sa/checks/r03.py).'),
 'A05': ('typestate over the login with a text domain: what is sent is a sequence of constants, configured strings with exact symbolic lengths and the response; byte provenance for the challenge',
         'That a send delivers all its bytes or fails is F02/F06; the response function is A01, K01 and K02.'),
 'C01': ('typestate dataflow over LLVM IR: lock pairing per path', 'Lock operations are assumed to succeed.'),
 'C02': ('interprocedural lock-order graph, cycle detection', 'Locks are identified by structure and field.'),
 'C03': ('guarded-by dataflow analysis', 'The field-to-lock table (sa/common.py) and the list of operations that own an object alone (sa/locks.py) are part of the specification.'),
 'C04': ('effect analysis of blocking operations over the call graph', 'Which lock an interrupter or awaited thread needs is computed from the code.'),
 'C05': ('value dataflow over LLVM IR with ghost reader counts', 'pthread mutex and condition primitives are trusted.'),
 'C06': ('typestate dataflow over LLVM IR, every interleaved state forked at lock boundaries',
         'The transition table of the worker states is part of the specification; other threads act only between critical sections (C03).'),
 'F06': ('provenance dataflow over LLVM IR', 'Byte provenance of every field of the built message.'),
 'F01': ('typestate dataflow over LLVM IR with a symbolic message header', 'The connection operations have the contract decided by F06.'),
 'F02': ('typestate and provenance dataflow over LLVM IR', 'A send under the transmission lock is one uninterrupted transfer (F06, C05).'),
 'F03': ('ghost-counter value dataflow over LLVM IR', 'The connection operations have the contract decided by F06.'),
 'F04': ('typestate dataflow over LLVM IR', 'A close notice may fail when the client is gone.'),
 'F05': ('typestate dataflow over LLVM IR', 'Which errors a relay expects (connection lost, interrupted) is part of the specification.'),
 'C07': ('ownership typestate of socket handles over LLVM IR', 'The set-up operations are analysed on objects without a handle; the callers that set up members of longer-lived objects are listed as assumptions.'),
 'S01': ('shape analysis of the slot pool, call map and worker pool over LLVM IR', 'Lists are materialised in every shape relevant to an operation on one element whenever their lock is taken.'),
 'S02': ('ownership typestate of the accepted connection over LLVM IR', 'Hand-over is the successful wake of the worker that was given the connection.'),
 'S03': ('shape analysis and typestate of taking a slot over LLVM IR', 'Membership in the pool is decided in every list shape, including slots still being wound down.'),
 'S04': ('typestate dataflow over LLVM IR', 'Arrays of one to three slots; the loops treat all elements alike.'),
 'S05': ('typestate and value dataflow over LLVM IR', 'Counts are assumed to lie between 0 and INT_MAX.'),
    'C08': ('abstract interpretation with exact linear arithmetic in which quotients and remainders by constants stay symbolic; the deadline is compared with clock reading + limit as a linear identity, overflow makes a quantity unknown',
         'The length of an operating-system wait beyond its deadline is outside the statement. Clocks are read by clock_gettime, gettimeofday or timespec_get.'),
 'N02': ('abstract interpretation with a text domain: each buffer is a sequence of constants, configured strings with exact symbolic lengths, numbers and digests of such sequences; compared with the agreed ending where the worker is started',
         'Texts are shorter than 2 GiB; formatted output is assumed not to fail. That the digest function computes MD5 is K01 and its text form K02.'),
 'C09': ('abstract interpretation: points-to of function and context where each owner becomes ready, against the type the function reaches through its context (read off its code); typestate of creation and join of threads',
         'Windows threads are not built here and not analysed.'),
 'R01': ('ownership typestate over the set-up and release functions of every kind of object', 'Parts are inferred from what successful set-up acquires and what is attached to fields anywhere; objects are released by one caller at a time. Arrays of slots: D03.'),
    'R02': ('ownership typestate over memory, streams, address lists, compiled patterns and sub-objects', 'Every operation is analysed from an arbitrary state of its objects; which fields own an object is inferred from where objects are attached and released. Elements of arrays of unknown length are not told apart.'),
    'R04': ('null-dereference dataflow: every allocation forks into object and none, every optional setting into present and absent', 'Handles given by the caller are assumed valid; the count of additional addresses and the list agree (G02).'),
    'R05': ('relational interval analysis of every write against object and member bounds, with write summaries of module interfaces, and a terminator typestate for text buffers',
            'Lengths and allocation sizes are assumed below 2 GiB; 64-bit counters kept in structures are assumed to fit 31 bits; counters are assumed not to wrap.  Stores through a pointer whose target object is unknown (links of the pools) are listed in the evidence, not decided.  strftime output is bounded for the C locale the daemon runs in.'),
    'G01': ('abstract interpretation (value analysis over character classes) of the configuration reader',
            'conf_parse_file analysed for abstract texts: names of every length 1..40 with unknown characters, and per documented setting a family of value shapes; every setting compared on return'),
    'G02': ('abstract interpretation of slot set-up with enumerated list shapes, plus address dataflow to the sockets',
            'proxy_open for 0..3 additional addresses (distinct abstract objects); every other function for all inputs'),
    'L01': ('path-sensitive dataflow over every combination of medium, level, severity and new medium (typestate of the medium resources)',
            'both the build for this system and the event-log build (with stand-in declarations) are analysed; opening calls fork into success and failure'),
    'N01': ('typestate over every status at each lock acquisition, plus a symbolic text model (exact lengths) of the report that is sent',
            'start/update/stop compared with their contract, the worker function analysed for all statuses; that a pending wake runs before the worker ends is C06'),
 'D01': ('abstract interpretation of main over every outcome of each start step, of the option parser over command lines of symbolic bytes, and a thread-creation effect query over the call graph',
         'Command lines of up to three arguments of symbolic bytes against a table of the documented options; main with every start step failing or succeeding.'),
 'D02': ('typestate of the service loop with a termination signal injected at every wait, plus outcome propagation through the signal handlers, shutdown, accept and process functions',
         'Signals are modelled as arriving during a wait (accept or sleep); that the kernel ends accept on a listener that was shut down is assumed. C02 lists what the handlers do that is not async-signal-safe.'),
 'D03': ('typestate of slots, workers and listener through proxy_close and proxy_open, with opening analysed from the abstract state that every close and failed open leaves behind',
         'Up to three slots; every callee that can fail forks. A field not reset by every close counts as stale when the proxy is opened again.'),
 'K01': ('value-graph equivalence: every state bit after a block as a canonical graph of Boolean functions and modular sums over the block and the state, compared with that of RFC 1321; induction over the blocks of a call',
         'The context, the data and the result do not overlap. The number of blocks of a call is decided for every size.'),
 'K02': ('Boolean-function analysis of the conversions (decision diagrams over all input bits) and of one round of the hash (bijection in both bytes), induction over the rounds, and a def-use rule on the length that callers pass',
         'Characters that are not digits are outside the statement.'),
 'K03': ('induction over calls with a context invariant; each call evaluated as a value graph per buffer fill and size modulo 64 with all other bits symbolic, obligations decided by decision diagrams',
         'Data and context do not overlap. If MD5_Update looped over whole blocks itself, sizes above five blocks would not be covered (noted in the evidence).'),
}
NA = {
 'X01': 'The generator is libc rand() seeded with the time: predictability is a statement about a probability distribution and an adversary, not about the program text; a source rule (which generator is called) would not decide it.',
 'X02': 'Delay and starvation depend on the scheduler, the network and the peers at run time; no static bound exists in this code, and the shared/exclusive lock is not starvation free by design.',
 'X04': 'Matching is done inside PCRE2, which is outside the sources analysed; the static part (which pattern, subject and options are passed) is claimed as A02.',
 'X05': 'Order and multiplicity end to end are decided by the kernel socket queues and the network at run time; the static part (each received datagram is forwarded once, in one relay thread) is claimed as F02.',
}
