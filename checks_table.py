"""Which harness program decides which property, and what it needs."""

RACE = "run under the Go race detector"
CHECKS = {
    "S01": dict(prog="smt", technique="runtime monitoring: lockstep reference model over random update histories, race detector",
                note="held on the histories executed; assumes SHA-256 collision freedom and digest keys"),
    "S02": dict(prog="smt", mysql=True, level="fault_enumeration",
                technique="runtime monitoring: recording/fault-injecting node store and real tables, reload-and-compare oracle, race detector",
                note="every store call of the executed histories failed in turn; a failing call is assumed to have no effect"),
    "S03": dict(prog="smt", technique="runtime monitoring: adversarial proof generator with a reference-map truth oracle, race detector",
                note="held on the proofs offered; one recorded finding on nodes with one empty half"),
    "M01": dict(prog="mapdb", mysql=True, technique="runtime monitoring: lockstep reference model over real tables and stored procedures, race detector",
                note="held on the histories executed; a certificate always arrives with the same chain"),
    "M02": dict(prog="mapdb", mysql=True, technique="runtime monitoring: pending-set conservation monitor over real tables, race detector",
                note="held on the sequential histories executed"),
    "M03": dict(prog="mapdb", mysql=True, technique="runtime monitoring: complete table snapshots compared with a reference model after every step, race detector",
                note="held on the histories executed; names up to 300 ASCII characters"),
    "M04": dict(prog="mapdb", mysql=True, technique="runtime monitoring: pruning model over certificate forests on the real stored procedure, race detector",
                note="held on the histories executed; whole-second instants as in certificates"),
    "M09": dict(prog="mapdb", mysql=True, technique="runtime monitoring: session auditor asking the server who, where and how it is reached, against a reference of the configuration, race detector",
                note="held on the configurations executed; one server"),
    "L01": dict(prog="fetch", technique="runtime monitoring: delivery-order checker against a recording loopback log with scripted answers, leak monitor, race detector",
                note="held on the ranges, answers and stop points executed; the log answers with the entries asked for"),
    "L02": dict(prog="fetch", technique="runtime monitoring: delivery conservation checker over generated log folders, fault placement, leak monitor, race detector",
                note="held on the folders executed; file names state the range a file covers"),
    "U01": dict(prog="pure", technique="runtime monitoring: naive reference models and guarded storage over generated collections, race detector",
                note="held on the collections executed"),
    "U02": dict(prog="pure", technique="runtime monitoring: big-integer oracle for texts, schedule checker under a simulated clock, race detector",
                note="held on the texts, values and schedules executed; positive periods"),
    "K01": dict(prog="pure", technique="runtime monitoring: interval checker over concurrent histories, race detector",
                note="held on the interleavings executed"),
    "C05": dict(prog="pure", technique="runtime monitoring: label-wise decision model over generated attribute sets and names, race detector",
                note="held on the attribute sets and names executed; lower-case names"),
    "D01": dict(prog="pure", technique="runtime monitoring: label-wise reference model over generated names and lists, race detector",
                note="held on the names executed; acceptance judged for lower-case names; the built-in public suffix list is the reference"),
    "I04": dict(prog="pure", technique="runtime monitoring: differential run against the standard CSV reader, race detector",
                note="held on the rows executed; one physical line per row"),
    "N01": dict(prog="pure", technique="runtime monitoring: conservation checker over generated files, chunkings and damages, race detector",
                note="held on the files executed"),
    "C01": dict(prog="crypto", technique="runtime monitoring: field-by-field mutation oracle for signatures, deep-copy immutability monitor, race detector",
                note="held on the documents, mutations and interleavings executed; RSA and SHA-256 are assumed unforgeable"),
    "C02": dict(prog="crypto", technique="runtime monitoring: label- and interval-wise reference decision over generated issuer and child pairs, race detector",
                note="held on the pairs executed; ownership has no domain rule in the code and is only judged by CanOwn"),
    "C03": dict(prog="crypto", technique="runtime monitoring: issuance ledger and recording loopback log over request histories with forgeries and log failures, race detector",
                note="held on the histories executed; requests without known owner are under no cool-off rule in this code"),
    "C04": dict(prog="crypto", technique="runtime monitoring: round-trip and aliasing monitor over generated documents, damaged encodings, race detector",
                note="held on the documents and damages executed"),
    "G01": dict(prog="crypto", technique="runtime monitoring: reference Merkle log as truth oracle for genuine and altered proofs, race detector",
                note="held on the log sizes and alterations executed; tree heads are genuine"),
    "G02": dict(prog="crypto", technique="runtime monitoring: exactly-once accounting against a scripted loopback gRPC log server, leak monitor, race detector",
                note="held on the scripts executed; a malicious but protocol-conforming server"),
    "G03": dict(prog="plog", mysql=True, extra={"logserver": "./cmd/logserver", "logsigner": "./cmd/logsigner"}, level="fault_enumeration",
                technique="runtime monitoring: histories of the compiled log server and signer with concurrent clients, signals, kills and restarts; append-only and exactly-once checker over every tree head observed, independent RFC 6962 reference, race detector",
                note="held on the histories and signals executed; the Trillian library and the database server are trusted"),
    "M05": dict(prog="server", mysql=True, technique="runtime monitoring: independent client verifying every answer of the real HTTP(S) interface against a reference model, race detector",
                note="held on the histories and requests executed; names without www. and wildcard in the certificates"),
    "M06": dict(prog="server", mysql=True, level="fault_enumeration", technique="runtime monitoring: fault-injecting proxy on the MySQL protocol, restart-and-compare oracle, race detector",
                note="held at the points of failure executed; the database server itself survives"),
    "M07": dict(prog="server", mysql=True, level="fault_enumeration", technique="runtime monitoring: position and conservation checker over sequences of update cycles of the real server on loopback logs and file folders that grow and fail, race detector",
                note="held on the logs, failures and cycles executed"),
    "M08": dict(prog="server", mysql=True, extra={"mapserver": "./cmd/mapserver"}, level="fault_enumeration", technique="runtime monitoring: histories of the compiled program under signals at random moments, failing logs, schedules and broken configurations; reference model of the published map, independent client, race detector in the program",
                note="held on the histories, signals and configurations executed; the database server survives"),
    "R01": dict(prog="server", mysql=True, technique="runtime monitoring: version-interval checker over concurrent query histories, hostile store delays, race detector",
                note="held on the interleavings executed; recorded findings inside the update window"),
    "P01": dict(prog="pipe", technique="runtime monitoring: conservation and order checker over generated pipelines against a schedule-independent reference, race detector, goroutine census",
                note="held on the pipelines and schedules executed; a single source per pipeline"),
    "P02": dict(prog="pipe", level="fault_enumeration", technique="runtime monitoring: failure injection in any part of generated pipelines, error and termination monitor, race detector, goroutine census",
                note="held on the failures and schedules executed"),
    "P03": dict(prog="pipe", technique="runtime monitoring: mutual-exclusion monitor on stall actions plus conservation checker, race detector",
                note="held on the stalls and schedules executed"),
    "I01": dict(prog="ingest", mysql=True, level="fault_enumeration", technique="runtime monitoring: delivery-conservation checker on the database connection (recording, delaying and failing stand-in) and on real tables, race detector, goroutine census",
                note="held on the deliveries, configurations, schedules and failing writes executed; certificates with one parent each"),
    "I02": dict(prog="ingest", mysql=True, extra={"ingest": "./cmd/ingest"}, level="fault_enumeration", technique="runtime monitoring: the compiled tool under generated directories, damaged files, refused writes, cut connections and signals; conservation oracle on the tables and reference root; race detector in the tool",
                note="held on the directories, configurations and faults executed; well-formedness of a row as the tool documents it"),
    "I03": dict(prog="ingest", mysql=True, extra={"ingest": "./cmd/ingest"}, level="fault_enumeration", technique="runtime monitoring: journal histories against a covered-index reference, concurrent readings of the file, SIGKILL and file-size faults at random points, the compiled tool killed and resumed; race detector",
                note="held on the histories, crash points (process crashes) and faults executed"),
}
