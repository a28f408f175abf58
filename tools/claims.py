NA={}
G="Evidence from executions only: the histories, configurations and inputs of this run (seeded, random, see evidence counters). Trusts the harness model, the operating system's filesystem and Go's standard library."
c("C01","exploration","runtime monitoring: model-based history monitor, byte comparison of extracted trees",G)
c("C02","exploration","runtime monitoring: snapshot monitor over committed versions",G)
c("C03","exploration","runtime monitoring: specification-derived OCFL oracle over every written root",G+" The oracle is an independent validator written from the OCFL 1.0/1.1 text.")
c("C10","exploration","runtime monitoring: whole-root snapshot monitor, enumeration oracle",G)
c("C12","exploration","runtime monitoring: snapshot diff and content-duplication monitor",G)
c("C13","exploration","runtime monitoring: reference model of the logical state",G)
c("C14","exploration","runtime monitoring: digest recomputation with independent code",G)
c("C24","exploration","runtime monitoring: version record monitor",G)
c("C04","exploration","runtime monitoring: validator verdict monitored over gocfl-written objects and conforming objects written by an independent generator",G+" The generator and its oracle are written from the OCFL 1.0/1.1 text.")
c("C05","exploration","runtime monitoring: validator verdict after every kind of single alteration of stored files",G)
c("C06","exploration","runtime monitoring: validator verdict on rule-breaking objects from a mutator per rule, cross-checked with an independent OCFL oracle",G+" Only the rules named in the statement are planted.")
c("C07","exploration","runtime monitoring: supervised process with panic, exit and hang monitors under hostile metadata and injected read faults",G)
c("C08","exploration","runtime monitoring: independent reference mapping per layout specification, repeat/concurrency/injectivity monitors",G+" The reference mappings are written from the published extension texts.")
c("C11","exploration","runtime monitoring: output predicates, segment bounds, determinism, decoder and collision monitors",G)
c("C09","exploration","runtime monitoring: stored-parameter monitor, effective-configuration and mapping comparison across reloads",G)
c("C20","exploration","runtime monitoring: reported metadata compared with inventory, model and recorded attributes after every update and reload",G)
c("C17","exploration","runtime monitoring with fault injection: every failing filesystem call of an update must be reported, otherwise the result is compared with the fault-free result",G)
c("C18","exploration","runtime monitoring with crash and fault injection at every mutating filesystem call; byte comparison of earlier versions and other objects, recovery with independent code",G+" Loss of written but un-synced data at power loss is not simulated.")
c("C23","exploration","runtime monitoring: open-file ledger of an instrumented filesystem and goroutine dump after successful and faulted operations",G)
c("C15","exploration","runtime monitoring: manifests and extracted files recomputed with independent code, single alterations of repository files must be reported",G)
c("C16","exploration","runtime monitoring: ledger of every mutating filesystem call under hostile paths, names, areas, configurations and inventories",G+" Calls that would leave the filesystem are recorded and refused, so their consequences are not observed.")
c("C19","exploration","runtime monitoring: probe extensions recording every hook call, compared with the configured order/exclusion and the stored bytes; planted hook errors",G)
c("C25","exploration","runtime monitoring: ledger of mutating filesystem calls plus byte and mtime snapshots around every read-only operation and no-op update",G)
c("C26","exploration","runtime monitoring: real server under the Go race detector, pages and downloads compared with inventories and stored bytes, hostile requests must be refused",G)
c("C21","exploration","runtime monitoring: the built command line runs every session on a directory and on a zip container, entries, reports, verdicts, sidecars and decrypted copies are compared; failing sources, crashes and kills",G+" Names of which one is the beginning of a sibling are left out of the sessions (known finding of the zip library).")
c("C29","exploration","runtime monitoring: the built command line is run with random flags, configurations and sources; effects compared with a model, refused commands with a snapshot, verdicts with damaged roots",G)

c("C22","exploration","runtime monitoring: Go race detector over concurrent histories, readings, lookups and streams; results compared with the sequential run",G+" Races are seen on the executed interleavings only; several objects of one storage root, never two writers of one object.")
c("C30","exploration","runtime monitoring: random documents, schemas and sources with planted faults; stored documents, refusals and reports compared with a model",G+" JSON Schemas are limited to generated ones with a known verdict.")
c("C28","exploration","runtime monitoring: migrations and thumbnails made by a real external tool; version states, stored records and derivatives compared with a model; failing tools and injected I/O faults",G+" A derivative that several sources would share is not generated.")
c("C27","exploration","runtime monitoring: the METS and PREMIS documents of every version are parsed and compared with the inventory, the stored bytes and the recorded migrations",G+" The documents are not validated against their XML schemas.")
