#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one property per line). Run after editing.
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OB="pkg/ocfl/objectbase.go"; IB="pkg/ocfl/inventorybase.go"; SR="pkg/ocfl/storagerootbase.go"; EX="pkg/extension/"
NOT="The five existing tests only compare a handful of identifier-to-path strings of the storage layouts; "
p("C01","Every ingested file comes back byte-identical from every version",
 "After an object has been created and then updated any number of times, extracting any of its versions yields exactly the logical files that version had when its update ended, each with exactly the bytes that were ingested under that name. This holds whatever the file contents (empty, large, identical to others), the number of versions, the digest algorithm, the storage layout, the area and the object extensions in use. No file is lost, invented, truncated or swapped with another.",
 ["histories","inputs","configurations"],"all update histories x file trees x object/storage configurations",
 NOT+"nothing ingests or extracts anything, and the guarantee ranges over whole histories of updates.",
 [OB,IB,SR,EX+"NNNN-content-subpath.go",EX+"NNNN-direct-clean-path-layout.go"],
 [("AddFile/AddReader/addReader copy content and record it",OB),("state and manifest bookkeeping",IB),("Extract copies the first content path of each digest",OB)],
 ["storage root filesystem after EndUpdate/Close","extraction target filesystem"])
p("C02","A committed version is never altered by later operations",
 "Once an update of an object has been completed, every file stored under the directories of its existing versions keeps its bytes and its name for ever, whatever updates, extractions, validations or metadata runs follow on this or any other object. What each earlier version records (its logical state, message, user and creation time, and the content listed for it) also stays the same in every inventory written later. Content of a new version is only ever written below the directory of that new version.",
 ["histories","inputs","configurations"],"all histories of operations following a commit",
 NOT+"immutability is a statement about all later operations.",
 [OB,IB,SR],[("content path is prefixed with the head version",IB+":BuildManifestName"),("state is copied, not shared, into the new version",IB+":NewVersion"),("inventory written to head version directory",OB+":StoreInventory")],
 ["storage filesystem snapshots between operations","inventory.json"])
p("C03","Everything written is a conforming OCFL storage root and object",
 "Every storage root and object written by a completed operation satisfies the OCFL specification of the version it declares: conformance declarations, inventory and sidecar in the object root and in every version directory, root inventory identical to that of the head version, contiguous version directories, content listed in the manifest exactly once and every state digest resolvable, no logical path conflicts, fixity consistent, layout declaration naming the extension in use. An implementation written from the specification alone accepts them without any error.",
 ["histories","inputs","configurations"],"all histories x OCFL 1.0/1.1 x digest, fixity, layout and extension configurations",
 NOT+"no test writes an object.",
 [OB,IB,SR,"pkg/ocfl/helper.go","pkg/ocfl/inventorytypes.go"],
 [("NAMASTE, inventory and sidecar writers",OB+":Init, StoreInventory"),("storage root initialisation",SR+":Init"),("JSON forms",  "pkg/ocfl/inventorytypes.go")],
 ["storage root filesystem"])
p("C04","The validator raises no error on valid objects and storage roots",
 "Validating a storage root or object that conforms to OCFL 1.0 or 1.1 - whether gocfl or another implementation wrote it, including features gocfl itself never writes (zero-padded versions, missing version inventories, custom content directories, additional digest blocks, upper-case digests, several content paths per digest, logs directory) - completes without an error and reports no validation error. An update that gocfl completed successfully always leaves an object that its validator reports as free of errors.",
 ["inputs","histories","configurations"],"all conforming objects and roots",
 NOT+"the validator is not run by any test.",
 [OB,IB,SR,"pkg/ocfl/validationerror.go"],[("Check, checkFilesAndVersions, checkManifest, checkVersions",OB+", "+IB)],
 ["validation status (errors, warnings)"])
p("C05","The validator detects every alteration of stored content",
 "If any stored content file, inventory or inventory sidecar of an otherwise valid object is changed after the fact - any bytes flipped, appended, truncated or emptied, two files swapped, a content file removed, renamed, or an unlisted file added to a version's content - validation of that object reports at least one error. This also holds when the changed file belongs to an old version, is shared by several logical files, or is only wrong according to the fixity block.",
 ["inputs","histories"],"all single alterations of all files of all valid objects",
 NOT+"detecting arbitrary damage cannot be sampled by fixed cases and no test validates an object.",
 [OB,IB],[("content manifest recomputation and comparison",OB+":createContentManifest, "+IB+":CheckFiles"),("sidecar check",OB+":LoadInventory")],
 ["validation status"])
p("C06","The validator detects structural and inventory violations",
 "Validation of an object or storage root that breaks a mandatory rule of the OCFL specification - missing or wrong or duplicate conformance declaration, missing required inventory fields, bad version sequence or padding, head not the last version, a state digest without manifest entry, a manifest entry without use or file, unsafe or conflicting content or logical paths, duplicate digests differing only in case, root inventory differing from that of the head version, a version inventory contradicting the root, a foreign file or directory in the object root or a foreign file in a version directory, mismatching identifier, content directory or sidecar - reports at least one error.",
 ["inputs"],"all violations of the listed rules in objects of any shape",
 NOT+"the rules quantify over all malformed inventories and directory trees.",
 [OB,IB,SR,"pkg/ocfl/helper.go","pkg/ocfl/validationerror1_0.go","pkg/ocfl/validationerror1_1.go"],
 [("inventory checks",IB+":check*"),("structure checks",OB+":Check, checkFilesAndVersions"),("conformance declaration","pkg/ocfl/helper.go:getVersion")],
 ["validation status"])
p("C07","Hostile or damaged repositories are reported, never crash gocfl",
 "Loading, validating, listing, extracting from, or reading metadata of a storage root or object with arbitrary content - malformed or oddly typed JSON, missing fields, null values, wrong paths, missing or unreadable files and directories, broken extension configurations - always terminates with either a result, reported validation errors or a returned error. It never panics, hangs, or exits the process.",
 ["inputs","fault_sequences"],"all byte contents of all metadata files and all read faults",
 NOT+"robustness is a statement over every malformed input.",
 [OB,IB,SR,"pkg/ocfl/inventorytypes.go","pkg/ocfl/extensionFactory.go",EX],
 [("error returns and validation errors","pkg/ocfl/*.go")],["return values, process liveness"])
p("C08","Storage layouts map identifiers exactly as their specifications say",
 "For every object identifier and every valid configuration, each storage layout extension (0002, 0003, 0004, 0006, 0007, pairtree, direct path) yields exactly the storage path its published specification defines, or refuses the identifier where the specification calls for that. The result depends only on the identifier and the configuration - not on earlier calls, concurrent calls or the state of the repository - and where the specification makes the mapping injective two different identifiers never share a path.",
 ["inputs","configurations"],"all identifiers (any Unicode) x all layout parameters",
 "The existing tests compare a few example identifiers with literal paths under one or two configurations; multibyte identifiers, parameter combinations and repeated or interleaved calls are not reached.",
 [EX+"0002-flat-direct-storage-layout.go",EX+"0003-hash-and-id-n-tuple-storage-layout.go",EX+"0004-hashed-n-tuple-storage-layout.go",EX+"0006-flat-omit-prefix-storage-layout.go",EX+"0007-n-tuple-omit-prefix-storage-layout.go",EX+"NNNN-pairtree-storage-layout.go",EX+"pathdirect.go"],
 [("BuildStorageRootPath",EX+"*")],["returned path / error"])
p("C09","Extension configuration survives storing and reloading",
 "Every parameter with which an extension of a storage root or object was configured is stored in its configuration file and takes effect again when the root or object is loaded later. In particular a reloaded storage root computes the same location for every identifier, so every object can be loaded by its identifier, and a reloaded object maps paths exactly as before.",
 ["configurations","histories","inputs"],"all parameter values of all extensions, any number of reloads",
 NOT+"no test stores or reloads a configuration.",
 [EX,"pkg/ocfl/extensionFactory.go"],[("WriteConfig of each extension",EX+"*"),("NewXxxFS constructors",EX+"*"),("extension factory","pkg/ocfl/extensionFactory.go")],
 ["config.json files","storage path of ids after reload"])
p("C10","Objects never overwrite or damage each other",
 "Creating or updating one object changes nothing inside the directory of any other object, and afterwards exactly the objects created are found when the storage root is enumerated, each loadable by its identifier and carrying that identifier. Creating an object whose location is already occupied - by the same identifier or by another one mapped to it - is refused with an error and leaves what is there unchanged.",
 ["histories","inputs","configurations"],"all sequences of create/update over any identifiers and layouts",
 NOT+"isolation ranges over sequences on many objects.",
 [SR,OB],[("existence check before creation",OB+":Init, "+SR+":ObjectExists"),("location from layout",SR+":CreateObject, LoadObjectByID"),("enumeration",SR+":GetObjectFolders")],
 ["storage root filesystem","enumeration results"])
p("C11","Clean path mapping is safe, bounded, deterministic and reversible",
 "For every path and configuration the direct-clean extension produces a relative path without empty, '.' or '..' segments, without characters it promises to remove or escape, within the configured segment and path length limits (falling back to its hashed form beyond them), and always the same one for the same input. In UTF encoding mode different relative paths (valid UTF-8, without empty segments) that do not exceed the limits produce different outputs and the original can be decoded from the result.",
 ["inputs","configurations"],"all path strings x all configurations of the extension",
 "The existing test of this extension is not part of the passing set and samples a few strings.",
 [EX+"NNNN-direct-clean-path-layout.go"],[("build, encodeUTFCode, fallback",EX+"NNNN-direct-clean-path-layout.go")],["returned path / error"])
p("C12","Content is stored once and unchanged input creates no version",
 "With duplicate detection on, ingesting content that the object already holds - under any name, in this or an earlier version - stores no further copy, and the new logical name refers to the existing content. An update whose input equals the current state leaves the object byte for byte as it was: no new version, no changed inventory, no stray directory. With duplicate detection off every file of the update still ends in a consistent committed state.",
 ["histories","inputs","configurations"],"all update histories with repeated, moved and reverted content",
 NOT+"deduplication depends on the whole history of an object.",
 [OB,IB],[("AlreadyExists, GetDuplicates, CopyFile, IsUpdate",IB),("Clean, EndUpdate, Close",IB+", "+OB)],["storage filesystem diff","manifest"])
p("C13","Updates produce exactly the logical state their mode promises",
 "After an update the new version's logical state is the previous one with every ingested path set to its new content; in echo mode additionally every path of the updated area that was not ingested is gone, and in contribute mode no other path disappears. Deleting or renaming a logical file affects exactly that file, other areas and other files keep their entries, and each logical path refers to exactly one content. Re-adding a deleted path, restoring older content, moving content between names and replacing files follow the same rule.",
 ["histories","inputs","configurations"],"all sequences of add, replace, delete, rename, echo and contribute updates over several areas",
 NOT+"the rule is about arbitrary sequences, where a model has to be followed step by step.",
 [OB,IB,EX+"NNNN-content-subpath.go","gocfl/cmd/update.go"],[("echoDelete, DeleteFile, RenameFile, AddFile, CopyFile",IB),("BeginArea/EndArea/EndUpdate",OB)],["version state in inventory.json"])
p("C14","Every recorded digest is the true digest of the stored bytes",
 "Each digest the inventory records - in the manifest under the object's digest algorithm and in the fixity block under every configured algorithm - is the correct digest of the bytes stored at the content paths listed for it, and every file ingested while fixity algorithms are configured has an entry for each of them other than the manifest's own algorithm. Inventory sidecars carry the digest of the inventory next to them, and reported per-file checksums match.",
 ["inputs","configurations","schedules"],"all contents x all supported digest/fixity algorithm combinations",
 NOT+"digests are computed concurrently while streaming; no test computes one.",
 [OB,IB,"pkg/ocfl/fixity.go"],[("addReader with checksum.Copy",OB),("AddFile fixity bookkeeping",IB)],["inventory.json, sidecars, metadata output"])
p("C15","Extraction never delivers wrong bytes silently",
 "Extracting a version verifies every file against the digest recorded for it: if the stored bytes differ from the digest, or reading the store or writing the target fails at any point, the extraction returns an error; when it returns success every file is complete and correct. A requested manifest lists exactly the extracted files with their digests, and asking for an unknown version or object is an error.",
 ["inputs","fault_sequences","histories"],"all damages of stored content and all I/O fault points during extraction",
 NOT+"no test extracts, and faults can strike at every single call.",
 [OB+"",SR,"gocfl/cmd/extract.go"],[("digest comparison and error propagation",OB+":Extract"),("version selection",IB+":IterateStateFiles")],["extraction target","returned error"])
p("C16","Nothing is written outside the target directory",
 "Extraction writes only below the target filesystem it was given and ingest only below the directory of the object being updated, whatever logical paths, content paths, area names, identifiers or extension configurations a repository or an input tree contains. A path that would lead elsewhere is refused with an error.",
 ["inputs","configurations"],"all hostile logical and content paths, area names and identifiers",
 NOT+"containment is a statement about all hostile inputs.",
 [OB,SR,EX+"NNNN-content-subpath.go",EX+"NNNN-direct-clean-path-layout.go"],[("path construction and writefs.Create",OB)],["paths passed to the target filesystem"])
p("C17","An ingest that hits an I/O error reports it",
 "If reading a source file or directory, or creating, writing, renaming or closing any file of the repository fails during the creation or update of an object or the initialisation of a storage root, the operation returns an error. It never returns success with content, inventory, sidecar or extension data missing, truncated or stale.",
 ["fault_sequences","histories"],"every single faulting filesystem call during every operation",
 NOT+"no test injects a fault.",
 [OB,SR,IB,EX+"NNNN-gocfl-extension-manager.go","pkg/ocfl/fs.go"],[("error propagation","pkg/ocfl, pkg/extension")],["returned errors versus stored files"])
p("C18","A crash or failure during an update never harms earlier versions",
 "If an update of an existing object stops at any point - process death, power loss after any write, or an error from any filesystem call - all content, inventories and sidecars of the versions committed before remain intact and every other object is untouched. The earlier versions can still be recovered byte-identical from what is on disk.",
 ["crash_points","fault_sequences","histories"],"every prefix of the sequence of filesystem writes of every update",
 NOT+"no test stops an update in the middle.",
 [OB,SR],[("order of writes: content, version inventory, root inventory",OB+":EndUpdate, Close")],["filesystem state at each crash point"])
p("C19","The extension manager honours order, exclusion and completeness",
 "Extensions run in the configured order for each hook, with those not listed following in a fixed order; of each configured exclusion group only the first available extension stays active; every active extension implementing a hook is called for every file exactly once with the same bytes, and an error of any of them makes the operation fail. The result depends only on the configuration, not on the order in which extensions were loaded.",
 ["configurations","schedules","inputs"],"all sort and exclusion configurations x all sets of extensions x all stream contents",
 NOT+"hook dispatch over sets of extensions is not exercised.",
 [EX+"NNNN-gocfl-extension-manager.go",EX+"initial.go"],[("Finalize, organize, hook loops, StreamObject",EX+"NNNN-gocfl-extension-manager.go")],["hook call log"])
p("C20","Reported metadata agrees with the object and its stored metadata",
 "The metadata reported for an object lists exactly the content, internal and logical names of every version, checksums, version information and head that its inventory holds, and what metadata extensions recorded for a file at ingest (size, modification time, name, folders; indexer results) is reported for exactly that file and version in every later run. Recording metadata of a new version never loses, reorders or overwrites that of earlier versions, whatever storage mode (area, path or extension) and compression are configured.",
 ["histories","inputs","configurations"],"all histories x metadata extension configurations",
 NOT+"metadata output is not tested.",
 [OB+"",EX+"NNNN-filesystem.go",EX+"NNNN-indexer.go","pkg/ocfl/helper.go"],[("GetMetadata",OB),("WriteJsonL/ReadJsonL","pkg/ocfl/helper.go"),("AddFileAfter/UpdateObjectAfter/GetMetadata",EX+"NNNN-filesystem.go")],["GetMetadata result"])
p("C21","A zip container behaves like a directory and is written completely",
 "The same history of operations applied to a storage root in a zip container and to one in a directory gives the same set of files with the same bytes (creation times aside), reopening the container shows everything written before, and an interrupted or failed update leaves the previous container usable. Checksum sidecars and encrypted copies that are requested match the container that is on disk.",
 ["histories","inputs","crash_points"],"all histories of object creation and update in a container",
 NOT+"containers are not exercised by the tests.",
 [OB,SR,"gocfl/cmd/helper.go"],[("writefs abstraction","pkg/ocfl, je4/filesystem zipfsrw"),("initializeFSFactory","gocfl/cmd/helper.go")],["container file content"])
p("C22","Concurrent use is free of data races and interference",
 "Working on different objects of a storage root at the same time, looking up storage paths concurrently, and reading from a repository concurrently give the same results as doing the same one after the other, without data races. The streaming of one file through digests and extension hooks is race free and each consumer sees exactly the file's bytes.",
 ["schedules"],"all interleavings of operations on different objects, of lookups and of readers",
 NOT+"they are sequential.",
 [OB,SR,EX+"NNNN-gocfl-extension-manager.go",EX+"0003-hash-and-id-n-tuple-storage-layout.go",EX+"0004-hashed-n-tuple-storage-layout.go",EX+"NNNN-pairtree-storage-layout.go",EX+"NNNN-direct-clean-path-layout.go"],
 [("hash state of layouts guarded by mutex",EX+"*layout.go"),("per-object state",OB),("pipes and wait groups",EX+"NNNN-gocfl-extension-manager.go:StreamObject")],["race detector reports","results compared with sequential run"])
p("C23","Operations release what they acquire",
 "When an operation on an object or storage root returns, successfully or with an error, every file it opened in the source, the repository and the target has been closed exactly as needed and every goroutine it started has ended. Repeating operations therefore does not accumulate open files or goroutines.",
 ["histories","fault_sequences","inputs"],"all operations including duplicates, directories, errors of sources, hooks and targets",
 NOT+"leaks are invisible to them.",
 [OB,SR,EX+"NNNN-gocfl-extension-manager.go","pkg/ocfl/helper.go"],[("Close calls and wait groups","pkg/ocfl, pkg/extension")],["open file accounting of wrapped filesystems","goroutine count"])
p("C24","Each effective update adds one correctly described version",
 "Every update that changes an object adds exactly one version with the next number in the object's numbering scheme (keeping zero padding where the object uses it), and the head points to it. The version records the message, user name and user address given for that update and a creation time between start and end of the update; metadata of other versions stays as recorded.",
 ["histories","inputs"],"all sequences of updates with any message and user strings",
 NOT+"no version is ever created by them.",
 [IB,OB,"pkg/ocfl/inventorytypes.go"],[("NewVersion",IB),("OCFLString/OCFLUser/OCFLTime JSON","pkg/ocfl/inventorytypes.go")],["inventory.json"])
p("C25","Reading operations never modify the repository",
 "Loading, validating, listing, statistics, metadata extraction, content extraction, viewing and attempted no-op updates leave every file and directory of the repository unchanged, and issue no creating, writing, renaming or removing call on its filesystem. They succeed on a filesystem that does not permit writing.",
 ["histories","inputs","configurations"],"all sequences of reading operations on all repositories",
 NOT+"nothing is read from a repository there.",
 [OB,SR,EX+"NNNN-filesystem.go",EX+"NNNN-indexer.go",EX+"NNNN-mets.go"],[("no write calls on read paths","pkg/ocfl, pkg/extension")],["call log of the repository filesystem"])
p("C26","The viewer serves exactly the requested file and nothing else",
 "The display server answers a download of a version's file with exactly the bytes stored for it, lists exactly the objects and files that exist, and answers requests for anything else with an error. No request can obtain a file outside the repository objects, and concurrent requests for different objects never receive each other's data.",
 ["inputs","schedules"],"all request paths and interleavings of requests",
 NOT+"there is no test of the server.",
 ["gocfl/cmd/display/server.go"],[("routes and handlers","gocfl/cmd/display/server.go")],["HTTP responses","race detector"])
p("C27","METS and PREMIS documents describe the version truthfully",
 "The METS and PREMIS documents generated for a version are well-formed XML, list exactly the files of the object that they claim to describe with true checksum, size and reachable location and the media type, format and creation time recorded for them, and reference only identifiers they define. The events PREMIS reports (packing of each version, migrations) are those the object records. Special characters in names never break the document.",
 ["inputs","histories","configurations"],"all object contents and names, all versions",
 NOT+"no document is generated.",
 [EX+"NNNN-mets.go","data/","pkg/dilcis"],[("UpdateObjectAfter",EX+"NNNN-mets.go")],["generated XML files"])
p("C28","Derivatives are tied to their original",
 "Automatic migration and thumbnail creation add derivatives only in their designated places, record for each its source content, and never change, replace or remove the logical files the user ingested beyond what the chosen strategy (replace, add, folder) says. A failing external tool leaves the object valid with the originals in place and is recorded.",
 ["inputs","configurations","fault_sequences"],"all originals x strategies x tool outcomes",
 NOT+"derivative creation is not run.",
 [EX+"NNNN-migration.go",EX+"NNNN-thumbnail.go","pkg/subsystem/migration","pkg/subsystem/thumbnail"],[("DoNewVersion",EX+"NNNN-migration.go, "+EX+"NNNN-thumbnail.go")],["inventory state and extension metadata"])
p("C29","The command line does what it reports",
 "The init, create, add, update, validate, extract, extractmeta and stat commands apply exactly the documented effect of their options (digest, fixity, version, area, message, user, echo, deduplication) to the given repository, refuse to initialise a non-empty root or to add an existing object without touching it, and print a validation verdict that agrees with the state of the repository.",
 ["inputs","configurations","histories"],"all option combinations and sequences of commands",
 NOT+"the commands cannot even be built in the baseline test set.",
 ["gocfl/cmd/init.go","gocfl/cmd/create.go","gocfl/cmd/add.go","gocfl/cmd/update.go","gocfl/cmd/validate.go","gocfl/cmd/extract.go","gocfl/cmd/extractmeta.go","gocfl/cmd/stat.go","gocfl/cmd/helper.go"],
 [("command implementations","gocfl/cmd")],["repository after the command","output"])
p("C30","Metadata files are validated and stored as configured",
 "The metafile extension stores the given metadata document (the same JSON value, whether it was given as JSON, YAML or TOML) in every version it was given for, at the place the configuration names (area, path or extension), and refuses an update whose metadata file is absent, unreadable or does not satisfy the configured JSON schema. The metadata reported for the object is the stored document.",
 ["inputs","configurations","histories"],"all metadata documents x schemas x storage modes",
 NOT+"the extension is not exercised.",
 [EX+"NNNN-metafile.go"],[("UpdateObjectBefore/GetMetadata",EX+"NNNN-metafile.go")],["stored file","returned error"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for x in P:
    assert len(x["title"])<=80,x["id"]
    x["anchors"]["files"]=[f for f in x["anchors"]["files"]]
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
