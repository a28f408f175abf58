# further findings
fixed("C04 C06","50662b7","storage roots and objects without an extensions folder could not be loaded")
fixed("C04 C05","2a8fd1a","valid inventories of other implementations were reported as invalid, fixity blocks of unknown algorithms made an inventory unreadable")
fixed("C06 C07","5c3ca17","inventories with missing created/state/user/head keys or empty paths crashed the validation, duplicate paths and missing keys were not reported")
fixed("C05 C06 C07","b147ad8","changed states in version inventories, differing inventory copies, foreign sidecars, unreadable folders and inventory types not matching the declaration were not reported")
fixed("C06","0482fbc","content files of a version outside of the designated content directory were not reported")
fixed("C09 C20","c922cd5","files of extensions with storageType path were stored elsewhere than they are read when content-subpath maps the content area; storageType in another case was stored but not read")
fixed("C20 C30","20b8441","metafile without source crashed, changed large numbers, accepted trailing data and http error pages; objects without metadata file had no metadata report at all")
fixed("C20","da7e9fc","update with content-subpath and indexer failed if the indexer was finished first (README.md streamed to a closed writer)")
fixed("C09 C20","9114c86","metadata report failed for versions without new files, second update on one object instance failed, folder entries were reported without area and removed in echo mode")
fixed("C20","6b65f74","checksums of further content paths were not reported, indexer results of renamed content paths were reported for the object instead of the file")
fixed("C17","435c655","errors writing gzip/brotli compressed metadata lines (filesystem, indexer, migration, thumbnail) were lost")
fixed("C17 C18","c2db563","an unreadable extension folder or configuration was treated as an unsupported extension and the update ran without it")
fixed("C17 C18","55b4ff7","updates rewrote unchanged extension configs in place, published the root inventory before extension configs were stored, and continued on half-written versions or objects with a damaged sidecar")
fixed("C23","38f9490","extension docs written at the initialisation of a storage root stayed open if they could not be written")
fixed("C16 C07","0475abb","hostile contentDirectory of an inventory, rename targets and storageName/name of extensions with storageType extension (metafile, filesystem, indexer, migration, thumbnail, mets) led writes out of the object; a '#' in the metafile schemaUrl crashed the load; mets stored the METS document in the PREMIS file with storageType extension")
fixed("C25","c999017","updates without changes created the extensions folder and folders of extensions in the object")
fixed("C26","29765db","concurrent requests of the viewer share the object loaded last: data races, pages and downloads of another object")
fixed("C26","7c45521","viewer: identifiers with '%' are unescaped twice, links to folders and files with special characters are broken, extension and folder paths lead out of the object or storage root, unknown versions are shown as empty pages")
fixed("C26","3ffae0e","viewer: extension files below 512 bytes are delivered without content")
fixed("C26","2ffd3d3","viewer's report shows the metadata document of a random version, none with a differently written storage type, or fails without document")
fixed("C29","534862e","the embedded default configuration did not enable the xml indexer action which the default object extensions require, so every create with defaults failed")
fixed("C29","bd45c5e","a failed update was reported as 'no errors found'")
fixed("C29","38ede07","create ignored the configured OCFL version")
fixed("C29","52b0db4","create ignored --default-area")
fixed("C29","3a9fe91","add and update read relative area paths from another folder than the given one")
fixed("C21 C29","bf74ab0","validate and stat opened containers for writing: left .tmp files, created missing ones, truncated the encrypted copy")
fixed("C21","3ff6d08","add and update ignored the AES and S3 configuration, the encrypted copy of a container was not renewed")
fixed("C21","9823b72","add and update did not renew checksum sidecars of a container with other algorithms than the digest of the command")
tp="third-party package (je4/filesystem v3.0.12 zipfsrw/zipfs, je4/utils v2.0.41 encrypt), cannot be repaired in this repository: "
known("C21","third-party:encrypted-copy-race",tp+"the encrypting writer is closed before its concurrent copy has delivered the last bytes, so the encrypted copy of a container now and then lacks its end or does not fit its sidecar")
known("C21","third-party:encrypted-copy-after-failure",tp+"the encrypted copy is truncated when the container is opened for an update, after a failed update the (unchanged) container has no usable encrypted copy")
known("C21","third-party:prefix-names",tp+"files and folders of which one name is the beginning of the other (ab, a-c beside the folder a) are not listed or not found, an object with them is reported as invalid in a container")
known("C21","third-party:container-close:err:write .tmp",tp+"if the last bytes of the new container cannot be written, the incomplete file replaces the previous container")
known("C21","third-party:container-close:err:rename",tp+"if the new container cannot be renamed, the previous one is already removed")
known("C21","third-party:container-close:crash:rename",tp+"the previous container is removed before the new one is renamed, a crash in between leaves no container under its name (only the complete .tmp)")

fixed("C30 C12","7233750","an update without changes left an unused further version in the loaded object, which the next update of the same instance built upon")
fixed("C30 C20","a6f8c97","metafile: schema that is missing, unreadable or no schema made the extension disappear silently (metadata lost); YAML and TOML documents were validated in another form than the one stored and numbers or dates refused or stored invalid; answers other than 200 were taken for documents; documents of the second and later updates of an instance were not stored; missing name parameter wrote to the folder itself")
fixed("C22 C05","97fa4ab","data race on the list of validation messages shared by all objects of a storage root: messages were lost when objects are loaded or validated concurrently; unsynchronised writes to the storage root's modified flag and version")
fixed("C06 C03","0ddeeb6","objects of a later OCFL version than their storage root were neither reported by validation (E081) nor refused on creation")
fixed("C13","55eaf17","an echo update which only adds data or reader content to another area than the content area emptied the content area and left the touched area alone")
fixed("C28","5141660","migration: crash without configured functions; function for a format chosen at random; files no longer in the current version or outside the content area made every update fail; derivatives overwrote other ingested files; folder strategy used the full path within the folder; I/O errors while storing derivatives were taken for failures of the tool; no migration in the second update of an instance; temporary files and open files left behind")
fixed("C28","8a9009b","thumbnail: crash without configured functions, of one-digit random folders and for images without extent; thumbnails larger than configured; records lost, with a name that does not exist, or unreadable after the source had been replaced within the update; I/O errors taken for failures of the tool")
fixed("C28","399b253","a failed migration of a derivative replaced the record of the migration that made it, so that the original was migrated again")
fixed("C07","401ef59","huge tuple numbers in the configuration of 0007 or the fallback of direct clean made every path computation panic")
fixed("C27","ca09a92","PREMIS events linked to agents which the document does not define, the person agent was mixed up")
fixed("C27","ce66d73","METS gave size 0 for most files and 'SHA-512' for every digest algorithm, PREMIS lacked the fixity of files which the indexer did not know")
fixed("C27 C09","1499df8","METS: files of several areas missing, listed twice or in the wrong group; identifiers used twice; locations with special characters not reachable, places of documents in the extension folder wrong, schemas not beside the documents; all descriptive metadata with the checksum of the primary one dropped; an explicitly empty primaryDescriptiveMetadata was not stored")
fixed("C12","29a8768","an update without changes through an object which had been updated before (same instance) created another version")
fixed("C28 C20","9d0b0ae","stored migration and thumbnail records which cannot be read were taken as missing: metadata silently incomplete, originals migrated again")
fixed("C26", "5071aee", "the viewer answered the report of an object whose areas include no area 'metadata' (and which has no metafile extension) with an internal error")
fixed("C27","58e1db4","files with the same content all had the creation time of the first one in METS")
fixed("C02 C03","0eec60b","updating an object of another tool wrote a user with an empty name (E054) and an empty message into earlier versions which had none, an empty address into those without, and cut the fractions of their creation times")
