NOT_APPLICABLE = {}
RAPID = "property-based testing (rapid generators, shrinking) against "
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note))

P("C01", "Files read through the proxy have exactly the plaintext that was encrypted",
  "For every supported volume (any combination of the optional key-derivation, name-encoding and cipher-mode features) and every file in it, of any size including empty, header-only and sparse files, reading the file through the tree, through the SFTP request handler or through an SFTP client, as a whole or in arbitrary ranges, returns exactly the bytes that were encrypted. A range is cut off at end of file and nothing but end of file is reported there. Bytes already handed out never change because of later reads.",
  ["inputs", "configurations", "histories"],
  "all feature combinations, file sizes up to 1.5 MB (weighted to block, buffer and pool boundaries; some of up to 33 MB, thorough 130 MB), files sharing contents or file IDs, hole patterns, path spellings, read ranges and orders of reads",
  "No existing test opens a volume or reads a file through the tree or the handlers at all; block helpers are tested on a few fixed sizes.",
  ["filetree/decrypt.go", "filetree/filetree.go", "handlers/decrypt.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/offsets.go", "gocrypt/contentenc/bpool.go"],
  [("decryption of a whole file into a fresh or pooled buffer", "filetree/decrypt.go decryptFile"), ("block decryption", "gocrypt/contentenc/content.go DecryptBlocks"), ("choice of cipher from the volume's feature flags", "filetree/filetree.go Init")],
  ["tree ReadFile", "SFTP handler Fileread", "SFTP client reads"],
  RAPID + "a reference encryptor (independent implementation of the format)",
  "Thousands of generated volumes per run; trusts the Go AES/GCM primitives and the EME permutation, which the reference shares; sizes up to about 1.5 MB.")

P("C02", "The plaintext directory tree shown equals the tree that was encrypted",
  "For every volume, listing a directory shows exactly the plaintext names stored in it, once each and with the right type, whatever else lies beside them on the remote; files that belong to the volume format or do not decrypt are not shown and do not disturb the others. Every path of the plaintext tree, however often it was visited before, in whatever order, at whatever depth, under any equivalent spelling, resolves to that entry and to no other, and a path that does not exist in the plaintext tree (including encrypted names, names differing in case, and names of format files) is reported as an error. Listings handed out in batches of any size contain each entry exactly once.",
  ["inputs", "histories", "configurations"],
  "all trees (deep, wide up to 12,000 entries, more directories than the lookup cache holds), legal names up to 175 bytes, foreign entries, lookup orders, spellings, batch sizes",
  "No existing test lists or resolves anything through the tree; only the lookup cache alone is tested, with a handful of keys.",
  ["filetree/filetree.go", "filetree/fastcache.go", "handlers/decrypt.go", "handlers/proxy.go", "gocrypt/nametransform/names.go"],
  [("path resolution, component by component, with a cache of directories", "filetree/filetree.go"), ("listing with decrypted names", "filetree/filetree.go ReadDir"), ("batched listing", "handlers/proxy.go ListAt")],
  ["tree ReadDir/ReadFile/Stat", "SFTP handler Filelist", "SFTP client ReadDir"],
  RAPID + "a reference tree model",
  "Hundreds of generated trees per quick run, up to about 1,100 entries in a directory and 40 levels; names over 175 bytes are outside what the README supports.")

P("C03", "Attributes shown equal those of the stored entry, with the plaintext size",
  "For every entry, listing its directory, stat on its path and stat on an open handle report the plaintext name, the mode, type and modification time of the stored entry, and for a regular file the exact length of its plaintext, for every length from zero to terabytes. The attributes reported by listing and by stat agree.",
  ["inputs", "configurations"],
  "all entries with generated modes, times and sizes (read ones up to 150 kB, listed ones up to 2^45 bytes), all feature combinations",
  "The existing tests never stat or list an entry through the tree; size arithmetic is tested at no point of this path.",
  ["filetree/filetree.go", "filetree/fileinfo.go", "gocrypt/contentenc/offsets.go", "handlers/decrypt.go"],
  [("size conversion", "gocrypt/contentenc/offsets.go CipherSizeToPlainSize"), ("attribute wrapper", "filetree/fileinfo.go")],
  ["tree Stat/ReadDir", "SFTP handler Filelist", "SFTP client Stat/Lstat/ReadDir/File.Stat"],
  RAPID + "the plaintext model",
  "Sizes of directories and symlinks are not specified and not compared.")

P("C04", "Corrupted or rearranged file contents are reported, never served",
  "Whatever is done to the stored bytes of a file (bits flipped anywhere in header, nonce, data or tag; blocks swapped, moved, dropped, duplicated or taken from another file; headers exchanged; truncation inside a block; extension; partial zeroing), a read either fails without returning any data or returns exactly what the file format defines for those bytes, and it does so again when repeated. Only a whole block of zeros is a hole, and files that were not touched keep reading correctly.",
  ["inputs", "fault_sequences"],
  "all generated edits of stored ciphertext, on files of every size class up to several megabytes and every cipher mode",
  "Existing tests contain no tampering of file contents at all.",
  ["gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "filetree/decrypt.go", "gocrypt/siv_aead/siv_aead.go"],
  [("authentication of each block with block number and file ID", "gocrypt/contentenc/content.go DecryptBlock"), ("header parsing", "gocrypt/contentenc/file_header.go ParseHeader")],
  ["tree ReadFile", "SFTP client reads"],
  RAPID + "a reference decryptor, over generated edits of the stored bytes",
  "Undetectable edits of the format itself (whole-block truncation, zeroing, replacing the whole file) must decrypt as the reference says; files of 1 to 17 bytes may be an error or empty.")

P("C05", "A hostile or damaged remote cannot crash the proxy or leak other paths",
  "Whatever entries, names, contents, sizes, types and directory IVs the remote presents, and whichever of them vanish between calls, every request is answered with a result or an error and the process never crashes. Names shown are always legal single path components, the remote is never asked for anything outside the configured volume root, and the undamaged part of the volume is still listed and read correctly.",
  ["inputs", "fault_sequences"],
  "all generated remotes: arbitrary and block-aligned on-disk names, valid encryptions of illegal names, missing or misshapen IVs, arbitrary contents, absurd sizes and types, vanishing entries; and all client paths including ones with dot-dot, NUL and excessive length",
  "The existing tests only present well-formed fixtures.",
  ["filetree/filetree.go", "filetree/decrypt.go", "gocrypt/nametransform/names.go", "gocrypt/nametransform/diriv.go", "gocrypt/nametransform/pad16.go", "gocrypt/contentenc/file_header.go"],
  [("validation of decrypted names", "gocrypt/nametransform/names.go DecryptName"), ("validation of directory IVs", "gocrypt/nametransform/diriv.go"), ("skipping of undecodable entries", "filetree/filetree.go ReadDir")],
  ["process survival", "tree and SFTP operations", "paths received by the remote"],
  RAPID + "crash, containment and healthy-part invariants",
  "Every case runs in a child process, so that a crash is an observed outcome; malformed SFTP byte streams are the SFTP library's business.")

P("C06", "The proxy is read-only",
  "Every request that would change something (opening for writing, appending, creating or truncating; writing; removing; making directories; renaming; symlinking; changing mode, owner, times or size, by path or by handle) fails with an error, whether or not the target exists. The remote never receives anything but read requests, and everything still reads back unchanged afterwards.",
  ["inputs", "histories"],
  "all sequences of mutating and reading SFTP requests, all open-flag combinations, existing and missing targets, both handler implementations",
  "No existing test sends a mutating request.",
  ["handlers/decrypt.go", "handlers/proxy.go", "filetree/filetree.go", "backend/provider.go"],
  [("refusal of writes and commands", "handlers/decrypt.go Filewrite, Filecmd"), ("read-only remote interface", "filetree/filetree.go FSAccessor")],
  ["SFTP client errors", "requests recorded by the remote"],
  RAPID + "a recording SSH/SFTP remote",
  "The remote pretends that mutations succeed, so any that gets through is seen.")

P("C07", "Each remote item is fetched once and every requester gets that item's value",
  "However many requests for files, directories and decrypted names arrive, in whatever order and interleaving and with however many workers, each distinct item is fetched from the remote (or decrypted) exactly once until the cache is cleared, every request for it is answered with exactly that fetched value (including empty ones), and no request is ever answered with the value of another item: not of another kind with the same name, not of the same name under another IV, not of a similar-looking name. After the cache has been cleared while idle, the next request fetches afresh. Through the whole tree, directory IVs, listings and files are likewise fetched at most once each.",
  ["inputs", "schedules", "histories"],
  "all mixes of requests, numbers of workers (1-32), orders in which outstanding fetches complete, clears between phases, values that change on the remote, stalls beyond the request timeout, and up to 150,000 (thorough 600,000) different items",
  "Existing tests exercise a few fixed keys and one duplicate request; they do not vary interleavings, kinds sharing a key, or IVs.",
  ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go", "requester/complexkey.go", "filetree/filetree.go"],
  [("one in-flight fetch per key", "requester/requester.go performRequestAndCache"), ("waiting on another request's fetch", "requester/makerequest.go"), ("cache keys", "requester/complexkey.go"), ("clearing", "requester/synccache.go ClearCache")],
  ["calls received by the backend and the decrypter", "answers of Requester.ReadFile/ReadDir/DecryptName"],
  RAPID + "a counting backend whose answers identify item and epoch, with generated completion orders",
  "Interleavings are sampled (held fetches released in generated orders, 8 processes), not enumerated; clearing while a request is in flight is outside the statement.")

P("C08", "A failed remote request is reported as failed and then forgotten",
  "When fetching an item fails, every request waiting for it gets an error carrying the remote's reason and no data, even if the remote delivered some data with its error. The failure is not remembered: as soon as the remote works again, every request for the item, sequential or concurrent with others, succeeds with its value, fetching it exactly once more; items that were fetched before stay available throughout, and failures of one item never affect another. Through the whole tree, reads and listings attempted while the remote fails either report an error or give the right answer, and all give the right answer after recovery.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of requests with per-item failures switched on and off, single and in bursts of up to 40, with and without data beside the error",
  "Existing tests cover one failing request followed by one retry; not bursts, recoveries in mid-burst, or partial data.",
  ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go", "filetree/filetree.go"],
  [("retry after a remembered error", "requester/makerequest.go"), ("removal of failed entries", "requester/synccache.go")],
  ["answers of the requester and the tree", "calls received by the backend"],
  RAPID + "a model of per-item health and cache",
  "A failing burst may fetch an item more than once; the exact-once count is only asserted where the statement says so.")

P("C09", "Every request is answered, also after the remote stalls, and capacity is kept",
  "As long as the remote answers each fetch eventually, every request ends with a result or an error: bursts far larger than the number of workers and the length of the work queue, many requests for one item, failing fetches, and stalls in which the remote answers nobody for longer than the request timeout. After a stall, once the remote answers again, new requests succeed with the right values, all workers are available again (as many fetches run in parallel as configured), and a directory listing that is reported as successful is complete.",
  ["schedules", "fault_sequences", "histories"],
  "all burst shapes up to 3,000 requests, worker counts 1-32, stall lengths beyond the 20 s timeout, recovery orders",
  "No existing test runs more requests than workers, or lets the timeout pass.",
  ["requester/requester.go", "requester/makerequest.go", "filetree/filetree.go"],
  [("timeout", "requester/makerequest.go"), ("worker loop", "requester/requester.go worker"), ("hand-over of tickets", "requester/requester.go performRequestAndCache")],
  ["requests ending", "answers", "fetches in flight at the backend"],
  RAPID + "liveness, answer and parallelism invariants over generated stalls",
  "The timeout is wall-clock time in the code, so a case with a stall lasts over 20 s and few are run (many scenarios at once per case).")

P("C10", "The directory lookup cache never lies and evicts the least recently used",
  "For every sequence of stores, lookups and clears on the path lookup cache, a lookup finds exactly the mapping most recently stored under that path, or nothing; the cache holds as many entries as its capacity and no more; when it is full, the entry that leaves is the one least recently stored or looked up; clearing empties it. Concurrent use keeps all of this.",
  ["inputs", "histories", "schedules"],
  "all operation sequences up to 120 long over slightly more keys than fit, capacities 1-20, with concurrent phases",
  "The existing tests walk through a few scripted sequences of fewer than ten operations.",
  ["filetree/fastcache.go"],
  [("recency list and map", "filetree/fastcache.go")],
  ["FastCache Find, Store, Clear"],
  RAPID + "an ordered-list LRU model (stateful, model-based)",
  "Capacity 0 is outside the statement; concurrent phases check validity of answers and the number of entries.")

P("C11", "Name encryption is exact, invertible, injective and bound to the directory",
  "For every key, feature combination and 16-byte directory IV, encrypting a legal name gives exactly the name that the gocryptfs format defines, always the same one, made only of URL-safe characters; decrypting it under the same IV gives back the name, and under another IV does not. Different names never share an encrypted name, two directories never share one. Names whose encrypted form exceeds 255 bytes are stored under the format's hashed long name (if that feature is on) and recognised as such, with their companion file; names over 255 bytes are refused. Every name is classified correctly as ordinary, long-name content, long-name companion or format file. Concurrent use changes nothing.",
  ["inputs", "configurations", "schedules"],
  "all keys, IVs, feature combinations and names of 1-255 bytes and beyond",
  "Existing tests cover padding of short strings, a handful of name types and one hash.",
  ["gocrypt/nametransform/names.go", "gocrypt/nametransform/longnames.go", "gocrypt/nametransform/pad16.go", "gocrypt/cryptocore/cryptocore.go", "gocrypt/cryptocore/hkdf.go"],
  [("name encryption", "gocrypt/nametransform/names.go EncryptName"), ("long-name hashing and classification", "gocrypt/nametransform/longnames.go"), ("padding", "gocrypt/nametransform/pad16.go")],
  ["NameTransform EncryptName, DecryptName, EncryptAndHashName, HashLongName, NameType"],
  RAPID + "a reference name encryption, and inverse and injectivity relations",
  "The EME permutation itself is shared with the reference.")

P("C12", "Every encrypted name is either decrypted as the format defines or refused",
  "For every string presented as an encrypted name, under every 16-byte directory IV, decryption gives exactly the plaintext that the format defines, or an error and no name; it never panics, never returns an empty name, a dot entry, or a name with a slash or NUL byte, and never modifies the IV. All names that are made of whole cipher blocks but do not decrypt fail with the same error, so that the answers do not tell which check failed. Decrypting again gives the same answer.",
  ["inputs"],
  "all strings: arbitrary ones, encodings of byte strings up to 4,200 bytes, encryptions of legal and illegal padded plaintexts with right and wrong padding",
  "Existing tests decrypt one malformed name; the set of malformed names is unbounded.",
  ["gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go"],
  [("decoding, block-length check, padding check, name check", "gocrypt/nametransform/names.go DecryptName"), ("padding removal", "gocrypt/nametransform/pad16.go unPad16")],
  ["NameTransform DecryptName"],
  RAPID + "a reference name decryption (structured fuzzing)",
  "Non-canonical base64 and names over 255 bytes may be accepted or refused.")

P("C13", "Encrypting and decrypting file blocks are exact inverses in the stored format",
  "For every key, cipher mode, block size, file ID and block number, encrypting any sequence of plaintext blocks produces exactly one ciphertext block of nonce, data and tag per input block, in order, decodable by any implementation of the format; decrypting it, block by block or all at once, gives back the plaintext, whether the ciphertext was written by this code or by another implementation. Inputs are not modified, no nonce is used twice, nonces can be chosen only in the deterministic mode, file headers are well formed, and jobs running at the same time or reusing pooled buffers do not influence each other.",
  ["inputs", "configurations", "schedules"],
  "all keys, modes, block sizes 16-131072, runs up to 80 blocks with partial last block, block numbers up to 2^64, sequential and concurrent jobs",
  "Existing tests of this package cover splitting of ranges only; encryption and decryption of content are not tested at all.",
  ["gocrypt/contentenc/content.go", "gocrypt/contentenc/bpool.go", "gocrypt/contentenc/file_header.go", "gocrypt/cryptocore/cryptocore.go"],
  [("block encryption, parallel for long runs", "gocrypt/contentenc/content.go EncryptBlocks"), ("block decryption", "gocrypt/contentenc/content.go DecryptBlocks"), ("buffer pools", "gocrypt/contentenc/bpool.go"), ("key derivation per purpose", "gocrypt/cryptocore/cryptocore.go New")],
  ["ContentEnc Encrypt*/Decrypt*", "FileHeader Pack, ParseHeader"],
  RAPID + "a reference block cipher layer, in both directions",
  "Trusts the Go GCM primitive; AES-SIV has its own reference.")

P("C14", "A block decrypts only under its own key, file ID, block number and mode",
  "For every encrypted run of blocks and every alteration of it or of what it is decrypted with (bits, bytes, truncation, extension, other block number, other file ID, other key, other cipher mode, exchanged, dropped, duplicated or zeroed blocks, arbitrary bytes), decryption refuses every block that is not authentic in its place and returns no data of that block or any later one; a block that is entirely zero and of full length is a hole and reads as zeros; everything still authentic decrypts. A file header is accepted only with the right length, version and a file ID that is not all zero.",
  ["inputs", "fault_sequences"],
  "all generated alterations, up to 12 per encrypted run, in every mode and for every block size",
  "No existing test alters a ciphertext.",
  ["gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "gocrypt/siv_aead/siv_aead.go"],
  [("associated data from block number and file ID", "gocrypt/contentenc/content.go"), ("hole detection", "gocrypt/contentenc/content.go DecryptBlock"), ("header validation", "gocrypt/contentenc/file_header.go ParseHeader")],
  ["ContentEnc DecryptBlock, DecryptBlocks", "ParseHeader"],
  RAPID + "a reference decryptor, over generated alterations",
  "Forgeries are sampled: the check finds missing bindings and skipped verification, not weaknesses of the cipher.")

P("C15", "Size and offset arithmetic matches the file layout for every size",
  "For every block size and cipher overhead and every size and offset below 2^62: converting a plaintext size to the ciphertext size and back is exact, the ciphertext size is that of header plus all blocks, no plaintext size exceeds what the ciphertext can hold, offsets and block numbers convert consistently in both directions, splitting a plaintext or ciphertext range yields contiguous parts that cover exactly the range, one per block, joint ranges are exactly those of the blocks involved, and cropping and merging blocks give exactly the defined bytes.",
  ["inputs"],
  "all block sizes 16-131072, overheads, sizes and ranges (weighted to block boundaries and to the end of the number range)",
  "Existing tests split four ranges of at most a few blocks with the default block size.",
  ["gocrypt/contentenc/offsets.go", "gocrypt/contentenc/intrablock.go", "gocrypt/contentenc/content.go"],
  [("size conversion and range splitting", "gocrypt/contentenc/offsets.go"), ("intra-block geometry", "gocrypt/contentenc/intrablock.go"), ("merging", "gocrypt/contentenc/content.go MergeBlocks")],
  ["PlainSizeToCipherSize, CipherSizeToPlainSize, ExplodePlainRange, ExplodeCipherRange, ..."],
  RAPID + "big-integer and byte-by-byte definitions of the layout",
  "Sizes beyond 2^62 and ciphertext ranges that start inside the header are outside the statement.")

P("C16", "Only the right password unlocks the master key, and it always does",
  "For every volume configuration, created here or by another implementation of the format, with any feature combination and any password, exactly the right password unlocks exactly the master key, through the configuration functions and by opening the volume. Every wrong password, including an empty one and near misses, and every configuration whose stored key, salt, cost or key-derivation flag was altered so that the key is not authentic, or whose key has the wrong length, is refused with an error, without a key and without crashing. Creating a configuration sets the requested features and cost. Changing the password keeps the same master key and everything else about the volume, uses a fresh salt and nonce, makes the new password work and the old one fail.",
  ["inputs", "configurations", "histories"],
  "all passwords, near misses, feature combinations, histories of up to two password changes, alterations of the configuration",
  "Existing tests open three fixed files with one right and one wrong password.",
  ["gocrypt/configfile/config_file.go", "gocrypt/configfile/scrypt.go", "filetree/filetree.go"],
  [("wrapping and unwrapping of the master key", "gocrypt/configfile/config_file.go EncryptKey, DecryptMasterKey"), ("key derivation from the password", "gocrypt/configfile/scrypt.go DeriveKey"), ("opening a volume", "filetree/filetree.go Init")],
  ["configfile Create, Load, LoadAndDecrypt, DecryptMasterKey, EncryptKey, WriteFile", "filetree Init"],
  RAPID + "a reference implementation of the key wrapping",
  "scrypt itself is shared with the reference; cost parameters are mostly small, to allow hundreds of volumes per run.")

P("C17", "Unsupported or weakened volume configurations are refused",
  "A volume configuration is accepted exactly if its JSON is complete and well formed, its version is 2, all feature flags are known, the required ones are present, and its scrypt parameters are valid and not below the minima (N 1024, r 8, p 1, 32-byte salt, 32-byte key); then it opens, with the right password, with the right key. Every other configuration, even one whose key is wrapped consistently with its weak parameters, is refused: never a key, never an opened volume. Refusal is an error, or for scrypt parameters an exit of the process; anything else does not end the process.",
  ["inputs", "configurations"],
  "all generated versions, flag lists (dropped, added, misspelt, repeated), parameter values around the minima, and damaged JSON texts",
  "Existing tests load one file with an old version and one with one unknown flag; the parameter minima are not tested at all.",
  ["gocrypt/configfile/config_file.go", "gocrypt/configfile/feature_flags.go", "gocrypt/configfile/scrypt.go", "filetree/filetree.go"],
  [("gate on version and flags", "gocrypt/configfile/config_file.go Load"), ("known and required flags", "gocrypt/configfile/feature_flags.go"), ("parameter minima", "gocrypt/configfile/scrypt.go validateParams")],
  ["configfile LoadAndDecrypt", "filetree Init", "process exit"],
  RAPID + "a predicate over the generated configuration",
  "Volumes without name encryption are checked at the configuration level only.")

P("C18", "The volume configuration file is replaced atomically",
  "At every moment during a rewrite of the configuration file, and after a failure or crash at any point of it (a failing open, write, flush, close or rename; a full disk or short write; the process killed), the file is byte for byte a complete configuration: the new one if the rewrite reported success, otherwise the old one (or the new one, if the process died or the failure struck after the replacement). The new contents are flushed before they take the old file's place, the old file is never written in place, and the file is never readable for others. A failed rewrite leaves nothing behind that blocks the next one; concurrent rewrites never mix, and a temporary file of somebody else is never taken over.",
  ["crash_points", "fault_sequences", "schedules"],
  "all system calls of the writing process x errors, kills at random moments, file-size limits cutting the write anywhere, concurrent readers and writers",
  "Existing tests write configurations without any fault, and never look at the file meanwhile.",
  ["gocrypt/configfile/config_file.go"],
  [("temporary file, flush and rename", "gocrypt/configfile/config_file.go WriteFile")],
  ["the configuration file as seen by other processes", "system calls of the writing process (strace)"],
  "property-based testing with injected faults (rapid-generated system-call failures, kills and limits; strace injection) against an old-or-new oracle",
  "Power loss is represented by the order of flush and rename only.")

P("C19", "Program configuration and private key are loaded exactly as given",
  "Every program configuration file in JSON is loaded with exactly the values it gives, and passes validation exactly if all seven required fields are filled in and the key and known-hosts paths name files; malformed or missing files are reported as errors. A private key (RSA, ECDSA, Ed25519; traditional, PKCS#8 or OpenSSH format) that is not encrypted is loaded without asking; an encrypted PEM key is asked for up to three times and loaded as soon as the right passphrase was typed, otherwise an error is reported; the loaded key is the one in the file. A file that is not a usable key is an error, never a crash and never a key. Passphrases are taken from the terminal exactly as typed, are not echoed, and without a terminal there is an error. The volume passphrase is asked for once, naming the volume.",
  ["inputs", "configurations", "histories"],
  "all key types, formats, PEM ciphers, damaged and foreign files, sequences of typed passphrases, configuration texts",
  "Existing tests load two fixed RSA keys with a fake password reader and one configuration file.",
  ["config/config.go"],
  [("loading the private key", "config/config.go LoadSSHKey, isPrivateKeyEncrypted"), ("loading and validating the configuration", "config/config.go LoadConfig, Validate"), ("asking for passphrases", "config/config.go stdinPasswordReader, GetDecrpytionPassphrase")],
  ["LoadConfig, Validate, LoadSSHKey, GetDecrpytionPassphrase in a process whose standard input is a pseudo terminal"],
  RAPID + "the generated key, the x509 library's verdict on each passphrase and the generated field values",
  "Typed passphrases contain no terminal control characters. Encrypted OpenSSH-format keys are unsupported by the SSH library and must be an error.")

P("C20", "Only the configured proxy user and password can log in",
  "For every configured user name and password, a client gets in exactly if it gives both, byte for byte, by password authentication: near misses (case, prefix, suffix, white space, NUL, Unicode look-alikes, empty, swapped), other users, no authentication, public keys (even the proxy's own) and other methods are refused, in any order and number of attempts, one after the other or at once; a refused attempt does not keep the right password from working afterwards. A client that has not logged in gets no channel and causes no traffic to the remote. The proxy proves the configured private key as its host key. With a configuration that lacks any required value, or whose files do not exist, the program ends with an error and never listens.",
  ["inputs", "histories", "configurations", "schedules"],
  "all generated credentials, near misses, sequences of up to eight connections with four attempts each, histories of over 2,000 wrong passwords, all subsets of missing fields",
  "The program's main package has no tests.",
  ["main.go", "config/config.go"],
  [("password callback of the SSH server", "main.go main"), ("validation of the configuration", "config/config.go Validate")],
  ["SSH logins at the running program", "connections and requests at the remote", "program exit"],
  RAPID + "byte equality of the credentials, driving the built program over SSH",
  "The program is built from the current tree and run with a pseudo terminal and a loopback remote; at most four attempts per connection.")

P("C21", "Remote calls never share a connection, and lost ones are replaced",
  "Calls to the remote that run at the same time never use the same connection, and connections are reused: a call opens a new connection only when no idle one is left. However errors, missing files, dropped connections, ended sessions and outages of the remote fall, every call returns either exactly the remote's file content, listing or attributes, or an error; a call is never answered with part of a file or listing, or with another call's data. A connection that was lost is not used again after the call that noticed it, is closed, and a new one is opened instead, so once the remote is reachable again calls succeed again; an error answered over a healthy connection (such as a missing file) does not cost the connection. Connections are not leaked: at most 32 stay open when nothing is under way.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of up to 12 steps, up to 48 simultaneous calls, faults at every request of a call, files up to 37 MB (thorough 140 MB)",
  "The package has no tests.",
  ["backend/pool.go", "backend/provider.go"],
  [("taking and returning connections", "backend/pool.go Get, Put"), ("dropping broken connections", "backend/provider.go ReadFile, ReadDir, Stat")],
  ["Provider.ReadFile, ReadDir, Stat", "connections and requests seen by a real SSH/SFTP server"],
  RAPID + "the remote's own record of connections and requests",
  "The remote answers every request and ping on connections it has not dropped; a silent remote is not covered.")

P("C22", "Many clients at once each get exactly what they would get alone",
  "With any number of clients reading, listing and querying the same volume at the same time, over their own or shared sessions, through any number of workers, with the remote slow or failing and other clients dropping out in the middle of a request, every answer is the right plaintext, listing or attributes for the path asked (or an error, if the remote failed), data handed out is not changed afterwards, every request is answered, and there is no data race. Once the remote is healthy every request succeeds.",
  ["schedules", "histories", "fault_sequences"],
  "all mixes of 2-20 clients, 1-32 workers, volumes of up to 60 directories, delays and failures; schedules are sampled under the race detector",
  "Existing tests issue a handful of concurrent requests for one item against fakes.",
  ["requester/requester.go", "filetree/filetree.go", "handlers/decrypt.go", "backend/pool.go", "gocrypt/cryptocore/randprefetch.go", "gocrypt/nametransform/names.go"],
  [("shared request table, workers and caches", "requester"), ("lookup cache and name decryption under concurrency", "filetree"), ("per-session handlers", "handlers")],
  ["SFTP answers of concurrent sessions", "tree operations", "race detector reports"],
  "property-based testing (rapid-generated concurrent histories) under the Go race detector, against the plaintext model",
  "Schedules are sampled, not enumerated.")

P("C23", "Nonces, file IDs, salts and master keys never repeat and are unbiased",
  "However many blocks are encrypted, headers, salts and volumes created, by however many goroutines and processes, every nonce, file ID, salt, master key and random byte string comes out with the requested length, never repeats another one, not even in part, and shows no bias at any byte position.",
  ["histories", "schedules", "inputs"],
  "all scripts of draws of every kind, 1-16 goroutines, one to three processes, tens of thousands of values per case",
  "Existing tests draw a few prefetched byte strings sequentially and compare a couple of them.",
  ["gocrypt/cryptocore/randprefetch.go", "gocrypt/cryptocore/nonce.go", "gocrypt/contentenc/file_header.go", "gocrypt/contentenc/content.go", "gocrypt/configfile/config_file.go", "gocrypt/configfile/scrypt.go"],
  [("prefetched randomness", "gocrypt/cryptocore/randprefetch.go"), ("nonce generator", "gocrypt/cryptocore/nonce.go"), ("new headers, salts and keys", "gocrypt/contentenc/file_header.go RandomHeader, gocrypt/configfile")],
  ["EncryptBlock(s) nonces", "RandomHeader", "RandBytes", "created configuration files"],
  RAPID + "uniqueness and bias oracles over generated draw scripts",
  "Predictability beyond repetition and bias is not decided; the statistical bounds make a false alarm less likely than 1e-6 per run.")

P("C24", "One client cannot take the proxy down or away from the others",
  "Whatever a client does short of breaking the packet encoding (stay silent, send garbage instead of a handshake, stall or drop at any byte of the handshake, the login or a session, fail to log in, open odd or many channels, send channel, subsystem and global requests with arbitrary, missing or short payloads, ask for missing or absurd paths, try to write, leave files open, not read what it asked for), the program keeps running, sessions already open keep working, and new clients can log in and get right answers without waiting for it. Channels other than sessions, and requests other than the sftp subsystem, are refused. When clients have hung up their connections are released.",
  ["fault_sequences", "histories", "schedules", "inputs"],
  "all sequences of up to eight kinds of misbehaving clients, up to 40 of each at once (fixed cases: hundreds of clients and channels, quiet periods over a minute), every cut point, with zero to four older sessions",
  "The program's main package has no tests.",
  ["main.go", "handlers/decrypt.go"],
  [("accept loop and handshake", "main.go main, handleConn"), ("channel and request handling", "main.go handleChannels, handleChannel")],
  ["SFTP sessions at the running program", "the process and its sockets"],
  RAPID + "the plaintext model as seen by well-behaved clients of the built program",
  "An answer may take up to 40 s before it counts as missing. SSH and SFTP packets that are malformed after the handshake are the libraries' business and not generated.")

P("C25", "Passphrases, keys and plaintext never leave the process",
  "However the program is started and used (successful and failing starts, debug output on or off, failed logins, missing paths, damaged files, failing remote), none of the volume's passphrase, the private key's passphrase, passwords offered by clients, the proxy password, the private key, the master key and file plaintext is ever written to standard output, standard error, the terminal, any file, or sent to the remote, in plain, hex or base64. Passphrases are read without echo. The remote is only ever asked for encrypted names that exist in the volume, so it learns no plaintext names, not even of missing paths clients ask for. Nothing is left in temporary, home or working directories, and no file outside them is opened for writing. Creating a volume shows the master key, and the right one, only if standard output is a terminal and not in quiet mode.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all generated secrets, ways of starting, client requests and remote failures",
  "Existing tests do not look at what is written anywhere.",
  ["main.go", "config/config.go", "filetree/filetree.go", "gocrypt/configfile/config_file.go", "gocrypt/tlog/log.go", "requester/requester.go"],
  [("reading passphrases", "config/config.go stdinPasswordReader"), ("temporary copy of the volume configuration", "filetree/filetree.go Init"), ("logging", "main.go, gocrypt/tlog/log.go"), ("path resolution through encrypted listings", "filetree/filetree.go")],
  ["outputs, terminal, written buffers (strace) and files of the running program", "requests at the remote"],
  RAPID + "a search for every secret in every output, with system-call recording",
  "Memory, swap and core dumps are not covered.")

P("C26", "The AES-SIV cipher mode is RFC 5297 and rejects every alteration",
  "For every 64-byte key, 16-byte nonce, associated data and message of any length, sealing gives exactly the RFC 5297 result (tag first), appended to the caller's buffer without disturbing what is in it; opening it gives back the message. Opening fails, without data, if any bit of ciphertext, tag, nonce, associated data or key differs or the ciphertext was shortened or extended. Inputs are not modified and concurrent use gives the same results.",
  ["inputs", "schedules"],
  "all keys, nonces, associated data up to 80 bytes, messages up to 5,000 bytes (weighted to block boundaries; some up to 1 and 4 MB), buffers, alterations",
  "Existing tests compare a handful of fixed vectors.",
  ["gocrypt/siv_aead/siv_aead.go", "gocrypt/cryptocore/cryptocore.go"],
  [("SIV behind the AEAD interface", "gocrypt/siv_aead/siv_aead.go Seal, Open")],
  ["siv_aead New, Seal, Open"],
  RAPID + "an independent RFC 5297 implementation",
  "For messages under 16 bytes only alterations of the MAC half of the key are judged (a few keystream bytes may coincide).")

P("C27", "The remote is only trusted if it proves a known host key",
  "The proxy authenticates to the remote, sends it requests and serves its data only if the remote proves a key that the known-hosts file lists for its address and that is not revoked; entries may be exact, hashed, in lists or with wildcards, among others for other addresses and keys. If the key is unknown, different, listed for another address or port only, or revoked, or the file is damaged, the program ends with an error at the start, without having authenticated and without listening. While it runs, an impostor that takes the remote's place with another key gets no authentication attempt and no request, clients get errors (or answers already known) and never the impostor's data, and when the genuine remote is back it is used again. Authentication is always with the configured user and key.",
  ["inputs", "histories", "fault_sequences"],
  "all generated known-hosts files of up to six lines, two key types, histories of up to six steps with an impostor coming and going",
  "Neither the main package nor the backend package has tests.",
  ["main.go", "backend/pool.go", "backend/provider.go"],
  [("host key callback of the connection to the remote", "main.go main"), ("dialling the remote", "backend/pool.go newConn")],
  ["authentication attempts and requests seen by a genuine and an impostor SSH server", "program exit"],
  RAPID + "a predicate over the known-hosts lines and the impostor's record",
  "Host certificates are not generated; files listing several keys of one type for the address may be judged either way.")

P("C28", "The running program serves exactly the decrypted volume",
  "Started with a valid configuration, in whatever spelling, and the right passphrases (a wrong one for the private key may come before, twice at most), the program asks for the volume's passphrase once, listens on port 9022, and every client, over its own or a shared connection, one after the other or at once, sees exactly the decrypted volume at the configured root and nothing else on the remote: contents in whole and in parts, listings, attributes, missing paths, with nothing changeable; and it goes on to do so after the remote has dropped its connections. With a wrong passphrase it reports an error, ends and never listens.",
  ["inputs", "histories", "configurations", "schedules"],
  "all generated volumes, root spellings, passphrase dialogues and histories of up to eight clients; files up to 36 MB, 400 clients, quiet periods of two minutes in fixed cases",
  "The program's main package has no tests.",
  ["main.go", "config/config.go", "handlers/decrypt.go", "filetree/filetree.go", "backend/provider.go", "requester/requester.go"],
  [("wiring of configuration, passphrases, backend, handlers and server", "main.go main")],
  ["SFTP sessions at the running program", "its dialogue and exit"],
  RAPID + "the plaintext model of a generated volume, end to end over two SSH connections",
  "Requests that meet a connection dropped by the remote may fail, up to three per dropped connection.")
