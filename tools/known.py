import json
F = """C22 9bf310e an iterator gave the record of another one after the shared buffer was refilled
C22 191f2f6 after a failed read the buffer's old contents were served as other records
C14 6052eb4 hibp-diff refused consecutive inserts, and inserts before an update, as deletions
C11 915c410 hibp-sort died of a division by zero on an empty database and on --max-memory 0
C12 e8ecbc8 hibp-topn --stdout mixed progress messages into the records
C12 8b50cc4 hibp-topn truncated the output before it found the input too small
C20 3c1d5b8 hibp-topn and hibp-convert --force destroyed their input when it was the output, too
C13 57510b1 hibp-convert --bin-to-txt --limit 0 converted everything
C15 88ba60b hibp-dupes reported a first record with prefix FFFFFFFFFFFFFFFF as a dupe
C16 5321ff6 misaligned loads in comparing and indexing hashes
C21 774e736 malformed text records were read out of bounds or stored as garbage
C19 72572db failed writes were reported as success or ended in std::terminate
C04 a281ab5 data race on the thread names with --debug
C07 b7ce38d a second table of contents in one process was appended to the first
C08 6cd6b6e an incompletely saved table of contents was trusted and hid records
C09 9414dfa percent-encoded passwords were not decoded and reported as absent
C03 24f19fd --resume failed on a file without a complete record
C01 a9f6642 --parallel-max 0 reported success without downloading anything
C09 400d40e hibp-server announced the wrong database for plain requests
C03 0f0dc20 --resume waited forever for a stalled server
C11 36f1a8d hibp-sort put the name of its output in quotes and failed for any path with a directory
C10 f606f80 a long url overflowed the server's stack
C19 87f8ce7 hibp-dupes reported success although its output could not be written
C19 5e1ddff hibp-search reported success although its answer could not be written
C19 425060a a failed write to standard output terminated the program in a destructor
C20 eb86cbd hibp-sort truncated its input when the name of its output was a link to it
C24 72d6f32 hibp-convert took a read error on standard input for the end of the text
C14 250cc5f hibp-diff printed positions beyond 2^32 records modulo 2^32
C11 03e2018 hibp-sort failed, and left its chunks behind, when it had more chunks than files can be open
C22 7d6dd17 moving a stream_writer or file_writer made it write from a null or dangling pointer
C03 4026a62 --resume believed an answer with an error status (say 206 or 503) and could skip the rest of a prefix
C08 e810b45 a table of contents built while the database was replaced was saved as newer than the new one, and trusted: every later --toc search wrong
C08 6126487 programs saving the table of one database at once shared one temporary file; a table with a hole could get the final name
C03 d457923 a resumed --sha1t64 download kept a record twice when the last file began with hashes that are equal in their first 64 bits
C28 c9d24e1 hibp-server sometimes neither listened nor ended when it could not listen (port in use, address not local)
C28 bbd57a3 an interrupted hibp-server closed its listening socket in one thread while another was accepting: a data race"""
KNOWN = [dict(
    property="C10", signature="no-accept-after-descriptors-exhausted",
    what="hibp-server accepts no further connection, for good, once more connections were open than it may have file "
         "descriptors (ulimit -n): RESTinio 0.6.19 (impl/acceptor.hpp, call_accept_now) does not call accept() again "
         "after it has failed once")]
json.dump({"known": KNOWN, "fixed": ["fixed: property=" + l for l in F.split("\n")]}, open("/verif/known_findings.json", "w"), indent=1)
