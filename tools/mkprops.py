#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WR = ["src/atom/mod.rs", "src/atom/head.rs", "src/atom/data.rs", "src/atom/ilst.rs", "src/atom/meta.rs", "src/atom/udta.rs", "src/atom/moov.rs", "src/tag/mod.rs"]
BOX = ["src/atom/trak.rs", "src/atom/mdia.rs", "src/atom/minf.rs", "src/atom/stbl.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/mdat.rs"]

prop("C01", "A saved tag reads back exactly",
 "Saving a tag to any well-formed MP4 file on healthy storage succeeds, through a path or an open read/write handle wherever its cursor stands, and a fresh read of the file then returns exactly that tag's metadata: the same identifiers (four-character and freeform), the same values per identifier with their types, bytes and order. The file type and audio information read from the file are the same as before the save. This holds whatever I/O chunking, short transfers and interrupted system calls the operating system delivers.",
 ["inputs", "histories", "fault_sequences"],
 "every well-formed container layout (any order, nesting depth, 32/64-bit heads, missing or present user-data/meta/handler/item-list levels), every tag an edit history can produce, every legal I/O delivery schedule, repeated saves; well-formed: atoms state their own size (no size 0), one user-data/meta/item-list level on the path, the seven value types the library knows, UTF-8 file type, at most one MPEG-4 audio description per track; growth that a 32-bit size or offset cannot express may be refused",
 "The write tests save two fixed all-UTF-8/PNG/JPEG tags to one 9 kB sample file; no UTF-16 value, no empty value list, no container lacking part of the metadata hierarchy, no short or interrupted transfer is ever exercised.",
 WR, [("write_tag_to rewrites the item list in place", "src/atom/mod.rs"), ("AtomData::len/write and parse are inverse", "src/atom/mod.rs"), ("Data::len/write_typed and Data::parse are inverse", "src/atom/data.rs")],
 ["Tag::write_to / write_to_path return value", "Tag::read_from_path after the save"])

prop("C02", "A save preserves everything that is not the tag",
 "After a successful save every part of the file that is not the tag's own item list is still there: all other atoms at every level (tracks, headers, padding, unknown and vendor atoms, other metadata, media data) are present in the same order with the same contents, nothing is dropped, duplicated or added apart from the containers and handler an item list needs. Only the enclosing atoms' sizes and the chunk offset values may differ. This holds for saves that grow, shrink, add or empty the item list, and under any legal I/O delivery schedule.",
 ["inputs", "histories", "fault_sequences"],
 "every well-formed container, every sequence of saves of arbitrary tags, every legal short-transfer/interrupt schedule",
 "Existing tests only compare decoded tag fields of one sample after one save; no test looks at the bytes of any other atom.",
 WR + BOX, [("moved data is re-read and rewritten behind the new item list", "src/atom/mod.rs write_tag_to"), ("bounds of the existing hierarchy", "src/atom/*::find_atom")],
 ["bytes of the file after the save, parsed by an independent reference parser"])

prop("C03", "Chunk offsets keep designating the same media after a save",
 "After any successful save, every entry of every 32-bit and 64-bit chunk offset table of every track designates exactly the media bytes it designated before the save. This holds whatever the order of movie atom, tracks, user data and one or more media data atoms, and however much the metadata grew or shrank.",
 ["inputs", "histories", "fault_sequences"],
 "every layout of one or several media data atoms before and/or after the movie atom, every order of track and user-data atoms inside it, any number of tracks and entries, 32- and 64-bit tables, every sequence of saves and legal I/O schedule",
 "The sample's mdat lies in one place and no test reads an offset table, so shifts in the wrong direction, skipped tracks or tables, or stale tables pass every test.",
 ["src/atom/mod.rs"] + BOX, [("chunk offset adjustment by the length difference", "src/atom/mod.rs write_tag_to"), ("table discovery per track", "src/atom/stbl.rs"), ("table parsing", "src/atom/stco.rs, src/atom/co64.rs")],
 ["bytes at each chunk offset before and after the save"])

prop("C04", "A saved file is a well-formed atom tree",
 "After any successful save the file is an exactly nested sequence of atoms: every container's size, in the 32- or 64-bit form it uses, equals the sum of its contents, and the top-level atoms cover the file to its last byte. Exactly one item list is reachable through movie, user data and meta atoms (with a metadata handler beside it), and every item's and value's declared sizes are exact. Any independent MP4 reader can therefore find the metadata and the media.",
 ["inputs", "histories", "fault_sequences"],
 "every well-formed container including ones with missing hierarchy levels or 64-bit sized ancestors, every tag, every sequence of saves and legal I/O schedule",
 "Tests re-read with the library's own lenient parser only, which ignores many size errors; no test verifies sizes.",
 WR, [("ancestor size update", "src/atom/mod.rs write_tag_to"), ("Size/Head arithmetic", "src/atom/head.rs"), ("size() of written atoms", "src/atom/{meta,udta,ilst,hdlr,moov}.rs")],
 ["file bytes after the save, parsed by a strict reference parser"])

prop("C05", "A read returns what the bytes say, however they are delivered",
 "Reading a well-formed MP4 stream returns exactly the metadata items stored in it (all values of repeated items merged in file order, padding and unknown parts ignored), its file type and its audio information, as a function of the bytes from the reader's starting position alone. Short reads, interrupted reads, buffering and the kind of source never change the result, and reading never modifies the source. A stream that begins with another atom than a file type is refused as having no tag, one without a movie atom as missing it. An atom it interprets whose version it does not know is refused as such, never misread.",
 ["inputs", "fault_sequences"],
 "every well-formed container with foreign item lists (split items, padding, freeform, all value types), every delivery schedule of short and interrupted reads, every source (in-memory, file, buffered, any starting offset)",
 "The read tests decode three fixed sample files through one buffered reader with full reads.",
 ["src/atom/mod.rs", "src/atom/data.rs", "src/atom/head.rs", "src/atom/ilst.rs", "src/atom/meta.rs", "src/atom/ftyp.rs", "src/atom/ident.rs", "src/tag/mod.rs"],
 [("read_exact based parsing", "src/atom/data.rs ReadData"), ("item merging", "src/atom/ilst.rs"), ("atom skipping by seeking", "src/atom/*::parse_atom")],
 ["Tag::read_from / read_from_path result", "system calls issued on the source"])

prop("C06", "The bytes a save produces do not depend on I/O delivery",
 "For a given file and tag, whether a save succeeds and, byte for byte, the file it leaves are the same whatever short reads, short writes, interrupted calls and delays the storage delivers, in a number of system calls bounded by the sizes involved. When the call returns success all of it has been handed to the operating system: a process crash right after loses nothing.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "every well-formed file and tag, every schedule of short/interrupted transfers, a crash immediately after the acknowledged save",
 "Tests run on an ordinary file system that always transfers everything at once and never crash.",
 ["src/atom/mod.rs", "src/atom/data.rs", "src/atom/head.rs"], [("write_all/read_exact/read_to_end loops", "src/atom/mod.rs"), ("final flush", "src/atom/mod.rs write_tag_to")],
 ["file image at the instant the call returns"])

prop("C07", "A file's contents depend only on the last tag saved",
 "Any sequence of saves to a file leaves the same bytes as saving only the last tag to the original file. In particular saving a tag again, or saving back the tag read after a save, changes nothing, and growing then shrinking the metadata leaks no space and loses nothing.",
 ["histories", "inputs", "fault_sequences"],
 "every finite sequence of saves (growing, shrinking, emptying) to every well-formed file, with restarts between them and legal I/O delivery schedules",
 "Tests save at most once per file.",
 WR, [("item list replaced in place with exact length difference", "src/atom/mod.rs write_tag_to")],
 ["file bytes after histories of saves"])

prop("C08", "Storage failures are always reported, never masked as success",
 "If the storage fails an open, read, write or resize needed by reading, saving or dumping a tag (including a full disk, a write that makes no progress, a failure of the very last buffered write, or a file that turns out shorter than measured), the call returns that I/O error and never panics. A call that returns success has had its complete effect: nothing is lost or truncated.",
 ["fault_sequences", "inputs", "crash_points"],
 "every single failing system call of every operation, and sequences of failures mixed with short and interrupted transfers, on arbitrary files and tags",
 "No test injects any I/O failure; only the success path is run.",
 ["src/atom/mod.rs", "src/atom/data.rs", "src/atom/head.rs", "src/tag/mod.rs", "src/error.rs"], [("? propagation and explicit flush before returning", "src/atom/mod.rs"), ("conversion of io::Error", "src/error.rs")],
 ["return value of read/write/dump calls against injected faults", "file image after Ok"])

prop("C09", "A refused or early-failed save leaves the file untouched",
 "A save that fails for any reason other than a failing write of the contents (the file is not MP4, lacks a movie atom, is truncated, malformed or of an unsupported version anywhere the save looks; a read fails at any point; the file cannot be opened or resized) leaves every byte and the length of the file unchanged. A file that is not MP4, lacks a movie atom, ends inside it, or carries an unsupported version, a wrong table count or a size exceeding its parent in an atom the save relies on is refused, never rewritten. Repeating the save once the fault is gone succeeds with the same result as if it had never failed.",
 ["fault_sequences", "inputs", "histories"],
 "every failing read/open/resize call of a save, every kind of rejected container (including one malformed table among several tracks), followed by a retry",
 "No test saves to a bad file or with failing I/O.",
 ["src/atom/mod.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/meta.rs", "src/atom/head.rs"], [("the file is fully examined before it is first modified", "src/atom/mod.rs write_tag_to")],
 ["file image after an Err return", "result of the retried save"])

prop("C10", "An interrupted save never harms bytes outside its region",
 "At whatever instant a save is cut short (process crash, power loss with lost or torn writes, write error, full disk), every byte in front of the movie atom, such as the audio of files whose movie atom comes last, is exactly as before. Inside the movie atom ahead of the item list only sizes of the enclosing atoms and chunk offset tables may have changed, and the file is never shorter than the shorter of its old and new lengths.",
 ["crash_points", "fault_sequences", "inputs"],
 "every crash point (between and inside system calls) of every save, with any subset of the not yet synced writes lost or torn, on arbitrary files and tags",
 "No test interrupts a save.",
 ["src/atom/mod.rs"], [("in-place update limited to sizes, offset tables and the tail from the item list on", "src/atom/mod.rs write_tag_to")],
 ["disk image at each simulated crash point"])

prop("C11", "Reading damaged content never crashes, hangs or exhausts memory",
 "Whatever bytes a stream contains (flipped, truncated, torn, overwritten or appended anywhere, at rest or while being read), reading it ends with a tag or an error after a number of I/O calls proportional to its length. It never panics, aborts, overflows, loops or requests memory out of proportion to the stream, and a tag it returns can be queried through every accessor and rendered.",
 ["inputs", "fault_sequences", "schedules"],
 "every corruption of every container, including structure-aware ones (sizes, counts, versions, descriptor lengths, 64-bit heads), truncation at every point, and modification by another process at any system call of the read",
 "Tests read three valid files only.",
 ["src/atom/head.rs", "src/atom/mod.rs", "src/atom/data.rs", "src/atom/mp4a.rs", "src/atom/mvhd.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/tag/mod.rs", "src/tag/tuple.rs", "src/tag/genre.rs"],
 [("length validation when parsing heads", "src/atom/head.rs"), ("bounded reads", "src/atom/data.rs ReadData")],
 ["outcome of Tag::read_from, system-call count, allocation peak"])

prop("C12", "Saving onto damaged content never crashes, hangs or exhausts memory",
 "Whatever a file contains, and even if another process truncates or overwrites it at any moment, saving a tag to it ends with success or an error after a number of I/O calls and with memory proportional to the file and the tag; it never panics, aborts, overflows or loops. If it returns an error without a write having failed and nobody else modified it, the file is unchanged; bytes in front of the movie atom are never altered by it.",
 ["inputs", "fault_sequences", "schedules"],
 "every corruption or truncation of every container before the save, and concurrent truncation/extension/overwrites at any system call of the save",
 "Tests save to one valid file only.",
 ["src/atom/mod.rs", "src/atom/head.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/meta.rs"], [("bounds validation before modification", "src/atom/mod.rs write_tag_to"), ("table size check", "src/atom/stco.rs, src/atom/co64.rs")],
 ["outcome of Tag::write_to, file image, system-call count, allocation peak"])

prop("C13", "Audio information is reported as the container states it",
 "For every well-formed container the read tag reports the duration (movie duration over time scale, for both header versions and the full value ranges), and the channel configuration, sample rate, maximum and average bitrate of the first track with an MPEG-4 audio description, or none where the container does not state a known one. The values are the same before and after any save and under any read delivery schedule.",
 ["inputs", "histories", "fault_sequences"],
 "every header version, time scale and 32/64-bit duration, every descriptor length encoding and nesting, escaped object types and explicit frequencies, other atoms beside the elementary stream descriptor, any number and order of tracks and sample descriptions, every read schedule, across saves",
 "Tests check the values of one AAC sample.",
 ["src/atom/mvhd.rs", "src/atom/mp4a.rs", "src/atom/stsd.rs", "src/atom/mod.rs", "src/types.rs", "src/tag/readonly.rs"], [("mvhd and esds parsing", "src/atom/mvhd.rs, src/atom/mp4a.rs"), ("first mp4a track selection", "src/atom/mod.rs read_tag_from")],
 ["Tag::audio_info, duration, channel_config, sample_rate, avg_bitrate, max_bitrate"])

prop("C14", "A dumped tag reads back exactly, or the dump fails",
 "Dumping a tag to any writer or path succeeds exactly when every byte was accepted, and then reading the dump returns the same metadata; the bytes emitted do not depend on how the writer accepts them (short, interrupted). A dump to a path replaces any previous contents completely; if the writer fails, takes nothing, or fills up, the dump returns the error. A tag with an item too long for its length field is refused, never written with a wrong length.",
 ["inputs", "fault_sequences", "histories"],
 "every tag, every writer behaviour (short, interrupted, failing at any point, full), existing longer or shorter targets",
 "Two fixed tags are dumped to fresh files on healthy storage.",
 ["src/atom/mod.rs", "src/atom/ftyp.rs", "src/atom/moov.rs", "src/atom/meta.rs", "src/atom/head.rs", "src/atom/data.rs", "src/tag/mod.rs"], [("dump_tag_to", "src/atom/mod.rs")],
 ["bytes accepted by the writer, Tag::read_from of them, return value"])

prop("C15", "A tag is an ordered multimap across edits, saves and restarts",
 "Under any history of data-level edits (set, add, remove, retain, take, mutate, clear; singly or in bulk; by four-character or freeform identifier; restricted to bytes, strings, images or all data) a tag behaves as an ordered map from identifier to a non-empty list of typed values, and an edit changes only what it names. Queries always agree with that map, and after a save, a crash and a reload the tag equals the map as of the last successful save; no edit history can make a saved file unreadable.",
 ["histories", "inputs", "crash_points", "fault_sequences"],
 "every finite history of data-level operations interleaved with saves, failed saves, crash/restart and reloads, on arbitrary identifiers and values",
 "Each doc test runs one operation on one or two values and none goes through a file.",
 ["src/tag/mod.rs", "src/atom/mod.rs", "src/atom/data.rs", "src/atom/ident.rs"], [("Tag data accessors over a vector of atoms", "src/tag/mod.rs"), ("identifier equality", "src/atom/ident.rs")],
 ["all generic Tag queries after each step", "Tag::read_from_path after restart"])

prop("C16", "Typed fields read back what was set, without crosstalk",
 "Under any history of the typed accessors (single and multiple strings, flags, integers, track and disc numbers, standard and custom genres, media type, advisory rating, artwork), interleaved with saves, crashes and reloads, each field reads what was last set, added or removed on it, and changing one field never changes another, also where another program stored several values, or longer or shorter ones, under a field's identifier. Setting or removing one half of a track or disc pair preserves the other, and a stored zero reads as absent. Fields are stored in the form other programs read: UTF-8 text, big-endian numbers of the field's width, pairs in their fixed layout.",
 ["histories", "inputs", "crash_points", "fault_sequences"],
 "every finite history of typed operations over full value ranges, interleaved with saves, restarts and reloads under legal I/O schedules",
 "Tests set each field once or twice with small sample values.",
 ["src/tag/mod.rs", "src/tag/tuple.rs", "src/tag/genre.rs", "proc/src/lib.rs", "src/atom/data.rs", "src/types.rs", "src/atom/ident.rs"], [("generated accessors", "proc/src/lib.rs"), ("tuple and genre accessors", "src/tag/tuple.rs, src/tag/genre.rs")],
 ["all typed getters after each step and after reload"])

prop("C17", "Concurrent calls do not interfere",
 "Reads, saves and dumps issued by different threads on different files, and any number of reads of one file, give exactly the results they would give one at a time, under every interleaving of their I/O. A read racing a save of the same file ends with a tag or an error and never panics or hangs, and does not affect the save, after which a read returns the saved tag.",
 ["schedules", "inputs", "fault_sequences"],
 "every interleaving of the system calls of up to five concurrent calls, with short and interrupted transfers",
 "All tests are single-threaded with respect to a file and never control interleavings.",
 ["src/atom/mod.rs", "src/tag/mod.rs", "src/atom/data.rs"], [("no shared mutable state; all state on the call's stack", "src/atom/mod.rs")],
 ["results and final files against a sequential reference execution"])

prop("C18", "Calls touch only the named file and release what they open",
 "A read opens only the named file, read-only, and changes nothing; a save changes only the named file, in place, never creating one that does not exist; a dump creates or replaces only its target. No other file appears, changes or disappears, and when a call returns, successfully or after any failure, every descriptor it opened is closed exactly once and caller-supplied handles are still open and usable.",
 ["inputs", "fault_sequences", "histories"],
 "every operation on existing, missing, read-only and rejected files, with a failure injected at any system call",
 "Tests never look at the file system around a call, nor at descriptors, nor at failures.",
 ["src/tag/mod.rs", "src/atom/mod.rs"], [("open options of the path based calls", "src/tag/mod.rs")],
 ["simulated file system namespace, inode contents and descriptor table before and after each call"])

prop("C19", "Files beyond 4 GiB and 64-bit sizes are handled exactly",
 "In files larger than 4 GiB and in files whose atoms use 64-bit sizes, reading returns the stored metadata and a save keeps every guarantee of smaller files: all content preserved, sizes exact in the form each atom uses, 64-bit chunk offsets correct beyond the 32-bit range, nothing truncated to 32 bits. Tags of more than 4 GiB are saved with 64-bit sizes around the items, or refused where the file cannot express the result. The save transfers only the metadata and what lies behind it, never the gigabytes in front of the movie atom.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "files with multi-gigabyte media or padding atoms before the movie atom, tags around and beyond 4 GiB, 64-bit heads on any atom, 64-bit offsets past 2^32, sequences of saves, legal I/O schedules",
 "All sample files are under 1 MB and use 32-bit sizes; real multi-gigabyte files are impractical in unit tests.",
 ["src/atom/head.rs", "src/atom/mod.rs", "src/atom/co64.rs", "src/atom/mdat.rs"], [("extended heads", "src/atom/head.rs"), ("64-bit size update and set_len", "src/atom/mod.rs write_tag_to"), ("co64 update", "src/atom/mod.rs, src/atom/co64.rs")],
 ["sparse simulated file before and after; bytes transferred"])

prop("C20", "Rendering lists each present field once in a stable format",
 "Rendering a tag as text lists each field that is present with its values in a fixed order and format, and omits absent fields.",
 ["inputs"], "every tag value",
 "Tests print tags without checking the text.",
 ["src/tag/mod.rs", "src/tag/readonly.rs", "proc/src/lib.rs"], [("Display for Tag", "src/tag/mod.rs")], ["Display output"])

prop("C21", "Code tables convert one-to-one",
 "Converting media types, advisory ratings, channel configurations and sample rates to and from their stored codes is one-to-one on the defined codes and refuses or defaults the others as documented.",
 ["inputs"], "all 256 code values",
 "Tests touch two media types and two ratings.",
 ["src/types.rs"], [("code conversions", "src/types.rs")], ["TryFrom/From conversions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
