#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the JSON is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

IO, TAG, LST, HDR = "src/id3v2lib.c", "src/modules/tag.c", "src/modules/frame_list.c", "src/modules/tag_header.c"
FH, FR, CS, UT = "src/modules/frame_header.c", "src/modules/frame.c", "src/modules/char_stream.c", "src/modules/utils.c"
TX, CM, AP, CO = ("src/modules/frames/text_frame.c", "src/modules/frames/comment_frame.c",
                  "src/modules/frames/apic_frame.c", "src/id3v2lib.compat.c")

p("C01", "A written tag reads back exactly as it was in memory",
  "After any sequence of edits on a tag (new or loaded, ID3v2.3 or v2.4), writing it to a file and loading that file again gives the same frames in the same order: same ids, same flag bytes, and the same text, encoding, language, descriptions, comment, MIME type, picture type and picture bytes. This holds for every frame size, including sizes that need two, three or four size bytes.",
  ["inputs", "histories"], "every edit history that starts from an empty or loaded tag, every frame content and size, both tag versions",
  "The only test that runs here never writes a tag; the shipped edit test (fixture missing) writes one fixed v2.3 tag, so no other history, size class or version is reached.",
  [IO, TAG, FR, FH, TX, CM, AP],
  [("tag.frames", "ordered frames held in memory", TAG), ("header.tag_size", "declared size of the tag body", TAG)],
  [("serialisation of the tag and of each frame kind", TAG), ("frame header size encoding", FH), ("parsing of the tag", TAG)],
  ["ID3v2_write_tag", "ID3v2_read_tag", "public frame structs"])

p("C02", "Writing or deleting a tag never changes the audio",
  "After writing a tag to a file or deleting the tag of a file, the bytes that followed the original tag (the whole old content, if there was no supported tag) are still there, complete and unaltered, right after the new tag or at the start of the file when the tag was deleted. This holds whatever those bytes are (NULs, 0xFF, text that looks like another tag, nothing at all) and for any number of successive writes and deletes.",
  ["inputs", "histories"], "every file content, every tag, every sequence of write and delete operations",
  "No test compares the audio part of a file before and after a write or a delete.",
  [IO], [("file", "old tag region followed by audio", IO)],
  [("old tag size computed from the header found in the file", IO), ("copy through a temporary file", IO)],
  ["ID3v2_write_tag", "ID3v2_delete_tag", "file bytes"])

p("C03", "Every tag the library writes is well-formed ID3v2",
  "The bytes written before the audio form one valid ID3v2.3/v2.4 tag: the declared tag size is exactly the distance to the audio, frames follow each other without gap or overlap with sizes encoded as the tag version requires (plain in v2.3, synchsafe in v2.4), the rest is zero padding of at least the default padding length (2048), and the header flags announce nothing that was not written. Each text, comment and picture frame declares the encoding its strings really use, and every string that the format requires to be terminated is.",
  ["inputs", "histories"], "every tag that can be built by loading and editing, every content",
  "Tests only read back with the library's own reader, which shares the writer's assumptions, and never inspect the bytes.",
  [TAG, FH, TX, CM, AP, UT, IO], [("header.tag_size", "declared body size", TAG), ("padding_size", "bytes of padding", TAG)],
  [("serialisation", TAG), ("synchsafe encoding", UT), ("encoding chosen from the byte order mark", TX), ("default padding on write", IO)],
  ["ID3v2_write_tag", "file bytes"])

p("C04", "Every conforming v2.3/v2.4 tag is read completely and exactly",
  "Loading a tag made by any conforming writer (any number and order of frames, any padding, optional extended header, optional footer, any of the text encodings, strings with or without optional terminator, several values in one text frame, frames of any kind; no unsynchronisation, compression or encryption) yields every frame, in order, with its exact id, flags and content, and nothing else. Unknown frame kinds are exposed with their raw bytes. Text and comment strings handed to the caller are always terminated in memory.",
  ["inputs"], "every conforming tag, from a file or from a buffer that may be longer than the tag",
  "The one fixture that held a tag is missing, and a single file could only show one writer's dialect.",
  [HDR, TAG, FR, FH, TX, CM, AP], [("char stream cursor", "position in the tag", CS)],
  [("frame walk", TAG), ("extended header skip", HDR), ("frame kind dispatch", FR), ("frame body parsers", TX)],
  ["ID3v2_read_tag", "ID3v2_read_tag_from_buffer", "public frame structs"])

p("C05", "Frames the caller does not touch survive byte for byte",
  "When a conforming tag written by another program is loaded, some of its frames are set, added or deleted, and the tag is written back, every other frame is present in the new file with identical id, flags and content bytes, in the same relative order. This includes frame kinds the library does not interpret, user-defined text frames, multi-value text frames and frames in encodings the library itself never produces.",
  ["inputs", "histories"], "every conforming tag, every edit sequence, every frame left untouched",
  "No runnable test loads a tag at all; the shipped ones never look at frames they did not set.",
  [FR, TX, CM, AP, TAG], [("frame", "id, flags, content", FR)],
  [("raw copy of unknown frames", FR), ("size-bounded parsing and re-serialisation of known frames", TX)],
  ["ID3v2_read_tag", "ID3v2_Tag_set_*", "ID3v2_Tag_delete_*", "ID3v2_write_tag", "file bytes"])

p("C06", "Edits and queries follow ordered-list semantics",
  "A tag behaves as an ordered list of frames: set replaces the first frame with that id in place or appends when there is none, add always appends, delete removes exactly the first frame with that id (or the comment/picture with the given index), and all other frames keep content and order. Getters return the first frame with the id or nothing, list getters return all of them in order, and each named getter, setter and deleter (artist, album, title, track, album artist, genre, year, disc number, composer, comment, cover) acts on its own ID3 frame id only.",
  ["histories", "inputs"], "every sequence of set, add, delete and get calls on one tag",
  "The runnable test performs no edit; the shipped ones perform each edit once, in one order, on one tag.",
  [TAG, LST], [("frame list", "singly linked list with an embedded head", LST)],
  [("list add/remove/replace", LST), ("setter/deleter wrappers", TAG)],
  ["ID3v2_Tag_*", "public frame list"])

p("C07", "Reading arbitrary bytes is safe, terminates and is truthful",
  "Reading a tag or tag header from any file or buffer, whatever its bytes and however it is truncated, returns (no crash, hang, out-of-bounds access or abort) either nothing or a tag that can be queried, edited, written and freed. Every frame it reports lies, with its header and content, wholly inside the bytes given, in file order; and frames wholly contained before the point where a valid tag is cut off are still reported.",
  ["inputs"], "every byte string as file or as buffer of its exact length",
  "Tests feed an empty file and a missing file only.",
  [HDR, TAG, FR, FH, TX, CM, AP, CS, IO], [("char stream cursor/size", "bounds of the input", CS)],
  [("bounded reads", CS), ("size checks in the frame walk", TAG)],
  ["ID3v2_read_tag", "ID3v2_read_tag_from_buffer", "ID3v2_read_tag_header", "ID3v2_read_tag_header_from_buffer"])

p("C08", "Tag detection and header decoding are exact",
  "Reading a tag header yields nothing for a missing file, a file shorter than a header, content that does not start with the ID3 identifier, or a major version other than 3 and 4; otherwise it yields exactly the version, revision, flags and synchsafe-decoded size stored in the header. Reading by file name and reading from a buffer with the same bytes agree, for headers and for whole tags.",
  ["inputs"], "every 10-byte header and every shorter content, both entry points",
  "The one runnable test covers a missing and an empty file; the identifier check is not exercised at all.",
  [IO, HDR, UT], [("tag header", "decoded header fields", HDR)],
  [("identifier and version check", HDR), ("synchsafe decoding", UT)],
  ["ID3v2_read_tag_header", "ID3v2_read_tag_header_from_buffer", "ID3v2_read_tag", "ID3v2_read_tag_from_buffer"])

p("C09", "Operations on absent things are harmless no-ops",
  "Deleting a frame that the tag does not contain (by id, by name or by an index out of range, also from an empty tag) leaves the tag unchanged; getters return nothing for absent frames and for a null tag; deleting the tag of a file that has none or does not exist, and writing a null tag or writing to a file that does not exist, change nothing on disk. None of these terminates or crashes the process, and the tag remains fully usable afterwards.",
  ["inputs", "histories"], "every tag state and every absent id, index or file",
  "Tests only delete frames that exist, in a tag that was loaded.",
  [TAG, LST, IO], [("frame list", "possibly empty list", LST)],
  [("not-found paths of list removal", LST), ("null checks", TAG), ("missing file handling", IO)],
  ["ID3v2_Tag_delete_*", "ID3v2_Tag_get_*", "ID3v2_delete_tag", "ID3v2_write_tag"])

p("C10", "Ownership: inputs are copied, frames stay valid, all memory is released",
  "Everything passed to a setter or reader is copied and left as it is, so the caller may change or free it at once, and a value taken from the tag itself may be passed back to a setter. A frame obtained from a tag stays at the same address with the same content until that very frame is replaced or deleted or the tag is freed. After freeing every tag, header and list obtained, no memory and no file handle obtained by the library is left, and nothing is ever released twice or used after release.",
  ["histories", "inputs"], "every sequence of calls including deletes by index and frames of every kind",
  "Tests never look at memory; leaks and dangling pointers do not fail an assertion.",
  [TAG, LST, FR, TX, CM, AP, IO, CS], [("frame", "owned by the tag's list", LST)],
  [("copying constructors", TX), ("free functions per frame kind", FR), ("unlink of sublists", LST)],
  ["all public functions", "allocations and file descriptors of the process"])

p("C11", "The compatibility layer is the same library under the old names",
  "Each function of the compatibility API has the effect of its counterpart on the same underlying tag: loading shows every frame of the tag (id, size, both flag bytes, content bytes) in order, setters replace the first such frame or append it in both views, getters and content parsers return the current values, nothing is returned for absent frames and files without tag, and saving, removing and freeing behave as the modern functions. It works the same for a freshly created tag as for a loaded one.",
  ["histories", "inputs"], "every sequence of compatibility calls, on new and loaded tags",
  "The compat test needs the missing fixture and only overwrites four existing text frames.",
  [CO], [("compat frame list", "old-style view of the frames", CO)],
  [("view kept in step by the setters", CO), ("load functions", CO)],
  ["include/id3v2lib.compat.h functions", "ID3v2_tag struct", "file bytes"])

p("C12", "A failing file operation before the rewrite starts leaves the file intact",
  "If any file operation (open, read, seek, write, temporary file creation, flush) fails while a write or delete is still collecting the new content, i.e. before the target file has been modified, then the call returns normally and the target file has either its old content or the complete new content. It never ends with part of the audio or of the old tag missing, or with the old tag kept in front of the audio. The tag in memory keeps its frames and exact sizes, and once the cause is gone, saving it again gives what the first attempt would have given.",
  ["fault_sequences", "inputs"], "every single I/O fault position before the first modification of the target, every file content",
  "Tests never make an I/O operation fail.",
  [IO], [("target file", "old content until staged content is copied back", IO), ("temporary file", "staged new content", IO)],
  [("staging in a temporary file", IO), ("error checks before truncating the target", IO)],
  ["ID3v2_write_tag", "ID3v2_delete_tag", "file bytes after an injected system call failure"])

p("C13", "Saving is stable: re-saving changes nothing and nothing grows",
  "Writing the same unmodified tag again, or loading a tag the library wrote and writing it back, leaves the file byte for byte the same, any number of times. Padding that is already at least the default length is kept and not enlarged, and deleting the tag after any such sequence restores exactly the audio.",
  ["histories"], "every tag and file, every number of load/save rounds",
  "Tests write each file once.",
  [IO, TAG], [("padding_size", "padding of the tag in memory", TAG)],
  [("padding computed on write", IO), ("size bookkeeping", TAG)],
  ["ID3v2_read_tag", "ID3v2_write_tag", "ID3v2_delete_tag", "file bytes"])

p("C14", "Text helpers obey their length and conversion laws",
  "For every Latin-1 string, converting to unicode gives a little-endian byte order mark, each character as one 16-bit unit in order, and a 16-bit terminator; a string that already starts with a byte order mark is returned as is. The length helpers return, for any plain or BOM-prefixed string, the number of bytes before the terminator (byte order mark included) and that number plus the terminator (1 or 2 bytes), also when single zero bytes occur inside 16-bit units.",
  ["inputs"], "every terminated string, plain or with either byte order mark",
  "The helpers are only called with a few ASCII words by tests that cannot run here.",
  [UT], [], [("ID3v2_to_unicode", UT), ("ID3v2_strlen / ID3v2_strlent", UT)],
  ["ID3v2_to_unicode", "ID3v2_strlen", "ID3v2_strlent"])

p("C15", "The sizes a tag exposes are always exact",
  "After loading and after every edit or write, the tag size in the header of the in-memory tag equals the bytes its frames occupy (10 plus content size each) plus the padding it reports, and every frame's header size equals the size of its content. After a write, tag size and padding are those of the file.",
  ["histories", "inputs"], "every sequence of load, set, add, delete and write calls",
  "One shipped assertion compares two of these numbers once, for an emptied tag.",
  [TAG, IO, TX, CM, AP], [("header.tag_size", "declared size", TAG), ("padding_size", "padding", TAG)],
  [("incremental size bookkeeping in setters and deleters", TAG), ("padding adjustment on write", IO)],
  ["public ID3v2_Tag struct", "frame headers"])

p("C16", "Distinct tags and files are independent, also across threads",
  "Operations on one tag or file never affect another tag or file, in any interleaving; results depend only on the object's own history. Threads that work on different tags and files at the same time each observe exactly what they would observe alone, without data races inside the library.",
  ["histories", "schedules"], "every interleaving of operations on several tags and files, in one thread or several",
  "Tests are single-threaded and hold at most two tags, one after the other.",
  [IO, TAG, UT, CS], [("none shared", "the library keeps no global state", "src/")],
  [("per-object allocation, no static buffers", UT)],
  ["all public functions"])

p("C17", "Reading and querying have no side effects",
  "Reading tags or headers leaves the file unchanged and calling any getter any number of times leaves the tag unchanged, including its sizes, frame order and addresses; repeated reads and queries give equal results. Writing a tag changes only the target file and, in memory, only the tag's padding and size.",
  ["histories", "inputs"], "every tag, file and sequence of reads and queries between edits",
  "Tests query each frame once and never compare state around a query.",
  [IO, TAG, LST], [("tag", "in-memory tag", TAG)],
  [("sublists built apart from the tag's list", LST), ("files opened read-only for reading", IO)],
  ["ID3v2_read_tag*", "ID3v2_Tag_get_*", "file bytes"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
