"""known_findings.txt from /repo's fix commits (run by hand when a fix is added)"""
import subprocess, os
MAP = {  # subject -> property
    "synchsafe encoding relied on signed overflow": ("C03", "write: any tag size in an optimised build"),
    "byte order mark test read past the end": ("C14", "ID3v2_strlen(\"\") and setters with an empty string"),
    "adding a frame did not account": ("C15", "add_comment_frame/add_apic_frame: tag size 10 too small, write loses the end of the last frame"),
    "deleting a frame that is not in the tag": ("C09", "delete of an absent id from a non-empty tag"),
    "removing the last of several frames": ("C06", "delete of the last frame, then any query or write"),
    "deleting a comment or picture by index": ("C15", "delete_comment_frame/delete_apic_frame"),
    "frames of unknown kind were leaked": ("C10", "load a tag with PRIV, write, free"),
    "every frame whose id starts with C or A": ("C04", "tags with COMR, CHAP, AENC, ASPI"),
    "padding was neither part of the written tag": ("C03", "write of any tag: declared size and bytes before the audio differ"),
    "frame sizes of v2.4 tags were not written": ("C01", "v2.4 tag with a frame of 128 bytes or more"),
    "text frames lost their encoding": ("C05", "UTF-8/UTF-16BE and multi-value text frames"),
    "comment frames were parsed beyond their end": ("C04", "COMM as last frame without terminator; UTF-16 comments"),
    "picture frames were parsed beyond their end": ("C04", "APIC with UTF-16 description; pointer into a dead stack frame"),
    "truncated or malformed tags were read out of bounds": ("C07", "any cut of a valid tag inside a frame; frame sizes beyond the tag"),
    "extended headers were skipped wrongly": ("C04", "tags with extended header, v2.3 and v2.4"),
    "a failing file operation crashed or damaged": ("C12", "tmpfile/open/read/write failing during write or delete"),
    "the footer of a v2.4 tag was left": ("C02", "v2.4 tag with footer: write or delete leaves 10 bytes of footer in front of the audio"),
    "the description of a plain comment": ("C03", "set_comment with a BOM comment"),
    "a comment and a description in different encodings": ("C03", "set_comment_frame with one plain and one BOM string"),
    "loading a file without tag crashed": ("C11", "load_tag on a file without tag"),
    "new or empty tags crashed": ("C11", "new_tag, then any setter"),
    "only the first flag byte": ("C11", "load_tag of a frame with second flag byte set"),
    "parsing the content of an absent frame": ("C11", "parse_*_frame_content(NULL)"),
    "parsed text contents were not terminated": ("C11", "parse_text_frame_content of an unterminated text"),
    "a MIME type that starts like a byte order mark": ("C07", "APIC with MIME type FF FE 41 00, then a write: read out of bounds"),
    "the compatibility layer crashed without a tag": ("C11", "tag_get_*(NULL) and set_tag(file, NULL), as after load_tag on a file without tag"),
    "a missing cover file or one without extension": ("C11", "tag_set_album_cover with a missing file or no extension"),
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True)
out = ["# Genuine defects found by the checks. All were repaired in /repo; a fixed entry suppresses nothing.", ""]
for ln in log.splitlines():
    h, s = ln.split(" ", 1)
    if s.startswith("fix: "):
        k = [v for m, v in MAP.items() if m in s]
        assert len(k) == 1, s
        out.append("fixed: property=%s %s %s [%s]" % (k[0][0], h[:10], s[5:], k[0][1]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w").write("\n".join(out) + "\n")
