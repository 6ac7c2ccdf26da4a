"""Seeded scenario generators.  They only choose calls and inputs; what must happen is decided by the specification."""
import random

from core import rle

NAMES = ["artist", "album", "title", "track", "album_artist", "genre", "year", "disc_number", "composer"]
NAME_ID = {"artist": "TPE1", "album": "TALB", "title": "TIT2", "track": "TRCK", "album_artist": "TPE2", "genre": "TCON",
           "year": "TYER", "disc_number": "TPOS", "composer": "TCOM", "comment": "COMM", "cover": "APIC"}
TEXT_IDS = list(NAME_ID[n] for n in NAMES) + ["TBPM", "TXXX", "TSSE", "TDRC", "TIT1", "TIT3", "TPE3", "TSRC", "T000", "TYE0"]
RAW_IDS = ["PRIV", "UFID", "WOAR", "WXXX", "CHAP", "CTOC", "COMR", "AENC", "ASPI", "GEOB", "MCDI", "ETCO", "USLT", "POPM",
           "PCNT", "RVA2", "SYLT", "COMN", "APIX", "CCCC", "AAAA", "XYZ1", "A000", "COM0", "ENCR", "GRID", "LINK"]
BOM_LE, BOM_BE = b"\xff\xfe", b"\xfe\xff"
# what people put into tags: nothing in it means anything to the library
WORDS = [b"(17)", b"(17)Rock", b"((x)", b"17", b"3/12", b"03/012", b"1999", b"2001-05-03", b"A/B", b"A;B", b" a ", b"a  ", b"  ", b"\n", b"a\nb\r\n",
         b"\ta\t", b"%s%d%n", b'"q"', b"ID3", b"TAG", b"3DI", b"TIT2", b"COMM", b"APIC", b"image/png", b"eng", b"a\\b", b"~", b"caf\xe9", b"\xef\xbb\xbfx",
         b"\xc3\xa9", b"\xff", b"\xfe", b"\xffA", b"\xfeA", b"\xfe\xfe", b"\xff\xff", b"0", b"-1", b"AB", b"ab", b"\x80", b"\x7f", b"\x01\x02\x03\x04"]
IDX = [4, 5, 9, 100, 127, 128, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, -1, -2, -128, -256, -65536, -(1 << 31)]
# lengths that make some size field cross a byte, seven-bit or allocation boundary
EDGE = [0, 1, 2, 3, 9, 10, 11, 116, 117, 118, 125, 126, 127, 128, 129, 245, 246, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024,
        1025, 2037, 2038, 2048, 2049, 4095, 4096, 4097]
EDGE_BIG = [8191, 8192, 8193, 16371, 16383, 16384, 16385, 32767, 32768, 65525, 65535, 65536, 65537, 100000]
EDGE_HUGE = [1 << 20, (1 << 21) - 12, (1 << 21) - 1, 1 << 21, (1 << 21) + 77]
EDGE_GIANT = [(1 << 24) - 20, (1 << 24) + 5]


def q(s):
    return list(s.encode("latin-1")) if isinstance(s, str) else list(s)


def sync(n):
    return bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127])


def be(n):
    return (n & 0xFFFFFFFF).to_bytes(4, "big")


def r_bom(r):
    """a plain string that begins like a byte order mark"""
    return r.choice([BOM_LE, BOM_BE]) + r.choice([b"", b"A", b"AB", b"image"])


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ------------------------------------------------------------ contents
    def runs(self, n, alphabet=None):
        """n bytes in few runs (cheap for the specification), never 0 unless the alphabet says so"""
        r = self.r
        out = b""
        while len(out) < n:
            k = n - len(out) if (n > 4000 and len(out) > 30) else r.choice([1, 1, 2, 3, 7])
            if n > 300 and len(out) > 20:
                k = max(k, r.choice([n // 3, n]))
            b = r.choice(alphabet) if alphabet else r.randrange(1, 256)
            out += bytes([b]) * k
        return out[:n]

    def size(self, big=0.0):
        r = self.r
        x = r.random()
        if x < big:
            return r.choice(EDGE_BIG) + r.choice([0, 0, 1, -1])
        if x < 0.2 + big:
            return r.choice(EDGE)
        return r.randrange(0, 14)

    def iso(self, n=None, big=0.0):
        r = self.r
        if n is None and r.random() < 0.15:
            return r.choice(WORDS)
        n = self.size(big) if n is None else n
        if n == 0:
            return b""
        s = self.runs(n, [65, 66, 97, 32, 48, 255, 254, 128, 1, 127, 0xE9] if r.random() < 0.8 else None)
        if s[:2] in (BOM_LE, BOM_BE):
            s = b"x" + s[1:]
        return s

    UNITS = [b"A\0", b"\0A", b"\xe9\0", b"\0\xe9", b"\x01\x00", b"\x00\x01", b"\xac\x20", b"\x3d\xd8", b"\x00\x01\x00\x01",
             b"\x00\xdc", b"\xff\xfe", b"\x4e\x00", b"\x30\x42"]

    def uni(self, n=None, big=0.0, bom=None):
        r = self.r
        if n is None and r.random() < 0.1:
            bom = bom or r.choice([BOM_LE, BOM_BE])
            return bom + r.choice(WORDS).decode("latin-1").encode("utf-16-le" if bom == BOM_LE else "utf-16-be")
        n = self.size(big) // 2 if n is None else n
        s = b""
        while len(s) < 2 * n:
            u = r.choice(self.UNITS)
            s += u * (1 if n < 40 or len(s) < 20 else max(1, (2 * n - len(s)) // len(u)))
            if n > 200 and len(s) > 200:
                break
        if n > 200:
            s = s[:20] + b"AA" * (n - 10)
        s = s[: 2 * n]
        s = b"".join(s[i:i + 2] if s[i:i + 2] != b"\0\0" else b"\1\0" for i in range(0, len(s), 2)) if n <= 200 else s
        return (bom or r.choice([BOM_LE, BOM_LE, BOM_BE])) + s

    def string(self, big=0.0):
        return self.uni(big=big) if self.r.random() < 0.4 else self.iso(big=big)

    def pic(self, big=0.0):
        r = self.r
        n = self.size(big)
        return self.runs(n, list(range(256)) if r.random() < 0.5 else [0, 0, 255, 0xD8, 1, 0x49])

    def mime(self):
        return self.r.choice([b"image/png", b"image/jpeg", b"", b"-->", r_bom(self.r), b"image/gif", b"PNG", b"image/", self.iso(self.r.choice([31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1024])),
                              b"image/" + self.iso(self.r.randrange(0, 30)).replace(b"\0", b"x")])

    def lang(self):
        return self.r.choice([b"eng", b"spa", b"XXX", b"\0\0\0", b"a\0b", bytes(self.r.randrange(256) for _ in range(3))])

    def flags2(self, kind="any"):
        r = self.r
        a = r.choice([0, 0, 0, 0x20, 0x40, 0x80, 0xE0, 1 << r.randrange(8), r.randrange(256)])
        b = 0 if kind == "known" else r.choice([0, 0, 0, 0x20, 1 << r.randrange(8), r.randrange(256)])
        return [a, b]

    def audio(self, big=0.0):
        r = self.r
        k = r.randrange(14)
        if k == 0:
            return b""
        if k >= 12:  # what other formats leave at the end
            return self.runs(r.choice([0, 1, 30, 200, 4096]), list(range(256))) + r.choice([
                b"TAG" + self.runs(125, [0, 32, 65]), b"3DI\x04\0\x10\0\0\0\0", self.tag(small=True, ver=4, foot=True), self.tag(small=True),
                b"APETAGEX\xd0\x07\0\0 \0\0\0\0\0\0\0\0\0\0\x80" + b"\0" * 8, b"LYRICS200", b"\0" * 10, b"\x1a", b"\r\n"])
        if k == 1:
            return bytes([r.choice([0, 255, 73])])
        if k == 2:
            return b"\0" * r.choice([1, 9, 10, 11, 2048, 5000])
        if k == 3:
            return b"\xff\xfb\x90\x64" + self.runs(r.randrange(0, 60), list(range(256)))
        if k == 4:  # looks like another tag
            return self.tag(small=True) + self.runs(r.randrange(0, 20), list(range(256)))
        if k == 5:
            return r.choice([b"ID3", b"ID", b"ID3\x02\x00\x00\0\0\0\x05hello...", b"3DI\x04\0\x10\0\0\0\0", b"ID3\x05\0\0\0\0\0\0zz", b"id3\x03\0\0\0\0\0\0"])
        if k == 6:
            return self.runs(30, list(range(256))) + b"TAG" + self.runs(125, [0, 32, 65])
        if k == 7 and r.random() < max(big, 0.3):
            return self.runs(40, list(range(256))) + b"\xaa" * r.choice([4095, 4096, 8191, 65535, 65536, 131072, 1 << 20]) + self.runs(30)
        return self.runs(r.randrange(0, 80), list(range(256)))

    # ------------------------------------------------------------ tags by other writers
    def body(self, fid, ver, big=0.0):
        r = self.r
        enc = r.choice([0, 0, 1, 1, 2, 3] if ver == 4 or r.random() < 0.3 else [0, 1])

        def s(term):
            if enc == 0:
                t, z = self.iso(big=big), b"\0"
            elif enc == 1:
                t, z = self.uni(big=big), b"\0\0"
            elif enc == 2:
                t, z = self.uni(big=big)[2:], b"\0\0"
            else:
                t, z = r.choice([b"", "añb€".encode(), b"plain", self.iso(r.randrange(0, 20)).replace(b"\xff", b"x")]), b"\0"
            return t + (z if term else b"")

        if fid[0] == "T":
            n = r.choice([1, 1, 1, 2, 3])
            b = b"".join(s(True) for _ in range(n - 1)) + s(r.random() < 0.5)
            if fid == "TXXX":
                b = s(True) + b
            return bytes([enc]) + b
        if fid == "COMM":
            return bytes([enc]) + self.lang() + s(True) + s(r.random() < 0.5)
        if fid == "APIC":
            return bytes([enc]) + self.mime() + b"\0" + bytes([r.choice([0, 3, 3, 4, 20, 255, r.randrange(256)])]) + s(True) + self.pic(big)
        return self.runs(max(1, self.size(big)), list(range(256)))

    def fid(self):
        r = self.r
        if r.random() < 0.1:  # any other kind
            return "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ" if i == 0 else "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for i in range(4))
        return r.choice([r.choice(TEXT_IDS), r.choice(TEXT_IDS[:9]), "COMM", "APIC", r.choice(RAW_IDS)])

    def frame(self, ver, fid=None, big=0.0):
        fid = fid or self.fid()
        b = self.body(fid, ver, big)
        known = fid[0] == "T" or fid in ("COMM", "APIC")
        fl = self.flags2("known" if known else "any")
        return fid.encode() + (sync(len(b)) if ver == 4 else be(len(b))) + bytes(fl) + b

    def ext(self, ver):
        r = self.r
        if ver == 3:
            return r.choice([be(6) + b"\0\0" + be(r.choice([0, 10, 2048])), be(10) + b"\x80\0" + be(0) + b"\x12\x34\x56\x78"])
        return r.choice([sync(6) + b"\x01\0", sync(7) + b"\x01\x40\0", sync(12) + b"\x01\x20\x05\x01\x02\x03\x04\x05",
                         sync(8) + b"\x01\x10\x01\x00", sync(15) + b"\x01\x70\0\x05\x01\x02\x03\x04\x05\x01\x3f"])

    def tag(self, ver=None, frames=None, n=None, ext=None, foot=None, pad=None, small=False, big=0.0, hfl=0, rev=None):
        """a conforming tag"""
        r = self.r
        ver = ver or r.choice([3, 4])
        if frames is None:
            n = r.choice([0, 1, 1, 2] if small else [0, 1, 2, 3, 4, 6]) if n is None else n
            frames = [self.frame(ver, big=big) for _ in range(n)]
        ext = r.random() < 0.2 if ext is None else ext
        foot = (ver == 4 and r.random() < 0.2) if foot is None else (foot and ver == 4)
        e = self.ext(ver) if ext else b""
        if foot:
            pad = 0
        elif pad is None:
            pad = r.choice([0, 0, 1, 5, 9, 10, 11, 30] if small else [0, 0, 1, 9, 10, 11, 100, 1000, 2047, 2048, 2049, 3000, 10000])
            if not small and r.random() < 0.06:
                pad = r.choice([16384, 65536, 70000, 300000, 1 << 21])
        body = e + b"".join(frames) + b"\0" * pad
        hfl = hfl | (0x40 if ext else 0) | (0x10 if foot else 0) | r.choice([0, 0, 0, 0x20])
        rev = r.choice([0, 0, 0, 1]) if rev is None else rev
        head = bytes([ver, rev, hfl]) + sync(len(body))
        return b"ID3" + head + body + (b"3DI" + head if foot else b"")

    def odd_tag(self):
        """well-formed on the outside, with frames no standard describes: empty ones, unknown encodings, odd ids, half characters"""
        r = self.r
        ver = r.choice([3, 4])
        fs = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            fid = self.fid().encode()
            k = r.randrange(8)
            if k == 0:
                b = b""
            elif k == 1:
                b = bytes([r.choice([0, 1, 2, 3, 4, 9, 255])])
            elif k == 2:
                b = bytes([r.choice([4, 5, 9, 16, 128, 255])]) + b"eng\0" + self.iso(5) + r.choice([b"", b"\0"])
            elif k == 3:
                b = b"\1" + self.uni(4) + r.choice([b"x", b"\0", b"\0\0\0"])
            elif k == 4:
                b, fid = self.body("PRIV", ver), r.choice([b"tit2", b"A B ", b"TT2 ", b"\xff\xff\xff\xff", b"com\0", b"COM ", b"PIC\0", b"T\0\0\0", b"1234"])
            else:
                fs.append(self.frame(ver))
                continue
            fs.append(fid + (sync(len(b)) if ver == 4 else be(len(b))) + bytes(self.flags2()) + b)
        body = b"".join(fs) + b"\0" * r.choice([0, 0, 3, 10, 40])
        return b"ID3" + bytes([ver, 0, 0]) + sync(len(body)) + body

    def content(self, p_tag=0.7, small=False, big=0.0):
        """a file: tag or none, then audio"""
        r = self.r
        a = self.audio(big)
        if r.random() < p_tag:
            return self.tag(small=small, big=big) + a
        return a

    # ------------------------------------------------------------ single calls
    def setter(self, h, big=0.0, pool=None):
        r = self.r
        k = r.randrange(10)
        if k <= 1:
            fid = r.choice(pool or TEXT_IDS)
            if fid[0] != "T":
                fid = "TIT2"
            return dict(op="set_text", h=h, id=q(fid), fl=self.flags2(), text=rle(self.string(big)))
        if k <= 4:
            return dict(op="setn", h=h, name=r.choice(NAMES), text=rle(self.string(big)))
        if k == 5:
            return dict(op=r.choice(["set_commf", "add_commf"]), h=h, fl=self.flags2(), lang=rle(self.lang()), **self.two(big))
        if k == 6:
            return dict(op="add_commf", h=h, fl=self.flags2(), lang=rle(self.lang()), **self.two(big))
        if k == 7:
            return dict(op="set_comm", h=h, lang=rle(self.lang()), comm=rle(self.string(big)))
        if k == 8:
            return dict(op=r.choice(["set_apicf", "add_apicf", "add_apicf"]), h=h, fl=self.flags2(), mime=rle(self.mime()), desc=rle(self.string()),
                        pt=r.choice([0, 3, 4, 20, 255, r.randrange(256)]), pic=rle(self.pic(big)))
        return dict(op="set_cover", h=h, mime=rle(self.mime()), pic=rle(self.pic(big)))

    def two(self, big=0.0):
        d, c = self.string(), self.string(big)
        if (d[:2] in (BOM_LE, BOM_BE)) != (c[:2] in (BOM_LE, BOM_BE)):  # will be widened by the library
            d, c = (d if d[:2] in (BOM_LE, BOM_BE) else d[:6000]), (c if c[:2] in (BOM_LE, BOM_BE) else c[:6000])
        return dict(desc=rle(d), comm=rle(c))

    def deleter(self, h):
        r = self.r
        k = r.randrange(6)
        if k == 0 and r.random() < 0.3:
            return dict(op="del_frame", h=h, id=q(self.near()))
        if k == 0:
            return dict(op="del_frame", h=h, id=q(r.choice(TEXT_IDS + RAW_IDS + ["COMM", "APIC"])))
        if k <= 2:
            return dict(op="deln", h=h, name=r.choice(NAMES + ["comment", "cover"]))
        if k == 3:
            return dict(op="del_frame", h=h, id=q(r.choice(["COMM", "APIC", "TIT2", "PRIV", "TXXX"])))
        return dict(op=r.choice(["del_ci", "del_ai"]), h=h, k=r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, r.choice(IDX)]))

    def near(self):
        """an id, or one that differs from one with a name in a single letter or in the case of letters"""
        r = self.r
        i = self.fid()
        k = r.randrange(8)
        if k == 0:
            return i.lower() if r.random() < 0.6 else i[:r.randrange(4)]
        if k == 1:
            n = r.randrange(4)
            return i[:n] + i[n].lower() + i[n + 1:]
        if k == 2:
            n = r.randrange(4)
            return i[:n] + r.choice("AZ09B") + i[n + 1:]
        return i

    def getter(self, h):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return dict(op="get", h=h, id=q(self.near()))
        if k <= 2:
            return dict(op="getn", h=h, name=r.choice(NAMES + ["comment", "cover"]))
        if k == 3:
            return dict(op="gets", h=h, id=q(self.near()))
        return dict(op=r.choice(["getcs", "getas"]), h=h)

    def holder(self, h):
        r = self.r
        k = r.randrange(6)
        if k <= 2:
            return dict(op="hold", h=h, id=q(r.choice(["COMM", "APIC", "TIT2", self.fid(), self.fid()])))
        return dict(op="held", h=h) if k < 5 else dict(op="unhold")

    def alias(self, h):
        r = self.r
        a = r.choice(NAMES)
        k = r.randrange(8)
        if k <= 2:
            return dict(op="alias", h=h, dst=r.choice([a, a, r.choice(NAMES)]), src=a)
        if k == 3:
            return dict(op="alias_f", h=h, src=a)
        if k <= 5:
            return dict(op="alias_c", h=h, how=r.choice(["set", "setf", "swap", "add"]))
        return dict(op="alias_a", h=h, how=r.choice(["set", "setf", "add"]))

    def edit(self, h, big=0.0, alias=False):
        x = self.r.random()
        if alias and x < 0.08:
            return self.alias(h)
        return self.setter(h, big) if x < 0.66 else self.deleter(h)

    def start(self, h, f, ops, small=False, big=0.0, p_read=0.5):
        """puts a tag in handle h, new or loaded through file f or a buffer"""
        r = self.r
        x = r.random()
        if x < p_read:
            b = self.odd_tag() if x < 0.06 * p_read else self.tag(small=small, big=big)
            if r.random() < 0.5:
                ops += [dict(op="mk", f=f, b=rle(b + self.audio())), dict(op=r.choice(["read", "read", "readfb"]), h=h, f=f)]
            else:
                ops += [dict(op="readb", h=h, b=rle(b + r.choice([b"", self.runs(15, list(range(256)))])))]
        elif x < p_read + 0.25:
            ops.append(dict(op="newe", h=h))
        elif x < p_read + 0.4:
            ops.append(dict(op="new", h=h, pad=r.choice([0, 1, 10, 100, 2047, 2048, 2049, 5000, 5000, r.choice([16384, 65536, 1 << 21])])))
        else:
            ops += [dict(op="mk", f=f, b=rle(self.content(small=True))), dict(op="newh", h=h, f=f, pad=r.choice([0, 0, 10, 3000]))]

    def mkfile(self, f, **kw):
        return dict(op="mk", f=f, b=rle(self.content(**kw)))

    # ------------------------------------------------------------ scenario families
    def sc_history(self, n_edits, big=0.0, alias=False, gets=0.0, saves=1):
        """edits on one tag, saved and reloaded"""
        ops = []
        self.start(0, 0, ops, big=big)
        for _ in range(saves):
            for _ in range(self.r.randrange(0, n_edits + 1)):
                ops.append(self.edit(0, big, alias))
                if self.r.random() < gets:
                    ops.append(self.getter(0))
            if self.r.random() < 0.8 or not any(o["op"] == "mk" and o["f"] == 1 for o in ops):
                ops.append(self.mkfile(1, small=True))
            ops += [dict(op="write", f=1, h=0), dict(op="read", h=1, f=1)]
            if self.r.random() < 0.3:
                ops.append(dict(op="readfb", h=2, f=1))
        return dict(ops=ops)

    def sc_edits(self, n):
        ops = []
        self.start(0, 0, ops, small=True, p_read=0.4)
        for _ in range(self.r.randrange(1, n + 1)):
            ops.append(self.edit(0, 0, True))
            if self.r.random() < 0.5:
                ops.append(self.getter(0))
            elif self.r.random() < 0.15:
                ops.append(self.holder(0))
        return dict(ops=ops)

    def sc_giant(self, sizes, ver=None):
        """one very large frame between small ones"""
        r = self.r
        n = r.choice(sizes)
        ver = ver or r.choice([3, 4])
        small = [self.frame(ver) for _ in range(2)]
        ops = [dict(op="mk", f=0, b=rle(self.tag(ver=ver, frames=small) + b"audio")), dict(op="read", h=0, f=0)]
        data = self.runs(20, list(range(256))) + b"\0" * (n // 2) + b"\x7f" * (n - n // 2)
        k = r.randrange(3)
        if k == 0:
            ops.append(dict(op="set_cover", h=0, mime=rle(b"image/png"), pic=rle(data)))
        elif k == 1:
            ops.append(dict(op="setn", h=0, name="title", text=rle(b"a" * 10 + b"b" * n)))
        else:
            ops.append(dict(op="set_comm", h=0, lang=rle(b"eng"), comm=rle(b"c" * n)))
        ops += [dict(op="setn", h=0, name="genre", text=rle(b"g")), dict(op="write", f=0, h=0), dict(op="read", h=1, f=0),
                dict(op="deln", h=1, name=["cover", "title", "comment"][k]), dict(op="write", f=0, h=1), dict(op="read", h=0, f=0)]
        return dict(ops=ops)

    def giant_body(self, fid, ver, n):
        r = self.r
        data = self.runs(15, list(range(1, 256))) + b"\x41" * (n // 3) + b"\x7f\x20" * 5 + b"\x30" * (n - n // 3 - 25)
        if fid[0] == "T":
            return r.choice([b"\0" + data, b"\x01\xff\xfe" + b"A\0" + b"\x30" * (n // 2 * 2)])
        if fid == "COMM":
            return r.choice([b"\0eng" + data[: n // 2] + b"\0" + data[n // 2:], b"\0spa\0" + data + b"\0"])
        if fid == "APIC":
            return b"\0image/png\0\x03desc\0" + data[:20] + b"\0" * 700 + data
        return data + b"\0" * 5000

    def sc_giantread(self, sizes):
        """a very large frame made by another writer"""
        r = self.r
        ver = r.choice([3, 4])
        fid = r.choice(["TIT2", "COMM", "APIC", "PRIV"])
        b = self.giant_body(fid, ver, r.choice(sizes))
        f = fid.encode() + (sync(len(b)) if ver == 4 else be(len(b))) + b"\0\0" + b
        t = self.tag(ver=ver, frames=[self.frame(ver), f, self.frame(ver)])
        ops = [dict(op="mk", f=0, b=rle(t + b"audio")), dict(op="read", h=0, f=0), dict(op="readfb", h=1, f=0), dict(op="hdr", f=0),
               dict(op="setn", h=0, name="genre", text=rle(b"g")), dict(op="write", f=0, h=0), dict(op="read", h=2, f=0)]
        if r.random() < 0.5:
            ops += [dict(op="c_load", c=0, f=0), dict(op="c_get", c=0, name=dict(TIT2="title", COMM="comment", APIC="cover").get(fid, "title"))]
        ops.append(dict(op="del", f=0))
        return dict(ops=ops)

    def sc_colossal(self, sizes):
        """sizes that reach the topmost bits of the size fields (the format ends at 2^28)"""
        r = self.r
        n = r.choice(sizes) + r.randrange(64)
        k = r.randrange(3)
        ops = [dict(op="mk", f=0, b=rle(b"audio"))]
        if k == 0:
            ops += [dict(op="new", h=0, pad=n), dict(op="setn", h=0, name="title", text=rle(b"t"))]
        elif k == 1:
            ops += [dict(op="newe", h=0), dict(op="set_cover", h=0, mime=rle(b"image/png"), pic=[[7, 1], [0, n - 2], [9, 1]])]
        else:
            v = r.choice([3, 4])
            f = self.frame(v, "PRIV")
            h = b"ID3" + bytes([v, 0, 0]) + sync(n + len(f)) + f
            ops = [dict(op="mk", f=0, b=rle(h)[:-1] + [[rle(h)[-1][0], rle(h)[-1][1]]] + [[0, n]] + [[65, 1]] if h[-1] else rle(h)[:-1] + [[0, rle(h)[-1][1] + n], [65, 1]]),
                   dict(op="read", h=0, f=0), dict(op="hdr", f=0)]
        return dict(ops=ops + [dict(op="write", f=0, h=0), dict(op="hdr", f=0), dict(op="read", h=1, f=0)] + ([dict(op="del", f=0)] if k else []))

    def sc_bigaudio(self, sizes):
        """a large file"""
        r = self.r
        n = r.choice(sizes)
        a = self.runs(40, list(range(256))) + bytes([r.choice([0, 255, 10, 13, 26])]) * n + self.runs(40, list(range(256)))
        ops = [dict(op="mk", f=0, b=rle((self.tag() if r.random() < 0.6 else b"") + a)), dict(op="read", h=0, f=0), dict(op="newe", h=1), self.setter(1),
               dict(op="write", f=0, h=1), dict(op="read", h=2, f=0), dict(op="write", f=0, h=2), dict(op="del", f=0), dict(op="del", f=0)]
        return dict(ops=ops)

    def sc_audio(self):
        r = self.r
        ops = [dict(op="mk", f=0, b=rle(self.content(p_tag=0.6, big=0.3)))]
        if r.random() < 0.15:  # tag that announces more than the file holds
            b = self.tag()
            ops = [dict(op="mk", f=0, b=rle(b[: r.randrange(10, len(b) + 1)]))]
        self.start(0, 1, ops, small=True)
        for _ in range(r.randrange(1, 7)):
            k = r.randrange(8)
            if k <= 2:
                ops.append(dict(op="write", f=0, h=0))
            elif k <= 4:
                ops.append(dict(op="del", f=0))
            elif k == 5:
                ops.append(dict(op="read", h=0, f=0))
            else:
                ops.append(self.edit(0))
        ops += [dict(op="del", f=0)] * r.choice([0, 1, 2])
        return dict(ops=ops)

    def sc_coincide(self):
        """the tag to be written is as long as the one in the file, or nearly, with the ends of both in all positions"""
        r = self.r
        d = r.choice([0, 0, 0, 10, -10, 1, -1, 9, 11, -9, -11, 20, -20])
        ver, foot = r.choice([3, 4]), r.random() < 0.5
        a = r.choice([b"", b"a", b"3DI", b"ID3", b"\0\0\0", self.audio()])

        def one(fid, n, v):
            return fid + (sync(n - 10) if v == 4 else be(n - 10)) + b"\0\0" + self.runs(n - 10, [1, 65, 90, 255])

        if r.random() < 0.4:  # the file's own tag, less a frame the size of the padding it will get
            n = 2048 + d
            fs = [one(b"PRIV", r.choice([11, 30, 400]), ver), one(b"GEOB", n, ver), self.frame(ver, "TIT2")]
            r.shuffle(fs)
            ops = [dict(op="mk", f=0, b=rle(self.tag(ver, fs, ext=False, foot=foot, pad=0) + a)), dict(op="read", h=0, f=0),
                   dict(op="del_frame", h=0, id=q("GEOB"))]
        else:
            v = r.choice([3, 4])
            text = self.iso(r.choice([0, 1, 5, 100]))
            n = 2048 + 12 + len(text) + d
            pad = 0 if foot else r.choice([0, 0, 1, 10, 1000])
            ops = [dict(op="mk", f=0, b=rle(self.tag(ver, [one(b"PRIV", n - pad, ver)], ext=False, foot=foot, pad=pad) + a)),
                   dict(op="readb", h=0, b=rle(b"ID3" + bytes([v, 0, 0, 0, 0, 0, 0]))), dict(op="setn", h=0, name="title", text=rle(text))]
        ops += [dict(op="write", f=0, h=0)] + r.choice([[], [dict(op="write", f=0, h=0)]])
        ops += [dict(op="read", h=1, f=0)] + r.choice([[], [dict(op="write", f=0, h=1)]]) + [dict(op="del", f=0)]
        return dict(ops=ops)

    def sc_wellformed(self):
        sc = self.sc_history(5, big=0.1)
        return sc

    def sc_foreign(self, big=0.05):
        r = self.r
        b = self.tag(big=big)
        a = self.audio()
        k = r.randrange(3)
        if k == 0:
            ops = [dict(op="mk", f=0, b=rle(b + a)), dict(op="read", h=0, f=0)]
        elif k == 1:
            ops = [dict(op="readb", h=0, b=rle(b + (a if r.random() < 0.5 else b"")))]
        else:
            ops = [dict(op="mk", f=0, b=rle(b + a)), dict(op="readfb", h=0, f=0), dict(op="read", h=1, f=0)]
        return dict(ops=ops)

    def sc_many(self, lo=30, hi=300):
        """tags with very many frames"""
        r = self.r
        n = r.choice([lo, r.randrange(lo, hi), hi])
        ver = r.choice([3, 4])
        pool = [self.frame(ver) for _ in range(12)]
        pool = [f for f in pool if len(f) < 60] or [b"PRIV" + be(1) + b"\0\0x"]
        if r.random() < 0.5:  # mostly of one kind
            kind = r.choice(["COMM", "APIC", "TIT2", "TXXX", "PRIV"])
            one = [f for f in [self.frame(ver, kind) for _ in range(8)] if len(f) < 60]
            pool = (one or pool) * 9 + pool[:1]
            n = r.choice([n, 254, 255, 256, 257]) if hi >= 257 else n
            b = self.tag(ver=ver, frames=[r.choice(pool) for _ in range(n)])
            ops = [dict(op="mk", f=0, b=rle(b + self.audio())), dict(op="read", h=0, f=0)]
            for _ in range(r.randrange(2, 6)):
                ops.append(r.choice([dict(op="del_ci", h=0, k=r.choice([0, 126, 127, 128, 254, 255, 256, n - 1, n])), dict(op="del_ai", h=0, k=r.choice([0, 127, 128, 254, 255, 256, n - 1, n])),
                                     self.setter(0), self.edit(0), dict(op="getcs", h=0), dict(op="getas", h=0), dict(op="gets", h=0, id=q(kind))]))
            return dict(ops=ops + [dict(op="write", f=0, h=0), dict(op="read", h=1, f=0), dict(op="c_load", c=0, f=0)])
        b = self.tag(ver=ver, frames=[r.choice(pool) for _ in range(n)])
        ops = [dict(op="mk", f=0, b=rle(b + self.audio())), dict(op="read", h=0, f=0), self.getter(0), self.edit(0), self.setter(0), dict(op="getcs", h=0),
               dict(op="write", f=0, h=0), dict(op="read", h=1, f=0)]
        return dict(ops=ops)

    def sc_preserve(self):
        r = self.r
        ver = r.choice([3, 4])
        n = r.randrange(1, 6)
        b = self.tag(ver=ver, frames=[self.frame(ver, big=0.05) for _ in range(n)])
        ops = [dict(op="mk", f=0, b=rle(b + self.audio())), dict(op="read", h=0, f=0)]
        for _ in range(r.randrange(0, 4)):
            ops.append(self.edit(0))
        ops += [dict(op="write", f=0, h=0), dict(op="read", h=1, f=0)]
        if r.random() < 0.4:
            ops += [self.edit(1), self.mkfile(1), dict(op="write", f=1, h=1), dict(op="read", h=2, f=1)]
        return dict(ops=ops)

    def mutate(self, b):
        r = self.r
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(9)
            if not b:
                break
            p = r.randrange(len(b))
            if k == 0:
                b[p] = r.randrange(256)
            elif k == 1:
                b = b[:p]
            elif k == 2:
                del b[p:p + r.choice([1, 2, 4])]
            elif k == 3:
                b[p:p] = bytes(r.choice([0, 255, 65]) for _ in range(r.choice([1, 2, 10])))
            elif k == 4 and len(b) > 20:  # a frame size field
                w = bytes(b)
                off = [i for i in range(10, len(w) - 10) if w[i:i + 4].isalnum() and w[i:i + 4].upper() == w[i:i + 4]]
                if off:
                    o = r.choice(off) + 4
                    old = int.from_bytes(w[o:o + 4], "big")
                    b[o:o + 4] = r.choice([be(0), be(old + 1), be(max(0, old - 1)), be(0x7FFFFFFF), be(0xFFFFFFFF), be(0x80000000), be(0x7F7F7F7F),
                                           be(0xFFFFFFF6), be(len(w)), be(0x00FFFFFF), be(1), be(2), be(3), be(4), be(5), be(0x0000FF00)])
            elif k == 5 and len(b) >= 10:  # tag size
                b[6:10] = r.choice([sync(0), sync(5), sync(9), sync(10), sync(11), sync(len(b)), sync(max(0, len(b) - 11)), sync((1 << 28) - 1), sync(100000)])
            elif k == 6 and len(b) >= 10:
                b[5] = r.choice([0x40, 0x10, 0x50, 0xFF, 0x80])
            elif k == 7 and len(b) >= 14:
                b[10:14] = r.choice([be(0), be(0xFFFFFFFF), be(0x7FFFFFFF), be(0x80000000), be(7), be(len(b))])
            else:
                z = [i for i in range(10, len(b)) if b[i] == 0]
                if z:
                    b[r.choice(z)] = r.choice([65, 255, 1])
        return bytes(b)

    @staticmethod
    def declared(b):
        return ((b[6] & 127) << 21 | (b[7] & 127) << 14 | (b[8] & 127) << 7 | b[9] & 127) if len(b) >= 10 else 0

    def use(self, h, f, b):
        """use of whatever was read: queries, edits, a write when the declared size is moderate"""
        r = self.r
        ops = [self.getter(h)] if r.random() < 0.5 else []
        if r.random() < 0.5:
            ops += [self.edit(h) for _ in range(r.randrange(1, 3))]
        if self.declared(b) < 200000 and r.random() < 0.5:
            ops += [dict(op="mk", f=f, b=rle(b"audio")), dict(op="write", f=f, h=h), dict(op="read", h=h, f=f)]
        if r.random() < 0.3:
            ops.append(dict(op="free", h=h))
        return ops

    def small_tag(self, **kw):
        for _ in range(50):
            b = self.tag(small=True, n=self.r.choice([1, 2, 3]), **kw)
            if len(b) < 400:
                return b
        return self.tag(ver=3, frames=[self.frame(3, "TIT2")], pad=3)[:400]

    def sc_garbage(self):
        r = self.r
        ops = []
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(11)
            if k == 0:
                b = bytes(r.randrange(256) for _ in range(r.randrange(0, 60)))
            elif k == 10:
                b = self.odd_tag()
                b = b if len(b) < 600 else b[:300]
            elif k == 1:
                b = b"ID3" + bytes([r.choice([3, 4]), 0, r.choice([0, 0x40, 0x10])]) + sync(r.choice([0, 10, 30, 60, 1000])) + bytes(r.choice([0, 1, 65, 84, 67, 255]) for _ in range(r.randrange(0, 80)))
            elif k == 2:
                b = b"ID3" + bytes([r.choice([3, 4]), 0, 0]) + sync(r.choice([20, 60])) + r.choice([b"TIT2", b"COMM", b"APIC", b"PRIV"]) + r.choice([be(0), be(1), be(2), be(4), be(5), be(8), be(40)]) + b"\0\0" + bytes(r.choice([0, 0, 1, 65, 255]) for _ in range(r.randrange(0, 60)))
            elif k == 3:  # a very short frame at the very end
                v = r.choice([3, 4])
                n = r.randrange(0, 7)
                fs = (self.frame(v, "TIT2") if r.random() < 0.3 else b"") + r.choice([b"TIT2", b"TXXX", b"COMM", b"APIC", b"PRIV"]) + be(n) + b"\0\0" + bytes(r.choice([0, 1, 2, 65, 255]) for _ in range(n))
                b = b"ID3" + bytes([v, 0, 0]) + sync(len(fs)) + fs + r.choice([b"", b"", b"\xff\xfb"])
                b = b if len(b) < 600 else b[:200]
            else:
                b = self.mutate(self.small_tag())
            if r.random() < 0.5 and len(b) < 600:
                ops += [dict(op="readb", h=0, b=rle(b))]
            else:
                ops += [dict(op="mk", f=0, b=rle(b)), dict(op="read", h=0, f=0)]
                if r.random() < 0.2:
                    ops.append(dict(op="hdr", f=0))
                if r.random() < 0.4:
                    ops.append(r.choice([dict(op="readfb", h=2, f=0), dict(op="read", h=2, f=0)]))
            ops += self.use(0, 1, b)
        return dict(ops=ops)

    def sc_truncations(self, step=1):
        b = self.small_tag()
        ops = []
        off = self.r.randrange(step)
        for n in list(range(off, len(b) + 1, step)):
            x = self.r.random()
            if x < 0.4:
                ops.append(dict(op="readb", h=0, b=rle(b[:n])))
            else:
                ops += [dict(op="mk", f=0, b=rle(b[:n])), dict(op="read", h=0, f=0)]
                if x < 0.6:
                    ops.append(dict(op="readfb", h=1, f=0))
        return dict(ops=ops)

    def sc_header(self):
        r = self.r
        ops = []
        for _ in range(r.randrange(2, 8)):
            k = r.randrange(8)
            size = sync(r.choice([0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, r.randrange(1 << 28)]))
            b = b"ID3" + bytes([r.choice([3, 4]), r.choice([0, 0, 1, 255, r.randrange(256)]), r.randrange(256) & ~0x40]) + size
            if k == 0:
                b = b[: r.randrange(0, 10)]
            elif k == 1:
                i = r.randrange(3)
                b = b[:i] + bytes([r.choice([0, b[i] ^ 0x20, b[i] + 1, 255, r.randrange(256)])]) + b[i + 1:]
            elif k == 2:
                b = b[:3] + bytes([r.choice([0, 1, 2, 5, 6, 0x83, 255, 0x33, r.randrange(256)])]) + b[4:]
            elif k == 3:
                b = self.tag(small=True)
            ops.append(dict(op="mk", f=0, b=rle(b)))
            ops.append(dict(op="hdr", f=0))
            if len(b) >= 10:
                ops.append(dict(op="hdrb", b=rle(b[: r.choice([10, 10, len(b)])])))
            ops += [dict(op="read", h=0, f=0), dict(op="readfb", h=1, f=0)]
        if r.random() < 0.2:
            ops += [dict(op="rm", f=0), dict(op="hdr", f=0), dict(op="read", h=0, f=0)]
        return dict(ops=ops)

    def sc_absent(self):
        r = self.r
        ops = []
        self.start(0, 0, ops, small=True, p_read=0.4)
        for _ in range(r.randrange(0, 3)):
            ops.append(self.edit(0))
        for _ in range(r.randrange(2, 7)):
            k = r.randrange(9)
            if k == 0:
                ops.append(dict(op="del_frame", h=0, id=q(r.choice(["ZZZZ", "TABC", "COMM", "APIC", "TIT2"]))))
            elif k == 1:
                ops.append(dict(op="deln", h=0, name=r.choice(NAMES + ["comment", "cover"])))
            elif k == 2:
                ops.append(dict(op=r.choice(["del_ci", "del_ai"]), h=0, k=r.choice([0, 1, 2, r.choice(IDX), r.choice(IDX)])))
            elif k == 3:
                ops.append(self.getter(0))
            elif k == 4:
                ops.append(r.choice([dict(op="getnull"), self.getter(3), dict(op="c_get", c=3, name=r.choice(NAMES + ["comment", "cover"])),
                                     dict(op="write", f=r.choice([1, 2]), h=3), dict(op="c_write", f=r.choice([1, 2]), c=3)]))
            elif k == 5:
                ops += [dict(op="rm", f=1), r.choice([dict(op="write", f=1, h=0), dict(op="del", f=1), dict(op="writenull", f=1), dict(op="read", h=1, f=1)])]
            elif k == 6:
                ops += [dict(op="mk", f=1, b=rle(self.audio())), r.choice([dict(op="del", f=1), dict(op="writenull", f=1)])]
            elif k == 7:
                ops += [self.mkfile(1, small=True), dict(op="writenull", f=1), dict(op="del", f=1), dict(op="del", f=1)]
            else:
                ops.append(self.setter(0))
        ops += [self.setter(0), self.mkfile(2, small=True), dict(op="write", f=2, h=0), dict(op="read", h=1, f=2)]
        return dict(ops=ops)

    def sc_owner(self):
        r = self.r
        ops = []
        self.start(0, 0, ops, p_read=0.6)
        for _ in range(r.randrange(1, 9)):
            k = r.randrange(12)
            if k <= 4:
                ops.append(self.edit(0, 0.02, True))
            elif k == 5:
                ops.append(self.alias(0))
            elif k == 6:
                ops.append(self.getter(0))
            elif k == 7:
                ops += [self.holder(0), self.edit(0, 0, True), dict(op="held", h=0)]
            elif k == 8:
                ops += [self.mkfile(1, small=True), dict(op="write", f=1, h=0)]
            elif k == 9:
                ops += [self.mkfile(1, small=True), r.choice([dict(op="hdr", f=1), dict(op="del", f=1), dict(op="read", h=1, f=1), dict(op="newh", h=2, f=1, pad=0)])]
            elif k == 10:
                b = self.mutate(self.small_tag())
                ops.append(dict(op="readb", h=2, b=rle(b)))
            else:
                ops.append(dict(op="readb", h=1, b=rle(self.tag())))
        if r.random() < 0.3:
            ops.append(dict(op="free", h=0))
        return dict(ops=ops)

    def c_setter(self, c):
        r = self.r
        k = r.randrange(8)
        if r.random() < 0.12:
            return dict(op="c_alias", c=c, name=r.choice(NAMES[:3] + ["comment", "cover"]))
        if k <= 4:
            return dict(op="c_set", c=c, name=r.choice(NAMES + ["comment", "comment"]), text=rle(self.string()))
        if k <= 6:
            return dict(op="c_coverb", c=c, mime=rle(self.mime()), pic=rle(self.pic()))
        absent = r.random() < 0.15
        d = dict(op="c_cover", c=c, fname=q(r.choice(["cover.png", "cover.jpg", "x.jpeg", "noext", "png", "a.b.png", "x.pn", "x.pngx", "x.pnm", "a.png.jpg", "x.", ".png", "x.jpg.png", "x.png.", "x.gif", "xpng", "p.jpng"])), pic=[] if absent else rle(self.pic()))
        d["absent"] = 1 if absent else 0
        return d

    def sc_compat(self):
        r = self.r
        ops = []
        k = r.randrange(6)
        if k == 0:
            ops.append(dict(op="c_new", c=0))
        elif k == 1:
            ops += [self.mkfile(0, p_tag=0.3), dict(op="c_load", c=0, f=0)]
        elif k == 2:
            ops += [dict(op="c_loadb", c=0, b=rle(self.tag(small=True)))]
        elif k == 3:
            ops += [dict(op="c_loadb", c=0, b=rle(self.audio()))] if r.random() < 0.2 else [dict(op="c_load", c=0, f=3)]
        else:
            ops += [dict(op="mk", f=0, b=rle(self.tag() + self.audio())), dict(op="c_load", c=0, f=0)]
        if k == 3:
            ops.append(dict(op="c_new", c=0))
        if r.random() < 0.12:  # damaged input
            b = self.mutate(self.small_tag())
            by_file = r.random() < 0.5
            ops += [dict(op="mk", f=2, b=rle(b)), dict(op="c_load", c=0, f=2)] if by_file else [dict(op="c_loadb", c=0, b=rle(b))]
            if r.random() < 0.5:
                ops.append(dict(op="read", h=3, f=2) if by_file else dict(op="readb", h=3, b=rle(b)))
            if self.declared(b) > 200000:
                return dict(ops=ops)
        for _ in range(r.randrange(1, 8)):
            x = r.randrange(10)
            if x <= 4:
                ops.append(self.c_setter(0))
            elif x <= 7:
                ops.append(dict(op="c_get", c=0, name=r.choice(NAMES + ["comment", "cover"])))
            elif x == 8:
                ops += [self.mkfile(1, small=True), dict(op="c_write", f=1, c=0), dict(op="read", h=0, f=1)]
                if r.random() < 0.5:
                    ops += [dict(op="c_load", c=1, f=1), dict(op="c_get", c=1, name=r.choice(NAMES))]
                if r.random() < 0.3:
                    ops += [dict(op="c_del", f=1), dict(op="c_load", c=1, f=1)]
            else:
                ops.append(r.choice([dict(op="c_del", f=3), dict(op="c_write", f=3, c=0), dict(op="c_load", c=2, f=3),
                                     dict(op="c_get", c=3, name=r.choice(NAMES + ["comment", "cover"])), dict(op="c_write", f=r.choice([0, 1]), c=3)]))
        if r.random() < 0.3:
            ops.append(dict(op="c_free", c=0))
        return dict(ops=ops)

    def sc_save(self):
        r = self.r
        ops = []
        if r.random() < 0.5:
            ops += [self.mkfile(0)]
            self.start(0, 1, ops)
        else:
            b = self.tag() + self.audio()
            ops += [dict(op="mk", f=0, b=rle(b)), dict(op="read", h=0, f=0)]
        for _ in range(r.randrange(0, 4)):
            ops.append(self.edit(0))
        ops.append(dict(op="write", f=0, h=0))
        for _ in range(r.randrange(1, 5)):
            k = r.randrange(3)
            if k == 0:
                ops.append(dict(op="write", f=0, h=0))
            elif k == 1:
                ops += [dict(op="read", h=0, f=0), dict(op="write", f=0, h=0)]
            else:
                ops += [dict(op="read", h=1, f=0), dict(op="write", f=0, h=1)]
        if r.random() < 0.5:
            ops.append(dict(op="del", f=0))
        return dict(ops=ops)

    def sc_text(self):
        r = self.r
        ops = []
        for _ in range(r.randrange(3, 10)):
            k = r.randrange(4)
            n = r.choice([None, None, r.randrange(0, 140), r.choice(EDGE) if r.random() < 0.9 else r.choice(EDGE_BIG)])
            if k == 0:
                s = self.iso(n)
            elif k == 1:
                s = self.uni(n, bom=BOM_LE)
            elif k == 2:
                s = self.uni(n, bom=BOM_BE)
            else:
                s = r.choice([b"", b"\xff", b"\xfe", b"\xfe\xfe", b"\xff\xff", b"\xffA", b"A\xff\xfe", BOM_LE, BOM_BE, bytes([r.randrange(1, 256)])])
            if k in (0, 3) and len(s) <= 70000:
                ops.append(dict(op="tou", b=rle(s)))
            elif k in (1, 2):
                ops.append(dict(op="tou", b=rle(s)))
            ops.append(dict(op="slen", b=rle(s)))
        return dict(ops=ops)

    def sc_sizes(self):
        ops = []
        self.start(0, 0, ops)
        for _ in range(self.r.randrange(1, 9)):
            x = self.r.random()
            if x < 0.75:
                ops.append(self.edit(0, 0.05, True))
            elif x < 0.9:
                ops += [self.mkfile(1, small=True), dict(op="write", f=1, h=0)]
            else:
                ops += [self.mkfile(1), dict(op="read", h=1, f=1)]
        return dict(ops=ops)

    def any_op(self, h, f):
        r = self.r
        k = r.randrange(12)
        if k <= 4:
            return [self.edit(h)]
        if k <= 6:
            return [self.getter(h)]
        if k == 7:
            return [dict(op="write", f=f, h=h)]
        if k == 8:
            return [dict(op="read", h=h, f=f)]
        if k == 9:
            return [self.mkfile(f, small=True)]
        if k == 10:
            return [dict(op="del", f=f)]
        return [dict(op="hdr", f=f)]

    def sc_interleave(self):
        r = self.r
        ops = []
        for h in range(3):
            ops += [self.mkfile(h, small=True)] if r.random() < 0.8 else []
            self.start(h, 3, ops, small=True, p_read=0.5)
        ops.append(r.choice([dict(op="c_new", c=0), dict(op="c_loadb", c=0, b=rle(self.tag(small=True)))]))
        for _ in range(r.randrange(6, 16)):
            if r.random() < 0.15:
                ops.append(self.c_setter(0))
            else:
                ops += self.any_op(r.randrange(3), r.randrange(3))
        return dict(ops=ops, full=True)

    def sc_query(self):
        r = self.r
        ops = [self.mkfile(1, p_tag=0.8, small=True)]
        self.start(0, 0, ops, p_read=0.7)
        for _ in range(r.randrange(4, 12)):
            k = r.randrange(10)
            if k <= 4:
                ops.append(self.getter(0))
            elif k == 9:  # both interfaces on the same bytes
                ops += [r.choice([dict(op="c_load", c=0, f=1), dict(op="c_loadb", c=0, b=rle(r.choice([self.tag(small=True), self.odd_tag()])))])]
                ops += [dict(op="c_get", c=0, name=r.choice(NAMES + ["comment", "comment", "cover", "cover"])) for _ in range(r.randrange(1, 4))]
            elif k == 5:
                ops += [dict(op="read", h=1, f=1), dict(op="hdr", f=1)]
            elif k == 6:
                ops.append(dict(op="readfb", h=2, f=1))
            elif k == 7:
                ops.append(self.setter(0))
            else:
                ops.append(dict(op="write", f=1, h=0))
        return dict(ops=ops, full=True)

    def sc_thread(self, n):
        """a script for one thread: everything on its own tags and files"""
        scs = []
        for _ in range(n):
            scs.append(self.r.choice([lambda: self.sc_history(5), self.sc_audio, self.sc_compat, lambda: self.sc_edits(8), self.sc_save, self.sc_text, self.sc_garbage, self.sc_header])())
        return scs
