/*
 * Conformance driver: executes scripts of public-API calls on the real library and logs, per call, the result and
 * the projected state (see spec/TraceLib.tla for the meaning of every field).  Only include/id3v2lib*.h is used.
 *
 * usage: driver SCRIPT LOG SCRATCHDIR [FIRST_SCENARIO]
 *        driver -t SCRATCHDIR SCRIPT LOG [SCRIPT LOG]...      one thread per pair
 *
 * Script: one call per line, blank-separated tokens; "S n [full]" starts scenario n (all objects of the previous
 * one are released first).  Byte strings are tokens such as 41.00*3.FF ("-" is empty).
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/capability.h>
#include <unistd.h>

#include "id3v2lib.compat.h"

#define NSLOT 4
#define MAXFR 4096

/* ---------- allocation accounting (AddressSanitizer hooks) ---------- */
static __thread int in_lib = 0;
static int use_hooks = 0;
#define LIVE_CAP (1 << 20)
static const void* live_tab[LIVE_CAP];
static long live_n = 0;
#ifdef WITH_ASAN
int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
static unsigned slot_of(const void* p)
{
    uint64_t x = (uint64_t) (uintptr_t) p;
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33;
    return (unsigned) (x & (LIVE_CAP - 1));
}
static void on_malloc(const volatile void* vp, size_t n)
{
    (void) n;
    if (!in_lib || !use_hooks || vp == NULL || live_n > LIVE_CAP / 2) return;
    unsigned i = slot_of((const void*) vp);
    while (live_tab[i] != NULL) i = (i + 1) & (LIVE_CAP - 1);
    live_tab[i] = (const void*) vp;
    live_n++;
}
static void on_free(const volatile void* vp)
{
    if (!use_hooks || vp == NULL) return;
    unsigned i = slot_of((const void*) vp);
    while (live_tab[i] != NULL && live_tab[i] != (const void*) vp) i = (i + 1) & (LIVE_CAP - 1);
    if (live_tab[i] == NULL) return;
    /* delete with back-shift */
    unsigned j = i;
    for (;;)
    {
        j = (j + 1) & (LIVE_CAP - 1);
        if (live_tab[j] == NULL) break;
        unsigned k = slot_of(live_tab[j]);
        if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
        live_tab[i] = live_tab[j];
        i = j;
    }
    live_tab[i] = NULL;
    live_n--;
}
#endif
#define LIB(stmt) do { in_lib = 1; stmt; in_lib = 0; } while (0)

/* ---------- byte strings ---------- */
typedef struct { unsigned char* p; long n; } Bytes;

static Bytes parse_bytes(const char* t)
{
    Bytes b = {NULL, 0};
    long cap = 0;
    if (strcmp(t, "-") == 0) { b.p = malloc(1); return b; }
    while (*t)
    {
        char* e;
        unsigned v = (unsigned) strtoul(t, &e, 16);
        long cnt = 1;
        if (*e == '*') cnt = strtol(e + 1, &e, 10);
        if (b.n + cnt > cap) { cap = (b.n + cnt) * 2 + 16; b.p = realloc(b.p, cap); }
        memset(b.p + b.n, (int) v, cnt);
        b.n += cnt;
        t = *e == '.' ? e + 1 : e;
    }
    if (b.p == NULL) b.p = malloc(1);
    return b;
}
static int is_bom(const unsigned char* p, long n)
{
    return n >= 2 && ((p[0] == 0xFF && p[1] == 0xFE) || (p[0] == 0xFE && p[1] == 0xFF));
}
/* an exactly sized heap copy with `term` zero bytes after the content */
static char* exact(Bytes b, int term)
{
    char* r = malloc(b.n + term ? b.n + term : 1);
    memcpy(r, b.p, b.n);
    memset(r + b.n, 0, term);
    return r;
}
static char* cstr(Bytes b) { return exact(b, is_bom(b.p, b.n) ? 2 : 1); }
/* Arguments the interface takes as const: in every other call they lie in read-only memory which ends where they end
   and is gone after the call, so a library that writes to them, reads past them or keeps them does not get away with it */
#define NRO 8
static __thread struct { char *at, *base; size_t len; } ro_tab[NRO];
static __thread int ro_args;
static char* ro(Bytes b, int term)
{
    int k = 0;
    while (k < NRO && ro_tab[k].at != NULL) k++;
    if (!ro_args || k == NRO || b.n + term == 0 || b.n > (1 << 20)) return exact(b, term);
    size_t pg = 4096, need = b.n + term, len = (need + pg - 1) / pg * pg + pg;
    char* m = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return exact(b, term);
    char* r = m + len - pg - need;
    memcpy(r, b.p, b.n);
    memset(r + b.n, 0, term);
    mprotect(m, len - pg, PROT_READ);
    mprotect(m + len - pg, pg, PROT_NONE);
    ro_tab[k].at = r; ro_tab[k].base = m; ro_tab[k].len = len;
    return r;
}
static char* rostr(Bytes b) { return ro(b, is_bom(b.p, b.n) ? 2 : 1); }
static void scrap(char* p, long n)
{
    for (int k = 0; k < NRO; k++)
        if (ro_tab[k].at == p) { munmap(ro_tab[k].base, ro_tab[k].len); ro_tab[k].at = NULL; return; }
    memset(p, 0xEE, n);
    free(p);
}

/* ---------- context ---------- */
typedef struct
{
    ID3v2_Tag* tag[NSLOT];
    ID3v2_Frame** prev[NSLOT];
    int nprev[NSLOT];
    ID3v2_tag* ctag[NSLOT];
    ID3v2_FrameList* held;
    char dir[512];
    int rel; /* the scratch directory is the working directory */
    int full;
    int fds0;
    char* buf; size_t len, cap;
    int logfd;
} Ctx;

static void out(Ctx* c, const char* s, size_t n)
{
    if (c->len + n + 1 > c->cap) { c->cap = (c->len + n + 1) * 2; c->buf = realloc(c->buf, c->cap); }
    memcpy(c->buf + c->len, s, n);
    c->len += n;
}
static void outs(Ctx* c, const char* s) { out(c, s, strlen(s)); }
static void outi(Ctx* c, long v) { char t[32]; int n = snprintf(t, sizeof t, "%ld", v); out(c, t, n); }
static void outkv(Ctx* c, const char* k, long v) { outs(c, "\""); outs(c, k); outs(c, "\":"); outi(c, v); }
static void outrle(Ctx* c, const unsigned char* p, long n)
{
    outs(c, "[");
    for (long i = 0; i < n;)
    {
        long j = i + 1;
        while (j < n && p[j] == p[i]) j++;
        if (i) outs(c, ",");
        outs(c, "["); outi(c, p[i]); outs(c, ","); outi(c, j - i); outs(c, "]");
        i = j;
    }
    outs(c, "]");
}
static void flush_log(Ctx* c)
{
    size_t o = 0;
    outs(c, "\n");
    while (o < c->len)
    {
        ssize_t w = write(c->logfd, c->buf + o, c->len - o);
        if (w <= 0) _exit(97);
        o += w;
    }
    c->len = 0;
}

static int nfds(void)
{
    int n = 0;
    for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++;
    return n;
}
/* descriptors more than at the start; the sanitizer's background thread opens one for a moment now and then */
static int fds_left(int fds0)
{
    int n = nfds() - fds0;
    for (int k = 0; n != 0 && k < 20; k++)
    {
        usleep(500);
        int m = nfds() - fds0;
        if (abs(m) < abs(n)) n = m;
    }
    return n;
}
/* names of different shapes: plain, very long, odd characters, relative without extension */
static void fname(Ctx* c, int k, char* dst)
{
    if (k == 0) snprintf(dst, 1000, "%s/f0.mp3", c->dir);
    else if (k == 1) snprintf(dst, 1000, "%s/%0220d.mp3", c->dir, 1);
    else if (k == 2) snprintf(dst, 1000, "%s/o dd %%s%%n \xc3\xa9;'$.tmp", c->dir);
    else if (c->rel) snprintf(dst, 1000, "slot3");
    else snprintf(dst, 1000, "%s/slot3", c->dir);
}
/* files get an old modification time before a call; which of them have another one afterwards */
static const struct timespec OLD[2] = {{1000000000, 0}, {1000000000, 0}};
static void stamp(Ctx* c)
{
    char fn[1000];
    for (int k = 0; k < NSLOT; k++) { fname(c, k, fn); utimensat(AT_FDCWD, fn, OLD, 0); }
}
static int touched(Ctx* c, int but)
{
    char fn[1000];
    struct stat st;
    int n = 0;
    for (int k = 0; k < NSLOT; k++)
    {
        fname(c, k, fn);
        if (k != but && stat(fn, &st) == 0) n += st.st_mtim.tv_sec != OLD[0].tv_sec;
    }
    return n;
}
static Bytes slurp(const char* path, int* exists)
{
    Bytes b = {NULL, 0};
    int fd = open(path, O_RDONLY);
    *exists = fd >= 0;
    if (fd < 0) return b;
    struct stat st;
    fstat(fd, &st);
    b.p = malloc(st.st_size + 1);
    while (b.n < st.st_size)
    {
        ssize_t r = read(fd, b.p + b.n, st.st_size - b.n);
        if (r <= 0) break;
        b.n += r;
    }
    close(fd);
    return b;
}
static void spit(const char* path, Bytes b)
{
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    long o = 0;
    while (o < b.n) { ssize_t w = write(fd, b.p + o, b.n - o); if (w <= 0) _exit(96); o += w; }
    close(fd);
}

/* ---------- projection ---------- */
static long term_len(const char* s, int wide) /* length without terminator */
{
    if (!wide) return (long) strlen(s);
    long n = 0;
    while (s[n] != 0 || s[n + 1] != 0) n += 2;
    return n;
}
static int is_wide(int enc) { return enc == 1 || enc == 2; }

/* can the string functions measure this string?  size: stored bytes, -1 when it is known to be terminated */
static int measurable(const char* s, long size, int enc)
{
    int w = is_wide(enc);
    long n = 0;
    if (size < 0) n = term_len(s, w);
    else if (w) { while (n + 2 <= size && (s[n] != 0 || s[n + 1] != 0)) n += 2; if (n + 2 > size) n = size; }
    else while (n < size && s[n] != 0) n++;
    return is_bom((const unsigned char*) s, n) == w && !(w && n % 2 == 1);
}

static void proj_fields(Ctx* c, ID3v2_Frame* f)
{
    const char* id = f->header->id;
    outs(c, "\"v\":[");
    if (id[0] == 'T')
    {
        ID3v2_TextFrame* t = (ID3v2_TextFrame*) f;
        unsigned char e = (unsigned char) t->data->encoding;
        outrle(c, &e, 1); outs(c, ",");
        outrle(c, (unsigned char*) t->data->text, t->data->size);
        outs(c, "],");
        outkv(c, "z", is_wide(e) ? (is_bom((unsigned char*) t->data->text, t->data->size) ? ID3v2_strlen(t->data->text) : -1)
                                 : (long) strlen(t->data->text));
    }
    else if (memcmp(id, "COMM", 4) == 0)
    {
        ID3v2_CommentFrame* t = (ID3v2_CommentFrame*) f;
        unsigned char e = (unsigned char) t->data->encoding;
        int w = is_wide(e);
        outrle(c, &e, 1); outs(c, ",");
        outrle(c, (unsigned char*) t->data->language, 3); outs(c, ",");
        outrle(c, (unsigned char*) t->data->short_description, term_len(t->data->short_description, w) + (w ? 2 : 1));
        outs(c, ",");
        outrle(c, (unsigned char*) t->data->comment, t->data->size);
        outs(c, "],");
        outkv(c, "z", w ? (is_bom((unsigned char*) t->data->comment, t->data->size) ? ID3v2_strlen(t->data->comment) : -1)
                        : (long) strlen(t->data->comment));
    }
    else if (memcmp(id, "APIC", 4) == 0)
    {
        ID3v2_ApicFrame* t = (ID3v2_ApicFrame*) f;
        unsigned char e = (unsigned char) t->data->encoding, pt = (unsigned char) t->data->picture_type;
        int w = is_wide(e);
        outrle(c, &e, 1); outs(c, ",");
        outrle(c, (unsigned char*) t->data->mime_type, strlen(t->data->mime_type) + 1); outs(c, ",");
        outrle(c, &pt, 1); outs(c, ",");
        outrle(c, (unsigned char*) t->data->description, term_len(t->data->description, w) + (w ? 2 : 1)); outs(c, ",");
        outrle(c, (unsigned char*) t->data->data, t->data->picture_size);
        outs(c, "],\"z\":-1");
    }
    else
    {
        outrle(c, (unsigned char*) f->data, f->header->size);
        outs(c, "],\"z\":-1");
    }
}
static void proj_tag(Ctx* c, int h, ID3v2_Tag* tag, ID3v2_Frame*** prev, int* nprev)
{
    outs(c, "{"); outkv(c, "h", h); outs(c, ",");
    if (tag == NULL) { outs(c, "\"n\":1}"); return; }
    outkv(c, "n", 0); outs(c, ",");
    outkv(c, "ver", (unsigned char) tag->header->major_version); outs(c, ",");
    outkv(c, "rev", (unsigned char) tag->header->minor_version); outs(c, ",");
    outkv(c, "hfl", (unsigned char) tag->header->flags); outs(c, ",");
    outkv(c, "ext", tag->header->extended_header_size > 100000000u ? -1 : (long) tag->header->extended_header_size); outs(c, ",");
    outkv(c, "tsz", tag->header->tag_size > 0x7fffffffu ? -1 : (long) tag->header->tag_size); outs(c, ",");
    outkv(c, "idn", memcmp(tag->header->identifier, "ID3", 3) == 0); outs(c, ",");
    outkv(c, "pad", tag->padding_size); outs(c, ",\"fr\":[");
    ID3v2_Frame** cur = malloc(sizeof(void*) * MAXFR);
    int n = 0;
    if (tag->frames != NULL && !(tag->frames->frame == NULL && tag->frames->next == NULL))
    {
        for (ID3v2_FrameList* l = tag->frames; l != NULL && n < MAXFR; l = l->next)
        {
            if (n) outs(c, ",");
            cur[n++] = l->frame;
            if (l->frame == NULL) { outs(c, "{\"id\":[0,0,0,0],\"fl\":[0,0],\"sz\":-1,\"v\":[],\"z\":-1,\"p\":0}"); continue; }
            unsigned char* id = (unsigned char*) l->frame->header->id;
            unsigned char* fl = (unsigned char*) l->frame->header->flags;
            char t[160];
            int p = 0;
            for (int i = 0; i < *nprev; i++) if ((*prev)[i] == l->frame) p = i + 1;
            snprintf(t, sizeof t, "{\"id\":[%d,%d,%d,%d],\"fl\":[%d,%d],\"sz\":%d,\"p\":%d,", id[0], id[1], id[2], id[3], fl[0], fl[1],
                     l->frame->header->size, p);
            outs(c, t);
            proj_fields(c, l->frame);
            outs(c, "}");
        }
    }
    outs(c, "]}");
    free(*prev);
    *prev = cur;
    *nprev = n;
}
static int pos_in(ID3v2_Tag* tag, ID3v2_Frame* f)
{
    if (f == NULL) return 0;
    int n = 1;
    for (ID3v2_FrameList* l = tag->frames; l != NULL; l = l->next, n++) if (l->frame == f) return n;
    return -1;
}
static void proj_ctag(Ctx* c, int h)
{
    ID3v2_tag* t = c->ctag[h];
    outs(c, "{"); outkv(c, "h", h); outs(c, ",");
    if (t == NULL) { outs(c, "\"n\":1}"); return; }
    outkv(c, "n", 0); outs(c, ",");
    outkv(c, "ver", (unsigned char) t->tag_header->major_version); outs(c, ",");
    outkv(c, "rev", (unsigned char) t->tag_header->minor_version); outs(c, ",");
    outkv(c, "hfl", (unsigned char) t->tag_header->flags); outs(c, ",");
    outkv(c, "tsz", t->tag_header->tag_size); outs(c, ",");
    outkv(c, "idn", memcmp(t->tag_header->tag, "ID3", 3) == 0); outs(c, ",\"view\":[");
    int n = 0;
    if (t->frames != NULL && !(t->frames->frame == NULL && t->frames->next == NULL))
    {
        for (ID3v2_frame_list* l = t->frames; l != NULL && n < MAXFR; l = l->next)
        {
            if (n++) outs(c, ",");
            if (l->frame == NULL) { outs(c, "{\"id\":[0,0,0,0],\"fl\":[0,0],\"sz\":-1,\"d\":[],\"p\":0}"); continue; }
            unsigned char* id = (unsigned char*) l->frame->frame_id;
            unsigned char* fl = (unsigned char*) l->frame->flags;
            char tt[160];
            snprintf(tt, sizeof tt, "{\"id\":[%d,%d,%d,%d],\"fl\":[%d,%d],\"sz\":%d,\"p\":%d,\"d\":", id[0], id[1], id[2], id[3],
                     fl[0], fl[1], l->frame->size, pos_in(t->tag, l->frame->frame));
            outs(c, tt);
            outrle(c, (unsigned char*) l->frame->data, l->frame->size);
            outs(c, "}");
        }
    }
    outs(c, "],\"tag\":");
    ID3v2_Frame** pv = NULL; int np = 0;
    proj_tag(c, h, t->tag, &pv, &np);
    free(pv);
    outs(c, "}");
}
static void proj_file(Ctx* c, int k)
{
    char fn[1000];
    int ex;
    fname(c, k, fn);
    Bytes b = slurp(fn, &ex);
    outs(c, "{"); outkv(c, "f", k); outs(c, ","); outkv(c, "ex", ex); outs(c, ",\"b\":");
    outrle(c, b.p, b.n);
    outs(c, "}");
    free(b.p);
}
static int dir_entries(Ctx* c)
{
    DIR* d = opendir(c->dir);
    int n = 0;
    if (d == NULL) return -1;
    while (readdir(d) != NULL) n++;
    closedir(d);
    return n - 2;
}

/* ---------- named functions ---------- */
typedef struct { const char* n; void* get; void (*set)(ID3v2_Tag*, const char*); void (*del)(ID3v2_Tag*);
                 ID3v2_frame* (*cget)(ID3v2_tag*); void (*cset)(char*, char, ID3v2_tag*); } Named;
static const Named NAMED[] = {
    {"artist", (void*) ID3v2_Tag_get_artist_frame, ID3v2_Tag_set_artist, ID3v2_Tag_delete_artist, tag_get_artist, tag_set_artist},
    {"album", (void*) ID3v2_Tag_get_album_frame, ID3v2_Tag_set_album, ID3v2_Tag_delete_album, tag_get_album, tag_set_album},
    {"title", (void*) ID3v2_Tag_get_title_frame, ID3v2_Tag_set_title, ID3v2_Tag_delete_title, tag_get_title, tag_set_title},
    {"track", (void*) ID3v2_Tag_get_track_frame, ID3v2_Tag_set_track, ID3v2_Tag_delete_track, tag_get_track, tag_set_track},
    {"album_artist", (void*) ID3v2_Tag_get_album_artist_frame, ID3v2_Tag_set_album_artist, ID3v2_Tag_delete_album_artist,
     tag_get_album_artist, tag_set_album_artist},
    {"genre", (void*) ID3v2_Tag_get_genre_frame, ID3v2_Tag_set_genre, ID3v2_Tag_delete_genre, tag_get_genre, tag_set_genre},
    {"year", (void*) ID3v2_Tag_get_year_frame, ID3v2_Tag_set_year, ID3v2_Tag_delete_year, tag_get_year, tag_set_year},
    {"disc_number", (void*) ID3v2_Tag_get_disc_number_frame, ID3v2_Tag_set_disc_number, ID3v2_Tag_delete_disc_number,
     tag_get_disc_number, tag_set_disc_number},
    {"composer", (void*) ID3v2_Tag_get_composer_frame, ID3v2_Tag_set_composer, ID3v2_Tag_delete_composer, tag_get_composer,
     tag_set_composer},
    {"comment", (void*) ID3v2_Tag_get_comment_frame, NULL, ID3v2_Tag_delete_comment, tag_get_comment, tag_set_comment},
    {"cover", (void*) ID3v2_Tag_get_album_cover_frame, NULL, ID3v2_Tag_delete_album_cover, tag_get_album_cover, NULL},
    {NULL, NULL, NULL, NULL, NULL, NULL}};
static const Named* named(const char* n)
{
    for (const Named* x = NAMED; x->n; x++) if (strcmp(x->n, n) == 0) return x;
    fprintf(stderr, "driver: unknown name %s\n", n);
    _exit(95);
}

static void release(Ctx* c, int h)
{
    if (c->tag[h] != NULL) LIB(ID3v2_Tag_free(c->tag[h]));
    c->tag[h] = NULL;
    free(c->prev[h]);
    c->prev[h] = NULL;
    c->nprev[h] = 0;
}
static void set_handle(Ctx* c, int h, ID3v2_Tag* t)
{
    release(c, h);
    c->tag[h] = t;
}
static void out_list(Ctx* c, ID3v2_Tag* tag, ID3v2_FrameList* l)
{
    int n = 0;
    outs(c, ",\"R\":[");
    if (l != NULL && !(l->frame == NULL && l->next == NULL))
        for (ID3v2_FrameList* x = l; x != NULL && n < MAXFR; x = x->next) { if (n++) outs(c, ","); outi(c, pos_in(tag, x->frame)); }
    outs(c, "]");
}
static void out_header(Ctx* c, ID3v2_TagHeader* h)
{
    outs(c, ",\"R\":{"); outkv(c, "ok", h != NULL);
    if (h != NULL)
    {
        outs(c, ","); outkv(c, "ver", (unsigned char) h->major_version);
        outs(c, ","); outkv(c, "rev", (unsigned char) h->minor_version);
        outs(c, ","); outkv(c, "hfl", (unsigned char) h->flags);
        outs(c, ","); outkv(c, "tsz", h->tag_size > 0x7fffffffu ? -1 : (long) h->tag_size);
        outs(c, ","); outkv(c, "idn", memcmp(h->identifier, "ID3", 3) == 0);
    }
    outs(c, "}");
    LIB(ID3v2_TagHeader_free(h));
}

#define ARG(k) (k < nt ? tok[k] : "-")
#define NUM(k) atoi(ARG(k))

/* a library that only reads needs no right to write: files and directory are read-only while it does, for root as well */
static void rights(unsigned* lo, int drop)
{
    struct __user_cap_header_struct h = {_LINUX_CAPABILITY_VERSION_3, 0};
    struct __user_cap_data_struct d[2];
    if (syscall(SYS_capget, &h, d) != 0) return;
    if (drop) { *lo = d[0].effective; d[0].effective &= ~(1u << CAP_DAC_OVERRIDE | 1u << CAP_DAC_READ_SEARCH); }
    else d[0].effective = *lo;
    syscall(SYS_capset, &h, d);
}
static void lock_files(Ctx* c, int on)
{
    static __thread unsigned lo;
    char fn[1000];
    for (int k = 0; k < NSLOT; k++) { fname(c, k, fn); chmod(fn, on ? 0444 : 0644); }
    chmod(c->dir, on ? 0555 : 0755);
    rights(&lo, on);
}

static void run_op(Ctx* c, char** tok, int nt, int idx)
{
    const char* op = tok[0];
    char fn[1000];
    int th = -1, fi = -1, ch = -1; /* slots to project */
    int nul = 0, fileop = 0;
    int writes = !strcmp(op, "mk") || !strcmp(op, "rm") || !strcmp(op, "write") || !strcmp(op, "del") || !strcmp(op, "c_write") || !strcmp(op, "c_del");
    outs(c, "{"); outkv(c, "i", idx);
    stamp(c);
    ro_args = idx & 1;
    int guarded = ro_args && (!strcmp(op, "read") || !strcmp(op, "hdr") || !strcmp(op, "newh") || !strcmp(op, "c_load"));
    if (guarded) lock_files(c, 1);

/* the calls that must accept the absence of a tag are made without one: nr tells whether they returned something */
#define NULTAG(call) if (tag == NULL) { int nr; LIB(nr = (call) != NULL); outs(c, ","); outkv(c, "nr", nr); nul = 1; goto done; }
#define TAGQ(k, call) th = NUM(k); ID3v2_Tag* tag = c->tag[th]; NULTAG(call)
#define CTAGQ(k, call) ch = NUM(k); ID3v2_tag* ct = c->ctag[ch]; { ID3v2_tag* tag = ct; NULTAG(call) }
#define TAGOP(k) th = NUM(k); ID3v2_Tag* tag = c->tag[th]; if (tag == NULL) { nul = 1; goto done; }
#define CTAGOP(k) ch = NUM(k); ID3v2_tag* ct = c->ctag[ch]; if (ct == NULL) { nul = 1; goto done; }

    if (!strcmp(op, "mk")) { fi = NUM(1); fname(c, fi, fn); Bytes b = parse_bytes(ARG(2)); spit(fn, b); free(b.p); }
    else if (!strcmp(op, "rm")) { fi = NUM(1); fname(c, fi, fn); unlink(fn); }
    else if (!strcmp(op, "newe")) { th = NUM(1); ID3v2_Tag* t; LIB(t = ID3v2_Tag_new_empty()); set_handle(c, th, t); }
    else if (!strcmp(op, "new")) { th = NUM(1); ID3v2_Tag* t; LIB(t = ID3v2_Tag_new(NULL, NUM(2))); set_handle(c, th, t); }
    else if (!strcmp(op, "newh"))
    {
        th = NUM(1); fi = NUM(2); fname(c, fi, fn);
        ID3v2_TagHeader* hd; ID3v2_Tag* t;
        LIB(hd = ID3v2_read_tag_header(fn));
        LIB(t = ID3v2_Tag_new(hd, NUM(3)));
        set_handle(c, th, t); fileop = 1;
    }
    else if (!strcmp(op, "free")) { TAGOP(1); (void) tag; release(c, th); }
    else if (!strcmp(op, "read")) { th = NUM(1); fi = NUM(2); fname(c, fi, fn); ID3v2_Tag* t; LIB(t = ID3v2_read_tag(fn)); set_handle(c, th, t); fileop = 1; }
    else if (!strcmp(op, "readb") || !strcmp(op, "readfb"))
    {
        th = NUM(1);
        Bytes b;
        if (op[4] == 'b') b = parse_bytes(ARG(2));
        else { int ex; fi = NUM(2); fname(c, fi, fn); b = slurp(fn, &ex); if (b.p == NULL) b.p = malloc(1); }
        char* e = ro(b, 0);
        ID3v2_Tag* t;
        LIB(t = ID3v2_read_tag_from_buffer(e, (int) b.n));
        outs(c, ","); outkv(c, "same", memcmp(e, b.p, b.n) == 0);
        scrap(e, b.n); free(b.p);
        set_handle(c, th, t);
    }
    else if (!strcmp(op, "hdr")) { fi = NUM(1); fname(c, fi, fn); ID3v2_TagHeader* h; LIB(h = ID3v2_read_tag_header(fn)); out_header(c, h); fileop = 1; }
    else if (!strcmp(op, "hdrb"))
    {
        Bytes b = parse_bytes(ARG(1)); char* e = ro(b, 0); ID3v2_TagHeader* h;
        LIB(h = ID3v2_read_tag_header_from_buffer(e)); scrap(e, b.n); free(b.p); out_header(c, h);
    }
    else if (!strcmp(op, "write")) { fi = NUM(1); fname(c, fi, fn); fileop = 1; TAGQ(2, (ID3v2_write_tag(fn, NULL), (void*) 0)); LIB(ID3v2_write_tag(fn, tag)); }
    else if (!strcmp(op, "writenull")) { fi = NUM(1); fname(c, fi, fn); LIB(ID3v2_write_tag(fn, NULL)); fileop = 1; }
    else if (!strcmp(op, "del")) { fi = NUM(1); fname(c, fi, fn); LIB(ID3v2_delete_tag(fn)); fileop = 1; }
    else if (!strcmp(op, "set_text"))
    {
        TAGOP(1);
        Bytes id = parse_bytes(ARG(2)), fl = parse_bytes(ARG(3)), tx = parse_bytes(ARG(4));
        char *i = ro(id, 1), *f = ro(fl, 0), *t = rostr(tx);
        ID3v2_TextFrameInput in = {.id = i, .flags = f, .text = t};
        LIB(ID3v2_Tag_set_text_frame(tag, &in));
        scrap(i, id.n + 1); scrap(f, fl.n); scrap(t, tx.n + 1); free(id.p); free(fl.p); free(tx.p);
    }
    else if (!strcmp(op, "setn"))
    {
        TAGOP(1);
        Bytes tx = parse_bytes(ARG(3)); char* t = rostr(tx);
        LIB(named(ARG(2))->set(tag, t));
        scrap(t, tx.n + 1); free(tx.p);
    }
    else if (!strcmp(op, "alias"))
    {
        /* pass a string owned by the tag back to a setter: set ARG2 from the current text of ARG3 */
        TAGOP(1);
        ID3v2_TextFrame* (*g)(ID3v2_Tag*) = (ID3v2_TextFrame* (*) (ID3v2_Tag*) ) named(ARG(3))->get;
        ID3v2_TextFrame* src;
        LIB(src = g(tag));
        int ok = src != NULL && measurable(src->data->text, src->data->size, src->data->encoding);
        outs(c, ","); outkv(c, "R", ok);
        if (ok) LIB(named(ARG(2))->set(tag, src->data->text));
    }
    else if (!strcmp(op, "alias_f"))
    {
        TAGOP(1);
        ID3v2_TextFrame* (*g)(ID3v2_Tag*) = (ID3v2_TextFrame* (*) (ID3v2_Tag*) ) named(ARG(2))->get;
        ID3v2_TextFrame* src;
        LIB(src = g(tag));
        int ok = src != NULL && measurable(src->data->text, src->data->size, src->data->encoding);
        outs(c, ","); outkv(c, "R", ok);
        if (ok)
        {
            ID3v2_TextFrameInput in = {.id = src->header->id, .flags = src->header->flags, .text = src->data->text};
            LIB(ID3v2_Tag_set_text_frame(tag, &in));
        }
    }
    else if (!strcmp(op, "alias_c"))
    {
        TAGOP(1);
        ID3v2_CommentFrame* src;
        const char* how = ARG(2);
        LIB(src = ID3v2_Tag_get_comment_frame(tag));
        int ok = src != NULL && measurable(src->data->short_description, -1, src->data->encoding)
                 && measurable(src->data->comment, src->data->size, src->data->encoding);
        outs(c, ","); outkv(c, "R", ok);
        if (ok && !strcmp(how, "set")) LIB(ID3v2_Tag_set_comment(tag, src->data->language, src->data->comment));
        else if (ok)
        {
            ID3v2_CommentFrameInput in = {.flags = src->header->flags, .language = src->data->language,
                                          .short_description = src->data->short_description, .comment = src->data->comment};
            if (!strcmp(how, "swap")) { in.short_description = src->data->comment; in.comment = src->data->short_description; }
            if (!strcmp(how, "add")) LIB(ID3v2_Tag_add_comment_frame(tag, &in)); else LIB(ID3v2_Tag_set_comment_frame(tag, &in));
        }
    }
    else if (!strcmp(op, "alias_a"))
    {
        TAGOP(1);
        ID3v2_ApicFrame* src;
        const char* how = ARG(2);
        LIB(src = ID3v2_Tag_get_album_cover_frame(tag));
        int ok = src != NULL && measurable(src->data->description, -1, src->data->encoding);
        outs(c, ","); outkv(c, "R", ok);
        if (ok && !strcmp(how, "set")) LIB(ID3v2_Tag_set_album_cover(tag, src->data->mime_type, src->data->picture_size, src->data->data));
        else if (ok)
        {
            ID3v2_ApicFrameInput in = {.flags = src->header->flags, .mime_type = src->data->mime_type, .description = src->data->description,
                                       .picture_type = src->data->picture_type, .picture_size = src->data->picture_size, .data = src->data->data};
            if (!strcmp(how, "add")) LIB(ID3v2_Tag_add_apic_frame(tag, &in)); else LIB(ID3v2_Tag_set_apic_frame(tag, &in));
        }
    }
    else if (!strcmp(op, "set_commf") || !strcmp(op, "add_commf"))
    {
        TAGOP(1);
        Bytes fl = parse_bytes(ARG(2)), la = parse_bytes(ARG(3)), de = parse_bytes(ARG(4)), co = parse_bytes(ARG(5));
        char *f = ro(fl, 0), *l = ro(la, 0), *d = rostr(de), *m = rostr(co);
        ID3v2_CommentFrameInput in = {.flags = f, .language = l, .short_description = d, .comment = m};
        if (op[0] == 's') LIB(ID3v2_Tag_set_comment_frame(tag, &in)); else LIB(ID3v2_Tag_add_comment_frame(tag, &in));
        scrap(f, fl.n); scrap(l, la.n); scrap(d, de.n + 1); scrap(m, co.n + 1); free(fl.p); free(la.p); free(de.p); free(co.p);
    }
    else if (!strcmp(op, "set_comm"))
    {
        TAGOP(1);
        Bytes la = parse_bytes(ARG(2)), co = parse_bytes(ARG(3)); char *l = ro(la, 0), *m = rostr(co);
        LIB(ID3v2_Tag_set_comment(tag, l, m));
        scrap(l, la.n); scrap(m, co.n + 1); free(la.p); free(co.p);
    }
    else if (!strcmp(op, "set_apicf") || !strcmp(op, "add_apicf"))
    {
        TAGOP(1);
        Bytes fl = parse_bytes(ARG(2)), mi = parse_bytes(ARG(3)), de = parse_bytes(ARG(4)), pi = parse_bytes(ARG(6));
        char *f = ro(fl, 0), *m = ro(mi, 1), *d = rostr(de), *p = ro(pi, 0);
        ID3v2_ApicFrameInput in = {.flags = f, .mime_type = m, .description = d, .picture_type = (char) NUM(5),
                                   .picture_size = (int) pi.n, .data = p};
        if (op[0] == 's') LIB(ID3v2_Tag_set_apic_frame(tag, &in)); else LIB(ID3v2_Tag_add_apic_frame(tag, &in));
        scrap(f, fl.n); scrap(m, mi.n + 1); scrap(d, de.n + 1); scrap(p, pi.n); free(fl.p); free(mi.p); free(de.p); free(pi.p);
    }
    else if (!strcmp(op, "set_cover"))
    {
        TAGOP(1);
        Bytes mi = parse_bytes(ARG(2)), pi = parse_bytes(ARG(3)); char *m = ro(mi, 1), *p = ro(pi, 0);
        LIB(ID3v2_Tag_set_album_cover(tag, m, (int) pi.n, p));
        scrap(m, mi.n + 1); scrap(p, pi.n); free(mi.p); free(pi.p);
    }
    else if (!strcmp(op, "del_frame")) { TAGOP(1); Bytes id = parse_bytes(ARG(2)); char* i = ro(id, 1); LIB(ID3v2_Tag_delete_frame(tag, i)); scrap(i, id.n + 1); free(id.p); }
    else if (!strcmp(op, "deln")) { TAGOP(1); LIB(named(ARG(2))->del(tag)); }
    else if (!strcmp(op, "del_ci")) { TAGOP(1); LIB(ID3v2_Tag_delete_comment_frame(tag, NUM(2))); }
    else if (!strcmp(op, "del_ai")) { TAGOP(1); LIB(ID3v2_Tag_delete_apic_frame(tag, NUM(2))); }
    else if (!strcmp(op, "get"))
    {
        TAGQ(1, ID3v2_Tag_get_frame(NULL, "TIT2")); Bytes id = parse_bytes(ARG(2)); char* i = ro(id, 1); ID3v2_Frame* f;
        LIB(f = ID3v2_Tag_get_frame(tag, i)); scrap(i, id.n + 1); free(id.p);
        outs(c, ","); outkv(c, "R", pos_in(tag, f));
    }
    else if (!strcmp(op, "getn"))
    {
        ID3v2_Frame* (*g)(ID3v2_Tag*) = (ID3v2_Frame* (*) (ID3v2_Tag*) ) named(ARG(2))->get; TAGQ(1, g(NULL)); ID3v2_Frame* f;
        LIB(f = g(tag)); outs(c, ","); outkv(c, "R", pos_in(tag, f));
    }
    else if (!strcmp(op, "gets") || !strcmp(op, "hold"))
    {
        TAGQ(1, ID3v2_Tag_get_frames(NULL, "COMM")); Bytes id = parse_bytes(ARG(2)); char* i = ro(id, 1); ID3v2_FrameList* l;
        LIB(l = ID3v2_Tag_get_frames(tag, i)); scrap(i, id.n + 1); free(id.p); out_list(c, tag, l);
        if (op[0] == 'h') { LIB(ID3v2_FrameList_unlink(c->held)); c->held = l; } else LIB(ID3v2_FrameList_unlink(l));
    }
    else if (!strcmp(op, "held")) { TAGOP(1); out_list(c, tag, c->held); }
    else if (!strcmp(op, "unhold")) { LIB(ID3v2_FrameList_unlink(c->held)); c->held = NULL; }
    else if (!strcmp(op, "getcs")) { TAGQ(1, ID3v2_Tag_get_comment_frames(NULL)); ID3v2_FrameList* l; LIB(l = ID3v2_Tag_get_comment_frames(tag)); out_list(c, tag, l); LIB(ID3v2_FrameList_unlink(l)); }
    else if (!strcmp(op, "getas")) { TAGQ(1, ID3v2_Tag_get_apic_frames(NULL)); ID3v2_FrameList* l; LIB(l = ID3v2_Tag_get_apic_frames(tag)); out_list(c, tag, l); LIB(ID3v2_FrameList_unlink(l)); }
    else if (!strcmp(op, "getnull"))
    {
        int bad = 0;
        in_lib = 1;
        for (const Named* x = NAMED; x->n; x++) bad += ((ID3v2_Frame* (*) (ID3v2_Tag*) ) x->get)(NULL) != NULL;
        for (const Named* x = NAMED; x->n; x++) bad += x->cget(NULL) != NULL;
        bad += ID3v2_Tag_get_frame(NULL, "TIT2") != NULL;
        bad += ID3v2_Tag_get_frames(NULL, "TIT2") != NULL;
        bad += ID3v2_Tag_get_comment_frames(NULL) != NULL;
        bad += ID3v2_Tag_get_apic_frames(NULL) != NULL;
        ID3v2_FrameList_unlink(NULL);
        ID3v2_FrameList_free(NULL);
        ID3v2_Frame_free(NULL);
        ID3v2_TagHeader_free(NULL);
        free_frame(NULL);
        in_lib = 0;
        outs(c, ","); outkv(c, "R", bad);
    }
    else if (!strcmp(op, "tou"))
    {
        Bytes b = parse_bytes(ARG(1)); char* s = cstr(b); char* r; int same, n, nt2;
        LIB(r = ID3v2_to_unicode(s));
        same = r == s;
        LIB(n = ID3v2_strlen(r); nt2 = ID3v2_strlent(r));
        outs(c, ","); outkv(c, "same", same); outs(c, ","); outkv(c, "n", n); outs(c, ","); outkv(c, "nt", nt2);
        outs(c, ",\"R\":"); outrle(c, (unsigned char*) r, nt2);
        outs(c, ",\"src\":"); outrle(c, (unsigned char*) s, b.n);
        if (!same) { in_lib = 1; free(r); in_lib = 0; }
        free(s); free(b.p);
    }
    else if (!strcmp(op, "slen"))
    {
        Bytes b = parse_bytes(ARG(1)); char* s = rostr(b); int n, nt2;
        LIB(n = ID3v2_strlen(s); nt2 = ID3v2_strlent(s));
        outs(c, ","); outkv(c, "n", n); outs(c, ","); outkv(c, "nt", nt2);
        scrap(s, b.n + (is_bom(b.p, b.n) ? 2 : 1)); free(b.p);
    }
    /* ----- compatibility layer ----- */
    else if (!strcmp(op, "c_new")) { ch = NUM(1); if (c->ctag[ch]) LIB(free_tag(c->ctag[ch])); LIB(c->ctag[ch] = new_tag()); }
    else if (!strcmp(op, "c_load")) { ch = NUM(1); fi = NUM(2); fname(c, fi, fn); if (c->ctag[ch]) LIB(free_tag(c->ctag[ch])); LIB(c->ctag[ch] = load_tag(fn)); fileop = 1; }
    else if (!strcmp(op, "c_loadb"))
    {
        ch = NUM(1); Bytes b = parse_bytes(ARG(2)); char* e = ro(b, 0);
        if (c->ctag[ch]) LIB(free_tag(c->ctag[ch]));
        LIB(c->ctag[ch] = load_tag_with_buffer(e, (int) b.n));
        scrap(e, b.n); free(b.p);
    }
    else if (!strcmp(op, "c_free")) { CTAGOP(1); LIB(free_tag(ct)); c->ctag[ch] = NULL; }
    else if (!strcmp(op, "c_write")) { fi = NUM(1); fname(c, fi, fn); fileop = 1; CTAGQ(2, (set_tag(fn, NULL), (void*) 0)); LIB(set_tag(fn, ct)); }
    else if (!strcmp(op, "c_del")) { fi = NUM(1); fname(c, fi, fn); LIB(remove_tag(fn)); fileop = 1; }
    else if (!strcmp(op, "c_set"))
    {
        CTAGOP(1); Bytes tx = parse_bytes(ARG(3)); char* t = cstr(tx);
        LIB(named(ARG(2))->cset(t, is_bom(tx.p, tx.n) ? 1 : 0, ct));
        scrap(t, tx.n + 1); free(tx.p);
    }
    else if (!strcmp(op, "c_alias"))
    {
        CTAGOP(1);
        ID3v2_frame* f;
        int ok = 0;
        LIB(f = named(ARG(2))->cget(ct));
        if (f != NULL && !strcmp(ARG(2), "comment"))
        {
            ID3v2_frame_comment_content* x;
            LIB(x = parse_comment_frame_content(f));
            ok = measurable(x->short_description, -1, x->text->encoding) && measurable(x->text->data, x->text->size, x->text->encoding);
            if (ok) LIB(tag_set_comment(x->text->data, x->text->encoding, ct));
            free(x->text); free(x);
        }
        else if (f != NULL && !strcmp(ARG(2), "cover"))
        {
            ID3v2_frame_apic_content* x;
            LIB(x = parse_apic_frame_content(f));
            ok = measurable(x->description, -1, x->encoding);
            if (ok) LIB(tag_set_album_cover_from_bytes(x->data, x->mime_type, x->picture_size, ct));
            free(x);
        }
        else if (f != NULL)
        {
            ID3v2_frame_text_content* x;
            LIB(x = parse_text_frame_content(f));
            ok = measurable(x->data, x->size, x->encoding);
            if (ok) LIB(named(ARG(2))->cset(x->data, x->encoding, ct));
            free(x->data); free(x);
        }
        outs(c, ","); outkv(c, "R", ok);
    }
    else if (!strcmp(op, "c_coverb"))
    {
        CTAGOP(1); Bytes mi = parse_bytes(ARG(2)), pi = parse_bytes(ARG(3)); char *m = exact(mi, 1), *p = exact(pi, 0);
        LIB(tag_set_album_cover_from_bytes(p, m, (int) pi.n, ct));
        scrap(m, mi.n + 1); scrap(p, pi.n); free(mi.p); free(pi.p);
    }
    else if (!strcmp(op, "c_cover"))
    {
        /* ARG2: file name below the scratch directory, ARG3: its bytes, or "absent" */
        CTAGOP(1);
        snprintf(fn, sizeof fn, "%s/%s", c->dir, ARG(2));
        if (strcmp(ARG(3), "absent")) { Bytes b = parse_bytes(ARG(3)); spit(fn, b); free(b.p); }
        LIB(tag_set_album_cover(fn, ct));
        unlink(fn);
        fileop = 1;
    }
    else if (!strcmp(op, "c_get"))
    {
        CTAGQ(1, named(ARG(2))->cget(NULL));
        ID3v2_frame* f; int pos = 0, n = 1;
        LIB(f = named(ARG(2))->cget(ct));
        if (f) { pos = -1; for (ID3v2_frame_list* l = ct->frames; l; l = l->next, n++) if (l->frame == f) { pos = n; break; } }
        outs(c, ","); outkv(c, "R", pos);
        outs(c, ",\"v\":[");
        int isnull = 0;
        long z = -1;
        if (!strcmp(ARG(2), "comment"))
        {
            ID3v2_frame_comment_content* x;
            LIB(x = parse_comment_frame_content(f));
            isnull = x == NULL;
            if (x)
            {
                unsigned char e = x->text->encoding; int w = is_wide(e);
                outrle(c, &e, 1); outs(c, ","); outrle(c, (unsigned char*) x->language, 3); outs(c, ",");
                outrle(c, (unsigned char*) x->short_description, term_len(x->short_description, w) + (w ? 2 : 1)); outs(c, ",");
                outrle(c, (unsigned char*) x->text->data, x->text->size);
                free(x->text); free(x);
            }
        }
        else if (!strcmp(ARG(2), "cover"))
        {
            ID3v2_frame_apic_content* x;
            LIB(x = parse_apic_frame_content(f));
            isnull = x == NULL;
            if (x)
            {
                unsigned char e = x->encoding, pt = x->picture_type; int w = is_wide(e);
                outrle(c, &e, 1); outs(c, ","); outrle(c, (unsigned char*) x->mime_type, strlen(x->mime_type) + 1); outs(c, ",");
                outrle(c, &pt, 1); outs(c, ",");
                outrle(c, (unsigned char*) x->description, term_len(x->description, w) + (w ? 2 : 1)); outs(c, ",");
                outrle(c, (unsigned char*) x->data, x->picture_size);
                free(x);
            }
        }
        else
        {
            ID3v2_frame_text_content* x;
            LIB(x = parse_text_frame_content(f));
            isnull = x == NULL;
            if (x)
            {
                unsigned char e = x->encoding;
                outrle(c, &e, 1); outs(c, ","); outrle(c, (unsigned char*) x->data, x->size);
                z = is_wide(e) ? (is_bom((unsigned char*) x->data, x->size) ? ID3v2_strlen(x->data) : -1) : (long) strlen(x->data);
                free(x->data); free(x);
            }
        }
        outs(c, "],"); outkv(c, "z", z); outs(c, ","); outkv(c, "vn", isnull);
    }
    else { fprintf(stderr, "driver: unknown op %s\n", op); _exit(95); }

done:
    if (guarded) lock_files(c, 0);
    outs(c, ","); outkv(c, "nul", nul); outs(c, ","); outkv(c, "tch", touched(c, writes ? fi : -1));
    outs(c, ",\"T\":[");
    int first = 1;
    for (int h = 0; h < NSLOT; h++)
        if (h == th || (c->full && c->tag[h] != NULL))
        {
            if (!first) outs(c, ",");
            first = 0;
            proj_tag(c, h, c->tag[h], &c->prev[h], &c->nprev[h]);
        }
    outs(c, "],\"C\":[");
    first = 1;
    for (int h = 0; h < NSLOT; h++)
        if (h == ch || (c->full && c->ctag[h] != NULL)) { if (!first) outs(c, ","); first = 0; proj_ctag(c, h); }
    outs(c, "],\"F\":[");
    first = 1;
    for (int k = 0; k < NSLOT; k++)
        if (k == fi || c->full) { if (!first) outs(c, ","); first = 0; proj_file(c, k); }
    outs(c, "],"); outkv(c, "live", use_hooks ? live_n : 0);
    outs(c, ","); outkv(c, "fds", use_hooks && fileop ? fds_left(c->fds0) : 0);
    outs(c, ","); outkv(c, "dir", fileop ? dir_entries(c) : -1);
    outs(c, "}");
    flush_log(c);
}

static void reset(Ctx* c)
{
    for (int h = 0; h < NSLOT; h++)
    {
        release(c, h);
        if (c->ctag[h] != NULL) LIB(free_tag(c->ctag[h]));
        c->ctag[h] = NULL;
        char fn[1000];
        fname(c, h, fn);
        unlink(fn);
    }
    LIB(ID3v2_FrameList_unlink(c->held));
    c->held = NULL;
}

/* a call that does not return is ended: by processor time, and by a generous wall time when it sleeps */
static int cpu_limit = 20;
static void guard(void)
{
    struct itimerval t = {{0, 0}, {cpu_limit, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
    alarm(cpu_limit * 8);
}

static void run_script(const char* script, const char* log, const char* dir, long first, int rel)
{
    Ctx* c = calloc(1, sizeof *c);
    c->rel = rel;
    snprintf(c->dir, sizeof c->dir, "%s", dir);
    FILE* in = fopen(script, "r");
    c->logfd = open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (in == NULL || c->logfd < 0) { perror("driver"); _exit(94); }
    char* line = NULL;
    size_t cap = 0;
    ssize_t n;
    long sid = -1;
    int idx = 0, active = 0;
    c->fds0 = nfds();
    for (int k = 0; k < 4; k++) { usleep(500); int m = nfds(); if (m < c->fds0) c->fds0 = m; }
    while ((n = getline(&line, &cap, in)) > 0)
    {
        char* tok[12];
        int nt = 0;
        char* save = NULL;
        for (char* t = strtok_r(line, " \n", &save); t && nt < 12; t = strtok_r(NULL, " \n", &save)) tok[nt++] = t;
        if (nt == 0) continue;
        if (!strcmp(tok[0], "S"))
        {
            if (active)
            {
                reset(c);
                outs(c, "{"); outkv(c, "end", sid); outs(c, ","); outkv(c, "live", use_hooks ? live_n : 0);
                outs(c, ","); outkv(c, "fds", use_hooks ? fds_left(c->fds0) : 0); outs(c, "}");
                flush_log(c);
                live_n = 0;
                memset(live_tab, 0, use_hooks ? sizeof live_tab : 0);
            }
            sid = atol(tok[1]);
            active = sid >= first;
            c->full = nt > 2;
            idx = 0;
            if (active) { outs(c, "{"); outkv(c, "S", sid); outs(c, "}"); flush_log(c); if (use_hooks) guard(); }
            continue;
        }
        if (!active) continue;
        run_op(c, tok, nt, ++idx);
    }
    if (active)
    {
        reset(c);
        outs(c, "{"); outkv(c, "end", sid); outs(c, ","); outkv(c, "live", use_hooks ? live_n : 0);
        outs(c, ","); outkv(c, "fds", use_hooks ? fds_left(c->fds0) : 0); outs(c, "}");
        flush_log(c);
    }
    outs(c, "{\"done\":1}");
    flush_log(c);
    free(line);
    fclose(in);
    close(c->logfd);
    free(c->buf);
    free(c);
}

typedef struct { const char *s, *l; char d[512]; } Job;
static pthread_barrier_t bar;
static void* thr(void* a) { Job* j = a; pthread_barrier_wait(&bar); run_script(j->s, j->l, j->d, 0, 0); return NULL; }

int main(int argc, char** argv)
{
    if (argc > 2 && !strcmp(argv[1], "-t"))
    {
        int n = (argc - 3) / 2;
        Job* j = calloc(n, sizeof *j);
        pthread_t* t = calloc(n, sizeof *t);
        pthread_barrier_init(&bar, NULL, n);
        for (int i = 0; i < n; i++)
        {
            j[i].s = argv[3 + 2 * i]; j[i].l = argv[4 + 2 * i];
            snprintf(j[i].d, sizeof j[i].d, "%s/t%d", argv[2], i);
            mkdir(j[i].d, 0755);
            pthread_create(&t[i], NULL, thr, &j[i]);
        }
        for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
        free(j); free(t);
        return 0;
    }
    if (argc < 4) { fprintf(stderr, "usage\n"); return 94; }
#ifdef WITH_ASAN
    use_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
#endif
    if (getenv("VP_CPU")) cpu_limit = atoi(getenv("VP_CPU"));
    struct rlimit fs = {600u << 20, 600u << 20}, core = {0, 0};
    setrlimit(RLIMIT_FSIZE, &fs);
    setrlimit(RLIMIT_CORE, &core);
    run_script(argv[1], argv[2], argv[3], argc > 4 ? atol(argv[4]) : 0, 1);
    return 0;
}
