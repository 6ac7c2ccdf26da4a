/*
 * Fault driver: runs the calls of a scenario as driver.c does; the last call is executed in child processes that are
 * traced system call by system call.  Without a fault first, then once per file operation and kind of failure, as long
 * as the target file has not been modified.  Every system call on a file is logged, then the target's content.
 *
 * usage: faults SCRIPT LOG SCRATCHDIR FIRST LIMIT
 */
#define main driver_main
#include "driver.c"
#undef main
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>

typedef struct { int nr; const char* name; const char* kind; } Sys;
/* kind: o open, r read, w write, s seek, c close, m metadata, R rename/link, u unlink, t truncate, y sync, d dup */
static const Sys SYS[] = {
    {SYS_open, "open", "o"}, {SYS_openat, "openat", "o"}, {SYS_creat, "creat", "o"}, {SYS_read, "read", "r"}, {SYS_pread64, "pread", "r"},
    {SYS_readv, "readv", "r"}, {SYS_write, "write", "w"}, {SYS_pwrite64, "pwrite", "w"}, {SYS_writev, "writev", "w"},
    {SYS_lseek, "lseek", "s"}, {SYS_close, "close", "c"}, {SYS_fstat, "fstat", "m"}, {SYS_stat, "stat", "m"}, {SYS_newfstatat, "newfstatat", "m"},
    {SYS_statx, "statx", "m"}, {SYS_access, "access", "m"}, {SYS_rename, "rename", "R"}, {SYS_renameat, "renameat", "R"}, {SYS_renameat2, "renameat2", "R"},
    {SYS_link, "link", "R"}, {SYS_linkat, "linkat", "R"}, {SYS_unlink, "unlink", "u"}, {SYS_unlinkat, "unlinkat", "u"},
    {SYS_truncate, "truncate", "t"}, {SYS_ftruncate, "ftruncate", "t"}, {SYS_fsync, "fsync", "y"}, {SYS_fdatasync, "fdatasync", "y"},
    {SYS_copy_file_range, "copy_file_range", "x"}, {SYS_sendfile, "sendfile", "x"}, {SYS_dup, "dup", "d"}, {SYS_mmap, "mmap", "p"}, {-1, NULL, NULL}};
static const Sys* sys_of(long nr) { for (const Sys* s = SYS; s->name; s++) if (s->nr == nr) return s; return NULL; }

typedef struct { int at, err, mode; } Fault; /* at: index of the file operation, -1 none; mode 0 once, 1 from then on, 2 short write then failing,
   3 from then on for the target only, or for everything but the target (no temporary file can be made) */
typedef struct { const char* name; char kind; int target, scratch, injected, ok, mod; } Ev;
typedef struct { Ev ev[4096]; int n; int ret; int candidates; long live; } Run;

/* a write also tells how the tag is in memory afterwards, and writes it again without faults */
#define NMEM 64
typedef struct { int has, same, n, again; long tsz, pad, sz[NMEM]; } Mem;
static Mem* mem;
static Bytes mid; /* the target when the call returned */
static int mid_ex;
static char* frames_of(Ctx* c, ID3v2_Tag* t)
{
    ID3v2_Frame** pv = NULL;
    int np = 0;
    c->len = 0;
    proj_tag(c, 0, t, &pv, &np);
    free(pv);
    c->buf[c->len] = 0;
    c->len = 0;
    char* p = strstr(c->buf, "\"fr\":");
    char* q = strdup(p == NULL ? "" : p);
    for (char* x = q; (x = strstr(x, "\"p\":")) != NULL;) for (x += 4; *x >= '0' && *x <= '9'; x++) *x = '0'; /* not the addresses */
    return q;
}

static void peek_path(pid_t pid, unsigned long addr, char* dst, size_t n)
{
    size_t o = 0;
    memset(dst, 0, n);
    while (o + 1 < n)
    {
        struct iovec l = {dst + o, 1}, r = {(void*) (addr + o), 1};
        if (process_vm_readv(pid, &l, 1, &r, 1, 0) != 1) break;
        if (dst[o] == 0) break;
        o++;
    }
}

static int target_slot(char** tok)
{
    int second = !strcmp(tok[0], "read") || !strcmp(tok[0], "c_load");
    return atoi(tok[second ? 2 : 1]);
}

#define BEGIN_MARK 0x5151
#define END_MARK 0x5252

static void run_child(Ctx* c, char** tok, int nt, int idx, const char* target, Fault f, Run* run)
{
    memset(run, 0, sizeof *run);
    if (mem == NULL) mem = mmap(NULL, sizeof *mem, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(mem, 0, sizeof *mem);
    free(mid.p);
    mid.p = NULL;
    mid_ex = -1;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0)
    {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        int nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
        c->logfd = nul;
        struct itimerval t = {{0, 0}, {10, 0}};
        setitimer(ITIMER_PROF, &t, NULL);
        alarm(0);
        raise(SIGSTOP);
        /* the call itself, as in run_op; what it returns is released before the end mark */
        char fn[600];
        fname(c, target_slot(tok), fn);
        ID3v2_Tag* wt = !strcmp(tok[0], "write") ? c->tag[atoi(tok[2])] : !strcmp(tok[0], "c_write") && c->ctag[atoi(tok[2])] ? c->ctag[atoi(tok[2])]->tag : NULL;
        char* before = wt != NULL ? frames_of(c, wt) : NULL;
        live_n = 0;
        memset(live_tab, 0, sizeof live_tab);
        syscall(SYS_getpriority, BEGIN_MARK, 0);
        in_lib = 1;
        if (!strcmp(tok[0], "write")) ID3v2_write_tag(fn, c->tag[atoi(tok[2])]);
        else if (!strcmp(tok[0], "del")) ID3v2_delete_tag(fn);
        else if (!strcmp(tok[0], "c_write")) set_tag(fn, c->ctag[atoi(tok[2])]);
        else if (!strcmp(tok[0], "c_del")) remove_tag(fn);
        else if (!strcmp(tok[0], "read")) { ID3v2_Tag* t = ID3v2_read_tag(fn); if (t != NULL) ID3v2_Tag_free(t); }
        else if (!strcmp(tok[0], "hdr")) { ID3v2_TagHeader* h = ID3v2_read_tag_header(fn); if (h != NULL) ID3v2_TagHeader_free(h); }
        else if (!strcmp(tok[0], "c_load")) { ID3v2_tag* t = load_tag(fn); if (t != NULL) free_tag(t); }
        else _exit(95);
        in_lib = 0;
        syscall(SYS_getpriority, END_MARK, (int) live_n);
        if (wt != NULL)
        {
            mem->same = !strcmp(before, frames_of(c, wt));
            mem->tsz = wt->header->tag_size;
            mem->pad = wt->padding_size;
            for (ID3v2_FrameList* x = wt->frames; x != NULL && x->frame != NULL && mem->n < NMEM; x = x->next) mem->sz[mem->n++] = x->frame->header->size;
            mem->has = mem->n < NMEM;
            ID3v2_write_tag(fn, wt);
            mem->again = 1;
        }
        _exit(0);
    }
    (void) nt; (void) idx;
    int status, active = 0, entering = 1, returned = 0, modified = 0, op = -1, inject = 0, shortened = 0;
    long steps = 0;
    char fdt[1024];
    memset(fdt, 0, sizeof fdt);
    Ev cur;
    const Sys* s = NULL;
    unsigned long a0 = 0;
    int open_trunc = 0, write_open = 0, map_shared = 0, dst_target = 0;
    if (waitpid(pid, &status, 0) != pid) _exit(94);
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    ptrace(PTRACE_SYSCALL, pid, 0, 0);
    for (;;)
    {
        if (waitpid(pid, &status, 0) != pid) break;
        if (WIFEXITED(status) || WIFSIGNALED(status)) break;
        if (!WIFSTOPPED(status)) continue;
        int sig = WSTOPSIG(status);
        if (sig != (SIGTRAP | 0x80)) { ptrace(PTRACE_SYSCALL, pid, 0, sig == SIGTRAP ? 0 : sig); continue; }
        struct user_regs_struct r;
        ptrace(PTRACE_GETREGS, pid, 0, &r);
        if (entering)
        {
            s = NULL;
            inject = 0;
            shortened = 0;
            if (r.orig_rax == SYS_getpriority && r.rdi == BEGIN_MARK) active = 1;
            else if (r.orig_rax == SYS_getpriority && r.rdi == END_MARK) { active = 0; returned = 1; run->live = (long) (int) r.rsi; mid = slurp(target, &mid_ex); }
            else if (active && (s = sys_of((long) r.orig_rax)) != NULL)
            {
                char p1[600] = "", p2[600] = "";
                memset(&cur, 0, sizeof cur);
                cur.name = s->name;
                cur.kind = s->kind[0];
                a0 = r.rdi;
                open_trunc = write_open = map_shared = dst_target = 0;
                int path = 0;
                switch (r.orig_rax)
                {
                    case SYS_open: peek_path(pid, r.rdi, p1, sizeof p1); open_trunc = (r.rsi & O_TRUNC) != 0; path = 1; break;
                    case SYS_creat: peek_path(pid, r.rdi, p1, sizeof p1); open_trunc = 1; path = 1; break;
                    case SYS_openat: peek_path(pid, r.rsi, p1, sizeof p1); open_trunc = (r.rdx & O_TRUNC) != 0; path = 1; break;
                    case SYS_stat: case SYS_access: case SYS_truncate: case SYS_unlink: peek_path(pid, r.rdi, p1, sizeof p1); path = 1; break;
                    case SYS_newfstatat: case SYS_statx: case SYS_unlinkat: peek_path(pid, r.rsi, p1, sizeof p1); path = p1[0] != 0; break;
                    case SYS_rename: case SYS_link: peek_path(pid, r.rdi, p1, sizeof p1); peek_path(pid, r.rsi, p2, sizeof p2); path = 1; break;
                    case SYS_renameat: case SYS_renameat2: case SYS_linkat: peek_path(pid, r.rsi, p1, sizeof p1); peek_path(pid, r.r10, p2, sizeof p2); path = 1; break;
                    case SYS_mmap: a0 = r.r8; map_shared = (r.r10 & 1) && (r.rdx & 2); break;
                    case SYS_copy_file_range: dst_target = r.rdx < 1024 && fdt[r.rdx]; break;
                    case SYS_sendfile: dst_target = a0 < 1024 && fdt[a0]; break;
                    default: break;
                }
                const char* base = strrchr(target, '/') + 1;
                (void) base;
                if (path) cur.target = !strcmp(p1, target) || !strcmp(p2, target);
                else cur.target = a0 < 1024 && fdt[a0];
                cur.scratch = path && (!strncmp(p1, c->dir, strlen(c->dir)) || p1[0] != '/');
                int file_op = !(s->kind[0] == 'p' && ((long) r.r8 < 0 || (r.r10 & 32))); /* anonymous memory is no file operation */
                if (!file_op) { s = NULL; }
                else if (s->kind[0] == 'u' && !cur.scratch) s = NULL; /* glibc removing its own temporary file */
                if (s != NULL)
                {
                    op++;
                    if (!modified) run->candidates = op + 1;
                    int here = f.at >= 0 && !modified && (op == f.at || (f.mode >= 1 && op > f.at && op < 4000 && run->ev[f.at].kind == cur.kind &&
                                                                  (f.mode != 3 || run->ev[f.at].target == cur.target)));
                    if (here && f.mode == 2 && op == f.at && cur.kind == 'w' && r.rdx > 1 && r.orig_rax != SYS_writev && !cur.target)
                    {
                        r.rdx /= 2;
                        ptrace(PTRACE_SETREGS, pid, 0, &r);
                        shortened = 1;
                        cur.injected = 1;
                    }
                    else if (here)
                    {
                        inject = 1;
                        cur.injected = 1;
                        r.orig_rax = -1;
                        ptrace(PTRACE_SETREGS, pid, 0, &r);
                    }
                }
            }
            entering = 0;
        }
        else
        {
            if (s != NULL)
            {
                long ret = (long) r.rax;
                if (inject) { r.rax = (unsigned long) (long) -f.err; ptrace(PTRACE_SETREGS, pid, 0, &r); ret = -f.err; }
                (void) shortened;
                cur.ok = !(ret < 0 && ret > -4096);
                if (cur.ok)
                {
                    if (cur.kind == 'o' && ret < 1024) fdt[ret] = (char) cur.target;
                    if (cur.kind == 'd' && ret < 1024) fdt[ret] = a0 < 1024 ? fdt[a0] : 0;
                    if (cur.kind == 'c' && a0 < 1024) fdt[a0] = 0;
                    cur.mod = (cur.target && (open_trunc || (cur.kind == 'w' && ret > 0) || cur.kind == 't' || cur.kind == 'R' || cur.kind == 'u')) ||
                              dst_target || (cur.target && map_shared);
                    if (cur.mod) modified = 1;
                }
                if (run->n < 4096) run->ev[run->n++] = cur;
            }
            entering = 1;
        }
        if (++steps > 400000) { kill(pid, SIGKILL); waitpid(pid, &status, 0); returned = 0; break; }
        ptrace(PTRACE_SYSCALL, pid, 0, 0);
    }
    run->ret = returned && WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

/* distinct contents seen in this scenario */
static void log_run(Ctx* c, Run* r, Fault f, int no, int fi)
{
    /* runs of equal events are folded: [kind, target, injected, ok, mod, count] */
    outs(c, "{"); outkv(c, "run", no); outs(c, ","); outkv(c, "at", f.at); outs(c, ","); outkv(c, "err", f.err); outs(c, ",");
    outkv(c, "mode", f.mode); outs(c, ","); outkv(c, "ret", r->ret); outs(c, ","); outkv(c, "live", r->live);
    outs(c, ",\"name\":\""); outs(c, f.at >= 0 && f.at < r->n ? r->ev[f.at].name : "none"); outs(c, "\"");
    outs(c, ",\"ev\":[");
    int first = 1;
    for (int i = 0; i < r->n;)
    {
        Ev* e = &r->ev[i];
        int j = i + 1;
        while (j < r->n && r->ev[j].kind == e->kind && r->ev[j].target == e->target && r->ev[j].injected == e->injected && r->ev[j].ok == e->ok && r->ev[j].mod == e->mod) j++;
        char t[128];
        snprintf(t, sizeof t, "%s{\"k\":\"%c\",\"t\":%d,\"inj\":%d,\"ok\":%d,\"mod\":%d,\"n\":%d}", first ? "" : ",", e->kind, e->target, e->injected, e->ok, e->mod, j - i);
        outs(c, t);
        first = 0;
        i = j;
    }
    outs(c, "],");
    outkv(c, "dir", dir_entries(c));
    outs(c, ",\"m\":{"); outkv(c, "has", mem->has && mem->again); outs(c, ","); outkv(c, "same", mem->same); outs(c, ",");
    outkv(c, "tsz", mem->tsz); outs(c, ","); outkv(c, "pad", mem->pad); outs(c, ",\"sz\":[");
    for (int i = 0; i < mem->n; i++) { if (i) outs(c, ","); outi(c, mem->sz[i]); }
    outs(c, "]},\"F\":[");
    if (mid_ex < 0) proj_file(c, fi);
    else { outs(c, "{"); outkv(c, "f", fi); outs(c, ","); outkv(c, "ex", mid_ex); outs(c, ",\"b\":"); outrle(c, mid.p, mid.n); outs(c, "}"); }
    outs(c, ",");
    proj_file(c, fi);
    outs(c, "]}");
    flush_log(c);
}

int main(int argc, char** argv)
{
    if (argc < 6) return 94;
    Ctx* c = calloc(1, sizeof *c);
    snprintf(c->dir, sizeof c->dir, "%s", argv[3]);
    FILE* in = fopen(argv[1], "r");
    c->logfd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (in == NULL || c->logfd < 0) { perror("faults"); return 94; }
    use_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
    long first = atol(argv[4]), wide = atol(argv[5]);
    char* lines[256];
    int nl = 0;
    char* line = NULL;
    size_t cap = 0;
    ssize_t n;
    long sid = -1;
    for (;;)
    {
        n = getline(&line, &cap, in);
        if (n > 0 && strncmp(line, "S ", 2)) { if (nl < 256) lines[nl++] = strdup(line); continue; }
        if (sid >= first && nl > 0)
        {
            outs(c, "{"); outkv(c, "S", sid); outs(c, "}"); flush_log(c);
            for (int i = 0; i < nl; i++)
            {
                char* tok[12];
                int nt = 0;
                char* save = NULL;
                char* copy = strdup(lines[i]);
                for (char* t = strtok_r(copy, " \n", &save); t && nt < 12; t = strtok_r(NULL, " \n", &save)) tok[nt++] = t;
                if (i + 1 < nl) { run_op(c, tok, nt, i + 1); free(copy); continue; }
                int fi = target_slot(tok), ex;
                char fn[600];
                fname(c, fi, fn);
                Bytes old = slurp(fn, &ex);
                static Run run, base;
                Fault none = {-1, 0, 0};
                outs(c, "{"); outkv(c, "fault", i + 1); outs(c, "}"); flush_log(c);
                int no = 0;
                run_child(c, tok, nt, i + 1, fn, none, &base);
                log_run(c, &base, none, no++, fi);
                for (int k = 0; k < base.candidates && k < 400; k++)
                {
                    /* long homogeneous stretches (reading a big file): first, second, every 7th and last */
                    int same = k > 1 && k + 1 < base.candidates && base.ev[k].kind == base.ev[k - 1].kind && base.ev[k].kind == base.ev[k - 2].kind &&
                               base.ev[k + 1].kind == base.ev[k].kind && base.ev[k].target == base.ev[k - 1].target;
                    if (same && k % 7 != 0 && !wide) continue;
                    char kd = base.ev[k].kind;
                    int errs[3], ne = 0;
                    if (kd == 'o') { errs[ne++] = EMFILE; errs[ne++] = EACCES; if (wide) errs[ne++] = EINTR; }
                    else if (kd == 'w') { errs[ne++] = ENOSPC; if (wide) errs[ne++] = EIO; }
                    else { errs[ne++] = EIO; if (wide && kd == 'r') errs[ne++] = EINTR; }
                    for (int x = 0; x < ne; x++)
                        for (int mode = 0; mode <= 3; mode++)
                        {
                            if ((mode == 2 && kd != 'w') || (mode == 3 && kd != 'o' && !wide)) continue;
                            Fault f = {k, errs[x], mode};
                            if (ex) spit(fn, old); else unlink(fn);
                            run_child(c, tok, nt, i + 1, fn, f, &run);
                            log_run(c, &run, f, no++, fi);
                        }
                }
                if (ex) spit(fn, old); else unlink(fn);
                free(old.p);
                free(copy);
            }
            reset(c);
            outs(c, "{"); outkv(c, "endf", sid); outs(c, "}"); flush_log(c);
        }
        for (int i = 0; i < nl; i++) free(lines[i]);
        nl = 0;
        if (n <= 0) break;
        sid = atol(line + 2);
        c->full = 0;
    }
    outs(c, "{\"done\":1}");
    flush_log(c);
    return 0;
}
