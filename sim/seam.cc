// seam.cc - simulated kernel (Syscall User Dispatch) and allocation seam.
// Compiled without sanitizers.
#include "world.h"
#include <errno.h>
#include <execinfo.h>
#include <stdio.h>
#include <fcntl.h>
#include <sys/file.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <new>
#include <initializer_list>

DiskW* D; World *W, *Ws[MAXPROC]; unsigned char *Warena, *Wout, *Werr, *Wres;
static unsigned char *outs[MAXPROC], *errs[MAXPROC];

extern "C" {
extern char sud_begin[], sud_end[];
long sud_raw(long n, long a, long b, long c, long d, long e, long f);
void sud_restorer(void);
}
__asm__(".pushsection .text.sud,\"ax\",@progbits\n"
    ".globl sud_begin\nsud_begin:\n"
    ".globl sud_raw\nsud_raw: mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
    " mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n"
    ".globl sud_restorer\nsud_restorer: mov $15,%rax\n syscall\n ud2\n"
    ".globl sud_end\nsud_end:\n.popsection\n");

static volatile char sudSel = 1;

static void cp(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
static size_t sl(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
static bool eq(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
static uint64_t mix(uint64_t& s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

void worldInit() {
    auto m = [](size_t n) { return (unsigned char*) mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    D = (DiskW*) m(sizeof(DiskW)); Warena = m(ARENA); Wres = m(RESMAX);
    for (int i = 0; i < MAXPROC; ++i) { Ws[i] = (World*) m(sizeof(World)); outs[i] = m(OUTMAX); errs[i] = m(ERRMAX); }
    worldSelect(0);
}
void worldSelect(int i) { W = Ws[i]; W->id = i; Wout = outs[i]; Werr = errs[i]; }

// The clock.  A call takes 1 to 60 us, now and then much longer (a busy disk, a
// user who types slowly); the delays come from the plan's seed.
static const uint64_t EPOCH = 1700000000;
static void passTime() {
    uint64_t z = mix(D->delaySeed), d = 1000 + z % 60000;
    if (!((z >> 32) % 40)) d *= 1 + (z >> 40) % 2000; else if (!((z >> 32) % 401)) d *= 100000 + (z >> 40) % 1000000;
    D->now += d;
}
static bool simulated;         // set in simulated processes only
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
    if (!simulated) return sud_raw(SYS_clock_gettime, c, (long) t, 0, 0, 0, 0);
    D->now += 20; t->tv_sec = EPOCH + D->now / 1000000000; t->tv_nsec = D->now % 1000000000; return 0;
}
extern "C" int gettimeofday(struct timeval* v, void*) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t* p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" clock_t clock() noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return simulated ? D->now / 1000 : t.tv_sec * 1000000 + t.tv_nsec / 1000; }

// Processes running at the same time.  Only the one whose turn it is runs; at
// every system call on files the next one is drawn from the plan's seed.
static void wake() { sud_raw(SYS_futex, (long) &D->turn, 1 /* FUTEX_WAKE */, 64, 0, 0, 0); }
static int draw(int me) {
    int n = 0, who[MAXPROC];
    for (int i = 0; i < D->nproc; ++i) if (D->alive[i]) who[n++] = i;
    if (!n) return -1;
    if (me >= 0 && D->alive[me] && mix(D->schedSeed) % D->quantum) return me;
    return who[mix(D->schedSeed) % n];
}
static void pass(int me) {
    int t = draw(me);
    D->schedHash = (D->schedHash ^ (uint64_t) (t + 2)) * 0x100000001b3ull;
    if (t == me) return;
    ++D->switches;
    __atomic_store_n(&D->turn, t, __ATOMIC_SEQ_CST); wake();
}
static void waitTurn() {
    for (;;) { int t = __atomic_load_n(&D->turn, __ATOMIC_SEQ_CST); if (t == W->id) return; sud_raw(SYS_futex, (long) &D->turn, 0 /* FUTEX_WAIT */, t, 0, 0, 0); }
}
static void yieldProc() { if (D->nproc > 1) { pass(W->id); waitTurn(); } }
void schedStart() { pass(-1); }
static void unlockAll(int proc) { for (auto& l : D->locks) if (l.node && l.proc == proc) l.node = 0; }
void schedNext(int i) { unlockAll(i); if (D->nproc > 1 && D->alive[i]) { D->alive[i] = 0; pass(-1); } }

extern "C" void seamRawExit(int c) { for (;;) sud_raw(SYS_exit_group, c, 0, 0, 0, 0, 0); }
static void finish(int kind, int code, int sig) __attribute__((noreturn));
static void finish(int kind, int code, int sig) { if (W->end == END_NONE) { W->end = kind; W->code = code; W->sig = sig; } schedNext(W->id); seamRawExit(0); }

static void logEv(int cls, int slot, int err, uint64_t req, long ret) {
    uint64_t h = W->evHash ^ (uint64_t(cls) | uint64_t(slot) << 8 | uint64_t(err & 0xffff) << 16 | req << 32);
    h *= 0x100000001b3ull; h ^= (uint64_t) ret + (h >> 29); h *= 0x9e3779b97f4a7c15ull; W->evHash = h;
    if (W->nEv < MAXEV) { Event& e = W->ev[W->nEv]; e.cls = cls; e.slot = slot; e.err = err; e.req = req; e.ret = ret; }
    if (++W->nEv > MAXSTEPS) finish(END_CPU, 0, 0);
}

// Returns the fault that applies to this call, if any; counts the call.
static SFault* faultAt(int cls, int slot) {
    uint64_t k = W->cnt[cls][slot]++, ka = W->cntAll[cls]++;
    uint64_t ks = W->cnt[CL_ANY][slot], kall = W->cntAll[CL_ANY];
    if (cls != CL_ALLOC) { W->cnt[CL_ANY][slot]++; W->cntAll[CL_ANY]++; }
    for (int i = 0; i < W->nfaults; ++i) {
        SFault& f = W->faults[i];
        if (f.cls == CL_ANY ? cls == CL_ALLOC : f.cls != cls) continue;
        if (f.slot >= 0 && f.slot != slot) continue;
        uint64_t n = f.cls == CL_ANY ? (f.slot < 0 ? kall : ks) : (f.slot < 0 ? ka : k);
        if (n == f.nth || (f.sticky && n > f.nth)) { ++f.fired; return &f; }
    }
    return nullptr;
}

static int slotOf(int fd) { return W->fds[fd].slot; }
static bool okFd(long fd) { return fd >= 0 && fd < MAXFD && W->fds[fd].used; }
int seamOpenFds() { int n = 0; for (int i = 3; i < MAXFD; ++i) n += W->fds[i].used; return n; }

static int findFile(const char* p, bool create) {
    while (p[0] == '.' && p[1] == '/') p += 2;
    for (int i = 0; i < D->nfiles; ++i) if (eq(D->files[i].path, p)) return i;
    if (!create || D->nfiles >= MAXF || sl(p) >= sizeof D->files[0].path) return -1;
    SFile& f = D->files[D->nfiles];
    memset(&f, 0, sizeof f); cp(f.path, p, sl(p) + 1); f.blk = 4096;
    return D->nfiles++;
}

static void markMapped(bool*);
// a node nobody refers to
static int newNode() {
    bool used[MAXNODE]; memset(used, 0, sizeof used);
    for (int i = 0; i < D->nfiles; ++i) if (D->files[i].exists) used[D->files[i].node] = true;
    for (int k = 0; k < (D->nproc > 1 ? D->nproc : 1); ++k) { World* w = D->nproc > 1 ? Ws[k] : W; for (int i = 0; i < MAXFD; ++i) if (w->fds[i].used && w->fds[i].slot < MAXF) used[w->fds[i].node] = true; }
    markMapped(used);
    for (int i = 0; i < MAXNODE; ++i) if (!used[i]) { SNode& d = D->nodes[i]; d.isdir = d.readonly = 0; d.ro = nullptr; d.size = 0; d.mtime = D->now; ++d.ver; return i; }
    finish(END_UNSUPPORTED, 0, 9005);
}

static void reserve(SNode& f, uint64_t n) {
    if (n <= f.cap) return;
    uint64_t cap = f.cap ? f.cap * 2 : 65536; while (cap < n) cap *= 2;
    if (D->arenaUsed + cap > ARENA) finish(END_UNSUPPORTED, 0, 9001);
    uint64_t off = D->arenaUsed; D->arenaUsed += cap;
    cp(Warena + off, Warena + f.off, f.size);
    f.off = off; f.cap = cap;
}

void seamSetFile(const char* path, const void* data, uint64_t n, bool inPlace, bool oldStamp) {
    int i = findFile(path, true); if (i < 0) finish(END_UNSUPPORTED, 0, 9004);
    SFile& f = D->files[i];
    // a new file under the old name: whoever has the old one open keeps it
    uint64_t stamp = oldStamp && f.exists ? D->nodes[f.node].mtime : D->now;
    if (!inPlace || !f.exists) { f.exists = 0; f.node = newNode(); }
    SNode& d = D->nodes[f.node];
    reserve(d, n); cp(Warena + d.off, data, n); d.size = n; d.mtime = stamp; ++d.ver; f.exists = 1;
}
static void change(int kind, int slot, int from, uint64_t fr) {
    SFile& f = D->files[slot];
    if (kind == CHG_REMOVE) { f.exists = 0; return; }
    SNode& o = D->nodes[f.node]; if (f.exists && o.readonly) return;
    if (kind == CHG_TRUNCATE) { if (f.exists) { o.size = (o.size + 1) * fr / 1000000; o.mtime = D->now; ++o.ver; } return; }
    SFile& x = D->files[from]; if (!x.exists) return;
    SNode& s = D->nodes[x.node]; if (s.isdir || s.readonly) return;
    seamSetFile(f.path, Warena + s.off, (s.size + 1) * fr / 1000000 > s.size ? s.size : (s.size + 1) * fr / 1000000, kind == CHG_OVERWRITE);
}
void seamDropFile(const char* path) { int i = findFile(path, false); if (i >= 0) D->files[i].exists = 0; }

static void crashPoint(SFault* f, bool after) {
    if (f && f->act == (after ? ACT_CRASH_AFTER : ACT_CRASH_BEFORE)) finish(END_CRASHED, 0, 0);
}

static long doOpen(const char* path, long flags) {
    int i = findFile(path, flags & O_CREAT);
    int slot = i < 0 ? SLOT_OTHER : i;
    SFault* f = faultAt(CL_OPEN, slot);
    crashPoint(f, false);
    long r;
    if (f && f->act == ACT_ERR) r = -f->err;
    else if (i < 0) r = -ENOENT;
    else {
        SFile& n = D->files[i]; SNode& s = D->nodes[n.node];
        int acc = flags & O_ACCMODE;
        if (n.exists && (flags & O_CREAT) && (flags & O_EXCL)) r = -EEXIST;
        else if (n.exists && s.isdir && acc != O_RDONLY) r = -EISDIR;
        else if (n.exists && s.readonly && acc != O_RDONLY) r = -EROFS;
        else if (!n.exists && !(flags & O_CREAT)) r = -ENOENT;
        else {
            int fd = 3; while (fd < MAXFD && W->fds[fd].used) ++fd;
            if (fd == MAXFD) r = -EMFILE;
            else {
                if (!n.exists) { n.node = newNode(); n.exists = 1; }
                else if ((flags & O_TRUNC) && acc != O_RDONLY) { s.size = 0; s.mtime = D->now; ++s.ver; }
                W->fds[fd] = SFd{1, i, n.node, (flags & O_APPEND) != 0, acc != O_RDONLY, acc != O_WRONLY, 0, ++D->nOfd};
                r = fd;
            }
        }
    }
    logEv(CL_OPEN, slot, f ? f->err : 0, flags, r);
    crashPoint(f, true);
    return r;
}

static uint64_t clip(uint64_t n, uint32_t mx, uint64_t& seed, uint64_t& ctr) {
    if (!mx || n <= 1) return n;
    uint64_t m = 1 + mix(seed) % mx;
    if (m < n) { ++ctr; return m; }
    return n;
}

static long doRead(long fd, void* buf, uint64_t n, long long at) {
    if (!okFd(fd)) return -EBADF;
    SFd& d = W->fds[fd];
    if (!d.rd) return -EBADF;
    int slot = d.slot;
    SFault* f = faultAt(CL_READ, slot);
    crashPoint(f, false);
    long r;
    if (f && f->act == ACT_ERR) { r = -f->err; if (slot == SLOT_IN) W->inSawErr = 1; }
    else if (slot == SLOT_IN) {
        for (int q = 0; q < W->nChg; ++q) if (W->chg[q].nth == W->cnt[CL_READ][SLOT_IN] - 1) change(W->chg[q].kind, W->chg[q].slot, W->chg[q].from, W->chg[q].fr);
        if (W->nWait < MAXWAIT) { auto& w = W->wait[W->nWait++]; w.in = W->inPos; w.out = W->outLen; if (W->track) { w.live = seamLiveB; w.fds = seamOpenFds(); } }
        uint64_t left = W->inLen - W->inPos, k = n < left ? n : left;
        if (W->lineIn) { uint64_t q = 0; while (q < k && W->in[W->inPos + q] != '\n') ++q; if (q < k) { k = q + 1; ++W->splitIn; } }
        k = clip(k, W->csMax ? W->csMax + W->inPos / 20000 : 0, W->csSeed, W->splitIn);
        cp(buf, W->in + W->inPos, k); W->inPos += k; r = k;
        if (k == 0 && n) W->inSawEof = 1;
    } else if (slot >= MAXF) r = -EBADF;
    else if (D->nodes[d.node].isdir) r = -EISDIR;
    else {
        SNode& s = D->nodes[d.node];
        uint64_t pos = at >= 0 ? at : d.pos;
        uint64_t left = pos < s.size ? s.size - pos : 0, k = n < left ? n : left;
        // big files are read in proportionally bigger pieces
        k = clip(k, W->rsMax ? W->rsMax + s.size / 2000 : 0, W->rsSeed, W->shortReads);
        cp(buf, (s.readonly ? s.ro : Warena + s.off) + pos, k); r = k;
        if (at < 0) d.pos += k;
    }
    logEv(CL_READ, slot, f ? f->err : 0, n, r);
    if (r > 0) W->idle = 0; else if (++W->idle > 20000) finish(END_CPU, 0, 0);    // nothing will ever come
    crashPoint(f, true);
    return r;
}

static void sink(unsigned char* b, uint64_t& len, uint64_t mx, const void* p, uint64_t n) {
    if (len + n > mx) { W->outOverflow = 1; finish(END_CPU, 0, 0); }     // output without end
    cp(b + len, p, n); len += n;
}

static long doWrite(long fd, const void* buf, uint64_t n, long long at) {
    if (!okFd(fd)) return -EBADF;
    SFd& d = W->fds[fd];
    if (!d.wr) return -EBADF;
    int slot = d.slot;
    SFault* f = faultAt(CL_WRITE, slot);
    if (f && f->act == ACT_CRASH_BEFORE && f->part < 0) crashPoint(f, false);
    long r; uint64_t k = n;
    bool err = false;
    if (f && f->act == ACT_ERR) {
        if (f->part > 0 && !f->armed && (uint64_t) f->part < n) { k = f->part; f->armed = 1; ++W->shortWrites; if (!f->sticky) f->nth++; }
        else err = true;
    } else if (f && f->part >= 0) { k = (uint64_t) f->part < n ? f->part : n; }
    else k = clip(n, W->wsMax ? W->wsMax + (slot < MAXF ? D->nodes[d.node].size / 500 : W->outLen / 20000) : 0, slot == SLOT_ERR ? W->weSeed : W->wsSeed, W->shortWrites);
    if (err) { r = -f->err; if (slot == SLOT_OUT) W->outSawErr = 1; }
    else if (slot == SLOT_OUT) { sink(Wout, W->outLen, OUTMAX, buf, k); r = k; }
    else if (slot == SLOT_ERR) { sink(Werr, W->errLen, ERRMAX, buf, k); r = k; }
    else if (slot >= MAXF) r = -EBADF;
    else {
        SNode& s = D->nodes[d.node];
        uint64_t pos = at >= 0 ? at : d.append ? s.size : d.pos;
        reserve(s, pos + k);
        if (pos > s.size) memset(Warena + s.off + s.size, 0, pos - s.size);
        cp(Warena + s.off + pos, buf, k);
        if (pos + k > s.size) s.size = pos + k;
        s.mtime = D->now; ++s.ver;
        if (at < 0) d.pos = pos + k;
        r = k;
    }
    logEv(CL_WRITE, slot, f ? f->err : 0, n, r);
    if (f && (f->act == ACT_CRASH_BEFORE || f->act == ACT_CRASH_AFTER)) finish(END_CRASHED, 0, 0);
    return r;
}

// advisory locks of whole files: by open file description (flock), or by process (fcntl; ofd 0)
static void unlock(int node, int ofd) { for (auto& l : D->locks) if (l.node == node + 1 && l.proc == W->id && l.ofd == ofd) l.node = 0; }
static long lock(int node, int ofd, bool ex, bool wait) {
    for (int n = 0;; ++n) {
        bool busy = false;
        for (auto& l : D->locks) if (l.node == node + 1 && !(l.proc == W->id && l.ofd == ofd) && !(l.ofd == 0) == !(ofd == 0) && (ex || l.ex)) busy = true;
        if (!busy) break;
        if (!wait) return -EAGAIN;
        int others = 0; for (int i = 0; i < D->nproc; ++i) others += i != W->id && D->alive[i];
        if (!others || n > 200000) finish(END_CPU, 0, 0);     // waits for ever
        passTime(); yieldProc();
    }
    unlock(node, ofd);
    for (auto& l : D->locks) if (!l.node) { l.node = node + 1; l.proc = W->id; l.ofd = ofd; l.ex = ex; return 0; }
    return -ENOLCK;
}

static long doClose(long fd) {
    if (!okFd(fd)) return -EBADF;
    int slot = slotOf(fd);
    if (slot < MAXF) {
        int same = 0; for (auto& x : W->fds) same += x.used && x.slot < MAXF && x.ofd == W->fds[fd].ofd;
        if (same == 1) unlock(W->fds[fd].node, W->fds[fd].ofd);
        unlock(W->fds[fd].node, 0);
    }
    SFault* f = faultAt(CL_CLOSE, slot);
    crashPoint(f, false);
    W->fds[fd].used = 0;
    long r = f && f->act == ACT_ERR ? -f->err : 0;
    if (r && slot == SLOT_OUT) W->outSawErr = 1;
    logEv(CL_CLOSE, slot, f ? f->err : 0, 0, r);
    crashPoint(f, true);
    return r;
}

static void fillStat(struct stat* st, int slot, int node) {
    memset(st, 0, sizeof *st);
    st->st_ino = slot < MAXF ? node + 1 : 1000 + slot; st->st_dev = 1; st->st_nlink = 1;
    if (slot < MAXF) {
        SNode& s = D->nodes[node];
        st->st_mode = s.isdir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_uid = st->st_gid = 1000;
        if (W->metaSeed) {      // another owner, mode, number, device
            static const int M[] = {0600, 0400, 0444, 0666, 0777, 0664, 0640, 04755};
            uint64_t x = W->metaSeed * 0x9e3779b97f4a7c15ull; if (!s.isdir) st->st_mode = S_IFREG | M[x >> 61]; st->st_uid = x >> 40 & 3 ? (x >> 30 & 0xfff) : 0; st->st_gid = x >> 20 & 0xff;
            st->st_nlink = 1 + (x >> 16 & 3); st->st_ino += x >> 10 & 0xffff; st->st_dev = 1 + (x >> 50 & 0xff);
        }
        st->st_size = s.size; st->st_blksize = D->files[slot].blk; st->st_mtim = st->st_ctim = {(time_t) (EPOCH + s.mtime / 1000000000), (long) (s.mtime % 1000000000)};
    } else {
        int k = slot - SLOT_IN; bool std = k >= 0 && k <= 2;
        st->st_mode = std && W->tty >> k & 1 ? S_IFCHR | 0620 : std && W->tty >> (3 + k) & 1 ? S_IFREG | 0644 : S_IFIFO | 0600;
        if (S_ISCHR(st->st_mode)) st->st_rdev = 0x8801;
        if (S_ISREG(st->st_mode)) st->st_size = k == 0 ? W->inLen : k == 1 ? W->outLen : W->errLen;
        st->st_blksize = slot == SLOT_OUT ? W->outBlk : slot == SLOT_IN ? W->inBlk : 4096;
    }
}

static long doStatPath(const char* p, struct stat* st) {
    int i = findFile(p, false);
    if (i < 0 || !D->files[i].exists) return -ENOENT;
    fillStat(st, i, D->files[i].node); return 0;
}

static long doRename(const char* a, const char* b) {
    int i = findFile(a, false);
    if (i < 0 || !D->files[i].exists) return -ENOENT;
    int j = findFile(b, true);
    if (j < 0) return -ENOSPC;
    SFault* f = faultAt(CL_CLOSE, j);     // a metadata update of the target
    crashPoint(f, false);
    long r = 0;
    if (f && f->act == ACT_ERR) r = -f->err;
    else if (i != j) {
        SFile& s = D->files[i]; SFile& t = D->files[j];
        if (t.exists && D->nodes[t.node].readonly) r = -EROFS;
        else { t.node = s.node; t.exists = 1; s.exists = 0; }
    }
    logEv(CL_CLOSE, j, f ? f->err : 0, 1, r);
    crashPoint(f, true);
    return r;
}

static long doUnlink(const char* p) {
    int i = findFile(p, false);
    if (i < 0 || !D->files[i].exists) return -ENOENT;
    SFault* f = faultAt(CL_CLOSE, i);
    crashPoint(f, false);
    D->files[i].exists = 0;
    crashPoint(f, true);
    return 0;
}

// a new name: for an existing file, or for a new directory (or symbolic link, which is never followed)
static long doLink(const char* from, const char* to, bool dir) {
    int i = from ? findFile(from, false) : 0;
    if (from && (i < 0 || !D->files[i].exists)) return -ENOENT;
    int j = findFile(to, true);
    if (j < 0) return -ENOSPC;
    if (D->files[j].exists) return -EEXIST;
    SFault* f = faultAt(CL_CLOSE, j);
    crashPoint(f, false);
    if (f && f->act == ACT_ERR) return -f->err;
    D->files[j].node = from ? D->files[i].node : newNode(); D->files[j].exists = 1;
    if (!from) D->nodes[D->files[j].node].isdir = dir;
    logEv(CL_CLOSE, j, 0, 1, 0);
    crashPoint(f, true);
    return 0;
}

// Mapped files: what is mapped read-only shows what the file holds now.
static struct { unsigned char* p; uint64_t len, off, ver; int node, prot; } maps[16];
static void markMapped(bool* used) { for (auto& m : maps) if (m.len) used[m.node] = true; }
static void refreshMaps() {
    for (auto& m : maps) if (m.len && m.ver != D->nodes[m.node].ver) {
        SNode& s = D->nodes[m.node]; m.ver = s.ver;
        uint64_t left = m.off < s.size ? s.size - m.off : 0, k = left < m.len ? left : m.len, pg = (k + 4095) / 4096 * 4096, all = (m.len + 4095) / 4096 * 4096;
        sud_raw(SYS_mprotect, (long) m.p, all, PROT_READ | PROT_WRITE, 0, 0, 0);
        memset(m.p, 0, all); cp(m.p, Warena + s.off + m.off, k);
        sud_raw(SYS_mprotect, (long) m.p, all, m.prot, 0, 0, 0);
        if (pg < all) sud_raw(SYS_mprotect, (long) (m.p + pg), all - pg, PROT_NONE, 0, 0, 0);
    }
}

static bool shared(long n) {
    switch (n) {
    case SYS_open: case SYS_openat: case SYS_creat: case SYS_read: case SYS_pread64: case SYS_readv: case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_close:
    case SYS_newfstatat: case SYS_stat: case SYS_access: case SYS_faccessat: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat:
    case SYS_ftruncate: case SYS_truncate: case SYS_fsync: case SYS_flock: case SYS_fcntl: case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_symlinkat: case SYS_mkdir: case SYS_mkdirat: case SYS_rmdir: case SYS_sched_yield: case SYS_nanosleep: case SYS_clock_nanosleep: return true;
    }
    return false;
}

static long sysSim(long n, long a, long b, long c, long d, long e, long f6) {
    if (shared(n)) { passTime(); if (D->nproc > 1) yieldProc(); }
    switch (n) {
    case SYS_open: return doOpen((const char*) a, b);
    case SYS_openat: return doOpen((const char*) b, c);
    case SYS_creat: return doOpen((const char*) a, O_CREAT | O_WRONLY | O_TRUNC);
    case SYS_read: return doRead(a, (void*) b, c, -1);
    case SYS_pread64: return doRead(a, (void*) b, c, d);
    case SYS_readv: {
        const iovec* v = (const iovec*) b; long t = 0;
        for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; long r = doRead(a, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; }
        return t; }
    case SYS_write: return doWrite(a, (const void*) b, c, -1);
    case SYS_pwrite64: return doWrite(a, (const void*) b, c, d);
    case SYS_writev: {
        const iovec* v = (const iovec*) b; long t = 0;
        for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; long r = doWrite(a, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; }
        return t; }
    case SYS_close: return doClose(a);
    case SYS_lseek: {
        if (!okFd(a)) return -EBADF;
        int s = slotOf(a);
        if (s >= MAXF) {
            int k = s - SLOT_IN; if (k < 0 || k > 2 || !(W->tty >> (3 + k) & 1)) return -ESPIPE;
            uint64_t& q = k == 0 ? W->inPos : k == 1 ? W->outLen : W->errLen;
            int64_t p = c == SEEK_SET ? b : c == SEEK_CUR ? (int64_t) q + b : (int64_t) (k == 0 ? W->inLen : q) + b;
            if (p < 0 || (k && (uint64_t) p != q)) return -EINVAL;
            if (k == 0) q = p;
            return p;
        }
        int64_t p = c == SEEK_SET ? b : c == SEEK_CUR ? (int64_t) W->fds[a].pos + b : (int64_t) D->nodes[W->fds[a].node].size + b;
        if (p < 0) return -EINVAL;
        W->fds[a].pos = p; return p; }
    case SYS_fstat: if (!okFd(a)) return -EBADF; fillStat((struct stat*) b, slotOf(a), W->fds[a].node); return 0;
    case SYS_newfstatat:
        if ((d & AT_EMPTY_PATH) && (!b || !*(const char*) b)) { if (!okFd(a)) return -EBADF; fillStat((struct stat*) c, slotOf(a), W->fds[a].node); return 0; }
        return doStatPath((const char*) b, (struct stat*) c);
    case SYS_stat: case SYS_lstat: return doStatPath((const char*) a, (struct stat*) b);
    case SYS_statx: return -ENOSYS;
    case SYS_access: { int i = findFile((const char*) a, false); return i >= 0 && D->files[i].exists ? 0 : -ENOENT; }
    case SYS_faccessat: case SYS_faccessat2: { int i = findFile((const char*) b, false); return i >= 0 && D->files[i].exists ? 0 : -ENOENT; }
    case SYS_readlink: case SYS_readlinkat: return -ENOENT;
    case SYS_rename: return doRename((const char*) a, (const char*) b);
    case SYS_renameat: case SYS_renameat2: return doRename((const char*) b, (const char*) d);
    case SYS_unlink: case SYS_rmdir: return doUnlink((const char*) a);
    case SYS_link: return doLink((const char*) a, (const char*) b, false);
    case SYS_linkat: return doLink((const char*) b, (const char*) d, false);
    case SYS_symlink: return doLink(nullptr, (const char*) b, false);
    case SYS_symlinkat: return doLink(nullptr, (const char*) c, false);
    case SYS_mkdir: return doLink(nullptr, (const char*) a, true);
    case SYS_mkdirat: return doLink(nullptr, (const char*) b, true);
    case SYS_unlinkat: return doUnlink((const char*) b);
    case SYS_ftruncate: {
        if (!okFd(a) || slotOf(a) >= MAXF) return -EINVAL;
        SNode& s = D->nodes[W->fds[a].node];
        if ((uint64_t) b > s.size) { reserve(s, b); memset(Warena + s.off + s.size, 0, b - s.size); }
        s.size = b; s.mtime = D->now; ++s.ver; return 0; }
    case SYS_fsync: case SYS_fdatasync: {
        if (!okFd(a)) return -EBADF;
        SFault* f = faultAt(CL_CLOSE, slotOf(a)); crashPoint(f, false); crashPoint(f, true);
        return f && f->act == ACT_ERR ? -f->err : 0; }
    case SYS_fcntl:
        if (!okFd(a)) return -EBADF;
        if (b == F_GETFL) return W->fds[a].wr ? (W->fds[a].rd ? O_RDWR : O_WRONLY) : O_RDONLY;
        if (b == F_GETFD) return 0;
        if ((b == F_SETLK || b == F_SETLKW || b == F_OFD_SETLK || b == F_OFD_SETLKW || b == F_GETLK || b == F_OFD_GETLK) && slotOf(a) < MAXF) {
            struct flock* l = (struct flock*) c; SFd& x = W->fds[a]; int ofd = b == F_SETLK || b == F_SETLKW || b == F_GETLK ? 0 : x.ofd;
            if (b == F_GETLK || b == F_OFD_GETLK) { bool busy = false; for (auto& k : D->locks) if (k.node == x.node + 1 && !(k.proc == W->id && k.ofd == ofd) && (k.ex || l->l_type == F_WRLCK)) busy = true; if (!busy) l->l_type = F_UNLCK; return 0; }
            if (l->l_type == F_UNLCK) { unlock(x.node, ofd); return 0; }
            if (l->l_type == F_WRLCK ? !x.wr : !x.rd) return -EBADF;
            return lock(x.node, ofd, l->l_type == F_WRLCK, b == F_SETLKW || b == F_OFD_SETLKW);
        }
        return 0;
    case SYS_flock:
        if (!okFd(a)) return -EBADF;
        if (slotOf(a) >= MAXF) return 0;
        if (b & LOCK_UN) { unlock(W->fds[a].node, W->fds[a].ofd); return 0; }
        return lock(W->fds[a].node, W->fds[a].ofd, b & LOCK_EX, !(b & LOCK_NB));
    case SYS_fadvise64: case SYS_chmod: case SYS_fchmod: case SYS_umask: case SYS_fallocate: case SYS_fchown: case SYS_sync: case SYS_utimensat: return 0;
    case SYS_nanosleep: case SYS_clock_nanosleep: { struct timespec* t = (struct timespec*) (n == SYS_nanosleep ? a : c); D->now += t->tv_sec * 1000000000ull + t->tv_nsec; return 0; }
    case SYS_clock_gettime: return clock_gettime(a, (struct timespec*) b);
    case SYS_gettimeofday: return gettimeofday((struct timeval*) a, nullptr);
    case SYS_time: return time((time_t*) a);
    case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: return -EINVAL;
    case SYS_select: case SYS_pselect6: { long k = 0; for (long* s : {(long*) b, (long*) c, (long*) d}) if (s) for (long i = 0; i < a; ++i) if (s[i / 64] >> (i % 64) & 1) { if (s == (long*) d) s[i / 64] &= ~(1l << (i % 64)); else ++k; } return k; }
    case SYS_poll: case SYS_ppoll: { struct { int fd; short ev, rev; }* q = (decltype(q)) a; for (long i = 0; i < b; ++i) q[i].rev = q[i].ev & 5; return b; }
    case SYS_truncate: { int i = findFile((const char*) a, false); if (i < 0 || !D->files[i].exists) return -ENOENT; SNode& s = D->nodes[D->files[i].node]; if ((uint64_t) b > s.size) return -EINVAL; s.size = b; s.mtime = D->now; ++s.ver; return 0; }
    case SYS_ioctl: {
        if (!okFd(a)) return -EBADF;
        int k = slotOf(a) - SLOT_IN; if (k < 0 || k > 2 || !(W->tty >> k & 1)) return -ENOTTY;
        if (b == 0x5401 /* TCGETS */) { memset((void*) c, 0, 36); return 0; }
        if (b == 0x5413 /* TIOCGWINSZ */) { unsigned short* w = (unsigned short*) c; w[0] = 24; w[1] = 80; w[2] = w[3] = 0; return 0; }
        return -ENOTTY; }
    case SYS_dup: case SYS_dup2: case SYS_dup3: {
        if (!okFd(a)) return -EBADF;
        int fd = b; if (n == SYS_dup) { fd = 3; while (fd < MAXFD && W->fds[fd].used) ++fd; }
        if (fd < 0 || fd >= MAXFD) return -EMFILE;
        W->fds[fd] = W->fds[a]; return fd; }
    case SYS_getpid: case SYS_gettid: return W->pidBase + W->id;
    case SYS_getcwd: { size_t k = sl(W->cwd) + 1; cp((void*) a, W->cwd, k); return k; }
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return W->uid;
    case SYS_getrandom: { uint64_t& s = W->rndSeed; for (long i = 0; i < b; ++i) ((unsigned char*) a)[i] = mix(s); return b; }
    case SYS_mmap: {
        if (d & MAP_ANONYMOUS) return sud_raw(n, a, b, c, d, e, f6);
        if (!okFd(e) || slotOf(e) >= MAXF || (d & MAP_SHARED && c & PROT_WRITE)) return -EACCES;
        SFault* f = faultAt(CL_READ, slotOf(e));
        if (f && f->act == ACT_ERR) return -f->err;
        long p = sud_raw(SYS_mmap, a, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (d & MAP_FIXED), -1, 0);
        if (p < 0) return p;
        SNode& s = D->nodes[W->fds[e].node];
        uint64_t left = (uint64_t) f6 < s.size ? s.size - f6 : 0;
        cp((void*) p, (s.readonly ? s.ro : Warena + s.off) + f6, left < (uint64_t) b ? left : b);
        sud_raw(SYS_mprotect, p, b, c, 0, 0, 0);
        if (!(c & PROT_WRITE)) { int k = 0; while (k < 16 && maps[k].len) ++k; if (k == 16) finish(END_UNSUPPORTED, 0, 9006); maps[k] = {(unsigned char*) p, (uint64_t) b, (uint64_t) f6, s.ver, W->fds[e].node, (int) c}; }
        return p; }
    case SYS_munmap: for (auto& m : maps) if (m.len && m.p == (unsigned char*) a) m.len = 0; return sud_raw(n, a, b, c, d, e, f6);
    case SYS_exit_group: case SYS_exit: finish(END_EXIT, (int) a & 0xff, 0);
    case SYS_tgkill: finish(END_SIGNAL, 0, c);
    case SYS_tkill: case SYS_kill: finish(END_SIGNAL, 0, b);
    case SYS_mprotect: case SYS_madvise: case SYS_mremap: case SYS_brk: case SYS_futex:
    case SYS_rt_sigprocmask: case SYS_rt_sigaction: case SYS_sigaltstack: 
    case SYS_sched_yield:
    case SYS_getppid: case SYS_sysinfo: case SYS_clock_getres: case SYS_times: case SYS_getpgrp: case SYS_getsid:
    case SYS_membarrier: case SYS_getcpu: case SYS_prlimit64: case SYS_getrlimit: case SYS_sched_getaffinity: case SYS_prctl: case SYS_uname: case SYS_rseq:
    case SYS_getrusage: case SYS_arch_prctl: case SYS_set_robust_list:
        return sud_raw(n, a, b, c, d, e, f6);
    }
    W->badSys = n;              // an old kernel; a violation in such a run is not believed
    return -ENOSYS;
}

static void onSys(int, siginfo_t*, void* u) {
    greg_t* g = ((ucontext_t*) u)->uc_mcontext.gregs;
    int win = seamWin; seamWin = 0;
    g[REG_RAX] = sysSim(g[REG_RAX], g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
    refreshMaps();
    seamWin = win;
}

static int fillByte;           // set in simulated processes only

struct ksigaction { void* h; unsigned long flags; void* restorer; unsigned long mask; };

extern "C" void seamEnter() {
    fillByte = W->fill; simulated = true;
    ksigaction k = {(void*) onSys, SA_SIGINFO | SA_NODEFER | 0x04000000, (void*) sud_restorer, 0};
    sud_raw(SYS_rt_sigaction, SIGSYS, (long) &k, 0, 8, 0, 0);
    if (sud_raw(SYS_prctl, 59, 1, (long) sud_begin, sud_end - sud_begin, (long) &sudSel, 0) != 0)
        finish(END_UNSUPPORTED, 0, 9003);
    if (D->nproc > 1) waitTurn();
}

// ---------------------------------------------------------------- allocation
volatile int seamWin, seamExempt, seamTrack;
int seamDebug;
int64_t seamLiveN, seamLiveB;
extern "C" { void (*seamYield)(void); void (*seamOnAlloc)(void*, size_t); void (*seamOnFree)(void*); }

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
}

enum { TBL = 1 << 20 };
static struct { void* p; size_t n; } tbl[TBL];     // open addressing, linear probing

// SIM_BT=1: call stacks of blocks still held (for people only)
static struct { void* p; void* a[14]; int n; } dbg[1 << 16]; static int dbgN;
static void dbgNote(void* p, int add) {
    if (!add) { for (int i = dbgN; i-- > 0;) if (dbg[i].p == p) { dbg[i].p = nullptr; return; } return; }
    int i = 0; while (i < dbgN && dbg[i].p) ++i;
    if (i == (1 << 16)) return;
    if (i == dbgN) ++dbgN;
    dbg[i].p = p; dbg[i].n = backtrace(dbg[i].a, 14);
}
void seamDumpLive() {
    for (int i = 0; i < dbgN; ++i) if (dbg[i].p) {
        char b[600]; int k = snprintf(b, sizeof b, "live ");
        for (int q = 2; q < dbg[i].n; ++q) k += snprintf(b + k, sizeof b - k, "%p ", dbg[i].a[q]);
        b[k++] = '\n'; sud_raw(SYS_write, 2, (long) b, k, 0, 0, 0);
    }
}

static unsigned hp(void* p) { uint64_t x = (uint64_t) p >> 4; x *= 0x9e3779b97f4a7c15ull; return x >> 44; }
static void trackAdd(void* p, size_t n) {
    if (seamOnAlloc) seamOnAlloc(p, n);
    if (!p || !seamTrack) return;
    if (seamLiveN > TBL / 2) return;
    unsigned i = hp(p) & (TBL - 1);
    while (tbl[i].p) i = (i + 1) & (TBL - 1);
    tbl[i].p = p; tbl[i].n = n; ++seamLiveN; seamLiveB += n;
    if (seamDebug) dbgNote(p, 1);
}
static bool trackDel(void* p) {
    if (seamOnFree) seamOnFree(p);
    if (!p || !seamLiveN) return false;
    unsigned i = hp(p) & (TBL - 1);
    while (tbl[i].p && tbl[i].p != p) i = (i + 1) & (TBL - 1);
    if (!tbl[i].p) return false;
    --seamLiveN; seamLiveB -= tbl[i].n;
    if (seamDebug) dbgNote(p, 0);
    for (;;) {
        tbl[i].p = nullptr;
        unsigned j = i;
        for (;;) {
            j = (j + 1) & (TBL - 1);
            if (!tbl[j].p) return true;
            unsigned k = hp(tbl[j].p) & (TBL - 1);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tbl[i] = tbl[j]; i = j;
    }
}

static bool allocFails(size_t n) {
    if (seamYield) seamYield();
    if (n > (256u << 20)) return true;                  // a machine with finite memory
    if (!seamWin || seamExempt || !W) return false;
    ++W->allocTotal;
    if (!faultAt(CL_ALLOC, SLOT_OTHER)) return false;
    if (seamDebug) {        // where was it? (SIM_BT=1, for people only)
        void* a[24]; int n = backtrace(a, 24); char b[800]; int k = 0;
        for (int i = 1; i < n; ++i) k += snprintf(b + k, sizeof b - k, "%p ", a[i]);
        b[k++] = '\n'; sud_raw(SYS_write, 2, (long) b, k, 0, 0, 0);
    }
    return true;
}

extern "C" size_t malloc_usable_size(void*);
extern "C" { char* __real_getenv(const char*); char* __wrap_getenv(const char* n); char* __wrap_secure_getenv(const char* n); }
// the environment as the program asks for it: any variable may be set to anything
char* __wrap_getenv(const char* n) {
    if (!simulated || !W->envSeed || !strcmp(n, "LIBTHAI_DICTDIR")) return __real_getenv(n);
    static char V[][24] = {"", "1", "0", "/w/other.dic", "C.UTF-8", "th_TH.TIS-620", "/w", "yes", "n", "100", "dumb", "json", "-r", "/sim/share/except.dic"};
    uint64_t h = W->envSeed; for (; *n; ++n) h = (h ^ (unsigned char) *n) * 0x100000001b3ull; h = mix(h);
    return h % 4 == 0 ? nullptr : V[(h >> 8) % 3 ? (h >> 16) % 14 : 3];
}
char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }
static size_t pad(size_t n) { if (!simulated || !W->padSeed) return n; uint64_t z = mix(W->padSeed); return n + 16 * (z % 9) + ((z >> 8) % 200 ? 0 : (z >> 20) % 100000); }
static void* fresh(void* p, size_t n) { if (p && fillByte) memset(p, fillByte, n); return p; }
static void stale(void* p) { if (p && fillByte) memset(p, fillByte ^ 0xff, malloc_usable_size(p)); }

extern "C" {
void* __wrap_malloc(size_t n) { if (allocFails(n)) { errno = ENOMEM; return nullptr; } void* p = fresh(__real_malloc(pad(n)), n); trackAdd(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (allocFails(a * b)) { errno = ENOMEM; return nullptr; } void* p = __real_calloc(a, b); trackAdd(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) {
    if (allocFails(n)) { errno = ENOMEM; return nullptr; }
    int had = trackDel(q);
    void* p = __real_realloc(q, n);
    if (p) { int t = seamTrack; if (had) seamTrack = 1; trackAdd(p, n); seamTrack = t; }
    return p;
}
void __wrap_free(void* p) { if (seamYield) seamYield(); trackDel(p); stale(p); __real_free(p); }
char* __wrap_strndup(const char* s, size_t n) { size_t l = strnlen(s, n); char* p = (char*) __wrap_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
char* __wrap_strdup(const char* s) { return __wrap_strndup(s, (size_t) -1); }
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
int __wrap_posix_memalign(void** q, size_t a, size_t n) { if (allocFails(n)) return ENOMEM; int r = __real_posix_memalign(q, a, n); if (!r) trackAdd(*q, n); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (allocFails(n)) { errno = ENOMEM; return nullptr; } void* p = __real_aligned_alloc(a, n); trackAdd(p, n); return p; }
}

static void* nw(size_t n) { if (allocFails(n)) return nullptr; void* p = fresh(__real_malloc(pad(n ? n : 1)), n); trackAdd(p, n); return p; }
void* operator new(size_t n) { void* p = nw(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = nw(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// Calls into libthai and libdatrie.  Some allocation failures inside these
// libraries are swallowed by the libraries themselves (e.g. trie_fread ignores
// a failing alpha_map_add_range), so the boundary is simulated: such a call is
// one allocation point and either fails as its interface documents or works.
// libthai calls never fail for lack of memory: callers cannot tell that from
// "no break" (see DESIGN.md).
struct Exempt { Exempt() { ++seamExempt; } ~Exempt() { --seamExempt; } };
#define WRAPTH(ret, name, params, args) \
    extern "C" ret __real_##name params; \
    extern "C" ret __wrap_##name params { Exempt g; return __real_##name args; }
#define WRAPOOM(ret, name, params, args, fail) \
    extern "C" ret __real_##name params; \
    extern "C" ret __wrap_##name params { if (allocFails(1)) { errno = ENOMEM; return fail; } Exempt g; return __real_##name args; }
struct _ThBrk; struct _Trie; struct _AlphaMap; struct _TrieState; struct _IO_FILE; struct _TrieIterator;
WRAPTH(struct _ThBrk*, th_brk_new, (const char* p), (p))
WRAPTH(void, th_brk_delete, (struct _ThBrk* b), (b))
WRAPTH(int, th_brk_wc_find_breaks, (struct _ThBrk* b, const wchar_t* s, int* pos, size_t n), (b, s, pos, n))
WRAPTH(int, th_brk_find_breaks, (struct _ThBrk* b, const unsigned char* s, int* pos, size_t n), (b, s, pos, n))
WRAPOOM(struct _AlphaMap*, alpha_map_new, (), (), nullptr)
WRAPOOM(struct _AlphaMap*, alpha_map_clone, (const struct _AlphaMap* m), (m), nullptr)
WRAPOOM(int, alpha_map_add_range, (struct _AlphaMap* m, uint32_t b, uint32_t e), (m, b, e), -1)
WRAPOOM(struct _Trie*, trie_new, (const struct _AlphaMap* m), (m), nullptr)
WRAPOOM(struct _Trie*, trie_new_from_file, (const char* f), (f), nullptr)
WRAPOOM(struct _Trie*, trie_fread, (struct _IO_FILE* f), (f), nullptr)
WRAPOOM(int, trie_store, (struct _Trie* t, const uint32_t* k, int32_t d), (t, k, d), 0)
WRAPOOM(int, trie_store_if_absent, (struct _Trie* t, const uint32_t* k, int32_t d), (t, k, d), 0)
WRAPOOM(struct _TrieState*, trie_root, (const struct _Trie* t), (t), nullptr)
WRAPOOM(struct _TrieState*, trie_state_clone, (const struct _TrieState* t), (t), nullptr)
WRAPTH(int, trie_retrieve, (const struct _Trie* t, const uint32_t* k, int32_t* d), (t, k, d))
WRAPTH(int, trie_delete, (struct _Trie* t, const uint32_t* k), (t, k))
