// exec.cc - executes a plan on the simulated machine and judges it
#include "exec.h"
#include "world.h"
#include "source.h"

#include "dict/dict.h"
#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"
#include "parser/parser.h"

#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <list>
#include <memory>
#include <new>
#include <stdexcept>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

using namespace std;

extern "C" int thpronun_main(int, const char**);
extern "C" int gen_lookup_dict_main(int, const char**);

Stats* S;

static const char* const THBRK = "/usr/share/libthai/thbrk.tri";
static const char* const DEFDICT = "/sim/share/except.dic";
static const char* const REFDICT = "/ref/dict.dic";

struct FileEnt { string data; bool isdir = false; uint64_t mtime = 0; };      // mtime 0: not stamped yet
typedef map<string, FileEnt> Disk;

static string* thbrk;                 // host word-segmentation data (read-only input)
static Parser *tmplBrk, *tmplNo;      // built, never used for parsing before fork
static bool tracing; static string* trace;

struct Fault { string cls, at; long long fr = -1; uint64_t nth = 0; int err = EIO; int act = ACT_ERR; long long part = -1; bool sticky = false; };

static Fault parseFault(const string& s) {
    Fault f; size_t p = 0;
    while (p <= s.size()) {
        size_t q = s.find(',', p); if (q == string::npos) q = s.size();
        string t = s.substr(p, q - p); p = q + 1;
        size_t e = t.find('='); string k = t.substr(0, e), v = e == string::npos ? "" : t.substr(e + 1);
        if (k == "cls") f.cls = v; else if (k == "at") f.at = v; else if (k == "fr") f.fr = atoll(v.c_str());
        else if (k == "nth") { f.fr = -1; f.nth = atoll(v.c_str()); } else if (k == "err") f.err = atoi(v.c_str());
        else if (k == "act") f.act = v == "kill" ? ACT_CRASH_BEFORE : v == "killafter" ? ACT_CRASH_AFTER : ACT_ERR;
        else if (k == "part") f.part = atoll(v.c_str()); else if (k == "sticky") f.sticky = true;
    }
    return f;
}
static int clsOf(const string& s) { return s == "open" ? CL_OPEN : s == "read" ? CL_READ : s == "write" ? CL_WRITE : s == "close" ? CL_CLOSE : s == "alloc" ? CL_ALLOC : CL_ANY; }
static const char* clsName(int c) { static const char* n[] = {"open", "read", "write", "close", "alloc", "any"}; return n[c]; }
static const char* errName(int e) {
    switch (e) { case EIO: return "EIO"; case ENOSPC: return "ENOSPC"; case EACCES: return "EACCES"; case ENOENT: return "ENOENT"; case EMFILE: return "EMFILE"; case ENFILE: return "ENFILE";
        case ENOMEM: return "ENOMEM"; case EDQUOT: return "EDQUOT"; case EPIPE: return "EPIPE"; case EFBIG: return "EFBIG"; case EROFS: return "EROFS"; case EISDIR: return "EISDIR"; case EAGAIN: return "EAGAIN"; case EBADF: return "EBADF"; case EINTR: return "EINTR"; case ESTALE: return "ESTALE"; }
    return "errno";
}

struct Knobs { uint64_t rs = 0, ws = 0, cs = 0; uint32_t rsM = 0, wsM = 0, csM = 0; int ib = 4096, ob = 4096, blk = 4096, fill = 0, line = 0; };
static void splitK(const string& s, uint32_t& m, uint64_t& seed) { size_t c = s.find(':'); m = atoi(s.c_str()); seed = c == string::npos ? 1 : strtoull(s.c_str() + c + 1, nullptr, 10); }
static Knobs knobsOf(const Op& o) {
    Knobs k; string v;
    if (!(v = o.str("rs")).empty()) splitK(v, k.rsM, k.rs);
    if (!(v = o.str("ws")).empty()) splitK(v, k.wsM, k.ws);
    if (!(v = o.str("cs")).empty()) splitK(v, k.csM, k.cs);
    k.ib = o.num("ib", 4096); k.ob = o.num("ob", 4096); k.blk = o.num("blk", 4096);
    k.line = o.num("line");
#ifndef SIM_THREADS
    k.fill = o.num("fill", 0xa5);      // what uninitialised memory holds; references run with it as it comes
#endif
    return k;
}

struct Proc {
    int end = END_NONE, code = 0, sig = 0; long badSys = 0;
    string out, err;
    uint64_t evHash = 0, nEv = 0, allocs = 0, inPos = 0;
    bool inEof = false, inErr = false, outErr = false;
    vector<pair<uint64_t, uint64_t>> waits; vector<pair<int64_t, int>> held;     // at each request for input
    vector<uint64_t> fired;                 // per fault
    uint64_t hardFired = 0, allocFired = 0, killFired = 0;
    uint64_t cnt[N_CLS][N_SLOT]; uint64_t cntAll[N_CLS];
    bool normal() const { return end == END_EXIT; }
    string how() const {
        if (end == END_EXIT) return "exit " + to_string(code);
        if (end == END_SIGNAL) return "signal " + to_string(sig);
        if (end == END_CRASHED) return "killed";
        if (end == END_CPU) return "no progress";
        return "unsupported system call " + to_string(badSys) + "/" + to_string(sig);
    }
};

struct HarnessError { string m; };
struct TooBig {};
static bool floodJudged;         // more output than there is room for is the program's fault: the caller knows how much to expect

static void diskReset(const Disk& d, const Knobs& k) {
    memset(D, 0, sizeof *D); D->nproc = 1; D->quantum = 1; D->delaySeed = k.rs * 31 + k.ws * 17 + k.cs; D->alive[0] = 1;
    int nn = 0;
    auto put = [&](const string& p, const string& data, bool dir, bool exists, const string* ro, uint64_t mt) {
        if (D->nfiles >= MAXF - 2) throw HarnessError{"too many files"};
        SFile& f = D->files[D->nfiles++]; SNode& n = D->nodes[nn];
        memset(&f, 0, sizeof f); strncpy(f.path, p.c_str(), sizeof f.path - 1);
        f.exists = exists; f.blk = k.blk; f.node = nn++; n.isdir = dir; n.mtime = mt; if (mt > D->now) D->now = mt;
        if (ro) { n.readonly = 1; n.ro = (const unsigned char*) ro->data(); n.size = ro->size(); f.blk = 4096; }
        else { n.cap = data.size() * 2 + 4096; n.off = D->arenaUsed; D->arenaUsed += n.cap; if (D->arenaUsed > ARENA) throw HarnessError{"disk full"}; n.size = data.size(); memcpy(Warena + n.off, data.data(), data.size()); if (p == THBRK) f.blk = 4096; }
    };
    auto t = d.find(THBRK);
    if (t == d.end()) put(THBRK, "", false, true, thbrk, 0); else put(THBRK, t->second.data, t->second.isdir, t->second.data != "<none>", nullptr, 0);
    for (auto& e : d) if (e.first != THBRK) put(e.first, e.second.data, e.second.isdir, true, nullptr, e.second.mtime);
    D->now += 1000000; D->t0 = D->now;
}

static void procReset(const string& in, const Knobs& k) {
    int id = W->id; memset(W, 0, offsetof(World, steps)); W->id = id; W->resUsed = 0; W->resOverflow = 0; W->allocTotal = 0; W->evHash = 0x1234567;
    W->in = (const unsigned char*) in.data(); W->inLen = in.size();
    W->rsSeed = k.rs; W->wsSeed = k.ws; W->weSeed = k.ws ^ 0x5e5e5e5e; W->csSeed = k.cs; W->rsMax = k.rsM; W->wsMax = k.wsM; W->csMax = k.csM;
    W->pidBase = 4000; W->uid = 1000; W->rndSeed = 42; strcpy(W->cwd, "/w");
    W->inBlk = k.ib; W->outBlk = k.ob; W->fill = k.fill; W->lineIn = k.line;
    W->fds[0] = SFd{1, SLOT_IN, 0, 0, 0, 1, 0}; W->fds[1] = SFd{1, SLOT_OUT, 0, 0, 1, 0, 0}; W->fds[2] = SFd{1, SLOT_ERR, 0, 0, 1, 0, 0};
}

static void worldReset(const Disk& d, const string& in, const Knobs& k) { diskReset(d, k); procReset(in, k); }

static int slotFor(const string& at) {
    if (at.empty() || at == "*") return -1;
    if (at == "stdin") return SLOT_IN;
    if (at == "stdout") return SLOT_OUT;
    if (at == "stderr") return SLOT_ERR;
    for (int i = 0; i < D->nfiles; ++i) if (at == D->files[i].path) return i;
    // a name not on the disk yet: declare it so that faults can refer to it
    SFile& f = D->files[D->nfiles]; memset(&f, 0, sizeof f); strncpy(f.path, at.c_str(), sizeof f.path - 1); f.blk = 4096;
    return D->nfiles++;
}

static bool setFault(SFault& t, const Fault& f, const Proc* dry) {
    memset(&t, 0, sizeof t);
    t.cls = clsOf(f.cls); t.slot = slotFor(f.at); t.act = f.act; t.err = f.err; t.sticky = f.sticky; t.part = f.part;
    if (t.cls == CL_ALLOC) t.slot = -1;
    if (f.fr >= 0) {
        if (!dry) return false;
        uint64_t n = t.slot < 0 ? dry->cntAll[t.cls] : dry->cnt[t.cls][t.slot];
        if (!n) return false;
        t.nth = (uint64_t) f.fr * n / 1000000;
    } else t.nth = f.nth;
    return true;
}

static long badSysSeen;
static void collect(int st, Proc& r) {
    if (W->badSys) badSysSeen = W->badSys;
    if (W->end != END_NONE) { r.end = W->end; r.code = W->code; r.sig = W->sig; r.badSys = W->badSys; }
    else if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.end = r.sig == SIGXCPU || r.sig == SIGKILL ? END_CPU : END_SIGNAL; }
    else { r.end = END_UNSUPPORTED; r.sig = 9100 + WEXITSTATUS(st); }
    r.out.assign((char*) Wout, W->outLen); r.err.assign((char*) Werr, W->errLen);
    S->n["simulated-us"] += (D->now - D->t0) / 1000;
    r.evHash = W->evHash; r.nEv = W->nEv; r.allocs = W->allocTotal; r.inPos = W->inPos;
    r.inEof = W->inSawEof; r.inErr = W->inSawErr; r.outErr = W->outSawErr;
    for (int i = 0; i < W->nWait; ++i) { r.waits.emplace_back(W->wait[i].in, W->wait[i].out); if (W->track) r.held.emplace_back(W->wait[i].live, W->wait[i].fds); }
    memcpy(r.cnt, W->cnt, sizeof r.cnt); memcpy(r.cntAll, W->cntAll, sizeof r.cntAll);
}

// what uninitialised locals will find
static __attribute__((noinline)) void paintStack(int b) { volatile char a[49152]; for (size_t i = 0; i < sizeof a; i += 1) a[i] = (char) b; }

static void scramble(uint64_t seed);
template <class F> static pid_t start(F f, const vector<string>* env = nullptr, uint64_t holes = 0) {
    S->n["processes"]++;
    pid_t p = fork();
    if (p < 0) throw HarnessError{"fork failed"};
    if (p == 0) {
#ifdef __SANITIZE_ADDRESS__
        rlimit rl = {30, 30};
#else
        rlimit rl = {15, 15};
#endif
        setrlimit(RLIMIT_CPU, &rl);
        rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        if (env && !env->empty()) { clearenv(); for (auto& e : *env) putenv(strdup(e.c_str())); }
        if (holes) scramble(holes);
        if (W->fill) paintStack(W->fill);
        seamEnter();
        f();
        seamRawExit(0);
    }
    return p;
}
template <class F> static int spawn(F f, const vector<string>* env = nullptr, uint64_t holes = 0) {
    pid_t p = start(f, env, holes); int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}

static void traceEvents(const string& head) {
    if (!tracing) return;
    *trace += head + "\n";
    char b[256];
    uint64_t n = W->nEv < 60 ? W->nEv : 60;
    for (uint64_t i = 0; i < n; ++i) {
        Event& e = W->ev[i];
        const char* who = e.slot < MAXF ? D->files[e.slot].path : e.slot == SLOT_IN ? "stdin" : e.slot == SLOT_OUT ? "stdout" : e.slot == SLOT_ERR ? "stderr" : "?";
        snprintf(b, sizeof b, "   %3llu %s %s req=%u ret=%d%s%s\n", (unsigned long long) i, clsName(e.cls), who, e.req, e.ret, e.err ? " INJECTED " : "", e.err ? errName(e.err) : "");
        *trace += b;
    }
    if (W->nEv > n) *trace += "   ... " + to_string(W->nEv - n) + " more\n";
}

static void countFaults(Proc& r) {
    r.fired.clear();
    for (int i = 0; i < W->nfaults; ++i) {
        SFault& f = W->faults[i];
        r.fired.push_back(f.fired);
        if (!f.fired) continue;
        string name;
        if (f.act != ACT_ERR) { name = f.part >= 0 ? "kill-torn-write" : f.act == ACT_CRASH_AFTER ? "kill-after-syscall" : "kill-before-syscall"; ++r.killFired; }
        else if (f.cls == CL_ALLOC) { name = f.sticky ? "alloc-fail-from" : "alloc-fail-once"; ++r.allocFired; }
        else { name = string(clsName(f.cls)) + "-" + errName(f.err) + (f.sticky ? "-sticky" : ""); if (f.part > 0) name += "-partial"; ++r.hardFired; }
        S->n["fault:" + name] += f.fired;
    }
    if (W->shortReads) S->n["fault:short-file-read"] += W->shortReads;
    if (W->shortWrites) S->n["fault:short-write"] += W->shortWrites;
    if (W->splitIn) S->n["fault:split-stdin-read"] += W->splitIn;
}

static Disk readDisk(const Disk& before) {
    Disk d;
    for (int i = 0; i < D->nfiles; ++i) {
        SFile& f = D->files[i]; SNode& n = D->nodes[f.node];
        if (!strcmp(f.path, THBRK)) { if (before.count(THBRK)) d[THBRK] = before.at(THBRK); continue; }
        if (!f.exists || n.readonly) continue;
        FileEnt e; e.isdir = n.isdir; e.data.assign((char*) Warena + n.off, n.size); e.mtime = n.mtime; d[f.path] = e;
    }
    return d;
}

struct Around { int pid = 4000, uid = 1000, tty = 0, stack = 0; uint64_t pad = 0, rnd = 42, late = 0, any = 0, meta = 0; string cwd = "/w"; vector<string> env; };
struct Change { uint64_t nth; int kind; string path, from; uint64_t fr; };
struct ProcCfg { bool isGen = false; vector<string> argv; string in; Knobs k; vector<Fault> faults; Around a; vector<Change> ch; bool track = false; };

static __attribute__((noinline)) int deeper(int n, int (*f)(int, const char**), int ac, const char** av) { volatile char b[n + 16]; b[n] = 1; int r = f(ac, av); return b[n] == 1 ? r : r + 1; }

static void runMain(const ProcCfg& c) {
    vector<const char*> av; for (auto& a : c.argv) av.push_back(a.c_str()); av.push_back(nullptr);
    seamWin = 1; seamTrack = c.track;
    auto f = c.isGen ? gen_lookup_dict_main : thpronun_main;
    int rc = c.a.stack ? deeper(c.a.stack, f, av.size() - 1, av.data()) : f(av.size() - 1, av.data());
    exit(rc);
}
// a heap with holes in seeded places
static void scramble(uint64_t seed) {
    Rng r(seed); vector<void*> v; v.reserve(6000);
    for (int i = 0; i < 6000; ++i) v.push_back(malloc(8 + r.below(r.chance(70) ? 90 : 600)));
    for (int i = 6000; --i > 0; ) swap(v[i], v[r.below(i + 1)]);
    for (int i = 0; i < 3500; ++i) free(v[i]);
}
static void surround(const ProcCfg& c) {
    W->pidBase = c.a.pid; W->uid = c.a.uid; W->tty = c.a.tty; W->padSeed = c.a.pad; W->rndSeed = c.a.rnd; W->envSeed = c.a.any; W->metaSeed = c.a.meta; strncpy(W->cwd, c.a.cwd.c_str(), sizeof W->cwd - 1);
    for (auto& h : c.ch) if (W->nChg < 8) { int s = slotFor(h.path), f = h.from.empty() ? s : slotFor(h.from); W->chg[W->nChg++] = {h.nth, h.kind, s, f, h.fr}; }
    D->now += c.a.late; D->t0 = D->now;
}

static Proc runProc(const ProcCfg& c, Disk& disk, const Proc* dry, bool faulty, const string& label) {
    worldReset(disk, c.in, c.k); W->track = c.track;
    if (faulty) for (auto& f : c.faults) if (W->nfaults < MAXFAULT && setFault(W->faults[W->nfaults], f, dry)) W->nfaults++;
    // declare slots in dry runs too, so that counters line up
    if (!faulty) for (auto& f : c.faults) slotFor(f.at);
    surround(c);
    int st = spawn([&] { runMain(c); }, &c.a.env, c.a.pad);
    Proc r; collect(st, r);
    if (W->outOverflow && !floodJudged) throw TooBig{};
    if (faulty) countFaults(r);
    if (r.end == END_UNSUPPORTED) throw HarnessError{label + ": " + r.how()};
    traceEvents(label + " -> " + r.how());
    disk = readDisk(disk);
    return r;
}

// Several processes at the same time on one disk; faults have absolute positions.
static vector<Proc> runProcs(const vector<ProcCfg>& cs, Disk& disk, uint64_t seed, int quantum, const vector<string>& labels) {
    diskReset(disk, cs[0].k);
    int n = cs.size(); vector<pid_t> pid(n); vector<int> st(n);
    for (auto& c : cs) for (auto& f : c.faults) slotFor(f.at);
    for (int i = 0; i < n; ++i) {
        worldSelect(i); procReset(cs[i].in, cs[i].k);
        for (auto& f : cs[i].faults) if (W->nfaults < MAXFAULT && setFault(W->faults[W->nfaults], f, nullptr)) W->nfaults++;
    }
    D->nproc = n; D->quantum = quantum; D->schedSeed = seed; D->turn = -1;
    for (int i = 0; i < n; ++i) D->alive[i] = 1;
    for (int i = 0; i < n; ++i) { worldSelect(i); const ProcCfg& c = cs[i]; pid[i] = start([&] { runMain(c); }); }
    schedStart();
    for (int left = n; left;) {
        int s; pid_t p = waitpid(-1, &s, 0); if (p < 0) { if (errno == EINTR) continue; throw HarnessError{"waitpid"}; }
        for (int i = 0; i < n; ++i) if (pid[i] == p) { st[i] = s; --left; schedNext(i); }
    }
    vector<Proc> rs;
    for (int i = 0; i < n; ++i) {
        worldSelect(i); Proc r; collect(st[i], r); countFaults(r);
        if (r.end == END_UNSUPPORTED) { worldSelect(0); throw HarnessError{labels[i] + ": " + r.how()}; }
        if (W->outOverflow) { worldSelect(0); D->nproc = 1; throw TooBig{}; }
        traceEvents(labels[i] + " -> " + r.how()); rs.push_back(r);
    }
    worldSelect(0);
    S->n["process-switches"] += D->switches;
    disk = readDisk(disk); D->nproc = 1;
    return rs;
}

// ------------------------------------------------------------- references
enum RefStatus { RF_OK, RF_BIG, RF_RANGE, RF_EXC, RF_CRASH, RF_NOLOAD };
struct Ref { int st = RF_CRASH; string text; uint64_t cost = 0; };

static const int MAXPATHS = 300;
#ifdef __SANITIZE_ADDRESS__
static const uint64_t MAXALLOC = 150000;        // slow
#else
static const uint64_t MAXALLOC = 600000;
#endif

static uint64_t countPaths(const PronunDAG& d, int node, map<int, uint64_t>& memo, int depth) {
    auto m = memo.find(node); if (m != memo.end()) return m->second;
    if (depth > 4000) return 1u << 30;
    memo[node] = 1u << 30;          // a cycle counts as "too many"
    uint64_t n = 0; bool any = false;
    auto r = d.outEdges(node);
    for (auto i = r.first; i != r.second; ++i) { any = true; n += countPaths(d, i->second.target, memo, depth + 1); if (n > (1u << 30)) n = 1u << 30; }
    if (!any) n = 1;
    return memo[node] = n;
}
static uint64_t paths(const PronunDAG& d) { map<int, uint64_t> m; return countPaths(d, 0, m, 0); }

static unique_ptr<ISylOutput> sylOut(char c) {
    switch (c) {
    case 't': return make_unique<ThaiSylOutput>();
    case 'r': return make_unique<RomanSylOutput>();
    case 'p': return make_unique<PhoneticSylOutput>();
    case 'w': return make_unique<RawSylOutput>();
    default: return make_unique<SoundexSylOutput>();
    }
}
// structure: 0 plain, 1 JSON, 2 grouped JSON
static unique_ptr<IOutput> makeOut(char c, int j) {
    if (j == 2) return make_unique<GroupedJsonOutput>(sylOut(c));
    if (j == 1) return make_unique<JsonOutput>(sylOut(c));
    switch (c) {
    case 'r': return make_unique<RomanOutput>();
    case 't': return make_unique<DelimOutput>(sylOut(c), '-');
    case 'p': return make_unique<DelimOutput>(sylOut(c), ' ');
    case 'w': return make_unique<DelimOutput>(sylOut(c), ',');
    default: return make_unique<DelimOutput>(sylOut(c), '-');
    }
}
struct OutSet { vector<unique_ptr<IOutput>> v; };
static const struct { char c; int j; } CANON[] = {{'w', 0}, {'t', 0}, {'r', 0}, {'p', 0}, {'s', 0}, {'w', 1}, {'t', 2}, {'w', 2}, {'r', 1}};
static OutSet* canonSet() { auto s = new OutSet; for (auto& c : CANON) s->v.push_back(makeOut(c.c, c.j)); return s; }

// The same text again is stored once.
static void resPut(Step& s, const string& t) {
    static struct { uint64_t h, off, len; } seen[1024];
    if (!W->resUsed) memset(seen, 0, sizeof seen);
    uint64_t h = 1469598103934665603ull; for (unsigned char c : t) h = (h ^ c) * 1099511628211ull;
    auto& e = seen[(h ^ h >> 29) % 1024];
    if (e.len && e.h == h && e.len == t.size() && !memcmp(Wres + e.off, t.data(), e.len)) { s.off = e.off; s.len = e.len; return; }
    e = {h, W->resUsed, t.size()};
    if (W->resUsed + t.size() > RESMAX) { e.len = 0; W->resOverflow = 1; s.off = 0; s.len = 0; return; }
    memcpy(Wres + W->resUsed, t.data(), t.size()); s.off = W->resUsed; s.len = t.size(); W->resUsed += t.size();
}

struct RefCache { unordered_map<uint64_t, Ref> m; };
static RefCache* cache;

template <class F> static Ref& cached(uint64_t key, F f) {
    auto it = cache->m.find(key);
    if (it != cache->m.end()) { S->n["ref-cache-hits"]++; return it->second; }
    if (cache->m.size() > 30000) cache->m.clear();
    return cache->m[key] = f();
}

// Result of one word in a process of its own.  outs: notation letters with
// structure j, or "" for the canonical set.
static Ref refWord(const string& word, bool brk, const string* dict, const string& outs, int j) {
    uint64_t key = comb(comb(hash64(word), dict ? hash64(*dict) : 7), comb(hash64(outs), brk * 16 + j + 1));
    return cached(key, [&] {
        Disk d; if (dict) d[REFDICT].data = *dict;
        worldReset(d, "", Knobs());
        int st = spawn([&] {
            Parser& p = brk ? *tmplBrk : *tmplNo;
            Step& s = W->steps[0]; s.status = ST_RUNNING; s.off = s.len = 0; W->nsteps = 1;
            if (dict && !p.loadExceptDict(REFDICT)) { s.status = ST_NOTRUN; s.value = 77; return; }
            try {
                W->faults[0].cls = CL_ALLOC; W->faults[0].slot = -1; W->faults[0].nth = MAXALLOC; W->faults[0].sticky = 1; W->nfaults = 1;
                seamWin = 1;
                auto dag = p.parseWord(word);
                seamWin = 0;
                if (paths(dag) > (uint64_t) MAXPATHS) { s.status = ST_BAD_ALLOC; return; }
                string t;
                if (outs.empty()) { OutSet* o = canonSet(); for (auto& x : o->v) t += x->output(dag) + "\x1e"; }
                else for (char c : outs) t += makeOut(c, j)->output(dag) + "\n";
                resPut(s, t); s.status = ST_OK;
            } catch (const bad_alloc&) { seamWin = 0; s.status = ST_BAD_ALLOC; }
            catch (const range_error&) { seamWin = 0; s.status = ST_RANGE; }
            catch (...) { seamWin = 0; s.status = ST_OTHER_EXC; }
        });
        Ref r; Proc pr; collect(st, pr); S->n["reference-runs"]++; r.cost = pr.cntAll[CL_ALLOC];
        Step& s = W->steps[0];
        if (pr.end == END_UNSUPPORTED && pr.sig != 9100) throw HarnessError{"reference: " + pr.how()};
        switch (W->nsteps ? s.status : ST_RUNNING) {
        case ST_OK: r.st = RF_OK; r.text.assign((char*) Wres + s.off, s.len); break;
        case ST_BAD_ALLOC: r.st = RF_BIG; break;
        case ST_RANGE: r.st = RF_RANGE; break;
        case ST_OTHER_EXC: r.st = RF_EXC; break;
        case ST_NOTRUN: r.st = RF_NOLOAD; break;
        default: r.st = RF_CRASH; r.text = pr.how();
        }
        return r;
    });
}

// Complete dictionaries known to this run: content -> source text
// alias: a dictionary with damaged data -> the dictionary it amounts to
struct Known { map<string, string> byContent, alias; map<string, Source> src; };
static Known* known;
static const Source& sourceOfDict(const string& content) { auto it = known->src.find(content); if (it == known->src.end()) it = known->src.emplace(content, parseSource(known->byContent[content])).first; return it->second; }

static Ref refCompile(const string& src) {
    uint64_t key = comb(hash64(src), 0xd1c7);
    Ref r = cached(key, [&] {
        Disk d; d["/ref/in.tsv"].data = src;
        ProcCfg c; c.isGen = true; c.argv = {"gen-lookup-dict", "/ref/in.tsv", "/ref/out.dic"};
        bool t = tracing; tracing = false;
        Proc p = runProc(c, d, nullptr, false, "reference build");
        tracing = t;
        Ref r; S->n["reference-runs"]++;
        if (p.end == END_EXIT && p.code == 0 && d.count("/ref/out.dic")) { r.st = RF_OK; r.text = d["/ref/out.dic"].data; }
        else if (p.end == END_EXIT) { r.st = RF_EXC; r.text = p.how(); }
        else { r.st = RF_CRASH; r.text = p.how(); }
        return r;
    });
    if (r.st == RF_OK && known->byContent.size() < 4096) known->byContent[r.text] = src;
    return r;
}

static u16string u16(const string& s) {      // harness texts only: valid UTF-8, BMP
    u16string r;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        if (c < 0x80) { r += c; i++; } else if (c < 0xe0) { r += (c & 0x1f) << 6 | (s[i + 1] & 0x3f); i += 2; }
        else { r += (c & 0xf) << 12 | (s[i + 1] & 0x3f) << 6 | (s[i + 2] & 0x3f); i += 3; }
    }
    return r;
}

static string modelLook(const Source& s, const string& w, int pos) {
    auto step = [&](size_t i) { unsigned char c = w[i]; return i + (c < 0x80 ? 1 : c < 0xe0 ? 2 : 3); };
    size_t b = 0; for (int i = 0; i < pos && b < w.size(); ++i) b = step(b);
    string r; int n = pos;
    for (size_t e = b; e < w.size();) {
        e = step(e); ++n;
        auto it = s.ent.find(w.substr(b, e - b));
        if (it != s.ent.end()) r += to_string(n) + ":" + it->second + "|";
    }
    return r;
}

// Does the file hold exactly the entries of the source?  Looked up, in a process
// of its own, through the library: every key, and neighbours of keys.
static string verifyDict(const string& content, const string& srcText) {
    return cached(comb(comb(hash64(content), hash64(srcText)), 0x7e1f), [&] {
        Source s = parseSource(srcText);
        vector<string> probes;
        for (auto& e : s.ent) {
            const string& k = e.first; probes.push_back(k);
            if (probes.size() < 600) { probes.push_back(k + "\xe0\xb8\xb2"); if (k.size() > 3) { probes.push_back(k.substr(0, k.size() - 3)); probes.push_back(k.substr(3)); probes.push_back(k.substr(0, k.size() - 3) + "\xe0\xb8\x81"); } }
        }
        probes.push_back("\xe0\xb8\x81\xe0\xb8\xb2"); probes.push_back("abc");
        Disk d; d[REFDICT].data = content;
        worldReset(d, "", Knobs());
        W->steps[0].status = ST_NOTRUN;
        int st = spawn([&] {
            Dict dict; Step& t = W->steps[0]; t.status = ST_RUNNING;
            if (!dict.open(REFDICT)) { t.status = ST_FALSE; return; }
            string all;
            for (auto& p : probes) { u16string w = u16(p); Match m(w, 0, &dict); while (m.findNext()) all += to_string(m.getCurPos()) + ":" + m.getData() + "|"; all += "\n"; }
            resPut(t, all); t.status = ST_OK;
        });
        Proc pr; collect(st, pr); S->n["reference-runs"]++;
        if (pr.end == END_UNSUPPORTED && pr.sig != 9100) throw HarnessError{"verification of a dictionary: " + pr.how()};
        Ref r; r.st = RF_EXC; Step& t = W->steps[0];
        if (t.status == ST_FALSE) r.text = "it cannot be loaded";
        else if (t.status != ST_OK) r.text = "looking it up: " + pr.how();
        else {
            string got((char*) Wres + t.off, t.len), want;
            for (auto& p : probes) want += modelLook(s, p, 0) + "\n";
            if (got == want) r.st = RF_OK;
            else { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t b = i < 40 ? 0 : i - 40; r.text = "look-ups give [" + esc(got.substr(b, 100)) + "] instead of [" + esc(want.substr(b, 100)) + "]"; }
        }
        return r;
    }).text;
}

// ------------------------------------------------------------- plan execution
struct Ctx {
    const Plan& plan; Disk disk; uint64_t digest = 99; uint64_t steps = 0; bool viol = false; string msg; bool nontrivial = false;
    vector<Op> jobs; map<string, pair<string, string>> genHist;      // C04: out path -> contents allowed as old / new
    set<string> debris;                                                 // C16: files left by killed builds
    explicit Ctx(const Plan& p) : plan(p) {}
    void fold(uint64_t x) { digest = comb(digest, x); }
    void violation(const string& m) { if (!viol) { viol = true; msg = m; } }
    // abstract signature: what happened in which order, without the data
    uint64_t sig = 7;
    void foldSig(uint64_t x) { sig = comb(sig, x); }
    void sigProc(const Proc& p) {
        uint64_t n = W->nEv < MAXEV ? W->nEv : MAXEV;
        uint64_t h = 3;
        for (uint64_t i = 0; i < n; ++i) { const Event& e = W->ev[i]; h = (h ^ (e.cls * 1000003u + e.slot * 8191u + e.err * 131u + (e.ret < 0 ? 1 : e.ret == 0 ? 2 : (uint32_t) e.ret < e.req ? 3 : 4))) * 0x100000001b3ull; }
        foldSig(h); foldSig(p.end * 1000 + p.code);
        for (int i = 0; i < W->nfaults; ++i) if (W->faults[i].fired) { const SFault& f = W->faults[i]; foldSig(f.cls * 64 + f.act * 8 + f.sticky); foldSig(f.nth); foldSig(f.part); }
    }
    void foldProc(const Proc& p) { sigProc(p); fold(p.evHash); fold(p.end * 1000 + p.code * 7 + p.sig); fold(hash64(p.out)); if (p.normal()) fold(hash64(p.err)); steps += p.nEv + p.allocs; fold(p.allocs); }
    // files written by hand are as old as the order of the plan says
    void stamp() { uint64_t t = 0; for (auto& e : disk) t = max(t, e.second.mtime); for (auto& e : disk) if (!e.second.mtime) e.second.mtime = t + 1000000000; }
    bool is(const char* p) const { return plan.prop == p; }
};

// where the data of a dictionary are: at is the position of their size
static bool bankOf(const string& t, const string& src, size_t& at, size_t& bank) {
    bank = 0;
    for (size_t a = 0; a < src.size();) { size_t e = src.find('\n', a); if (e == string::npos) e = src.size(); size_t tab = src.find('\t', a); if (tab != string::npos && tab < e) bank += e - tab; a = e + 1; }
    if (t.size() < bank + 4) return false;
    at = t.size() - bank - 4; const unsigned char* w = (const unsigned char*) t.data() + at;
    return ((size_t) w[0] << 24 | w[1] << 16 | w[2] << 8 | w[3]) == bank;
}
// C22: damage to the data of a dictionary, and what is left of it
static bool doBank(Ctx& c, const Op& o) {
    string p = o.str("path"); if (!c.disk.count(p)) return false;
    auto k = known->byContent.find(c.disk[p].data); if (k == known->byContent.end()) return false;
    string t = c.disk[p].data, src = k->second; size_t at, n; if (!bankOf(t, src, at, n)) return false;
    string b = t.substr(at + 4), was = b;
    if (o.find("from")) {
        string q = o.str("from"); if (!c.disk.count(q)) return false;
        auto l = known->byContent.find(c.disk[q].data); size_t at2, n2; if (l == known->byContent.end() || !bankOf(l->first, l->second, at2, n2)) return false;
        b = l->first.substr(at2 + 4);
    }
    if (o.find("cut")) b.resize((size_t) o.num("cut") * b.size() / 1000000);
    for (auto& x : o.all("set")) { size_t col = x.find(':'); if (b.empty() || col == string::npos) continue; b[(size_t) atoll(x.c_str()) * b.size() / 1000000] = (char) atoi(x.c_str() + col + 1); }
    b += o.str("ext");
    Source s = parseSource(src); map<string, size_t> idx; size_t i = 0; for (auto& e : s.order) { idx[e.first] = i; i += e.second.size() + 1; }
    string left; int lost = 0;
    for (auto& e : idx) {
        string d = e.second < b.size() ? b.substr(e.second) : "", norm; size_t z = d.find('\0'); if (z != string::npos) d.resize(z);
        if (!wellFormedPron(d, e.first.size() / 3, norm)) { ++lost; continue; }
        if (e.first.size() + norm.size() + 1 > 254) return false;
        left += e.first + "\t" + norm + "\n";
    }
    Ref r = refCompile(left); if (r.st != RF_OK) return false;
    uint32_t m = b.size(); string d = t.substr(0, at) + string{(char) (m >> 24), (char) (m >> 16), (char) (m >> 8), (char) m} + b;
    c.disk[p].data = d; known->alias[d] = r.text; if (b != was || lost) c.nontrivial = true;
    S->n["op:bank"]++; S->n["fault:bytes-of-dictionary-data-changed"] += o.all("set").size(); S->n["fault:data-of-another-dictionary"] += o.find("from") != nullptr; S->n["probe:malformed-entries"] += lost;
    if (tracing) *trace += "damage the data of " + p + ": " + to_string(lost) + " of " + to_string(idx.size()) + " entries malformed\n";
    return true;
}

static string shortText(const string& s, size_t n = 300) { string t = esc(s.substr(0, n)); if (s.size() > n) t += "...(" + to_string(s.size()) + " bytes)"; return t; }
static string diffAt(const string& got, const string& want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t b = i < 60 ? 0 : i - 60;
    return "at byte " + to_string(i) + ": got [" + shortText(got.substr(b), 160) + "] want [" + shortText(want.substr(b), 160) + "]";
}

static string sourceOf(const Op& o) {
    string t; auto& kv = o.kv; size_t last = 0, i = 0;
    for (auto& p : kv) if (p.first == "bulk") for (auto& e : bulkEntries(p.second)) t += e.first + "\t" + e.second + "\n";
    for (auto& p : kv) if (p.first == "e" || p.first == "m") ++last;
    for (auto& p : kv) if (p.first == "e" || p.first == "m") { t += p.second; if (++i < last || o.num("nl", 1)) t += "\n"; }
    return t;
}

static vector<Fault> faultsOf(const Op& o) { vector<Fault> v; for (auto& s : o.all("f")) v.push_back(parseFault(s)); return v; }

static void doGen(Ctx& c, const Op& o) {
    string in = o.str("in"), out = o.str("out");
    ProcCfg pc; pc.isGen = true; pc.argv = {"gen-lookup-dict", in, out}; pc.k = knobsOf(o); pc.faults = faultsOf(o);
    bool haveIn = c.disk.count(in) && !c.disk[in].isdir;
    string srcText = haveIn ? c.disk[in].data : "";
    Source src = parseSource(srcText);
    string before = c.disk.count(out) ? c.disk[out].data : "";
    bool hadBefore = c.disk.count(out);
    Ref ref; if (haveIn) ref = refCompile(srcText);
    Proc dry; const Proc* dp = nullptr;
    if (!pc.faults.empty()) { Disk d2 = c.disk; bool t = tracing; tracing = false; dry = runProc(pc, d2, nullptr, false, "dry gen"); tracing = t; dp = &dry; }
    Proc r = runProc(pc, c.disk, dp, true, "gen " + in + " -> " + out);
    S->n["op:gen"]++; c.foldProc(r);
    string after = c.disk.count(out) ? c.disk[out].data : "";
    c.fold(hash64(after));
    if (r.hardFired || r.allocFired || r.killFired) c.nontrivial = true;
    bool wf = haveIn && src.wellFormed;
    string what = "gen-lookup-dict " + r.how();
    if (r.killFired) S->n["probe:gen-killed"]++;
    if (r.killFired && after.size() && after != ref.text && ref.st == RF_OK && after.size() < ref.text.size()) S->n["probe:torn-dictionary-left"]++;
    if (r.end == END_EXIT && r.code == 0) {
        if (r.hardFired) S->n["probe:gen-success-despite-fault"]++;
        if (!wf) c.violation(what + (haveIn ? " although its input has a malformed line" : " although its input cannot be read"));
        else if (ref.st != RF_OK) c.violation(what + ", but the same input builds with '" + ref.text + "' without faults");
        else if (after != ref.text && !c.is("C04") && verifyDict(after, srcText).empty()) { known->byContent[after] = srcText; S->n["probe:gen-different-but-equivalent"]++; }
        else if (after != ref.text) c.violation(what + " but the output file is not the complete dictionary: " + to_string(after.size()) + " bytes, fault-free build has " + to_string(ref.text.size()) + (hadBefore ? " (file existed before)" : ""));
        else { string v = verifyDict(after, srcText); if (!v.empty()) c.violation(what + " but the output file does not hold the entries of the input: " + v); }
    } else if (r.end == END_EXIT) {
        if (r.hardFired || r.allocFired) S->n["probe:gen-failure-reported"]++;
        if (!r.hardFired && !r.allocFired && wf) c.violation(what + " although nothing failed");
    } else if (r.end != END_CRASHED) {
        if (!(r.allocFired && r.end == END_SIGNAL)) c.violation(what);
        else S->n["probe:gen-died-out-of-memory"]++;
        if (r.allocFired && r.end == END_SIGNAL && r.sig == 11) S->n["probe:gen-segv-out-of-memory"]++;
    }
    // remember what a reader may legitimately see from now on
    auto& h = c.genHist[out];
    string nw = ref.st == RF_OK ? ref.text : string();
    if (r.end == END_EXIT && r.code == 0) h = {nw, nw};
    else { if (hadBefore && known->byContent.count(before)) h.first = before; h.second = nw; }
}

static string expandLine(const string& k, const string& v) {
    if (k == "l") return v;
    size_t s = v.find('*'); size_t n = atoll(v.c_str()); string u = v.substr(s + 1), r;
    if (k == "L") { r.reserve(n * u.size()); for (size_t i = 0; i < n; ++i) r += u; return r; }
    return u;
}

// Record a line must produce in the given configuration; empty optional = drop the line.
struct Rec { bool usable = false, invalid = false; string text; };
static Rec recOf(Ctx& c, const string& line, bool brk, const string* dict, const string& outs, int j) {
    Rec r;
    Ref f = refWord(line, brk, dict, outs, j);
    if (f.st == RF_OK) { r.usable = true; r.text = line + ":\n" + f.text; return r; }
    if (f.st == RF_RANGE) {
        // what is printed for undecodable text is not specified: take it from a run of its own
        uint64_t key = comb(comb(hash64(line), dict ? hash64(*dict) : 3), comb(hash64(outs), 1000 + brk * 16 + j));
        Ref g = cached(key, [&] {
            Disk d; if (dict) d[REFDICT].data = *dict;
            ProcCfg pc; pc.argv = {"thpronun"}; if (!brk) pc.argv.push_back("-n"); if (j) pc.argv.push_back(j == 2 ? "-g" : "-j");
            for (char ch : outs) pc.argv.push_back(string("-") + ch);
            pc.argv.push_back(string("-d") + REFDICT); pc.in = line + "\n";
            bool t = tracing; tracing = false; Proc p = runProc(pc, d, nullptr, false, "reference line"); tracing = t;
            Ref q; S->n["reference-runs"]++;
            if (p.end == END_EXIT && p.out.compare(0, line.size() + 1, line + ":") == 0) { q.st = RF_OK; q.text = p.out; } else { q.st = RF_CRASH; q.text = p.how(); }
            return q;
        });
        if (g.st == RF_OK) { r.usable = r.invalid = true; r.text = g.text; }
        else if (c.is("C06")) c.violation("a line in invalid UTF-8 ends the run: " + g.text + ", line [" + shortText(line) + "]");
        return r;
    }
    if (f.st == RF_CRASH && c.is("C06")) c.violation("processing a line crashes: " + f.text + ", line [" + shortText(line) + "]");
    if (f.st == RF_EXC && c.is("C06")) c.violation("processing a line fails with an exception, line [" + shortText(line) + "]");
    return r;
}

static void doPron(Ctx& c, const Op& o) {
    bool argvMode = o.str("mode") == "argv";
    string outs = o.str("o"), dpath = o.str("d"); int j = o.num("j"); bool noBrk = o.num("n");
    ProcCfg pc; pc.k = knobsOf(o); pc.faults = faultsOf(o);
    for (auto& s : o.all("ch")) { Change h; char to[100], from[100]; unsigned long long n, fr; if (sscanf(s.c_str(), "%llu,%d,%99[^,],%99[^,],%llu", &n, &h.kind, to, from, &fr) == 5) { h.nth = n; h.fr = fr; h.path = to; h.from = from; pc.ch.push_back(h); } }
    string path = dpath.empty() ? DEFDICT : dpath;
    string eouts = outs.empty() ? "trp" : outs;

    // which dictionary states are legitimate before considering this run's faults?
    bool exists = c.disk.count(path); string content = exists ? c.disk[path].data : "";
    if (exists && !c.disk[path].isdir && known->alias.count(content)) content = string(known->alias[content]);
    bool complete = exists && !c.disk[path].isdir && known->byContent.count(content);
    vector<const string*> alts;      // dictionaries the run may legitimately use
    if (complete) alts.push_back(&content);
    string oldC, newC;
    if (c.is("C04") && c.genHist.count(path)) {
        oldC = c.genHist[path].first; newC = c.genHist[path].second;
        if (!complete) { if (!newC.empty() && exists && content.size()) alts.push_back(&newC); }
    }
    // the model may not know whether unusual content is a dictionary with extra bytes: skip such plans
    if (!complete && exists && !c.disk[path].isdir)
        for (auto& k : known->byContent) if (content.size() > k.first.size() && content.compare(0, k.first.size(), k.first) == 0) return;
    bool dictBad = !complete;

    bool thbrkBad = c.disk.count(THBRK);
    // lines
    struct L { string t; size_t rep; };
    vector<L> lines; size_t room = OUTMAX / 2;
    struct Flood { Flood() { floodJudged = true; } ~Flood() { floodJudged = false; } } flood;
    for (auto& p : o.kv) {
        if (p.first != "l" && p.first != "L" && p.first != "M") continue;
        string t = expandLine(p.first, p.second); size_t rep = p.first == "M" ? atoll(p.second.c_str()) : 1;
        if (argvMode && (t.find('\0') != string::npos || (!t.empty() && t[0] == '-'))) continue;
        if (t.find('\n') != string::npos) continue;
        // usable in every configuration the run may end up in?
        bool ok = true; size_t len = 0;
        vector<const string*> ds = alts; ds.push_back(nullptr);
        for (auto d : ds) for (int b = 0; b <= (noBrk ? 0 : 1); ++b) { Rec r = recOf(c, t, b, d, eouts, j); if (c.viol) return; ok = ok && r.usable; len = max(len, r.text.size()); }
        if (rep > 1) { Rec r = recOf(c, t, false, nullptr, eouts, j); size_t m = (2u << 20) / (r.text.size() + 1); if (rep > m) rep = m + 1; }
        if (ok && len * rep <= room) { lines.push_back({t, rep}); room -= len * rep; } else S->n["lines-dropped"]++;
    }
    if (argvMode && lines.empty()) return;
    bool anyInvalid = false;
    string input; vector<string> flat;
    for (auto& l : lines) for (size_t i = 0; i < l.rep; ++i) flat.push_back(l.t);
    bool nl = o.num("nl", 1);
    if (!argvMode) { for (size_t i = 0; i < flat.size(); ++i) { input += flat[i]; if (i + 1 < flat.size() || nl || flat[i].empty()) input += "\n"; } }
    pc.argv = {"thpronun"};
    if (noBrk) pc.argv.push_back("-n");
    if (!dpath.empty()) pc.argv.push_back("-d" + dpath);
    if (j) pc.argv.push_back(j == 2 ? "-g" : "-j");
    for (char ch : outs) pc.argv.push_back(string("-") + ch);
    if (argvMode) { size_t at = o.num("mix"); for (size_t i = 0; i < flat.size(); ++i) { if (at && i < pc.argv.size() / 2) pc.argv.insert(pc.argv.begin() + 1 + 2 * i, flat[i]); else pc.argv.push_back(flat[i]); }
        // keep word order: rebuild if interleaving reordered anything
        vector<string> ws; for (size_t i = 1; i < pc.argv.size(); ++i) if (pc.argv[i].empty() || pc.argv[i][0] != '-') ws.push_back(pc.argv[i]);
        if (ws != flat) { size_t k = 0; for (size_t i = 1; i < pc.argv.size(); ++i) if (pc.argv[i].empty() || pc.argv[i][0] != '-') pc.argv[i] = flat[k++]; } }
    else pc.in = input;

    Proc dry; const Proc* dp = nullptr;
    if (!pc.faults.empty()) { Disk d2 = c.disk; bool t = tracing; tracing = false; dry = runProc(pc, d2, nullptr, false, "dry thpronun"); tracing = t; dp = &dry; }
    Disk pre = c.disk;
    Proc r = runProc(pc, c.disk, dp, true, "thpronun");
    S->n["op:pron"]++; S->n["lines"] += flat.size(); c.foldProc(r);
    if (pc.ch.empty() && c.disk.size() != pre.size()) c.violation("thpronun changed the file system");
    if (!pc.ch.empty()) { S->n["op:file-changed-under-thpronun"] += pc.ch.size(); if (r.cnt[CL_READ][SLOT_IN] > pc.ch[0].nth) { c.nontrivial = true; S->n["fault:file-changed-while-in-use"]++; } for (auto& h : pc.ch) pre.erase(h.path); }
    for (auto& e : pre) if (!c.disk.count(e.first) || c.disk[e.first].data != e.second.data) c.violation("thpronun modified " + e.first);
    if (r.hardFired || r.allocFired || r.killFired || dictBad || thbrkBad) c.nontrivial = true;
    if (flat.size() > 1) c.nontrivial = true;

    // faults by target
    bool dictFault = false, brkFault = false, streamFault = false;
    for (size_t i = 0; i < r.fired.size(); ++i) if (r.fired[i]) {
        const SFault& f = W->faults[i];
        if (f.cls == CL_ALLOC) continue;
        string p = f.slot >= 0 && f.slot < MAXF ? D->files[f.slot].path : "";
        if (p == path) dictFault = true; else if (p == THBRK) brkFault = true; else streamFault = true;
    }
    bool mem = r.allocFired;
    if (r.killFired) return;

    // delivered input
    vector<string> got;
    if (argvMode) got = flat;
    else {
        string d = input.substr(0, r.inErr ? r.inPos : input.size());
        size_t p = 0; while (p < d.size()) { size_t q = d.find('\n', p); got.push_back(d.substr(p, q == string::npos ? string::npos : q - p)); p = q == string::npos ? d.size() : q + 1; }
    }
    struct Combo { const string* dict; bool brk; string name; };
    vector<Combo> combos;
    vector<const string*> ds = alts;
    if (!complete || dictFault || mem) ds.push_back(nullptr);
    for (auto d : ds) {
        if (noBrk || thbrkBad || brkFault || mem) combos.push_back({d, false, string(d ? "dictionary" : "no dictionary") + ", no segmentation"});
        if (!noBrk && (!thbrkBad || mem)) combos.push_back({d, true, string(d ? "dictionary" : "no dictionary") + ", segmentation"});
    }
    for (auto& l : got) { Rec q = recOf(c, l, false, nullptr, eouts, j); if (q.invalid) anyInvalid = true; }
    if (c.viol) return;

    // a line cut short by a failing read can have more readings than the whole one
    if (r.inErr && !got.empty()) for (auto& cb : combos) if (!recOf(c, got.back(), cb.brk, cb.dict, eouts, j).usable) { if (!c.viol) S->n["unjudged"]++; return; }

    string what = "thpronun " + r.how();
    if (r.end != END_EXIT) {
        if (!(mem && r.end == END_SIGNAL)) { c.violation(what + (r.err.empty() ? "" : ", stderr [" + shortText(r.err, 200) + "]")); return; }
        S->n["probe:pron-died-out-of-memory"]++;
    }
    bool ok0 = r.end == END_EXIT && r.code == 0;
    bool matched = false; string firstWant; bool warned = !r.err.empty();
    string why;
    // In-order search over the legitimate configurations.
    for (auto& cb : combos) {
        string want; bool usable = true;
        for (auto& l : got) { Rec q = recOf(c, l, cb.brk, cb.dict, eouts, j); if (!q.usable) { usable = false; break; } want += q.text; }
        if (!usable) { matched = true; S->n["unjudged"]++; break; }     // cut inside a line gave an unjudgeable word
        if (firstWant.empty()) firstWant = want;
        bool fits;
        if (ok0) fits = r.out == want;
        else fits = want.compare(0, r.out.size(), r.out) == 0;
        if (!fits) continue;
        // the warning must agree with the dictionary in use
        if (!mem && !streamFault && !anyInvalid && r.end == END_EXIT) {
            if (!cb.dict && !warned) { why = "no warning on standard error although no dictionary is in use"; continue; }
            if (cb.dict && warned && !c.is("C06")) {
                bool same = true; for (auto& l : got) { Rec a = recOf(c, l, cb.brk, nullptr, eouts, j), b = recOf(c, l, cb.brk, cb.dict, eouts, j); if (a.text != b.text) same = false; }
                if (!same) { why = "standard error says [" + shortText(r.err, 120) + "] but dictionary entries are used"; continue; }
            }
        }
        matched = true;
        if (!cb.dict) S->n["probe:worked-without-dictionary"]++;
        if (cb.dict && dictFault) S->n["probe:dictionary-used-despite-fault"]++;
        break;
    }
    if (!matched) {
        string cs; for (auto& cb : combos) cs += (cs.empty() ? "" : " / ") + cb.name;
        c.violation(what + ": output is not " + (ok0 ? "" : "a prefix of ") + "the expected one (" + cs + ")" + (why.empty() ? ", " + diffAt(r.out, firstWant) : ": " + why));
        return;
    }
    if (ok0) {
        if (!argvMode && r.inErr && !r.inEof) c.violation("thpronun exits 0 although reading standard input failed");
        if (!argvMode && r.inPos != input.size()) c.violation("thpronun exits 0 without having read all of standard input");
    } else if (r.end == END_EXIT && !mem && !streamFault && !anyInvalid) {
        c.violation(what + " although all input was read and all output delivered");
    }
    if (!ok0 && streamFault) S->n["probe:stream-failure-reported"]++;
    if (c.is("C13") && !argvMode && ok0) {
        // output due when so much input has been delivered: the records of its complete lines
        Combo& cb = combos[0]; vector<pair<uint64_t, uint64_t>> due; uint64_t in = 0, out = 0;
        for (auto& l : flat) { in += l.size() + 1; out += recOf(c, l, cb.brk, cb.dict, eouts, j).text.size(); due.emplace_back(in, out); }
        size_t k = 0; uint64_t need = 0;
        for (size_t i = 0; i < r.waits.size(); ++i) {
            while (k < due.size() && due[k].first <= r.waits[i].first) need = due[k++].second;
            S->n["waits-for-input"]++; if (need) S->n["probe:waited-with-records-due"]++;
            if (r.waits[i].second < need) { c.violation("thpronun waits for input (read " + to_string(i) + ", after " + to_string(r.waits[i].first) + " bytes with " + to_string(k) + " complete lines) with only " + to_string(r.waits[i].second) + " of " + to_string(need) + " bytes of output due written"); break; }
        }
    }
}

static bool tooBig(const Ctx& c, const string& w);
// C20: what is held when input is asked for, early and late in a long run of lines
static void doGrow(Ctx& c, const Op& o) {
    ProcCfg pc; pc.k = knobsOf(o); pc.track = true; pc.argv = {"thpronun"};
    string dpath = o.str("d"); if (o.num("n")) pc.argv.push_back("-n"); if (!dpath.empty()) pc.argv.push_back("-d" + dpath);
    int j = o.num("j"); if (j) pc.argv.push_back(j == 2 ? "-g" : "-j"); for (char ch : o.str("o")) pc.argv.push_back(string("-") + ch);
    size_t n = 0, reps = 1; bool mass = o.find("words"); uint64_t slack = 2048;
    if (mass) {
        vector<string> w = massWords(o.str("words")); n = w.size(); if (n < 6000 || n > MAXWAIT) return;      // a store of bounded size is full after the first quarter
        for (auto& x : w) { if (x.find('\n') != string::npos) x = "x"; pc.in += x + "\n"; }
        slack = 8192;
    } else {
        string block; uint64_t cost = 0;
        for (auto& l : o.all("l")) if (l.find('\n') == string::npos && !tooBig(c, l)) {
            uint64_t x = max(refWord(l, false, nullptr, "", 0).cost, refWord(l, true, nullptr, "", 0).cost);
            if (cost + x > MAXALLOC / 20) { S->n["lines-dropped"]++; continue; }
            cost += x; block += l + "\n"; ++n;
        }
        if (!n) return;
        reps = max<size_t>(160, 400 / n); if (reps * block.size() > (2u << 20)) return;
        for (size_t i = 0; i < reps; ++i) pc.in += block;
    }
    pc.faults = faultsOf(o); Proc dry; const Proc* dp = nullptr;
    if (!pc.faults.empty()) { Disk d2 = c.disk; bool t = tracing; tracing = false; dry = runProc(pc, d2, nullptr, false, "dry thpronun"); tracing = t; dp = &dry; }
    Proc r = runProc(pc, c.disk, dp, true, "thpronun");
    S->n["op:grow"]++; S->n["lines"] += n * reps; c.foldProc(r); c.nontrivial = true;
    if (r.outErr) { S->n["unjudged"]++; return; }                    // too much output
    if (r.end != END_EXIT) { c.violation("thpronun " + r.how() + " after " + to_string(r.inPos) + " bytes of input"); return; }
    if (r.inPos < pc.in.size()) { S->n["unjudged"]++; return; }
    // the second quarter of the input against the last one
    int64_t a = -1, b = -1; int fa = 0, fb = 0; uint64_t ia = 0, ib = 0; size_t N = pc.in.size();
    for (size_t i = 0; i < r.held.size(); ++i) {
        uint64_t in = r.waits[i].first; if (in >= N) continue;
        if (in >= N / 4 && in < N / 2) { if (r.held[i].first > a) { a = r.held[i].first; ia = in; } fa = max(fa, r.held[i].second); }
        if (in >= N / 4 * 3) { if (r.held[i].first > b) { b = r.held[i].first; ib = in; } fb = max(fb, r.held[i].second); }
    }
    if (a < 0 || b < 0) { S->n["unjudged"]++; return; }
    S->n[mass ? "probe:thousands-of-different-lines" : "probe:same-lines-again-and-again"]++;
    if (fb > fa) c.violation("open files grow: " + to_string(fa) + " in the second quarter of the input, " + to_string(fb) + " in the last");
    if (b > a + (int64_t) slack) c.violation("memory grows with the number of lines: " + to_string(a) + " bytes held after " + to_string(ia) + " bytes of input, " + to_string(b) + " after " + to_string(ib) + " of " + to_string(N));
}

// Words with more readings than can be listed are left out.  Which they are
// can depend on the dictionary.
static bool tooBig(const Ctx& c, const string& w) {
    for (int b = 0; b < 2; ++b) {
        Ref f = refWord(w, b, nullptr, "", 0); if (f.st == RF_BIG || f.st == RF_CRASH) return true;
        if (w.size() > 45) for (auto& e : c.disk) if (!e.second.isdir && e.second.data.size() > 40 && refWord(w, b, &e.second.data, "", 0).st == RF_BIG) return true;
    }
    return false;
}

// C15: processes on different files at the same time; each must end as it does alone
static void doPar(Ctx& c, const Op& o) {
    vector<ProcCfg> cs; vector<string> labels, outs; vector<Proc> alone; vector<string> want; set<string> written;
    for (auto& q : c.jobs) {
        ProcCfg pc; pc.isGen = q.str("prog") == "gen"; pc.k = knobsOf(q); pc.k.blk = 4096; string outp;
        pc.argv = {pc.isGen ? "gen-lookup-dict" : "thpronun"};
        if (pc.isGen) { outp = q.str("out"); if (!written.insert(outp).second) continue; pc.argv.push_back(q.str("in")); pc.argv.push_back(outp); }
        else for (auto& a : q.all("a")) pc.argv.push_back(a);
        for (auto& l : q.all("l")) {
            if (!tooBig(c, l)) pc.in += l + "\n";
        }
        pc.faults = faultsOf(q);
        Disk d = c.disk; bool t = tracing; tracing = false;
        if (!pc.faults.empty()) {       // fix the positions of the faults from a run alone without them
            Disk d0 = c.disk; Proc dry = runProc(pc, d0, nullptr, false, "dry");
            for (size_t i = 0; i < pc.faults.size(); ++i) {
                Fault& f = pc.faults[i]; if (f.fr < 0) continue;
                int slot = slotFor(f.at), cl = clsOf(f.cls); uint64_t n = slot < 0 ? dry.cntAll[cl] : dry.cnt[cl][slot];
                if (!n) { pc.faults.erase(pc.faults.begin() + i--); continue; }
                f.nth = (uint64_t) f.fr * n / 1000000; f.fr = -1;
            }
        }
        Proc r = runProc(pc, d, nullptr, true, "alone"); tracing = t;
        if (r.end == END_CPU) { S->n["unjudged"]++; continue; }
        if (r.hardFired || r.killFired) c.nontrivial = true;
        labels.push_back("process " + to_string(cs.size()) + " " + pc.argv[0]); cs.push_back(pc); alone.push_back(r); outs.push_back(outp); want.push_back(outp.empty() || !d.count(outp) ? "<none>" : d[outp].data);
        if (cs.size() == MAXPROC) break;
    }
    if (cs.size() < 2) return;
    S->n["op:par"]++;
    auto rs = runProcs(cs, c.disk, strtoull(o.str("seed").c_str(), nullptr, 10), max(1, (int) o.num("q", 1)), labels);
    c.fold(D->schedHash); c.foldSig(D->schedHash); if (D->switches > cs.size()) c.nontrivial = true;
    for (size_t i = 0; i < cs.size(); ++i) {
        Proc &A = alone[i], &B = rs[i]; worldSelect(i); c.foldProc(B); worldSelect(0);
        string got = outs[i].empty() || !c.disk.count(outs[i]) ? "<none>" : c.disk[outs[i]].data;
        if (A.end != B.end || A.code != B.code || A.sig != B.sig) c.violation(labels[i] + " ends with " + B.how() + " beside other processes, with " + A.how() + " alone");
        else if (A.out != B.out) c.violation(labels[i] + " writes other output beside other processes than alone, " + diffAt(B.out, A.out));
        else if (got != want[i]) c.violation(labels[i] + " leaves " + outs[i] + " different beside other processes than alone, " + diffAt(got, want[i]));
        if (A.killFired) S->n["probe:killed-beside-others"]++;
    }
}

// C21: thpronun beside a rebuild of the dictionary it reads
static void doRace(Ctx& c, const Op& o) {
    vector<ProcCfg> cs; vector<string> labels; string path = o.str("d"), oldC, newC, in = o.str("in"); vector<const string*> alts;
    if (c.disk.count(path) && !c.disk[path].isdir && known->byContent.count(c.disk[path].data)) { oldC = c.disk[path].data; alts.push_back(&oldC); }
    else if (c.disk.count(path)) return;
    {
        ProcCfg g; g.isGen = true; g.argv = {"gen-lookup-dict", in, path}; bool t = tracing; tracing = false;
        Disk d = c.disk; Proc r = runProc(g, d, nullptr, false, "alone"); tracing = t;
        if (r.end == END_EXIT && r.code == 0 && d.count(path)) { newC = d[path].data; alts.push_back(&newC); }
    }
    if (alts.empty()) return;
    alts.push_back(nullptr);
    struct Job { bool brk; string outs; int j; vector<string> lines; }; vector<Job> js;
    for (auto& q : c.jobs) {
        ProcCfg pc; pc.isGen = q.str("prog") == "gen"; pc.k = knobsOf(q); pc.argv = {pc.isGen ? "gen-lookup-dict" : "thpronun"}; Job jb{};
        if (pc.isGen) { if (!cs.empty() && cs[0].isGen) continue; pc.argv.push_back(in); pc.argv.push_back(path); }
        else {
            jb.brk = !q.num("n"); jb.outs = q.str("o"); jb.j = q.num("j"); if (!jb.brk) pc.argv.push_back("-n");
            pc.argv.push_back("-d" + path); if (jb.j) pc.argv.push_back(jb.j == 2 ? "-g" : "-j");
            for (char ch : jb.outs) pc.argv.push_back(string("-") + ch);
            if (jb.outs.empty()) jb.outs = "trp";
            for (auto& l : q.all("l")) {
                if (l.find('\n') != string::npos) continue;
                bool ok = true; for (auto d : alts) { Rec r = recOf(c, l, jb.brk, d, jb.outs, jb.j); ok = ok && r.usable && !r.invalid; }
                if (ok) { jb.lines.push_back(l); pc.in += l + "\n"; } else S->n["lines-dropped"]++;
            }
            if (jb.lines.empty()) continue;
        }
        pc.faults = faultsOf(q);
        if (!pc.faults.empty()) {
            bool t = tracing; tracing = false; Disk d0 = c.disk; Proc dry = runProc(pc, d0, nullptr, false, "dry"); tracing = t;
            for (size_t i = 0; i < pc.faults.size(); ++i) {
                Fault& f = pc.faults[i]; if (f.fr < 0) continue;
                int slot = slotFor(f.at), cl = clsOf(f.cls); uint64_t n = slot < 0 ? dry.cntAll[cl] : dry.cnt[cl][slot];
                if (!n) { pc.faults.erase(pc.faults.begin() + i--); continue; }
                f.nth = (uint64_t) f.fr * n / 1000000; f.fr = -1;
            }
        }
        labels.push_back("process " + to_string(cs.size()) + " " + pc.argv[0]); cs.push_back(pc); js.push_back(jb);
        if (cs.size() == MAXPROC) break;
    }
    if (cs.size() < 2) return;
    S->n["op:race"]++;
    auto rs = runProcs(cs, c.disk, strtoull(o.str("seed").c_str(), nullptr, 10), max(1, (int) o.num("q", 1)), labels);
    c.fold(D->schedHash); c.foldSig(D->schedHash); if (D->switches > cs.size()) c.nontrivial = true;
    for (size_t i = 0; i < cs.size(); ++i) {
        Proc& r = rs[i]; worldSelect(i); c.foldProc(r); worldSelect(0);
        if (r.killFired) { S->n["probe:killed-beside-others"]++; continue; }
        if (r.end != END_EXIT) { c.violation(labels[i] + " ends with " + r.how() + " while the dictionary is being rebuilt"); return; }
        if (cs[i].isGen) {
            if (r.code == 0 && (!c.disk.count(path) || c.disk[path].data != newC)) { c.violation(labels[i] + " exits 0 but leaves another dictionary than alone"); return; }
            continue;
        }
        bool fits = false; string why, want0;
        for (auto d : alts) {
            string want; for (auto& l : js[i].lines) want += recOf(c, l, js[i].brk, d, js[i].outs, js[i].j).text;
            if (want0.empty()) want0 = want;
            if (r.out != want) continue;
            if (!d && r.err.empty()) { why = ": no dictionary is in use and standard error is empty"; continue; }
            fits = true; S->n[!d ? "probe:worked-without-dictionary" : d == &oldC ? "probe:worked-with-old" : "probe:worked-with-new"]++;
            break;
        }
        if (!fits) { c.violation(labels[i] + " writes the records of neither the old nor the new dictionary nor none" + (why.empty() ? ", " + diffAt(r.out, want0) : why)); return; }
        if (r.code) { c.violation(labels[i] + " ends with " + r.how() + " although all input was read and all output delivered"); return; }
    }
}

// C14: the same run with and without standard error working
static void doErrp(Ctx& c, const Op& o) {
    ProcCfg pc; pc.isGen = o.str("prog") == "gen"; pc.k = knobsOf(o);
    pc.argv = {pc.isGen ? "gen-lookup-dict" : "thpronun"}; for (auto& a : o.all("a")) if (a.find('\0') == string::npos) pc.argv.push_back(a);
    bool haveWord = false; for (size_t i = 1; i < pc.argv.size(); ++i) if (pc.argv[i].empty() || pc.argv[i][0] != '-') haveWord = true;
    auto all = o.all("l"); for (size_t i = 0; i < all.size(); ++i) {
        if (!tooBig(c, all[i])) pc.in += all[i] + "\n";
    }
    if (!pc.isGen && haveWord) for (size_t i = 1; i < pc.argv.size(); ++i) if ((pc.argv[i].empty() || pc.argv[i][0] != '-') && tooBig(c, pc.argv[i])) return;
    pc.faults = faultsOf(o); size_t nf = pc.faults.size();
    bool t = tracing; tracing = false;
    Disk d0 = c.disk; Proc dry = runProc(pc, d0, nullptr, false, "dry");
    vector<SFault> fixed;
    Disk dA = c.disk; Proc A = runProc(pc, dA, &dry, true, "messages delivered");
    tracing = t;
    if (A.end == END_CPU) { S->n["unjudged"]++; return; }       // a line cut short can be one with too many readings
    ProcCfg pb = pc; for (auto& s : o.all("ef")) pb.faults.push_back(parseFault(s));
    // positions of the errors on standard error refer to the messages of run A, the others to the dry run
    for (size_t i = 0; i < pb.faults.size(); ++i) {
        Fault& f = pb.faults[i]; if (f.fr < 0) continue;
        const Proc& ref = i < nf ? dry : A; int slot = slotFor(f.at), cl = clsOf(f.cls);
        uint64_t n = slot < 0 ? ref.cntAll[cl] : ref.cnt[cl][slot];
        if (!n) { pb.faults.erase(pb.faults.begin() + i); if (i < nf) --nf; --i; continue; }
        f.nth = (uint64_t) f.fr * n / 1000000; f.fr = -1;
    }
    Proc B = runProc(pb, c.disk, nullptr, true, pc.argv[0] + " with undelivered messages");
    S->n["op:errp"]++; c.foldProc(B); if (B.hardFired) c.nontrivial = true;
    if (A.err.size()) S->n["probe:run-with-messages"]++;
    if (A.end != B.end || A.code != B.code || A.sig != B.sig) c.violation(pc.argv[0] + " ends with " + B.how() + " when standard error fails, with " + A.how() + " when it works");
    else if (A.out != B.out) c.violation(pc.argv[0] + " writes other output when standard error fails, " + diffAt(B.out, A.out));
    else {
        bool same = dA.size() == c.disk.size(); for (auto& e : dA) if (!c.disk.count(e.first) || c.disk[e.first].data != e.second.data) same = false;
        if (!same) c.violation(pc.argv[0] + " leaves other files behind when standard error fails");
    }
}

static ProcCfg progOf(const Ctx& c, const Op& o, bool& usable) {
    ProcCfg pc; pc.isGen = o.str("prog") == "gen"; pc.k = knobsOf(o); usable = true;
    pc.argv = {pc.isGen ? "gen-lookup-dict" : "thpronun"}; for (auto& a : o.all("a")) if (a.find('\0') == string::npos) pc.argv.push_back(a);
    auto big = [&](const string& w) { return tooBig(c, w); };
    for (auto& l : o.all("l")) if (!big(l)) pc.in += l + "\n";
    if (!pc.isGen) for (size_t i = 1; i < pc.argv.size(); ++i) if ((pc.argv[i].empty() || pc.argv[i][0] != '-') && big(pc.argv[i])) usable = false;
    pc.faults = faultsOf(o);
    return pc;
}

// C16: what a run does to files that are not its own
static void doTidy(Ctx& c, const Op& o) {
    bool usable; ProcCfg pc = progOf(c, o, usable); if (!usable) return;
    bool t = tracing; tracing = false;
    Disk d0 = c.disk, pre = c.disk; Proc dry = runProc(pc, d0, nullptr, false, "dry");
    tracing = t;
    Proc r = runProc(pc, c.disk, &dry, true, pc.argv[0]);
    S->n["op:tidy"]++; c.foldProc(r); if (r.hardFired || r.killFired || r.allocFired) c.nontrivial = true;
    string out; bool early = false;          // early: nothing to write, hence nothing to change
    if (pc.isGen && pc.argv.size() == 3) {
        out = pc.argv[2]; const string& in = pc.argv[1];
        if (in == out) return;
        early = !pre.count(in);
        for (size_t i = 0; i < r.fired.size(); ++i) if (r.fired[i] && W->faults[i].cls == CL_OPEN && W->faults[i].act == ACT_ERR && W->faults[i].slot >= 0 && W->faults[i].slot < MAXF && in == D->files[W->faults[i].slot].path && W->faults[i].sticky) early = true;
    }
    string what = pc.argv[0] + " (" + r.how() + ")";
    for (auto& e : pre) {
        if ((e.first == out && !early) || c.debris.count(e.first)) continue;
        if (!c.disk.count(e.first)) c.violation(what + " removes " + e.first);
        else if (c.disk[e.first].data != e.second.data) c.violation(what + " changes " + e.first + (early ? " although its input cannot be opened" : ""));
    }
    if (r.killFired && pc.isGen) for (auto& e : c.disk) if (!pre.count(e.first) && e.first != out) c.debris.insert(e.first);
    if (r.end == END_EXIT) for (auto& e : c.disk) if (!pre.count(e.first) && (e.first != out || early)) c.violation(what + " leaves " + e.first + " behind");
    if (early && pre.count(out)) S->n["probe:input-missing-output-present"]++;
    if (r.killFired) S->n["probe:killed"]++;
    if (r.end == END_EXIT && r.code) S->n["probe:failed-run"]++;
}

// C17: the same run in other surroundings
static Around aroundOf(const string& s, Knobs& k, vector<string>& argv) {
    Around a; size_t p = 0;
    while (p <= s.size()) {
        size_t q = s.find(',', p); if (q == string::npos) q = s.size();
        string t = s.substr(p, q - p); p = q + 1; size_t e = t.find('='); if (e == string::npos) continue;
        string n = t.substr(0, e), v = t.substr(e + 1); uint64_t x = strtoull(v.c_str(), nullptr, 10);
        if (n == "pid") a.pid = x; else if (n == "uid") a.uid = x; else if (n == "tty") a.tty = x; else if (n == "stack") a.stack = x % 200000; else if (n == "pad") a.pad = x; else if (n == "rnd") a.rnd = x; else if (n == "any") a.any = x; else if (n == "meta") a.meta = x;
        else if (n == "late") a.late = x * 1000000000ull; else if (n == "cwd") a.cwd = v.substr(0, 30); else if (n == "env") a.env.push_back(v); else if (n == "name") argv[0] = v;
        else if (n == "fill") k.fill = x & 255; else if (n == "blk") k.ib = k.ob = k.blk = x;
    }
    return a;
}
static void doSame(Ctx& c, const Op& o) {
    bool usable; ProcCfg pc = progOf(c, o, usable); if (!usable) return;
    pc.k.fill = 0;
    bool t = tracing; tracing = false;
    Disk dA = c.disk; Proc A = runProc(pc, dA, nullptr, false, "in usual surroundings");
    tracing = t; Disk dB;
    for (auto& s : o.all("c")) {
        ProcCfg pb = pc; pb.a = aroundOf(s, pb.k, pb.argv);
        dB = c.disk; Proc B = runProc(pb, dB, nullptr, true, pc.argv[0] + " with " + s);
        S->n["op:same"]++; S->n["fault:changed-surroundings"]++; c.nontrivial = true; c.foldProc(B); c.foldSig(hash64(s));
        if (A.end != B.end || A.code != B.code || A.sig != B.sig) c.violation(pc.argv[0] + " ends with " + B.how() + " (" + s + "), with " + A.how() + " otherwise");
        else if (A.out != B.out) c.violation(pc.argv[0] + " writes other output (" + s + "), " + diffAt(B.out, A.out));
        else {
            if (dA.size() != dB.size()) c.violation(pc.argv[0] + " leaves other files behind (" + s + ")");
            for (auto& e : dA) if (!dB.count(e.first)) c.violation(pc.argv[0] + " leaves other files behind (" + s + ")"); else if (dB[e.first].data != e.second.data) c.violation(pc.argv[0] + " writes " + e.first + " differently (" + s + "), " + diffAt(dB[e.first].data, e.second.data));
        }
        if (c.viol) return;
    }
    c.disk = dA;
}

// ------------------------------------------------------------- library histories
struct LibState { bool brk = false, live = false, brkOk = true, brkMaybe = false; set<string> dict; };   // dict: candidate contents, "" = none

static bool isLibOp(const string& n) { return n == "new" || n == "load" || n == "parse" || n == "del" || n == "dnew" || n == "dopen" || n == "dclose" || n == "dlook" || n == "ddel" || n == "fmt" || n == "xcp" || n == "xrm"; }

struct LibObjs { map<int, Parser*> p; map<int, Dict*> d; OutSet* o = nullptr; };

static void applyFaults(const Op& o, const Step* dryStep, const uint64_t (*dryCnt)[N_SLOT]) {
    (void) dryStep;
    W->nfaults = 0; memset(W->cnt, 0, sizeof W->cnt); memset(W->cntAll, 0, sizeof W->cntAll);
    for (auto& s : o.all("f")) {
        Fault f = parseFault(s); if (W->nfaults >= MAXFAULT) break;
        SFault& t = W->faults[W->nfaults]; memset(&t, 0, sizeof t);
        t.cls = clsOf(f.cls); t.slot = -1; t.act = f.act; t.err = f.err; t.sticky = f.sticky; t.part = f.part;
        if (!f.at.empty() && f.at != "*") { for (int i = 0; i < D->nfiles; ++i) if (f.at == D->files[i].path) t.slot = i; if (t.slot < 0) continue; }
        if (f.fr >= 0) {
            if (!dryCnt) continue;
            uint64_t n = dryCnt[t.cls][t.slot < 0 ? (int) SLOT_OTHER : t.slot];
            if (t.slot < 0 && t.cls != CL_ALLOC) { n = 0; for (int k = 0; k < N_SLOT; ++k) n += dryCnt[t.cls][k]; }
            if (!n) continue;
            t.nth = (uint64_t) f.fr * n / 1000000;
        } else t.nth = f.nth;
        W->nfaults++;
    }
}

// Files change between the steps of a history ("xcp": a copy of a file as it was at the start, whole or cut; "xrm").
static const Disk* libDisk;
static bool xcpData(const Disk& d, const Op& o, string& data) {
    auto it = d.find(o.str("path")); if (it == d.end() || it->second.isdir) return false;
    data = it->second.data; if (o.find("fr")) data.resize((size_t) o.num("fr") * data.size() / 1000000);
    return true;
}
static void xApply(const Disk& start, Disk& d, const Op& o) {
    if (o.name == "xrm") d.erase(o.str("path"));
    else if (o.name == "xcp") { string t; if (xcpData(start, o, t)) d[o.str("to")] = FileEnt{t, false}; }
}

static void libStep(LibObjs& L, const Op& o, Step& s) {
    s.status = ST_RUNNING; s.value = 0; s.off = s.len = 0; s.allocs = 0;
    int p = o.num("p"), d = o.num("d");
    string w = o.str("w"), path = o.str("path");
    // the object may be missing: its construction ran out of memory
    bool needP = o.name == "load" || o.name == "del" || o.name == "parse", needD = o.name == "dopen" || o.name == "dclose" || o.name == "dlook" || o.name == "ddel";
    if ((needP && !L.p.count(p)) || (needD && !L.d.count(d))) { s.status = ST_OK; s.fds = seamOpenFds(); return; }
    const string* lw = o.find("L"); if (lw) w = expandLine("L", *lw);
    u16string w16; if (o.name == "dlook") w16 = u16(w);
    string text; bool b = true;
    if (o.name == "xrm") { seamDropFile(path.c_str()); s.status = ST_OK; s.fds = seamOpenFds(); return; }
    if (o.name == "xcp") {
        string data; bool have = xcpData(*libDisk, o, data);
        if (have) seamSetFile(o.str("to").c_str(), data.data(), data.size(), o.num("over"), o.num("st"));
        s.status = ST_OK; s.fds = seamOpenFds(); return;
    }
    list<SylString> strs;
    if (o.name == "fmt") for (auto& x : o.all("y")) strs.push_back(SylString(x));
    uint64_t a0 = W->allocTotal;
    bool win = true;
    seamTrack = 1;
    auto off = [&] { seamWin = 0; seamTrack = 0; };
    try {
        seamWin = win;
        if (o.name == "new") { Parser* q = o.find("path") ? new Parser(path.c_str(), o.num("brk")) : new Parser((bool) o.num("brk")); off(); L.p[p] = q; }
        else if (o.name == "load") { b = L.p[p]->loadExceptDict(path.c_str()); off(); }
        else if (o.name == "del") { delete L.p[p]; off(); L.p.erase(p); }
        else if (o.name == "parse") {
            auto dag = L.p[p]->parseWord(w);
            seamWin = 0; seamTrack = 0;
            bool big = paths(dag) > (uint64_t) MAXPATHS;
            if (big) text = "BIG";
            else {
                if (!L.o) L.o = canonSet();
                // results are kept outside the tracked window
                vector<string> res; res.reserve(16);
                for (auto& x : L.o->v) { string t; { seamTrack = 1; seamWin = win; t = x->output(dag); off(); string cp(t.data(), t.size()); res.push_back(cp); seamTrack = 1; } }
                seamTrack = 0;
                for (auto& t : res) text += t + "\x1e";
            }
        }
        else if (o.name == "dnew") { Dict* q = o.find("path") ? new Dict(path.c_str()) : new Dict; off(); L.d[d] = q; }
        else if (o.name == "dopen") { b = L.d[d]->open(path.c_str()); off(); }
        else if (o.name == "dclose") { L.d[d]->close(); off(); }
        else if (o.name == "ddel") { delete L.d[d]; off(); L.d.erase(d); }
        else if (o.name == "dlook") {
            int pos = o.num("pos");
            Match m(w16, pos, L.d[d]);
            while (m.findNext()) { string t = m.getData(); int cur = m.getCurPos(); off(); text += to_string(cur) + ":" + t + "|"; seamWin = win; seamTrack = 1; if (text.size() > 100000) break; }
            off();
        }
        else if (o.name == "fmt") {
            off(); if (!L.o) L.o = canonSet();
            for (auto& x : L.o->v) { seamTrack = 1; seamWin = win; string t = x->output(strs); string u = x->output(strs.front()); off(); text += t + "\x1e" + u + "\x1e"; }
        }
        off();
        s.status = b ? ST_OK : ST_FALSE;
    } catch (const bad_alloc&) { off(); s.status = ST_BAD_ALLOC; }
    catch (const range_error&) { off(); s.status = ST_RANGE; }
    catch (...) { off(); s.status = ST_OTHER_EXC; }
    off();
    if (s.status == ST_OK) resPut(s, text);
    s.value = b; s.allocs = W->allocTotal - a0; s.fds = seamOpenFds();
}

struct LibRun { Proc pr; int n = 0; vector<Step> st; vector<string> text; vector<uint64_t> cnts; vector<int64_t> liveEnd; };

// Runs the block in one process.  cnts: per step counters (for resolving faults).
static LibRun runLib(Ctx& c, const vector<Op>& ops, const Op& hdr, bool faulty, const vector<vector<uint64_t>>* dryCnt, vector<vector<uint64_t>>* cntOut, vector<map<string, uint64_t>>* firedOut, int rounds) {
    worldReset(c.disk, "", knobsOf(hdr)); libDisk = &c.disk;
    if (ops.size() * rounds > MAXSTEP) throw HarnessError{"history too long"};
    // shared area for per-step counters lives behind the output buffer
    struct Rec { uint64_t cnt[N_CLS][N_SLOT]; int nf; struct { int cls, err, sticky, act; uint64_t fired, nth; } f[4]; };
    Rec* recs = (Rec*) Wout;
    if (ops.size() * rounds * sizeof(Rec) > OUTMAX) throw HarnessError{"history too long"};
    int64_t* liveEnd = (int64_t*) Werr;
    W->nsteps = ops.size() * rounds;
    for (int i = 0; i < W->nsteps; ++i) W->steps[i].status = ST_NOTRUN;
    int st = spawn([&] {
        LibObjs L;
        L.o = canonSet();
        int k = 0;
        for (int r = 0; r < rounds; ++r) {
            for (size_t i = 0; i < ops.size(); ++i, ++k) {
                if (faulty) applyFaults(ops[i], nullptr, dryCnt ? (const uint64_t (*)[N_SLOT]) (*dryCnt)[i].data() : nullptr);
                else { W->nfaults = 0; memset(W->cnt, 0, sizeof W->cnt); memset(W->cntAll, 0, sizeof W->cntAll); }
                if (r == 0 && rounds > 1) W->nfaults = 0;       // warm-up round is fault-free
                libStep(L, ops[i], W->steps[k]);
                memcpy(recs[k].cnt, W->cnt, sizeof W->cnt);
                recs[k].nf = W->nfaults < 4 ? W->nfaults : 4;
                for (int q = 0; q < recs[k].nf; ++q) { auto& f = W->faults[q]; recs[k].f[q] = {f.cls, f.err, f.sticky, f.act, f.fired, f.nth}; }
                W->nfaults = 0;
            }
            seamTrack = 1; seamWin = 0;
            for (auto& p : L.p) delete p.second;
            for (auto& d : L.d) delete d.second;
            seamTrack = 0;
            L.p.clear(); L.d.clear();
            if (seamDebug && r == rounds - 1) seamDumpLive();
            liveEnd[r * 2] = seamLiveN; liveEnd[r * 2 + 1] = seamLiveB;
        }
        W->code = 0; W->end = END_EXIT;
    });
    LibRun R; collect(st, R.pr); R.pr.out.clear(); R.pr.err.clear(); 
    if (R.pr.end == END_UNSUPPORTED) throw HarnessError{"library history: " + R.pr.how()};
    if (W->resOverflow) throw TooBig{};
    R.n = W->nsteps;
    for (int i = 0; i < R.n; ++i) { R.st.push_back(W->steps[i]); R.text.emplace_back(W->steps[i].status == ST_OK ? string((char*) Wres + W->steps[i].off, W->steps[i].len) : string()); }
    for (int r = 0; r < rounds; ++r) { R.liveEnd.push_back(liveEnd[r * 2]); R.liveEnd.push_back(liveEnd[r * 2 + 1]); }
    for (int i = 0; i < R.n; ++i) {
        if (R.st[i].status == ST_NOTRUN) { if (firedOut) firedOut->push_back({}); if (cntOut) cntOut->push_back(vector<uint64_t>(N_CLS * N_SLOT)); continue; }
        if (cntOut) cntOut->push_back(vector<uint64_t>(&recs[i].cnt[0][0], &recs[i].cnt[0][0] + N_CLS * N_SLOT));
        if (firedOut) {
            map<string, uint64_t> m;
            for (int q = 0; q < recs[i].nf; ++q) if (recs[i].f[q].fired) {
                auto& f = recs[i].f[q];
                string nm = f.cls == CL_ALLOC ? (f.sticky ? "alloc-fail-from" : "alloc-fail-once") : string(clsName(f.cls)) + "-" + errName(f.err) + (f.sticky ? "-sticky" : "");
                m[nm] += f.fired; S->n["fault:" + nm] += f.fired; c.foldSig(i); c.foldSig(f.nth);
            }
            firedOut->push_back(m);
        }
    }
    if (W->shortReads) S->n["fault:short-file-read"] += W->shortReads;
    return R;
}

static string opText(const Op& o) { string r = o.name; for (auto& p : o.kv) r += " " + p.first + "=" + shortText(p.second, 60); return r; }

static void doLib(Ctx& c, const Op& hdr, const vector<Op>& opsIn) {
    int rounds = hdr.num("rounds", 1);
    // drop steps that refer to objects that do not exist, and words too large to judge
    vector<Op> ops; map<int, bool> lp, ld; map<int, pair<bool, set<string>>> ps;
    Disk dk = c.disk;               // as it is at the step being looked at
    auto dictOf = [&](const string& path) -> string { if (!dk.count(path) || dk[path].isdir) return ""; auto al = known->alias.find(dk[path].data); if (al != known->alias.end()) return al->second; return known->byContent.count(dk[path].data) ? dk[path].data : ""; };
    bool thbrkBad = c.disk.count(THBRK);
    map<int, set<string>> pd;       // every dictionary a parser may have
    for (auto& o : opsIn) {
        int p = o.num("p"), d = o.num("d");
        if (o.name == "new") { if (lp[p]) continue; lp[p] = true; ps[p].first = o.num("brk"); pd[p].clear(); pd[p].insert(""); if (o.find("path")) pd[p].insert(dictOf(o.str("path"))); }
        else if (o.name == "load") { if (!lp[p]) continue; pd[p].insert(dictOf(o.str("path"))); }
        else if (o.name == "del") { if (!lp[p]) continue; lp[p] = false; }
        else if (o.name == "parse") {
            if (!lp[p]) continue;
            string w = o.str("w"); if (o.find("L")) w = expandLine("L", o.str("L"));
            bool ok = true;
            for (auto& x : pd[p]) for (int b = 0; b <= (ps[p].first ? 1 : 0); ++b) {
                Ref f = refWord(w, b, x.empty() ? nullptr : &x, "", 0);
                if (f.st == RF_BIG || f.st == RF_CRASH || f.st == RF_NOLOAD) ok = false;
                if (f.st == RF_CRASH) S->n["probe:crashing-word-skipped"]++;
            }
            if (!ok) { S->n["lines-dropped"]++; continue; }
        }
        else if (o.name == "dnew") { if (ld[d]) continue; ld[d] = true; }
        else if (o.name == "ddel") { if (!ld[d]) continue; ld[d] = false; }
        else if (o.name == "dopen" || o.name == "dclose" || o.name == "dlook") { if (!ld[d]) continue; if (o.name == "dlook" && (size_t) o.num("pos") > u16(o.str("w")).size()) continue; }
        xApply(c.disk, dk, o);
        ops.push_back(o);
    }
    if (ops.empty()) return;
    bool anyFault = false; for (auto& o : ops) if (o.find("f")) anyFault = true;
    vector<vector<uint64_t>> dryCnt;
    if (anyFault) runLib(c, ops, hdr, false, nullptr, &dryCnt, nullptr, 1);
    vector<map<string, uint64_t>> fired;
    LibRun R = runLib(c, ops, hdr, true, anyFault ? &dryCnt : nullptr, nullptr, &fired, rounds);
    S->n["op:lib-history"]++; S->n["lib-steps"] += R.n; c.steps += R.pr.nEv + R.pr.allocs; c.nontrivial = true;
    c.fold(R.pr.evHash); c.fold(R.pr.end * 100 + R.pr.sig);
    for (int i = 0; i < R.n; ++i) { c.fold(R.st[i].status); c.fold(R.st[i].status == ST_OK ? hash64(R.text[i]) : 5); c.fold(R.st[i].allocs); c.foldSig(hash64(ops[i % ops.size()].name) + R.st[i].status); for (auto& m : fired[i]) c.foldSig(hash64(m.first)); }
    if (tracing) {
        static const char* SN[] = {"not run", "interrupted", "ok", "false", "bad_alloc", "range_error", "exception"};
        *trace += "library history (" + to_string(rounds) + " rounds) -> " + R.pr.how() + "\n";
        for (int i = 0; i < R.n && i < 200; ++i) { string f; for (auto& m : fired[i]) f += " INJECTED " + m.first; *trace += "   " + to_string(i) + " " + opText(ops[i % ops.size()]) + " -> " + SN[R.st[i].status] + " [" + shortText(R.text[i], 80) + "]" + f + "\n"; }
    }
    if (R.pr.end != END_EXIT) {
        int at = 0; while (at < R.n && R.st[at].status != ST_NOTRUN && R.st[at].status != ST_RUNNING) ++at;
        c.violation("library history: " + R.pr.how() + " at step " + to_string(at) + (at < R.n ? " (" + opText(ops[at % ops.size()]) + ")" : " (tear-down)"));
        return;
    }
    // replay against the model
    int k = 0;
    for (int r = 0; r < rounds && !c.viol; ++r) {
        map<int, LibState> P; map<int, set<string>> D;
        if (!r) dk = c.disk;
        for (size_t i = 0; i < ops.size() && !c.viol; ++i, ++k) {
            const Op& o = ops[i]; const Step& s = R.st[k]; int p = o.num("p"), d = o.num("d");
            xApply(c.disk, dk, o);
            bool f = !fired[k].empty(); bool memF = false, ioF = false;
            for (auto& m : fired[k]) (m.first.compare(0, 5, "alloc") == 0 ? memF : ioF) = true;
            string at = "step " + to_string(k) + " (" + opText(o) + "): ";
            if (s.fds != 0) { c.violation(at + "leaves " + to_string(s.fds) + " file descriptor(s) open"); break; }
            auto bad = [&](const string& m) { c.violation(at + m); };
            if (s.status == ST_BAD_ALLOC && !memF) { bad("reports running out of memory, but no allocation failed"); break; }
            if (s.status == ST_OTHER_EXC) { if (!(memF)) { bad("unexpected exception"); } else bad("out of memory reported as an unrelated exception"); break; }
            if (memF && s.status == ST_BAD_ALLOC) S->n["probe:out-of-memory-reported"]++;
            if (memF && s.status == ST_OK) S->n["probe:out-of-memory-survived"]++;
            if (o.name == "new") {
                if (s.status == ST_OK) {
                    P[p] = LibState(); P[p].live = true; P[p].brk = o.num("brk"); P[p].dict = {""};
                    if (o.num("brk") && ioF && o.str("f").find(THBRK) != string::npos) P[p].brkMaybe = true;
                    if (o.find("path")) { string x = dictOf(o.str("path")); if (f && !x.empty()) P[p].dict = {"", x}; else P[p].dict = {x}; }
                } else if (s.status != ST_BAD_ALLOC) bad("construction fails");
            } else if (o.name == "load") {
                if (!P.count(p)) continue;
                string x = dictOf(o.str("path"));
                if (s.status == ST_OK) { if (x.empty()) bad("loading an unusable dictionary is reported as successful"); else P[p].dict = {x}; }
                else if (s.status == ST_FALSE) { if (!f && !x.empty()) bad("loading a complete dictionary fails"); P[p].dict = {""}; }
                else if (s.status == ST_BAD_ALLOC) P[p].dict.insert("");
                else bad("loading fails with an exception");
            } else if (o.name == "del") P.erase(p);
            else if (o.name == "parse") {
                if (!P.count(p)) continue;
                string w = o.str("w"); if (o.find("L")) w = expandLine("L", o.str("L"));
                LibState& st = P[p];
                if (s.status == ST_BAD_ALLOC) continue;
                set<string> keep; string want;
                for (auto& x : st.dict) {
                    Ref g = refWord(w, st.brk && !thbrkBad && st.brkOk, x.empty() ? nullptr : &x, "", 0);
                    if (st.brkMaybe && s.status == ST_OK && g.st == RF_OK && g.text != R.text[k]) g = refWord(w, false, x.empty() ? nullptr : &x, "", 0);
                    bool okk = (s.status == ST_OK && g.st == RF_OK && g.text == R.text[k]) || (s.status == ST_RANGE && g.st == RF_RANGE);
                    if (okk) keep.insert(x);
                    if (g.st == RF_OK) want = g.text;
                }
                if (keep.empty()) { bad(string("result differs from that of a fresh process: ") + (s.status == ST_RANGE ? "exception" : diffAt(R.text[k], want))); break; }
                st.dict = keep;
            } else if (o.name == "fmt") {
                if (s.status == ST_BAD_ALLOC) continue;
                string key; for (auto& y : o.all("y")) key += y + ";";
                Ref g = cached(comb(hash64(key), 0xf31), [&] {
                    worldReset(Disk(), "", Knobs());
                    Op o2 = o; o2.kv.clear(); for (auto& y : o.all("y")) o2.add("y", y);
                    W->steps[0].status = ST_NOTRUN;
                    int stt = spawn([&] { LibObjs L; libStep(L, o2, W->steps[0]); W->end = END_EXIT; });
                    Ref q; Proc pr; collect(stt, pr); S->n["reference-runs"]++;
                    if (W->steps[0].status == ST_OK && pr.end == END_EXIT) { q.st = RF_OK; q.text.assign((char*) Wres + W->steps[0].off, W->steps[0].len); }
                    return q;
                });
                if (g.st == RF_OK && s.status == ST_OK && g.text != R.text[k]) bad("formatting differs from that of a fresh process: " + diffAt(R.text[k], g.text));
            } else if (o.name == "dnew") {
                if (s.status == ST_OK) { D[d] = {""}; if (o.find("path")) { string x = dictOf(o.str("path")); if (f && !x.empty()) D[d] = {"", x}; else D[d] = {x}; } }
                else if (s.status != ST_BAD_ALLOC) bad("construction fails");
            } else if (o.name == "dopen") {
                if (!D.count(d)) continue;
                string x = dictOf(o.str("path"));
                if (s.status == ST_OK) { if (x.empty()) bad("loading an unusable dictionary is reported as successful"); else D[d] = {x}; }
                else if (s.status == ST_FALSE) { if (!f && !x.empty()) bad("loading a complete dictionary fails"); D[d] = {""}; }
                else if (s.status == ST_BAD_ALLOC) D[d] = {""};
                else bad("loading fails with an exception");
            } else if (o.name == "dclose") { if (D.count(d)) D[d] = {""}; }
            else if (o.name == "ddel") D.erase(d);
            else if (o.name == "dlook") {
                if (!D.count(d) || s.status == ST_BAD_ALLOC) continue;
                set<string> keep; string want;
                for (auto& x : D[d]) {
                    string m = x.empty() ? "" : modelLook(sourceOfDict(x), o.str("w"), o.num("pos"));
                    if (m == R.text[k]) keep.insert(x);
                    want = m;
                }
                if (keep.empty()) { bad("look-up gives [" + shortText(R.text[k], 200) + "], the entries are [" + shortText(want, 200) + "]"); break; }
                D[d] = keep;
            }
        }
    }
    if (!c.viol && rounds >= 3) {
        int a = rounds - 2, b = rounds - 1;
        if (R.liveEnd[b * 2] > R.liveEnd[a * 2] || R.liveEnd[b * 2 + 1] > R.liveEnd[a * 2 + 1]) {
            // lazily built tables may still have been completed in these rounds; a leak goes on for ever
            int more = MAXSTEP / (int) ops.size(); if (more > 40) more = 40;
            int64_t per = R.liveEnd[b * 2] - R.liveEnd[a * 2]; if (per > 0 && per * more > 400000) more = max<int64_t>(6, 400000 / per);     // the table of blocks is finite
            LibRun Q = runLib(c, ops, hdr, true, anyFault ? &dryCnt : nullptr, nullptr, nullptr, more);
            S->n["leak-suspects"]++;
            bool leak = Q.pr.end == END_EXIT; int from = more > 12 ? more - 9 : 3;
            for (int r = from; r < more; ++r) if (Q.liveEnd[r * 2] <= Q.liveEnd[r * 2 - 2] && Q.liveEnd[r * 2 + 1] <= Q.liveEnd[r * 2 - 1]) leak = false;
            if (leak) c.violation("repeating the same history leaves more memory allocated every time: " + to_string(Q.liveEnd[more * 2 - 4]) + " blocks / " + to_string(Q.liveEnd[more * 2 - 3]) + " bytes after " + to_string(more - 1) + " rounds, " + to_string(Q.liveEnd[more * 2 - 2]) + " / " + to_string(Q.liveEnd[more * 2 - 1]) + " after " + to_string(more));
        }
    }
}

// C02: end-to-end check of single-pronunciation keys
static void doExact(Ctx& c, const Op& o) {
    string path = o.str("d"), key = o.str("l");
    if (!c.disk.count(path) || !known->byContent.count(c.disk[path].data)) return;
    const Source& s = sourceOfDict(c.disk[path].data);
    auto it = s.ent.find(key); if (it == s.ent.end() || it->second.find(';') != string::npos) return;
    // words: consonants, vowels, tone marks
    for (char16_t ch : u16(key)) if (!((ch >= 0xe01 && ch <= 0xe2e) || (ch >= 0xe30 && ch <= 0xe39) || (ch >= 0xe40 && ch <= 0xe44) || (ch >= 0xe47 && ch <= 0xe4c))) return;
    for (auto& e : s.ent) if (e.first.size() < key.size() && key.compare(0, e.first.size(), e.first) == 0) return;
    string want = it->second;
    ProcCfg pc; pc.argv = {"thpronun", "-n", "-w", "-d" + path, key}; pc.k = knobsOf(o);
    Proc r = runProc(pc, c.disk, nullptr, true, "thpronun -n -w " + key);
    countFaults(r);
    S->n["op:exact-key"]++; c.foldProc(r);
    if (r.end != END_EXIT || r.code != 0) { c.violation("thpronun " + r.how() + " on a dictionary key"); return; }
    string exp = key + ":\n" + want + "\n\n";
    if (r.out != exp) c.violation("thpronun does not print the dictionary's pronunciation of a key: " + diffAt(r.out, exp));
}

// C08: many words in one process, in two orders
static void doMass(Ctx& c, const Op& o) {
    vector<string> w = massWords(o.str("words")); if (w.empty() || w.size() * 8 > RESMAX) return;
#ifdef __SANITIZE_ADDRESS__
    if (w.size() > 1500) w.resize(1500);     // slow
#endif
    string path = o.str("d"); if (!c.disk.count(path)) path.clear();
    int order = o.num("order"); size_t n = w.size(); vector<uint64_t> res[2];
    for (int pass = 0; pass < 2; ++pass) {
        vector<uint32_t> idx(n); for (size_t i = 0; i < n; ++i) idx[i] = i;
        if (pass) { if (order == 0) reverse(idx.begin(), idx.end()); else if (order == 1) rotate(idx.begin(), idx.begin() + n / 2, idx.end()); else { Rng r(order); for (size_t i = n; --i > 0;) swap(idx[i], idx[r.below(i + 1)]); } }
        worldReset(c.disk, "", Knobs());
        int st = spawn([&] {
            Parser& p = *tmplNo; uint64_t* out = (uint64_t*) Wres;
            if (!path.empty()) p.loadExceptDict(path.c_str());
            OutSet* os = canonSet();
            for (uint32_t i : idx) {
                uint64_t h = 1;
                try { auto dag = p.parseWord(w[i]); if (paths(dag) > (uint64_t) MAXPATHS) h = 2; else for (auto& x : os->v) h = comb(h, hash64(x->output(dag))); }
                catch (const range_error&) { h = 3; } catch (...) { h = 4; }
                out[i] = h;
            }
        });
        Proc r; collect(st, r); S->n["processes"]++;
        if (r.end == END_UNSUPPORTED && r.sig != 9100) throw HarnessError{"mass: " + r.how()};
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { c.violation("parsing " + to_string(n) + " words ends with " + r.how()); return; }
        res[pass].assign((uint64_t*) Wres, (uint64_t*) Wres + n);
        c.steps += n;
    }
    S->n["op:mass-history"]++; S->n["mass-words"] += n; c.nontrivial = true; c.foldSig(hash64(o.str("words")) + order);
    for (size_t i = 0; i < n; ++i) {
        c.fold(res[0][i]);
        if (res[0][i] != res[1][i]) { c.violation("result of " + shortText(w[i], 80) + " depends on which words were parsed before"); return; }
    }
}

#ifdef SIM_THREADS
#include "thrplan.h"
#endif

RunOut execPlan(const Plan& plan, bool wantTrace) {
    RunOut out;
    tracing = wantTrace; trace->clear();
    known->byContent.clear(); known->alias.clear(); known->src.clear(); badSysSeen = 0;
    Ctx c(plan);
    try {
        for (size_t i = 0; i < plan.ops.size() && !c.viol; ++i) {
            const Op& o = plan.ops[i];
            c.stamp();
            if (o.name == "src") { string t = sourceOf(o); c.disk[o.str("path")] = FileEnt{t, false}; if (tracing) *trace += "write " + o.str("path") + " (" + to_string(t.size()) + " bytes)\n"; }
            else if (o.name == "put") c.disk[o.str("path")] = FileEnt{o.str("from") == "thbrk" ? *thbrk : o.str("from") == "source" ? c.disk[o.str("of")].data : o.str("data"), false};
            else if (o.name == "dir") c.disk[o.str("path")] = FileEnt{"", true};
            else if (o.name == "rm") c.disk.erase(o.str("path"));
            else if (o.name == "cp") { if (c.disk.count(o.str("path"))) c.disk[o.str("to")] = c.disk[o.str("path")]; }
            else if (o.name == "cut") {
                string p = o.str("path"); if (!c.disk.count(p)) continue;
                string& t = c.disk[p].data; size_t n = o.find("end") ? (t.size() > (size_t) o.num("end") ? t.size() - o.num("end") : 0) : (size_t) o.num("fr") * t.size() / 1000000;
                t.resize(n < t.size() ? n : t.size());
                if (tracing) *trace += "cut " + p + " to " + to_string(n) + " bytes\n";
            }
            else if (o.name == "bank") { if (!doBank(c, o)) break; }
            else if (o.name == "tail") {    // the index of a dictionary followed by something else
                string p = o.str("path"); if (!c.disk.count(p)) continue;
                string& t = c.disk[p].data; auto k = known->byContent.find(t); if (k == known->byContent.end()) continue;
                size_t bank, at; if (!bankOf(t, k->second, at, bank)) continue;
                t = t.substr(0, at) + o.str("data"); S->n["op:tail"]++;
                if (tracing) *trace += "cut " + p + " behind its index and put " + to_string(o.str("data").size()) + " bytes there\n";
            }
            else if (o.name == "nothbrk") c.disk[THBRK] = FileEnt{"<none>", false};
            else if (o.name == "cutthbrk") c.disk[THBRK] = FileEnt{thbrk->substr(0, (size_t) o.num("fr") * thbrk->size() / 1000000), false};
            else if (o.name == "junkthbrk") c.disk[THBRK] = FileEnt{o.str("data"), false};
            else if (o.name == "dict") {    // a complete dictionary, built fault-free
                string t = sourceOf(o); Ref r = refCompile(t);
                if (r.st != RF_OK) { if (c.is("C01") || c.is("C02")) c.violation("building a dictionary from well-formed input: " + r.text); break; }
                c.disk[o.str("path")] = FileEnt{r.text, false};
            }
            else if (o.name == "gen") doGen(c, o);
            else if (o.name == "pron") doPron(c, o);
            else if (o.name == "exact") doExact(c, o);
            else if (o.name == "errp") doErrp(c, o);
            else if (o.name == "grow") doGrow(c, o);
            else if (o.name == "tidy") doTidy(c, o);
            else if (o.name == "mass") doMass(c, o);
            else if (o.name == "same") doSame(c, o);
            else if (o.name == "job") c.jobs.push_back(o);
            else if (o.name == "race") { doRace(c, o); c.jobs.clear(); }
            else if (o.name == "par") { doPar(c, o); c.jobs.clear(); }
            else if (o.name == "lib") {
                vector<Op> blk; while (i + 1 < plan.ops.size() && isLibOp(plan.ops[i + 1].name)) blk.push_back(plan.ops[++i]);
#ifdef __SANITIZE_ADDRESS__
                if (blk.size() > 400) blk.resize(400);       // slow
#endif
                doLib(c, o, blk);
            }
#ifdef SIM_THREADS
            else if (o.name == "threads") {
                vector<Op> blk; while (i + 1 < plan.ops.size() && (plan.ops[i + 1].name == "tparse" || plan.ops[i + 1].name == "tfmt" || plan.ops[i + 1].name == "tlife")) blk.push_back(plan.ops[++i]);
                doThreads(c, o, blk);
            }
            else if (o.name == "tparse" || o.name == "tfmt" || o.name == "tlife") continue;
#endif
            else if (isLibOp(o.name)) continue;
            else throw HarnessError{"unknown operation " + o.name};
        }
    } catch (const TooBig&) { S->n["unjudged"]++; }
    catch (const HarnessError& e) { out.harnessError = true; out.msg = e.m; }
    if (c.viol && badSysSeen) { out.harnessError = true; out.msg = "system call " + to_string(badSysSeen) + " is not simulated (" + c.msg + ")"; c.viol = false; }
    if (c.viol) { out.violated = true; out.msg = c.msg; }
    if (c.viol && c.msg.find("no progress") != string::npos) c.digest = hash64(c.msg);     // how far it came by then depends on the machine
    out.digest = comb(c.digest, out.violated ? 1 : 0); out.steps = c.steps; out.trace = *trace;
    if (c.nontrivial) S->sigs.insert(c.sig);
    return out;
}

void execInit() {
    S = new Stats; cache = new RefCache; known = new Known; trace = new string; thbrk = new string;
    int fd = open(THBRK, O_RDONLY); char b[65536]; ssize_t n;
    if (fd < 0) { dprintf(2, "cannot read %s\n", THBRK); _exit(3); }
    while ((n = read(fd, b, sizeof b)) > 0) thbrk->append(b, n);
    close(fd);
    worldInit();
#ifdef SIM_THREADS
    thrInit();
#endif
    tmplBrk = new Parser(true); tmplNo = new Parser(false);
}
