// thrplan.h - executes plans with threads (included by exec.cc, thread build only)
#include "thr.h"
#include <cxxabi.h>
#include <dlfcn.h>

static string pcName(uint64_t pc) {
    if (!pc) return "allocation or lock";
    Dl_info d; char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long) pc);
    if (!dladdr((void*) pc, &d) || !d.dli_sname) return b;
    int st = 0; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    string r = st == 0 && n ? n : d.dli_sname; free(n);
    if (r.size() > 160) r = r.substr(0, 160) + "...";
    return r + " " + b;
}

struct TOp { int t; bool fmt, life; string w; Ref ref; bool brk; vector<string> paths; const PronunDAG* dag = nullptr; };
static struct { vector<TOp> ops; vector<Parser*> p; vector<OutSet*> o; } TH;

static void threadBody(int me) {
    for (size_t k = 0; k < TH.ops.size(); ++k) {
        TOp& o = TH.ops[k]; if (o.t != me) continue;
        Step& s = W->steps[k]; s.status = ST_RUNNING;
        string t; int st = ST_OK;
        thrIn = 1;
        try {
            if (o.life) {           // a parser, with everything it needs, from the cradle to the grave
                unique_ptr<Parser> q;
                if (o.paths.size() == 1) q.reset(new Parser(o.paths[0].c_str(), o.brk));
                else { q.reset(new Parser(o.brk)); for (auto& f : o.paths) q->loadExceptDict(f.c_str()); }
                auto dag = q->parseWord(o.w);
                unique_ptr<OutSet> os(canonSet());
                for (auto& x : os->v) { t += x->output(dag); t += "\x1e"; }
            }
            else if (o.fmt) for (auto& x : TH.o[me]->v) { t += x->output(*o.dag); t += "\x1e"; }
            else { auto dag = TH.p[me]->parseWord(o.w); for (auto& x : TH.o[me]->v) { t += x->output(dag); t += "\x1e"; } }
        } catch (const bad_alloc&) { st = ST_BAD_ALLOC; }
        catch (const range_error&) { st = ST_RANGE; }
        catch (...) { st = ST_OTHER_EXC; }
        thrIn = 0;
        if (st == ST_OK) resPut(s, t); else s.len = 0;
        s.status = st;
    }
}

static void doThreads(Ctx& c, const Op& h, const vector<Op>& ops) {
    int n = h.num("n", 2); if (n < 1) n = 1; if (n > MAXT) n = MAXT;
    bool brk = h.num("brk"); string path = h.str("path"); const string* dict = nullptr;
    if (!path.empty() && c.disk.count(path)) dict = &c.disk[path].data; else path.clear();
    TH.ops.clear();
    for (auto& o : ops) {
        if (TH.ops.size() >= MAXSTEP) break;
        TOp t; t.t = o.num("t") % n; t.w = o.str("w"); t.fmt = o.name == "tfmt"; t.life = o.name == "tlife"; t.brk = o.num("brk");
        const string* dd = dict;
        if (t.life) { dd = nullptr; t.paths = o.all("path"); if (t.paths.size()) dd = c.disk.count(t.paths.back()) ? &c.disk[t.paths.back()].data : nullptr; }
        t.ref = refWord(t.w, t.life ? t.brk : brk, dd, "", 0);
        if (t.ref.st == RF_BIG) { S->n["probe:word-too-big"]++; continue; }
        if (t.ref.st == RF_NOLOAD || t.ref.st == RF_CRASH || t.ref.st == RF_EXC) { S->n["probe:no-reference"]++; continue; }
        if (t.fmt && t.ref.st != RF_OK) continue;
        TH.ops.push_back(t);
    }
    if (TH.ops.empty()) return;
    worldReset(c.disk, "", Knobs());
    for (size_t k = 0; k < TH.ops.size(); ++k) { W->steps[k].status = ST_NOTRUN; W->steps[k].off = W->steps[k].len = 0; }
    W->nsteps = TH.ops.size();
    bool own = h.num("own"), fown = h.num("fown"), warm = h.num("warm");
    S->n["processes"]++;
    pid_t pid = fork();
    if (pid < 0) throw HarnessError{"fork failed"};
    if (pid == 0) {
        rlimit rl = {40, 40}; setrlimit(RLIMIT_CPU, &rl);
        rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        thrCreate(n, h.num("sched"), h.num("pol"), h.num("rate", 50), threadBody);
        seamEnter();
        Parser* shared = brk ? tmplBrk : tmplNo; OutSet* fs = canonSet();
        if (!path.empty() && !shared->loadExceptDict(path.c_str())) seamRawExit(61);
        for (int i = 0; i < n; ++i) {
            Parser* p = shared;
            if (own && i) { p = new Parser(brk); if (!path.empty() && !p->loadExceptDict(path.c_str())) seamRawExit(61); }
            TH.p.push_back(p); TH.o.push_back(fown && i ? canonSet() : fs);
        }
        if (warm) { try { auto d = shared->parseWord("\xe0\xb8\x81\xe0\xb8\xb2"); for (auto& x : fs->v) x->output(d); } catch (...) {} }
        for (auto& o : TH.ops) if (o.fmt) { try { o.dag = new PronunDAG(shared->parseWord(o.w)); } catch (...) { seamRawExit(62); } }
        thrRun();
        seamRawExit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Proc r; collect(st, r);
    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && W->end == END_NONE;
    if (r.end == END_UNSUPPORTED && !clean) throw HarnessError{"threads: " + r.how()};
    S->n["op:threaded-run"]++; S->n["context-switches"] += TO->switches; S->n["scheduling-points"] += TO->events; S->n["synchronisation-operations"] += TO->syncs;
    S->n["fault:forced-preemption"] += TO->switches;
    if (TO->forced) S->n["probe:thread-waited-for-another"] += TO->forced;
    if (TO->guards) S->n["probe:lazy-initialisation-under-threads"] += TO->guards;
    if (n > 2) S->n["probe:more-than-two-threads"]++;
    c.steps += TO->events + r.nEv;
    c.fold(TO->swHash); c.fold(TO->events); c.fold(TO->result); c.fold(clean ? 0 : 1000 + r.sig);
    c.foldSig(TO->swHash); if (TO->switches) c.nontrivial = true;
    if (tracing) {
        char b[256];
        for (int i = 0; i < TO->nsw && i < 80; ++i) { auto& s = TO->sw[i]; snprintf(b, sizeof b, "   at point %llu: thread %d -> thread %d in ", (unsigned long long) s.at, s.from, s.to); *trace += b + pcName(s.pc) + "\n"; }
        *trace += "   " + to_string(TO->switches) + " context switches, " + to_string(TO->events) + " scheduling points\n";
    }
    auto acc = [&](int i) { return string("thread ") + to_string(TO->raceT[i]) + (TO->raceW[i] ? " writes in " : " reads in ") + pcName(TO->racePc[i]); };
    if (TO->result == TR_RACE) { c.violation("unsynchronised conflicting accesses: " + acc(0) + "; " + acc(1)); return; }
    if (TO->result == TR_DEADLOCK) { c.violation("all threads wait for each other"); return; }
    if (TO->result == TR_STEPS || r.end == END_CPU) { c.violation("threads make no progress"); return; }
    if (!clean) { c.violation("process with threads ended with " + r.how()); return; }
    if (W->resOverflow) throw TooBig{};
    for (size_t k = 0; k < TH.ops.size(); ++k) {
        TOp& o = TH.ops[k]; Step& s = W->steps[k]; string got((char*) Wres + s.off, s.len);
        c.fold(s.status); c.fold(hash64(got));
        string who = "thread " + to_string(o.t) + (o.fmt ? " formatting " : o.life ? " parsing with its own parser " : " parsing ") + shortText(o.w, 80);
        if (o.ref.st == RF_RANGE) { if (s.status != ST_RANGE) { c.violation(who + ": not rejected, but is when alone"); return; } continue; }
        if (s.status != ST_OK) { c.violation(who + ": fails (" + to_string(s.status) + "), but not when alone"); return; }
        if (got != o.ref.text) { c.violation(who + ": " + diffAt(got, o.ref.text)); return; }
        S->n[o.fmt ? "op:concurrent-format" : o.life ? "op:concurrent-life-cycle" : "op:concurrent-parse"]++;
    }
}
