// world.h - the simulated machine shared between the executor and the
// simulated processes (forked children).
#pragma once
#include <stdint.h>
#include <stddef.h>

enum Cls { CL_OPEN, CL_READ, CL_WRITE, CL_CLOSE, CL_ALLOC, CL_ANY, N_CLS };
enum Chg { CHG_REPLACE, CHG_OVERWRITE, CHG_REMOVE, CHG_TRUNCATE };
enum Act { ACT_ERR, ACT_CRASH_BEFORE, ACT_CRASH_AFTER };

enum { MAXF = 64, MAXNODE = 128, MAXPROC = 4, MAXFD = 64, MAXFAULT = 16, SLOT_IN = MAXF, SLOT_OUT, SLOT_ERR, SLOT_OTHER, N_SLOT };

struct SNode {                // content of a file
    int      isdir;
    int      readonly;        // host data mapped in; never written
    const unsigned char* ro;
    uint64_t size, cap, off;  // content in the arena
    uint64_t mtime;           // simulated time of the last change
    uint64_t ver;             // counts the changes
};
struct SFile {                // a name
    char     path[120];
    int      exists;          // 0: known name, no file
    int      blk;             // st_blksize reported
    int      node;
};

struct SFd { int used, slot, node, append, wr, rd; uint64_t pos; int ofd; };   // ofd: open file description, for locks

struct SFault {
    int      cls, slot;       // slot -1: any
    int      act;
    int      err;
    int      sticky;
    int64_t  part;            // bytes accepted before a failing write / torn at crash, -1 none
    uint64_t nth;             // 0-based
    // run time
    int      armed;           // sticky fault has fired once already
    uint64_t fired;
};

struct Event { uint8_t cls, slot; int16_t err; uint32_t req; int32_t ret; };

enum { MAXEV = 4096, MAXWAIT = 8192, MAXSTEPS = 3000000 };

enum EndKind { END_NONE, END_EXIT, END_SIGNAL, END_CRASHED, END_UNSUPPORTED, END_CPU };

struct Step {                 // result of one library call
    int      status;          // see StepStatus
    int      value;
    uint64_t off, len;        // text in the result area
    uint64_t allocs;          // seam allocations seen during the call
    int64_t  fds;             // open descriptors after the call
    int64_t  liveB, liveN;    // tracked live allocations after the call
    uint64_t allocFired;
};
enum StepStatus { ST_NOTRUN, ST_RUNNING, ST_OK, ST_FALSE, ST_BAD_ALLOC, ST_RANGE, ST_OTHER_EXC };

enum { MAXSTEP = 8192, MAXLOCK = 32 };

struct DiskW {                // the disk, shared by all simulated processes
    int    nfiles;
    SFile  files[MAXF];
    SNode  nodes[MAXNODE];
    uint64_t arenaUsed;
    uint64_t now, t0, delaySeed;  // simulated time in ns; every system call takes a while
    // processes running at the same time: who runs next is drawn at every system call
    int    nproc, quantum; volatile int turn; volatile int alive[MAXPROC];
    uint64_t schedSeed, schedHash, switches;
    int    nOfd; struct { int node, proc, ofd, ex; } locks[MAXLOCK];       // advisory locks; node 0: free entry, ofd 0: held by the process
};

struct World {                // one simulated process
    int    id;                // which of the processes
    SFd    fds[MAXFD];
    // standard streams
    const unsigned char* in; uint64_t inLen, inPos;
    uint64_t outLen, errLen;
    int    outOverflow, idle;
    int    inSawEof, inSawErr, outSawErr;
    // knobs
    uint64_t rsSeed, wsSeed, weSeed, csSeed; uint32_t rsMax, wsMax, csMax; int outBlk, inBlk;
    // faults
    int    nfaults; SFault faults[MAXFAULT];
    uint64_t cnt[N_CLS][N_SLOT], cntAll[N_CLS];
    uint64_t shortReads, shortWrites, splitIn;
    int    lineIn;            // standard input arrives line by line
    // surroundings
    int    pidBase, uid, tty; uint64_t metaSeed; // tty: bits 0-2 standard stream is a terminal, bits 3-5 a regular file
    uint64_t padSeed, rndSeed, envSeed; char cwd[32];
    // files that change while the program runs: when standard input is asked for the n-th time
    int    nChg; struct { uint64_t nth; int kind, slot, from; uint64_t fr; } chg[8];
    int    fill;              // byte that fresh (and released) memory is filled with, 0: leave alone
    int    nWait; struct { uint64_t in, out; int64_t live; int fds; } wait[MAXWAIT]; int track;   // delivered input and accepted output when input was asked for
    // log
    uint64_t evHash, nEv; Event ev[MAXEV];
    // ending
    int    end, code, sig; long badSys;
    // library mode
    int    nsteps; Step steps[MAXSTEP]; uint64_t resUsed; int resOverflow;
    uint64_t allocTotal;
};

enum { OUTMAXP = 4 << 20 };
static const uint64_t ARENA = 48u << 20, OUTMAX = 24u << 20, ERRMAX = 1u << 20, RESMAX = 48u << 20;

extern DiskW* D;
extern World *W, *Ws[MAXPROC];
extern unsigned char *Warena, *Wout, *Werr, *Wres;     // output areas of process W
void worldSelect(int);                  // make process i current
void schedStart();
void schedNext(int);                    // process i has ended: let another one run

void worldInit();                       // once, in the executor
extern "C" void seamEnter();            // in the child: from here on all system calls are simulated
extern "C" void seamRawExit(int) __attribute__((noreturn));
int seamOpenFds();                      // descriptors 3.. in use
void seamSetFile(const char* path, const void* data, uint64_t n, bool inPlace = false, bool oldStamp = false);    // as if by another process
void seamDropFile(const char* path);

// allocation seam
extern volatile int seamWin;            // count (and fail) allocations
extern volatile int seamExempt;         // >0: inside a library call whose failures are out of scope
void seamDumpLive();
extern int seamDebug;                   // print the call stack of injected allocation failures
extern volatile int seamTrack;          // track live blocks allocated from now on
extern int64_t seamLiveN, seamLiveB;
extern "C" void (*seamOnAlloc)(void*, size_t);
extern "C" void (*seamOnFree)(void*);
extern "C" void (*seamYield)(void);     // scheduler hook (thread build)
