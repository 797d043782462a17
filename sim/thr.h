// thr.h - seeded one-at-a-time scheduler and happens-before race detector
#pragma once
#include <stdint.h>

enum { MAXT = 4, MAXSW = 400 };
enum { TR_OK, TR_RACE, TR_DEADLOCK, TR_STEPS };

struct ThrOut {                     // shared with the executor
    int result;
    uint64_t events, syncs, switches, forced, swHash;
    uint64_t granules, guards, locks, atomics;
    int raceT[2], raceW[2]; uint64_t racePc[2]; int raceGlobal; uint64_t raceAddr;
    int nsw; struct { uint8_t from, to; uint64_t at, pc; } sw[MAXSW];
};
extern ThrOut* TO;

void thrInit();                                                             // once, in the executor
void thrCreate(int n, uint64_t seed, int pol, int rate, void (*body)(int)); // in the child, before seamEnter
void thrRun();                                                              // until every thread has finished
extern __thread int thrIn;                                                  // >0: this thread is inside code under test
