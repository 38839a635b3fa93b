#ifndef SHM_H
#define SHM_H
#include "sim.h"
struct Ev { u32 kind; i64 fiber; u64 a, b, step, wsteps; };
struct Pre { u64 step; u64 tid; };
struct RaceRep { u64 addr, pc1, pc2; u32 w1, w2, f1, f2; };
struct Shm {
  u32 done; char kind[32]; i64 a; char msg[1024];
  u64 out_n, err_n, ev_n, pre_n, race_n, rec_n, txt_n, pre_lost, steps, hash;
  static const size_t OUT = 8 << 20, ERR = 1 << 20, EVN = 1 << 17, PREN = 1 << 19, RACEN = 64, REC = 32 << 20, TXT = 1 << 16;
  Ev evs[EVN]; Pre pres[PREN]; RaceRep races[RACEN];
  char out[OUT]; char err[ERR]; char rec[REC]; char txt[TXT];
};
extern Shm *shm;
#endif
