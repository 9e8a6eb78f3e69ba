#include "mem.h"
static void run_mem(const std::string& prof) {
  Ch& ch = R->ch;
  A.reset(ch.bits(), ch.pick(5));
  bool oom = prof == "oom";
  if (oom && ch.pick(16) == 15) { if (ch.pick(2)) { Mem<double> m(ch); m.constructors(); } else { Mem<float> m(ch); m.constructors(); } return; }
  if (ch.pick(2) == 0) { Mem<double> s(ch); s.go(oom); }
  else { Mem<float> s(ch); s.go(oom); }
  G.reset();
}
static RegFamily reg("mem", run_mem);
