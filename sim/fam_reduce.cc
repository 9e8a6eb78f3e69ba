// A simulated cluster computing one reduction: ranks are process images with private library state,
// they process their shard in chunks through varying entry points, checkpoint to a simulated disk,
// crash and restart (possibly on another build of the library), and merge up a random tree over a
// network that drops, duplicates, delays and reorders messages.
#include "gen.h"
#include <queue>

enum Kind { SUM, ASUM, DOT, DOTU, DOTC, SSQ };
static const char* kname[] = {"sum", "asum", "dot", "dotu", "dotc", "nrm2"};

namespace {
struct Event {
  double t;
  uint64_t seq;
  int kind, rank, a, epoch;
  std::vector<uint8_t> data;
  bool operator<(const Event& o) const { return t != o.t ? t > o.t : seq > o.seq; }
};
enum { E_COMPUTE, E_CKPT, E_CRASH, E_RESTART, E_MSG, E_ACK, E_RETRY };

template <class R> struct Sim {
  typedef API<R> P;
  Ch& ch;
  std::string cls;
  Kind op;
  bool cx;          // inputs complex
  bool acx;         // accumulator complex
  int fold, C, NP, N;
  bool specials = false, hetero = false, crashes = false, whole = false;
  int nnum, stride; // accumulator reals; payload stride (1 + nnum for scaled)
  std::vector<std::vector<R>> X, Y;  // per column, interleaved
  std::vector<Model<R>> zero;
  // how far below the top of bin b lies the power of two whose scaled square is nearest to the top of a bin
  int ssq_drop(int b) const {
    Proc p;
    p.start(LIBS[0]);
    In in(p);
    int best = 0, gap = 1 << 20;
    for (int d = 0; d < T<R>::W; d++) {
      int e = std::min(T<R>::MAXEXP - 1, T<R>::MAXEXP - b * T<R>::W) - 1 - d;
      if (e < T<R>::MINEXP - T<R>::MANT) break;
      R v = std::ldexp((R)1, e);
      int f = 2 * std::ilogb(v / P::scale(*p.lib, v)), k = ((T<R>::MAXEXP - 1 - f) % T<R>::W + T<R>::W) % T<R>::W;
      if (k < gap) { gap = k; best = d; }
    }
    return best;
  }
  int portion(Ch& ch) { return (op == SSQ ? 2 : 1) * ((sizeof(R) == 8 ? 2048 : 512) >> (ch.pick(3) ? 0 : (int)ch.pick(4))); }
  int w() const { return op == DOT ? 0 : op == DOTU ? 1 : 2; }

  struct Slot { bool valid = false; std::vector<R> acc; int pos = 0; std::set<int> merged; uint64_t ver = 0; };
  struct Rank {
    Proc proc;
    std::vector<int> ids;
    int pos = 0;
    R* acc = nullptr;
    std::vector<Model<R>> m;             // per column (not SSQ)
    std::vector<int> have;               // multiset of ids in the accumulator
    std::vector<std::vector<int>> from;  // per rank: ids received
    std::set<int> kids, merged, durable;
    int parent = -1;
    bool alive = true, sent = false, acked = false, ckpting = false;
    int epoch = 0;
    uint64_t ver = 0;
    Slot slot[2];
    Slot writing;
    int wslot = 0;
    double slow = 1;
    std::vector<std::vector<int>> hist;
  };
  std::vector<Rank> rk;
  std::priority_queue<Event> q;
  uint64_t seq = 0;
  double now = 0;
  bool asks = false;
  explicit Sim(Ch& c) : ch(c) {}

  // ---- the contributions one element makes
  void contrib(int col, int id, std::vector<std::pair<int, R>>& out) const {
    out.clear();
    const R* x = &X[col][(cx ? 2 : 1) * id];
    switch (op) {
      case SUM: out.push_back({0, x[0]}); if (cx) out.push_back({1, x[1]}); break;
      case ASUM: out.push_back({0, std::fabs(x[0])}); if (cx) out.push_back({0, std::fabs(x[1])}); break;
      case SSQ: out.push_back({0, std::fabs(x[0])}); if (cx) out.push_back({0, std::fabs(x[1])}); break;  // unscaled
      case DOT: out.push_back({0, x[0] * Y[col][id]}); break;
      case DOTU: case DOTC: {
        const R* y = &Y[col][2 * id];
        R s = op == DOTU ? 1 : -1;
        out.push_back({0, x[0] * y[0]}); out.push_back({0, -s * (x[1] * y[1])});
        out.push_back({1, x[0] * y[1]}); out.push_back({1, s * (x[1] * y[0])});
      }
    }
  }
  // SSQ model: from the multiset, with the scale the accumulator reports
  Model<R> model_ssq(int col, const std::vector<int>& ids, R scale) const {
    Model<R> m(fold, false);
    for (int id : ids)
      for (int j = 0; j < (cx ? 2 : 1); j++) {
        R v = X[col][(cx ? 2 : 1) * id + j];
        if (!is_fin(v)) { m.a[0].add(std::fabs(v)); continue; }
        R s = v / scale;
        m.a[0].add(s * s);
      }
    return m;
  }
  void check_rank(Rank& r, const char* what) {
    In in(r.proc);
    for (int c = 0; c < C; c++) {
      R* a = r.acc + c * stride;
      if (op == SSQ) {
        if (r.have.empty()) continue;
        R mx = 0;
        bool sp = false;
        for (int id : r.have) for (int j = 0; j < (cx ? 2 : 1); j++) { R v = std::fabs(X[c][(cx ? 2 : 1) * id + j]); if (!is_fin(v)) sp = true; else mx = std::max(mx, v); }
        R sc = a[0];
        if (!sp) {
          R es = P::scale(*r.proc.lib, mx);
          if (sc != es) violate(cls + "/scale", "%s: scale is %s, the largest element implies %s", what, hexs(sc).c_str(), hexs(es).c_str());
        } else sc = 1;
        check_state(model_ssq(c, r.have, sc), a + 1, cls, what);
      } else
        check_state(r.m[c], a, cls, what);
    }
  }
  // inplace: the accumulator's memory is kept; zeroed only if nothing is going to be written over it
  void fresh(Rank& r, bool inplace = false, bool zero = true) {
    if (!inplace) r.acc = anew<R>((size_t)C * stride);
    In in(r.proc);
    if (zero) for (int c = 0; c < C; c++) {
      R* a = r.acc + c * stride;
      if (op == SSQ) { a[0] = 0; P::setzero(*r.proc.lib, false, fold, a + 1); }
      else P::setzero(*r.proc.lib, acx, fold, a);
    }
    r.m.assign(C, Model<R>(fold, acx));
    r.have.clear();
    r.pos = 0;
    r.merged.clear();
  }
  Lib* pick_lib() { return LIBS[hetero ? ch.pick(LIBS.size()) : 0]; }

  // gather a chunk into fresh caller memory with a stride and poisoned gaps
  const R* gather(const std::vector<R>& v, const std::vector<int>& ids, int at, int len, int inc, bool c2) {
    int e = c2 ? 2 : 1;
    size_t n = len ? (size_t)((len - 1) * std::abs(inc) + 1) * e : 1;
    R* b = anew<R>(n);
    for (size_t i = 0; i < n; i++) b[i] = std::numeric_limits<R>::quiet_NaN();
    if (inc < 0 && len) b += (size_t)(len - 1) * -inc * e;   // walked backwards: the pointer is to the element used first
    for (int i = 0; i < len; i++) for (int j = 0; j < e; j++) b[(ptrdiff_t)i * inc * e + j] = v[(size_t)ids[at + i] * e + j];
    return b;
  }
  struct Strided { R *P, *Q; int ip, iq; std::vector<R> p0, q0; };
  Strided spread(Lib& L, const R* packed, bool c2) {
    Strided s;
    int e = c2 ? 2 : 1;
    s.ip = ch.range(1, 3);
    s.iq = ch.range(1, 3);
    size_t np = (size_t)((fold - 1) * s.ip + 1) * e, nq = (size_t)((fold - 1) * s.iq + 1) * e;
    s.P = anew<R>(np);
    s.Q = anew<R>(nq);
    for (size_t i = 0; i < np; i++) s.P[i] = (R)1234.5;
    for (size_t i = 0; i < nq; i++) s.Q[i] = (R)-77.25;
    P::mset(L, c2, fold, packed, 1, packed + e * fold, 1, s.P, s.ip, s.Q, s.iq);
    return s;
  }
  void unspread(Lib& L, Strided& s, R* packed, bool c2) {
    int e = c2 ? 2 : 1;
    for (int i = 0; i < (fold - 1) * s.ip + 1; i++) if (i % s.ip) for (int j = 0; j < e; j++) if (s.P[i * e + j] != (R)1234.5) violate(cls + "/stride-gap", "an element between the strided primary slots was overwritten");
    for (int i = 0; i < (fold - 1) * s.iq + 1; i++) if (i % s.iq) for (int j = 0; j < e; j++) if (s.Q[i * e + j] != (R)-77.25) violate(cls + "/stride-gap", "an element between the strided carry slots was overwritten");
    P::mset(L, c2, fold, s.P, s.ip, s.Q, s.iq, packed, 1, packed + e * fold, 1);
  }
  void kernel(Lib& L, int n, const R* x, int ix, const R* y, int iy, R* a /*payload*/) {
    switch (op) {
      case SUM: P::sum(L, cx, fold, n, x, ix, a); break;
      case ASUM: P::asum(L, cx, fold, n, x, ix, a); break;
      case SSQ: a[0] = P::ssq(L, cx, fold, n, x, ix, a[0], a + 1); break;
      default: P::dot(L, w(), fold, n, x, ix, y, iy, a);
    }
  }
  void mkernel(Lib& L, int n, const R* x, int ix, const R* y, int iy, R* a) {
    R* body = op == SSQ ? a + 1 : a;
    Strided s = spread(L, body, acx);
    switch (op) {
      case SUM: P::msum(L, cx, fold, n, x, ix, s.P, s.ip, s.Q, s.iq); break;
      case ASUM: P::masum(L, cx, fold, n, x, ix, s.P, s.ip, s.Q, s.iq); break;
      case SSQ: a[0] = P::mssq(L, cx, fold, n, x, ix, a[0], s.P, s.ip, s.Q, s.iq); break;
      default: P::mdot(L, w(), fold, n, x, ix, y, iy, s.P, s.ip, s.Q, s.iq);
    }
    unspread(L, s, body, acx);
  }
  // merge payload x into payload y by one of the public routes
  void merge1(Lib& L, const R* x, R* y, int how) {
    int e = acx ? 2 : 1;
    if (op == SSQ) {
      switch (how % 3) {
        case 0: y[0] = P::baddsq(L, fold, x[0], x + 1, y[0], y + 1); break;
        case 1: {
          Strided a = spread(L, x + 1, false), b = spread(L, y + 1, false);
          y[0] = P::maddsq(L, fold, x[0], a.P, a.ip, a.Q, a.iq, y[0], b.P, b.ip, b.Q, b.iq);
          unspread(L, b, y + 1, false);
          break;
        }
        default: {
          MPI_Op o = MpiNames<R>::opsq(L, fold);
          MPI_Datatype ty = MpiNames<R>::tysq(L, fold);
          int one = 1;
          ((SimOp*)o)->fn((void*)x, y, &one, &ty);
        }
      }
      return;
    }
    switch (how % 4) {
      case 0: P::badd(L, acx, fold, x, y); break;
      case 1: {
        Strided a = spread(L, x, acx), b = spread(L, y, acx);
        P::madd(L, acx, fold, a.P, a.ip, a.Q, a.iq, b.P, b.ip, b.Q, b.iq);
        unspread(L, b, y, acx);
        break;
      }
      case 2: P::baddv(L, acx, fold, 1, x, 1, y, 1); break;
      default: {
        MPI_Op o = MpiNames<R>::op(L, acx, fold);
        MPI_Datatype ty = MpiNames<R>::ty(L, acx, fold);
        int one = 1;
        ((SimOp*)o)->fn((void*)x, y, &one, &ty);
      }
    }
    (void)e;
  }
  void chunk(int ri, int len) {
    Rank& r = rk[ri];
    Lib& L = *r.proc.lib;
    In in(r.proc);
    int mode = ch.pick(op == SSQ ? 3 : (op == SUM || op == ASUM) ? 6 : 5);
    for (int c = 0; c < C; c++) {
      R* a = r.acc + c * stride;
      int ix = ch.chance(1, 3) ? ch.range(2, 4) : 1, iy = ch.chance(1, 3) ? ch.range(2, 4) : 1;
      if (ch.chance(1, 6)) { if (ch.pick(2)) ix = -ix; if (ch.pick(2)) iy = -iy; cnt("input.backward_stride"); }
      const R* x = gather(X[c], r.ids, r.pos, len, ix, cx);
      const R* y = op == DOT || op == DOTU || op == DOTC ? gather(Y[c], r.ids, r.pos, len, iy, cx) : nullptr;
      std::vector<std::pair<int, R>> ct;
      switch (mode) {
        case 0: kernel(L, len, x, ix, y, iy, a); break;
        case 1: mkernel(L, len, x, ix, y, iy, a); break;
        case 2: {  // separate accumulator, then merged
          R* b = anew<R>(stride);
          if (op == SSQ) b[0] = 0;
          P::setzero(L, acx, fold, op == SSQ ? b + 1 : b);
          kernel(L, len, x, ix, y, iy, b);
          merge1(L, b, a, ch.pick(4));
          break;
        }
        case 3:  // scalar adds
        case 5:
          for (int i = 0; i < len; i++) {
            contrib(c, r.ids[r.pos + i], ct);
            if (op == SUM) {
              R v[2] = {ct[0].second, cx ? ct[1].second : 0};
              if (mode == 5) { R* b = anew<R>(nnum); P::conv1(L, cx, fold, v, b); P::badd(L, cx, fold, b, a); }
              else P::add1(L, cx, fold, v, a);
            } else if (op == ASUM) {
              for (auto& t : ct) P::add1(L, false, fold, &t.second, a);
            } else if (acx) {
              for (int k = 0; k < 2; k++) {
                R v[2] = {ct[k].second, ct[k + 2].second};
                P::add1(L, true, fold, v, a);
              }
            } else
              P::add1(L, false, fold, &ct[0].second, a);
          }
          break;
        default: {  // update / deposit / renorm by hand
          int i = 0;
          int batch = ch.chance(1, 4) ? T<R>::ENDUR : ch.range(1, 40);
          while (i < len) {
            int n = std::min(batch, len - i), dep = 0;
            R mx[2] = {0, 0};
            bool sp = false;
            std::vector<std::array<R, 2>> vs;
            for (int k = 0; k < n; k++) {
              contrib(c, r.ids[r.pos + i + k], ct);
              if (op == SUM) vs.push_back({ct[0].second, cx ? ct[1].second : 0});
              else if (acx) { vs.push_back({ct[0].second, ct[2].second}); vs.push_back({ct[1].second, ct[3].second}); }
              else for (auto& t : ct) vs.push_back({t.second, 0});
            }
            // at most ENDURANCE deposits between renormalisations
            size_t at = 0;
            while (at < vs.size()) {
              size_t e = std::min(vs.size(), at + (size_t)T<R>::ENDUR);
              mx[0] = mx[1] = 0;
              for (size_t k = at; k < e; k++) for (int j = 0; j < 2; j++) { if (!is_fin(vs[k][j])) sp = true; else mx[j] = std::max(mx[j], (R)std::fabs(vs[k][j])); }
              P::upd(L, acx, fold, mx, a);
              for (size_t k = at; k < e; k++) { R v[2] = {vs[k][0], vs[k][1]}; P::dep(L, acx, fold, v, a); dep++; }
              P::renorm(L, acx, fold, a);
              at = e;
            }
            (void)sp;
            i += n;
          }
        }
      }
      if (op != SSQ)
        for (int i = 0; i < len; i++) {
          contrib(c, r.ids[r.pos + i], ct);
          for (auto& t : ct) r.m[c].a[t.first].add(t.second);
        }
    }
    for (int i = 0; i < len; i++) r.have.push_back(r.ids[r.pos + i]);
    r.pos += len;
    ev("t=%.3f rank %d (%s) processes %d elements, mode %d, %d/%zu done", now, ri, L.name.c_str(), len, mode, r.pos, r.ids.size());
  }

  void post(double dt, int kind, int rank, int a = 0, std::vector<uint8_t> d = {}) { q.push({now + dt, seq++, kind, rank, a, rank >= 0 ? rk[rank].epoch : 0, std::move(d)}); }
  double lat() { return 0.001 * (1 + ch.small(200)); }
  int droprate = 0, duprate = 0, faults_left = 0, crashes_left = 0;
  void send(int kind, int to, int from, std::vector<uint8_t> d) {
    if (faults_left > 0 && ch.chance(droprate, 16)) { faults_left--; cnt("fault.msg_dropped"); ev("t=%.3f net: drop %s %d->%d", now, kind == E_MSG ? "data" : "ack", from, to); return; }
    int n = 1;
    if (faults_left > 0 && ch.chance(duprate, 16)) { faults_left--; cnt("fault.msg_duplicated"); n = 2; }
    for (int i = 0; i < n; i++) {
      q.push({now + lat(), seq++, kind, to, from, -1, d});
    }
  }
  void try_finish(int ri) {
    Rank& r = rk[ri];
    if (!r.alive || r.pos < (int)r.ids.size() || r.merged.size() != r.kids.size() || r.sent) return;
    r.sent = true;
    if (r.parent < 0) return;
    transmit(ri);
  }
  std::vector<std::vector<R>> sentbytes;
  void transmit(int ri) {
    Rank& r = rk[ri];
    std::vector<uint8_t> d((uint8_t*)r.acc, (uint8_t*)(r.acc + (size_t)C * stride));
    std::vector<R> snap(r.acc, r.acc + (size_t)C * stride);
    if (sentbytes[ri].empty()) sentbytes[ri] = snap;
    else {
      for (size_t i = 0; i < snap.size(); i++)
        if (!(sentbytes[ri][i] == snap[i]) && !(std::isnan(snap[i]) && std::isnan(sentbytes[ri][i])) && !any_special(r))
          violate(cls + "/resend-differs", "rank %d recomputed its partial result after a crash and got a different accumulator (word %zu: %s then %s)", ri, i, hexs(sentbytes[ri][i]).c_str(), hexs(snap[i]).c_str());
    }
    ev("t=%.3f rank %d sends its accumulators to %d", now, ri, r.parent);
    send(E_MSG, r.parent, ri, d);
    post(0.3 + lat(), E_RETRY, ri);
  }
  bool any_special(Rank& r) {
    for (int c = 0; c < C; c++) {
      if (op == SSQ) { for (int id : r.have) for (int j = 0; j < (cx ? 2 : 1); j++) if (!is_fin(X[c][(cx ? 2 : 1) * id + j])) return true; }
      else if (r.m[c].a[0].special() || r.m[c].a[1].special()) return true;
    }
    return false;
  }
  void start_ckpt(int ri) {
    Rank& r = rk[ri];
    if (r.ckpting || !r.alive) return;
    r.ckpting = true;
    r.wslot = r.slot[0].ver <= r.slot[1].ver ? 0 : 1;
    r.slot[r.wslot].valid = false;  // being overwritten: torn if we crash now
    r.writing.acc.assign(r.acc, r.acc + (size_t)C * stride);
    r.writing.pos = r.pos;
    r.writing.merged = r.merged;
    r.writing.ver = ++r.ver;
    r.writing.valid = true;
    r.hist.push_back(r.have);
    hist_m[ri][r.ver] = {r.have, r.m};
    post(lat(), E_CKPT, ri);
    cnt("ckpt.started");
  }
  std::vector<std::map<uint64_t, std::pair<std::vector<int>, std::vector<Model<R>>>>> hist_m;

  void run_cluster() {
    long steps = 0;
    while (!q.empty()) {
      if (++steps > 20000) throw HarnessError{"reduce: step bound"};
      Event e = q.top();
      q.pop();
      now = e.t;
      Rank& r = rk[e.rank];
      switch (e.kind) {
        case E_COMPUTE: {
          if (!r.alive || e.epoch != r.epoch) break;
          if (r.pos < (int)r.ids.size()) {
            int left = r.ids.size() - r.pos;
            int len = left;
            uint32_t k = ch.pick(4);
            if (k == 1) len = std::min(left, 1 + (int)ch.pick(8));
            else if (k == 2) len = 1 + ch.pick(left);
            else if (k == 3) len = std::min(left, 1 + (int)ch.pick(70));
            if (whole && k && ch.pick(2)) len = std::min(left, portion(ch));
            chunk(e.rank, len);
            check_rank(r, "after a chunk");
            if (crashes && ch.chance(1, 3)) start_ckpt(e.rank);
            post(lat() * r.slow, E_COMPUTE, e.rank);
          } else
            try_finish(e.rank);
          break;
        }
        case E_CKPT: {
          if (!r.alive || e.epoch != r.epoch) break;
          r.slot[r.wslot] = r.writing;
          r.ckpting = false;
          cnt("ckpt.completed");
          for (int k : r.slot[r.wslot].merged) if (!r.durable.count(k)) { r.durable.insert(k); send(E_ACK, k, e.rank, {}); }
          if (r.merged.size() > r.durable.size()) start_ckpt(e.rank);
          break;
        }
        case E_CRASH: {
          if (!r.alive || crashes_left <= 0) break;
          crashes_left--;
          r.alive = false;
          r.epoch++;
          if (r.ckpting) cnt("fault.torn_checkpoint");
          r.ckpting = false;
          cnt("fault.crash");
          ev("t=%.3f rank %d crashes", now, e.rank);
          post(0.05 + lat() * 5, E_RESTART, e.rank);
          break;
        }
        case E_RESTART: {
          Slot* s = nullptr;
          for (int i = 0; i < 2; i++) if (r.slot[i].valid && (!s || r.slot[i].ver > s->ver)) s = &r.slot[i];
          // a process that lost its work but not its life rolls back to the checkpoint in the memory it has
          bool rollback = ch.chance(1, 4);
          if (!rollback) r.proc.start(pick_lib());
          r.alive = true;
          r.sent = false;
          r.durable.clear();
          fresh(r, rollback, !(rollback && s));
          if (rollback) cnt("fault.rollback");
          if (s) {
            memcpy(r.acc, s->acc.data(), s->acc.size() * sizeof(R));
            r.pos = s->pos;
            r.merged = s->merged;
            r.durable = s->merged;
            auto& h = hist_m[e.rank][s->ver];
            r.have = h.first;
            r.m = h.second;
            cnt("restart.from_checkpoint");
          } else
            cnt("restart.from_scratch");
          ev("t=%.3f rank %d %s on %s at %d/%zu with %zu children merged", now, e.rank, rollback ? "rolls back" : "restarts", r.proc.lib->name.c_str(), r.pos, r.ids.size(), r.merged.size());
          check_rank(r, "after restart");
          post(lat(), E_COMPUTE, e.rank);
          break;
        }
        case E_MSG: {
          if (!r.alive) { cnt("net.to_dead"); break; }
          int from = e.a;
          if (r.merged.count(from)) {
            cnt("net.duplicate_ignored");
            if (r.durable.count(from) || !crashes) send(E_ACK, from, e.rank, {});
            break;
          }
          R* in_ = anew<R>((size_t)C * stride);
          memcpy(in_, e.data.data(), e.data.size());
          std::vector<uint8_t> before(e.data);
          {
            In in(r.proc);
            Lib& L = *r.proc.lib;
            int how = ch.pick(5);
            if (how == 4 && C > 1) {  // vector route, in segments
              int at = 0;
              while (at < C) {
                int n = 1 + ch.pick(C - at);
                if (op == SSQ) {
                  MPI_Op o = MpiNames<R>::opsq(L, fold);
                  MPI_Datatype ty = MpiNames<R>::tysq(L, fold);
                  ((SimOp*)o)->fn(in_ + at * stride, r.acc + at * stride, &n, &ty);
                } else if (ch.pick(2)) {
                  MPI_Op o = MpiNames<R>::op(L, acx, fold);
                  MPI_Datatype ty = MpiNames<R>::ty(L, acx, fold);
                  ((SimOp*)o)->fn(in_ + at * stride, r.acc + at * stride, &n, &ty);
                } else
                  P::baddv(L, acx, fold, n, in_ + at * stride, 1, r.acc + at * stride, 1);
                at += n;
              }
            } else
              for (int c = 0; c < C; c++) merge1(L, in_ + c * stride, r.acc + c * stride, how);
            ev("t=%.3f rank %d merges child %d, route %d", now, e.rank, from, how);
          }
          if (memcmp(before.data(), in_, before.size())) violate(cls + "/merge-source-changed", "merging changed the source accumulator");
          Rank& s = rk[from];
          // the sender's finished contribution is its whole subtree
          if (op == SSQ) r.have.insert(r.have.end(), subtree(from).begin(), subtree(from).end());
          else {
            r.have.insert(r.have.end(), subtree(from).begin(), subtree(from).end());
            for (int c = 0; c < C; c++) r.m[c].merge(fullmodel(from, c));
          }
          (void)s;
          r.merged.insert(from);
          cnt("merges");
          check_rank(r, "after a merge");
          if (crashes) start_ckpt(e.rank);
          else send(E_ACK, from, e.rank, {});
          if (r.pos >= (int)r.ids.size()) try_finish(e.rank);
          break;
        }
        case E_ACK: {
          if (!r.alive) break;
          r.acked = true;
          break;
        }
        case E_RETRY: {
          if (!r.alive || e.epoch != r.epoch || !r.sent || r.acked) break;
          cnt("net.retransmit");
          transmit(e.rank);
          break;
        }
      }
    }
    for (auto& r : rk)
      if (r.parent >= 0 && !r.acked) violate(cls + "/no-progress", "reduction did not finish");
    R_simtime(now);
  }
  void R_simtime(double t) { ::R->simtime += t; }
  std::map<int, std::vector<int>> sub_;
  const std::vector<int>& subtree(int i) {
    auto it = sub_.find(i);
    if (it != sub_.end()) return it->second;
    std::vector<int> v = rk[i].ids;
    for (int k : rk[i].kids) { auto& s = subtree(k); v.insert(v.end(), s.begin(), s.end()); }
    return sub_[i] = v;
  }
  std::map<std::pair<int, int>, Model<R>> fm_;
  const Model<R>& fullmodel(int i, int c) {
    auto it = fm_.find({i, c});
    if (it != fm_.end()) return it->second;
    Model<R> m(fold, acx);
    std::vector<std::pair<int, R>> ct;
    for (int id : subtree(i)) { contrib(c, id, ct); for (auto& t : ct) m.a[t.first].add(t.second); }
    return fm_[{i, c}] = m;
  }

  static Ext xR(R v) { return Ext((long double)v); }
  void final_checks() {
    Rank& root = rk[0];
    std::vector<std::pair<int, R>> ct;
    if ((int)root.have.size() != N) throw HarnessError{"reduce: root does not hold every element"};
    for (int c = 0; c < C; c++) {
      // canonical execution: one process, one call, index order, unit stride
      Proc p;
      p.start(LIBS[0]);
      R out[2] = {0, 0}, ref[2] = {0, 0}, one[2] = {0, 0};
      R rsc = 0;
      {
        In in(root.proc);
        R* a = root.acc + c * stride;
        P::conv(*root.proc.lib, acx, fold, op == SSQ ? a + 1 : a, out);
        if (op == SSQ) { rsc = a[0]; out[0] = (R)(rsc * std::sqrt((double)out[0])); }
        if (op != SSQ || true) {
          R o2[2] = {0, 0};
          Strided s = spread(*root.proc.lib, op == SSQ ? a + 1 : a, acx);
          P::mconv(*root.proc.lib, acx, fold, s.P, s.ip, s.Q, s.iq, o2);
          if (op == SSQ) o2[0] = (R)(rsc * std::sqrt((double)o2[0]));
          for (int j = 0; j < (acx ? 2 : 1); j++) if (rbits(o2[j]) != rbits(out[j]) && !(std::isnan(o2[j]) && std::isnan(out[j]))) violate(cls + "/convert", "packed and strided conversions of one accumulator differ");
        }
      }
      {
        In in(p);
        Lib& L = *p.lib;
        int e = cx ? 2 : 1;
        R* x = anew<R>(X[c].size());
        memcpy(x, X[c].data(), X[c].size() * sizeof(R));
        R* y = nullptr;
        if (!Y[c].empty()) { y = anew<R>(Y[c].size()); memcpy(y, Y[c].data(), Y[c].size() * sizeof(R)); }
        (void)e;
        R* a = anew<R>(stride);
        if (op == SSQ) a[0] = 0;
        P::setzero(L, acx, fold, op == SSQ ? a + 1 : a);
        kernel(L, N, x, 1, y, 1, a);
        P::conv(L, acx, fold, op == SSQ ? a + 1 : a, ref);
        if (op == SSQ) ref[0] = (R)(a[0] * std::sqrt((double)ref[0]));
        if (op == SSQ && N == 0) ref[0] = 0;
        int kk = fold == 3 && ch.chance(1, 2) ? 0 : fold;
        switch (op) {
          case SUM: P::rsum(L, cx, kk, N, x, 1, one); break;
          case ASUM: one[0] = P::rasum(L, cx, kk, N, x, 1); break;
          case SSQ: one[0] = P::rnrm2(L, cx, kk, N, x, 1); break;
          default: P::rdot(L, w(), kk, N, x, 1, y, 1, one);
        }
      }
      for (int j = 0; j < (acx ? 2 : 1); j++) {
        auto same = [](R a, R b) { return a == b || (std::isnan(a) && std::isnan(b)); };
        if (!same(out[j], ref[j])) violate(cls + "/distributed-differs", "%s fold %d, N=%d, component %d: the distributed execution gives %s, one serial call gives %s", kname[op], fold, N, j, hexs(out[j]).c_str(), hexs(ref[j]).c_str());
        bool close = same(one[j], ref[j]);
        if (!close && op == SSQ && is_fin(one[j]) && is_fin(ref[j])) close = std::fabs((double)one[j] - (double)ref[j]) <= 2 * (std::nextafter(ref[j], (R)INFINITY) - ref[j]);
        if (!close) violate(cls + "/oneshot-differs", "%s fold %d, N=%d, component %d: the one-shot routine gives %s, accumulate-then-convert gives %s", kname[op], fold, N, j, hexs(one[j]).c_str(), hexs(ref[j]).c_str());
        accuracy(c, j, out[j]);
      }
    }
  }
  void accuracy(int c, int j, R got) {
    std::vector<std::pair<int, R>> ct;
    bool nan = false, pi = false, ni = false;
    R mx = 0;
    Big s;
    long n = 0;
    for (int id = 0; id < N; id++) {
      contrib(c, id, ct);
      for (auto& t : ct) {
        if (t.first != j) continue;
        n++;
        if (std::isnan(t.second)) nan = true;
        else if (std::isinf(t.second)) (t.second > 0 ? pi : ni) = true;
        else {
          mx = std::max(mx, (R)std::fabs(t.second));
          if (op == SSQ) s.addprod(t.second, t.second); else s.add(t.second);
        }
      }
    }
    if (nan || (pi && ni)) { if (!std::isnan(got)) violate(cls + "/special", "%s: inputs imply NaN, result %s", kname[op], hexs(got).c_str()); return; }
    if (pi || ni) { if (!(std::isinf(got) && (got > 0) == pi)) violate(cls + "/special", "%s: inputs imply %cInf, result %s", kname[op], pi ? '+' : '-', hexs(got).c_str()); return; }
    if (std::isnan(got)) violate(cls + "/accuracy", "%s: finite inputs gave NaN", kname[op]);
    long double m;
    int e;
    s.get(m, e);
    Ext S(m, e);
    const double eps = std::ldexp(1.0, 1 - T<R>::MANT);
    if (op == SSQ) {
      // exact norm
      Ext r = S.m == 0 ? Ext() : Ext(std::sqrt(S.e & 1 ? S.m * 2 : S.m), (S.e & 1 ? S.e - 1 : S.e) / 2);
      if (S.e & 1) r = Ext(std::sqrt(S.m * 2), (S.e - 1) / 2); 
      if (S.m == 0) r = Ext();
      Ext lim((long double)std::numeric_limits<R>::max());
      if (std::isinf(got)) { if (ext_le(r, Ext(lim.m * (1 - 16 * eps), lim.e))) violate(cls + "/accuracy", "nrm2 overflowed although the norm is representable"); return; }
      Ext d = ext_add(xR(got), Ext(-r.m, r.e)).abs();
      // relative to the norm: n * 2^(-(fold-1)*W+1) from the bins, a few roundings, one tiny absolute quantum
      long double rel = std::ldexp((long double)n, (1 - fold) * T<R>::W + 2) + 16 * eps;
      Ext b = ext_add(Ext(r.m * rel, r.e), Ext(std::ldexp((long double)1, 0), T<R>::MINEXP - T<R>::MANT + 4));
      b = ext_add(b, Ext((long double)n, T<R>::MINEXP - T<R>::MANT + 4));
      if (!ext_le(d, b)) violate(cls + "/accuracy", "nrm2 fold %d: result %s, exact %.17Lg*2^%d, error %.3Lg*2^%d exceeds %.3Lg*2^%d", fold, hexs(got).c_str(), r.m, r.e, d.m, d.e, b.m, b.e);
      return;
    }
    Ext lim((long double)std::numeric_limits<R>::max());
    if (std::isinf(got)) {
      Ext a = S.abs();
      if (ext_le(a, Ext(lim.m * (1 - 16 * eps), lim.e)) || (got > 0) != (S.m > 0)) violate(cls + "/accuracy", "%s overflowed to %s although the exact result is %.17Lg*2^%d", kname[op], hexs(got).c_str(), S.m, S.e);
      return;
    }
    Ext d = ext_add(xR(got), Ext(-S.m, S.e)).abs();
    if (asks) return ask_bound(d, S, n, mx, got);
    Ext X0 = mx < std::ldexp((R)0.5, T<R>::MINEXP - 1) ? Ext(std::ldexp(0.5L, T<R>::MINEXP - 1)) : xR(mx);
    Ext b = Ext(X0.m * n, X0.e + (1 - fold) * T<R>::W + 1 - 1);
    b = Ext(b.m * 1, b.e);
    long double rel = (7.0L * eps) / (1.0L - 6.0L * std::sqrt((long double)eps) - 7.0L * eps);
    b = ext_add(b, Ext(S.abs().m * rel, S.e));
    // below the last bin nothing can be resolved: half its quantum per element
    b = ext_add(b, Ext((long double)n, Bins<R>::qexp(T<R>::MAXINDEX)));
    if (!ext_le(d, b)) violate(cls + "/accuracy", "%s fold %d N=%d: result %s, exact %.17Lg*2^%d, error %.4Lg*2^%d exceeds the documented bound %.4Lg*2^%d", kname[op], fold, N, hexs(got).c_str(), S.m, S.e, d.m, d.e, b.m, b.e);
  }

  // the library's own bound on the error of this execution, asked on one of the nodes
  static R bbound(Lib& L, int fold, int n, R x, R s) {
    if constexpr (sizeof(R) == 8) return L.binned_dbbound(fold, n, x, s);
    else return L.binned_sbbound(fold, n, x, s);
  }
  void ask_bound(const Ext& d, const Ext& S, long n, R mx, R got) {
    Rank& r = rk[ch.pick(NP)];
    In in(r.proc);
    Lib& L = *r.proc.lib;
    R sgn = ch.pick(2) ? -1 : 1;
    R B = bbound(L, fold, (int)n, sgn * mx, got);
    cnt("bound.asked");
    if (d.m != 0) cnt("bound.inexact");
    if (mx && std::fabs(mx) < std::ldexp((R)1, T<R>::MINEXP - 1)) cnt("bound.subnormal_inputs");
    ev("bound asked on %s for %ld terms of at most %s and sum %s: %s", L.name.c_str(), n, hexs(mx).c_str(), hexs(got).c_str(), hexs(B).c_str());
    if (std::isnan(B) || B < 0) violate("bound/invalid", "%s fold %d, %ld terms of at most %s, sum %s: the bound is %s", kname[op], fold, n, hexs(mx).c_str(), hexs(got).c_str(), hexs(B).c_str());
    if (std::isinf(B)) {
      cnt("bound.infinite");
    } else if (!ext_le(d, xR(B)))
      violate("bound/below-error", "%s fold %d, %ld terms of at most %s: result %s, exact %.17Lg*2^%d, error %.4Lg*2^%d exceeds the library's bound %s", kname[op], fold, n, hexs(mx).c_str(), hexs(got).c_str(), S.m, S.e, d.m, d.e, hexs(B).c_str());
    // no more than the documented one, up to a factor of two
    const long double eps = std::ldexp(1.0L, 1 - T<R>::MANT);
    Ext a(xR(mx).m * n, xR(mx).e + (1 - fold) * T<R>::W), f((long double)n, T<R>::MINEXP - 2);
    Ext b = ext_add(ext_le(a, f) ? f : a, Ext(xR((R)std::fabs(got)).m * (7 * eps / (1 - 6 * std::sqrt(eps) - 7 * eps)), xR(got).e));
    b = ext_add(b.scale(1), Ext(1.0L, T<R>::MINEXP - T<R>::MANT));
    if (!ext_le(std::isinf(B) ? Ext(1.0L, T<R>::MAXEXP) : xR(B), b)) violate("bound/too-large", "%s fold %d, %ld terms of at most %s, sum %s: the library's bound %s is more than twice the documented %.4Lg*2^%d", kname[op], fold, n, hexs(mx).c_str(), hexs(got).c_str(), hexs(B).c_str(), b.m / 2, b.e);
    // more terms, larger terms and a larger sum never make it smaller
    R B2 = bbound(L, fold, (int)n + (int)ch.pick(3), mx, got), B3 = bbound(L, fold, (int)n, std::nextafter(mx * (1 + (int)ch.pick(2)), (R)INFINITY), got), B4 = bbound(L, fold, (int)n, mx, got * 2);
    if (!(B2 >= B && B3 >= B && B4 >= B)) violate("bound/not-monotonic", "%s fold %d, %ld terms of at most %s, sum %s: bound %s; with more terms %s, larger terms %s, larger sum %s", kname[op], fold, n, hexs(mx).c_str(), hexs(got).c_str(), hexs(B).c_str(), hexs(B2).c_str(), hexs(B3).c_str(), hexs(B4).c_str());
  }

  void go(const std::string& prof) {
    cls = "reduce";  // refined once the operation is drawn
    bool bign = false;
    static const Kind sums[] = {SUM, ASUM}, dots[] = {DOT, DOTU, DOTC}, all[] = {SUM, DOT, ASUM, SSQ, DOTU, DOTC};
    if (prof == "sum") op = sums[ch.pick(2)];
    else if (prof == "dot") op = dots[ch.pick(3)];
    else if (prof == "bound") { static const Kind b[] = {SUM, DOT, ASUM, DOTU, DOTC, SUM}; op = b[ch.pick(6)]; asks = true; }
    else if (prof == "nrm2" || prof == "nrm2deep") op = SSQ;
    else op = all[ch.pick(6)];
    specials = prof == "special";
    hetero = prof == "hetero" || prof == "migrate" || asks;
    int flevel = prof == "migrate" ? 3 : 1;
    cx = op == DOTU || op == DOTC ? true : op == DOT ? false : ch.pick(2);
    cls = std::string("reduce.") + kname[op] + (cx && op < DOTU ? "z" : "") ;
    acx = (op == SUM && cx) || op == DOTU || op == DOTC;
    int mf = T<R>::MAXFOLD;
    if (op == SSQ && prof != "nrm2deep") mf = ssq_maxfold();
    fold = pick_fold(ch, mf);
    uint32_t sz = ch.pick(24);
    bign = sz == 23;
    N = sz < 12 ? ch.range(0, 24) : sz < 20 ? ch.range(0, 140) : sz < 23 ? ch.range(100, 700) : ch.range(1500, sizeof(R) == 8 ? 6500 : 3000);
    // whole carries: equal powers of two in power-of-two portions, so that partial sums leave nothing behind in the primary words
    whole = (prof != "special" && ch.chance(1, 24));
    if (whole) { bign = true; N = (1 + (int)ch.pick(sizeof(R) == 8 ? 4 : 8)) * portion(ch); cnt("workload.whole_carries"); }
    C = bign ? 1 : 1 + ch.small(4);
    NP = 1 + ch.pick(bign ? 4 : 7);
    nnum = (acx ? 4 : 2) * fold;
    stride = nnum + (op == SSQ ? 1 : 0);
    X.resize(C);
    Y.resize(C);
    bool two = op == DOT || op == DOTU || op == DOTC;
    int special_rate = specials ? 1 + ch.pick(3) : 0;
    Gen<R> g;
    for (int c = 0; c < C; c++) {
      int e = cx ? 2 : 1;
      if (two) {
        // split the exponent range so no product overflows (unless specials are wanted)
        int hi = specials ? T<R>::MAXEXP : T<R>::MAXEXP / 2 - 1;
        int lo = -(T<R>::MAXEXP / 2 + (ch.pick(4) == 3 ? T<R>::MANT : 0));
        g.configure(ch, N * e, hi, lo);
      } else if (asks && ch.pick(2))   // near the bottom of the range
        g.configure(ch, N * e, T<R>::MINEXP + (int)ch.pick(2 * T<R>::W), T<R>::MINEXP - T<R>::MANT);
      else
        g.configure(ch, N * e, T<R>::MAXEXP, T<R>::MINEXP - T<R>::MANT);
      if (whole) { g.mask = RG_GRID; g.topsign = ch.pick(6) == 5 ? 2 : (int)ch.pick(2); if (op == SSQ) g.griddrop = ssq_drop(g.topbin); }
      if (whole && two) g.topbin = (T<R>::MAXEXP - g.emax + T<R>::W - 1) / T<R>::W + (int)ch.pick((g.emax - g.emin) / T<R>::W - 1);
      for (int i = 0; i < N * e; i++) X[c].push_back(g.next(ch));
      if (two) { g.hist.clear(); for (int i = 0; i < N * e; i++) Y[c].push_back(whole ? (R)(i % e == 0) : g.next(ch)); }
      if (specials && N) {
        int k = ch.range(0, special_rate * 2);
        for (int i = 0; i < k; i++) {
          static const int kinds[] = {0, 1, 0, 1, 2, 3};
          int w_ = kinds[ch.pick(6)];
          R v = w_ == 0 ? (R)INFINITY : w_ == 1 ? -(R)INFINITY : w_ == 2 ? (R)NAN : std::numeric_limits<R>::max();
          (two && ch.pick(2) ? Y : X)[c][ch.pick(N * e)] = v;
          cnt("input.special_value");
        }
      }
    }
    ev("%s %s%s fold %d N=%d C=%d ranks=%d regimes %x", kname[op], cx ? "complex " : "", sizeof(R) == 8 ? "double" : "float", fold, N, C, NP, g.mask);
    if (::R->trace && N <= 40)
      for (int c = 0; c < C; c++) {
        std::string l = "X[" + std::to_string(c) + "] =";
        for (R v : X[c]) l += " " + hexs(v);
        if (two) { l += "; Y ="; for (R v : Y[c]) l += " " + hexs(v); }
        note("%s", l.c_str());
      }
    // deployment
    rk.resize(NP);
    sentbytes.resize(NP);
    hist_m.resize(NP);
    int layout = ch.pick(3);
    std::vector<int> order(N);
    for (int i = 0; i < N; i++) order[i] = i;
    if (layout == 2) {
      if (N <= 200) for (int i = N - 1; i > 0; i--) std::swap(order[i], order[ch.pick(i + 1)]);
      else { uint64_t s = ch.bits(); for (int i = N - 1; i > 0; i--) std::swap(order[i], order[hash2(s, i) % (i + 1)]); }
    }
    if (layout == 1) for (int i = 0; i < N; i++) rk[i % NP].ids.push_back(order[i]);
    else {
      int at = 0;
      for (int p = 0; p < NP; p++) {
        int n = p == NP - 1 ? N - at : (int)ch.pick(std::max(1, 2 * N / NP + 1));
        if (whole && p < NP - 1 && ch.pick(4)) n = (1 + (int)ch.pick(3)) * portion(ch);
        n = std::min(n, N - at);
        for (int i = 0; i < n; i++) rk[p].ids.push_back(order[at++]);
      }
    }
    for (int p = 1; p < NP; p++) { rk[p].parent = ch.pick(p); rk[rk[p].parent].kids.insert(p); }
    crashes_left = ch.pick(flevel == 3 ? 5 : 3);
    crashes = crashes_left > 0 || flevel == 3;
    droprate = ch.pick(5);
    duprate = ch.pick(5);
    faults_left = ch.pick(12);
    for (int p = 0; p < NP; p++) {
      rk[p].slow = ch.chance(1, 6) ? 20 : 1;
      rk[p].proc.start(pick_lib());
      fresh(rk[p]);
      post(lat(), E_COMPUTE, p);
    }
    for (int i = 0; i < crashes_left; i++) { int v = ch.pick(NP); post(0.002 * (1 + ch.pick(400)), E_CRASH, v); q_fix_epoch(); }
    run_cluster();
    final_checks();
    ::R->nontrivial = N >= 2 && NP >= 2;
    if (hetero) { std::set<Lib*> s; for (auto& r : rk) s.insert(r.proc.lib); if (s.size() > 1) cnt("hetero.mixed_runs"); }
    ::R->tags.insert(std::string("op.") + kname[op] + (cx ? ".complex" : "") + (sizeof(R) == 8 ? ".double" : ".float"));
    ::R->tags.insert("fold." + std::to_string(fold));
    A.check("reduce");
  }
  void q_fix_epoch() {}
  static int ssq_maxfold();
};
// Beyond these folds the low bins of a scaled sum of squares lie below the smallest square that is exact.
template <> int Sim<double>::ssq_maxfold() { return 24; }
template <> int Sim<float>::ssq_maxfold() { return 8; }
}  // namespace

static void run_reduce(const std::string& prof) {
  Ch& ch = R->ch;
  A.reset(ch.bits(), ch.pick(5));
  if (ch.pick(2) == 0) { Sim<double> s(ch); s.go(prof); }
  else { Sim<float> s(ch); s.go(prof); }
}
static RegFamily reg("reduce", run_reduce);
