// pwned::OperationQueue driven directly: C06
#include "ref.hpp"
#include <algorithm>
using namespace sim;

struct Queue : Harness {
  std::vector<std::string> tools(const std::string &) override { return {"queuedrv"}; }
  void gen(Rng &r, Scn &s) override {
    int rounds = (int)r.range(1, 3); bool cancel = r.chance(40); if (cancel) rounds = 1;
    s.num["rounds"] = rounds; s.num["cancel"] = cancel; s.num["wait"] = (int64_t)r.below(2); bool adding = s.num["adding"] = r.chance(35); s.num["reset"] = cancel && r.chance(50); // adding: operations are added while others are running
    std::vector<std::string> ops; int id = 0; bool wide = r.chance(30);
    auto prio = [&]() -> long { return wide ? (long)r.pick(std::vector<uint64_t>{0, 1, 1u << 31, 1ull << 32, (1ull << 32) + 1, 3000000000ull, 9000000000ull, 1ull << 40, 1ull << 62}) + (long)r.range(-1, 1) : (long)r.range(-3, 12); };
    for (int k = 0; k < rounds + (int)s.n("reset"); ++k) { int n = (int)r.range(0, r.chance(50) ? 4 : r.chance(90) ? 9 : 40); for (int i = 0; i < n; ++i) { std::string o = strf("%d o %d %ld %d %d", k, id++, prio(), (int)r.below(r.chance(80) ? 6 : 40), r.chance(75) ? 0 : (int)r.range(1, 3)); if (adding && k < rounds && r.chance(40)) o += strf(" +%d", (int)r.below(1 << r.below(8))); ops.push_back(o); } }
    s.list["ops"] = ops;
    std::vector<std::string> ctl; int n = r.chance(50) ? 0 : (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) { int d = (int)r.below(1 << r.below(7)); ctl.push_back(strf("%d%s", d, r.chance(15) ? "s" : r.chance(55) ? "p" : "r")); }
    if (cancel) ctl.push_back(strf("%dc", (int)r.below(1 << r.below(8))));
    s.list["ctl"] = ctl;
    Cfg c; randomSchedule(r, c, true); c.extraExitSteps = 0; c.tty = false; s.procs.push_back(c);
  }
  void run(Scn &s, Ctx &c) override {
    std::string ctl; for (auto &a : s.l("ctl")) ctl += a;
    std::vector<std::string> a{ctl}; std::map<int, long> prio; std::map<int, int> kind, roundOf; std::set<int> during; // during: added while others are running
    bool hasCancel = ctl.find('c') != std::string::npos; int rounds = (int)s.n("rounds"), total = rounds + (int)(s.n("reset") && hasCancel);
    for (int k = 0; k < total; ++k) {
      std::vector<std::string> after; if (k == rounds) { a.push_back("j"); a.push_back("reset"); }
      for (auto &o : s.l("ops")) { int rd, id, st, kd; long p; sscanf(o.c_str(), "%d o %d %ld %d %d", &rd, &id, &p, &st, &kd); if (rd != k) continue; prio[id] = p; kind[id] = kd; roundOf[id] = k; size_t pl = o.find('+'); if (pl != std::string::npos) { after.push_back(o); during.insert(id); continue; } a.push_back(o.substr(o.find('o'))); }
      if (after.empty()) { a.push_back(s.n("wait") ? "x1" : "x0"); continue; }
      a.push_back("y"); for (auto &o : after) { size_t pl = o.find('+'); a.push_back("n" + o.substr(pl + 1)); a.push_back(o.substr(o.find('o'), pl - 1 - o.find('o'))); } a.push_back("v"); c.probe("added_while_running");
    }
    ProcRes &r = c.exec(s, "queuedrv", a);
    if (r.crashed() || r.outcome == O_ABORT) return c.violation("crash", "the queue crashed: " + r.describe());
    if (r.stuck()) return c.violation("hang", "waiting for the queue never ends: " + r.describe());
    if (!r.success()) return c.violation("failed", r.describe());
    std::map<int, int> S, E, D; int running = 0, cpus = s.procs[0].cpus, round = -1; bool cancelled = false, paused = false, wasCancelled = false; std::map<int, int> T; int sPaused = 0; bool pausing = false; size_t started = 0, ended = 0; std::map<int, int> slack, before, order; int added = 0; std::set<int> late; // added after cancellation
    for (auto &u : r.user) {
      char k = u[0]; int id = atoi(u.c_str() + 2);
      switch (k) {
        case 'X': ++round; paused = pausing = false; break;
        case 'A': if (wasCancelled) late.insert(id); order[id] = ++added; slack[id] = during.count(id) ? (int)ended + cpus - (int)started : 0; break;
        case 'U': paused = pausing = false; break;
        case 'p': pausing = true; break;
        case 'S': {
          S[id]++; ++running; ++started;
          if (S[id] > 1) return c.violation("twice", strf("operation %d was executed twice", id));
          if (D[id]) return c.violation("use-after-destroy", strf("operation %d was executed after it had been destroyed", id));
          if (running > cpus) return c.violation("too-many", strf("%d operations run at the same time on %d processors", running, cpus));
          if (cancelled) return c.violation("started-after-cancel", strf("operation %d was started after cancel() had returned", id));
          // Operations of higher priority may wait because they have been chosen but not begun yet, but only cpus - 1 of them can while this one has been chosen too.
          // If more wait, this one was chosen before the last of them was added; so many can have been chosen and not begun by then.
          std::vector<std::pair<int, int>> waiting; for (auto &o : order) if (roundOf[o.first] == round && prio[o.first] > prio[id] && !S[o.first]) waiting.push_back({o.second, o.first});
          if (!wasCancelled && (int)waiting.size() >= cpus) { std::sort(waiting.begin(), waiting.end()); int h = waiting[cpus - 1].second; if (++before[h] > slack[h]) return c.violation("order", strf("operation %d (priority %ld) was started while %d operations of higher priority (operation %d: %ld) had long been waiting, with %d processors", id, prio[id], (int)waiting.size(), h, prio[h], cpus)); }
          if (paused && ++sPaused > cpus) return c.violation("started-while-paused", strf("%d operations were started while the queue was paused", sPaused));
          break;
        }
        case 'E': E[id]++; ++ended; --running; if (E[id] > S[id]) return c.violation("end", "ended more often than started"); break;
        case 'D': if (++D[id] > 1) return c.violation("destroyed-twice", strf("operation %d was destroyed twice", id)); if (S[id] != E[id]) return c.violation("destroyed-running", strf("operation %d was destroyed while running", id)); break;
        case 'T': if (paused && ++T[id] > 1) return c.violation("runs-while-paused", strf("operation %d went on working while the queue was paused", id)); break;
        case 'P': if (!wasCancelled && pausing && id) { paused = true; T.clear(); sPaused = 0; } break;
        case 'R': paused = false; break;
        case 'B': wasCancelled = true; paused = false; break;
        case 'C': cancelled = true; if (id != 1) return c.violation("not-marked", "cancel() returned but the queue is not marked as cancelled"); if (running) return c.violation("cancel-running", strf("%d operations were still running when cancel() returned", running)); break;
        case 'W':
          if (running) return c.violation("wait-early", strf("the wait returned while %d operations were running", running));
          paused = pausing = false; // the next round begins unpaused
          if (!wasCancelled) for (auto &p : roundOf) if (p.second == round) { if (!E[p.first]) return c.violation("not-run", strf("the wait returned but operation %d was never executed", p.first)); if (!D[p.first]) return c.violation("not-destroyed", strf("the wait returned but operation %d still exists", p.first)); }
          if (cancelled && id != 1) return c.violation("forgot-cancel", "the queue was cancelled, but after the wait it is not marked as cancelled any more");
          break;
        case 'J': break;
        case 'Q': cancelled = wasCancelled = false; paused = false; if (id) return c.violation("reset", "still marked as cancelled after reset()"); break;
        case 'F': if (id && !wasCancelled) return c.violation("left-over", strf("%d operations left in the queue", id)); break;
      }
    }
    for (auto &p : roundOf) { if (!D[p.first] && !late.count(p.first)) return c.violation("not-destroyed", strf("operation %d was never destroyed", p.first)); if (S[p.first] != E[p.first]) return c.violation("not-ended", strf("operation %d never ended", p.first)); }
    if (hasCancel) c.probe("cancelled"); if (total > 1) c.probe("refilled");
  }
};
static HarnessReg reg("queue", []() -> Harness * { return new Queue; });
