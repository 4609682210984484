// Drives pwned::OperationQueue inside a simulated process and reports what happens as events.
#include <pwned-lib/operationqueue.hpp>
#include <pwned-lib/operation.hpp>
#include <pwned-lib/operationexception.hpp>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>

extern "C" { void sim_user_event(const char *); void sim_point(void); }
static void ev(const char *f, int id) { char b[64]; snprintf(b, sizeof b, f, id); sim_user_event(b); }

class Op : public pwned::Operation {
public:
  int id, steps, kind;
  Op(int id, long long prio, int steps, int kind) : id(id), steps(steps), kind(kind) { priority = prio; }
  ~Op() override { ev("D %d", id); }
  void execute() noexcept(false) override {
    ev("S %d", id);
    for (int i = 0; i < steps; ++i) {
      ev("T %d", id);
      sim_point();
      if (isCancelled && kind != 3) break;
      if (isPaused) { isPaused = false; queue->operationWait(); }
    }
    ev("E %d", id);
    if (kind == 1) throw pwned::OperationException("simulated failure", 1);
    if (kind == 2) throw std::runtime_error("simulated failure");
  }
};

int main(int argc, const char *argv[]) {
  auto *q = new pwned::OperationQueue<Op>();
  std::string ctl = argv[1];
  std::thread th([q, ctl] {
    const char *p = ctl.c_str();
    while (*p) {
      int n = (int)strtol(p, (char **)&p, 10); char a = *p ? *p++ : 0;
      for (int i = 0; i < n; ++i) sim_point();
      switch (a) {
        case 'p': { ev("p %d", 0); bool was = q->isRunning(); q->pause(); ev("P %d", was && !q->isRunning()); break; }
        case 'r': ev("R %d", 0); q->resume(); break;
        case 's': { size_t s = q->size(); ev("Z %d", (int)s); break; }
        case 'c': ev("B %d", 0); q->cancel(); ev("C %d", q->isCancelled()); break;
      }
    }
    ev("R %d", 0); q->resume();
  });
  bool joined = false;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a[0] == 'o') { int id, steps, kind; long long prio; sscanf(a.c_str(), "o %d %lld %d %d", &id, &prio, &steps, &kind); q->add(new Op(id, prio, steps, kind)); ev("A %d", id); }
    else if (a == "x1") { ev("X %d", 1); q->execute(true); ev("L %d", 0); q->waitForFinished(); ev("W %d", q->isCancelled()); }
    else if (a == "x0") { ev("X %d", 0); q->execute(false); q->waitForFinished(); ev("W %d", q->isCancelled()); }
    else if (a == "y") { ev("X %d", 0); q->execute(false); }
    else if (a[0] == 'n') { for (int k = atoi(a.c_str() + 1); k > 0; --k) sim_point(); }
    else if (a == "v") { q->waitForFinished(); while (q->size() > 0 && !q->isCancelled()) { ev("U %d", 0); q->execute(false); q->waitForFinished(); } ev("W %d", q->isCancelled()); }
    else if (a == "j") { th.join(); joined = true; ev("J %d", q->isCancelled()); }
    else if (a == "reset") { q->reset(); ev("Q %d", q->isCancelled()); }
  }
  if (!joined) th.join();
  ev("F %d", (int)q->size());
  delete q;
  return 0;
}
