// Drives pwned::PasswordInspector inside a simulated process: a history of lookups on one open object.
#include <pwned-lib/passwordinspector.hpp>
#include <exception>
#include <string>
#include <cstdint>
#include <cstdio>
#include <cstring>

extern "C" { void sim_user_event(const char *); void sim_fault_enable(int); void sim_point(void); void sim_read_cost(uint64_t *, uint64_t *); }

// inspdrv INPUT INDEX|- OP...   b:HASH s:HASH l:PASSWORD F0 F1 (storage faults off/on) C (what has been read so far)
int main(int argc, const char *argv[]) {
  std::string index = argv[2];
  pwned::PasswordInspector *p = nullptr;
  try {
    p = index == "-" ? new pwned::PasswordInspector(std::string(argv[1])) : new pwned::PasswordInspector(std::string(argv[1]), index);
  } catch (const std::exception &e) { sim_user_event("X"); return 0; }
  { char b[64]; snprintf(b, sizeof b, "O %d %zu", p->isOpen(), p->size()); sim_user_event(b); }
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "F0") { sim_fault_enable(0); sim_user_event("F0"); continue; }
    if (a == "F1") { sim_fault_enable(1); sim_user_event("F1"); continue; }
    if (a == "C") { uint64_t x, y; sim_read_cost(&x, &y); char b[64]; snprintf(b, sizeof b, "C %lu %lu", (unsigned long)x, (unsigned long)y); sim_user_event(b); continue; }
    std::string v = a.substr(2); char b[160]; int reads = -1;
    try {
      pwned::PasswordHashAndCount r;
      if (a[0] == 'l') r = p->lookup(v);
      else { pwned::Hash h = pwned::Hash::fromHex(v); r = a[0] == 'b' ? p->binsearch(h, &reads) : p->smart_binsearch(h, &reads); }
      snprintf(b, sizeof b, "R %u %016lx%016lx %d", r.count, (unsigned long)r.hash.quad.upper, (unsigned long)r.hash.quad.lower, reads);
    } catch (const std::exception &e) { snprintf(b, sizeof b, "E %.100s", e.what()); }
    sim_user_event(b);
  }
  delete p;
  return 0;
}
