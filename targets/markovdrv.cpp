// Drives pwned::markov::Chain inside a simulated process: a history of loads and queries on one object.
#include <algorithm>
#include <numeric>
#include <fstream>
#include <string>
#include <cstdio>
#include <exception>
#include <pwned-lib/markovnode.hpp>
#include <pwned-lib/markovchain.hpp>
#include <boost/locale/encoding_utf.hpp>

extern "C" { void sim_user_event(const char *); void sim_fault_enable(int); }
typedef pwned::markov::Chain<wchar_t, double> chain_type;

// markovdrv OP...   L:FILE (load and dump) P:PASSWORD F0 F1
int main(int argc, const char *argv[]) {
  chain_type chain; char b[200];
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "F0") { sim_fault_enable(0); continue; }
    if (a == "F1") { sim_fault_enable(1); continue; }
    std::string v = a.substr(2);
    try {
      if (a[0] == 'P') { double p = chain.totalProbability(boost::locale::conv::utf_to_utf<wchar_t>(v)); snprintf(b, sizeof b, "P %.17g", p); sim_user_event(b); continue; }
      std::ifstream f(v, std::ios::binary);
      int rc = (int)chain.loadBinary(f);
      snprintf(b, sizeof b, "L %d %.60s", rc, chain.errString((chain_type::ErrCode)rc).c_str()); sim_user_event(b);
      if (rc != (int)chain_type::OK) continue;
      for (const auto &p : chain.firstSymbolProbs()) { snprintf(b, sizeof b, "F %ld %.17g", (long)p.first, (double)p.second); sim_user_event(b); }
      for (const auto &n : chain.nodes()) for (const auto &s : n.second.successors()) { snprintf(b, sizeof b, "S %ld %ld %.17g", (long)n.first, (long)s.first, (double)s.second); sim_user_event(b); }
    } catch (const std::exception &e) { snprintf(b, sizeof b, "X %.100s", e.what()); sim_user_event(b); }
  }
  sim_user_event("end");
  return 0;
}
