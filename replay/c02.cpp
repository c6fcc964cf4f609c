#include "common.hpp"
#include <map>
#include <sys/time.h>
#include <ctime>
#include <sot/core/stop-watch.hh>
static long g_us = 1000000, g_clk = 100;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = g_us / 1000000; tv->tv_usec = g_us % 1000000; return 0; }
extern "C" clock_t clock(void) throw() { return g_clk; }
struct R { double start = 0; std::vector<double> v; double part = 0, total = 0, last = 0; };
template <class F> static bool throws(F f) { try { f(); } catch (const StopwatchException &) { return true; } return false; }
void run(Gen &G) {
  std::ostringstream nul; std::streambuf *save = std::cout.rdbuf();
  struct Back { std::streambuf *s; ~Back() { std::cout.rdbuf(s); } } back{save};
  while (G.more()) {
    g_us = 1000000 + G.u(3000000); g_clk = 1 + G.u(1000000);
    int mode = (int)G.u(3);
    StopwatchMode md[3] = {CPU_TIME, REAL_TIME, NONE};
    Stopwatch w(md[mode]);
    std::map<std::string, R> m; bool on = true;
    std::string h = mode == 0 ? "cpu" : mode == 1 ? "real" : "none";
    std::vector<std::string> names = {"a", "b", "", G.str(5)};
    auto now = [&] { return mode == 0 ? g_clk : g_us; };
    auto sec = [&](double d) { return d / 1e6; };
    for (int k = G.i(1, 25); k > 0; --k) {
      long dt = G.p(0.25) ? 0 : G.u(2) ? G.u(10) : G.u(3000000);
      g_us += dt; g_clk += G.p(0.5) ? dt : (long)G.u(100000);
      std::string n = names[G.u(names.size())];
      bool ex = m.count(n);
      h += "; +" + std::to_string(dt) + "us ";
      switch (G.u(12)) {
        case 0: case 1: case 2:
          h += "start " + n;
          if (on && mode == 2) { CHECK(throws([&] { w.start(n); }), h << ": no exception without a clock"); m[n]; break; }
          w.start(n); if (on) m[n].start = now();
          break;
        case 3: case 4: case 5: {
          h += "stop " + n;
          bool t = throws([&] { w.stop(n); });
          CHECK(t == (on && (!ex || mode == 2)), h << (t ? ": unexpected exception" : ": no exception"));
          if (on && !t && m[n].start) { R &r = m[n]; double l = sec(now() - r.start); r.v.push_back(l); r.total += l; r.last = l; }
          break; }
        case 6: {
          h += "pause " + n;
          bool t = throws([&] { w.pause(n); });
          CHECK(t == (on && (!ex || mode == 2)), h << (t ? ": unexpected exception" : ": no exception"));
          if (on && !t && m[n].start) { R &r = m[n]; double l = sec(now() - r.start); r.total += l; r.last += l; }
          break; }
        case 7: {
          h += "reset " + n;
          bool t = throws([&] { w.reset(n); });
          CHECK(t == (on && !ex), h << (t ? ": unexpected exception" : ": no exception"));
          if (on && ex) m[n] = R();
          break; }
        case 8: h += "reset_all"; w.reset_all(); if (on) for (auto &x : m) x.second = R(); break;
        case 9: std::cout.rdbuf(nul.rdbuf()); if (G.b()) { w.turn_off(); on = false; h += "off"; } else { w.turn_on(); on = true; h += "on"; } std::cout.rdbuf(save); nul.str(""); break;
        case 10: { // reports do not change anything
          std::ostringstream os; w.report_all(2, os);
          if (!on) CHECK(os.str().empty(), h << ": report while disabled");
          break; }
        default: {
          h += "so far " + n;
          double v = 0; bool t = throws([&] { v = w.get_time_so_far(n); });
          CHECK(t == (!ex || mode == 2), h << (t ? ": unexpected exception" : ": no exception"));
          if (!t && m[n].start) CHECK(near(v, sec(now() - m[n].start), 1e-7), h << ": time so far " << v << " expected " << sec(now() - m[n].start));
        }
      }
      for (auto &n : names) {
        bool e = m.count(n);
        CHECK(w.performance_exists(n) == e, h << ": existence of '" << n << "'");
        if (!e) {
          CHECK(throws([&] { w.get_total_time(n); }) && throws([&] { w.get_min_time(n); }) && throws([&] { w.get_max_time(n); }) &&
                throws([&] { w.get_last_time(n); }) && throws([&] { w.get_average_time(n); }), h << ": statistics of unknown '" << n << "'");
          continue;
        }
        R &r = m[n];
        double mn = 0, mx = 0;
        for (size_t i = 0; i < r.v.size(); ++i) { if (i == 0 || r.v[i] < mn) mn = r.v[i]; if (i == 0 || r.v[i] > mx) mx = r.v[i]; }
        auto ck = [&](const char *what, double got, double want) { CHECK(near(got, want, 1e-7), h << ": " << what << " of '" << n << "' is " << got << " expected " << want); };
        ck("total", w.get_total_time(n), r.total); ck("min", w.get_min_time(n), mn); ck("max", w.get_max_time(n), mx); ck("last", w.get_last_time(n), r.last);
        if (r.v.size()) ck("average", w.get_average_time(n), r.total / r.v.size());
      }
    }
    G.count(h);
  }
}
