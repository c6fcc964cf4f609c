#define NO_DG
#include "common.hpp"
#include <unistd.h>
#include <sot/core/contiifstream.hh>
using dynamicgraph::sot::Contiifstream;
void run(Gen &G) {
  char dir[] = "./c31_XXXXXX";
  CHECK(mkdtemp(dir), "no scratch directory");
  std::string names[2] = {std::string(dir) + "/a.log", std::string(dir) + "/b.log"};
  struct Clean { std::string *n; char *d; ~Clean() { unlink(n[0].c_str()); unlink(n[1].c_str()); rmdir(d); } } cl{names, dir};
  while (G.more()) {
    std::string text[2];
    for (int f = 0; f < 2; ++f) { unlink(names[f].c_str()); if (f == 0 || G.b()) std::ofstream(names[f]); }
    bool exists[2] = {true, access(names[1].c_str(), F_OK) == 0};
    int cur = 0;
    Contiifstream in(names[0]);
    size_t pos = 0; bool first = true;
    std::vector<std::string> q;
    std::string h;
    for (int k = G.i(1, 16); k > 0; --k) {
      switch (G.u(7)) {
        case 0: case 1: case 2: {
          int f = G.p(0.8) ? cur : 1 - cur;
          std::string s;
          for (int l = G.i(0, 3); l > 0; --l) {
            int m = G.u(4) == 0 ? 0 : G.u(5) == 0 ? G.n(250, 520) : G.n(0, 20);
            for (int c = 0; c < m; ++c) s += (char)(G.u(12) ? G.i('a', 'z') : (G.b() ? ' ' : '\t'));
            s += '\n';
          }
          if (G.u(2)) { int m = G.u(4) ? G.i(1, 9) : G.n(250, 300); for (int c = 0; c < m; ++c) s += (char)G.i('A', 'Z'); }
          h += " append[" + std::to_string(f) + "] " + std::to_string(s.size()) + " bytes:" + s.substr(0, 60);
          std::ofstream(names[f], std::ios::app) << s; text[f] += s; exists[f] = true;
          break; }
        case 3: case 4: case 5: {
          h += " loop";
          bool any = false;
          while (exists[cur]) {
            size_t e = text[cur].find('\n', pos);
            if (e == std::string::npos) break;
            if (!first) q.push_back(text[cur].substr(pos, e - pos));
            pos = e + 1; any = true;
          }
          first = false;
          bool r = in.loop();
          CHECK(r == any, h << ": loop returned " << r);
          break; }
        default:
          if (G.u(3) == 0) { cur = (int)G.u(2); h += " open " + std::to_string(cur); in.open(names[cur]); pos = 0; }
          else while (in.ready() && G.u(5)) {
            CHECK(!q.empty(), h << ": a line too many is queued: '" << in.next() << "'");
            std::string l = in.next();
            CHECK(l == q[0], h << ": next returned '" << l << "' instead of '" << q[0] << "'");
            q.erase(q.begin());
          }
      }
      CHECK(in.ready() == !q.empty(), h << ": ready is " << in.ready() << " with " << q.size() << " lines expected");
    }
    while (!q.empty()) {
      CHECK(in.ready(), h << ": line '" << q[0] << "' is missing");
      std::string l = in.next();
      CHECK(l == q[0], h << ": next returned '" << l << "' instead of '" << q[0] << "'");
      q.erase(q.begin());
    }
    CHECK(!in.ready(), h << ": a line too many is queued");
    G.count(h);
  }
}
