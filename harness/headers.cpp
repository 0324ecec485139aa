// Monitor of a program made of many source files that include the headers in different ways (list.h is generated):
// what a header offers has to give the same results in all of them.
#include "report.h"
#include <cstdlib>
#include <map>
#include <set>

struct Use { const char* header; const char* includes; int file; uint64_t (*use)(uint64_t, const char*); };
#include "list.h"

int main(int argc, char** argv) {
  uint64_t seed = 1, chunks = 1; std::string dir = ".", cfg, replay;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i], k = a.substr(0, a.find('=')), v = a.substr(a.find('=') + 1);
    if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--chunks") chunks = strtoull(v.c_str(), 0, 10);
    else if (k == "--dir") dir = v;
    else if (k == "--cfg") cfg = v;
    else if (k == "--replay") replay = v;
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  const size_t n = sizeof uses / sizeof uses[0];
  std::set<std::string> seen; uint64_t compared = 0;
  for (uint64_t c = 0; c < chunks; ++c) {
    std::map<std::string, std::pair<uint64_t, size_t> > first;
    for (size_t j = 0; j < n; ++j) {
      const Use& u = uses[(j + c * 7) % n];
      uint64_t h = u.use(seed * 1000 + c, dir.c_str());
      if (!first.count(u.header)) { first[u.header] = std::make_pair(h, (j + c * 7) % n); continue; }
      ++compared;
      seen.insert(std::string(u.header) + " in " + u.includes);
      const Use& v = uses[first[u.header].second];
      if (h != first[u.header].first)
        rep_viol(std::string("results of ") + u.header, FMT("what %s offers gives other results in a source file that includes %s than in one that includes %s [%s]", u.header, u.includes, v.includes, cfg.c_str()), FMT("%d,%d", u.file, v.file));
      if (c == 0 && compared <= 4) rep_sample(FMT("%s: %016llx in a file with %s and in one with %s [%s]", u.header, (unsigned long long)h, u.includes, v.includes, cfg.c_str()));
    }
  }
  rep_count("results compared between source files", compared);
  rep_cell("(header, source file) pairs compared [" + cfg + "]", seen.size());
  rep_done();
  return 0;
}
