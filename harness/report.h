// Line protocol between the monitors and the driver. One JSON object per line on stdout:
//   {"k":"count","name":..., "n":...}        measured counters (summed by the driver)
//   {"k":"cell","name":..., "n":...}         distinct counts (summed by the driver)
//   {"k":"max","name":..., "v":..., "at":..} measured extremes
//   {"k":"sample","text":...}
//   {"k":"viol","key":..., "text":..., "replay":...}
//   {"k":"done"}                             the monitor ran to its end
#ifndef VMON_REPORT_H
#define VMON_REPORT_H
#include <cstdio>
#include <stdint.h>
#include <string>
#include <mutex>

static std::mutex& out_mutex() { static std::mutex m; return m; }
static std::string esc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static inline void emit(const std::string& s) {
  std::lock_guard<std::mutex> l(out_mutex());
  fputs(s.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
}
static inline void rep_count(const std::string& n, uint64_t v) { emit("{\"k\":\"count\",\"name\":\"" + esc(n) + "\",\"n\":" + std::to_string(v) + "}"); }
static inline void rep_cell(const std::string& n, uint64_t v) { emit("{\"k\":\"cell\",\"name\":\"" + esc(n) + "\",\"n\":" + std::to_string(v) + "}"); }
static inline void rep_max(const std::string& n, double v, const std::string& at) {
  char b[64]; snprintf(b, 64, "%.6g", v);
  emit("{\"k\":\"max\",\"name\":\"" + esc(n) + "\",\"v\":" + b + ",\"at\":\"" + esc(at) + "\"}");
}
static inline void rep_sample(const std::string& t) { emit("{\"k\":\"sample\",\"text\":\"" + esc(t) + "\"}"); }
static inline void rep_viol(const std::string& key, const std::string& text, const std::string& replay) {
  emit("{\"k\":\"viol\",\"key\":\"" + esc(key) + "\",\"text\":\"" + esc(text) + "\",\"replay\":\"" + esc(replay) + "\"}");
}
static inline void rep_done() { emit("{\"k\":\"done\"}"); }

#define FMT(...) ([&]() { char b_[512]; snprintf(b_, sizeof b_, __VA_ARGS__); return std::string(b_); }())
#endif
