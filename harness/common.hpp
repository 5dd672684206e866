// Case runner shared by all harnesses: deterministic per-case random streams,
// violation reports, observation counters.
#pragma once

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

// New memory comes filled with a byte, another one from case to case, so that
// results which depend on what memory held show.
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define VF_OWN_MALLOC 0
#endif
#endif
#if !defined(VF_OWN_MALLOC) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VF_VALGRIND)
#define VF_OWN_MALLOC 1
#else
#undef VF_OWN_MALLOC
#define VF_OWN_MALLOC 0
#endif
namespace vf {
inline int memory_fill = 0;
}
#if VF_OWN_MALLOC
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (vf::memory_fill && p) std::memset(p, vf::memory_fill, n);
  return p;
}
#endif

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s{mix(seed)} {}
  uint64_t next() { return s = s + 0x9e3779b97f4a7c15ULL, mix(s); }
  /// Integer in [a, b].
  int in(int a, int b) { return a + static_cast<int>(next() % uint64_t(b - a + 1)); }
  bool chance(double p) { return unit() < p; }
  double unit() { return (next() >> 11) * 0x1.0p-53; }
  double real(double a, double b) { return a + (b - a) * unit(); }
  double normal() {
    double u = 1.0 - unit(), v = unit();
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[next() % v.size()];
  }
};

inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20) {
      o += fmt("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o;
}

struct Runner {
  std::string prop;
  bool thorough = false;
  uint64_t seed = 1;
  int shard = 0, shards = 1;
  double mult = 1.0;
  std::string only_case;  // "kind:index", for replays
  bool verbose = false;
  FILE* out = nullptr;
  char* cur = nullptr;  // mmap: the case being run, for crash reports

  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, double> counters;  // summed over shards
  std::map<std::string, double> maxima;    // maximum over shards
  std::map<std::string, int> sample_count;
  int violations = 0;

  std::string cur_kind;
  long cur_index = 0;

  void init(int argc, char** argv) {
    if (argc < 7) {
      fprintf(stderr, "usage: harness PROP TIER SEED SHARD SHARDS OUTDIR [CASE]\n");
      exit(2);
    }
    prop = argv[1];
    thorough = std::string(argv[2]) == "thorough";
    seed = strtoull(argv[3], nullptr, 10);
    shard = atoi(argv[4]);
    shards = atoi(argv[5]);
    std::string dir = argv[6];
    if (argc > 7) {
      only_case = argv[7];
    }
    if (const char* m = getenv("VERIF_MULT")) {
      mult = atof(m);
    }
    verbose = getenv("VERIF_VERBOSE") != nullptr;
    out = fopen(fmt("%s/out.%d", dir.c_str(), shard).c_str(), "w");
    int fd = open(fmt("%s/cur.%d", dir.c_str(), shard).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (!out || fd < 0 || ftruncate(fd, 4096) != 0) {
      perror("harness output");
      exit(2);
    }
    cur = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }

  void note(const std::string& what) {  // extra context for crash reports
    size_t n = strlen(cur);
    snprintf(cur + n, 4096 - n, " %s", what.c_str());
  }

  /// Reports a violation. `key` names the kind of violation; a known finding is
  /// matched on "kind key".
  void fail(const std::string& key, const std::string& msg) {
    ++violations;
    fprintf(out, "{\"t\":\"viol\",\"key\":\"%s\",\"case\":\"%s:%ld\",\"msg\":\"%s\"}\n",
            json_escape(key).c_str(), cur_kind.c_str(), cur_index, json_escape(msg).c_str());
    fflush(out);
    if (verbose) {
      fprintf(stderr, "VIOL %s [%s:%ld] %s\n", key.c_str(), cur_kind.c_str(), cur_index, msg.c_str());
    }
    if (violations > 200) {
      finish();
      exit(0);
    }
  }

  void sample(const std::string& s) {
    if (sample_count[cur_kind]++ < 2 && shard == 0) {
      fprintf(out, "{\"t\":\"sample\",\"kind\":\"%s\",\"text\":\"%s\"}\n", cur_kind.c_str(),
              json_escape(s.substr(0, 600)).c_str());
    }
  }

  void count(const std::string& name, double n = 1) { counters[name] += n; }
  void maximum(const std::string& name, double v) {
    auto [it, ins] = maxima.try_emplace(name, v);
    if (!ins && v > it->second) {
      it->second = v;
    }
  }
  /// Records that the running case was non-trivial, with its identity.
  void nontrivial(uint64_t h) {
    if (distinct.size() < 200000) distinct.insert(h);  // a lower bound when full
  }

  /// Runs n cases of a kind (n is for the quick tier; thorough runs 12x).
  void cases(const std::string& kind, long n, const std::function<void(Rng&)>& f,
             double thorough_factor = 12) {
    n = static_cast<long>(n * mult * (thorough ? thorough_factor : 1));
    cur_kind = kind;
    long only = -1;
    if (!only_case.empty()) {
      auto p = only_case.rfind(':');
      if (only_case.substr(0, p) != kind) {
        return;
      }
      only = atol(only_case.c_str() + p + 1);
    }
    for (long i = 0; i < n || only >= 0; ++i) {
      if (only >= 0) {
        i = only;
      } else if (i % shards != shard) {
        continue;
      }
      cur_index = i;
      snprintf(cur, 4096, "%s:%ld", kind.c_str(), i);
      Rng rng{hash_str(prop + "/" + kind, mix(seed)) ^ mix(uint64_t(i))};
      ++evaluations;
      count("cases " + kind);
      static const int fills[] = {0xff, 0x55, 0xc0, 0x7f, 0x3f, 1};
      memory_fill = fills[mix(i ^ seed) % 6];
      try {
        f(rng);
      } catch (const std::exception& e) {
        fail("exception", std::string("unexpected exception: ") + e.what());
      }
      memory_fill = 0;
      if (only >= 0) {
        break;
      }
    }
    snprintf(cur, 4096, "after %s", kind.c_str());
  }

  void finish() {
    fprintf(out, "{\"t\":\"sum\",\"evaluations\":%llu,\"counters\":{",
            static_cast<unsigned long long>(evaluations));
    bool first = true;
    for (auto& [k, v] : counters) {
      fprintf(out, "%s\"%s\":%.17g", first ? "" : ",", json_escape(k).c_str(), v);
      first = false;
    }
    fprintf(out, "},\"maxima\":{");
    first = true;
    for (auto& [k, v] : maxima) {
      fprintf(out, "%s\"%s\":%.6g", first ? "" : ",", json_escape(k).c_str(),
              std::isfinite(v) ? v : 1e308);
      first = false;
    }
    fprintf(out, "},\"distinct\":[");
    first = true;
    for (auto h : distinct) {
      fprintf(out, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(h));
      first = false;
    }
    fprintf(out, "]}\n");
    fclose(out);
    out = nullptr;
  }
};

inline Runner R;

#define VF_CHECK(cond, key, ...)         \
  do {                                   \
    if (!(cond)) {                       \
      vf::R.fail(key, vf::fmt(__VA_ARGS__)); \
      return;                            \
    }                                    \
  } while (0)

inline bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  if (std::isinf(a) || std::isinf(b)) {
    return a == b;
  }
  return std::fabs(a - b) <= tol;
}

}  // namespace vf

#include "hooks.hpp"
