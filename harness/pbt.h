// A small property-based testing kernel: every case is a function of a tape
// of 64 bit choices, failures are shrunk on the tape, and the shrunk tape is
// the replay.  The smallest choice (0) always denotes the simplest value.
#pragma once

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

namespace pbt
{
  struct Discard {
  };
  struct Known {
    std::string id;
  };
  struct Fail {
    std::string msg;
  };

  inline uint64_t mix(uint64_t z)
  {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }

  inline uint64_t hash_str(const std::string &s)
  {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
      h = (h ^ c) * 1099511628211ull;
    return h;
  }

  inline std::string num(double x)
  {
    char b[40];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
  }

  class Src
  {
  public:
    std::vector<uint64_t> tape;
    std::size_t pos = 0;
    bool replaying = false;
    uint64_t state = 0;
    bool is_nontrivial = false;
    std::vector<std::string> labels;
    std::vector<std::pair<std::string, std::string>> notes;
    std::map<std::string, uint64_t> counts;

    uint64_t bits()
    {
      if (pos < tape.size())
        return tape[pos++];
      uint64_t v = 0;
      if (!replaying) {
        state += 0x9e3779b97f4a7c15ull;
        v = mix(state);
      }
      tape.push_back(v);
      ++pos;
      return v;
    }

    /* integer in [a, b] */
    long range(long a, long b)
    {
      if (b <= a)
        return a;
      const uint64_t n = uint64_t(b - a) + 1;
      return a + long(bits() % n);
    }

    bool chance(double p)
    {
      /* 0 on the tape means "no" */
      return unit() > 1. - p;
    }

    /* [0,1) */
    double unit() { return double(bits() >> 11) * 0x1.0p-53; }

    double uniform(double a, double b) { return a + (b - a) * unit(); }

    /* log-uniform in [a,b], both positive */
    double logu(double a, double b)
    {
      return a * std::exp(unit() * std::log(b / a));
    }

    double sym(double a) { return chance(0.5) ? -a * unit() : a * unit(); }

    template <typename T>
    T pick(std::initializer_list<T> l)
    {
      return *(l.begin() + range(0, long(l.size()) - 1));
    }

    template <typename T>
    T pick(const std::vector<T> &l)
    {
      return l[range(0, long(l.size()) - 1)];
    }

    void label(const std::string &s) { labels.push_back(s); }
    bool label_is(const std::string &s) const
    {
      return std::find(labels.begin(), labels.end(), s) != labels.end();
    }
    void note(const std::string &k, const std::string &v)
    {
      notes.emplace_back(k, v);
    }
    void note(const std::string &k, const char *v)
    {
      notes.emplace_back(k, std::string(v));
    }
    void note(const std::string &k, double v) { note(k, num(v)); }
    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    void count(const std::string &k, uint64_t n = 1) { counts[k] += n; }
  };

  using Fn = std::function<void(Src &)>;

  struct Facet {
    std::string name;
    long quick;
    long thorough;
    double case_limit;
    Fn fn;
  };

  inline std::vector<Facet> &facets()
  {
    static std::vector<Facet> f;
    return f;
  }

  struct Register {
    Register(const std::string &name, long quick, long thorough, Fn fn,
             double case_limit = 30.)
    {
      facets().push_back({name, quick, thorough, case_limit, fn});
    }
  };

  template <typename... A>
  [[noreturn]] inline void fail(A &&...a)
  {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Fail{o.str()};
  }

  template <typename... A>
  inline void require(bool ok, A &&...a)
  {
    if (!ok)
      fail(std::forward<A>(a)...);
  }

  /* |a - b| <= tol, false for nan */
  template <typename... A>
  inline void close(double a, double b, double tol, A &&...w)
  {
    if (!(std::abs(a - b) <= tol))
      fail(std::forward<A>(w)..., ": ", a, " vs ", b, " (difference ",
           std::abs(a - b), ", tolerance ", tol, ")");
  }

  inline void discard_unless(bool ok)
  {
    if (!ok)
      throw Discard{};
  }

  enum class Out { ok, discard, known, fail };

  inline Out run_one(const Facet &f, Src &s, std::string &msg)
  {
    try {
      f.fn(s);
      return Out::ok;
    } catch (const Discard &) {
      return Out::discard;
    } catch (const Known &k) {
      msg = k.id;
      return Out::known;
    } catch (const Fail &e) {
      msg = e.msg;
      return Out::fail;
    } catch (const std::exception &e) {
      msg = std::string("unexpected exception: ") + e.what();
      return Out::fail;
    }
  }

  inline std::string esc(const std::string &s)
  {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += char(c);
      } else if (c == '\n')
        o += "\\n";
      else if (c < 32)
        o += ' ';
      else
        o += char(c);
    }
    return o;
  }

  inline double now()
  {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
  }

  inline bool fails_with(const Facet &f, const std::vector<uint64_t> &tape,
                         std::string &msg, std::vector<uint64_t> *used)
  {
    Src s;
    s.tape = tape;
    s.replaying = true;
    alarm(unsigned(f.case_limit) + 1);
    const Out o = run_one(f, s, msg);
    alarm(0);
    if (used) {
      *used = s.tape;
      used->resize(std::min(used->size(), s.pos));
    }
    return o == Out::fail;
  }

  inline std::vector<uint64_t> shrink(const Facet &f, std::vector<uint64_t> t,
                                      std::string &msg, double budget)
  {
    const double end = now() + budget;
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      auto attempt = [&](const std::vector<uint64_t> &c) {
        if (c == t || now() > end)
          return false;
        std::string m;
        std::vector<uint64_t> used;
        if (fails_with(f, c, m, &used)) {
          /* prefer shorter, then smaller */
          if (used.size() < t.size() || (used.size() == t.size() && used < t) ||
              c < t) {
            t = used;
            msg = m;
            progress = true;
            return true;
          }
        }
        return false;
      };
      for (std::size_t len = std::max<std::size_t>(1, t.size() / 2); len >= 1;
           len /= 2) {
        for (std::size_t i = 0; i + len <= t.size() && now() < end;) {
          auto c = t;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (!attempt(c)) {
            c = t;
            std::fill(c.begin() + i, c.begin() + i + len, 0);
            if (!attempt(c))
              i += len;
            else
              i += len;
          }
        }
      }
      for (std::size_t i = 0; i < t.size() && now() < end; ++i) {
        for (int k : {1, 4, 16, 32}) {
          if (i >= t.size())
            break;
          auto c = t;
          c[i] = (c[i] >> (11 + k)) << 11;
          attempt(c);
        }
        if (i < t.size() && t[i] < 4096 && t[i] > 0) {
          auto c = t;
          c[i] -= 1;
          attempt(c);
        }
      }
    }
    return t;
  }

  struct Options {
    std::string facet, out, replay, progress;
    uint64_t seed = 1;
    long first = 0, cases = -1;
    double time = 1e9, shrink_time = 20.;
    bool list = false, thorough = false;
  };

  inline void write_replay(const std::string &path, const Facet &f,
                           const std::vector<uint64_t> &t)
  {
    std::ofstream o(path);
    o << "facet " << f.name << "\ntape";
    for (auto x : t)
      o << ' ' << x;
    o << "\n";
  }

  inline int main_loop(int argc, char **argv)
  {
    Options o;
    for (int i = 1; i < argc; ++i) {
      const std::string a = argv[i];
      auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--list")
        o.list = true;
      else if (a == "--facet")
        o.facet = val();
      else if (a == "--seed")
        o.seed = std::stoull(val());
      else if (a == "--first")
        o.first = std::stol(val());
      else if (a == "--cases")
        o.cases = std::stol(val());
      else if (a == "--time")
        o.time = std::stod(val());
      else if (a == "--shrink-time")
        o.shrink_time = std::stod(val());
      else if (a == "--out")
        o.out = val();
      else if (a == "--replay")
        o.replay = val();
      else if (a == "--progress")
        o.progress = val();
      else if (a == "--thorough")
        o.thorough = true;
      else {
        std::cerr << "unknown option " << a << "\n";
        return 2;
      }
    }
    if (o.list) {
      for (auto &f : facets())
        std::cout << f.name << " " << f.quick << " " << f.thorough << " "
                  << f.case_limit << "\n";
      return 0;
    }

    if (!o.replay.empty()) {
      std::ifstream in(o.replay);
      std::string w, name;
      std::vector<uint64_t> tape;
      std::string line;
      while (std::getline(in, line)) {
        std::istringstream ls(line);
        ls >> w;
        if (w == "facet")
          ls >> name;
        else if (w == "tape") {
          uint64_t x;
          while (ls >> x)
            tape.push_back(x);
        }
      }
      for (auto &f : facets())
        if (f.name == name) {
          Src s;
          s.tape = tape;
          s.replaying = true;
          std::string msg;
          alarm(unsigned(f.case_limit) + 1);
          const Out r = run_one(f, s, msg);
          alarm(0);
          for (auto &n : s.notes)
            std::cout << "  " << n.first << " = " << n.second << "\n";
          std::cout << (r == Out::fail      ? "FAIL "
                        : r == Out::known   ? "KNOWN "
                        : r == Out::discard ? "DISCARD "
                                            : "PASS ")
                    << msg << "\n";
          return r == Out::fail ? 1 : r == Out::known ? 4 : 0;
        }
      std::cerr << "no facet " << name << "\n";
      return 2;
    }

    const Facet *f = nullptr;
    for (auto &x : facets())
      if (x.name == o.facet)
        f = &x;
    if (!f) {
      std::cerr << "no facet " << o.facet << "\n";
      return 2;
    }
    const long cases =
        o.cases >= 0 ? o.cases : (o.thorough ? f->thorough : f->quick);

    int pfd = -1;
    if (!o.progress.empty())
      pfd = open(o.progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);

    const double t0 = now();
    long evaluated = 0, discarded = 0, nontrivial = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, known, counts;
    std::vector<std::string> samples;
    std::string failure;
    std::vector<uint64_t> fail_tape;
    long fail_case = -1;

    long k = o.first;
    for (; k < o.first + cases && now() - t0 < o.time; ++k) {
      if (pfd >= 0) {
        char b[64];
        const int n = snprintf(b, sizeof b, "%-20ld\n", k);
        if (pwrite(pfd, b, n, 0) < 0) {
        }
      }
      Src s;
      s.state = mix(o.seed * 1000003ull + mix(hash_str(f->name)) +
                    mix(uint64_t(k) + 77));
      std::string msg;
      alarm(unsigned(f->case_limit) + 1);
      const Out r = run_one(*f, s, msg);
      alarm(0);
      for (auto &l : s.labels)
        labels[l]++;
      for (auto &c : s.counts)
        counts[c.first] += c.second;
      if (r == Out::discard) {
        ++discarded;
        continue;
      }
      if (r == Out::known) {
        known[msg]++;
        continue;
      }
      ++evaluated;
      if (s.is_nontrivial) {
        ++nontrivial;
        uint64_t h = 7;
        for (std::size_t i = 0; i < s.pos && i < s.tape.size(); ++i)
          h = mix(h ^ s.tape[i]);
        distinct.insert(h);
        if (samples.size() < 4 && !s.notes.empty()) {
          std::string d;
          for (auto &n : s.notes) {
            d += (d.empty() ? "" : ", ") + n.first + "=" + n.second;
            if (d.size() > 600)
              break;
          }
          samples.push_back("case " + std::to_string(k) + ": " + d);
        }
      }
      if (r == Out::fail) {
        failure = msg;
        fail_tape = s.tape;
        fail_tape.resize(std::min(fail_tape.size(), s.pos));
        fail_case = k;
        break;
      }
    }

    const int rc = fail_case >= 0 ? 1 : 0;
    const std::string first_failure = failure;
    auto emit = [&](bool notes) {
    std::ostringstream j;
    j << "{\"facet\":\"" << f->name << "\",\"seed\":" << o.seed
      << ",\"first\":" << o.first << ",\"requested\":" << cases
      << ",\"evaluated\":" << evaluated << ",\"discarded\":" << discarded
      << ",\"nontrivial\":" << nontrivial
      << ",\"distinct_nontrivial\":" << distinct.size()
      << ",\"wall_s\":" << now() - t0 << ",\"labels\":{";
    bool sep = false;
    for (auto &l : labels) {
      j << (sep ? "," : "") << "\"" << esc(l.first) << "\":" << l.second;
      sep = true;
    }
    j << "},\"counts\":{";
    sep = false;
    for (auto &l : counts) {
      j << (sep ? "," : "") << "\"" << esc(l.first) << "\":" << l.second;
      sep = true;
    }
    j << "},\"known\":{";
    sep = false;
    for (auto &l : known) {
      j << (sep ? "," : "") << "\"" << esc(l.first) << "\":" << l.second;
      sep = true;
    }
    j << "},\"samples\":[";
    sep = false;
    for (auto &l : samples) {
      j << (sep ? "," : "") << "\"" << esc(l) << "\"";
      sep = true;
    }
    j << "]";
    if (rc) {
      j << ",\"fail_case\":" << fail_case << ",\"message\":\"" << esc(failure)
        << "\",\"first_message\":\"" << esc(first_failure) << "\",\"tape\":[";
      for (std::size_t i = 0; i < fail_tape.size(); ++i)
        j << (i ? "," : "") << "\"" << fail_tape[i] << "\"";
      j << "],\"notes\":{";
      Src s;
      s.tape = fail_tape;
      s.replaying = true;
      std::string m;
      if (notes)
        run_one(*f, s, m);
      sep = false;
      std::set<std::string> seen;
      for (auto &n : s.notes) {
        if (!seen.insert(n.first).second)
          continue;
        j << (sep ? "," : "") << "\"" << esc(n.first) << "\":\""
          << esc(n.second) << "\"";
        sep = true;
      }
      j << "}";
    }
    j << "}";
    if (o.out.empty())
      std::cout << j.str() << "\n";
    else {
      std::ofstream of(o.out);
      of << j.str() << "\n";
    }
    };
    if (rc) {
      /* in case a smaller candidate takes the process down */
      if (!o.out.empty())
        emit(false);
      fail_tape = shrink(*f, fail_tape, failure, o.shrink_time);
    }
    emit(true);
    return rc;
  }
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT(name, quick, thorough, fn)                                         \
  static pbt::Register PBT_CAT(pbt_reg_, __COUNTER__)(name, quick, thorough, fn)
