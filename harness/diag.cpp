// F02: the diagnostic output of a solve against an independent account of that
// solve (callback log, user functions in long double, parsed text).
#include <algorithm>
#include <array>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <limits>
#include <sstream>
#include <thread>

#include <fcntl.h>
#include <unistd.h>

#include <sleipnir/util/print_diagnostics.hpp>

#include "prob.hpp"

using namespace vf;
using slp::ExitStatus;
using Info = slp::IterationInfo<double>;
static vf::Runner RR;
#define R RR

namespace {

struct Capture {
  int saved, fd;
  explicit Capture(const char* f) {
    fflush(stdout);
    saved = dup(1);
    fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
  }
  ~Capture() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved), close(fd);
  }
};

std::vector<std::string> read_lines(const char* f) {
  std::vector<std::string> l;
  std::ifstream in(f);
  for (std::string s; std::getline(in, s);) l.push_back(s);
  return l;
}

bool starts(const std::string& s, const std::string& p) { return s.rfind(p, 0) == 0; }
bool ends(const std::string& s, const std::string& p) {
  return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}

struct Cb {  // one callback round
  int it;
  bool inner;
  DVec x, s, y, z;
  Eigen::MatrixXd g, Ae, Ai;
};

struct Row {
  int it = -1, back = 0;
  char type = ' ';
  double dur, error, cost, infeas, compl_, mu, ppr, pdu, apr, adu;
  std::string delta, gamma, text;
};

/// A regularization is shown as a power of ten.
bool power_text(const std::string& s, double& e) {
  if (s == "0") return e = -HUGE_VAL, true;
  if (s == "1") return e = 0, true;
  if (!starts(s, "10")) return false;
  std::string r = s.substr(2);
  if (r.empty()) return e = 1, true;
  bool neg = starts(r, "⁻");
  if (neg) r = r.substr(std::string("⁻").size());
  static const char* d[] = {"⁰", "¹", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹"};
  double v = 0;
  int digits = 0;
  while (!r.empty()) {
    int k = 0;
    while (k < 10 && !starts(r, d[k])) ++k;
    if (k == 10) return false;
    r = r.substr(strlen(d[k]));
    v = v * 10 + k;
    ++digits;
  }
  if (!digits) return false;
  return e = neg ? -v : v, true;
}

bool parse_row(const std::string& line, Row& r) {
  static const std::string bar = "│";
  if (!starts(line, bar) || !ends(line, bar)) return false;
  std::string body = line.substr(bar.size(), line.size() - 2 * bar.size());
  if (body.size() < 6) return false;
  r.text = line;
  // the iteration number takes at least 4 columns, then blank and type
  size_t p = 0;
  while (p < body.size() && body[p] == ' ') ++p;
  size_t q = p;
  while (q < body.size() && isdigit((unsigned char)body[q])) ++q;
  if (p == q || q < 4) return false;
  r.it = atoi(body.substr(p, q - p).c_str());
  if (body[q] != ' ') return false;
  r.type = body[q + 1];
  std::istringstream in(body.substr(q + 2));
  std::vector<std::string> t;
  for (std::string w; in >> w;) t.push_back(w);
  if (t.size() != 13) return false;
  auto num = [](const std::string& s, double& v) {
    char* e;
    v = strtod(s.c_str(), &e);
    return !s.empty() && *e == 0;
  };
  double back;
  bool ok = num(t[0], r.dur) && num(t[1], r.error) && num(t[2], r.cost) && num(t[3], r.infeas) &&
            num(t[4], r.compl_) && num(t[5], r.mu) && num(t[8], r.ppr) && num(t[9], r.pdu) &&
            num(t[10], r.apr) && num(t[11], r.adu) && num(t[12], back);
  r.delta = t[6], r.gamma = t[7], r.back = int(back);
  double e;
  return ok && back == std::floor(back) && power_text(r.delta, e) && power_text(r.gamma, e);
}

struct Trace { std::string name; double percent, total, each; int runs; std::string bar; };

bool parse_trace(const std::string& line, bool setup, Trace& t) {
  static const std::string bar = "│", l = "▕", r = "▏";
  if (!starts(line, bar) || !ends(line, bar)) return false;
  std::string b = line.substr(bar.size(), line.size() - 2 * bar.size());
  size_t pl = b.find("%" + l);
  if (pl == std::string::npos) return false;
  size_t pn = b.find_last_of(' ', pl);
  if (pn == std::string::npos) return false;
  t.percent = atof(b.substr(pn).c_str());
  t.name = b.substr(0, pn);
  while (!t.name.empty() && t.name.back() == ' ') t.name.pop_back();
  size_t pb = pl + 1 + l.size(), pr = b.rfind(r);
  if (pr == std::string::npos || pr < pb) return false;
  t.bar = b.substr(pb, pr - pb);
  std::istringstream in(b.substr(pr + r.size()));
  if (setup) return t.runs = 1, bool(in >> t.total);
  return bool(in >> t.total >> t.each >> t.runs);
}

/// What the bar of a share must look like (share in eighths of 1/9).
std::string bar_of(int eighths) {
  static const char* part[] = {"", "▏", "▎", "▍", "▌", "▋", "▊", "▉"};
  std::string s;
  int n = eighths / 8;
  for (int i = 0; i < n; ++i) s += "█";
  int len = n;
  if (eighths % 8) s += part[eighths % 8], ++len;
  for (; len < 9; ++len) s += " ";
  return s;
}

bool bar_ok(const std::string& bar, double lo, double hi) {
  int a = int(std::floor(std::clamp(lo, 0.0, 1.0) * 72)), b = int(std::floor(std::clamp(hi, 0.0, 1.0) * 72));
  for (int k = std::max(a, 0); k <= std::min(b, 72); ++k)
    if (bar == bar_of(k)) return true;
  return false;
}

bool near(double printed, double want, double rel, double abs_) {
  if (std::isnan(printed) || std::isnan(want)) return std::isnan(printed) && std::isnan(want);
  return std::fabs(printed - want) <= rel * std::fabs(want) + abs_;
}


void check_solve(Rng& g, const Prob& q, const slp::Options& o_in, int stop, bool with_cb) {
  slp::Options o = o_in;
  auto b = build(g, q, true);
  auto& p = b->p;
  int n = q.n, me = q.ce.size(), mi = q.ci.size();
  std::vector<Cb> log;
  bool stopped = false;
  if (with_cb || stop >= 0) {
    p.add_callback([&](const Info& i) -> bool {
      log.push_back({i.iteration, i.x.size() != n, i.x, i.s, i.y, i.z, Eigen::MatrixXd(i.g), Eigen::MatrixXd(i.A_e), Eigen::MatrixXd(i.A_i)});
      return stopped = stop >= 0 && int(log.size()) == stop + 1;
    });
  }
  auto ft = p.cost_function_type();
  auto et = p.equality_constraint_type();
  auto it = p.inequality_constraint_type();
  const DVec x0 = b->get();
  o.diagnostics = true;
  ExitStatus st;
  {
    Capture c("diag.txt");
    st = p.solve(o);
  }
  DVec xf = b->get();
  auto L = read_lines("diag.txt");
  std::string where = status_name(st);
  R.count(std::string("status ") + status_name(st));
  auto bad = [&](const std::string& key, const std::string& m) { R.fail(key, m + " (" + where + ", " + q.text() + ")"); };

  // exit conditions and structure
  size_t k = 0;
  auto expect = [&](const std::string& s) {
    if (k >= L.size() || L[k] != s) {
      bad("header", fmt("line %zu is \"%s\", expected \"%s\"", k, k < L.size() ? L[k].c_str() : "<end>", s.c_str()));
      return false;
    }
    ++k;
    return true;
  };
  if (!expect("User-configured exit conditions:")) return;
  if (k < L.size() && starts(L[k], "  ↳ error below ")) {
    double t = strtod(L[k].c_str() + strlen("  ↳ error below "), nullptr);
    if (t != o.tolerance) bad("header", fmt("tolerance shown is %.17g, set was %.17g", t, o.tolerance));
    ++k;
  } else bad("header", "no tolerance line");
  if (with_cb || stop >= 0) { if (!expect("  ↳ iteration callback requested stop")) return; }
  if (!expect(fmt("  ↳ executed %d iterations", o.max_iterations))) return;
  if (std::isfinite(o.timeout.count())) {
    double t = k < L.size() ? strtod(L[k].c_str() + strlen("  ↳ "), nullptr) : NAN;
    if (k >= L.size() || !starts(L[k], "  ↳ ") || !ends(L[k], "s elapsed") || std::fabs(t - o.timeout.count()) > 1e-5 * t)
      bad("header", fmt("no line for the timeout %g s", o.timeout.count()));
    ++k;
  }
  static const char* tn[] = {"no", "constant", "linear", "quadratic", "nonlinear"};
  if (!expect("") || !expect("Problem structure:") || !expect(fmt("  ↳ %s cost function", tn[int(ft)])) ||
      !expect(fmt("  ↳ %s equality constraints", tn[int(et)])) || !expect(fmt("  ↳ %s inequality constraints", tn[int(it)])) ||
      !expect("") || !expect(n == 1 ? "1 decision variable" : fmt("%d decision variables", n))) {
    return;
  }
  auto kinds = [&](int m, const char* what, slp::ExpressionType hardest) {
    if (!expect(m == 1 ? fmt("1 %s constraint", what) : fmt("%d %s constraints", m, what))) return false;
    int sum = 0, top = 0;
    while (k < L.size() && starts(L[k], "  ↳ ")) {
      std::istringstream in(L[k].substr(strlen("  ↳ ")));
      int c = 0;
      std::string w;
      in >> c >> w;
      int id = -1;
      for (int i = 0; i < 5; ++i) if (w == (i ? tn[i] : "empty")) id = i;
      if (id < 0 || c <= 0 || id < top) bad("header", "bad constraint kind line " + L[k]);
      sum += c, top = std::max(top, id);
      ++k;
    }
    if (sum != m) bad("header", fmt("the kinds of %s constraints add up to %d of %d", what, sum, m));
    if (m && top != int(hardest)) bad("header", fmt("hardest %s constraint shown is %s, type is %s", what, tn[top], tn[int(hardest)]));
    return true;
  };
  if (!kinds(me, "equality", et) || !kinds(mi, "inequality", it)) return;

  // solver selection
  bool noop = ft <= slp::ExpressionType::CONSTANT && et <= slp::ExpressionType::CONSTANT && it <= slp::ExpressionType::CONSTANT;
  std::string sol = noop ? "no-op" : mi ? "IPM" : me ? "SQP" : "Newton";
  if (!expect("") || !expect("Invoking " + sol + " solver") || !expect("")) return;
  R.count("solver " + sol);

  // the rest, line by line
  std::vector<Row> rows;
  std::vector<Trace> setup, trace;
  int heads = 0, bottoms = 0, setups = 0, traces = 0, exits = 0, section = 0;
  struct Listed { std::string head; std::vector<std::string> items; };
  std::vector<Listed> msgs;
  for (; k < L.size(); ++k) {
    auto& s = L[k];
    if (s.find("┃") == 0) {
      if (s.find("iter ") != std::string::npos) section = 1, ++heads;
      else if (s.find("runs") != std::string::npos) section = 2, ++traces;
      else if (s.find("duration") != std::string::npos) section = 3, ++setups;
      else bad("layout", "unknown table " + s);
    } else if (starts(s, "│")) {
      if (section == 1) {
        Row r;
        if (!parse_row(s, r)) bad("layout", "row not understood: " + s);
        else rows.push_back(r);
      } else if (section == 2 || section == 3) {
        Trace t;
        if (!parse_trace(s, section == 3, t)) bad("layout", "time trace not understood: " + s);
        else (section == 3 ? setup : trace).push_back(t);
      } else bad("layout", "row outside a table: " + s);
    } else if (starts(s, "└")) {
      if (section == 1) ++bottoms;
      section = 0;
    } else if (starts(s, "┏") || starts(s, "┢") || starts(s, "┡") || s.empty() || starts(s, "See http")) {
    } else if (starts(s, "Exit: ")) {
      ++exits;
      std::string want = fmt("%s", s.substr(6).c_str());
      if (want != std::format("{}", st)) bad("exit", "\"" + s + "\" for " + std::format("{}", st));
    } else if (starts(s, "The problem ")) {
      msgs.push_back({s, {}});
    } else if (starts(s, "Violated constraints")) {
    } else if (starts(s, "  ") && !msgs.empty()) {
      msgs.back().items.push_back(s);
    } else bad("layout", "unexpected line " + s);
  }

  bool started = !noop && st != ExitStatus::GLOBALLY_INFEASIBLE;
  bool solver_ran = started && st != ExitStatus::TOO_FEW_DOFS && st != ExitStatus::NONFINITE_INITIAL_GUESS;
  if (setups != (noop ? 0 : 1)) bad("layout", fmt("%d setup traces", setups));
  if (traces != (solver_ran ? 1 : 0)) bad("layout", fmt("%d solver traces", traces));
  if (exits != 1 && started) bad("exit", fmt("%d exit lines", exits));
  if (exits > 1) bad("exit", fmt("%d exit lines", exits));

  // setup trace
  auto check_shares = [&](std::vector<Trace>& v, const char* what) {
    if (v.empty()) return;
    double T = v[0].total;
    for (auto& t : v) {
      double lo = T > 0 ? (t.total - 5.1e-4) / (T + 5.1e-4) : 0, hi = T > 6e-4 ? (t.total + 5.1e-4) / (T - 5.1e-4) : 1e9;
      if (T == 0) {
        if (!(&t == &v[0] ? t.percent == 100 : t.percent == 0)) bad("trace", std::string(what) + " share of " + t.name + " with no time");
        continue;
      }
      if (t.percent < 100 * lo - 0.006 || t.percent > 100 * hi + 0.006)
        bad("trace", fmt("%s: %s took %.3f of %.3f ms, shown as %.2f%%", what, t.name.c_str(), t.total, T, t.percent));
      if (!bar_ok(t.bar, t.percent / 100 - 6e-5, t.percent / 100 + 6e-5))
        bad("trace", fmt("%s: bar '%s' for %.2f%%", what, t.bar.c_str(), t.percent));
      if (t.total < 0) bad("trace", "negative time");
    }
  };
  check_shares(setup, "setup");
  check_shares(trace, "solver");
  if (setups && (setup.empty() || setup[0].name != "setup")) bad("trace", "setup trace lacks its total");
  for (size_t i = 1; i < setup.size(); ++i)
    if (setup[i].total > setup[0].total + 2e-3) bad("trace", fmt("setup part %s longer than the whole", setup[i].name.c_str()));

  // messages
  const bool logged = with_cb || stop >= 0;
  const DVec* last_outer = nullptr;
  int last_it = -1, max_it = -1;
  bool last_inner = false;
  for (auto& c : log) {
    if (!c.inner) last_outer = &c.x;
    last_it = c.it, last_inner = c.inner;
    max_it = std::max(max_it, c.it);
  }
  (void)last_it, (void)last_outer;
  auto violated = [&](const Listed& m, const std::vector<Fn>& c, const DVec& x, bool eq) {
    // exactly the constraints violated at x, in order
    std::vector<int> want, maybe;
    std::vector<LD> val;
    for (size_t i = 0; i < c.size(); ++i) {
      auto e = c[i].eval(x, false);
      val.push_back(e.v);
      LD noise = 1e-12L * (1 + e.size);
      bool v = eq ? std::fabs(e.v) > noise : e.v < -noise;
      bool clean = eq ? e.v == 0 : e.v >= noise;
      if (v) want.push_back(i);
      else if (!clean) maybe.push_back(i);
    }
    std::vector<int> got;
    for (auto& s : m.items) {
      int i = 0, of = 0;
      double v = NAN;
      char rest[32] = "";
      if (sscanf(s.c_str(), " %d/%d: %lf %31[^\n]", &i, &of, &v, rest) < 3) { bad("message", "not understood: " + s); return; }
      if (of != int(c.size())) return;  // restoration's own constraints
      if (i < 1 || i > of) { bad("message", "no such constraint: " + s); return; }
      if (std::string(rest) != (eq ? "= 0" : "≥ 0")) bad("message", "relation in " + s);
      got.push_back(i - 1);
      LD w = val[i - 1];
      // shown in the solver's scaling, a factor in (0, 1]
      if (std::fabs(w) > 1e-9 && (!(v / (double)w > 0) || v / (double)w > 1.001)) bad("message", fmt("%s but its value is %.10Lg", s.c_str(), w));
    }
    for (size_t i = 1; i < got.size(); ++i) if (got[i] <= got[i - 1]) bad("message", "listed out of order");
    for (int i : want) if (std::find(got.begin(), got.end(), i) == got.end())
      bad("message", fmt("%s constraint %d has residual %.10Lg but is not among the violated ones listed", eq ? "equality" : "inequality", i + 1, val[i]));
    for (int i : got) if (std::find(want.begin(), want.end(), i) == want.end() && std::find(maybe.begin(), maybe.end(), i) == maybe.end())
      bad("message", fmt("%s constraint %d is listed as violated, its residual is %.10Lg", eq ? "equality" : "inequality", i + 1, val[i]));
    R.count("violation lists checked");
    R.count("violated constraints listed", got.size());
  };
  int told = 0;
  for (auto& m : msgs) {
    if (m.head == "The problem has too few degrees of freedom.") {
      if (st != ExitStatus::TOO_FEW_DOFS) bad("message", m.head);
      violated(m, q.ce, x0, true);
      ++told;
    } else if (starts(m.head, "The problem is locally infeasible due to violated equality")) {
      if (st != ExitStatus::LOCALLY_INFEASIBLE && st != ExitStatus::FEASIBILITY_RESTORATION_FAILED) bad("message", m.head);
      if (!last_inner && st == ExitStatus::LOCALLY_INFEASIBLE) violated(m, q.ce, xf, true);
      ++told;
    } else if (starts(m.head, "The problem is locally infeasible due to violated inequality")) {
      if (st != ExitStatus::LOCALLY_INFEASIBLE && st != ExitStatus::FEASIBILITY_RESTORATION_FAILED) bad("message", m.head);
      if (!last_inner && st == ExitStatus::LOCALLY_INFEASIBLE) violated(m, q.ci, xf, false);
      ++told;
    } else if (starts(m.head, "The problem is globally infeasible due to conflicting bound")) {
      if (st != ExitStatus::GLOBALLY_INFEASIBLE) bad("message", m.head);
      if (m.items.empty()) bad("message", "no conflicting pair named");
      for (auto& s : m.items) {
        int lo = -1, up = -1;
        if (sscanf(s.c_str(), " Inequality constraint %d gives a lower bound that is greater than the upper bound given by inequality constraint %d", &lo, &up) != 2 ||
            lo < 0 || up < 0 || lo >= mi || up >= mi) { bad("message", "not understood: " + s); continue; }
        // both restrict the same single variable, and contradict each other
        auto lim = [&](int i, int& var, LD& at, bool& lower) {
          std::vector<LD> a(n, 0);
          LD c = 0;
          for (auto& t : q.ci[i].t) {
            if (t.k == P_LIN) { for (size_t j = 0; j < t.a.size(); ++j) a[j] += (LD)t.c * t.a[j]; c += (LD)t.c * t.a0; }
            else if (t.k == P_CONST) c += t.c;
            else return false;
          }
          var = -1;
          for (int j = 0; j < n; ++j) if (a[j] != 0) { if (var >= 0) return false; var = j; }
          if (var < 0) return false;
          at = -c / a[var], lower = a[var] > 0;
          return true;
        };
        int v1, v2;
        LD b1, b2;
        bool l1, l2;
        if (!lim(lo, v1, b1, l1) || !lim(up, v2, b2, l2)) bad("message", "names constraints that are no bounds: " + s);
        else if (v1 != v2 || !l1 || l2) bad("message", fmt("names bounds of variables %d (%s) and %d (%s): ", v1, l1 ? "lower" : "upper", v2, l2 ? "lower" : "upper") + s);
        else if (!(b1 > b2 - 1e-12L * (1 + std::fabs(b2)))) bad("message", fmt("bounds %Lg and %Lg don't conflict: ", b1, b2) + s);
        R.count("conflicts named");
      }
      ++told;
    } else bad("message", "unknown: " + m.head);
  }
  if (st == ExitStatus::TOO_FEW_DOFS && told != 1) bad("message", "too few degrees of freedom not explained");

  // iteration table
  if (!solver_ran) {
    if (!rows.empty() || bottoms) bad("rows", "iterations shown though none can have run");
    return;
  }
  if (trace.empty()) return;
  std::vector<Row> main;
  for (size_t i = 0; i < rows.size(); ++i) {
    auto& r = rows[i];
    if (r.type == 's') {
      R.count("second-order correction rows");
      // restoration may start in spite of the correction
      if (i + 1 < rows.size() && rows[i + 1].it == r.it && rows[i + 1].type == 'r' && (main.empty() || main.back().type != 'r')) continue;
      if (i + 1 >= rows.size() || rows[i + 1].type == 's' || rows[i + 1].it != r.it) {
        // the step can still be refused for nonfinite derivatives
        if (!(i + 1 == rows.size() && (st == ExitStatus::LINE_SEARCH_FAILED || st == ExitStatus::FEASIBILITY_RESTORATION_FAILED)))
          bad("rows", "correction row without its iteration: " + r.text);
        continue;
      }
      auto& m = rows[i + 1];
      if (m.cost != r.cost || m.infeas != r.infeas || m.apr != r.apr || m.adu != r.adu || m.ppr != r.ppr || m.delta != r.delta || m.gamma != r.gamma)
        bad("rows", "accepted correction " + r.text + " differs from its iteration " + m.text);
    } else if (r.type == ' ' || r.type == 'r') {
      main.push_back(r);
    } else bad("rows", "unknown type in " + r.text);
  }
  for (size_t i = 0; i < main.size(); ++i)
    if (main[i].it != int(i)) { bad("rows", fmt("row %zu is numbered %d", i, main[i].it)); return; }
  R.count("iteration rows", main.size());
  if (!main.empty() && bottoms != 1) bad("rows", fmt("%d table bottoms", bottoms));
  if (!main.empty() && heads < 1 + int(main.size() - 1) / 20) bad("rows", "table head not repeated");
  if (main.empty() && heads) bad("rows", "empty table shown");

  if (logged) {
    int rounds = max_it + 1, got = main.size();
    bool ok = true;
    switch (st) {
      case ExitStatus::SUCCESS: case ExitStatus::MAX_ITERATIONS_EXCEEDED: case ExitStatus::TIMEOUT:
        ok = got == rounds; break;
      case ExitStatus::CALLBACK_REQUESTED_STOP: case ExitStatus::FACTORIZATION_FAILED: case ExitStatus::LINE_SEARCH_FAILED:
        ok = got == rounds - 1; break;
      default: ok = got == rounds || got == rounds - 1;
    }
    if (!ok) bad("rows", fmt("%d rows for %d iterations", got, rounds));
  }
  double infs = 0, iter_ms = 0;
  (void)infs;
  if (st == ExitStatus::SUCCESS && !main.empty() && main.back().error > o.tolerance * 1.0001)
    bad("error", fmt("success with error shown as %g, tolerance %g", main.back().error, o.tolerance));
  for (size_t i = 0; i < main.size(); ++i) {
    auto& r = main[i];
    if (r.dur < 0) bad("rows", "negative duration " + r.text);
    if (r.type == ' ') iter_ms += r.dur;
    // shown with 5 digits
    if (r.type == ' ' && (i + 1 < main.size()) && main[i + 1].type == ' ' && r.error < o.tolerance * 0.9999)
      bad("error", fmt("went on though the error shown is %g, tolerance %g", r.error, o.tolerance));
    if (!(r.apr > 0 && r.apr <= 1) || !(r.adu > 0 && r.adu <= 1)) bad("step", "step size outside (0, 1]: " + r.text);
    if (r.back < 0 || r.back > 1100) bad("step", "number of backtracks: " + r.text);
    if (sol != "IPM" && r.type == ' ' && (r.mu != 0 || r.compl_ != 0)) bad("values", "barrier values without inequalities: " + r.text);
    if ((sol == "IPM" || r.type == 'r') && !(r.mu > 0)) bad("values", "barrier parameter: " + r.text);
    if (sol == "Newton" && (r.infeas != 0 || r.type != ' ')) bad("values", "infeasibility without constraints: " + r.text);
    if (r.infeas < 0 || (r.compl_ < 0) || r.error < 0) bad("values", "negative: " + r.text);
    if (i && main[i].type == ' ' && sol == "IPM") {
      size_t j = i;
      while (j > 0 && main[j - 1].type == 'r') --j;
      if (j > 0 && main[i].mu > main[j - 1].mu * 1.006) bad("values", "the barrier parameter grows: " + main[j - 1].text + " then " + r.text);
    }
  }

  // values against the iterates the callbacks saw
  std::map<int, const Cb*> first, last;
  std::map<int, int> pos;
  for (size_t i = 0; i < log.size(); ++i) {
    if (!first.count(log[i].it)) first[log[i].it] = &log[i], pos[log[i].it] = i;
    last[log[i].it] = &log[i];
  }
  // the solver's scaling, from the data it shows at the start
  double df = 1;
  DVec de = DVec::Ones(me), di = DVec::Ones(mi);
  bool have_scaling = false;
  double df_rel = 0;  // relative uncertainty of the factors found
  std::vector<double> de_rel(me, 0.0), di_rel(mi, 0.0);
  if (!log.empty() && !log[0].inner) {
    have_scaling = true;
    auto ratio = [&](const Eigen::MatrixXd& shown, const Fn& fn, double& rel) {
      int at = 0;
      auto e = fn.eval(log[0].x, false);
      const LVec& user = e.g;
      LD m = user.size() ? user.cwiseAbs().maxCoeff(&at) : 0;
      if (!(m > 1e-6L * e.gsize) || !std::isfinite((double)m)) return 1.0;
      rel = double(4e-15L * e.gsize / m);
      return double((LD)shown(at) / user[at]);
    };
    if (q.has_f) df = ratio(log[0].g, q.f, df_rel);
    for (int j = 0; j < me; ++j) de[j] = ratio(log[0].Ae.row(j), q.ce[j], de_rel[j]);
    for (int j = 0; j < mi; ++j) di[j] = ratio(log[0].Ai.row(j), q.ci[j], di_rel[j]);
    if (!(df > 0) || !std::isfinite(df) || (me && !(de.minCoeff() > 0)) || (mi && !(di.minCoeff() > 0))) have_scaling = false;
  }
  auto exact_backtracks = [&](const Row& r, bool soc) {
    if (soc) return;
    double want = std::pow(0.5, r.back);
    if (sol != "IPM" && r.type == ' ') {
      if (!near(r.apr, want, 6e-3, 0)) bad("step", fmt("%d backtracks from a full step but step size %g", r.back, r.apr));
    } else if (r.apr > want * 1.006) bad("step", fmt("%d backtracks but step size %g", r.back, r.apr));
  };
  for (size_t i = 0; i < rows.size(); ++i) {
    auto& r = rows[i];
    if (r.type == 's') continue;
    bool soc = i > 0 && rows[i - 1].type == 's';
    const Cb* c = first.count(r.it + 1) ? first[r.it + 1] : nullptr;
    const Cb* before = last.count(r.it) ? last[r.it] : nullptr;
    bool after_restoration = r.type == ' ' && before && before->inner;
    if (!after_restoration) exact_backtracks(r, soc);
    if (!have_scaling) continue;
    if (c && c->inner != (r.type == 'r')) {
      bad("rows", fmt("row %d is marked '%c' but the iterate after it is %s", r.it, r.type, c->inner ? "restoration's" : "a normal one"));
      continue;
    }
    bool is_last = !c;
    if (is_last && (r.type == 'r' || st == ExitStatus::LINE_SEARCH_FAILED || st == ExitStatus::FEASIBILITY_RESTORATION_FAILED || size_t(r.it) + 1 != main.size())) continue;
    const DVec x = c ? DVec(c->x.head(n)) : xf;
    if (!(x.cwiseAbs().maxCoeff() < 1e6)) continue;  // rounding rules there
    // functions
    Fn::Out f = q.has_f ? q.f.eval(x, false) : Fn::Out{0, LVec::Zero(n), {}, 0, 0};
    LVec ce(me), ci(mi);
    LD viol = 0, noise = 1e-300L, cenoise = 0;
    bool tiny_ok = true;
    (void)tiny_ok;
    LVec res_e(me), res_i(mi);
    LD uviol_e = 0, uviol_i = 0, unoise = 0;
    for (int j = 0; j < me; ++j) { auto e = q.ce[j].eval(x, false); ce[j] = e.v; cenoise += e.size; noise += (1e-14L * e.size + de_rel[j] * std::fabs(e.v)) * de[j]; unoise = std::max(unoise, 1e-14L * e.size + de_rel[j] * std::fabs(e.v)); }
    for (int j = 0; j < mi; ++j) { auto e = q.ci[j].eval(x, false); ci[j] = e.v; cenoise += e.size; noise += (1e-14L * e.size + di_rel[j] * std::fabs(e.v)) * di[j]; unoise = std::max(unoise, 1e-14L * e.size + di_rel[j] * std::fabs(e.v)); }
    DVec pe, ne, pi, ni;
    bool inner = c && c->inner;
    if (inner && c->x.size() != n + 2 * me + 2 * mi) continue;
    if (inner) {
      pe = c->x.segment(n, me), ne = c->x.segment(n + me, me);
      pi = c->x.segment(n + 2 * me, mi), ni = c->x.segment(n + 2 * me + mi, mi);
    }
    LVec de_l = de.cast<LD>(), di_l = di.cast<LD>();
    for (int j = 0; j < me; ++j) {
      res_e[j] = de_l[j] * ce[j] - (inner ? (LD)pe[j] - ne[j] : 0);
      uviol_e = std::max(uviol_e, std::fabs(res_e[j]) / de_l[j]);
      viol += std::fabs(res_e[j]);
      if (inner) noise += 1e-15L * (pe[j] + ne[j]);
    }
    // cost
    if (!inner) {
      LD want = (LD)df * f.v;
      LD room = (1e-13L * f.size + df_rel * std::fabs(f.v)) * df;
      if (!q.has_f) want = 0;
      if (!near(r.cost, (double)want, 6e-5, (double)room) && !near(r.cost, (double)f.v, 6e-5, (double)(1e-13L * f.size)))
        bad("values", fmt("row %d shows cost %.17g, the iterate's is %.10Lg (scaled %.10Lg)", r.it, r.cost, f.v, want));
      R.count("costs checked");
    } else {
      LD sum = 1000.0L * (pe.cast<LD>().sum() + ne.cast<LD>().sum() + pi.cast<LD>().sum() + ni.cast<LD>().sum());
      // the distance from where restoration started, weighted as in the gradient
      const Cb* first = c;
      while (first > log.data() && first[-1].inner) --first;
      LD dist = 0, dsize = 0;
      for (int a = 0; a < n; ++a) { LD t = (LD)c->g(a) * ((LD)c->x[a] - first->x[a]) / 2; dist += t, dsize += std::fabs(t); }
      if (!near(r.cost, (double)(sum + dist), 6e-5, (double)(1e-13L * (sum + dsize))))
        bad("values", fmt("row %d shows restoration cost %.17g, the penalty is %.10Lg, the distance costs %.10Lg", r.it, r.cost, sum, dist));
      R.count("restoration costs checked");
      if (dist > 1e-3L * sum) R.count("restoration costs with distance");
    }
    // slack values: only callbacks know them
    if (c && (mi || inner)) {
      LD sz = 0;
      for (int j = 0; j < c->s.size(); ++j) sz += (LD)c->s[j] * c->z[j];
      if (!near(r.compl_, (double)sz, 6e-3, 0)) bad("values", fmt("row %d shows complementarity %g, s'z is %.10Lg", r.it, r.compl_, sz));
      R.count("complementarities checked");
      for (int j = 0; j < mi; ++j) {
        res_i[j] = di_l[j] * ci[j] - (inner ? (LD)pi[j] - ni[j] : 0) - (LD)c->s[j];
        viol += std::fabs(res_i[j]);
        uviol_i = std::max(uviol_i, std::fabs(res_i[j]) / di_l[j]);
        noise += 1e-15L * c->s[j];
        if (inner) noise += 1e-15L * (pi[j] + ni[j]);
      }
      if (inner) {
        for (int j = 0; j < 2 * me + 2 * mi; ++j) {
          LD d = (LD)c->x[n + j] - c->s[mi + j];
          viol += std::fabs(d);
          uviol_i = std::max(uviol_i, std::fabs(d));
          noise += 1e-15L * (std::fabs(c->x[n + j]) + c->s[mi + j]);
        }
      }
    }
    if (c || !mi) {
      // the sum may be shown in the user's or the solver's scaling
      LD uv = 0;
      for (int j = 0; j < me; ++j) uv += std::fabs(res_e[j]) / de_l[j];
      if (c) for (int j = 0; j < mi; ++j) uv += std::fabs(res_i[j]) / di_l[j];
      if (inner) for (int j = 0; j < 2 * me + 2 * mi; ++j) uv += std::fabs((LD)c->x[n + j] - c->s[mi + j]);
      if (!near(r.infeas, (double)viol, 6e-5, (double)noise * 4) && !near(r.infeas, (double)uv, 6e-5, (double)(noise * 4 + unoise * (me + mi))))
        bad("values", fmt("row %d shows infeasibility %.10g, the iterate's is %.10Lg (unscaled %.10Lg)", r.it, r.infeas, viol, uv));
      R.count("infeasibilities checked");
      if (viol > 1e-9) R.count("nonzero infeasibilities checked");
    }
    // error: the scaled KKT error of the user's unscaled problem
    if (c) {
      const Cb& cc = *c;
      int N = cc.x.size(), M = cc.s.size();
      double dfi = inner ? 1 : df;
      DVec dii = DVec::Ones(M);
      dii.head(mi) = di;
      LVec yu(me), zu(M), su(M);
      for (int j = 0; j < me; ++j) yu[j] = (LD)de[j] * cc.y[j] / dfi;
      for (int j = 0; j < M; ++j) zu[j] = (LD)dii[j] * cc.z[j] / dfi, su[j] = (LD)cc.s[j] / dii[j];
      LVec grad(N);
      LD gs = 0;
      for (int a = 0; a < N; ++a) grad[a] = (LD)cc.g(a) / dfi, gs = std::max(gs, std::fabs(grad[a]));
      for (int j = 0; j < me; ++j) for (int a = 0; a < N; ++a) { LD t = (LD)cc.Ae(j, a) / de[j] * yu[j]; grad[a] -= t; gs = std::max(gs, std::fabs(t)); }
      for (int j = 0; j < M; ++j) for (int a = 0; a < N; ++a) { LD t = (LD)cc.Ai(j, a) / dii[j] * zu[j]; grad[a] -= t; gs = std::max(gs, std::fabs(t)); }
      LD y1 = yu.size() ? yu.cwiseAbs().sum() : 0, z1 = M ? zu.cwiseAbs().sum() : 0;
      LD sd = std::max<LD>(100, me + M ? (y1 + z1) / (me + M) : 0) / 100, sc = std::max<LD>(100, M ? z1 / M : 0) / 100;
      LD e = N ? grad.cwiseAbs().maxCoeff() / sd : 0, cm = 0;
      for (int j = 0; j < M; ++j) cm = std::max(cm, su[j] * zu[j] / sc);
      LD want = std::max({e, cm, uviol_e, uviol_i});
      LD rel = df_rel;
      for (double v : de_rel) rel = std::max<LD>(rel, v);
      for (double v : di_rel) rel = std::max<LD>(rel, v);
      LD room = (1e-13L + 4 * rel) * gs / sd + 4 * unoise + (M ? 4 * rel * su.maxCoeff() : 0) + 1e-15L * (M ? su.maxCoeff() : 0);
      if (inner) room += 1e-13L * (cc.x.tail(2 * me + 2 * mi).cwiseAbs().maxCoeff()) / std::min<LD>(1, std::min<LD>(me ? de.minCoeff() : 1, mi ? di.minCoeff() : 1));
      if (!near(r.error, (double)want, 1e-4, (double)room))
        bad("error", fmt("row %d shows error %.10g, the iterate's is %.10Lg (stationarity %Lg, complementarity %Lg, constraints %Lg %Lg)", r.it, r.error, want, e, cm, uviol_e, uviol_i));
      R.count(inner ? "restoration errors checked" : "errors checked");
    }
    // steps
    if (c && before && before->inner == c->inner && pos[r.it + 1] > 0 && &log[pos[r.it + 1] - 1] == before && !after_restoration) {
      auto inf = [](const DVec& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0; };
      double dx = inf(c->x - before->x), rx = 4e-16 * std::max(inf(c->x), inf(before->x));
      double ds = inf(c->s - before->s), rs = 4e-16 * std::max(inf(c->s), inf(before->s));
      double dp = o.feasible_ipm ? dx : std::max(dx, ds), rp = (o.feasible_ipm ? rx : std::max(rx, rs)) / r.apr;
      bool ok = o.feasible_ipm ? r.ppr >= dp / r.apr * (1 - 0.011) - rp : near(r.ppr, dp / r.apr, 0.011, rp);
      if (!ok) bad("step", fmt("row %d shows a primal step of %g with step size %g, the iterate moved by %g", r.it, r.ppr, r.apr, dp));
      R.count("primal steps checked");
      if (sol == "Newton") {
        // no duals
      } else {
        double mu = i > 0 ? rows[i - 1].mu : NAN;
        // at the start the barrier parameter the step used isn't shown
        bool clamped = r.type == 'r' && (i == 0 || rows[i - 1].type != 'r');
        for (int j = 0; j < c->z.size(); ++j) {
          double w = c->z[j] * c->s[j];
          // Σ within 1e10 of the barrier's: far from there nothing was clamped
          if (!(mu > 0) ? !(w > 1e-9 && w < 1e3) : !(w > 1e-8 * mu && w < 1e8 * r.mu)) clamped = true;
        }
        double dy = inf(c->y - before->y), ry = 4e-16 * std::max(inf(c->y), inf(before->y));
        double dz = inf(c->z - before->z), rz = 4e-16 * std::max(inf(c->z), inf(before->z));
        if (!clamped) {
          if (!near(r.pdu, std::max(dy, dz) / r.adu, 0.011, std::max(ry, rz) / r.adu))
            bad("step", fmt("row %d shows a dual step of %g with step size %g, the multipliers moved by %g", r.it, r.pdu, r.adu, std::max(dy, dz)));
          R.count("dual steps checked");
        }
      }
    }
  }

  // time trace
  std::map<std::string, Trace*> by;
  for (auto& t : trace) by[t.name] = &t;
  for (auto& t : trace) {
    // sums and averages are cut to microseconds
    if (t.runs < 0 || (t.runs == 0 && (t.total != 0 || t.each != 0))) bad("trace", "runs of " + t.name);
    if (t.total < t.runs * t.each - 1.1e-3 || t.total > t.runs * (t.each + 1.1e-3) + 1e-3)
      bad("trace", fmt("%s: %d runs of %.3f ms shown as %.3f ms", t.name.c_str(), t.runs, t.each, t.total));
  }
  auto get = [&](const char* nm) -> Trace* {
    auto f = by.find(nm);
    if (f == by.end()) { bad("trace", fmt("no entry '%s'", nm)); return nullptr; }
    return f->second;
  };
  Trace *T = get("solver"), *I = get("↳ iteration"), *S = get("↳ setup"), *C = get("  ↳ callbacks"), *D = get("  ↳ KKT matrix decomp"), *FE = get("  ↳ feasibility check");
  if (!T || !I || !S || !C || !D || !FE) return;
  if (T->runs != 1 || S->runs != 1) bad("trace", fmt("%d solver runs, %d setups", T->runs, S->runs));
  if (I->total + S->total > T->total + 2e-3) bad("trace", "parts longer than the whole");
  if (iter_ms > I->total + 1e-3 * (main.size() + 1)) bad("trace", fmt("the rows' durations add up to %.3f ms, iterations took %.3f ms", iter_ms, I->total));
  if (logged) {
    int outer = 0, restorations = 0;
    for (size_t i = 0; i < log.size(); ++i) {
      outer += !log[i].inner;
      restorations += log[i].inner && (i == 0 || !log[i - 1].inner);
    }
    if (C->runs != outer) bad("trace", fmt("%d callback rounds shown, there were %d", C->runs, outer));
    bool extra = st == ExitStatus::LOCALLY_INFEASIBLE || st == ExitStatus::DIVERGING_ITERATES;
    if (I->runs != outer && !(extra && I->runs == outer + 1)) bad("trace", fmt("%d iterations shown, there were %d", I->runs, outer));
    if (FE->runs != I->runs) bad("trace", "feasibility checks");
    int dec = outer - (stopped && !last_inner);
    if (D->runs != dec) bad("trace", fmt("%d decompositions shown, %d expected", D->runs, dec));
    if (auto f = by.find("  ↳ feas. restoration"); f != by.end() && sol != "Newton") {
      if (f->second->runs != restorations && !(f->second->runs == restorations + 1 && !last_inner && st != ExitStatus::SUCCESS))
        bad("trace", fmt("%d restorations shown, there were %d", f->second->runs, restorations));
      R.count("restorations", restorations);
    }
    if (auto f = by.find("    ↳ SOC"); f != by.end()) {
      int acc = 0;
      for (size_t i = 0; i + 1 < rows.size(); ++i) acc += rows[i].type == 's' && rows[i + 1].type == ' ';
      if (f->second->runs < acc) bad("trace", fmt("%d corrections timed, %d accepted", f->second->runs, acc));
    }
  }
  for (auto nm : {"  ↳ f(x)", "  ↳ ∇f(x)", "  ↳ ∇²ₓₓL"})
    if (auto f = by.find(nm); f != by.end() && f->second->runs < I->runs - 1) bad("trace", std::string("evaluations of") + nm);
  R.count("solver traces checked");
  R.nontrivial(hash_str(fmt("%d %s %zu %d %d %d", int(st), sol.c_str(), rows.size(), n, me, mi) + (rows.empty() ? "" : rows.back().text.substr(20))));
}

slp::Options options(Rng& g) {
  slp::Options o;
  if (g.chance(0.3)) o.tolerance = std::pow(10, g.in(-9, -3));
  if (g.chance(0.25)) o.max_iterations = g.in(1, 12);
  if (g.chance(0.5)) o.timeout = std::chrono::duration<double>(g.in(1, 9) * 1e5);
  if (g.chance(0.03)) o.timeout = std::chrono::duration<double>(0);
  if (g.chance(0.15)) o.feasible_ipm = true;
  return o;
}

void solve_case(Rng& g) {
  int how = g.in(0, 9);
  Prob q = how < 3 ? gen_convex(g, 5).q : gen_nonconvex(g, 5);
  if (how == 9) {  // leads to feasibility restoration
    q = Prob{};
    q.n = 2;
    double a = g.real(0.5, 2), c = g.real(0.5, 3);
    q.f = {{{P_LIN, 1, {1, 0}, 0}}};
    q.ce = {Fn{{{P_SQ, a, {1, 0}, 0}, {P_LIN, -1, {0, 1}, 0}, {P_CONST, 1, {}, 0}}}};
    q.ci = {Fn{{{P_LIN, -1, {0, 1}, -c}}}};
    q.x0 = DVec(2);
    q.x0 << g.real(1, 5), g.real(-2, 5);
  } else if (how == 8) {  // curved equalities far from the start: corrections
    q = Prob{};
    int n = q.n = g.in(2, 4);
    std::vector<double> a = random_dir(g, n);
    q.f.t.push_back({P_LIN, g.real(0.5, 2), a, 0});
    for (int i = 0; i < n; ++i) {
      std::vector<double> e(n, 0.0);
      e[i] = 1;
      q.f.t.push_back({P_SQ, g.real(0.1, 1.5), e, g.real(-2, 2)});
    }
    Fn c;
    for (int i = 0; i < n; ++i) {
      std::vector<double> e(n, 0.0);
      e[i] = 1;
      c.t.push_back({P_SQ, 1, e, 0});
    }
    c.t.push_back({P_CONST, -g.real(0.5, 4), {}, 0});
    q.ce = {c};
    if (g.chance(0.5)) q.ci.push_back(Fn{{{P_LIN, 1, random_dir(g, n), g.real(1, 4)}}});
    q.x0 = DVec(n);
    for (int i = 0; i < n; ++i) q.x0[i] = g.real(-3, 3);
  }
  check_solve(g, q, options(g), g.chance(0.1) ? g.in(0, 8) : -1, g.chance(0.92));
}

void error_case(Rng& g) {
  Prob q;
  int how = g.in(0, 4);
  int n = q.n = g.in(1, 4);
  q.x0 = DVec(n);
  for (int i = 0; i < n; ++i) q.x0[i] = g.in(-4, 4) * 0.5;
  std::vector<double> e0(n, 0.0);
  e0[g.in(0, n - 1)] = 1;
  if (g.chance(0.7)) q.f = {{{P_SQ, 1, e0, g.real(-1, 1)}}};
  else q.has_f = false;
  auto lin = [&](double off) { auto a = random_dir(g, n); return Fn{{{P_LIN, 1, a, -dot(a, q.x0) + off}}}; };
  if (how == 0) {  // too many equalities, some satisfied at the start
    int m = n + g.in(1, 3);
    for (int j = 0; j < m; ++j) q.ce.push_back(lin(g.in(-1, 1) * g.real(0.5, 2)));
    if (g.chance(0.4)) q.ci.push_back(lin(1));
  } else if (how == 1) {  // equalities without a common point
    auto f = lin(0);
    double off = g.real(0.5, 3) * (g.chance(0.5) ? 1 : -1);
    Fn h = f;
    h.t.push_back({P_CONST, off, {}, 0});
    if (n < 2) {  // 0 = c + u^2
      q.ce = {Fn{{{P_SQ, 1, e0, g.real(-1, 1)}, {P_CONST, g.real(0.5, 2) * (g.chance(0.5) ? 1 : -1), {}, 0}}}};
      if (q.ce[0].t[1].c < 0) q.ce[0].t[0].c = -1;
    } else {
      q.ce = {f, h};
      if (g.chance(0.5)) std::swap(q.ce[0], q.ce[1]);
    }
    if (g.chance(0.4)) q.ci.push_back(lin(1));
  } else if (how == 2) {  // inequalities without a common point
    q.ci.push_back(Fn{{{P_SQ, -1, e0, g.real(-1, 1)}, {P_CONST, -g.real(0.1, 2), {}, 0}}});
    for (int j = g.in(0, 2); j > 0; --j) q.ci.push_back(lin(g.real(-1, 2)));
    if (g.chance(0.5)) std::swap(q.ci[0], q.ci.back());
  } else if (how == 3) {  // conflicting bounds among others
    int m = g.in(2, 6);
    for (int j = 0; j < m; ++j) {
      std::vector<double> a(n, 0.0);
      a[g.in(0, n - 1)] = (g.chance(0.5) ? 1 : -1) * (g.chance(0.5) ? 1 : g.in(1, 8) * 0.25);
      if (n > 1 && g.chance(0.15)) a = random_dir(g, n, 1);
      q.ci.push_back(Fn{{{P_LIN, 1, a, g.in(-6, 6) * 0.5}}});
    }
    if (g.chance(0.3)) q.ce.push_back(lin(0));
  } else {  // not finite at the start, or nothing to do
    if (g.chance(0.5)) {
      q.f = {{{P_LOG, 1, e0, -dot(e0, q.x0) - g.in(0, 2)}}};
      q.has_f = true;
      if (g.chance(0.5)) q.ce.push_back(lin(1));
      if (g.chance(0.5)) q.ci.push_back(lin(1));
    } else {
      q.has_f = g.chance(0.5);
      q.f = {{{P_CONST, g.real(-1, 1), {}, 0}}};
      if (g.chance(0.5)) q.ci.push_back(Fn{{{P_CONST, g.real(-1, 1), {}, 0}}});
      if (g.chance(0.5)) q.ce.push_back(Fn{{{P_CONST, g.chance(0.5) ? 0.0 : 1.0, {}, 0}}});
    }
  }
  check_solve(g, q, options(g), -1, g.chance(0.9));
}

void silent_case(Rng& g) {
  Prob q = g.chance(0.4) ? gen_convex(g, 4).q : gen_nonconvex(g, 4);
  if (g.chance(0.3)) {
    q.ce.clear();
    for (int j = 0; j <= q.n; ++j) q.ce.push_back(Fn{{{P_LIN, 1, random_dir(g, q.n), 1.0 + j}}});
  }
  auto b = build(g, q);
  ExitStatus st;
  {
    Capture c("diag.txt");
    auto o = options(g);
    o.diagnostics = false;
    st = b->p.solve(o);
  }
  auto L = read_lines("diag.txt");
  if (!L.empty()) R.fail("silent", fmt("%zu lines printed with diagnostics off, first \"%s\" (%s)", L.size(), L[0].c_str(), status_name(st)));
  R.count("silent solves");
}

void text_case(Rng& g) {
  // regularization as a power of ten: the exponent's whole part
  double e = g.real(-30, 30), v = std::pow(10, e);
  double got;
  std::string t = slp::power_of_10(v), u = t;
  while (!u.empty() && u[0] == ' ') u = u.substr(1);
  int want = int(std::log10(v));
  if (!power_text(u, got) || (got != want && std::fabs(e - std::round(e)) > 1e-9))
    R.fail("power", fmt("%g shown as '%s'", v, t.c_str()));
  if (slp::power_of_10(0.0) != " 0" || slp::power_of_10(1.0) != " 1" || slp::power_of_10(10.0) != "10") R.fail("power", "0, 1 or 10");
  int p = g.in(-18, 18);
  u = slp::power_of_10(std::pow(10.0, p));
  while (!u.empty() && u[0] == ' ') u = u.substr(1);
  if (!power_text(u, got) || std::fabs(got - p) > 0) {
    if (int(std::log10(std::pow(10.0, p))) == p) R.fail("power", fmt("1e%d shown as '%s'", p, u.c_str()));
  }
  // bars
  double s = g.chance(0.2) ? g.in(0, 72) / 72.0 : g.real(-0.2, 1.2);
  if (!bar_ok(slp::histogram<9>(s), s - 1e-12, s + 1e-12)) R.fail("bar", fmt("share %.17g shown as '%s'", s, slp::histogram<9>(s).c_str()));
  R.nontrivial(hash_str(fmt("%.3g %.3g", v, s)));
  R.count("texts checked");
}

void profiler_case(Rng& g) {
  slp::SolveProfiler p{"x"};
  int n = g.in(1, 12);
  double sum = 0;
  using clock = std::chrono::steady_clock;
  for (int i = 0; i < n; ++i) {
    auto t0 = clock::now();
    clock::time_point t1, t2;
    if (g.chance(0.5)) {
      p.start();
      t1 = clock::now();
      while (clock::now() - t1 < std::chrono::microseconds(g.in(0, 200))) {}
      t2 = clock::now();
      p.stop();
    } else {
      slp::ScopedProfiler<slp::SolveProfiler> s{p};
      t1 = clock::now();
      while (clock::now() - t1 < std::chrono::microseconds(g.in(0, 200))) {}
      t2 = clock::now();
      if (g.chance(0.5)) s.stop();
      if (g.chance(0.3)) { auto m = std::move(s); }
    }
    auto t3 = clock::now();
    double cur = p.current_duration().count(), lo = std::chrono::duration<double>(t2 - t1).count(), hi = std::chrono::duration<double>(t3 - t0).count();
    sum += cur;
    if (cur < lo - 1e-9 || cur > hi + 1e-9) R.fail("profiler", fmt("a span between %g and %g s was measured as %g s", lo, hi, cur));
    if (p.num_solves() != i + 1) R.fail("profiler", fmt("%d spans counted as %d", i + 1, p.num_solves()));
    if (std::fabs(p.total_duration().count() - sum) > 1e-12 + 1e-9 * sum) R.fail("profiler", "total is not the sum");
    if (std::fabs(p.average_duration().count() * (i + 1) - sum) > 1e-12 + 1e-9 * sum) R.fail("profiler", "average is not the mean");
  }
  slp::SetupProfiler q{"y"};
  auto t0 = clock::now();
  q.start();
  auto t1 = clock::now();
  while (clock::now() - t1 < std::chrono::microseconds(50)) {}
  auto t2 = clock::now();
  q.stop();
  auto t3 = clock::now();
  double d = q.duration().count();
  if (d < std::chrono::duration<double>(t2 - t1).count() - 1e-9 || d > std::chrono::duration<double>(t3 - t0).count() + 1e-9) R.fail("profiler", "setup span");
  if (p.name() != "x" || q.name() != "y") R.fail("profiler", "names");
  R.nontrivial(mix(n) ^ mix(uint64_t(sum * 1e6)));
  R.count("spans measured", n + 1);
}

}  // namespace

int main(int argc, char** argv) {
  R.init(argc, argv);
  R.cases("solve", 4000, solve_case);
  R.cases("error", 3000, error_case);
  R.cases("silent", 600, silent_case);
  R.cases("text", 4000, text_case);
  R.cases("profiler", 300, profiler_case);
  R.finish();
}
