// The C++ library as the reference of the Python problem checks: reads problem
// descriptions (one word after another), answers with one line of JSON each.
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>

#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>

using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

static void num(std::string& o, double v) {
  char b[40];
  if (std::isnan(v)) o += "NaN";
  else if (std::isinf(v)) o += v > 0 ? "Infinity" : "-Infinity";
  else std::snprintf(b, sizeof b, "%.17g", v), o += b;
}
template <typename T>
static void vec(std::string& o, const T& v) {
  o += '[';
  for (int i = 0; i < v.size(); ++i) o += i ? "," : "", num(o, v[i]);
  o += ']';
}
template <typename T>
static void mat(std::string& o, const T& m) {
  Eigen::MatrixXd d = m;
  o += "[" + std::to_string(d.rows()) + "," + std::to_string(d.cols());
  for (int i = 0; i < d.rows(); ++i)
    for (int j = 0; j < d.cols(); ++j) o += ',', num(o, d(i, j));
  o += ']';
}

static std::string quoted(slp::ExitStatus s) {
  using enum slp::ExitStatus;
  switch (s) {
    case SUCCESS: return "\"SUCCESS\"";
    case CALLBACK_REQUESTED_STOP: return "\"CALLBACK_REQUESTED_STOP\"";
    case TOO_FEW_DOFS: return "\"TOO_FEW_DOFS\"";
    case LOCALLY_INFEASIBLE: return "\"LOCALLY_INFEASIBLE\"";
    case GLOBALLY_INFEASIBLE: return "\"GLOBALLY_INFEASIBLE\"";
    case FACTORIZATION_FAILED: return "\"FACTORIZATION_FAILED\"";
    case LINE_SEARCH_FAILED: return "\"LINE_SEARCH_FAILED\"";
    case FEASIBILITY_RESTORATION_FAILED: return "\"FEASIBILITY_RESTORATION_FAILED\"";
    case NONFINITE_INITIAL_GUESS: return "\"NONFINITE_INITIAL_GUESS\"";
    case DIVERGING_ITERATES: return "\"DIVERGING_ITERATES\"";
    case MAX_ITERATIONS_EXCEEDED: return "\"MAX_ITERATIONS_EXCEEDED\"";
    case TIMEOUT: return "\"TIMEOUT\"";
  }
  return "\"?\"";
}
static std::string quoted(slp::ExpressionType t) {
  using enum slp::ExpressionType;
  return t == NONE ? "\"NONE\"" : t == CONSTANT ? "\"CONSTANT\"" : t == LINEAR ? "\"LINEAR\"" : t == QUADRATIC ? "\"QUADRATIC\"" : "\"NONLINEAR\"";
}

static V apply(const std::string& op, std::vector<V>& n, std::istream& in) {
  auto get = [&]() -> V& { size_t i; in >> i; return n.at(i); };
  if (op == "k") { double k; in >> k; return V{k}; }
  V a = get();
  if (op == "neg") return -a;
  if (op == "sin") return slp::sin(a);
  if (op == "cos") return slp::cos(a);
  if (op == "exp") return slp::exp(a);
  if (op == "sqrt") return slp::sqrt(a);
  if (op == "log") return slp::log(a);
  if (op == "sq") return slp::pow(a, 2);
  if (op == "cube") return slp::pow(a, 3);
  if (op == "+k") { double k; in >> k; return a + k; }
  if (op == "*k") { double k; in >> k; return a * k; }
  if (op == "k-") { double k; in >> k; return k - a; }
  V b = get();
  if (op == "+") return a + b;
  if (op == "-") return a - b;
  if (op == "*") return a * b;
  if (op == "/") return a / b;
  if (op == "hypot") return slp::hypot(a, b);
  std::cerr << "unknown operation " << op << "\n";
  exit(3);
}

int main() {
  std::ios::sync_with_stdio(false);
  std::string w;
  while (std::cin >> w) {
    if (w != "problem") return 3;
    std::vector<V> n;
    std::unique_ptr<slp::Problem<double>> pp;
    slp::OCP<double>* ocp = nullptr;
    std::string out = "[";
    bool first = true;
    int stop = -1;
    auto answer = [&](const std::string& s) { out += first ? "" : ",", out += s, first = false; };
    auto push = [&](const VM& m) {
      for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j) n.push_back(V{m[i, j]});
    };
    auto scal = [&]() -> V { size_t i; std::cin >> i; return n.at(i); };
    // a matrix of nodes, row by row
    auto take = [&]() -> VM {
      int r, c;
      std::cin >> r >> c;
      VM m(r, c);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) m[i, j] = scal();
      return m;
    };
    pp = std::make_unique<slp::Problem<double>>();
    while (std::cin >> w && w != "end") {
      auto& p = *pp;
      if (w == "dv") {
        int r, c;
        std::cin >> r >> c;
        if (r == 0) n.push_back(p.decision_variable());
        else push(p.decision_variable(r, c));
      } else if (w == "sdv") {
        int r;
        std::cin >> r;
        push(p.symmetric_decision_variable(r));
      } else if (w == "x") {
        V v = scal();
        std::string k;
        std::cin >> k;
        v.set_value(std::stod(k));
      } else if (w == "min") p.minimize(scal());
      else if (w == "max") p.maximize(scal());
      else if (w == "eq") { VM a = take(); p.subject_to(a == take()); }
      else if (w == "le") { VM a = take(); p.subject_to(a <= take()); }
      else if (w == "ge") { VM a = take(); p.subject_to(a >= take()); }
      else if (w == "bnd") { VM a = take(), b = take(); p.subject_to(slp::bounds(a, b, take())); }
      else if (w == "stop") std::cin >> stop;
      else if (w == "value") { std::string s; num(s, scal().value()); answer(s); }
      else if (w == "types") answer("[" + quoted(p.cost_function_type()) + "," + quoted(p.equality_constraint_type()) + "," + quoted(p.inequality_constraint_type()) + "]");
      else if (w == "ocp") {
        // ocp states inputs dt steps dynamics type timestep transcription, then
        // the dynamics: for each row of the result, an expression over x and u
        int ns, nu, N, rows;
        std::string type, ts, tr;
        double dt;
        std::cin >> ns >> nu >> dt >> N >> type >> ts >> tr >> rows;
        std::vector<std::vector<std::vector<std::string>>> prog(rows);
        for (auto& r : prog) {
          size_t k;
          std::cin >> k;
          r.resize(k);
          for (auto& op : r) {
            size_t m;
            std::cin >> m;
            op.resize(m);
            for (auto& t : op) std::cin >> t;
          }
        }
        auto dyn = [&](const VM& x, const VM& u) -> VM {
          VM o(rows, 1);
          for (int r = 0; r < rows; ++r) {
            std::vector<V> s;
            for (int i = 0; i < x.rows(); ++i) s.push_back(V{x[i, 0]});
            for (int i = 0; i < u.rows(); ++i) s.push_back(V{u[i, 0]});
            for (auto& op : prog[r]) {
              std::string rest;
              for (size_t i = 1; i < op.size(); ++i) rest += op[i] + " ";
              std::istringstream is{rest};
              s.push_back(apply(op[0], s, is));
            }
            o[r, 0] = s.back();
          }
          return o;
        };
        auto q = std::make_unique<slp::OCP<double>>(ns, nu, std::chrono::duration<double>{dt}, N, slp::function_ref<VM(const VM&, const VM&)>{dyn}, 
            type == "DISCRETE" ? slp::DynamicsType::DISCRETE : slp::DynamicsType::EXPLICIT_ODE,
            ts == "FIXED" ? slp::TimestepMethod::FIXED : ts == "VARIABLE" ? slp::TimestepMethod::VARIABLE : slp::TimestepMethod::VARIABLE_SINGLE,
            tr == "DIRECT_TRANSCRIPTION" ? slp::TranscriptionMethod::DIRECT_TRANSCRIPTION : tr == "DIRECT_COLLOCATION" ? slp::TranscriptionMethod::DIRECT_COLLOCATION : slp::TranscriptionMethod::SINGLE_SHOOTING);
        ocp = q.get();
        pp = std::move(q);
        push(ocp->X()), push(ocp->U()), push(ocp->dt());
      } else if (w == "initial") ocp->constrain_initial_state(take());
      else if (w == "final") ocp->constrain_final_state(take());
      else if (w == "lower") ocp->set_lower_input_bound(take());
      else if (w == "upper") ocp->set_upper_input_bound(take());
      else if (w == "mindt") { double k; std::cin >> k; ocp->set_min_timestep(std::chrono::duration<double>{k}); }
      else if (w == "maxdt") { double k; std::cin >> k; ocp->set_max_timestep(std::chrono::duration<double>{k}); }
      else if (w == "solve") {
        slp::Options o;
        std::string timeout;
        int feas;
        std::cin >> o.tolerance >> o.max_iterations >> timeout >> feas;
        if (timeout != "inf") o.timeout = std::chrono::duration<double>{std::stod(timeout)};
        o.feasible_ipm = feas;
        std::string its = "[";
        int count = 0;
        p.clear_callbacks();
        p.add_callback([&](const slp::IterationInfo<double>& i) -> bool {
          if (count < 40) {
            its += count ? ",{" : "{";
            its += "\"iteration\":" + std::to_string(i.iteration);
            its += ",\"x\":", vec(its, i.x), its += ",\"s\":", vec(its, i.s), its += ",\"y\":", vec(its, i.y), its += ",\"z\":", vec(its, i.z);
            its += ",\"g\":", mat(its, i.g), its += ",\"H\":", mat(its, i.H), its += ",\"A_e\":", mat(its, i.A_e), its += ",\"A_i\":", mat(its, i.A_i);
            its += "}";
          }
          return count++ == stop;
        });
        auto st = p.solve(o);
        p.clear_callbacks();
        answer("{\"status\":" + quoted(st) + ",\"count\":" + std::to_string(count) + ",\"iterations\":" + its + "]}");
      } else {
        n.push_back(apply(w, n, std::cin));
      }
    }
    std::cout << out << "]" << std::endl;
  }
}
