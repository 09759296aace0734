// In-process probe over scram's library API.
//   probe expr  OUT trials seed mission_time allow_extern file...
//       dumps every parameter: value, interval, deviate flag, samples per trial
//   probe multi OUTPREFIX spec... -- file...
//       one model, several analyses with different settings; each writes
//       OUTPREFIX<i>.xml, and the model state is dumped after each.
//   serialize DEST file...
//       saves the loaded model to a file
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>

#include "error.h"
#include "expression.h"
#include "expression/random_deviate.h"
#include "initializer.h"
#include "model.h"
#include "reporter.h"
#include "risk_analysis.h"
#include "serialization.h"
#include "settings.h"

namespace {

using scram::core::Settings;

void DumpState(std::FILE* out, scram::mef::Model* model) {
  std::fprintf(out, "mission-time %.17g\n", model->mission_time().value());
  for (auto& h : model->house_events())
    std::fprintf(out, "house %s %d\n", h.id().c_str(), h.state() ? 1 : 0);
  for (auto& b : model->basic_events())
    if (b.HasExpression())
      std::fprintf(out, "basic %s %.17g\n", b.id().c_str(), b.p());
  for (auto& cp : model->parameters()) {
    auto& p = const_cast<scram::mef::Parameter&>(cp);
    std::fprintf(out, "param %s %.17g\n", p.id().c_str(), p.value());
  }
  for (auto& g : model->gates()) {
    std::fprintf(out, "gate %s %d", g.id().c_str(), static_cast<int>(g.formula().connective()));
    for (const auto& arg : g.formula().args()) {
      std::fprintf(out, " %s", arg.complement ? "~" : "");
      std::visit([&](const auto* event) { std::fprintf(out, "%s", event->id().c_str()); }, arg.event);
    }
    std::fprintf(out, "\n");
  }
}

void Apply(const std::string& spec, Settings* s) {
  std::size_t pos = 0;
  while (pos < spec.size()) {
    std::size_t end = spec.find(',', pos);
    if (end == std::string::npos) end = spec.size();
    std::string item = spec.substr(pos, end - pos);
    pos = end + 1;
    std::size_t eq = item.find('=');
    std::string key = item.substr(0, eq), val = eq == std::string::npos ? "1" : item.substr(eq + 1);
    if (key == "algorithm") s->algorithm(val);
    else if (key == "approximation") s->approximation(val);
    else if (key == "prime") s->prime_implicants(val == "1");
    else if (key == "probability") s->probability_analysis(val == "1");
    else if (key == "importance") s->importance_analysis(val == "1");
    else if (key == "uncertainty") s->uncertainty_analysis(val == "1");
    else if (key == "ccf") s->ccf_analysis(val == "1");
    else if (key == "sil") s->safety_integrity_levels(val == "1");
    else if (key == "limit") s->limit_order(std::atoi(val.c_str()));
    else if (key == "seed") s->seed(std::atoi(val.c_str()));
    else if (key == "trials") s->num_trials(std::atoi(val.c_str()));
    else if (key == "quantiles") s->num_quantiles(std::atoi(val.c_str()));
    else if (key == "bins") s->num_bins(std::atoi(val.c_str()));
    else if (key == "mission") s->mission_time(std::atof(val.c_str()));
    else if (key == "step") s->time_step(std::atof(val.c_str()));
    else if (key == "") {}
    else std::exit(96);
  }
}

int Expr(const std::vector<std::string>& a) {
  std::FILE* out = std::fopen(a.at(1).c_str(), "w");
  if (!out) return 95;
  int trials = std::atoi(a.at(2).c_str());
  unsigned seed = std::strtoul(a.at(3).c_str(), nullptr, 10);
  Settings settings;
  settings.mission_time(std::atof(a.at(4).c_str()));
  settings.probability_analysis(true);
  bool ext = a.at(5) == "1";
  std::vector<std::string> files(a.begin() + 6, a.end());
  auto model = scram::mef::Initializer(files, settings, ext).model();
  for (auto& cp : model->parameters()) {
    auto& p = const_cast<scram::mef::Parameter&>(cp);
    auto interval = p.interval();
    std::fprintf(out, "param %s %.17g %.17g %.17g %d\n", p.id().c_str(),
                 p.value(), interval.lower(), interval.upper(),
                 p.IsDeviate() ? 1 : 0);
  }
  for (auto& b : model->basic_events())
    if (b.HasExpression()) std::fprintf(out, "basic %s %.17g\n", b.id().c_str(), b.p());
  scram::mef::RandomDeviate::seed(seed);
  std::vector<scram::mef::Parameter*> ps;
  for (auto& p : model->parameters()) ps.push_back(const_cast<scram::mef::Parameter*>(&p));
  for (int i = 0; i < trials; ++i) {
    for (auto* p : ps) p->Reset();
    std::fprintf(out, "trial");
    for (auto* p : ps) std::fprintf(out, " %.17g", p->Sample());
    std::fprintf(out, "\n");
    bool same = true;
    std::string bad;
    for (auto* p : ps) {
      double one = p->Sample(), two = p->Sample();
      if (!(one == two || (std::isnan(one) && std::isnan(two)))) {
        same = false;
        bad = p->id();
      }
    }
    if (!same) std::fprintf(out, "unstable %d %s\n", i, bad.c_str());
  }
  for (auto* q : ps) {  // Sampling must not disturb values.
    auto& p = *q;
    std::fprintf(out, "after %s %.17g\n", p.id().c_str(), p.value());
  }
  std::fprintf(out, "end\n");
  std::fclose(out);
  return 0;
}

int Multi(const std::vector<std::string>& a) {
  std::string prefix = a.at(1);
  std::size_t i = 2;
  std::vector<std::string> specs;
  for (; i < a.size() && a[i] != "--"; ++i) specs.push_back(a[i]);
  std::vector<std::string> files(a.begin() + i + 1, a.end());
  Settings init;
  Apply(specs.at(0), &init);  // The first spec also configures loading.
  auto model = scram::mef::Initializer(files, init, false).model();
  std::FILE* st = std::fopen((prefix + "state.txt").c_str(), "w");
  std::fprintf(st, "@@state loaded\n");
  DumpState(st, model.get());
  for (std::size_t k = 1; k < specs.size(); ++k) {
    Settings s;
    Apply(specs[k], &s);
    scram::core::RiskAnalysis analysis(model.get(), s);
    analysis.Analyze();
    scram::Reporter().Report(analysis, prefix + std::to_string(k) + ".xml", true);
    std::fprintf(st, "@@state %d\n", static_cast<int>(k));
    DumpState(st, model.get());
  }
  std::fprintf(st, "@@end\n");
  std::fclose(st);
  return 0;
}

}  // namespace

int probe_main(const std::vector<std::string>& a) {
  try {
    if (a.at(0) == "expr") return Expr(a);
    if (a.at(0) == "multi") return Multi(a);
    if (a.at(0) == "serialize") {  // serialize DEST file...
      auto model = scram::mef::Initializer({a.begin() + 2, a.end()}, Settings(), false).model();
      scram::mef::Serialize(*model, a.at(1));
      return 0;
    }
  } catch (const scram::Error& e) {
    std::cerr << "PROBE-ERROR " << boost::diagnostic_information(e) << std::endl;
    return 1;
  } catch (const std::exception& e) {
    std::cerr << "PROBE-EXCEPTION " << e.what() << std::endl;
    return 1;
  }
  return 94;
}
