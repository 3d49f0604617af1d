// Common main() for the drivers that run under the controlled scheduler.
#pragma once
#include "../engine/mc.h"

#include <cstdlib>
#include <cstring>
#include <chrono>
#include <string>
#include <vector>

struct Scenario {
  std::string prop, name;
  mc::Config quick, thorough;
  std::function<void()> body;
  bool thorough_only;
};
inline std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
// Adds a scenario deciding (part of) property `prop`.
inline void scenario(const std::string& prop, const std::string& name, mc::Config quick, mc::Config thorough, std::function<void()> body, bool thorough_only = false) {
  scenarios().push_back({prop, name, quick, thorough, std::move(body), thorough_only});
}
inline mc::Config cfg(int preempt, int crash = 0, int ticks = 0) {
  mc::Config c;
  c.preempt = preempt;
  c.crash = crash;
  c.ticks = ticks;
  return c;
}

void define_scenarios();  // by the driver

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}

int main(int argc, char** argv) {
  std::string prop, tier = "quick", json, rep, only;
  bool list = false, nocache = false;
  int P = -1, C = -1, T = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = next();
    else if (a == "--tier") tier = next();
    else if (a == "--json") json = next();
    else if (a == "--replay") rep = next();
    else if (a == "--only") only = next();
    else if (a == "--list") list = true;
    else if (a == "--nocache") nocache = true;
    else if (a == "-P") P = atoi(next().c_str());
    else if (a == "-C") C = atoi(next().c_str());
    else if (a == "-T") T = atoi(next().c_str());
  }
  define_scenarios();
  if (!rep.empty()) {
    for (auto& s : scenarios())
      for (auto* c : {&s.quick, &s.thorough}) {
        std::string nm = s.prop + "." + s.name + (c == &s.quick ? ".quick" : ".thorough");
        int r = mc::replay(rep, nm, *c, s.body);
        if (r >= 0) return r;
      }
    mc::die("no scenario matches the replay file");
  }
  FILE* jo = json.empty() ? nullptr : fopen(json.c_str(), "w");
  int rc = 0;
  if (jo) fprintf(jo, "[");
  bool first = true;
  for (auto& s : scenarios()) {
    if (list) {
      printf("%s %s\n", s.prop.c_str(), s.name.c_str());
      continue;
    }
    if (!prop.empty() && s.prop != prop) continue;
    if (!only.empty() && s.name != only) continue;
    if (s.thorough_only && tier != "thorough") continue;
    auto t0 = std::chrono::steady_clock::now();
    mc::Config c = tier == "thorough" ? s.thorough : s.quick;
    if (P >= 0) c.preempt = P;
    if (C >= 0) c.crash = C;
    if (T >= 0) c.ticks = T;
    if (nocache) c.cache = false;
    std::string nm = s.prop + "." + s.name + "." + tier;
    mc::Stats st = mc::explore(nm, c, s.body);
    double w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    printf("%s: %llu executions, %llu points, %llu traces, %llu outcomes, %llu pruned, %.2f s (P=%d C=%d T=%d)%s%s\n", nm.c_str(), (unsigned long long)st.execs, (unsigned long long)st.points, (unsigned long long)st.traces, (unsigned long long)st.outcomes, (unsigned long long)st.pruned, w, c.preempt, c.crash, c.ticks, st.violated ? " VIOLATED: " : "", st.message.c_str());
    fflush(stdout);
    if (jo) {
      fprintf(jo, "%s{\"scenario\":%s,\"executions\":%llu,\"points\":%llu,\"choices\":%llu,\"distinct\":%llu,\"outcomes\":%llu,\"maxpoints\":%llu,\"bounds\":\"%s %d, deaths %d, early expiries %d\",\"wall\":%.3f,\"violated\":%s,\"error\":%s,\"message\":%s,\"replay\":%s,\"samples\":[", first ? "" : ",\n", jstr(nm).c_str(), (unsigned long long)st.execs, (unsigned long long)st.points, (unsigned long long)st.choices, (unsigned long long)st.traces, (unsigned long long)st.outcomes, (unsigned long long)st.maxpoints, c.delay ? "delays" : "preemptions", c.preempt, c.crash, c.ticks, w, st.violated ? "true" : "false", st.error ? "true" : "false", jstr(st.message).c_str(), jstr(st.replay).c_str());
      for (size_t i = 0; i < st.samples.size(); i++) fprintf(jo, "%s%s", i ? "," : "", jstr(st.samples[i]).c_str());
      fprintf(jo, "]}");
      first = false;
    }
    if (st.error) {
      rc = 3;
      break;
    }
    if (st.violated) rc = 1;
  }
  if (jo) {
    fprintf(jo, "]\n");
    fclose(jo);
  }
  return rc;
}
