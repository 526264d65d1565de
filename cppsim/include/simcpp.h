// What the runtime and the driver of one generated package know of each other.
#pragma once

#include <json/json.h>

#include <chrono>
#include <cstdio>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace simcpp {

struct Outcome {
  bool accepted = false;
  bool full = false;
  std::vector<std::pair<std::string, std::string>> errors;
};

// The generated package under test.
struct Entry {
  void* (*create)();
  void (*destroy)(void*);
  void* (*parse)(const Json::Value& value, const std::string& ref, void* graph, size_t cap);  // -> errors
  void (*outcome)(void* errors, Outcome* out);  // releases the errors
  Json::Value (*serialize)(const void* graph);
  void (*dump)(const void* graph, std::string* out);
};

extern const Entry entry;

std::string quoted(const std::string& text);

// -- writing a graph down -------------------------------------------------------------------------------------------

struct Writer {
  std::string* out;
  std::map<const void*, std::string> labels;  // registered instances
  void text(const std::string& s) { *out += s; }
};

inline void write(Writer& w, bool v) { w.text(v ? "true" : "false"); }
inline void write(Writer& w, int64_t v) { w.text(std::to_string(v)); }
inline void write(Writer& w, double v) {
  char buffer[40];
  snprintf(buffer, sizeof(buffer), "%.17g", v);
  w.text(buffer);
}
inline void write(Writer& w, const std::string& v) { w.text(quoted(v)); }
inline void write(Writer& w, const std::chrono::nanoseconds& v) { w.text(std::to_string(v.count()) + "ns"); }
inline void write(Writer& w, const struct tm& v) {
  char buffer[200];
  snprintf(buffer, sizeof(buffer), "tm(%d %d %d %d %d %d)", v.tm_year, v.tm_mon, v.tm_mday, v.tm_hour, v.tm_min,
           v.tm_sec);
  w.text(buffer);
}

}  // namespace simcpp
