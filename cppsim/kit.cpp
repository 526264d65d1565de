// Answers questions about the C++ libraries that generated code relies on.
#include <json/json.h>
#include <date/date.h>

#include <ctime>
#include <iomanip>
#include <iostream>
#include <regex>
#include <sstream>

#include "json_text.h"

using simcpp::quote;

static std::string fields(const struct tm& t) {
  std::ostringstream out;
  out << t.tm_year << " " << t.tm_mon << " " << t.tm_mday << " " << t.tm_hour << " " << t.tm_min << " " << t.tm_sec;
  return out.str();
}

template <typename T, typename U>
static std::string with_date_h(const std::string& format, const std::string& text, U number) {
  T target{};
  std::istringstream in(text);
  in >> date::parse(format, target);
  const bool failed = in.fail();
  const bool rest = !failed && in.peek() != std::istringstream::traits_type::eof();
  std::string out = "{\"ok\":" + std::string(failed ? "false" : "true") + ",\"rest\":" + (rest ? "true" : "false");
  if (!failed) {
    out += ",\"value\":" + quote(std::to_string(number(target)));
    std::ostringstream again;
    again << date::format(format, target);
    out += ",\"text\":" + quote(again.str());
  }
  return out + "}";
}

static std::string answer(const Json::Value& q) {
  const std::string op = q["op"].asString();
  const std::string text = q["text"].asString();
  if (op == "regex") {
    try {
      const std::regex re(q["pattern"].asString());
      return std::string("{\"ok\":") + (std::regex_match(text, re) ? "true" : "false") + "}";
    } catch (const std::regex_error& exc) {
      return "{\"bad\":" + quote(exc.what()) + "}";
    }
  }
  const std::string format = q["format"].asString();
  if (op == "ctime") {
    struct tm t = tm{0};
    const char* end = strptime(text.c_str(), format.c_str(), &t);
    if (end == nullptr || *end != '\0') {
      return "{\"ok\":false}";
    }
    char buffer[4096];
    const size_t n = strftime(buffer, sizeof(buffer), format.c_str(), &t);
    return "{\"ok\":true,\"value\":" + quote(fields(t)) + ",\"text\":" + quote(std::string(buffer, n)) + "}";
  }
  if (op == "date") {
    return with_date_h<date::local_days>(format, text, [](date::local_days d) { return d.time_since_epoch().count(); });
  }
  if (op == "datetime") {
    return with_date_h<date::local_seconds>(format, text,
                                            [](date::local_seconds d) { return d.time_since_epoch().count(); });
  }
  if (op == "time") {
    return with_date_h<std::chrono::seconds>(format, text, [](std::chrono::seconds d) { return d.count(); });
  }
  return "null";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    Json::Value q;
    if (!simcpp::read_json(line, &q)) {
      std::cout << "null" << std::endl;
    } else {
      std::cout << answer(q) << std::endl;
    }
  }
}
