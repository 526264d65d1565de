// Reading and writing JSON text as jsoncpp does (strict; rejects what is not UTF-8).
#pragma once

#include <json/json.h>

#include <cstdio>
#include <cstdlib>

namespace simcpp {

class Reader {
public:
  explicit Reader(const std::string& text) : s_(text) {}

  bool read(Json::Value* out) {
    try {
      value(out, 0);
      space();
      return at_ == s_.size();
    } catch (const Json::RuntimeError&) {
      return false;
    }
  }

private:
  [[noreturn]] void fail() { throw Json::RuntimeError("not JSON"); }
  void space() {
    while (at_ < s_.size() && (s_[at_] == ' ' || s_[at_] == '\n' || s_[at_] == '\t' || s_[at_] == '\r')) {
      ++at_;
    }
  }
  char peek() { return at_ < s_.size() ? s_[at_] : '\0'; }
  void expect(char c) {
    if (at_ >= s_.size() || s_[at_] != c) {
      fail();
    }
    ++at_;
  }
  void word(const char* w) {
    for (; *w; ++w) {
      expect(*w);
    }
  }
  void value(Json::Value* out, int depth) {
    if (depth > 900) {
      fail();
    }
    space();
    switch (peek()) {
      case '{': {
        ++at_;
        *out = Json::Value(Json::objectValue);
        space();
        if (peek() == '}') {
          ++at_;
          return;
        }
        for (;;) {
          space();
          std::string key;
          string(&key);
          space();
          expect(':');
          Json::Value item;
          value(&item, depth + 1);
          (*out)[key] = std::move(item);
          space();
          if (peek() == ',') {
            ++at_;
            continue;
          }
          expect('}');
          return;
        }
      }
      case '[': {
        ++at_;
        *out = Json::Value(Json::arrayValue);
        space();
        if (peek() == ']') {
          ++at_;
          return;
        }
        for (;;) {
          Json::Value item;
          value(&item, depth + 1);
          out->append(std::move(item));
          space();
          if (peek() == ',') {
            ++at_;
            continue;
          }
          expect(']');
          return;
        }
      }
      case '"': {
        std::string text;
        string(&text);
        *out = Json::Value(text);
        return;
      }
      case 't':
        word("true");
        *out = Json::Value(true);
        return;
      case 'f':
        word("false");
        *out = Json::Value(false);
        return;
      case 'n':
        word("null");
        *out = Json::Value();
        return;
      default:
        number(out);
    }
  }
  void digits() {
    if (!(peek() >= '0' && peek() <= '9')) {
      fail();
    }
    while (peek() >= '0' && peek() <= '9') {
      ++at_;
    }
  }
  void number(Json::Value* out) {
    const size_t start = at_;
    bool real = false;
    if (peek() == '-') {
      ++at_;
    }
    if (peek() == '0') {
      ++at_;
    } else {
      digits();
    }
    if (peek() == '.') {
      real = true;
      ++at_;
      digits();
    }
    if (peek() == 'e' || peek() == 'E') {
      real = true;
      ++at_;
      if (peek() == '+' || peek() == '-') {
        ++at_;
      }
      digits();
    }
    const std::string text = s_.substr(start, at_ - start);
    if (!real) {
      errno = 0;
      if (text[0] == '-') {
        const long long v = strtoll(text.c_str(), nullptr, 10);
        if (errno == 0) {
          *out = Json::Value(static_cast<Json::Int64>(v));
          return;
        }
      } else {
        const unsigned long long v = strtoull(text.c_str(), nullptr, 10);
        if (errno == 0) {
          if (v <= static_cast<unsigned long long>(INT64_MAX)) {
            *out = Json::Value(static_cast<Json::Int64>(v));
          } else {
            *out = Json::Value(static_cast<Json::UInt64>(v));
          }
          return;
        }
      }
    }
    const double d = strtod(text.c_str(), nullptr);
    if (d - d != 0) {
      fail();
    }
    *out = Json::Value(d);
  }
  unsigned hex4() {
    unsigned v = 0;
    for (int i = 0; i < 4; ++i) {
      const char c = peek();
      ++at_;
      v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99999);
      if (v >= 99999) {
        fail();
      }
    }
    return v;
  }
  static void utf8(std::string* out, unsigned c) {
    if (c < 0x80) {
      *out += static_cast<char>(c);
    } else if (c < 0x800) {
      *out += static_cast<char>(0xC0 | c >> 6);
      *out += static_cast<char>(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
      *out += static_cast<char>(0xE0 | c >> 12);
      *out += static_cast<char>(0x80 | (c >> 6 & 0x3F));
      *out += static_cast<char>(0x80 | (c & 0x3F));
    } else {
      *out += static_cast<char>(0xF0 | c >> 18);
      *out += static_cast<char>(0x80 | (c >> 12 & 0x3F));
      *out += static_cast<char>(0x80 | (c >> 6 & 0x3F));
      *out += static_cast<char>(0x80 | (c & 0x3F));
    }
  }
  void string(std::string* out) {
    expect('"');
    for (;;) {
      if (at_ >= s_.size()) {
        fail();
      }
      const unsigned char c = s_[at_++];
      if (c == '"') {
        return;
      }
      if (c == '\\') {
        const char e = peek();
        ++at_;
        switch (e) {
          case '"': case '\\': case '/': *out += e; break;
          case 'b': *out += '\b'; break;
          case 'f': *out += '\f'; break;
          case 'n': *out += '\n'; break;
          case 'r': *out += '\r'; break;
          case 't': *out += '\t'; break;
          case 'u': {
            unsigned v = hex4();
            if (v >= 0xD800 && v < 0xDC00) {
              expect('\\');
              expect('u');
              const unsigned low = hex4();
              if (low < 0xDC00 || low > 0xDFFF) {
                fail();
              }
              v = 0x10000 + ((v - 0xD800) << 10) + (low - 0xDC00);
            } else if (v >= 0xDC00 && v < 0xE000) {
              fail();
            }
            utf8(out, v);
            break;
          }
          default:
            fail();
        }
      } else if (c < 0x20) {
        fail();
      } else if (c < 0x80) {
        *out += static_cast<char>(c);
      } else {
        const int more = c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
        if (more < 0) {
          fail();
        }
        unsigned v = c & (0x3F >> more);
        *out += static_cast<char>(c);
        for (int i = 0; i < more; ++i) {
          const unsigned char n = at_ < s_.size() ? s_[at_] : 0;
          if ((n & 0xC0) != 0x80) {
            fail();
          }
          v = v << 6 | (n & 0x3F);
          *out += static_cast<char>(n);
          ++at_;
        }
        if ((more == 2 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (more == 3 && (v < 0x10000 || v > 0x10FFFF))) {
          fail();
        }
      }
    }
  }

  const std::string& s_;
  size_t at_ = 0;
};

inline bool read_json(const std::string& text, Json::Value* out) { return Reader(text).read(out); }

inline std::string quote(const std::string& text) {
  static const char* hex = "0123456789abcdef";
  std::string out = "\"";
  for (size_t i = 0; i < text.size(); ++i) {
    const unsigned char c = text[i];
    if (c == '"' || c == '\\') {
      out += '\\';
      out += static_cast<char>(c);
    } else if (c < 0x20 || c == 0x7F) {
      out += "\\u00";
      out += hex[c >> 4];
      out += hex[c & 15];
    } else {
      out += static_cast<char>(c);
    }
  }
  return out + "\"";
}

inline void write_json(const Json::Value& v, std::string* out) {
  switch (v.type()) {
    case Json::nullValue:
      *out += "null";
      break;
    case Json::intValue:
      *out += std::to_string(v.asInt64());
      break;
    case Json::uintValue:
      *out += std::to_string(v.asUInt64());
      break;
    case Json::realValue: {
      char buffer[40];
      snprintf(buffer, sizeof(buffer), "%.17g", v.asDouble());
      *out += buffer;
      if (std::string(buffer).find_first_not_of("-0123456789") == std::string::npos) {
        *out += ".0";
      }
      break;
    }
    case Json::stringValue:
      *out += quote(v.asString());
      break;
    case Json::booleanValue:
      *out += v.asBool() ? "true" : "false";
      break;
    case Json::arrayValue: {
      *out += '[';
      for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
        *out += i ? "," : "";
        write_json(v[i], out);
      }
      *out += ']';
      break;
    }
    default: {
      *out += '{';
      bool first = true;
      for (Json::ValueConstIterator it = v.begin(); it != v.end(); ++it) {
        *out += first ? "" : ",";
        first = false;
        *out += quote(it.name()) + ":";
        write_json(*it, out);
      }
      *out += '}';
    }
  }
}

}  // namespace simcpp
