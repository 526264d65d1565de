// Walking over generated structures; included after the generated code.
#pragma once

namespace simcpp {

// declared first: the kinds nest in each other
template <typename T>
void write(Writer& w, const std::vector<T>& v);
template <typename T>
void write(Writer& w, const std::map<std::string, T>& v);
template <typename T>
void write(Writer& w, const boost::optional<T>& v);
template <typename T>
void write(Writer& w, const std::optional<T>& v);
template <typename T>
void write(Writer& w, const std::experimental::optional<T>& v);
template <typename T>
void write(Writer& w, T* const& v);
inline void write(Writer& w, const std::filesystem::path& v) { w.text(quoted(v.string())); }
inline void write(Writer& w, const boost::filesystem::path& v) { w.text(quoted(v.string())); }
inline void write(Writer& w, const date::time_zone* const& v) {
  w.text(v == nullptr ? "nullzone" : "zone(" + v->name() + ")");
}
template <typename D>
void write(Writer& w, const date::local_time<D>& v) {
  w.text("local(" + std::to_string(v.time_since_epoch().count()) + ")");
}
inline void write(Writer& w, const date::time_of_day<std::chrono::seconds>& v) {
  w.text("tod(" + std::to_string(v.to_duration().count()) + ")");
}

template <typename T>
void write(Writer& w, const std::vector<T>& v) {
  w.text("[");
  for (size_t i = 0; i < v.size(); ++i) {
    write(w, static_cast<const T&>(v[i]));
    w.text(" ");
  }
  w.text("]");
}
inline void write(Writer& w, const std::vector<bool>& v) {
  w.text("[");
  for (bool b : v) {
    write(w, b);
    w.text(" ");
  }
  w.text("]");
}
template <typename T>
void write(Writer& w, const std::map<std::string, T>& v) {
  w.text("{");
  for (const auto& kv : v) {
    w.text(quoted(kv.first) + ":");
    write(w, kv.second);
    w.text(" ");
  }
  w.text("}");
}
template <typename O>
void write_optional(Writer& w, const O& v) {
  if (!v) {
    w.text("none");
  } else {
    write(w, *v);
  }
}
template <typename T>
void write(Writer& w, const boost::optional<T>& v) {
  write_optional(w, v);
}
template <typename T>
void write(Writer& w, const std::optional<T>& v) {
  write_optional(w, v);
}
template <typename T>
void write(Writer& w, const std::experimental::optional<T>& v) {
  write_optional(w, v);
}
// a reference to an instance
template <typename T>
void write(Writer& w, T* const& v) {
  if (v == nullptr) {
    w.text("&NULL");
    return;
  }
  auto found = w.labels.find(v);
  w.text(found == w.labels.end() ? "&STRAY" : "&" + found->second);
}
template <typename R>
void label(Writer& w, const char* name, const R& registry) {
  for (const auto& kv : registry) {
    w.labels[kv.second.get()] = std::string(name) + "/" + quoted(kv.first);
  }
}
template <typename R>
void write_registry(Writer& w, const R& registry) {
  w.text("{");
  for (const auto& kv : registry) {
    w.text(quoted(kv.first) + ":");
    if (kv.second == nullptr) {
      w.text("NULL");
    } else {
      if (kv.second->id != kv.first) {
        w.text("WRONG-ID ");
      }
      write(w, *kv.second);
    }
    w.text(" ");
  }
  w.text("}");
}

}  // namespace simcpp
