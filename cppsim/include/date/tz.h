// Stand-in for the time zones of date/tz.h: a fixed data base.
#pragma once

#include <date/date.h>

#include <map>
#include <stdexcept>
#include <string>

namespace date {

class time_zone {
public:
  explicit time_zone(std::string name) : name_(std::move(name)) {}
  const std::string& name() const noexcept { return name_; }

private:
  std::string name_;
};

const time_zone* locate_zone(const std::string& name);

}  // namespace date
