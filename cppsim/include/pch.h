#pragma once
#include <json/json.h>
#include <boost/filesystem/path.hpp>
#include <boost/optional.hpp>
#include <date/date.h>
#include <date/tz.h>
#include <optional.hpp>

#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <iomanip>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <regex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "simcpp.h"

// what takes long to instantiate is instantiated once, in instances.cpp
#ifndef SIM_INSTANCES
#define SIM_INSTANCES extern
#endif
SIM_INSTANCES template class std::basic_regex<char>;
SIM_INSTANCES template class std::match_results<std::string::const_iterator>;
SIM_INSTANCES template class std::__detail::_Compiler<std::regex_traits<char>>;
SIM_INSTANCES template bool std::__detail::__regex_algo_impl(
    std::string::const_iterator, std::string::const_iterator, std::match_results<std::string::const_iterator>&,
    const std::basic_regex<char>&, std::regex_constants::match_flag_type, std::__detail::_RegexExecutorPolicy, bool);
SIM_INSTANCES template std::basic_istream<char>& date::from_stream(
    std::basic_istream<char>&, const char*, date::fields<std::chrono::seconds>&, std::string*, std::chrono::minutes*);
SIM_INSTANCES template std::basic_ostream<char>& date::to_stream(
    std::basic_ostream<char>&, const char*, const date::fields<std::chrono::seconds>&, const std::string*,
    const std::chrono::seconds*);
SIM_INSTANCES template class std::map<Json::ArrayIndex, Json::Value>;
SIM_INSTANCES template class std::map<std::string, Json::Value>;
SIM_INSTANCES template class std::_Rb_tree<Json::ArrayIndex, std::pair<const Json::ArrayIndex, Json::Value>,
    std::_Select1st<std::pair<const Json::ArrayIndex, Json::Value>>, std::less<Json::ArrayIndex>>;
SIM_INSTANCES template class std::_Rb_tree<std::string, std::pair<const std::string, Json::Value>,
    std::_Select1st<std::pair<const std::string, Json::Value>>, std::less<std::string>>;
SIM_INSTANCES template class std::map<const void*, std::string>;
SIM_INSTANCES template class std::_Rb_tree<const void*, std::pair<const void* const, std::string>,
    std::_Select1st<std::pair<const void* const, std::string>>, std::less<const void*>>;
SIM_INSTANCES template class std::vector<std::string>;
