// Stand-in for jsoncpp: the part of Json::Value that generated code uses, with jsoncpp's meaning.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace Json {

enum ValueType {
  nullValue = 0,
  intValue,
  uintValue,
  realValue,
  stringValue,
  booleanValue,
  arrayValue,
  objectValue
};

typedef int Int;
typedef unsigned int UInt;
typedef int64_t Int64;
typedef uint64_t UInt64;
typedef Int64 LargestInt;
typedef UInt64 LargestUInt;
typedef unsigned int ArrayIndex;
typedef std::string String;

class Exception : public std::exception {
public:
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  const char* what() const noexcept override { return msg_.c_str(); }

private:
  std::string msg_;
};

class RuntimeError : public Exception {
  using Exception::Exception;
};

class LogicError : public Exception {
  using Exception::Exception;
};

class ValueConstIterator;
class ValueIterator;

class Value {
public:
  typedef std::vector<std::string> Members;
  typedef ValueIterator iterator;
  typedef ValueConstIterator const_iterator;
  typedef Json::Int Int;
  typedef Json::UInt UInt;
  typedef Json::Int64 Int64;
  typedef Json::UInt64 UInt64;
  typedef Json::LargestInt LargestInt;
  typedef Json::LargestUInt LargestUInt;
  typedef Json::ArrayIndex ArrayIndex;
  static constexpr Int64 minInt64 = std::numeric_limits<int64_t>::min();
  static constexpr Int64 maxInt64 = std::numeric_limits<int64_t>::max();
  static constexpr UInt64 maxUInt64 = std::numeric_limits<uint64_t>::max();

  Value(ValueType type = nullValue) : type_(type) {
    if (type == arrayValue) {
      array_ = new Array();
    } else if (type == objectValue) {
      object_ = new Object();
    } else if (type == stringValue) {
      string_ = new std::string();
    }
  }
  Value(Int v) : type_(intValue) { int_ = v; }
  Value(UInt v) : type_(uintValue) { uint_ = v; }
  Value(Int64 v) : type_(intValue) { int_ = v; }
  Value(long long v) : type_(intValue) { int_ = v; }
  Value(UInt64 v) : type_(uintValue) { uint_ = v; }
  Value(unsigned long long v) : type_(uintValue) { uint_ = v; }
  Value(double v) : type_(realValue) { real_ = v; }
  Value(bool v) : type_(booleanValue) { bool_ = v; }
  Value(const char* v) : type_(stringValue) {
    if (v == nullptr) {
      throw LogicError("Null Value Passed to Value Constructor");
    }
    string_ = new std::string(v);
  }
  Value(const char* begin, const char* end) : type_(stringValue) { string_ = new std::string(begin, end); }
  Value(const std::string& v) : type_(stringValue) { string_ = new std::string(v); }
  Value(const Value& other) : type_(nullValue) { copy(other); }
  Value(Value&& other) noexcept : type_(nullValue) { swap(other); }
  ~Value() { release(); }

  Value& operator=(const Value& other) {
    Value(other).swap(*this);
    return *this;
  }
  Value& operator=(Value&& other) noexcept {
    swap(other);
    return *this;
  }

  void swap(Value& other) noexcept {
    std::swap(type_, other.type_);
    std::swap(uint_, other.uint_);
  }

  ValueType type() const { return static_cast<ValueType>(type_); }

  bool isNull() const { return type_ == nullValue; }
  bool isBool() const { return type_ == booleanValue; }
  bool isString() const { return type_ == stringValue; }
  bool isArray() const { return type_ == arrayValue; }
  bool isObject() const { return type_ == objectValue; }

  bool isInt() const {
    return isInt64() && asInt64() >= std::numeric_limits<int>::min() && asInt64() <= std::numeric_limits<int>::max();
  }
  bool isUInt() const { return isUInt64() && asUInt64() <= std::numeric_limits<unsigned>::max(); }

  bool isInt64() const {
    switch (type_) {
      case intValue:
        return true;
      case uintValue:
        return uint_ <= static_cast<UInt64>(maxInt64);
      case realValue:
        return real_ >= -9223372036854775808.0 && real_ < 9223372036854775808.0 && whole(real_);
      default:
        return false;
    }
  }
  bool isUInt64() const {
    switch (type_) {
      case intValue:
        return int_ >= 0;
      case uintValue:
        return true;
      case realValue:
        return real_ >= 0 && real_ < 18446744073709551616.0 && whole(real_);
      default:
        return false;
    }
  }
  bool isIntegral() const {
    switch (type_) {
      case intValue:
      case uintValue:
        return true;
      case realValue:
        return real_ >= -9223372036854775808.0 && real_ < 18446744073709551616.0 && whole(real_);
      default:
        return false;
    }
  }
  bool isDouble() const { return type_ == intValue || type_ == uintValue || type_ == realValue; }
  bool isNumeric() const { return isDouble(); }

  Int asInt() const {
    if (!isInt()) {
      throw LogicError("Value is not convertible to Int.");
    }
    return static_cast<Int>(asInt64());
  }
  Int64 asInt64() const {
    switch (type_) {
      case intValue:
        return int_;
      case uintValue:
        if (!isInt64()) {
          throw LogicError("LargestUInt out of Int64 range");
        }
        return static_cast<Int64>(uint_);
      case realValue:
        if (!(real_ >= -9223372036854775808.0 && real_ < 9223372036854775808.0)) {
          throw LogicError("double out of Int64 range");
        }
        return static_cast<Int64>(real_);
      case nullValue:
        return 0;
      case booleanValue:
        return bool_ ? 1 : 0;
      default:
        throw LogicError("Value is not convertible to Int64.");
    }
  }
  UInt64 asUInt64() const {
    switch (type_) {
      case intValue:
        if (int_ < 0) {
          throw LogicError("LargestInt out of UInt64 range");
        }
        return static_cast<UInt64>(int_);
      case uintValue:
        return uint_;
      case realValue:
        if (!(real_ >= 0 && real_ < 18446744073709551616.0)) {
          throw LogicError("double out of UInt64 range");
        }
        return static_cast<UInt64>(real_);
      case nullValue:
        return 0;
      case booleanValue:
        return bool_ ? 1 : 0;
      default:
        throw LogicError("Value is not convertible to UInt64.");
    }
  }
  LargestInt asLargestInt() const { return asInt64(); }
  LargestUInt asLargestUInt() const { return asUInt64(); }
  double asDouble() const {
    switch (type_) {
      case intValue:
        return static_cast<double>(int_);
      case uintValue:
        return static_cast<double>(uint_);
      case realValue:
        return real_;
      case nullValue:
        return 0.0;
      case booleanValue:
        return bool_ ? 1.0 : 0.0;
      default:
        throw LogicError("Value is not convertible to double.");
    }
  }
  float asFloat() const { return static_cast<float>(asDouble()); }
  bool asBool() const {
    switch (type_) {
      case booleanValue:
        return bool_;
      case nullValue:
        return false;
      case intValue:
        return int_ != 0;
      case uintValue:
        return uint_ != 0;
      case realValue:
        return real_ != 0.0 && real_ == real_;
      default:
        throw LogicError("Value is not convertible to bool.");
    }
  }
  std::string asString() const {
    switch (type_) {
      case nullValue:
        return "";
      case stringValue:
        return *string_;
      case booleanValue:
        return bool_ ? "true" : "false";
      case intValue:
        return std::to_string(int_);
      case uintValue:
        return std::to_string(uint_);
      case realValue:
        return std::to_string(real_);
      default:
        throw LogicError("Type is not convertible to string");
    }
  }
  const char* asCString() const {
    if (type_ != stringValue) {
      throw LogicError("in Json::Value::asCString(): requires stringValue");
    }
    return string_->c_str();
  }

  ArrayIndex size() const {
    switch (type_) {
      case arrayValue:
        return static_cast<ArrayIndex>(array_->empty() ? 0 : array_->rbegin()->first + 1);
      case objectValue:
        return static_cast<ArrayIndex>(object_->size());
      default:
        return 0;
    }
  }
  bool empty() const { return (isNull() || isArray() || isObject()) && size() == 0; }
  explicit operator bool() const { return !isNull(); }

  void clear() {
    if (type_ == arrayValue) {
      array_->clear();
    } else if (type_ == objectValue) {
      object_->clear();
    } else if (type_ != nullValue) {
      throw LogicError("in Json::Value::clear(): requires complex value");
    }
  }
  void resize(ArrayIndex n) {
    become(arrayValue, "in Json::Value::resize(): requires arrayValue");
    while (!array_->empty() && array_->rbegin()->first >= n) {
      array_->erase(std::prev(array_->end()));
    }
    for (ArrayIndex i = size(); i < n; ++i) {
      (*this)[i];
    }
  }

  Value& operator[](ArrayIndex i) {
    become(arrayValue, "in Json::Value::operator[](ArrayIndex): requires arrayValue");
    return (*array_)[i];
  }
  Value& operator[](int i) {
    if (i < 0) {
      throw LogicError("in Json::Value::operator[](int index): index cannot be negative");
    }
    return (*this)[static_cast<ArrayIndex>(i)];
  }
  const Value& operator[](ArrayIndex i) const {
    if (type_ == nullValue) {
      return nullSingleton();
    }
    need(arrayValue, "in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
    auto found = array_->find(i);
    return found == array_->end() ? nullSingleton() : found->second;
  }
  const Value& operator[](int i) const {
    if (i < 0) {
      throw LogicError("in Json::Value::operator[](int index) const: index cannot be negative");
    }
    return (*this)[static_cast<ArrayIndex>(i)];
  }
  Value& operator[](const char* key) { return (*this)[std::string(key)]; }
  Value& operator[](const std::string& key) {
    become(objectValue, "in Json::Value::resolveReference(): requires objectValue");
    return (*object_)[key];
  }
  const Value& operator[](const char* key) const { return (*this)[std::string(key)]; }
  const Value& operator[](const std::string& key) const {
    const Value* found = find(key);
    return found == nullptr ? nullSingleton() : *found;
  }
  Value& append(const Value& value) { return (*this)[size()] = value; }
  Value& append(Value&& value) { return (*this)[size()] = std::move(value); }
  Value get(const std::string& key, const Value& otherwise) const {
    const Value* found = find(key);
    return found == nullptr ? otherwise : *found;
  }
  bool isValidIndex(ArrayIndex i) const { return i < size(); }
  bool isMember(const char* key) const { return find(std::string(key)) != nullptr; }
  bool isMember(const std::string& key) const { return find(key) != nullptr; }
  const Value* find(const std::string& key) const {
    if (type_ == nullValue) {
      return nullptr;
    }
    need(objectValue, "in Json::Value::find(begin, end): requires objectValue or nullValue");
    auto found = object_->find(key);
    return found == object_->end() ? nullptr : &found->second;
  }
  void removeMember(const std::string& key) {
    if (type_ == nullValue) {
      return;
    }
    need(objectValue, "in Json::Value::removeMember(): requires objectValue");
    object_->erase(key);
  }
  Members getMemberNames() const {
    Members out;
    if (type_ == nullValue) {
      return out;
    }
    need(objectValue, "in Json::Value::getMemberNames(), value must be objectValue");
    for (const auto& kv : *object_) {
      out.push_back(kv.first);
    }
    return out;
  }

  inline ValueConstIterator begin() const;
  inline ValueConstIterator end() const;
  inline ValueIterator begin();
  inline ValueIterator end();

  bool operator==(const Value& other) const {
    if (type_ != other.type_) {
      return false;
    }
    switch (type_) {
      case nullValue:
        return true;
      case intValue:
      case uintValue:
        return uint_ == other.uint_;
      case realValue:
        return real_ == other.real_;
      case booleanValue:
        return bool_ == other.bool_;
      case stringValue:
        return *string_ == *other.string_;
      case arrayValue:
        return *array_ == *other.array_;
      default:
        return *object_ == *other.object_;
    }
  }
  bool operator!=(const Value& other) const { return !(*this == other); }

  static const Value& nullSingleton() {
    static const Value null;
    return null;
  }

private:
  friend class ValueConstIterator;
  friend class ValueIterator;
  typedef std::map<ArrayIndex, Value> Array;
  typedef std::map<std::string, Value> Object;

  static bool whole(double d) {
    double part;
    return std::modf(d, &part) == 0.0;
  }
  void need(ValueType type, const char* message) const {
    if (type_ != type) {
      throw LogicError(message);
    }
  }
  void become(ValueType type, const char* message) {
    if (type_ == nullValue) {
      *this = Value(type);
    }
    need(type, message);
  }
  void copy(const Value& other) {
    switch (other.type_) {
      case stringValue:
        string_ = new std::string(*other.string_);
        break;
      case arrayValue:
        array_ = new Array(*other.array_);
        break;
      case objectValue:
        object_ = new Object(*other.object_);
        break;
      default:
        uint_ = other.uint_;
    }
    type_ = other.type_;
  }
  void release() noexcept {
    if (type_ == stringValue) {
      delete string_;
    } else if (type_ == arrayValue) {
      delete array_;
    } else if (type_ == objectValue) {
      delete object_;
    }
    type_ = nullValue;
  }

  int type_;
  union {
    uint64_t uint_ = 0;
    int64_t int_;
    double real_;
    bool bool_;
    std::string* string_;
    Array* array_;
    Object* object_;
  };
};

inline void swap(Value& a, Value& b) noexcept { a.swap(b); }

class ValueIteratorBase {
public:
  typedef std::bidirectional_iterator_tag iterator_category;
  typedef int difference_type;

  std::string name() const { return kind_ == 2 ? object_->first : std::string(); }
  Value key() const { return kind_ == 2 ? Value(object_->first) : Value(array_->first); }
  ArrayIndex index() const { return kind_ == 1 ? array_->first : static_cast<ArrayIndex>(-1); }
  const char* memberName() const { return kind_ == 2 ? object_->first.c_str() : ""; }
  bool operator==(const ValueIteratorBase& other) const {
    return kind_ == 0 || other.kind_ == 0 ? kind_ == other.kind_
                                          : kind_ == 1 ? array_ == other.array_ : object_ == other.object_;
  }
  bool operator!=(const ValueIteratorBase& other) const { return !(*this == other); }

protected:
  friend class Value;
  void step() {
    if (kind_ == 1) {
      ++array_;
    } else if (kind_ == 2) {
      ++object_;
    }
  }
  void back() {
    if (kind_ == 1) {
      --array_;
    } else if (kind_ == 2) {
      --object_;
    }
  }
  Value& at() const { return kind_ == 1 ? array_->second : object_->second; }

  int kind_ = 0;
  std::map<ArrayIndex, Value>::iterator array_;
  std::map<std::string, Value>::iterator object_;
};

class ValueIterator : public ValueIteratorBase {
public:
  typedef Value value_type;
  typedef Value& reference;
  typedef Value* pointer;
  ValueIterator& operator++() {
    step();
    return *this;
  }
  ValueIterator operator++(int) {
    ValueIterator old(*this);
    step();
    return old;
  }
  Value& operator*() const { return at(); }
  Value* operator->() const { return &at(); }
};

class ValueConstIterator : public ValueIteratorBase {
public:
  typedef const Value value_type;
  typedef const Value& reference;
  typedef const Value* pointer;
  ValueConstIterator() {}
  ValueConstIterator(const ValueIterator& other) : ValueIteratorBase(other) {}
  ValueConstIterator& operator++() {
    step();
    return *this;
  }
  ValueConstIterator operator++(int) {
    ValueConstIterator old(*this);
    step();
    return old;
  }
  ValueConstIterator& operator--() {
    back();
    return *this;
  }
  const Value& operator*() const { return at(); }
  const Value* operator->() const { return &at(); }
};

inline ValueIterator Value::begin() {
  ValueIterator it;
  if (type_ == arrayValue) {
    it.kind_ = 1;
    it.array_ = array_->begin();
  } else if (type_ == objectValue) {
    it.kind_ = 2;
    it.object_ = object_->begin();
  }
  return it;
}
inline ValueIterator Value::end() {
  ValueIterator it;
  if (type_ == arrayValue) {
    it.kind_ = 1;
    it.array_ = array_->end();
  } else if (type_ == objectValue) {
    it.kind_ = 2;
    it.object_ = object_->end();
  }
  return it;
}
inline ValueConstIterator Value::begin() const { return const_cast<Value*>(this)->begin(); }
inline ValueConstIterator Value::end() const { return const_cast<Value*>(this)->end(); }

}  // namespace Json
