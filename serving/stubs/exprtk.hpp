// Stand-in for exprtk: arithmetic expressions over named constants; as in the library, names
// do not care for case and an expression that does not compile has the value NaN.
#pragma once
#include <cctype>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace exprtk {
inline std::string lower(std::string s) {
  for (auto& c : s) c = std::tolower(c);
  return s;
}
template <class T>
class symbol_table {
 public:
  symbol_table() : m_(std::make_shared<std::map<std::string, T*>>()), own_(std::make_shared<std::vector<std::unique_ptr<T>>>()) {}
  bool add_constant(const std::string& name, const T& v) {
    if (name.empty() || !std::isalpha((unsigned char)name[0]) || m_->count(lower(name))) return false;
    own_->emplace_back(new T(v));
    (*m_)[lower(name)] = own_->back().get();
    return true;
  }
  bool add_variable(const std::string& name, T& v) {
    if (name.empty() || !std::isalpha((unsigned char)name[0]) || m_->count(lower(name))) return false;
    (*m_)[lower(name)] = &v;
    return true;
  }
  bool add_constants() { return true; }
  std::shared_ptr<std::map<std::string, T*>> m_;
  std::shared_ptr<std::vector<std::unique_ptr<T>>> own_;
};
template <class T>
class expression {
 public:
  void register_symbol_table(symbol_table<T>& t) { t_ = t; }
  T value() const { return value_; }
  symbol_table<T> t_;
  T value_ = std::numeric_limits<T>::quiet_NaN();
};
template <class T>
class parser {
 public:
  bool compile(const std::string& text, expression<T>& e) {
    s_ = text;
    p_ = 0;
    t_ = &e.t_;
    error_.clear();
    try {
      T v = sum();
      space();
      if (p_ != s_.size()) throw std::runtime_error("trailing text");
      e.value_ = v;
      return true;
    } catch (const std::runtime_error& x) {
      error_ = x.what();
      return false;
    }
  }
  std::string error() const { return error_; }

 private:
  void space() {
    while (p_ < s_.size() && std::isspace((unsigned char)s_[p_])) p_++;
  }
  bool eat(char c) {
    space();
    if (p_ < s_.size() && s_[p_] == c) {
      p_++;
      return true;
    }
    return false;
  }
  T sum() {
    T v = product();
    while (true) {
      if (eat('+')) v += product();
      else if (eat('-')) v -= product();
      else return v;
    }
  }
  T product() {
    T v = unary();
    while (true) {
      if (eat('*')) v *= unary();
      else if (eat('/')) v /= unary();
      else return v;
    }
  }
  T unary() {
    if (eat('-')) return -unary();
    if (eat('+')) return unary();
    return power();
  }
  T power() {
    T v = atom();
    if (eat('^')) return std::pow(v, unary());
    return v;
  }
  T atom() {
    space();
    if (eat('(')) {
      T v = sum();
      if (!eat(')')) throw std::runtime_error("missing )");
      return v;
    }
    if (p_ < s_.size() && (std::isdigit((unsigned char)s_[p_]) || s_[p_] == '.')) {
      size_t n = 0;
      T v = std::stod(s_.substr(p_), &n);
      p_ += n;
      return v;
    }
    size_t b = p_;
    while (p_ < s_.size() && (std::isalnum((unsigned char)s_[p_]) || s_[p_] == '_')) p_++;
    std::string name = lower(s_.substr(b, p_ - b));
    if (name.empty()) throw std::runtime_error("unexpected character");
    if (eat('(')) {
      std::vector<T> a;
      a.push_back(sum());
      while (eat(',')) a.push_back(sum());
      if (!eat(')')) throw std::runtime_error("missing )");
      if (name == "min") { T v = a[0]; for (auto x : a) v = std::min(v, x); return v; }
      if (name == "max") { T v = a[0]; for (auto x : a) v = std::max(v, x); return v; }
      if (name == "abs" && a.size() == 1) return std::abs(a[0]);
      if (name == "sqrt" && a.size() == 1) return std::sqrt(a[0]);
      if (name == "exp" && a.size() == 1) return std::exp(a[0]);
      if (name == "log" && a.size() == 1) return std::log(a[0]);
      throw std::runtime_error("unknown function");
    }
    auto it = t_->m_->find(name);
    if (it == t_->m_->end()) throw std::runtime_error("unknown symbol " + name);
    return *it->second;
  }
  std::string s_, error_;
  size_t p_ = 0;
  symbol_table<T>* t_ = nullptr;
};
}  // namespace exprtk
