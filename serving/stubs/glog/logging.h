// Stand-in for glog: messages are dropped, LOG(FATAL) ends the process as glog does.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace vglog {
struct Sink {
  bool fatal;
  std::ostringstream out;
  explicit Sink(bool f) : fatal(f) {}
  ~Sink() {
    if (fatal) {
      std::cerr << "FATAL " << out.str() << std::endl;
      std::abort();
    }
  }
};
constexpr bool is_fatal(const char* s) { return s[0] == 'F'; }
}  // namespace vglog
#define LOG(LEVEL) vglog::Sink(vglog::is_fatal(#LEVEL)).out
#define VLOG(N) vglog::Sink(false).out
