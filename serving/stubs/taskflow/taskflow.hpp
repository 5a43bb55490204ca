// Stand-in for cpp-taskflow: runs a graph's tasks one at a time, in an order drawn from a
// seed the driver sets (every topological order can come up).  As in the library, tasks
// whose predecessors never finish do not run.  A task that throws does not finish.
#pragma once
#include <algorithm>
#include <chrono>
#include <functional>
#include <future>
#include <list>
#include <memory>
#include <mutex>
#include <random>
#include <thread>
#include <vector>
namespace tf {
inline uint64_t& scheduleSeed() {
  static uint64_t seed = 1;
  return seed;
}
struct Node {
  std::function<void()> work;
  std::vector<Node*> next;
  int waiting = 0;
};
class Task {
 public:
  Task() = default;
  explicit Task(Node* n) : node_(n) {}
  Task& precede(Task other) {
    node_->next.push_back(other.node_);
    other.node_->waiting++;
    return *this;
  }
  template <class... Ts>
  Task& precede(Task first, Ts... rest) {
    precede(first);
    return precede(rest...);
  }
  template <class... Ts>
  Task& succeed(Ts... others) {
    (others.precede(*this), ...);
    return *this;
  }
  Task& name(const std::string&) { return *this; }

 private:
  Node* node_ = nullptr;
};
class Taskflow {
 public:
  template <class F>
  Task emplace(F f) {
    nodes_.emplace_back();
    nodes_.back().work = f;
    return Task(&nodes_.back());
  }
  std::list<Node> nodes_;
};
class Executor {
 public:
  explicit Executor(size_t = 1) {}
  std::future<void> run(Taskflow& flow) {
    std::promise<void> done;
    std::mt19937_64 rng(scheduleSeed());
    std::vector<Node*> ready;
    std::vector<std::pair<Node*, int>> counts;
    for (auto& n : flow.nodes_) {
      if (n.waiting == 0) ready.push_back(&n);
    }
    while (!ready.empty()) {
      size_t i = rng() % ready.size();
      Node* n = ready[i];
      ready.erase(ready.begin() + i);
      try {
        n->work();
      } catch (...) {
        continue;
      }
      for (auto* m : n->next) {
        if (--m->waiting == 0) ready.push_back(m);
      }
    }
    done.set_value();
    return done.get_future();
  }
  void wait_for_all() {}
};
}  // namespace tf
