// Standard headers the service's sources get through the libraries replaced here.
#pragma once
#include <algorithm>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <variant>
#include <vector>
#include <Eigen/Dense>
#include <nlohmann/json.hpp>
