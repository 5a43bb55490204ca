// Reads one JSON command per line, answers one JSON line.  {"ok": ...} or {"error": text}.
#include "reagent/serving/core/Headers.h"
#include "reagent/serving/core/DecisionService.h"
#include "reagent/serving/core/DiskConfigProvider.h"
#include "reagent/serving/core/InMemoryLogJoiner.h"
#include "reagent/serving/core/LocalRealTimeCounter.h"
#include "reagent/serving/core/OperatorFactory.h"
#include "reagent/serving/core/SharedParameterHandler.h"
#include "reagent/serving/operators/Ucb.h"
using namespace reagent;

struct Scorer : public ActionValueScorer {
  json table = json::object();
  json calls = json::array();
  StringDoubleMap predict(const DecisionRequest& request, int model, int snapshot) override {
    calls.push_back({request.request_id, model, snapshot});
    return table.at(std::to_string(model) + "/" + std::to_string(snapshot)).get<StringDoubleMap>();
  }
};

struct World {
  std::shared_ptr<Scorer> scorer = std::make_shared<Scorer>();
  std::shared_ptr<InMemoryLogJoiner> joiner;
  std::shared_ptr<LocalRealTimeCounter> counter = std::make_shared<LocalRealTimeCounter>();
  std::shared_ptr<SharedParameterHandler> shared = std::make_shared<SharedParameterHandler>();
  std::shared_ptr<DecisionService> service;
  std::map<std::string, std::shared_ptr<Operator>> ops;
};

static World w;

static StringOperatorDataMap dataMap(const json& j) {
  StringOperatorDataMap m;
  for (auto it = j.begin(); it != j.end(); ++it) m[it.key()] = json_to_constant_value(it.value());
  return m;
}
static json dataJson(const OperatorData& d) {
  json j;
  constant_value_to_json(d, j);
  return j;
}
template <class T>
static json through(const json& j) {
  T value = j.get<T>();
  json out = value;
  return out;
}

static json handle(const json& q) {
  const std::string c = q.at("cmd");
  if (c == "new") {
    w = World();
    if (q.count("log")) w.joiner = std::make_shared<InMemoryLogJoiner>(q.at("log").get<std::string>());
    else w.joiner = std::make_shared<InMemoryLogJoiner>();
    if (q.count("scores")) w.scorer->table = q.at("scores");
    if (q.count("window")) w.counter->setWindowSize(q.at("window"));
    std::shared_ptr<ConfigProvider> provider;
    if (q.count("configs")) provider = std::make_shared<DiskConfigProvider>(q.at("configs").get<std::string>());
    else provider = std::make_shared<ConfigProvider>();
    w.service = std::make_shared<DecisionService>(provider, w.scorer, w.joiner, w.counter, w.shared);
    return nullptr;
  }
  if (c == "order") {
    tf::scheduleSeed() = q.at("seed").get<uint64_t>();
    std::srand(q.at("seed").get<uint64_t>());
    return nullptr;
  }
  if (c == "plan") {
    w.service->createPlan(q.at("name"), q.at("config").get<DecisionConfig>());
    return nullptr;
  }
  if (c == "show") {
    auto p = w.service->getPlan(q.at("name"));
    json j;
    j["ops"] = json::array();
    for (auto& op : p->getOperators()) j["ops"].push_back({op->getName(), op->getInputDepMap()});
    j["constants"] = json::object();
    for (auto& it : p->getConstants()) j["constants"][it.first] = dataJson(it.second);
    j["root"] = p->getOutputOperatorName();
    j["aggregator"] = p->getConfig().reward_aggregator;
    j["reward"] = p->getConfig().reward_function;
    j["choose"] = p->getConfig().num_actions_to_choose;
    return j;
  }
  if (c == "run") {
    auto p = w.service->getPlan(q.at("name"));
    OperatorRunner runner;
    DecisionRequest request = q.at("request").get<DecisionRequest>();
    auto out = runner.run(p->getOperators(), p->getConstants(), request, request.input);
    json j = json::object();
    for (auto& it : out) j[it.first] = dataJson(it.second);
    return j;
  }
  if (c == "request") {
    return json(w.service->attachIdAndProcess(q.at("request").get<DecisionRequest>()));
  }
  if (c == "feedback") {
    w.service->computeRewardAndLogFeedback(q.at("feedback").get<Feedback>());
    return nullptr;
  }
  if (c == "join") {
    w.service->deserializeAndJoinDecisionAndFeedback(q.at("parts").get<StringList>());
    return nullptr;
  }
  if (c == "logged") {
    json j = json::array();
    for (auto& it : w.joiner->getLoggedData()) j.push_back(json(it));
    return j;
  }
  if (c == "calls") return w.scorer->calls;
  if (c == "op") {
    OperatorDefinition d;
    d.name = q.at("name");
    d.op_name = q.at("op");
    if (q.count("deps")) d.input_dep_map = q.at("deps").get<StringStringMap>();
    w.ops[q.value("id", d.name)] = OperatorFactory::getInstance()->createOp(q.at("plan"), d, w.service.get());
    return nullptr;
  }
  if (c == "oprun") {
    auto op = w.ops.at(q.at("name"));
    auto inputs = dataMap(q.at("inputs"));
    DecisionRequest request;
    if (q.count("request")) request = q.at("request").get<DecisionRequest>();
    json j = json::array();
    int n = q.value("times", 1);
    for (int i = 0; i < n; i++) j.push_back(dataJson(op->run(request, inputs)));
    return j;
  }
  if (c == "opfeedback") {
    w.ops.at(q.at("name"))->giveFeedback(q.at("feedback").get<Feedback>(), dataMap(q.at("inputs")), json_to_constant_value(q.at("output")));
    return nullptr;
  }
  if (c == "armmeans") {
    auto op = std::dynamic_pointer_cast<Ucb>(w.ops.at(q.at("name")));
    json j = json::object();
    for (const std::string& a : q.at("arms")) j[a] = op->getArmExpectation(a);
    return j;
  }
  if (c == "counter") {
    json j = json::array();
    for (auto& s : q.at("steps")) {
      const std::string key = s.at(1), k = s.at(0);
      if (k == "add") w.counter->addValue(key, s.at(2));
      else if (k == "clear") w.counter->clear(key);
      else if (k == "window") w.counter->setWindowSize(s.at(2));
      j.push_back({w.counter->getNumSamples(key), w.counter->getMean(key), w.counter->getVariance(key)});
    }
    return j;
  }
  if (c == "shared") {
    const std::string k = q.at("do"), name = q.at("name");
    if (k == "get") return json(w.shared->getValues(name));
    if (k == "lock") return json(w.shared->acquireLockToModifyParameter(name));
    w.shared->updateParameter(name, q.at("values").get<StringDoubleMap>());
    return nullptr;
  }
  if (c == "roundtrip") {
    const std::string k = q.at("kind");
    const json& v = q.at("value");
    if (k == "constant") return dataJson(json_to_constant_value(v));
    if (k == "request") return through<DecisionRequest>(v);
    if (k == "response") return through<DecisionResponse>(v);
    if (k == "feedback") return through<Feedback>(v);
    if (k == "joined") return through<DecisionWithFeedback>(v);
    if (k == "aggregator") return json(v.get<DecisionRewardAggreation>());
    if (k == "config") {
      auto d = v.get<DecisionConfig>();
      json j;
      j["num_actions_to_choose"] = d.num_actions_to_choose;
      j["reward_function"] = d.reward_function;
      j["reward_aggregator"] = d.reward_aggregator;
      j["operators"] = json::array();
      for (auto& o : d.operators) j["operators"].push_back({{"name", o.name}, {"op_name", o.op_name}, {"input_dep_map", o.input_dep_map}});
      j["constants"] = json::array();
      for (auto& o : d.constants) j["constants"].push_back({{"name", o.name}, {"value", dataJson(o.value)}});
      return j;
    }
  }
  if (c == "uuid") {
    json j = json::array();
    for (int i = 0; i < q.at("n").get<int>(); i++) j.push_back(generateUuid4());
    return j;
  }
  throw std::logic_error("unknown command " + c);
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    json answer;
    try {
      answer["ok"] = handle(json::parse(line));
    } catch (const std::exception& e) {
      answer = {{"error", e.what()}};
    }
    std::cout << answer.dump(-1, ' ', false, json::error_handler_t::replace) << std::endl;
  }
  return 0;
}
