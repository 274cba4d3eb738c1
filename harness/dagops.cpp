// Replays operation histories on the real DependencyDag and reports its state after every operation.
// stdin : one JSON object per line {"id":..,"ops":[["push",[tokens]],["iso",[tokens]],["pop",label],["expand",label,[[tokens]..],proximate],["prox",label]]}
// stdout: {"id":..,"states":[{"ret":label|null,"exc":..,"heads":[..],"prox":[..],"empty":..,"gh":[..],"gt":[..],"topo":[..],"items":{label:name},"edges":[[a,b]..]}]}
#include <lsqecc/dag/dependency_dag.hpp>
#include <nlohmann/json.hpp>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>

using namespace lsqecc::dag;
using nlohmann::json;

struct Item { std::string name; std::set<int> tokens; };
std::ostream& operator<<(std::ostream& os, const Item& i) { return os << i.name; }

namespace lsqecc::dag {
template<> struct CommutationTrait<Item> {
    static bool can_commute(const Item& a, const Item& b)
    {
        for (int t : a.tokens) if (b.tokens.count(t)) return false;
        return true;
    }
};
}

static Item item(const json& t, int& n)
{
    Item i{"i" + std::to_string(n++), {}};
    for (auto& x : t) i.tokens.insert(x.get<int>());
    return i;
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        json req = json::parse(line);
        DependencyDag<Item> dag;
        int n = 0;
        json states = json::array();
        for (auto& op : req["ops"]) {
            json s; s["ret"] = nullptr; s["exc"] = nullptr;
            std::string k = op[0];
            try {
                if (k == "push") s["ret"] = dag.push_instruction_based_on_commutation(item(op[1], n));
                else if (k == "iso") s["ret"] = dag.add_instruction_isolated(item(op[1], n));
                else if (k == "pop") dag.pop_head(op[1].get<label_t>());
                else if (k == "prox") dag.make_proximate(op[1].get<label_t>());
                else if (k == "expand") {
                    std::vector<Item> v;
                    for (auto& t : op[2]) v.push_back(item(t, n));
                    s["ret"] = dag.expand(op[1].get<label_t>(), std::move(v), op[3].get<bool>());
                }
            } catch (const std::exception& e) { s["exc"] = e.what(); }
            const auto& g = get_graph_for_testing(dag);
            s["heads"] = json::array(); s["prox"] = json::array(); s["gt"] = json::array(); s["topo"] = json::array();
            for (auto l : dag.applicable_instructions()) s["heads"].push_back(l);
            for (auto l : dag.proximate_instructions()) s["prox"].push_back(l);
            for (auto l : g.tails()) s["gt"].push_back(l);
            for (auto l : g.topological_order_tails_first()) s["topo"].push_back(l);
            s["empty"] = dag.empty();
            json at = json::object(), suc = json::object(), pre = json::object();
            for (auto& l : s["topo"]) {
                auto key = std::to_string(l.get<label_t>());
                std::stringstream ss; ss << dag.at(l.get<label_t>());
                at[key] = ss.str();
                suc[key] = g.successors(l.get<label_t>());
                pre[key] = g.predecessors(l.get<label_t>());
            }
            s["at"] = at; s["suc"] = suc; s["pre"] = pre;
            s["viz"] = to_graphviz(dag);
            states.push_back(s);
        }
        std::cout << json{{"id", req["id"]}, {"states", states}}.dump() << std::endl;
    }
}
