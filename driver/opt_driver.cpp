#include "net.hpp"

struct Opt { std::unique_ptr<Optimizer<E>> o; std::function<std::unique_ptr<Optimizer<E>>(const Optimizer<E>&)> clone; };
static std::map<int, Opt> opts;
static std::map<int, std::unique_ptr<Te>> par;
static Opt& at(const std::string& s) { auto it = opts.find(std::stoi(s)); if (it == opts.end()) throw Absent(); return it->second; }
static Te& tensor(int i) { auto it = par.find(i); if (it == par.end()) throw Absent(); return *it->second; }

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    h["onew"] = [](const Args& a) {
        opts[std::stoi(a[1])] = withOptimizer(a[2], split(a[3], ','), [](auto&& x) {
            using D = std::decay_t<decltype(x)>;
            Opt r;
            r.o = std::make_unique<D>(std::move(x));
            r.clone = [](const Optimizer<E>& y) -> std::unique_ptr<Optimizer<E>> { return std::make_unique<D>(static_cast<const D&>(y)); };
            return r;
        });
        return std::string();
    };
    h["ocopy"] = [](const Args& a) {
        Opt& p = at(a[2]);
        Opt c;
        c.o = p.clone(*p.o);
        c.clone = p.clone;
        opts[std::stoi(a[1])] = std::move(c);
        return std::string();
    };
    h["pnew"] = [](const Args& a) { par[std::stoi(a[1])] = std::make_unique<Te>(lit(a[2])); return std::string(); };
    h["pput"] = [](const Args& a) {
        Te& t = tensor(std::stoi(a[1]));
        Te v = lit(a[2]);
        for (size_t i = 0; i < t.getShape().size(); ++i) t.getData().data()[i] = v.getData().data()[i];
        return std::string();
    };
    h["passign"] = [](const Args& a) { Te v = lit(a[2]); tensor(std::stoi(a[1])) = v; return std::string(); };
    h["opt"] = [](const Args& a) {
        std::vector<std::reference_wrapper<Te>> w, g;
        std::vector<Te> gs = lits(a[3]);
        for (int i : ints(a[2])) w.push_back(tensor(i));
        for (auto& t : gs) g.push_back(t);
        Opt& o = at(a[1]);
        if (a[4] == "-") o.o->optimize(w, g); else o.o->optimize(w, g, num(a[4]));
        std::vector<Te> ws;
        for (auto& t : w) ws.push_back(t.get());
        return fields("ws", ws) + fields("gs", gs);
    };
    h["pall"] = [](const Args&) {
        std::string s = ",\"all\":[";
        bool first = true;
        for (auto& p : par) { s += std::string(first ? "" : ",") + "{\"i\":" + std::to_string(p.first) + ",\"t\":" + jt(*p.second) + "}"; first = false; }
        return s + "]";
    };
    return run(argv[1], argv[2], [] { opts.clear(); par.clear(); });
}
