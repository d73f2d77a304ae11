#include "net.hpp"

static std::map<int, Made> store;
static Made& at(const std::string& s) {
    auto it = store.find(std::stoi(s));
    if (it == store.end()) throw Absent();
    return it->second;
}

// The activations and losses a program uses are objects that live as long as the program.
static std::map<std::string, std::unique_ptr<Activation<E>>> activations;
static std::map<std::string, std::unique_ptr<Loss<E>>> losses;
static Activation<E>* activation(const std::string& f, const std::string& a) {
    auto& p = activations[f + " " + a];
    if (!p) p = makeActivation(f, a);
    return p.get();
}
static Loss<E>* loss(const std::string& l) {
    auto& p = losses[l];
    if (!p) p = makeLoss(l);
    return p.get();
}

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    h["lnew"] = [](const Args& a) {
        int id = std::stoi(a[1]);
        store[id] = withLayer(a[2], ints(a[3]), a[4], a[5], a[6], [](auto&& l) { return made(std::move(l)); });
        return fields("ws", params(store[id].layer.get()));
    };
    h["lcopy"] = [](const Args& a) {
        Made& p = at(a[2]);
        if (!p.clone) throw Absent();
        Made m;
        m.layer = p.clone(*p.layer);
        m.clone = p.clone;
        store[std::stoi(a[1])] = std::move(m);
        return std::string();
    };
    h["ldrop"] = [](const Args& a) { store.erase(std::stoi(a[1])); return std::string(); };
    h["lset"] = [](const Args& a) {
        Te w = lit(a[2]), b = lit(a[3]);
        Layer<E>* l = at(a[1]).layer.get();
        setParams(l, w, b);
        w.getData().fill(E(0)); b.getData().fill(E(0));  // the layer has its own copy
        return fields("ws", params(l));
    };
    h["lmode"] = [](const Args& a) { at(a[1]).layer->setTrainingMode(a[2] == "1"); return std::string(); };
    h["lfwd"] = [](const Args& a) {
        Layer<E>* l = at(a[1]).layer.get();
        Te x = lit(a[2]);
        Te y = l->forward(x);
        std::string r = field("y", y) + field("x", x);
        x.getData().fill(E(77)); y.getData().fill(E(78));  // what the caller does with its tensors is its own business
        return r;
    };
    h["lmany"] = [](const Args& a) {
        Layer<E>* l = at(a[1]).layer.get();
        const Te x = lit(a[2]);
        std::vector<Te> ys;
        for (int i = std::stoi(a[3]); i > 0; --i) ys.push_back(l->forward(x));
        return fields("ys", ys);
    };
    h["seed"] = [](const Args& a) { RandomEngine::setSeed(static_cast<unsigned>(std::stoul(a[1]))); return std::string(); };
    h["lbwd"] = [](const Args& a) {
        Layer<E>* l = at(a[1]).layer.get();
        Te g = lit(a[2]);
        Te y = l->backward(g);
        std::string r = field("y", y) + field("g", g);
        g.getData().fill(E(79)); y.getData().fill(E(80));
        return r;
    };
    h["lsee"] = [](const Args& a) {
        Layer<E>* l = at(a[1]).layer.get();
        if (a[2] == "get") return fields("ws", params(l)) + fields("gs", gradients(l));
        Spy spy;
        l->updateWeights(spy);
        return fields("ws", spy.ws) + fields("gs", spy.gs);
    };
    h["lput"] = [](const Args& a) {
        Layer<E>* l = at(a[1]).layer.get();
        auto w = lits(a[2]);
        Spy spy;
        spy.put = &w;
        l->updateWeights(spy);
        return fields("ws", spy.ws) + fields("gs", spy.gs) + ",\"calls\":" + std::to_string(spy.calls);
    };
    h["afwd"] = [](const Args& a) { auto f = activation(a[1], a[2]); Te x = lit(a[3]); Te y = f->forward(x); return field("y", y) + field("x", x); };
    h["abwd"] = [](const Args& a) { auto f = activation(a[1], a[2]); Te x = lit(a[3]), g = lit(a[4]); Te y = f->backward(x, g); return field("y", y) + field("x", x) + field("g", g); };
    h["lossv"] = [](const Args& a) { auto f = loss(a[1]); Te x = lit(a[2]), t = lit(a[3]); Te y = f->compute(x, t); return field("y", y) + field("x", x) + field("t", t); };
    h["lossg"] = [](const Args& a) { auto f = loss(a[1]); Te x = lit(a[2]), t = lit(a[3]); Te y = f->gradient(x, t); return field("y", y) + field("x", x) + field("t", t); };
    return run(argv[1], argv[2], [] { store.clear(); activations.clear(); losses.clear(); RandomEngine::setSeed(12345); });
}
