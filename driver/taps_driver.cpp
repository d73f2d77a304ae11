// Trains and uses models of the library's own parts, each wrapped so that the calls a model makes on it are recorded.
#include "net.hpp"

static std::string logText;
static void item(const std::string& text, bool thr) {
    if (!logText.empty()) logText += ",";
    logText += "{" + text + ",\"thr\":" + (thr ? "true" : "false") + "}";
}
static std::string id(const char* n, int i) { return std::string(",\"") + n + "\":" + std::to_string(i); }

struct Tag { int id = -1; virtual ~Tag() = default; };
template <typename O> struct Tagged : public O, public Tag {
    Tagged(O&& o, int i) : O(std::move(o)) { id = i; }
};
// Passes a layer's request on and notes it.
struct Watch : public Optimizer<E> {
    Optimizer<E>& to;
    std::string calls;
    explicit Watch(Optimizer<E>& o) : to(o) {}
    static std::string list(const char* n, const std::vector<std::reference_wrapper<Te>>& v) {
        std::vector<Te> c;
        for (auto& t : v) c.push_back(t.get());
        return std::string("\"") + n + "\":" + jts(c);
    }
    void optimize(const std::vector<std::reference_wrapper<Te>>& w, const std::vector<std::reference_wrapper<Te>>& g, E lr) override {
        std::string c = "{" + list("ws", w) + "," + list("gs", g) + ",\"lr\":\"" + jnum(static_cast<double>(lr)) + "\"";
        to.optimize(w, g, lr);
        calls += (calls.empty() ? "" : ",") + c + "," + list("ws2", w) + "}";
    }
};
struct Tap : public Layer<E> {
    int no;
    std::shared_ptr<Layer<E>> in;
    Tap(int i, std::shared_ptr<Layer<E>> l) : no(i), in(std::move(l)) {}
    bool on() const { return this->trainingMode; }
    void setTrainingMode(bool mode) override { this->trainingMode = mode; in->setTrainingMode(mode); }
    Te forward(const Te& x) override {
        std::string head = "\"op\":\"fwd\"" + id("l", no) + ",\"on\":" + (on() ? "true" : "false") + field("x", x);
        try {
            Te y = in->forward(x);
            item(head + field("y", y), false);
            return y;
        } catch (const std::exception&) { item(head, true); throw; }
    }
    Te backward(const Te& g) override {
        std::string head = "\"op\":\"bwd\"" + id("l", no) + field("g", g);
        try {
            Te y = in->backward(g);
            item(head + field("y", y), false);
            return y;
        } catch (const std::exception&) { item(head, true); throw; }
    }
    void updateWeights(Optimizer<E>& o) override {
        auto t = dynamic_cast<Tag*>(&o);
        Watch w(o);
        bool thr = true;
        try { in->updateWeights(w); thr = false; } catch (const std::exception&) { }
        item("\"op\":\"upd\"" + id("l", no) + id("o", t ? t->id : -1) + ",\"calls\":[" + w.calls + "]", thr);
        if (thr) throw std::runtime_error("passed on");
    }
};
struct TapLoss : public Loss<E> {
    int no;
    std::shared_ptr<Loss<E>> in;
    TapLoss(int i, std::shared_ptr<Loss<E>> l) : no(i), in(std::move(l)) {}
    template <typename F> Te call(const char* op, const char* res, const Te& p, const Te& t, F f) {
        std::string head = std::string("\"op\":\"") + op + "\"" + id("f", no) + field("p", p) + field("t", t);
        try {
            Te v = f();
            item(head + field(res, v), false);
            return v;
        } catch (const std::exception&) { item(head, true); throw; }
    }
    Te compute(const Te& p, const Te& t) override { return call("loss", "v", p, t, [&] { return in->compute(p, t); }); }
    Te gradient(const Te& p, const Te& t) override { return call("grad", "g", p, t, [&] { return in->gradient(p, t); }); }
};

static std::map<int, std::unique_ptr<SmartDNN<E>>> models;
static std::map<int, std::shared_ptr<Layer<E>>> layers;
static std::map<int, int> depth;
static SmartDNN<E>& model(const std::string& s) { auto it = models.find(std::stoi(s)); if (it == models.end()) throw Absent(); return *it->second; }

template <typename F> static std::string observed(F f) {
    logText.clear();
    std::ostringstream text;
    std::streambuf* old = std::cout.rdbuf(text.rdbuf());
    std::string fields, fail = "false";
    try { fields = f(); } catch (const std::exception&) { fail = "true"; }
    std::cout.rdbuf(old);
    return fields + ",\"fail\":" + fail + ",\"log\":[" + logText + "]";
}

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    h["mnew"] = [](const Args& a) { models[std::stoi(a[1])] = std::make_unique<SmartDNN<E>>(); depth[std::stoi(a[1])] = 0; return std::string(); };
    h["madd"] = [](const Args& a) {  // m l k cfg a b f
        auto& m = model(a[1]);
        int l = std::stoi(a[2]);
        std::shared_ptr<Layer<E>> p = withLayer(a[3], ints(a[4]), a[5], a[6], a[7], [](auto&& x) { return made(std::move(x)); }).layer;
        layers[l] = p;
        m.addLayer(Tap(l, p));
        ++depth[std::stoi(a[1])];
        return fields("ws", params(p.get()));
    };
    h["mset"] = [](const Args& a) {  // l w b
        Layer<E>* l = layers.at(std::stoi(a[1])).get();
        setParams(l, lit(a[2]), lit(a[3]));
        return fields("ws", params(l));
    };
    h["mcompile"] = [](const Args& a) {  // m f lk o k opts
        auto& m = model(a[1]);
        TapLoss loss(std::stoi(a[2]), makeLoss(a[3]));
        withOptimizer(a[5], split(a[6], ','), [&](auto&& o) {
            using O = std::decay_t<decltype(o)>;
            m.compile(loss, Tagged<O>(std::move(o), std::stoi(a[4])));
            return 0;
        });
        return std::string();
    };
    h["mmode"] = [](const Args& a) {
        auto& m = model(a[1]);
        if (a[2] == "1") m.trainingMode(); else m.evalMode();
        std::string s;
        for (int i = 0; i < depth[std::stoi(a[1])]; ++i) {
            auto p = dynamic_cast<Tap*>(m.getLayer(i));
            s += std::string(i ? "," : "") + (p && p->on() ? "true" : "false");
        }
        return ",\"modes\":[" + s + "]";
    };
    h["train"] = [](const Args& a) {  // m xs ts n
        auto& m = model(a[1]);
        const std::vector<Te> xs = lits(a[2]), ts = lits(a[3]);
        return observed([&] { m.train(xs, ts, std::stoi(a[4])); return std::string(); });
    };
    h["predict"] = [](const Args& a) { auto& m = model(a[1]); const Te x = lit(a[2]); return observed([&] { return field("y", m.predict(x)); }); };
    h["predictn"] = [](const Args& a) { auto& m = model(a[1]); const std::vector<Te> xs = lits(a[2]); return observed([&] { return fields("ys", m.predict(xs)); }); };
    h["back"] = [](const Args& a) { auto& m = model(a[1]); const Te g = lit(a[2]); return observed([&] { m.backward(g); return std::string(); }); };
    h["update"] = [](const Args& a) { auto& m = model(a[1]); return observed([&] { m.updateWeights(); return std::string(); }); };
    return run(argv[1], argv[2], [] { models.clear(); layers.clear(); depth.clear(); RandomEngine::setSeed(4321); });
}
