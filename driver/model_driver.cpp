// Drives SmartDNN models whose layers, losses and optimizers only record what is asked of them.
#include "net.hpp"

static std::string logText;
static int callNo = 0, throwAt = 0;
static long counter = 0;
static std::vector<E> lossValues;
static size_t lossNo = 0;

struct Planned : std::runtime_error { Planned() : std::runtime_error("planned") {} };
static Te fresh(const std::vector<int>& shape) {
    Te t{Shape(shape)};
    static int made = 0;
    const int kind = ++made * 5 % 17;  // now and then all zeros, negative, large or small
    const E scale = kind == 3 || kind == 9 ? E(0) : kind == 1 || kind == 6 || kind == 12 ? E(-1) : kind == 8 ? E(1024) : kind == 14 ? E(-1) / E(1024) : E(1);
    for (size_t i = 0; i < t.getShape().size(); ++i) t.getData().data()[i] = scale * static_cast<E>(++counter);
    return t;
}
static bool thrown() { return ++callNo == throwAt; }
static void item(const std::string& text, bool thr) {
    if (!logText.empty()) logText += ",";
    logText += "{" + text + ",\"thr\":" + (thr ? "true" : "false") + "}";
    if (thr) throw Planned();
}

struct SpyO : public Optimizer<E> {
    int id;
    explicit SpyO(int i) : id(i) {}
    void optimize(const std::vector<std::reference_wrapper<Te>>&, const std::vector<std::reference_wrapper<Te>>&, E) override {}
};
struct SpyLayer : public Layer<E> {
    int id;
    std::vector<int> shape;
    SpyLayer(int i, std::vector<int> s) : id(i), shape(std::move(s)) {}
    bool on() const { return this->trainingMode; }
    Te forward(const Te& x) override {
        bool thr = thrown();
        Te y = fresh(shape);
        item("\"op\":\"fwd\",\"l\":" + std::to_string(id) + ",\"on\":" + (on() ? "true" : "false") + field("x", x) + field("y", y), thr);
        return y;
    }
    Te backward(const Te& g) override {
        bool thr = thrown();
        Te y = fresh(shape);
        item("\"op\":\"bwd\",\"l\":" + std::to_string(id) + field("g", g) + field("y", y), thr);
        return y;
    }
    void updateWeights(Optimizer<E>& o) override {
        bool thr = thrown();
        auto p = dynamic_cast<SpyO*>(&o);
        item("\"op\":\"upd\",\"l\":" + std::to_string(id) + ",\"o\":" + std::to_string(p ? p->id : -1), thr);
    }
};
// A layer that can be moved but not copied.
struct MoveOnly : public SpyLayer {
    std::unique_ptr<int> p = std::make_unique<int>(1);
    using SpyLayer::SpyLayer;
};
struct SpyLoss : public Loss<E> {
    int id;
    explicit SpyLoss(int i) : id(i) {}
    Te compute(const Te& p, const Te& t) override {
        bool thr = thrown();
        Te v(Shape({1}), lossValues.empty() ? E(1) : lossValues[lossNo++ % lossValues.size()]);
        item("\"op\":\"loss\",\"f\":" + std::to_string(id) + field("p", p) + field("t", t) + field("v", v), thr);
        return v;
    }
    Te gradient(const Te& p, const Te& t) override {
        bool thr = thrown();
        Te g = fresh(p.getShape().getDimensions());
        item("\"op\":\"grad\",\"f\":" + std::to_string(id) + field("p", p) + field("t", t) + field("g", g), thr);
        return g;
    }
};

static std::map<int, std::unique_ptr<SmartDNN<E>>> models;
static std::map<int, int> depth;
static SmartDNN<E>& model(const std::string& s) { auto it = models.find(std::stoi(s)); if (it == models.end()) throw Absent(); return *it->second; }

// Runs f with the calls of the spies recorded; gives the reply's fields.
template <typename F> static std::string observed(const std::string& at, F f) {
    logText.clear();
    callNo = 0;
    throwAt = std::stoi(at);
    std::ostringstream text;
    std::streambuf* old = std::cout.rdbuf(text.rdbuf());
    std::string fields, fail = "false";
    try { fields = f(); }
    catch (const std::exception& e) { fail = "true"; fields = ",\"err\":" + jstr(e.what()); }
    catch (...) { fail = "true"; }
    std::cout.rdbuf(old);
    throwAt = 0;
    std::vector<std::string> lines = split(text.str(), '\n');
    if (!lines.empty() && lines.back().empty()) lines.pop_back();
    std::string q;
    for (auto& l : lines) q += (q.empty() ? "" : ",") + jstr(l);
    return fields + ",\"fail\":" + fail + ",\"lines\":[" + q + "],\"log\":[" + logText + "]";
}

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    h["mnew"] = [](const Args& a) { models[std::stoi(a[1])] = std::make_unique<SmartDNN<E>>(); depth[std::stoi(a[1])] = 0; return std::string(); };
    h["madd"] = [](const Args& a) {  // m l how sh
        auto& m = model(a[1]);
        int id = std::stoi(a[2]);
        if (a[3] == "lv") { SpyLayer l(id, ints(a[4])); m.addLayer(l); l.id = -1; l.setTrainingMode(false); }
        else if (a[3] == "clv") { const SpyLayer l(id, ints(a[4])); m.addLayer(l); }
        else if (a[3] == "mv") { MoveOnly l(id, ints(a[4])); m.addLayer(std::move(l)); }
        else m.addLayer(SpyLayer(id, ints(a[4])));
        ++depth[std::stoi(a[1])];
        return std::string();
    };
    h["mcompile"] = [](const Args& a) {  // m f o how
        auto& m = model(a[1]);
        int f = std::stoi(a[2]), o = std::stoi(a[3]);
        if (a[4] == "lv") { SpyLoss l(f); SpyO p(o); m.compile(l, p); l.id = -1; p.id = -1; }
        else if (a[4] == "clv") { const SpyLoss l(f); SpyO p(o); m.compile(l, std::move(p)); }
        else m.compile(SpyLoss(f), SpyO(o));
        return std::string();
    };
    h["mmode"] = [](const Args& a) {
        auto& m = model(a[1]);
        if (a[2] == "1") m.trainingMode(); else m.evalMode();
        std::string s;
        for (int i = 0; i < depth[std::stoi(a[1])]; ++i) {
            auto p = dynamic_cast<SpyLayer*>(m.getLayer(i));
            s += std::string(i ? "," : "") + (p && p->on() ? "true" : "false");
        }
        return ",\"modes\":[" + s + "]";
    };
    h["mget"] = [](const Args& a) {
        const auto& m = model(a[1]);
        auto p = dynamic_cast<SpyLayer*>(m.getLayer(std::stoi(a[2])));
        return ",\"l\":" + std::to_string(p ? p->id : -1);
    };
    h["train"] = [](const Args& a) {  // m xs ts n vs at
        auto& m = model(a[1]);
        std::vector<Te> xs = lits(a[2]), ts = lits(a[3]);
        lossValues = nums(a[5]);
        lossNo = 0;
        return observed(a[6], [&] { m.train(xs, ts, std::stoi(a[4])); return std::string(); });
    };
    h["predict"] = [](const Args& a) { auto& m = model(a[1]); Te x = lit(a[2]); return observed(a[3], [&] { return field("y", m.predict(x)); }); };
    h["predictn"] = [](const Args& a) { auto& m = model(a[1]); std::vector<Te> xs = lits(a[2]); return observed(a[3], [&] { return fields("ys", m.predict(xs)); }); };
    h["back"] = [](const Args& a) { auto& m = model(a[1]); Te g = lit(a[2]); return observed(a[3], [&] { m.backward(g); return std::string(); }); };
    h["update"] = [](const Args& a) { auto& m = model(a[1]); return observed(a[2], [&] { m.updateWeights(); return std::string(); }); };
    return run(argv[1], argv[2], [] { models.clear(); depth.clear(); counter = 0; });
}
