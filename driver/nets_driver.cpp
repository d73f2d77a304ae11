// Trains and uses models made of the library's own parts.
#include "net.hpp"

static std::map<int, std::unique_ptr<SmartDNN<E>>> models;
static std::map<int, size_t> depth;
static SmartDNN<E>& model(const std::string& s) { auto it = models.find(std::stoi(s)); if (it == models.end()) throw Absent(); return *it->second; }

// The parameters of every layer, as far as they can be read.
static std::string ps(const std::string& m) {
    std::string s = ",\"ps\":[";
    for (size_t i = 0; i < depth[std::stoi(m)]; ++i) {
        Layer<E>* l = model(m).getLayer(i);
        std::vector<Te> w = params(l);
        if (dynamic_cast<BatchNormalizationLayer<E>*>(l)) {
            Spy spy;
            try { l->updateWeights(spy); w = spy.ws; } catch (const std::exception&) { }
        }
        s += (i ? "," : "") + jts(w);
    }
    return s + "]";
}
static std::string engine(const char* name) {
    std::ostringstream o;
    o << RandomEngine::getInstance();
    return std::string(",\"") + name + "\":\"" + std::to_string(std::hash<std::string>()(o.str())) + "\"";
}
struct Quiet {  // what is printed meanwhile
    std::ostringstream text;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(text.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
// Every line that holds numbers: the first and the last of them.
static std::string lines(const std::string& text) {
    std::string r;
    for (auto& l : split(text, '\n')) {
        std::vector<std::string> nums;
        for (size_t i = 0; i < l.size();) {
            size_t j = i;
            while (j < l.size() && (std::isdigit(static_cast<unsigned char>(l[j])) || (l[j] == '.' && j > i) || ((l[j] == 'e' || l[j] == 'E') && j > i) || ((l[j] == '-' || l[j] == '+') && (j == i || l[j - 1] == 'e' || l[j - 1] == 'E')))) ++j;
            std::string w = l.substr(i, j - i);
            if (std::any_of(w.begin(), w.end(), [](unsigned char c) { return std::isdigit(c); })) nums.push_back(w);
            i = j > i ? j : i + 1;
        }
        for (const char* w : {"nan", "inf"}) if (l.find(w) != std::string::npos) nums.push_back(w);
        if (nums.size() < 2) continue;
        r += (r.empty() ? "" : ",") + std::string("{\"n\":") + nums.front() + ",\"v\":\"" + nums.back() + "\"}";
    }
    return ",\"lines\":[" + r + "]";
}

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    h["nnew"] = [](const Args& a) { models[std::stoi(a[1])] = std::make_unique<SmartDNN<E>>(); depth[std::stoi(a[1])] = 0; return std::string(); };
    h["nadd"] = [](const Args& a) {  // m k cfg a b f
        auto& m = model(a[1]);
        withLayer(a[2], ints(a[3]), a[4], a[5], a[6], [&](auto&& l) { m.addLayer(std::move(l)); return 0; });
        return fields("ws", params(m.getLayer(depth[std::stoi(a[1])]++)));
    };
    h["nset"] = [](const Args& a) {  // m i w b
        Layer<E>* l = model(a[1]).getLayer(std::stoul(a[2]));
        setParams(l, lit(a[3]), lit(a[4]));
        return fields("ws", params(l));
    };
    h["ncompile"] = [](const Args& a) {  // m f k o
        auto& m = model(a[1]);
        withOptimizer(a[3], split(a[4], ','), [&](auto&& o) {
            if (a[2] == "mse") m.compile(MSELoss<E>(), std::move(o));
            else { CategoricalCrossEntropyLoss<E> f; m.compile(f, o); }
            return 0;
        });
        return std::string();
    };
    h["nmode"] = [](const Args& a) { if (a[2] == "1") model(a[1]).trainingMode(); else model(a[1]).evalMode(); return std::string(); };
    h["ntrain"] = [](const Args& a) {  // m xs ts n
        auto& m = model(a[1]);
        const std::vector<Te> xs = lits(a[2]), ts = lits(a[3]);
        std::string text, fail = "false";
        {
            Quiet q;
            try { m.train(xs, ts, std::stoi(a[4])); } catch (const std::exception&) { fail = "true"; }
            text = q.text.str();
        }
        return ",\"fail\":" + fail + ps(a[1]) + lines(text);
    };
    h["npredict"] = [](const Args& a) {
        auto& m = model(a[1]);
        const Te x = lit(a[2]);
        std::string before = engine("e0");
        std::string y = ",\"fail\":true";
        try { y = field("y", m.predict(x)) + ",\"fail\":false"; } catch (const std::exception&) { }
        return y + before + engine("e1") + ps(a[1]);
    };
    h["npredictn"] = [](const Args& a) {
        auto& m = model(a[1]);
        const std::vector<Te> xs = lits(a[2]);
        std::string before = engine("e0");
        std::string ys = ",\"fail\":true";
        try { ys = fields("ys", m.predict(xs)) + ",\"fail\":false"; } catch (const std::exception&) { }
        return ys + before + engine("e1") + ps(a[1]);
    };
    return run(argv[1], argv[2], [] { models.clear(); depth.clear(); RandomEngine::setSeed(4321); });
}
