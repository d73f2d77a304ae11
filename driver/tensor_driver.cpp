#include "common.hpp"
#include "smart_dnn/RandomEngine.hpp"

static std::map<int, std::unique_ptr<Te>> store;
static Te& at(const std::string& s) {
    auto it = store.find(std::stoi(s));
    if (it == store.end()) throw Absent();
    return *it->second;
}
static void put(const std::string& s, Te&& t) {  // t = ..., or Te t(...) the first time
    auto& p = store[std::stoi(s)];
    if (p) *p = std::move(t); else p = std::make_unique<Te>(std::move(t));
}
static std::string all() {
    std::string s = ",\"all\":[";
    bool first = true;
    for (auto& kv : store) {
        if (!first) s += ",";
        first = false;
        s += "{\"i\":" + std::to_string(kv.first) + ",\"t\":" + jt(*kv.second) + "}";
    }
    return s + "]";
}
static std::string y(const Te& t) { return ",\"y\":" + jt(t); }
static std::string st(const Te& t) {
    std::string s = ",\"st\":[";
    const auto& v = t.getShape().getStride();
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); }
    return s + "],\"rank\":" + std::to_string(t.getShape().rank());
}
// the unary functions a script may name
static E fn(const std::string& f, E x) {
    if (f == "twice") return x + x;
    if (f == "sq") return x * x;
    if (f == "inc") return x + E(1);
    return -x;
}

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    // construction -------------------------------------------------------------------------------
    h["new"] = [](const Args& a) { put(a[1], Te(Shape(ints(a[2])))); return y(at(a[1])); };
    h["newv"] = [](const Args& a) { put(a[1], Te(Shape(ints(a[2])), num(a[3]))); return y(at(a[1])); };
    h["newp"] = [](const Args& a) { auto v = nums(a[3]); const E* p = v.data(); put(a[1], Te(Shape(ints(a[2])), p)); return y(at(a[1])); };
    h["newl"] = [](const Args& a) { const auto v = nums(a[3]); put(a[1], Te(Shape(ints(a[2])), v)); return y(at(a[1])); };
    h["newm"] = [](const Args& a) { auto v = nums(a[3]); put(a[1], Te(Shape(ints(a[2])), std::move(v))); return y(at(a[1])); };
    h["newi"] = [](const Args& a) {
        auto v = nums(a[3]); Shape s(ints(a[2]));
        switch (v.size()) {
            case 1: put(a[1], Te(s, {v[0]})); break;
            case 2: put(a[1], Te(s, {v[0], v[1]})); break;
            case 3: put(a[1], Te(s, {v[0], v[1], v[2]})); break;
            case 4: put(a[1], Te(s, {v[0], v[1], v[2], v[3]})); break;
            case 6: put(a[1], Te(s, {v[0], v[1], v[2], v[3], v[4], v[5]})); break;
            default: put(a[1], Te(s, v));
        }
        return y(at(a[1]));
    };
    h["newtd"] = [](const Args& a) { const TensorData<E, CPUDevice> d(Shape(ints(a[2])), num(a[3])); put(a[1], Te(d)); return y(at(a[1])); };
    h["newtdm"] = [](const Args& a) { TensorData<E, CPUDevice> d(Shape(ints(a[2])), num(a[3])); put(a[1], Te(std::move(d))); return y(at(a[1])); };
    h["ones"] = [](const Args& a) { put(a[1], Te::ones(Shape(ints(a[2])))); return y(at(a[1])); };
    h["zeros"] = [](const Args& a) { put(a[1], Te::zeros(Shape(ints(a[2])))); return y(at(a[1])); };
    h["ones1"] = [](const Args& a) { put(a[1], Te::ones(std::stoi(a[2]))); return y(at(a[1])); };
    h["zeros1"] = [](const Args& a) { put(a[1], Te::zeros(std::stoi(a[2]))); return y(at(a[1])); };
    h["ident"] = [](const Args& a) { put(a[1], Te::identity(std::stoi(a[2]))); return y(at(a[1])); };
    // value semantics ------------------------------------------------------------------------------
    h["copy"] = [](const Args& a) { Te t(at(a[2])); put(a[1], std::move(t)); return y(at(a[1])); };
    h["copytd"] = [](const Args& a) { Te t(at(a[2]).getData()); put(a[1], std::move(t)); return y(at(a[1])); };
    h["move"] = [](const Args& a) { auto p = std::make_unique<Te>(std::move(at(a[2]))); store[std::stoi(a[1])] = std::move(p); return y(at(a[1])) + ",\"src\":" + jt(at(a[2])); };
    h["asg"] = [](const Args& a) { Te& d = at(a[1]); Te& r = (d = at(a[2])); return y(r); };
    h["masg"] = [](const Args& a) { Te& d = at(a[1]); Te& s = at(a[2]); d = std::move(s); return y(d) + ",\"src\":" + jt(s); };
    h["eq"] = [](const Args& a) { return std::string(",\"b\":") + (at(a[1]) == at(a[2]) ? "true" : "false") + ",\"nb\":" + (at(a[1]) != at(a[2]) ? "true" : "false"); };
    h["drop"] = [](const Args& a) { store.erase(std::stoi(a[1])); return std::string(); };
    h["snap"] = [](const Args&) { return all(); };
    h["obs"] = [](const Args& a) { return y(at(a[1])) + st(at(a[1])); };
    // indexing ----------------------------------------------------------------------------------------
    h["get"] = [](const Args& a) { const Te& t = at(a[1]); return ",\"v\":\"" + jnum(t.at(ints(a[2]))) + "\""; };
    h["set"] = [](const Args& a) { at(a[1]).at(ints(a[2])) = num(a[3]); return y(at(a[1])); };
    h["getf"] = [](const Args& a) { const Te& t = at(a[1]); return ",\"v\":\"" + jnum(t[static_cast<size_t>(std::stoi(a[2]))]) + "\""; };
    h["setf"] = [](const Args& a) { at(a[1])[static_cast<size_t>(std::stoi(a[2]))] = num(a[3]); return y(at(a[1])); };
    h["iter"] = [](const Args& a) {
        std::vector<E> v; const auto& d = at(a[1]).getData();
        for (const auto& x : d) v.push_back(x);
        return ",\"y\":{\"s\":[" + std::to_string(v.size()) + "],\"n\":" + std::to_string(d.size()) + ",\"d\":" + jdata(v.begin(), v.size()) + "}";
    };
    h["reshape"] = [](const Args& a) { at(a[1]).reshape(Shape(ints(a[2]))); return y(at(a[1])) + st(at(a[1])); };
    h["reshapev"] = [](const Args& a) { at(a[1]).reshape(ints(a[2])); return y(at(a[1])) + st(at(a[1])); };
    h["areshape"] = [](const Args& a) { put(a[1], ATO::reshape(at(a[2]), Shape(ints(a[3])))); return y(at(a[1])); };
    h["fill"] = [](const Args& a) { at(a[1]).getData().fill(num(a[2])); return y(at(a[1])); };
    h["shapeop"] = [](const Args& a) {
        Shape s1(ints(a[1])), s2(ints(a[2]));
        std::string r = std::string(",\"b\":") + (ShapeOperations::areBroadcastable(s1, s2) ? "true" : "false");
        r += ",\"cat\":" + jints(ShapeOperations::concat(s1, s2).getDimensions());
        r += std::string(",\"same\":") + (s1 == s2 ? "true" : "false");
        try { r += ",\"bs\":" + jints(ShapeOperations::broadcastShapes(s1, s2).getDimensions()); } catch (const std::exception&) { r += ",\"bs\":[]"; }
        return r;
    };
    h["flat"] = [](const Args& a) { Shape s(ints(a[1])); return ",\"off\":" + std::to_string(computeFlatIndex(s, ints(a[2]))); };
    // arithmetic ------------------------------------------------------------------------------------
    h["bin"] = [](const Args& a) {
        const Te &p = at(a[3]), &q = at(a[4]);
        if (a[1] == "add") put(a[2], p + q); else if (a[1] == "sub") put(a[2], p - q);
        else if (a[1] == "mul") put(a[2], p * q); else put(a[2], p / q);
        return y(at(a[2]));
    };
    h["ibin"] = [](const Args& a) {
        Te& p = at(a[2]); const Te& q = at(a[3]);
        if (a[1] == "add") p += q; else if (a[1] == "sub") p -= q; else if (a[1] == "mul") p *= q; else p /= q;
        return y(p);
    };
    h["sc"] = [](const Args& a) {
        const Te& p = at(a[3]); E v = num(a[4]);
        if (a[1] == "add") put(a[2], p + v); else if (a[1] == "sub") put(a[2], p - v);
        else if (a[1] == "mul") put(a[2], p * v); else put(a[2], p / v);
        return y(at(a[2]));
    };
    h["lsc"] = [](const Args& a) {
        const Te& p = at(a[4]); E v = num(a[3]);
        if (a[1] == "add") put(a[2], v + p); else if (a[1] == "sub") put(a[2], v - p);
        else if (a[1] == "mul") put(a[2], v * p); else put(a[2], v / p);
        return y(at(a[2]));
    };
    h["isc"] = [](const Args& a) {
        Te& p = at(a[2]); E v = num(a[3]);
        if (a[1] == "add") p += v; else if (a[1] == "sub") p -= v; else if (a[1] == "mul") p *= v; else p /= v;
        return y(p);
    };
    h["sce"] = [](const Args& a) {  // the scalar is an element of the tensor
        const Te& p = at(a[3]); size_t i = static_cast<size_t>(std::stoi(a[4]));
        if (a[1] == "add") put(a[2], p + p[i]); else if (a[1] == "sub") put(a[2], p - p[i]);
        else if (a[1] == "mul") put(a[2], p * p[i]); else put(a[2], p / p[i]);
        return y(at(a[2]));
    };
    h["isce"] = [](const Args& a) {
        Te& p = at(a[2]); size_t i = static_cast<size_t>(std::stoi(a[3]));
        if (a[1] == "add") p += p[i]; else if (a[1] == "sub") p -= p[i]; else if (a[1] == "mul") p *= p[i]; else p /= p[i];
        return y(p);
    };
    h["fille"] = [](const Args& a) { Te& p = at(a[1]); p.getData().fill(p[static_cast<size_t>(std::stoi(a[2]))]); return y(p); };
    h["neg"] = [](const Args& a) { put(a[1], -at(a[2])); return y(at(a[1])); };
    h["sqrt"] = [](const Args& a) { put(a[1], at(a[2]).sqrt()); return y(at(a[1])); };
    h["isqrt"] = [](const Args& a) { TensorOperations<E, CPUDevice>::sqrtInPlace(at(a[1]).getData()); return y(at(a[1])); };
    h["apply"] = [](const Args& a) { std::string f = a[2]; put(a[1], ATO::apply(at(a[3]), [f](E x) { return fn(f, x); })); return y(at(a[1])); };
    h["iapply"] = [](const Args& a) { std::string f = a[1]; Te& r = at(a[2]).apply([f](E x) { return fn(f, x); }); return y(r); };
    h["pair"] = [](const Args& a) {  // x * 2 + y: not symmetric
        put(a[1], ATO::applyPair(at(a[2]), at(a[3]), [](E x, E z) { return x + x + z; }));
        return y(at(a[1]));
    };
    h["recip"] = [](const Args& a) { put(a[1], ATO::reciprocal(at(a[2]), num(a[3]))); return y(at(a[1])); };
    h["recipd"] = [](const Args& a) { put(a[1], ATO::reciprocal(at(a[2]))); return y(at(a[1])); };
    // reductions --------------------------------------------------------------------------------------
    h["sum"] = [](const Args& a) { put(a[1], ATO::sum(at(a[2]))); return y(at(a[1])); };
    h["sumax"] = [](const Args& a) { put(a[1], ATO::sum(at(a[2]), static_cast<size_t>(std::stoi(a[3])))); return y(at(a[1])); };
    h["sumaxes"] = [](const Args& a) { put(a[1], ATO::sum(at(a[2]), sizes(a[3]))); return y(at(a[1])); };
    h["mean"] = [](const Args& a) { put(a[1], ATO::mean(at(a[2]))); return y(at(a[1])); };
    h["meanaxes"] = [](const Args& a) { put(a[1], ATO::mean(at(a[2]), sizes(a[3]))); return y(at(a[1])); };
    h["var"] = [](const Args& a) { put(a[1], ATO::variance(at(a[2]), at(a[3]))); return y(at(a[1])); };
    h["varaxes"] = [](const Args& a) { put(a[1], ATO::variance(at(a[2]), at(a[3]), sizes(a[4]))); return y(at(a[1])); };
    // products, rearrangements -------------------------------------------------------------------
    h["matmul"] = [](const Args& a) { put(a[1], ATO::matmul(at(a[2]), at(a[3]))); return y(at(a[1])); };
    h["transpose"] = [](const Args& a) { put(a[1], ATO::transpose(at(a[2]), static_cast<size_t>(std::stoi(a[3])), static_cast<size_t>(std::stoi(a[4])))); return y(at(a[1])); };
    h["slice"] = [](const Args& a) { put(a[1], at(a[2]).slice(std::stoi(a[3]), std::stoi(a[4]))); return y(at(a[1])); };
    h["view"] = [](const Args& a) {  // view id starts ends steps : the view's shape and elements in iteration order
        std::vector<std::pair<int, int>> sl; auto s = ints(a[2]), e = ints(a[3]);
        for (size_t i = 0; i < s.size(); ++i) sl.push_back({s[i], e[i]});
        SliceView<E> v(at(a[1]).getData(), sl, ints(a[4]));
        std::vector<E> d;
        size_t cap = 1; for (int q : v.shape()) cap *= static_cast<size_t>(q);
        for (auto it = v.begin(); it != v.end() && d.size() <= cap; ++it) d.push_back(*it);
        std::vector<E> byix;  // and through operator[]
        std::vector<int> ix(v.shape().rank(), 0);
        for (size_t k = 0; k < cap; ++k) {
            size_t r = k;
            for (int q = static_cast<int>(ix.size()) - 1; q >= 0; --q) { ix[q] = static_cast<int>(r % v.shape()[q]); r /= v.shape()[q]; }
            byix.push_back(v[ix]);
        }
        return ",\"y\":{\"s\":" + jints(v.shape().getDimensions()) + ",\"n\":" + std::to_string(v.shape().size()) + ",\"d\":" + jdata(d.begin(), d.size()) + "},\"ix\":" + jdata(byix.begin(), byix.size());
    };
    h["viewset"] = [](const Args& a) {
        std::vector<std::pair<int, int>> sl; auto s = ints(a[2]), e = ints(a[3]);
        for (size_t i = 0; i < s.size(); ++i) sl.push_back({s[i], e[i]});
        SliceView<E> v(at(a[1]).getData(), sl, ints(a[4]));
        v.set(ints(a[5]), num(a[6]));
        return y(at(a[1]));
    };
    h["bview"] = [](const Args& a) {
        Shape target(ints(a[2]));
        BroadcastView<E, CPUDevice> v(at(a[1]).getData(), target);
        std::vector<E> d;
        for (auto it = v.begin(); it != v.end() && d.size() <= target.size(); ++it) d.push_back(*it);
        return ",\"y\":{\"s\":" + jints(v.shape().getDimensions()) + ",\"n\":" + std::to_string(v.shape().size()) + ",\"d\":" + jdata(d.begin(), d.size()) + "}";
    };
    h["str"] = [](const Args& a) {
        return ",\"ds\":" + jstr(at(a[1]).toDataString()) + ",\"det\":" + jstr(at(a[1]).toDetailedString()) + ",\"sh\":" + jstr(at(a[1]).getShape().toString());
    };
    return run(argv[1], argv[2], [] { store.clear(); });
}
