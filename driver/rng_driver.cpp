// Everything that draws from the shared random stream.
#include "net.hpp"
#include "smart_dnn/Tensor/TensorFactory.hpp"

static std::map<int, std::unique_ptr<DropoutLayer<E>>> drops;
static DropoutLayer<E>& at(const std::string& s) { auto it = drops.find(std::stoi(s)); if (it == drops.end()) throw Absent(); return *it->second; }
static std::vector<double> args(const std::string& s) { std::vector<double> r; if (s != "-") for (auto& t : split(s, ',')) r.push_back(dbl(t)); return r; }

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    auto& h = handlers();
    h["seed"] = [](const Args& a) { RandomEngine::setSeed(static_cast<unsigned>(std::stoul(a[1]))); return std::string(); };
    h["draw"] = [](const Args& a) {
        auto x = args(a[2]);
        int k = std::stoi(a[3]);
        std::vector<double> v;
        for (int i = 0; i < k; ++i) {
            if (a[1] == "rand") v.push_back(RandomEngine::getRand());
            else if (a[1] == "range") v.push_back(RandomEngine::getRandRange(static_cast<float>(x[0]), static_cast<float>(x[1])));
            else if (a[1] == "xavier") v.push_back(RandomEngine::getXavierInit(static_cast<float>(x[0])));
            else if (a[1] == "he") v.push_back(RandomEngine::getHeInit(static_cast<float>(x[0])));
            else if (a[1] == "herange") v.push_back(RandomEngine::getHeRandRange(static_cast<float>(x[0]), static_cast<float>(x[1]), static_cast<float>(x[2])));
            else v.push_back(static_cast<double>(RandomEngine::getInstance()()));
        }
        return ",\"v\":" + jdata(v.data(), v.size());
    };
    h["trand"] = [](const Args& a) {
        auto s = ints(a[1]);
        if (a[2] == "size" && s.size() == 1) return field("y", Te::rand(s[0]));
        return field("y", Te::rand(Shape(s)));
    };
    h["trandn"] = [](const Args& a) {
        auto s = ints(a[1]);
        if (a[4] == "size" && s.size() == 1) return field("y", Te::randn(s[0], num(a[2]), num(a[3])));
        return field("y", Te::randn(Shape(s), num(a[2]), num(a[3])));
    };
    h["lnew"] = [](const Args& a) { return withLayer(a[1], ints(a[2]), "0.5", "0.5", "-", [](auto&& l) { return fields("ws", params(&l)); }); };
    h["dnew"] = [](const Args& a) { drops[std::stoi(a[1])] = std::make_unique<DropoutLayer<E>>(num(a[2])); return std::string(); };
    h["dmode"] = [](const Args& a) { at(a[1]).setTrainingMode(a[2] == "1"); return std::string(); };
    h["dfwd"] = [](const Args& a) { return field("y", at(a[1]).forward(lit(a[2]))); };
    return run(argv[1], argv[2], [] { drops.clear(); });
}
