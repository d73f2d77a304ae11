// MNIST files, loaders and generated data sets.  All files live in a fresh directory below the current one.
#include "common.hpp"
#include <unistd.h>
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"

static std::string dir;
static std::map<int, std::unique_ptr<MNISTLoader<E>>> loaders;
static std::set<std::string> written;
static std::string name(const std::string& id) { return dir + "/file-" + id; }
static MNISTLoader<E>& at(const std::string& s) { auto it = loaders.find(std::stoi(s)); if (it == loaders.end()) throw Absent(); return *it->second; }
static void clean() { for (auto& f : written) std::remove(f.c_str()); written.clear(); }

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    std::string pattern = std::string(argv[2]) + ".files-XXXXXX";
    if (!mkdtemp(pattern.data())) return 3;
    dir = pattern;
    auto& h = handlers();
    h["fput"] = [](const Args& a) {
        std::ofstream f(name(a[1]), std::ios::binary | std::ios::trunc);
        for (int b : ints(a[2])) f.put(static_cast<char>(b));
        written.insert(name(a[1]));
        return std::string();
    };
    h["fdel"] = [](const Args& a) { std::remove(name(a[1]).c_str()); return std::string(); };
    h["mldr"] = [](const Args& a) {
        int batch = std::stoi(a[4]), n = std::stoi(a[5]);
        auto& l = loaders[std::stoi(a[1])];
        if (n == -1 && batch == 1) l = std::make_unique<MNISTLoader<E>>(name(a[2]), name(a[3]));
        else if (n == -1) l = std::make_unique<MNISTLoader<E>>(name(a[2]), name(a[3]), batch);
        else l = std::make_unique<MNISTLoader<E>>(name(a[2]), name(a[3]), batch, n);
        return std::string();
    };
    h["mload"] = [](const Args& a) { auto p = at(a[1]).loadData(); return ",\"xs\":" + jts(p.first) + ",\"ts\":" + jts(p.second); };
    h["art"] = [](const Args& a) {
        std::string text = at(a[1]).toAsciiArt(lit(a[2])), out;
        bool end = !text.empty() && text.back() == '\n';
        if (end) text.pop_back();
        for (auto& row : split(text, '\n')) {
            std::string r;
            for (char c : row) r += (r.empty() ? "" : ",") + jstr(std::string(1, c));
            out += std::string(out.empty() ? "" : ",") + "[" + r + "]";
        }
        return ",\"rows\":[" + out + "],\"end\":" + (end ? "true" : "false");
    };
    h["lin"] = [](const Args& a) {
        auto p = a[2] == "1" ? generateLinearDataset(std::stoi(a[1])) : generateLinearDataset(std::stoi(a[1]), static_cast<float>(dbl(a[2])));
        return ",\"xs\":" + jts(p.first) + ",\"ts\":" + jts(p.second);
    };
    h["linb"] = [](const Args& a) {
        auto p = a[3] == "1" ? generateBatchedLinearDataset(std::stoi(a[1]), std::stoi(a[2])) : generateBatchedLinearDataset(std::stoi(a[1]), std::stoi(a[2]), static_cast<float>(dbl(a[3])));
        return ",\"xs\":" + jts(p.first) + ",\"ts\":" + jts(p.second);
    };
    int rc = run(argv[1], argv[2], [] { loaders.clear(); clean(); });
    clean();
    rmdir(dir.c_str());
    return rc;
}
