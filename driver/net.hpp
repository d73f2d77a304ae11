// Layers, activations, losses and optimizers by name.
#pragma once
#include "common.hpp"
#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/RandomEngine.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"

using LayerPtr = std::unique_ptr<Layer<E>>;

// "2,3|1,2;3|4" ; "-" is none
inline std::vector<Te> lits(const std::string& s) {
    std::vector<Te> r;
    if (s == "-") return r;
    for (auto& t : split(s, ';')) r.push_back(lit(t));
    return r;
}
inline std::string field(const char* n, const Te& t) { return std::string(",\"") + n + "\":" + jt(t); }
inline std::string fields(const char* n, const std::vector<Te>& t) { return std::string(",\"") + n + "\":" + jts(t); }

// An optimizer that only looks (and assigns, when told to).
struct Spy : public Optimizer<E> {
    std::vector<Te> ws, gs;
    const std::vector<Te>* put = nullptr;
    int calls = 0;
    void optimize(const std::vector<std::reference_wrapper<Te>>& weights, const std::vector<std::reference_wrapper<Te>>& gradients, E) override {
        ++calls;
        for (auto& w : weights) ws.push_back(w.get());
        for (auto& g : gradients) gs.push_back(g.get());
        if (put) for (size_t i = 0; i < weights.size() && i < put->size(); ++i) weights[i].get() = (*put)[i];
    }
};

// k cfg a b f
struct Made { LayerPtr layer; std::function<LayerPtr(const Layer<E>&)> clone; };
template <typename L> Made made(L&& l) {
    using D = std::decay_t<L>;
    Made m;
    m.layer = std::make_unique<D>(std::forward<L>(l));
    if constexpr (std::is_copy_constructible_v<D>) m.clone = [](const Layer<E>& x) -> LayerPtr { return std::make_unique<D>(static_cast<const D&>(x)); };
    return m;
}
inline std::unique_ptr<Activation<E>> makeActivation(const std::string& f, const std::string& a) {
    if (f == "relu") return std::make_unique<ReLU<E>>();
    if (f == "leaky") { if (a == "default") return std::make_unique<LeakyReLU<E>>(); return std::make_unique<LeakyReLU<E>>(num(a)); }
    if (f == "sigmoid") return std::make_unique<Sigmoid<E>>();
    if (f == "tanh") return std::make_unique<Tanh<E>>();
    if (f == "swish") return std::make_unique<Swish<E>>();
    if (f == "mish") return std::make_unique<Mish<E>>();
    if (f == "softmax") return std::make_unique<Softmax<E>>();
    std::fprintf(stderr, "driver: no activation %s\n", f.c_str()); std::exit(3);
}
// Calls `use` with a layer object of the right type.
template <typename Use> auto withLayer(const std::string& k, const std::vector<int>& c, const std::string& a, const std::string& b, const std::string& f, Use use) {
    if (k == "fc") return use(FullyConnectedLayer<E>(c[0], c[1]));
    if (k == "conv") {
        if (c[2] == c[3] && f == "square") {
            if (c[4] == 1 && c[5] == 0 && c[6] == 1) return use(Conv2DLayer<E>(c[0], c[1], c[2]));
            // (in, out, k, stride, padding, dilation) and (in, out, kh, kw, stride, padding) both exist: all seven are unambiguous
        }
        return use(Conv2DLayer<E>(c[0], c[1], c[2], c[3], c[4], c[5], c[6]));
    }
    if (k == "pool") {
        if (f == "one" && c[1] == c[0] && c[2] == 0) return use(MaxPooling2DLayer<E>(c[0]));
        if (f == "two" && c[2] == 0) return use(MaxPooling2DLayer<E>(c[0], c[1]));
        return use(MaxPooling2DLayer<E>(c[0], c[1], c[2]));
    }
    if (k == "flat") return use(FlattenLayer<E>());
    if (k == "bn") {
        if (f == "default") return use(BatchNormalizationLayer<E>(c[0]));
        return use(BatchNormalizationLayer<E>(c[0], num(a), num(b)));
    }
    if (k == "drop") return use(DropoutLayer<E>(num(a)));
    if (k == "act") {
        if (f == "relu") return use(ActivationLayer<E>(ReLU<E>()));
        if (f == "leaky") return use(ActivationLayer<E>(LeakyReLU<E>(num(a))));
        if (f == "sigmoid") return use(ActivationLayer<E>(Sigmoid<E>()));
        if (f == "tanh") return use(ActivationLayer<E>(Tanh<E>()));
        if (f == "swish") return use(ActivationLayer<E>(Swish<E>()));
        if (f == "mish") return use(ActivationLayer<E>(Mish<E>()));
        if (f == "softmax") return use(ActivationLayer<E>(Softmax<E>()));
    }
    std::fprintf(stderr, "driver: no layer %s\n", k.c_str()); std::exit(3);
}
inline std::vector<Te> params(const Layer<E>* l) {
    if (auto f = dynamic_cast<const FullyConnectedLayer<E>*>(l)) return {f->getWeights(), f->getBiases()};
    if (auto c = dynamic_cast<const Conv2DLayer<E>*>(l)) return {c->getWeights(), c->getBiases()};
    return {};
}
inline std::vector<Te> gradients(const Layer<E>* l) {
    if (auto f = dynamic_cast<const FullyConnectedLayer<E>*>(l)) return {f->getWeightGradients(), f->getBiasGradients()};
    if (auto c = dynamic_cast<const Conv2DLayer<E>*>(l)) return {c->getWeightGradients(), c->getBiasGradients()};
    return {};
}
inline void setParams(Layer<E>* l, const Te& w, const Te& b) {
    if (auto f = dynamic_cast<FullyConnectedLayer<E>*>(l)) { f->setWeights(w); f->setBiases(b); }
    if (auto c = dynamic_cast<Conv2DLayer<E>*>(l)) { c->setWeights(w); c->setBiases(b); }
}
inline std::unique_ptr<Loss<E>> makeLoss(const std::string& l) {
    if (l == "mse") return std::make_unique<MSELoss<E>>();
    return std::make_unique<CategoricalCrossEntropyLoss<E>>();
}

// Options in the order the specification lists them; "-" leaves the default.
template <typename Use> auto withOptimizer(const std::string& k, const std::vector<std::string>& o, Use use) {
    bool none = std::all_of(o.begin(), o.end(), [](const std::string& s) { return s == "-"; });
    auto set = [&](size_t i, E& v) { if (o[i] != "-") v = num(o[i]); };
    if (k == "sgd") {
        if (none) return use(SGDOptimizer<E>());
        SGDOptions<E> p;
        set(0, p.learningRate); set(1, p.momentum); set(2, p.dampening); set(3, p.weightDecay);
        if (o[4] != "-") p.nesterov = num(o[4]) != E(0);
        return use(SGDOptimizer<E>(p));
    }
    if (k == "rms") {
        if (none) return use(RMSPropOptimizer<E>());
        RMSPropOptions<E> p;
        set(0, p.learningRate); set(1, p.alpha); set(2, p.epsilon); set(3, p.momentum); set(4, p.weightDecay);
        if (o[5] != "-") p.centered = num(o[5]) != E(0);
        return use(RMSPropOptimizer<E>(p));
    }
    if (k == "adam") {
        if (none) return use(AdamOptimizer<E>());
        AdamOptions<E> p;
        set(0, p.learningRate); set(1, p.beta1); set(2, p.beta2); set(3, p.epsilon); set(4, p.l1Strength); set(5, p.l2Strength); set(6, p.decay);
        if (o[7] != "-") p.batchSize = static_cast<int>(num(o[7]));
        return use(AdamOptimizer<E>(p));
    }
    std::fprintf(stderr, "driver: no optimizer %s\n", k.c_str()); std::exit(3);
}
