From 2d8573bf083fc3ba531179189699125d7929bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 01/24] fix: Tensor -= and *= with a scalar call the existing
 in-place operations

The operators named functions that do not exist, so they did not compile when used.
---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9900ba0 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From b4f73c482eb247875d1977b29c56b4341b8006d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 02/24] fix: tensors can be built from vectors, and the number
 of values is checked

The vector constructors default-constructed a Shape, which has no default
constructor, and so did not compile; a value list longer than the shape wrote
past the end of the buffer.
---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         |  4 +++-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 20 ++++++++++++++------
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9900ba0..0011c37 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..8a2bea0 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -24,7 +24,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
@@ -63,6 +63,8 @@ public:
 private:
     Shape shape_;
     std::unique_ptr<T[]> data_;
+
+    void checkValueCount(size_t count) const;
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..52a4931 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,23 +38,31 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::move(values.begin(), values.end(), data_.get());
 }
 
+TEMPLATE_TENSOR
+void TENSOR_DATA_CPU::checkValueCount(size_t count) const {
+    if (count != shape_.size()) {
+        throw std::invalid_argument("Number of values (" + std::to_string(count) + ") does not match shape " + shape_.toString());
+    }
+}
+
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU& TENSOR_DATA_CPU::operator=(const TENSOR_DATA_CPU& other) {
     if (this != &other) {
-- 
2.43.0


From b372053603af3931c9e686d0aabdd522e149ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:14 +0000
Subject: [PATCH 03/24] fix: Tensor::slice copies the sub-tensor for any axis
 and checks its arguments

Only the leading axis was sliced correctly; for other axes a contiguous chunk
of the buffer was taken instead of the elements at that index.
---
 smart_dnn/Tensor/Tensor.impl.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 0011c37..8541627 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -286,15 +286,24 @@ void Tensor<T, DeviceType>::reshape(const std::initializer_list<int>& dims) {
 
 template <typename T, typename DeviceType>
 Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
-    Shape newShape = this->data_.shape();
-    std::vector<int> shape = newShape.getDimensions();
-    const std::vector<size_t> strides = this->data_.stride();
+    std::vector<int> shape = this->data_.shape().getDimensions();
 
-    int offset = index * strides[dim];
+    if (dim < 0 || dim >= static_cast<int>(shape.size()) || index < 0 || index >= shape[dim]) {
+        throw std::out_of_range("Slice index out of range for shape " + this->data_.shape().toString());
+    }
+
+    const size_t stride = this->data_.stride()[dim];
+    const size_t step = stride * static_cast<size_t>(shape[dim]); // distance between consecutive blocks
+    const size_t offset = stride * static_cast<size_t>(index);
 
     shape.erase(shape.begin() + dim);
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    TensorData<T, DeviceType> slicedData{Shape(shape)};
+    const T* source = this->data_.data();
+    T* target = slicedData.data();
+    for (size_t block = offset; block < this->data_.size(); block += step) {
+        target = std::copy_n(source + block, stride, target);
+    }
 
     return Tensor<T, DeviceType>(std::move(slicedData));
 }
-- 
2.43.0


From 5e2583701e7e3ef4d5afc0f7ac4a46ad1a77aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:14 +0000
Subject: [PATCH 04/24] fix: a tensor moved from by assignment stays a valid
 tensor

Move assignment left the source with its old size but no data, so copying or
comparing it crashed. Do what the move constructor does.
---
 smart_dnn/Tensor/Tensor.hpp      | 2 +-
 smart_dnn/Tensor/Tensor.impl.hpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4fc6dc6..5d10153 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 8541627..5fd3a34 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -45,6 +45,15 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    if (this != &other) {
+        data_ = std::move(other.data_);
+        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    }
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From aa744bfc5b9a7487a280efcf2fa758955f58574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:22 +0000
Subject: [PATCH 05/24] fix: Conv2DLayer uses all input channels, stride,
 padding and dilation

The forward pass read input channel 0 only and ignored stride, padding and
dilation; the backward pass covered only the first sample, input channel and
output channel. Sums were accumulated in float for every element type.
---
 smart_dnn/Layers/Conv2DLayer.hpp | 66 +++++++++++++++-----------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..69d5b82 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -43,8 +43,8 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int outputHeight = (inputHeight + 2 * padding - dilation * (kernelHeight - 1) - 1) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - dilation * (kernelWidth - 1) - 1) / stride + 1;
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -56,13 +56,16 @@ public:
             for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
-                        float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        T sum = T(0);
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) continue;
+                                    sum += inputData.at({b, ic, ih, iw}) * 
+                                        weightData.at({oc, ic, kh, kw});
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
@@ -97,35 +100,28 @@ public:
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
-        // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
-            }
-        }
+        TensorType gradInput(inputShape, T(0));
 
-        // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
+        // Every output element contributes to the bias gradient of its channel, and to the
+        // weight and input gradients of the positions its window covers
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                     for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
-                    }
-                }
-                weightGradients->at({0, 0, kh, kw}) = sum;
-            }
-        }
-
-        // Compute input gradients
-        TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+                        T grad = gradOutput.at({b, oc, oh, ow});
+                        biasGradients->at({oc, 0}) += grad;
+
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
+                                    weightGradients->at({oc, ic, kh, kw}) += inputTensor.at({b, ic, ih, iw}) * grad;
+                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * grad;
+                                }
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 999e684cbf718ffae922e360bc34f20d7ed1f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 06/24] fix: MaxPooling2DLayer works with padding

With padding the window started at negative indices and forward threw; the
output size did not count the padding.
---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..93518d0 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -29,8 +29,8 @@ public:
         int inputWidth = input.getShape()[3];
 
         // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -88,10 +88,12 @@ private:
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue; // padding
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue; // padding
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From 2341b33847e4476b14e0a32a29fcbf1c9d425de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 07/24] fix: FlattenLayer remembers the shape of every forward
 input

A rank-2 input left the shape unset (backward then read an empty optional) or
left the shape of an earlier input.
---
 smart_dnn/Layers/FlattenLayer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..3337f5d 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
@@ -48,6 +49,10 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("FlattenLayer: forward must be called before backward");
+        }
+
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From 9c0793d15b8cfccc21ad6e0b13ea7d7272f2703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 08/24] fix: FullyConnectedLayer returns the input gradient in
 the input's shape

For a rank-1 input the gradient had rank 2, which an activation layer in front
of it rejects.
---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..76f84ac 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -84,6 +84,11 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        // A non-batched input gets a gradient of its own shape
+        if ((*input).getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, (*input).getShape());
+        }
+
         return gradInput;
     }
 
-- 
2.43.0


From c420508ce7196b3683d915cb4da983b1a809e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 09/24] fix: DropoutLayer drops each element with the given
 probability and scales the gradient

The mask came from a He normal draw, so the drop rate was not dropoutRate;
backward left out the 1/(1-rate) factor of forward and read an unset mask.
---
 smart_dnn/Regularisation/DropoutLayer.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..5603380 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -3,6 +3,7 @@
 
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Layer.hpp"
+#include "smart_dnn/RandomEngine.hpp"
 
 namespace smart_dnn {
 
@@ -14,8 +15,11 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            // Each element is dropped with probability dropoutRate
+            mask = TensorType(input.getShape());
+            for (auto& keep : mask->getData()) {
+                keep = T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0);
+            }
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
@@ -23,13 +27,13 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+        if (!this->trainingMode) {
+            return gradOutput; // No dropout during inference
         }
-        if (this->trainingMode) {
-            return gradOutput * (*mask);
+        if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
         }
-        return gradOutput;
+        return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
     }
 
 private:
-- 
2.43.0


From 5a8963557edbccc1cbcb48df3a44d122ed263b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 10/24] fix: BatchNormalizationLayer input gradient, 4D inputs
 and running statistics

backward read a dimension that a rank-1 sum does not have, divided by the batch
size alone for 4D inputs and got the variance term wrong; a 4D forward gave the
running statistics a 4D shape.
---
 .../Regularisation/BatchNormalizationLayer.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..fd433c2 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -40,8 +40,8 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            runningMean = (momentum * runningMean) + ((1 - momentum) * reshapeForBroadcast(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * reshapeForBroadcast(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
@@ -62,7 +62,7 @@ public:
 
         const auto& inputShape = gradOutput.getShape();
         
-        int batchSize = inputShape[0];
+        int batchSize = inputShape.size() / numFeatures; // Elements normalised together, per feature
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -78,7 +78,7 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev;
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
@@ -86,11 +86,11 @@ public:
 
         
         TensorType dInput = dNormalized * invStdDev +
-                            dVariance * T(2) * (*normalizedInput) / T(batchSize) +
+                            dVariance * T(2) * (*normalizedInput) * stdDev / T(batchSize) +
                             dMean / T(batchSize);
 
-        gammaGrad = dGamma;
-        betaGrad = dBeta;
+        gammaGrad = reshapeForBroadcast(dGamma, gamma.getShape());
+        betaGrad = reshapeForBroadcast(dBeta, beta.getShape());
 
         return dInput;
     }
@@ -123,7 +123,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = numFeatures;  // Preserve the channel dimension
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From 1a170b2b8afa5e0f10296aa291d4f377325cb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 11/24] fix: CategoricalCrossEntropyLoss::gradient is the
 derivative of compute

It returned the derivative with respect to the logits of a softmax, which the
Softmax activation then differentiated a second time.
---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..d8e4a3b 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -62,7 +62,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From 574ecc69d9d1e139e006822aeae1fdc09d4dbec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 12/24] fix: AdamOptimizer corrects the bias once and counts
 the steps of each tensor

The step size already held both corrections and the moments were corrected
again; the step count advanced once per layer instead of once per update.
---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 31 +++++++++++++-------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..cc2cfd1 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -32,7 +32,6 @@ public:
           l1Strength(options.l1Strength),
           l2Strength(options.l2Strength),
           decay(options.decay),
-          iterations(0),
           batchSize(options.batchSize) {}
 
     void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& weights,
@@ -42,10 +41,8 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
-        updateLearningRate(learningRateOverride);
-
         for (size_t i = 0; i < weights.size(); ++i) {
-            updateTensor(weights[i].get(), gradients[i].get());
+            updateTensor(weights[i].get(), gradients[i].get(), learningRateOverride);
         }
     }
 
@@ -58,13 +55,12 @@ private:
     T l1Strength;
     T l2Strength;
     T decay;
-    int iterations;
     int batchSize;
+    std::unordered_map<size_t, int> iterations;  // Number of updates of each tensor
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
 
-    void updateLearningRate(T learningRateOverride) {
-        iterations++;
+    void updateLearningRate(T learningRateOverride, int iterations) {
         if (learningRateOverride <= T(0)) {
             learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
         } else {
@@ -72,13 +68,16 @@ private:
         }
     }
 
-    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient) {
+    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T learningRateOverride) {
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
+        // Every tensor has its own time step, whatever else the optimizer updates
+        int step = ++iterations[key];
+        updateLearningRate(learningRateOverride, step);
+
+        T beta1Correction = T(1 - std::pow(beta1, step));
+        T beta2Correction = T(1 - std::pow(beta2, step));
 
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
@@ -88,7 +87,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], beta1Correction, beta2Correction);
         }
     }
 
@@ -99,7 +98,7 @@ private:
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T beta1Correction, T beta2Correction) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -110,9 +109,9 @@ private:
         vValue = beta2 * vValue + (T(1) - beta2) * averagedGradient * averagedGradient;
 
         // Compute update
-        T mHat = mValue / (T(1) - std::pow(beta1, iterations));
-        T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T mHat = mValue / beta1Correction;
+        T vHat = vValue / beta2Correction;
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From 811c4b97bcbfadae6fd7d7ac00b1c7ae81aeea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 13/24] fix: sum over every axis gives shape {1}, and mean
 checks its axes

sum(tensor, axes) over all axes (and so variance) tried to build an empty shape;
mean(tensor, axes) ignored a bad axis when there were as many axes as dimensions.
---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..fd1d9e3 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -87,6 +87,9 @@ class AdvancedTensorOperations<T, CPUDevice> {
                 finalShape.push_back(newShape[i]);
             }
         }
+        if (finalShape.empty()) {
+            finalShape.push_back(1); // Every axis was summed
+        }
 
         result.reshape(Shape(finalShape));
 
@@ -100,11 +103,17 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
-        if (axes.empty() || axes.size() == tensor.getShape().rank()) {
+        const auto& shape = tensor.getShape();
+        for (size_t axis : axes) {
+            if (axis >= shape.rank()) {
+                throw std::invalid_argument("Invalid axis for mean calculation");
+            }
+        }
+
+        if (axes.empty() || axes.size() == shape.rank()) {
             return mean(tensor);
         }
 
-        const auto& shape = tensor.getShape();
         Tensor<T> result = tensor;
         int totalElements = 1;
 
@@ -122,9 +131,6 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::sort(sortedAxes.begin(), sortedAxes.end(), std::greater<size_t>());
 
         for (size_t axis : sortedAxes) {
-            if (axis >= result.getShape().rank() || axis < 0) {
-                throw std::invalid_argument("Invalid axis for mean calculation");
-            }
             result = sum(result, axis);
         }
 
-- 
2.43.0


From 73fd5f620d83dd55d6dcb2f762e5f9c9e354ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 14/24] fix: SliceView stops at the end of each slice

The end index was computed and dropped, so every view ran to the end of its axis.
---
 smart_dnn/Tensor/SliceView.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..d4d5b8b 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,12 +16,13 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int dim_size = (end_indices_[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
@@ -60,6 +61,7 @@ public:
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From e69b4ed173e7071fcf3395bbfc5d4067b11cde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 15/24] fix: transpose and createRandom share no mutable state
 between OpenMP threads

transpose kept one pair of index vectors for all threads; createRandom drew from
the one random engine in all of them.
---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 5 +++--
 smart_dnn/Tensor/TensorOperations.hpp         | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index fd1d9e3..781d8fe 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -221,12 +221,13 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
+
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..4c612ad 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -302,7 +302,7 @@ public:
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
         
-        #pragma omp parallel for
+        // The random engine is shared, so the values are drawn one after the other
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From 40d428e5b40ae07fdc7faa6c51730ba33a708bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 16/24] fix: Tanh does not overflow for large inputs, Sigmoid
 computes in T

Tanh gave NaN once exp(2x) overflowed; Sigmoid<double> went through float.
---
 smart_dnn/Activations/Sigmoid.hpp | 2 +-
 smart_dnn/Activations/Tanh.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 0c7665a..57bf66f 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -20,7 +20,7 @@ class Sigmoid : public Activation<T> {
     using TensorType = Tensor<T>;
 public:
     TensorType forward(const TensorType& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](float x) { return T(1) / (T(1) + std::exp(-x)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return T(1) / (T(1) + std::exp(-x)); });
     }
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From cec038fcc5976248dad7a331b2b5afcb8454978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 17/24] fix: centred RMSProp does not turn weights into NaN

The variance of nearly constant gradients can round below zero.
---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..d5726e3 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -99,7 +99,8 @@ private:
                 meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;
                 
                 // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
-                T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
+                // (the variance is never negative, but its rounding error can be)
+                T variance = std::max(sqGradsData[j] - meanGradsData[j] * meanGradsData[j], T(0));
                 denom = std::sqrt(variance + epsilon);
             } else {
                 // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
-- 
2.43.0


From abf6f33765d2dc6e29d713ffa14ae072c0ec6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:19 +0000
Subject: [PATCH 18/24] fix: MNISTLoader rejects files that end early

Missing pixels were read as 255 (and so as valid data), missing headers as garbage.
---
 smart_dnn/Datasets/MNistLoader.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..f4a845e 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -82,7 +82,7 @@ private:
             for (int j = 0; j < currentBatchSize; ++j) { // Read the actual batch size
                 for (int k = 0; k < numRows; ++k) {
                     for (int l = 0; l < numCols; ++l) {
-                        unsigned char pixel = file.get();
+                        unsigned char pixel = readByte(file);
                         image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                         if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                             throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
@@ -118,7 +118,7 @@ private:
 
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
-                unsigned char digit = file.get();
+                unsigned char digit = readByte(file);
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -127,9 +127,20 @@ private:
         return labels;
     }
 
+    unsigned char readByte(std::ifstream& file) {
+        int byte = file.get();
+        if (!file) {
+            throw std::runtime_error("MNIST file ends before its last sample!");
+        }
+        return static_cast<unsigned char>(byte);
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
         file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file) {
+            throw std::runtime_error("MNIST file ends in its header!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From 9569bf87bed3a0c7eaf94bae1f95967bce7354e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 19/24] fix: FullyConnectedLayer does not remember an input it
 rejected

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 76f84ac..991bc2a 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -30,7 +30,6 @@ public:
     */
     
     TensorType forward(const TensorType& input) override {
-        this->input = input;
         TensorType reshapedInput = input;
         if (input.getShape().rank() == 1) {
             reshapedInput = AdvancedTensorOperations<T>::reshape(input, {1, input.getShape()[0]});
@@ -38,6 +37,9 @@ public:
         TensorType output = AdvancedTensorOperations<T>::matmul(reshapedInput, *weights);
         output = output + *biases;
 
+        // A rejected input is not remembered
+        this->input = input;
+
         if (input.getShape().rank() == 1) {
             output = AdvancedTensorOperations<T>::reshape(output, {output.getShape()[1]});
         }
-- 
2.43.0


From 97aaf1ee85339432dbad2cd1b90ca4d9b252c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 20/24] fix: toAsciiArt renders images of any size

---
 smart_dnn/Datasets/MNistLoader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index f4a845e..99f7a65 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -24,8 +24,8 @@ public:
 
     std::string toAsciiArt(Tensor<T> input) {
         std::ostringstream oss;
-        const int height = 28;
-        const int width = 28;
+        const int height = input.getShape()[input.getShape().rank() - 2];
+        const int width = input.getShape()[input.getShape().rank() - 1];
         const char* asciiChars = " .:-=+*#%@";  // 10 levels of intensity
         const int numLevels = 10;
 
-- 
2.43.0


From a636fadbbcbccd20aaef4311f5b99101d8ee05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 21/24] fix: SGD and RMSProp keep their state per parameter
 tensor and per optimizer

State was keyed by the address of the parameter's data, which another tensor
may get after an assignment (setWeights), and shared between copies.
---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 46 ++++++++++-------------
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 14 ++++---
 2 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index d5726e3..4122bf1 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -45,42 +45,34 @@ public:
     }
 
 private:
+    using Buffers = std::unordered_map<uintptr_t, Tensor<T>>;
+
+    static T* buffer(Buffers& buffers, uintptr_t key, const Shape& shape) {
+        auto found = buffers.find(key);
+        if (found == buffers.end() || found->second.getShape() != shape) {
+            found = buffers.insert_or_assign(key, Tensor<T>(shape, T(0))).first;
+        }
+        return found->second.getData().data();
+    }
+
     void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T currentLR) {
         const T* weightData = weight.getData().data();
         const T* gradData = gradient.getData().data();
         T* weightMutableData = weight.getData().data();
         
         size_t size = weight.getShape().size();
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
+        // The tensor is its identity: its data moves when it is assigned to, and another tensor may
+        // then get the old address.
+        auto key = reinterpret_cast<uintptr_t>(&weight);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
-            squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-        }
-        auto& sqGrads = *squaredGrads[weightsPtr];
-        T* sqGradsData = sqGrads.getData().data();
+        T* sqGradsData = buffer(squaredGrads, key, weight.getShape());
         
         // For centered RMSProp, also track the mean of gradients
-        std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
-        T* meanGradsData = nullptr;
-        if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
-                meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            meanGradsPtr = meanGrads[weightsPtr];
-            meanGradsData = meanGradsPtr->getData().data();
-        }
+        T* meanGradsData = centered ? buffer(meanGrads, key, weight.getShape()) : nullptr;
         
         // For momentum, track velocity buffer
-        std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
-        T* velocityData = nullptr;
-        if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
-                velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            velocityPtr = velocityBuffers[weightsPtr];
-            velocityData = velocityPtr->getData().data();
-        }
+        T* velocityData = (momentum > T(0)) ? buffer(velocityBuffers, key, weight.getShape()) : nullptr;
         
         for (size_t j = 0; j < size; ++j) {
             T grad = gradData[j];
@@ -129,9 +121,9 @@ private:
     T weightDecay;
     
     // Store state buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> squaredGrads;
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> meanGrads;      // For centered RMSProp
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> velocityBuffers; // For momentum
+    Buffers squaredGrads;
+    Buffers meanGrads;      // For centered RMSProp
+    Buffers velocityBuffers; // For momentum
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..0d2d528 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -50,15 +50,17 @@ private:
         
         size_t size = weight.getShape().size();
         
-        // Get or create momentum buffer for this tensor
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
+        // Get or create momentum buffer for this tensor. The tensor is its identity: its data moves
+        // when it is assigned to, and another tensor may then get the old address.
+        auto key = reinterpret_cast<uintptr_t>(&weight);
         
         // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
-            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+        auto found = momentumBuffers.find(key);
+        if (found == momentumBuffers.end() || found->second.getShape() != weight.getShape()) {
+            found = momentumBuffers.insert_or_assign(key, Tensor<T>(weight.getShape(), T(0))).first;
         }
         
-        auto& momentumBuffer = *momentumBuffers[weightsPtr];
+        auto& momentumBuffer = found->second;
         
         T* momentumData = momentumBuffer.getData().data();
         
@@ -95,7 +97,7 @@ private:
     bool nesterov;
     
     // Store momentum buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> momentumBuffers;
+    std::unordered_map<uintptr_t, Tensor<T>> momentumBuffers;
 };
 
 } // namespace smart_dnn
-- 
2.43.0


From f24bc69c3debf0596722313c8f06e617ef36fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 22/24] fix: Adam starts afresh when a parameter tensor changes
 its shape

The moment estimates kept the old size and were read and written out of bounds.
---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index cc2cfd1..a2e7cc6 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -92,9 +92,12 @@ private:
     }
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
-            m.emplace(key, Tensor<T>(shape, T(0)));
-            v.emplace(key, Tensor<T>(shape, T(0)));
+        auto found = m.find(key);
+        if (found == m.end() || found->second.getShape() != shape) {
+            // A tensor that was given another shape starts afresh
+            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            iterations[key] = 0;
         }
     }
 
-- 
2.43.0


From fbf8d178bb728caace3a10ee3d5d06847f8ca4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 23/24] fix: MNIST header fields above 2^31 are rejected
 instead of loading nothing

---
 smart_dnn/Datasets/MNistLoader.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 99f7a65..806abe8 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -141,6 +141,9 @@ private:
         if (!file) {
             throw std::runtime_error("MNIST file ends in its header!");
         }
+        if (buffer[0] > 127) {
+            throw std::runtime_error("MNIST header field out of range!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From 4c6dad3d004aee3124f1209e0ca8e35c2fcc09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 24/24] fix: random tensors of doubles stay within their exact
 bounds

---
 smart_dnn/Tensor/TensorOperations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4c612ad..daa28e3 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -304,7 +304,8 @@ public:
         
         // The random engine is shared, so the values are drawn one after the other
         for (size_t i = 0; i < result.size(); ++i) {
-            result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
+            T value = RandomEngine::getHeRandRange(shape.size(), min, max);
+            result[i] = std::min(std::max(value, min), max); // min and max may not be representable as float
         }
 
         return result;
-- 
2.43.0

