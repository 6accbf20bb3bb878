#include "runtime.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"

extern "C" {
size_t TfLiteIntArrayGetSizeInBytes(int size) { return sizeof(TfLiteIntArray) + sizeof(int) * (size_t)(size < 0 ? 0 : size); }
TfLiteIntArray* TfLiteIntArrayCreate(int size) {
  auto* a = (TfLiteIntArray*)calloc(1, TfLiteIntArrayGetSizeInBytes(size));
  a->size = size;
  return a;
}
int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int n, const int b[]) {
  if (!a) return n == 0;
  if (a->size != n) return 0;
  for (int i = 0; i < n; i++)
    if (a->data[i] != b[i]) return 0;
  return 1;
}
int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b) {
  if (a == b) return 1;
  if (!a || !b) return 0;
  return TfLiteIntArrayEqualsArray(a, b->size, b->data);
}
TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* s) {
  if (!s) return nullptr;
  auto* r = TfLiteIntArrayCreate(s->size);
  memcpy(r->data, s->data, sizeof(int) * s->size);
  return r;
}
void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
TfLiteFloatArray* TfLiteFloatArrayCreate(int size) {
  auto* a = (TfLiteFloatArray*)calloc(1, sizeof(TfLiteFloatArray) + sizeof(float) * size);
  a->size = size;
  return a;
}
void TfLiteFloatArrayFree(TfLiteFloatArray* a) { free(a); }
const char* TfLiteTypeGetName(TfLiteType) { return "a type"; }
}

namespace rt {
namespace {
struct World {
  TfLiteContext c{};
  std::vector<TfLiteTensor> t;
  std::vector<std::unique_ptr<char[]>> memory;
  std::string log;
  void Data(TfLiteTensor* t, size_t bytes) {
    memory.push_back(std::make_unique<char[]>(bytes + 256));
    memset(memory.back().get(), 0x5a, bytes + 256);
    t->data.raw = memory.back().get();
    t->bytes = bytes;
  }
};
size_t Size(TfLiteType t) { return t == kTfLiteInt8 || t == kTfLiteBool ? 1 : 4; }
TfLiteStatus Resize(TfLiteContext* c, TfLiteTensor* t, TfLiteIntArray* s) {
  auto* w = (World*)c->impl_;
  size_t n = Size(t->type);
  for (int i = 0; i < s->size; i++) n *= s->data[i];
  TfLiteIntArrayFree(t->dims);
  t->dims = s;
  w->Data(t, n);
  return kTfLiteOk;
}
TfLiteStatus Add(TfLiteContext* c, int n, int* first) {
  auto* w = (World*)c->impl_;
  *first = (int)w->t.size();
  for (int i = 0; i < n; i++) {
    TfLiteTensor t{};
    t.allocation_type = kTfLiteArenaRw;
    t.dims = TfLiteIntArrayCreate(0);
    w->t.push_back(t);
  }
  c->tensors = w->t.data();
  c->tensors_size = w->t.size();
  return kTfLiteOk;
}
void Report(TfLiteContext* c, const char* m, ...) {
  char b[400];
  va_list a;
  va_start(a, m);
  vsnprintf(b, sizeof b, m, a);
  va_end(a);
  ((World*)c->impl_)->log += b;
}
TfLiteTensor Make(World& w, const ev::Tensor& s, bool fill) {
  TfLiteTensor t{};
  t.type = s.kind == ev::F32 ? kTfLiteFloat32 : s.kind == ev::BOOL ? kTfLiteBool : s.kind == ev::QUANT ? kTfLiteInt8 : kTfLiteInt32;
  t.dims = TfLiteIntArrayCreate((int)s.shape.size());
  for (size_t i = 0; i < s.shape.size(); i++) t.dims->data[i] = (int)s.shape[i];
  t.allocation_type = kTfLiteArenaRw;
  if (s.kind == ev::QUANT) {
    t.params = {(float)s.scale, s.zp};
    t.quantization.type = kTfLiteAffineQuantization;
    auto* q = (TfLiteAffineQuantization*)calloc(1, sizeof(TfLiteAffineQuantization));
    q->scale = TfLiteFloatArrayCreate(1);
    q->scale->data[0] = (float)s.scale;
    q->zero_point = TfLiteIntArrayCreate(1);
    q->zero_point->data[0] = s.zp;
    t.quantization.params = q;
  }
  w.Data(&t, Size(t.type) * s.size());
  if (fill)
    for (size_t i = 0; i < s.v.size(); i++) {
      if (t.type == kTfLiteFloat32) t.data.f[i] = (float)s.v[i];
      else if (t.type == kTfLiteInt32) t.data.i32[i] = (int32_t)(int64_t)s.v[i];
      else t.data.int8[i] = (int8_t)s.v[i];
    }
  return t;
}
}  // namespace

Outcome Run(const std::string& code, const std::string& options, const std::vector<const ev::Tensor*>& in, const std::vector<bool>& constant, const ev::Tensor& out_type, int kind) {
  using namespace compute_engine::tflite;
  Outcome o;
  TfLiteRegistration* r = nullptr;
  if (code == "LceQuantize") r = Register_QUANTIZE();
  else if (code == "LceDequantize") r = Register_DEQUANTIZE();
  else if (code == "LceBMaxPool2d") r = Register_BMAXPOOL_2D();
  else if (code == "LceBconv2d") r = kind ? Register_BCONV_2D_OPT_INDIRECT_BGEMM() : Register_BCONV_2D_REF();
  if (!r) {
    o.known = false;
    return o;
  }
  World w;
  w.c.impl_ = &w;
  w.c.ResizeTensor = Resize;
  w.c.AddTensors = Add;
  w.c.ReportError = Report;
  w.c.recommended_num_threads = 1;
  TfLiteNode n{};
  n.inputs = TfLiteIntArrayCreate((int)in.size());
  n.outputs = TfLiteIntArrayCreate(1);
  n.temporaries = TfLiteIntArrayCreate(0);
  for (size_t i = 0; i < in.size(); i++) {
    if (in[i]->kind == ev::NONE) {
      n.inputs->data[i] = kTfLiteOptionalTensor;
      continue;
    }
    n.inputs->data[i] = (int)w.t.size();
    w.t.push_back(Make(w, *in[i], true));
    if (constant[i]) w.t.back().allocation_type = kTfLiteMmapRo;
  }
  n.outputs->data[0] = (int)w.t.size();
  w.t.push_back(Make(w, out_type, false));
  w.c.tensors = w.t.data();
  w.c.tensors_size = w.t.size();
  n.custom_initial_data = options.data();
  n.custom_initial_data_size = (int)options.size();
  n.user_data = r->init ? r->init(&w.c, options.data(), options.size()) : nullptr;
  o.accepted = r->prepare(&w.c, &n) == kTfLiteOk;
  if (o.accepted) {
    TfLiteTensor& t = w.t[n.outputs->data[0]];
    o.output = out_type;
    o.output.shape.assign(t.dims->data, t.dims->data + t.dims->size);
    o.ran = r->invoke(&w.c, &n) == kTfLiteOk;
    o.output.v.assign(o.output.size(), 0);
    o.output.e.assign(o.output.size(), 0);
    o.output.unk.assign(o.output.kind == ev::INT ? o.output.size() : 0, 0);
    for (size_t i = 0; i < o.output.v.size(); i++) o.output.v[i] = t.type == kTfLiteFloat32 ? (double)t.data.f[i] : t.type == kTfLiteInt32 ? t.data.i32[i] : t.type == kTfLiteBool ? (t.data.int8[i] != 0) : t.data.int8[i];
  }
  o.log = w.log;
  if (r->free) r->free(&w.c, n.user_data);
  TfLiteIntArrayFree(n.inputs);
  TfLiteIntArrayFree(n.outputs);
  TfLiteIntArrayFree(n.temporaries);
  for (auto& t : w.t) {
    TfLiteIntArrayFree(t.dims);
    if (auto* q = (TfLiteAffineQuantization*)t.quantization.params) {
      TfLiteFloatArrayFree(q->scale);
      TfLiteIntArrayFree(q->zero_point);
      free(q);
    }
  }
  return o;
}
}  // namespace rt
