// Random binarized networks, the bytes of their models, and what they compute.
#pragma once
#include <string>
#include <vector>
#include "lcesim.h"
#include "tensorflow/lite/interpreter.h"
namespace lcesim {
enum OpKind { OpQuantize, OpConv, OpPool, OpDequantize, OpCrop };
enum Impl { kImplRef = 1, kImplOpt = 2, kImplInd = 4 };
struct TensorSpec {
  TfLiteType type = kTfLiteFloat32;
  bool packed = false;  // int32 words of +1/-1 values
  int channels = 0;     // true channels
  float scale = 1;
  int zp = 0;
};
struct NodeSpec {
  OpKind kind = OpQuantize;
  int in = 0, out = 0;
  // convolution and pooling
  int cin = 0, cout = 0, fh = 1, fw = 1, sh = 1, sw = 1, dh = 1, dw = 1, groups = 1, act = 0, pad_value = 1;
  bool same = true;
  std::vector<signed char> filter;  // [cout][fh][fw][cin/groups], +1/-1
  std::vector<float> mul, bias;
  std::vector<int> thr;
  int filter_of = -1;               // node whose filter constant is shared
  std::string options_name;
};
struct NetSpec {
  std::vector<TensorSpec> t;
  std::vector<NodeSpec> nodes;
  int input = 0;
  std::vector<int> outputs;
  std::vector<int> in_dims;   // N,H,W
  bool exact = false;         // values chosen so that float arithmetic is exact
  bool fixed_shape = false;   // a dequantize fixes the size
  bool has_crop = false;
  int impls = 0;
};
struct GenOptions {
  int want_impls = 0;         // implementations the network has to be valid for
  int max_layers = 4;
  bool exact = false;
  bool crop = false;
  bool odd_channels = false;  // bias towards channel counts that need padding bits
  bool branches = true;
  bool small = false;
  bool dequantize = true;
  bool share_filters = false;
  bool words = false;         // wide inputs, groups of several words, sums around 16 bits
  long work = 60000;
};
NetSpec gen_net(Rng& r, const GenOptions& o);
typedef std::vector<std::vector<int>> Shapes;  // [N,H,W] per tensor
bool shapes_of(const NetSpec& n, const std::vector<int>& in, int crop, Shapes* out);
bool shape_ok(const NetSpec& n, const std::vector<int>& in);
struct Model {
  NetSpec net;
  tflite::Graph graph;
};
// An option written into (or left out of) a custom operator's description.
struct Opt { std::string name; long value; bool is_bool = false; };
std::vector<Opt> node_options(const NetSpec& n, const NodeSpec& s);
std::string write_flexbuffer(std::vector<Opt> opts, int width_log2);
void build_graph(Model* m, Rng& r);
std::vector<char> gen_input(const NetSpec& n, const std::vector<int>& dims, Rng& r, bool special);
std::size_t input_bytes(const NetSpec& n, const std::vector<int>& dims);
// Checks one operator that just ran against its arithmetic definition.
void check_node(const Model& m, tflite::Interpreter* it, int node, const char* what, bool arithmetic, bool check_padding);
// Runs the equivalent +1/-1 network on the input and compares network outputs.
void check_network(const Model& m, tflite::Interpreter* it, const std::vector<int>& dims, const std::vector<char>& input, const char* what);
void register_ops(tflite::MutableOpResolver* r, bool ref, bool indirect);
}  // namespace lcesim
