// Replays TensorLife behaviours on the real OMTensor / OMTensorList API and
// prints the projected state after each call.
#include "hx.hpp"
#include "onnx-mlir/Runtime/OMTensor.h"
#include "onnx-mlir/Runtime/OMTensorList.h"
#ifdef LIFE_C
extern "C" {
#endif
OMTensor *omTensorCreateUntyped(int64_t rank);
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
#ifdef LIFE_C
}
#endif
static const int M = 8;
static char *buf[M];         // base address of each buffer slot
static int bst[M];           // 0 none, 1 allocated
static OMTensor *ten[M];
static OMTensorList *lst[M];
static int NB, NT, NL;
static const int64_t shp[2] = {4, 8};
static void setBuf(int b, void *p) { buf[b] = (char *)p; bst[b] = 1; hx::watch[b] = p; hx::freed[b] = 0; hx::nwatch = M; }
static int which(void *p, int &off) {
  off = 0;
  if (!p) return 0;
  for (int b = 1; b <= NB; ++b)
    if (buf[b] && (char *)p >= buf[b] && (char *)p < buf[b] + 128) { off = (int)((char *)p - buf[b]); return b; }
  off = 0;
  return -1;
}
static std::string project() {
  std::ostringstream o;
  o << "{\"buf\":[";
  for (int b = 1; b <= NB; ++b) {
    const char *s = !bst[b] ? "none" : hx::freed[b] == 0 ? "live" : hx::freed[b] == 1 ? "gone" : "freed-more-than-once";
    o << (b > 1 ? "," : "") << "\"" << s << "\"";
  }
  o << "],\"ten\":[";
  for (int t = 1; t <= NT; ++t) {
    o << (t > 1 ? "," : "");
    if (!ten[t]) { o << "{\"k\":0,\"b\":0,\"own\":0,\"al\":0}"; continue; }
    int off, off2;
    int b = which(omTensorGetAllocatedPtr(ten[t]), off), b2 = which(omTensorGetDataPtr(ten[t]), off2);
    o << "{\"k\":1,\"b\":" << b << ",\"own\":" << omTensorGetOwning(ten[t]) << ",\"al\":" << (b != b2 || off ? -1 : off2 == 0 ? 0 : off2 == 16 ? 1 : -2) << "}";
  }
  o << "],\"lst\":[";
  std::string bad;
  for (int l = 1; l <= NL; ++l) {
    o << (l > 1 ? "," : "");
    if (!lst[l]) { o << "{\"k\":0,\"it\":[]}"; continue; }
    int64_t n = omTensorListGetSize(lst[l]);
    o << "{\"k\":1,\"it\":[";
    for (int64_t i = 0; i < n && i < 10; ++i) {
      OMTensor *p = omTensorListGetOmtByIndex(lst[l], i);
      int id = 0;
      for (int t = 1; t <= NT; ++t) if (ten[t] == p) id = t;
      if (omTensorListGetOmtArray(lst[l])[i] != p) bad += " array-differs";
      o << (i ? "," : "") << id;
    }
    o << "]}";
    if (omTensorListGetOmtByIndex(lst[l], -1) || omTensorListGetOmtByIndex(lst[l], n) || omTensorListGetOmtByIndex(lst[l], n + 1)) bad += " out-of-range-index";
    if (n == 0 && omTensorListGetOmtByIndex(lst[l], 0)) bad += " index-in-empty";
  }
  // null handles
  if (omTensorGetDataPtr(0) || omTensorGetAllocatedPtr(0) || omTensorGetShape(0) || omTensorGetStrides(0) ||
      omTensorGetDataType(0) != ONNX_TYPE_UNDEFINED || omTensorGetBufferSize(0) || omTensorGetRank(0) ||
      omTensorGetNumElems(0) || omTensorGetOwning(0)) bad += " null-tensor-getter";
  omTensorSetDataPtr(0, 1, 0, 0); omTensorSetShape(0, shp); omTensorSetStrides(0, shp); omTensorSetOwning(0, 1);
  omTensorSetDataType(0, ONNX_TYPE_FLOAT); omTensorDestroy(0); omTensorListDestroy(0); omTensorListDestroyShallow(0);
  if (omTensorListGetSize(0) || omTensorListGetOmtArray(0) || omTensorListGetOmtByIndex(0, 0)) bad += " null-list-getter";
  o << "],\"bad\":" << hx::jstr(bad) << ",\"leak\":";
  return o.str();
}
int main(int argc, char **argv) {
  NB = atoi(argv[1]); NT = atoi(argv[2]); NL = atoi(argv[3]);
  hx::installHeap();
  hx::loop([&](const std::vector<std::string> &w, const std::string &) {
    const std::string &op = w[0];
    auto I = [&](int i) { return atoi(w[i].c_str()); };
    long leak = 0;
    {
      if (op == "RESET") {
        {
          hx::Track tr;
          for (int l = 1; l <= NL; ++l) if (lst[l]) { omTensorListDestroyShallow(lst[l]); lst[l] = 0; }
          for (int t = 1; t <= NT; ++t) if (ten[t]) { omTensorDestroy(ten[t]); ten[t] = 0; }
        }
        std::string bad;
        for (int b = 1; b <= NB; ++b) {
          if (bst[b] && !hx::freed[b]) free(buf[b]);
          if (bst[b] && hx::freed[b] != 1) bad = "buffer released " + std::to_string(hx::freed[b]) + " times";
        }
        for (int b = 1; b <= NB; ++b) { bst[b] = 0; buf[b] = 0; hx::watch[b] = 0; hx::freed[b] = 0; }
        leak = hx::liveTracked;
        hx::heapReset();
        std::string p = project();
        if (!bad.empty()) p = "{\"bad\":" + hx::jstr(bad) + ",\"leak\":";
        hx::reply(p + std::to_string(leak) + "}");
        return;
      }
      if (op == "AllocBuf") { void *p; { p = malloc(128); } setBuf(I(1), p); }
      else if (op == "FreeBuf") { free(buf[I(1)]); }
      else {
        hx::Track tr;
        auto ptr = [&](int b) -> void * { return b ? buf[b] : nullptr; };
        if (op == "Create") ten[I(1)] = omTensorCreate(ptr(I(2)), shp, 2, ONNX_TYPE_FLOAT);
        else if (op == "CreateOwn") ten[I(1)] = omTensorCreateWithOwnership(ptr(I(2)), shp, 2, ONNX_TYPE_FLOAT, I(3));
        else if (op == "CreateEmpty") {
          ten[I(1)] = omTensorCreateEmpty(shp, 2, ONNX_TYPE_FLOAT);
          hx::track = false;
          void *d = omTensorGetDataPtr(ten[I(1)]);
          memset(d, 1, 128);
          setBuf(I(2), d);
        } else if (op == "CreateEmptyBad") ten[I(1)] = omTensorCreateEmpty(shp, 2, ONNX_TYPE_UNDEFINED);
        else if (op == "CreateUntyped") ten[I(1)] = omTensorCreateUntyped(2);
        else if (op == "SetData") {
          char *b = (char *)ptr(I(3));
          omTensorSetDataPtr(ten[I(1)], I(2), b, I(4) ? b + 16 : nullptr);
        } else if (op == "SetOwning") omTensorSetOwning(ten[I(1)], I(2));
        else if (op == "Destroy") { omTensorDestroy(ten[I(1)]); ten[I(1)] = 0; }
        else if (op == "ListCreate") {
          hx::track = false;
          auto its = hx::ints(w[2]);
          // the list must copy the array it is given
          OMTensor **a = (OMTensor **)malloc(sizeof(OMTensor *) * (its.size() + 1));
          for (size_t i = 0; i < its.size(); ++i) a[i] = ten[its[i]];
          hx::track = true;
          lst[I(1)] = omTensorListCreate(a, its.size());
          hx::track = false;
          memset(a, 0xee, sizeof(OMTensor *) * (its.size() + 1));
          free(a);
        } else if (op == "ListDestroy") {
          hx::track = false;
          std::vector<int> del;
          for (int64_t i = 0; i < omTensorListGetSize(lst[I(1)]); ++i)
            for (int t = 1; t <= NT; ++t) if (ten[t] && ten[t] == omTensorListGetOmtByIndex(lst[I(1)], i)) del.push_back(t);
          hx::track = true;
          omTensorListDestroy(lst[I(1)]);
          lst[I(1)] = 0;
          for (int t : del) ten[t] = 0;
        } else if (op == "ListDestroyShallow") { omTensorListDestroyShallow(lst[I(1)]); lst[I(1)] = 0; }
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
      }
    }
    hx::reply(project() + "0}");
  });
}
