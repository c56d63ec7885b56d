// Stand-in for the CUDA part of Utils/CUDAUtils.h (the real header without USE_CUDA, plus host-only streams and events).
#pragma once
#include_next "Utils/CUDAUtils.h"
#include <nccl.h>
#include <sched.h>
#include <string>
#include <unordered_map>
namespace tinytorch::cuda {
class CudaDeviceGuard {
 public:
  explicit CudaDeviceGuard(int) {}
};
struct CUDAStream {
  CUDAStream() = default;
  explicit CUDAStream(int device) : dev(device), ok(true) {}
  CUDAStream(const CUDAStream&) = delete;
  CUDAStream& operator=(const CUDAStream&) = delete;
  CUDAStream(CUDAStream&&) noexcept = default;
  CUDAStream& operator=(CUDAStream&&) noexcept = default;
  void synchronize() const;
  void waitStream(const CUDAStream& other) const;
  cudaStream_t stream() const { return reinterpret_cast<cudaStream_t>(const_cast<CUDAStream*>(this)); }
  int deviceIdx() const { return dev; }
  bool valid() const { return ok; }
  int dev = -1, id = 0;
  bool ok = false;
};
struct CUDAEvent {
  CUDAEvent() = default;
  explicit CUDAEvent(int device, unsigned int = 0) : dev(device), ok(true) {}
  CUDAEvent(const CUDAEvent&) = delete;
  CUDAEvent& operator=(const CUDAEvent&) = delete;
  CUDAEvent(CUDAEvent&&) noexcept = default;
  CUDAEvent& operator=(CUDAEvent&&) noexcept = default;
  void record(const CUDAStream&) const;
  void block(const CUDAStream&) const;
  bool query() const;
  int deviceIdx() const { return dev; }
  bool valid() const { return ok; }
  int dev = -1;
  bool ok = false;
  mutable int on = -1;      // what has to be done for the event: a position on a stream
  mutable size_t upTo = 0;
};
CUDAStream createCUDAStream(int device);
CUDAEvent createCUDAEvent(int device, unsigned int flags = 0);
CUDAStream& getCurrentCUDAStream(int device);
}  // namespace tinytorch::cuda
