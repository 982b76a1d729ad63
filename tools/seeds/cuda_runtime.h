// Stand-in for the CUDA event interface: an execution is finished once `done` of its
// stop event is set (or it has been polled `polls` times).
#pragma once
#include <vector>
struct FakeEv { bool done = false; int polls = -1; float ms = 0; };
typedef FakeEv *cudaEvent_t;
typedef int cudaError_t;
enum { cudaSuccess = 0, cudaErrorNotReady = 600 };
enum { cudaEventDefault = 0 };
inline std::vector<FakeEv *> &fakes() { static std::vector<FakeEv *> v; return v; }   // every event: 2 per execution
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) { *e = new FakeEv; fakes().push_back(*e); return 0; }
inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return cudaEventCreateWithFlags(e, 0); }
inline cudaError_t cudaEventDestroy(cudaEvent_t) { return 0; }
inline cudaError_t cudaEventRecord(cudaEvent_t, void *) { return 0; }
inline cudaError_t cudaEventQuery(cudaEvent_t e) { return e->done ? cudaSuccess : cudaErrorNotReady; }
inline cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t, cudaEvent_t stop) {
  if (!stop->done && stop->polls > 0 && --stop->polls == 0) stop->done = true;
  if (!stop->done) return cudaErrorNotReady;
  *ms = stop->ms;
  return 0;
}
inline const char *cudaGetErrorString(cudaError_t) { return "error"; }
inline FakeEv *stopOf(int execution) { return fakes()[2 * execution + 1]; }
