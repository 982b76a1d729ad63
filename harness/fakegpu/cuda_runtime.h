#pragma once
#include "fakegpu.h"
typedef FakeEvent_t cudaEvent_t;
typedef void *cudaStream_t;
typedef FakeError cudaError_t;
constexpr FakeError cudaSuccess = FakeSuccess;
constexpr FakeError cudaErrorNotReady = FakeNotReady;
constexpr FakeError cudaErrorInvalidResourceHandle = FakeInvalidHandle;
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return fakeEventCreate(e); }
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) { return fakeEventCreate(e); }
inline cudaError_t cudaEventDestroy(cudaEvent_t e) { return fakeEventDestroy(e); }
inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t = 0) { return fakeEventRecord(e); }
inline cudaError_t cudaEventQuery(cudaEvent_t e) { return fakeEventQuery(e); }
inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { return fakeEventSynchronize(e); }
inline cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t a, cudaEvent_t b) { return fakeEventElapsedTime(ms, a, b); }
inline const char *cudaGetErrorString(cudaError_t) { return "fake error"; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
