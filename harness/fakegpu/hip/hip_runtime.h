#pragma once
#include "../fakegpu.h"
typedef FakeEvent_t hipEvent_t;
typedef void *hipStream_t;
typedef FakeError hipError_t;
constexpr FakeError hipSuccess = FakeSuccess;
constexpr FakeError hipErrorNotReady = FakeNotReady;
constexpr FakeError hipErrorInvalidResourceHandle = FakeInvalidHandle;
enum { hipEventDefault = 0, hipEventBlockingSync = 1, hipEventDisableTiming = 2 };
inline hipError_t hipEventCreate(hipEvent_t *e) { return fakeEventCreate(e); }
inline hipError_t hipEventCreateWithFlags(hipEvent_t *e, unsigned) { return fakeEventCreate(e); }
inline hipError_t hipEventDestroy(hipEvent_t e) { return fakeEventDestroy(e); }
inline hipError_t hipEventRecord(hipEvent_t e, hipStream_t = 0) { return fakeEventRecord(e); }
inline hipError_t hipEventQuery(hipEvent_t e) { return fakeEventQuery(e); }
inline hipError_t hipEventSynchronize(hipEvent_t e) { return fakeEventSynchronize(e); }
inline hipError_t hipEventElapsedTime(float *ms, hipEvent_t a, hipEvent_t b) { return fakeEventElapsedTime(ms, a, b); }
inline const char *hipGetErrorString(hipError_t) { return "fake error"; }
inline hipError_t hipGetLastError() { return hipSuccess; }
