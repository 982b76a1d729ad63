// Stand-in for the CUDA / HIP event API. An event pair belongs to the execution
// that was being begun when the events were created; the driver decides when the
// device "finishes" that execution and how long it took.
#pragma once
#include <cstddef>
struct FakeEvent;
typedef FakeEvent *FakeEvent_t;
enum FakeError { FakeSuccess = 0, FakeInvalidHandle = 400, FakeNotReady = 600 };
FakeError fakeEventCreate(FakeEvent_t *e);
FakeError fakeEventDestroy(FakeEvent_t e);
FakeError fakeEventRecord(FakeEvent_t e);
FakeError fakeEventQuery(FakeEvent_t e);
FakeError fakeEventSynchronize(FakeEvent_t e);
FakeError fakeEventElapsedTime(float *ms, FakeEvent_t start, FakeEvent_t stop);
