// io.cpp over the thread-pool reader
#undef ALAYA_LASER_USE_LIBAIO
#define ALAYA_LASER_USE_THREADPOOL 1
#define VF_POOL 1
#include "io.cpp"
