// driver TU: asynchronous I/O schedulers (the .cpp files themselves)
#include "abstractio/linux_aio_scheduler.cpp"
#include "abstractio/thread_pool_aio_scheduler.cpp"
#include "abstractio/scheduler.cpp"
