// driver TU: thread pool, instantiated for a void and a value-returning task
#include <sse/schemes/utils/thread_pool.hpp>
namespace vdrv {
struct Job { int id; int operator()(int x) const { return id + x; } };
struct Plain { int id; void operator()() const {} };
void use(ThreadPool& p)
{
    Plain a{1};
    p.enqueue(a);
    Job b{2};
    p.enqueue(b, 5);
}
}
