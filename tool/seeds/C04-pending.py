ID="C04-pending"; PROPERTY="C04"
NEEDS="A waiting thread that acquires the pool's mutex exactly between a worker's taking of the last task and its counting of that task."
BREAKS="The worker counts a task as pending only after it has released the mutex under which it dequeued the task, so wait_for_tasks_to_finish() can return while the last task has not even started."
EDITS=[("src/cosim/utility/thread_pool.hpp","""                pending_tasks_++;

                auto task = std::move(work_queue_.front());
                work_queue_.pop();

                lck.unlock();
""","""                auto task = std::move(work_queue_.front());
                work_queue_.pop();

                lck.unlock();
                pending_tasks_++;
"""),("src/cosim/utility/thread_pool.hpp","    unsigned int pending_tasks_;","    std::atomic<unsigned int> pending_tasks_;")]
MOCK=False
DEMO=r'''
#include <vector>
#include "cosim/utility/thread_pool.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
int main()
{
    cosim::utility::thread_pool pool(4);
    const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
    for (long i = 0; std::chrono::steady_clock::now() < end && i < 400000; ++i) {
        std::atomic<int> done{0};
        const int n = 1 + i % 4;
        for (int k = 0; k < n; ++k) pool.submit([&done] { for (volatile int j = 0; j < 200; ++j) { } done.fetch_add(1); });
        for (volatile int j = 0; j < (i % 64) * 16; ++j) { }
        pool.wait_for_tasks_to_finish();
        if (done.load() != n) { std::printf("round %ld: %d of %d tasks done\n", i, done.load(), n); std::fflush(stdout); std::_Exit(1); }
    }
    return 0;
}
'''
